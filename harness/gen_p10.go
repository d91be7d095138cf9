package main

// P10: output functions.  P11: input functions, bytes of strings, process end.

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"sort"
	"strconv"
	"strings"
)

// libGen makes calls of library functions in a program.
type libGen struct {
	s     *Src
	ds    []*Decl
	class map[string]bool
	vecs  []string // external vectors of bytes, with their sizes in words
	sizes []int64
	nfun  int
	big   bool
	size  int
	vars  []string
}

func (g *libGen) cl(k string) { g.class[k] = true }

func (g *libGen) word() *Expr {
	s := g.s
	switch s.Weighted(5, 1, 1) {
	case 1:
		b := randBytes(s, s.Range(1, 8), true)
		return &Expr{K: EChr, N: chrVal(b), Text: spell(s, b, '\'')}
	case 2:
		if len(g.vars) > 0 {
			return asg("=", name(pick(s, g.vars)), wnum(s))
		}
	}
	return wnum(s)
}

func (g *libGen) strLit(b []byte) *Expr {
	return &Expr{K: EStr, Bytes: b, Text: spell(g.s, b, '"')}
}

// strBytes makes the content of a string without zero bytes, mostly.
func (g *libGen) strBytes(max int) []byte {
	s := g.s
	n := s.N(max)
	if s.P(1, 20) {
		n = s.N(40 * max)
		if s.P(1, 8) {
			n = s.N(700 * max)
		}
	}
	b := randBytes(s, n, false)
	if !s.P(1, 12) {
		for i := range b {
			if b[i] == 0 {
				b[i] = 200
			}
		}
	}
	return b
}

func (g *libGen) strArg() *Expr {
	s := g.s
	b := g.strBytes(14)
	e := g.strLit(b)
	if len(b) > 0 && s.P(1, 5) {
		return bin("+", e, num(int64(s.N(len(b)+1))))
	}
	return e
}

// through calls f directly or through a variable.
func (g *libGen) call(f string, args ...*Expr) *Expr {
	s := g.s
	if s.P(1, 6) && len(g.vars) > 0 {
		g.cl("library function through a pointer")
		v := pick(s, g.vars)
		for _, a := range args { // the pointer must not be changed by an argument
			bad := false
			walkExpr(a, func(e *Expr) { bad = bad || e.K == EAssign })
			if bad {
				return call(f, args...)
			}
		}
		return callE(paren(asg("=", name(v), name(f))), args...)
	}
	return call(f, args...)
}

func (g *libGen) outStmt(depth int) *Stmt {
	s := g.s
	switch k := s.Weighted(4, 3, 3, 3, 12, 5, 1, 4, 2, 2, 1, 1); k {
	case 0:
		g.cl("write")
		return sx(g.call("write", g.word()))
	case 1:
		g.cl("writeb")
		return sx(g.call("writeb", g.word()))
	case 2:
		g.cl("printd")
		return sx(g.call("printd", g.word()))
	case 3:
		g.cl("printo")
		return sx(g.call("printo", g.word()))
	case 4:
		var f []byte
		var args []*Expr
		n := s.N(7)
		if s.P(1, 15) {
			n = s.Range(7, 25)
		}
		for i := 0; i < n; i++ {
			switch s.Weighted(4, 4, 3, 3, 4, 1, 2) {
			case 0:
				f = append(f, g.strBytes(6)...)
			case 1:
				f = append(f, "%d"...)
				args = append(args, g.word())
			case 2:
				f = append(f, "%o"...)
				args = append(args, g.word())
			case 3:
				f = append(f, "%c"...)
				args = append(args, g.word())
			case 4:
				f = append(f, "%s"...)
				args = append(args, g.strArg())
			case 5:
				f = append(f, "%%"...)
			case 6:
				g.cl("printf: unknown conversion")
				c := byte(s.Range(1, 255))
				for bytes.IndexByte([]byte("docs%"), c) >= 0 {
					c++
				}
				f = append(f, '%', c)
			}
		}
		if s.P(1, 10) {
			f = append(f, '%')
			g.cl("printf: % at the end")
		}
		// a % at the end of a piece may have met the next piece
		args = fitArgs(f, args, g)
		if s.P(1, 12) {
			args = append(args, g.word())
			g.cl("printf: more arguments than conversions")
		}
		if len(args) > 7 {
			g.cl("printf: more than 7 arguments")
		}
		g.cl("printf")
		return sx(g.call("printf", append([]*Expr{g.strLit(f)}, args...)...))
	case 5:
		g.cl("nwrite")
		fd := int64(s.Range(1, 2))
		if s.P(1, 4) {
			fd = int64(s.Range(3, 4))
			g.cl("nwrite to another file")
		}
		var c *Expr
		switch s.N(3) {
		case 0:
			b := randBytes(s, s.N(20), false)
			c = call("nwrite", num(fd), g.strLit(b), num(int64(s.N(len(b)+2))))
		case 1:
			i := s.N(len(g.vecs))
			c = call("nwrite", num(fd), name(g.vecs[i]), num(int64(s.N(int(8*g.sizes[i])+1))))
		default:
			i := s.N(len(g.vecs))
			o := int64(s.N(int(8 * g.sizes[i])))
			c = call("nwrite", num(fd), bin("+", name(g.vecs[i]), num(o)), num(int64(s.N(int(8*g.sizes[i]-o)+1))))
		}
		if s.P(1, 2) {
			return sx(call("printd", c))
		}
		return sx(c)
	case 6:
		g.cl("nwrite fails")
		fd := pick(s, []int64{57, 999, -1, 5, 100000})
		return sx(call("printd", bin("<", call("nwrite", num(fd), g.strLit([]byte("xyz")), num(int64(s.Range(1, 3)))), num(0))))
	case 7:
		g.cl("fout")
		return sx(asg("=", name("fout"), num(int64(s.N(2)))))
	case 8:
		return sx(call("flush"))
	case 9:
		if depth < 2 {
			n := fmt.Sprintf("f%d", g.nfun)
			g.nfun++
			g.ds = append(g.ds, fn(n, nil, g.outBody(depth+1, s.Range(1, 4))))
			return sx(call(n))
		}
	case 11:
		if depth < 1 && !g.big {
			g.cl("the same many times")
			n := fmt.Sprintf("f%d", g.nfun)
			g.nfun++
			old := g.vars
			g.vars = nil
			b := g.outBody(2, s.Range(1, 2))
			g.vars = old
			g.ds = append(g.ds, fn(n, []string{"n0"}, while(bin(">", post("--", name("n0")), num(0)), b)))
			k := s.Range(2, 20)
			if s.P(1, 5) {
				k = s.Range(20, 700)
			}
			return sx(call(n, num(int64(k))))
		}
	case 10:
		i := s.N(len(g.vecs))
		g.cl("bytes stored before output")
		return block(sx(call("lchar", name(g.vecs[i]), num(int64(s.N(int(8*g.sizes[i])))), g.word())))
	}
	return null()
}

// fitArgs makes the arguments fit the conversions that f really has.
func fitArgs(f []byte, args []*Expr, g *libGen) []*Expr {
	var out []*Expr
	for i := 0; i+1 < len(f); i++ {
		if f[i] == 0 {
			break
		}
		if f[i] != '%' {
			continue
		}
		i++
		k := ENum
		switch f[i] {
		case 'd', 'o', 'c':
		case 's':
			k = EStr
		case '%':
			continue
		default:
			i--
			continue
		}
		var a *Expr
		if len(args) > 0 {
			a, args = args[0], args[1:]
			isStr := a.K == EStr || a.K == EBin
			if isStr != (k == EStr) {
				a = nil
			}
		}
		if a == nil {
			if k == EStr {
				a = str([]byte("str"))
			} else {
				a = num(7)
			}
		}
		out = append(out, a)
	}
	return out
}

func (g *libGen) outBody(depth, n int) *Stmt {
	old := g.vars
	b := block(extrn(append([]string{"fout"}, g.vecs...)...))
	g.vars = nil
	for i, m := 0, g.s.Range(1, 2); i < m; i++ {
		g.vars = append(g.vars, fmt.Sprintf("l%d", i))
	}
	b.List = append(b.List, autoS(g.vars...))
	for i := 0; i < n; i++ {
		b.List = append(b.List, g.outStmt(depth))
	}
	g.vars = old
	return b
}

func newLibGen(s *Src) *libGen {
	g := &libGen{s: s, class: map[string]bool{}}
	for i, n := 0, s.Range(1, 2); i < n; i++ {
		d := &Decl{Name: fmt.Sprintf("v%d", i), Vec: true, Size: int64(s.Range(1, 12))}
		if s.P(1, 12) {
			d.Size = int64(s.Range(100, 900))
			if s.P(1, 4) {
				d.Size = int64(s.Range(8000, 20000))
				g.big = true
				g.cl("a vector of many kilobytes")
			}
		}
		d.SizeT = strconv.Itoa(int(d.Size))
		for k := 0; k < 4 && int64(k) < d.Size; k++ {
			d.Init = append(d.Init, IVal{N: s.Word() | 1})
			if d.Init[k].N == -1<<63 {
				d.Init[k].N++
			}
		}
		g.ds = append(g.ds, d)
		g.vecs = append(g.vecs, d.Name)
		g.sizes = append(g.sizes, d.Size)
	}
	return g
}

func (g *libGen) classes() []string {
	var l []string
	for _, k := range sortedStrs(g.class) {
		l = append(l, k)
	}
	return l
}

// libCase compiles the program once and runs it with every input.
type libInput struct {
	in   []byte
	pipe bool
	fd3  []byte
	fd4  []byte
	want Out
	over bool // the program ends by a stack overflow
	args []string
	env  []string
	// sizes of the pieces in which a pipe gets the input, if not all at once
	chunks []int
	w3     []byte
	w4     []byte
}

func libProgram(ds []*Decl, tight bool) string {
	if tight {
		return layoutTight(tokens(&Prog{Decls: ds}, nil))
	}
	return (&Prog{Decls: ds}).Source()
}

// context chooses arguments and environment, which B programs do not see.
func (li *libInput) context(s *Src) {
	if s.P(1, 2) {
		return
	}
	for i, n := 0, s.N(6); i < n; i++ {
		li.args = append(li.args, strings.Repeat("a", s.N(20)))
	}
	li.env = []string{}
	for i, n := 0, s.N(5); i < n; i++ {
		li.env = append(li.env, fmt.Sprintf("V%d=%s", i, strings.Repeat("x", s.N(20))))
	}
	if s.P(1, 10) {
		li.env = append(li.env, "BIG="+strings.Repeat("y", 50000))
	}
}

// model runs the interpreter with the input.
func (li *libInput) model(ds []*Decl, outFiles bool) error {
	return li.modelIn(2, ds, outFiles, false)
}

// modelIn uses n address layouts; strict forbids descriptors which are not
// meant for what is done with them.
func (li *libInput) modelIn(n int, ds []*Decl, outFiles, strict bool) error {
	var ms []*Machine
	o, err := interpretIn(n, func(x *Machine) {
		ms = append(ms, x)
		x.strictFd = strict
		x.In[0] = li.in
		x.Chunks = append([]int(nil), li.chunks...)
		if outFiles {
			x.OutFds = map[int][]byte{3: nil, 4: nil}
		} else {
			x.In[3], x.In[4] = li.fd3, li.fd4
		}
	}, &Prog{Decls: ds})
	if err != nil {
		return err
	}
	if outFiles {
		for _, m := range ms {
			if !bytes.Equal(m.OutFds[3], ms[0].OutFds[3]) || !bytes.Equal(m.OutFds[4], ms[0].OutFds[4]) {
				return Trap{"outcome depends on addresses"}
			}
		}
		li.w3, li.w4 = ms[0].OutFds[3], ms[0].OutFds[4]
	}
	li.want = o
	return nil
}

// changeLibText changes the text of a program at random, as long as it has a
// defined outcome for every input.
func changeLibText(s *Src, src string, lis []*libInput, outFiles bool) string {
	for k := 0; k < 4; k++ {
		t := mutateSome(s, src)
		if t == src {
			continue
		}
		ds, kind, reject, unsure := refParseNames(t)
		if reject != "" || unsure != "" {
			continue
		}
		tops := map[string]bool{"fout": true}
		for _, d := range ds {
			tops[d.Name] = true
		}
		ok := true
		for n, k := range kind {
			if !tops[n] && k == 'v' || tops[n] && natives[n] != nil || n == "fout" && k != 'v' {
				ok = false
			}
		}
		for _, d := range ds {
			ok = ok && d.Name != "fout"
		}
		var got []libInput
		for _, li := range lis {
			x := *li
			if !ok || x.modelIn(26, ds, outFiles, true) != nil {
				ok = false
				break
			}
			got = append(got, x)
		}
		if ok {
			for i := range lis {
				*lis[i] = got[i]
			}
			return t
		}
	}
	return src
}

func diffBytes(what string, want, got []byte) verdict {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	from := i - 40
	if from < 0 {
		from = 0
	}
	sh := func(b []byte) string {
		e := i + 60
		if e > len(b) {
			e = len(b)
		}
		return fmt.Sprintf("%d bytes, from byte %d: %q", len(b), from, b[from:e])
	}
	return verdict{what: what, want: sh(want), got: sh(got)}
}

func runLib(src string, b Build, ins []*libInput, outFiles bool) verdict {
	dir := newDir()
	defer os.RemoveAll(dir)
	exe, fail := compileSources(dir, []string{src}, b)
	if fail != "" {
		return verdict{what: "a valid program is not compiled", want: "an executable", got: fail}
	}
	for k, li := range ins {
		for _, merge := range []bool{false, true} {
			if merge && !outFiles {
				continue
			}
			e3, err := tmpFile(li.fd3)
			must(err)
			e4, err := tmpFile(li.fd4)
			must(err)
			in := li.in
			if in == nil {
				in = []byte{}
			}
			r := run(RunOpt{Dir: dir, Stdin: in, Pipe: li.pipe, Chunks: li.chunks, Merge: merge, Extra: []*os.File{e3, e4}, Env: li.env, Lim: limits{cpu: 10, memMB: 1024}, MaxOut: len(li.want.Merged) + 65536}, append([]string{exe}, li.args...)...)
			rd := func(f *os.File) []byte {
				f.Seek(0, io.SeekStart)
				b, _ := io.ReadAll(f)
				f.Close()
				return b
			}
			b3, b4 := rd(e3), rd(e4)
			sfx := ""
			if len(ins) > 1 {
				sfx = fmt.Sprintf(" (input %d: %q)", k, clipB(in))
			}
			if li.over {
				if r.Status != -1 || r.CPULimit {
					return verdict{what: "the program ends otherwise than by a stack overflow", want: "signal: segmentation fault", got: r.ended()}
				}
			} else if r.Status != li.want.Status {
				return verdict{what: "wrong end of the program", want: fmt.Sprintf("exit status %d", li.want.Status), got: r.ended() + sfx}
			}
			v := verdict{ok: true}
			switch {
			case merge && !bytes.Equal(r.Stdout, li.want.Merged):
				v = diffBytes("the streams are written in another order than the calls", li.want.Merged, r.Stdout)
			case !merge && !bytes.Equal(r.Stdout, li.want.Stdout):
				v = diffBytes("wrong output", li.want.Stdout, r.Stdout)
			case !merge && !bytes.Equal(r.Stderr, li.want.Stderr):
				v = diffBytes("wrong standard error output", li.want.Stderr, r.Stderr)
			case outFiles && !bytes.Equal(b3, li.w3):
				v = diffBytes("wrong content of file 3", li.w3, b3)
			case outFiles && !bytes.Equal(b4, li.w4):
				v = diffBytes("wrong content of file 4", li.w4, b4)
			}
			if !v.ok {
				v.got += sfx
				return v
			}
		}
	}
	return verdict{ok: true}
}

func genOutCase(s *Src) *Case {
	b := Build{}
	if s.P(1, 8) {
		b.Opt = s.Range(1, 3)
	}
	tight := s.P(1, 6)
	g := newLibGen(s)
	n := s.Range(1, 12)
	if s.P(1, 4) {
		n = s.Range(12, 40)
	}
	body := g.outBody(0, n)
	status := int64(0)
	switch s.N(4) {
	case 1:
		body.List = append(body.List, sx(call("exit")), sx(call("printd", num(1))))
	case 2:
		status = int64(s.N(256))
		body.List = append(body.List, ret(num(status)))
	}
	ds := append(g.ds, fn("main", nil, body))
	li := &libInput{}
	li.context(s)
	if err := li.model(ds, true); err != nil {
		panic(err)
	}
	if b.Opt == 0 && s.P(1, 12) {
		// what was written before the program breaks is not lost
		g.cl("output before a stack overflow")
		li.over = true
		body.List = append([]*Stmt{}, body.List...)
		if n := len(body.List); body.List[n-1].K == SReturn {
			body.List = body.List[:n-1]
		} else if n > 1 && body.List[n-2].A != nil && body.List[n-2].A.K == ECall && body.List[n-2].A.A.Name == "exit" {
			body.List = body.List[:n-2]
		}
		body.List = append(body.List, sx(call("boom", num(1))))
		ds = append(ds, fn("boom", []string{"x"}, block(autoV("v", 1000), asg2("v", "x"), ret(bin("+", call("boom", bin("+", name("x"), num(1))), index(name("v"), num(3)))))))
	}
	src := libProgram(ds, tight)
	if !li.over && s.P(1, 4) {
		if x := changeLibText(s, src, []*libInput{li}, true); x != src {
			src = x
			g.cl("text-changed")
		}
	}
	return &Case{Text: src, Class: g.classes(), Triv: len(li.want.Merged) == 0, Files: map[string]string{"p.b": src}, Order: []string{"p.b"},
		Cmd: "blang " + b.String() + " -o p p.b; ./p 3<>file3 4<>file4",
		Run: func() verdict { return runLib(src, b, []*libInput{li}, true) }}
}

// ---- P11 ----

func (g *libGen) inStmt(depth int) *Stmt {
	s := g.s
	vec := func() (string, int64) {
		i := s.N(len(g.vecs))
		return g.vecs[i], g.sizes[i] * 8
	}
	switch s.Weighted(5, 3, 6, 1, 5, 6, 2, 1, 2, 2) {
	case 0:
		g.cl("read")
		return rlog(call("read"))
	case 1:
		g.cl("read until 4")
		return block(sx(asg("=", name("l0"), num(0))), while(bin("!=", paren(asg("=", name("l0"), call("read"))), num(4)), rlog(name("l0"))), rlog(call("read")))
	case 2:
		v, n := vec()
		fd := int64(0)
		if s.P(1, 3) {
			fd = int64(s.Range(3, 4))
			g.cl("nread of another file")
		}
		c := int64(s.N(int(n) + 1))
		o := int64(s.N(int(n-c) + 1))
		if s.P(1, 3) {
			o = 0
		}
		var at *Expr = name(v)
		if o > 0 {
			at = bin("+", name(v), num(o))
		}
		g.cl("nread")
		st := rlog(g.call("nread", num(fd), at, num(c)))
		return block(st, g.showVec(v, n))
	case 3:
		g.cl("nread fails")
		v, n := vec()
		return block(rlog(bin("<", call("nread", num(pick(s, []int64{57, 999, -1, 100000})), name(v), num(int64(s.N(int(n))))), num(0))), g.showVec(v, n))
	case 4:
		g.cl("char of a string")
		b := g.strBytes(12)
		return rlog(g.call("char", g.strLit(b), num(int64(s.N(len(b)+1)))))
	case 5:
		g.cl("lchar")
		v, n := vec()
		o := int64(s.N(int(n)))
		k := int64(0)
		var at *Expr = name(v)
		if o > 0 && s.Bool() {
			k = int64(s.N(int(o) + 1))
			at = bin("+", name(v), num(k))
		}
		if s.P(1, 4) { // far from a base that lies before or behind
			g.cl("far character")
			f := int64(1)<<uint(s.Range(4, 44)) + int64(s.N(4096))
			if s.Bool() {
				f = -f
			}
			b := call("char", bin("-", at, num(f)), num(o-k+f))
			if f < 0 {
				b = call("char", bin("+", at, num(-f)), num(o-k+f))
			}
			l := sx(call("lchar", b.Args[0].clone(), b.Args[1].clone(), g.word()))
			return block(sx(call("lchar", at.clone(), num(o-k), g.word())), rlog(b), l, g.showVec(v, n))
		}
		return block(sx(g.call("lchar", at, num(o-k), g.word())), g.showVec(v, n))
	case 6:
		g.cl("char of a variable")
		return block(sx(asg("=", name("l0"), wnum(s))), sx(call("lchar", un("&", name("l0")), num(int64(s.N(8))), g.word())), rlog(name("l0")), rlog(call("char", un("&", name("l0")), num(int64(s.N(8))))))
	case 7:
		g.cl("exit inside")
		return ifs(bin("==", call("read"), num(int64(s.N(128)))), sx(call("exit")), nil)
	case 8:
		if depth < 2 {
			n := fmt.Sprintf("f%d", g.nfun)
			g.nfun++
			g.ds = append(g.ds, fn(n, nil, g.inBody(depth+1, s.Range(1, 4))))
			return sx(call(n))
		}
	case 9:
		g.cl("read as an argument")
		return rlog(bin("+", bin("*", call("read"), num(1000)), call("read")))
	}
	return null()
}

func (g *libGen) showVec(v string, bytes int64) *Stmt {
	if bytes > 96 {
		return rlog(call("char", name(v), num(int64(g.s.N(int(bytes))))))
	}
	return sx(call("nwrite", num(1), name(v), num(bytes)))
}

func (g *libGen) inBody(depth, n int) *Stmt {
	b := block(extrn(append([]string{"fout"}, g.vecs...)...), autoS("l0"))
	old := g.vars
	g.vars = []string{"l0"}
	for i := 0; i < n; i++ {
		b.List = append(b.List, g.inStmt(depth))
	}
	g.vars = old
	return b
}

func genInput(s *Src) []byte {
	n := s.N(20)
	switch s.N(4) {
	case 1:
		n = s.N(200)
	case 2:
		n = s.N(3)
	}
	if s.P(1, 30) {
		n = s.N(9000)
	}
	b := make([]byte, n)
	mode := s.N(4)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(s.Range('a', 'z'))
		case 1:
			b[i] = byte(s.N(128))
		case 2:
			b[i] = byte(s.N(256))
		default:
			b[i] = pick(s, []byte{0, 1, 4, 10, 13, 127, 128, 255, 26, 3, 5, 254})
		}
	}
	return b
}

func genInCase(s *Src) *Case {
	b := Build{}
	if s.P(1, 8) {
		b.Opt = s.Range(1, 3)
	}
	tight := s.P(1, 6)
	g := newLibGen(s)
	g.ds = append(g.ds, helperDecls()[0])
	n := s.Range(1, 10)
	if s.P(1, 4) {
		n = s.Range(10, 30)
	}
	body := g.inBody(0, n)
	switch s.N(6) {
	case 1:
		g.cl("exit()")
		body.List = append(body.List, sx(call("exit")), rlog(num(1)), ret(num(3)))
	case 2:
		g.cl("main returns a constant")
		body.List = append(body.List, ret(wnum(s)))
	case 3:
		g.cl("main returns a value")
		body.List = append(body.List, ret(bin("+", call("read"), num(int64(s.N(500)-250)))))
	case 4:
		g.cl("main returns without value")
		body.List = append(body.List, ret(nil))
	case 5:
		g.cl("exit in a callee")
		g.ds = append(g.ds, fn("quit", []string{"x"}, block(ifs(name("x"), sx(call("exit")), nil), ret(num(7)))))
		body.List = append(body.List, ret(bin("+", call("quit", bin(">", call("read"), num(100))), num(int64(s.N(300))))))
	}
	ds := append(g.ds, fn("main", nil, body))
	var ins []*libInput
	for k, m := 0, s.Range(1, 4); k < m; k++ {
		li := &libInput{in: genInput(s), pipe: s.P(1, 3), fd3: genInput(s), fd4: genInput(s)}
		if g.big && s.P(2, 3) {
			p := &li.fd3
			if !li.pipe && s.P(2, 3) {
				p = &li.in
			}
			*p = append(*p, '.')
			*p = bytes.Repeat(*p, s.N(200000)/len(*p)+1)
			g.cl("input of many kilobytes")
		}
		li.context(s)
		if li.pipe && len(li.in) > 0 && s.P(1, 2) {
			for n := 0; n < len(li.in); {
				c := 1 + s.N(min(len(li.in)-n, 3000))
				if s.P(1, 2) {
					c = 1 + s.N(min(len(li.in)-n, 8))
				}
				if len(li.chunks) > 15 {
					c = len(li.in) - n
				}
				if c > 4000 { // a pipe takes so much at once
					c = 4000
				}
				li.chunks = append(li.chunks, c)
				n += c
			}
			g.cl("input which comes in pieces")
		}
		if err := li.model(ds, false); err != nil {
			panic(err)
		}
		if li.pipe {
			g.cl("through a pipe")
		}
		ins = append(ins, li)
	}
	src := libProgram(ds, tight)
	if s.P(1, 4) {
		if x := changeLibText(s, src, ins, false); x != src {
			src = x
			g.cl("text-changed")
		}
	}
	files := map[string]string{"p.b": src}
	order := []string{"p.b"}
	text := src
	for i, li := range ins {
		text += fmt.Sprintf("/* input %d: %q, exit status %d */\n", i, clipB(li.in), li.want.Status)
		nm := fmt.Sprintf("input%d (quoted)", i)
		files[nm] = fmt.Sprintf("%q, file 3: %q, file 4: %q, pipe: %v, pieces: %v, arguments: %q, environment: %q\n", li.in, li.fd3, li.fd4, li.pipe, li.chunks, li.args, li.env)
		order = append(order, nm)
	}
	return &Case{Text: text, Class: g.classes(), Triv: len(g.class) == 0, Files: files, Order: order,
		Cmd: "blang " + b.String() + " -o p p.b; ./p <input 3<file3 4<file4",
		Run: func() verdict { return runLib(src, b, ins, false) }}
}

func sortedStrs(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func asg2(v, x string) *Stmt { return sx(asg("=", index(name(v), num(3)), name(x))) }
