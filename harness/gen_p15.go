package main

// P15: optimisation levels and build routes.

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// ---- loops which optimisers rewrite ----

// genKernelUnit makes a function with loops over vectors.
func genKernelUnit(s *Src, pfx string) *Unit {
	var ds []*Decl
	n := int64(pick(s, []int{1, 2, 3, 5, 8, 9, 16, 17, 33, 64, 100, 257}))
	if s.P(1, 12) {
		n = int64(pick(s, []int{511, 513, 1000, 1024, 5000}))
	}
	b := block(autoS("i", "s", "k", "p"))
	vecs := []string{"a", "w"}
	type vec struct{ n string }
	var vs []vec
	class := []string{"kernel"}
	for _, v := range vecs {
		if s.P(1, 2) {
			b.List = append(b.List, autoV(v, n))
			vs = append(vs, vec{v})
		} else {
			g := pfx + v
			ds = append(ds, &Decl{Name: g, Vec: true, Size: n, SizeT: fmt.Sprint(n)})
			b.List = append(b.List, extrn(g))
			vs = append(vs, vec{g})
		}
	}
	A, W := func() *Expr { return name(vs[0].n) }, func() *Expr { return name(vs[1].n) }
	i, sv, k, p := name("i"), name("s"), name("k"), name("p")
	add := func(l ...*Stmt) { b.List = append(b.List, l...) }
	set := func(e *Expr, v *Expr) *Stmt { return sx(asg("=", e, v)) }
	// loop runs its body for i in lo..hi-1, upwards or downwards
	loop := func(lo, hi int64, down bool, body ...*Stmt) {
		if down {
			add(set(i, num(hi)), while(bin(">", i, num(lo)), block(append([]*Stmt{sx(pre("--", i))}, body...)...)))
			return
		}
		if s.P(1, 3) && len(body) == 1 {
			add(set(i, num(lo)), while(bin("<", i, num(hi)), block(body[0], sx(post("++", i)))))
			return
		}
		c := bin("<", i, num(hi))
		switch s.N(3) {
		case 1:
			c = bin("<=", i, num(hi-1))
		case 2:
			c = bin("!=", i, num(hi))
		}
		add(set(i, num(lo)), while(c, block(append(append([]*Stmt{}, body...), sx(asg("=+", i, num(1))))...)))
	}
	word := func() *Expr { return numeral(s, s.Word()) }
	small := func() *Expr { return num(int64(s.N(100))) }
	rng := func() (int64, int64) {
		lo := int64(s.N(int(n)))
		return lo, lo + int64(s.N(int(n-lo)+1))
	}
	showVec := func(v *Expr) {
		if n <= 20 {
			add(sx(call("nwrite", num(1), v, num(8*n))))
			return
		}
		add(set(sv, num(0)))
		loop(0, n, false, set(sv, bin("+", bin("*", sv, num(31)), index(v, i))))
		add(rlog(sv), rlog(index(v, num(0))), rlog(index(v, num(n-1))))
	}
	loop(0, n, s.Bool(), set(index(A(), i), bin("+", bin("*", i, word()), small())))
	loop(0, n, s.Bool(), set(index(W(), i), bin("-", word(), i)))
	for j, m := 0, s.Range(1, 5); j < m; j++ {
		X, Y := A, W
		if s.Bool() {
			X, Y = W, A
		}
		lo, hi := rng()
		down := s.Bool()
		switch s.N(15) {
		case 0: // fill
			loop(lo, hi, down, set(index(X(), i), pick(s, []*Expr{num(0), num(0), num(-1), word(), small()})))
			class = append(class, "fill")
		case 1: // fill by pointer
			add(set(p, un("&", index(X(), num(lo)))), set(k, num(hi-lo)),
				while(post("--", k), block(set(un("*", p), num(int64(s.N(2)))), sx(asg("=+", p, num(8))))))
			class = append(class, "fill")
		case 2, 3: // copy
			loop(lo, hi, down, set(index(X(), i), index(Y(), i)))
			class = append(class, "copy")
		case 4: // move within a vector, regions overlap
			d := int64(s.N(int(n-hi) + 1))
			loop(lo, hi, down, set(index(X(), bin("+", i, num(d))), index(X(), i)))
			class = append(class, "move")
		case 5:
			d := int64(s.N(int(lo) + 1))
			loop(lo, hi, down, set(index(X(), bin("-", i, num(d))), index(X(), i)))
			class = append(class, "move")
		case 6: // sums
			add(set(sv, num(0)))
			loop(lo, hi, down, sx(asg("=+", sv, bin("*", index(X(), i), index(Y(), i)))))
			add(rlog(sv))
			class = append(class, "reduce")
		case 7:
			add(set(sv, index(X(), num(0))))
			loop(lo, hi, down, ifs(bin(pick(s, []string{">", "<", ">=", "<="}), index(X(), i), sv), set(sv, index(X(), i)), nil))
			add(rlog(sv))
			class = append(class, "extreme")
		case 8: // prefix sums
			if hi > lo+1 {
				loop(lo+1, hi, down, sx(asg(pick(s, []string{"=+", "=-", "=*"}), index(X(), i), index(X(), bin("-", i, num(1))))))
			}
			class = append(class, "prefix")
		case 9: // closed forms
			add(set(sv, num(0)))
			e := pick(s, []*Expr{bin("*", i, i), i, bin("*", bin("*", i, i), i), bin("%", i, num(7)), bin("<<", num(1), bin("&", i, num(63))), bin("/", bin("-", i, num(50)), num(3))})
			loop(0, int64(pick(s, []int{10, 100, 1000, 5000})), false, sx(asg(pick(s, []string{"=+", "=-"}), sv, e)))
			add(rlog(sv))
			class = append(class, "series")
		case 10: // bits
			add(set(k, word()), set(sv, num(0)))
			switch s.N(3) {
			case 0:
				add(while(k, block(sx(asg("=&", k, bin("-", k, num(1)))), sx(post("++", sv)))))
			case 1:
				add(while(k, block(sx(asg("=>>", k, num(1))), sx(post("++", sv)))))
			case 2:
				add(while(k, block(sx(asg("=+", sv, bin("&", k, num(1)))), set(k, bin(">>", k, num(1))))))
			}
			add(rlog(sv))
			class = append(class, "bits")
		case 11: // digits
			add(set(k, word()), set(sv, num(0)),
				while(k, block(set(sv, bin("+", bin("*", sv, num(16)), bin("%", k, num(10)))), sx(asg("=/", k, num(10))))), rlog(sv))
			class = append(class, "digits")
		case 12: // search
			add(set(k, index(X(), num(int64(s.N(int(n)))))), set(i, num(0)),
				while(bin("!=", index(X(), i), k), sx(post("++", i))), rlog(i))
			class = append(class, "search")
		case 13: // reversal
			add(set(i, num(0)), set(k, num(n-1)), while(bin("<", i, k), block(set(sv, index(X(), i)),
				set(index(X(), post("++", i)), index(X(), k)), set(index(X(), post("--", k)), sv))))
			class = append(class, "reverse")
		case 14: // overflow must wrap
			add(set(k, bin("-", numeral(s, 1<<62), num(int64(s.N(3))))), set(sv, num(0)))
			add(while(bin("<", sv, num(int64(s.Range(2, 9)))), block(set(k, bin("+", k, numeral(s, 1<<61))), rlog(bin(">", bin("+", k, num(1)), k)), rlog(bin("/", bin("*", k, num(2)), num(2))), sx(post("++", sv)))))
			class = append(class, "wrap")
		}
	}
	showVec(A())
	showVec(W())
	ds = append(ds, fn(pfx+"e", nil, b))
	shuffle(s, ds)
	return &Unit{Decls: [][]*Decl{ds}, Entry: pfx + "e", Class: class}
}

// ---- a program spread over files ----

var routePool = append(append([]UnitGen{}, unitPool...), UnitGen{"kernel", 5, genKernelUnit}, UnitGen{"ext2", 2, genExtUnit(2)}, UnitGen{"ext3", 2, genExtUnit(3)}, UnitGen{"matrix", 1, genMatrixUnit})

func routeUnits(s *Src, lo, hi int) []*Unit {
	var us []*Unit
	var w []int
	for _, g := range routePool {
		w = append(w, g.Weight)
	}
	for k, n := 0, s.Range(lo, hi); k < n; k++ {
		g := routePool[s.Weighted(w...)]
		if u, err := g.make(s, fmt.Sprintf("u%d_", k)); err == nil {
			us = append(us, u)
		}
	}
	if len(us) == 0 {
		trap("no unit with a defined outcome")
	}
	return us
}

// spread distributes definitions over files; definitions of one name stay
// together and in order.
func spread(s *Src, ds []*Decl, files int) [][]*Decl {
	at := map[string]int{}
	if files > 1 && s.P(1, 4) { // functions and variables apart
		n := s.Range(1, files-1)
		for _, d := range ds {
			if _, ok := at[d.Name]; ok {
				continue
			}
			if d.IsFunc {
				at[d.Name] = n + s.N(files-n)
			} else {
				at[d.Name] = s.N(n)
			}
		}
	}
	out := make([][]*Decl, files)
	for _, d := range ds {
		f, ok := at[d.Name]
		if !ok {
			f = s.N(files)
			at[d.Name] = f
		}
		out[f] = append(out[f], d)
	}
	for f := range out {
		reorder(s, out[f])
	}
	return out
}

// reorder permutes definitions, those of one name stay in order.
func reorder(s *Src, ds []*Decl) {
	old := append([]*Decl{}, ds...)
	shuffle(s, ds)
	by := map[string][]*Decl{}
	for _, d := range old {
		by[d.Name] = append(by[d.Name], d)
	}
	for i, d := range ds {
		ds[i] = by[d.Name][0]
		by[d.Name] = by[d.Name][1:]
	}
}

type stepB struct {
	to    string // "ll", "s", "o"
	flags []string
	out   bool // -o given
}

type srcFile struct {
	name  string // without extension
	text  string
	steps []stepB
	form  string // "b", "ll", "s", "o", "a" (in an archive)
}

func optFlags(s *Src) []string {
	var f []string
	switch o := s.N(5); o {
	case 4:
	default:
		f = append(f, fmt.Sprintf("-O%d", o))
	}
	if s.P(1, 4) {
		f = append(f, "-g")
	}
	shuffle(s, f)
	return f
}

func genRouteCase(s *Src) *Case {
	us := routeUnits(s, 1, 6)
	so, se := expected(us)
	ds := wholeProgram(us)
	status := 0
	if s.P(1, 3) {
		v := s.Word()
		if s.Bool() {
			v = int64(s.N(256))
		}
		var es []string
		for _, u := range us {
			es = append(es, u.Entry)
		}
		m := mainDecl(es...)
		l := m.Body.List
		l[len(l)-1] = ret(num(v))
		ds[len(ds)-1] = m
		status = int(v & 255)
	}
	renamed := s.P(1, 4)
	if renamed {
		ds = cloneDecls(ds)
		rename(s, ds, true)
		o, err := interpret(nil, &Prog{Decls: ds})
		if err != nil {
			return nil
		}
		if !bytes.Equal(o.Stdout, so) || !bytes.Equal(o.Stderr, se) {
			infra("renaming changes the meaning:\n%s", (&Prog{Decls: ds}).Source())
		}
	}
	k := s.Weighted(0, 8, 6, 4, 2, 2, 1)
	if k == 6 {
		k = s.Range(6, 24)
	}
	var parts [][]*Decl
	if k == 1 && s.P(2, 3) {
		parts = [][]*Decl{ds}
	} else {
		parts = spread(s, ds, k)
	}
	cl := []string{fmt.Sprintf("files:%d", k)}
	if renamed {
		cl = append(cl, "renamed")
	}
	var fs []*srcFile
	together := k > 1 && s.P(1, 3)
	tf := pick(s, []string{"ll", "s", "o"})
	tflags := optFlags(s)
	archive := ""
	// files of one name in several directories
	twin := ""
	if k > 1 && s.P(1, 5) {
		twin = pick(s, []string{"same", "main", "x.y"})
		together = false
		cl = append(cl, "same-name")
	}
	usedNames := map[string]bool{"prog": true, "ar": true}
	for i, p := range parts {
		n := fmt.Sprintf("f%d", i)
		if s.P(1, 8) {
			n = pick(s, []string{"a.b", "x y", "lib", "main", "b", "q-1", "f_0", "sub/m", "F.o"})
			if usedNames[filepath.Base(n)] {
				n = fmt.Sprintf("f%d", i)
			}
		}
		if twin != "" && (i == 0 || s.P(3, 4)) {
			n = fmt.Sprintf("d%d/%s", i, twin)
		}
		usedNames[filepath.Base(n)] = true
		f := &srcFile{name: n, form: "b"}
		t := tokens(&Prog{Decls: p}, nil)
		if s.P(1, 4) {
			f.text = layoutTight(t)
		} else {
			f.text = layoutNormal(t)
		}
		hasMain, function := false, false
		for _, d := range p {
			if d.Name == "main" {
				hasMain = true
			}
			function = function || d.IsFunc
		}
		if together {
			if s.P(2, 3) {
				f.form = tf
			}
		} else {
			for f.form != "o" && s.P(1, 2) && (twin == "" || s.P(1, 3)) {
				var to []string
				switch f.form {
				case "b":
					to = []string{"ll", "s", "o"}
				case "ll":
					to = []string{"s", "o"}
				case "s":
					to = []string{"o"}
				}
				st := stepB{to: pick(s, to), flags: optFlags(s), out: s.P(1, 3) || twin != ""}
				f.steps = append(f.steps, st)
				f.form = st.to
			}
		}
		if f.form == "o" && !hasMain && s.P(1, 2) {
			f.form = "a"
			if !function {
				cl = append(cl, "member of variables")
			}
			if archive == "" {
				archive = pick(s, []string{"ar.a", "-lar"})
			}
		}
		cl = append(cl, "form:"+f.form)
		fs = append(fs, f)
	}
	flags := optFlags(s)
	if len(fs) > 1 {
		shuffle(s, fs)
	}
	cl = append(cl, "link:"+strings.Join(flags, " "))
	if together {
		cl = append(cl, "together:"+tf)
	}
	if archive != "" {
		cl = append(cl, "archive:"+archive)
	}
	for _, u := range us {
		cl = append(cl, "unit:"+u.Name)
	}

	// the commands
	var cmds [][]string
	argsOf := func(fl []string, mode, out string, ins ...string) []string {
		var a []string
		ins = append([]string{}, ins...)
		first := s.Bool()
		if first {
			a = append(a, fl...)
		}
		if mode != "" && first {
			a = append(a, mode)
		}
		if out != "" && s.Bool() {
			a = append(a, "-o", out)
			out = ""
		}
		a = append(a, ins...)
		if !first {
			a = append(a, fl...)
			if mode != "" {
				a = append(a, mode)
			}
		}
		if out != "" {
			a = append(a, "-o", out)
		}
		return append([]string{"blang"}, a...)
	}
	modes := map[string]string{"ll": "--emit-llvm", "s": "-S", "o": "-c"}
	path := map[*srcFile]string{}
	for _, f := range fs {
		path[f] = f.name + ".b"
		if !together {
			for _, st := range f.steps {
				out := ""
				if st.out {
					out = fmt.Sprintf("o%d.%s", len(cmds), st.to)
				}
				cmds = append(cmds, argsOf(st.flags, modes[st.to], out, path[f]))
				if out == "" {
					b := filepath.Base(path[f])
					out = strings.TrimSuffix(b, filepath.Ext(b)) + "." + st.to
				}
				path[f] = out
			}
		}
	}
	if together {
		var ins []string
		for _, f := range fs {
			if f.form != "b" {
				ins = append(ins, path[f])
				b := filepath.Base(path[f])
				path[f] = strings.TrimSuffix(b, filepath.Ext(b)) + "." + tf
			}
		}
		if len(ins) > 0 {
			cmds = append(cmds, argsOf(tflags, modes[tf], "", ins...))
		}
	}
	var ins, members []string
	for _, f := range fs {
		if f.form == "a" {
			members = append(members, path[f])
		} else {
			ins = append(ins, path[f])
		}
	}
	var lflags []string
	lflags = append(lflags, flags...)
	if len(members) > 0 {
		out := "ar.a"
		if archive == "-lar" {
			out = "libs/libar.a"
			lflags = append(lflags, "-L", "libs", "-l", "ar")
			if s.Bool() {
				lflags = append(lflags[:len(lflags)-4], "-Llibs", "-lar")
			}
		} else {
			ins = append(ins, out)
		}
		cmds = append(cmds, append([]string{"ar", "rcs", out}, members...))
	}
	cmds = append(cmds, argsOf(lflags, "", "prog", ins...))

	c := &Case{Class: cl, Files: map[string]string{}}
	var sb strings.Builder
	var texts []string
	for _, f := range fs {
		c.Files[f.name+".b"] = f.text
		c.Order = append(c.Order, f.name+".b")
		texts = append(texts, "# "+f.name+".b:\n"+f.text)
	}
	sort.Strings(texts)
	for _, t := range texts {
		sb.WriteString(t)
	}
	var cs []string
	for _, cm := range cmds {
		cs = append(cs, strings.Join(cm, " "))
	}
	c.Cmd = strings.Join(cs, "; ") + "; ./prog"
	c.Text = sb.String() + "\n# " + c.Cmd
	c.Run = func() verdict {
		dir := newDir()
		defer os.RemoveAll(dir)
		dirs := []string{"sub", "libs"}
		for i := range parts {
			dirs = append(dirs, fmt.Sprint("d", i))
		}
		for _, d := range dirs {
			must(os.Mkdir(filepath.Join(dir, d), 0o755))
		}
		for _, f := range fs {
			must(os.WriteFile(filepath.Join(dir, f.name+".b"), []byte(f.text), 0o644))
		}
		for _, cm := range cmds {
			if cm[0] == "ar" {
				x := exec.Command("ar", cm[1:]...)
				x.Dir = dir
				if o, err := x.CombinedOutput(); err != nil {
					infra("%v: %v: %s", cm, err, o)
				}
				continue
			}
			r := run(RunOpt{Dir: dir, Lim: limits{cpu: 60}}, append([]string{blang}, cm[1:]...)...)
			if r.Status != 0 {
				return verdict{what: "a valid program cannot be built this way", want: "exit status 0 of " + strings.Join(cm, " "), got: r.ended() + ": " + strings.TrimSpace(string(r.Stderr))}
			}
			// outputs of a step exist, or the next one would say so
		}
		r := run(RunOpt{Dir: dir, Lim: limits{cpu: 20, memMB: 2048}, MaxOut: len(so) + len(se) + 65536}, filepath.Join(dir, "prog"))
		p := progRes{r: r}
		if p.same(so, se, status) {
			return verdict{ok: true}
		}
		what := "the program built this way behaves differently"
		if r.Status != status {
			what = "the program built this way ends differently"
		}
		want := progRes{r: Res{Stdout: so, Stderr: se, Status: status}}
		return verdict{what: what, want: want.show(), got: p.show()}
	}
	return c
}
