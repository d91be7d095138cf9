package main

// P13: any input at all.

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
)

var llvmAs = func() string {
	for _, n := range []string{"llvm-as", "llvm-as-18", "/usr/lib/llvm-18/bin/llvm-as"} {
		if p, err := exec.LookPath(n); err == nil {
			return p
		}
	}
	return ""
}()

// Inputs outside of the bounds of the property.
var bigSize = regexp.MustCompile(`(?s)\[[^\]\[]*([0-9]{7,}|'[^']{3,})`)
var largeSize = regexp.MustCompile(`[0-9]{5,}`)

func outOfBounds(src []byte) bool {
	if bigSize.Match(src) {
		return true
	}
	n := 0
	for i, c := range src {
		if c == '[' {
			e := i + 40
			if e > len(src) {
				e = len(src)
			}
			if largeSize.Match(src[i:e]) {
				n++
			}
		}
	}
	return n > 3
}

// fuzzOne is the oracle.  obj: also compile to an object file.
func fuzzOne(src []byte, obj bool) (v verdict, accepted bool, msg string) {
	dir := newDir()
	defer os.RemoveAll(dir)
	must(os.WriteFile(filepath.Join(dir, "p.b"), src, 0o644))
	r := run(RunOpt{Dir: dir, Lim: limits{cpu: 30}}, blang, "--emit-llvm", "-o", "o.ll", "p.b")
	show := func(r Res) string { return r.ended() + fmt.Sprintf(" %q", clipB(r.Stderr)) }
	if r.Status != 0 && r.Status != 1 {
		if r.CPULimit {
			return verdict{what: "blang does not end", want: "exit status 0 or 1", got: show(r)}, false, ""
		}
		return verdict{what: "blang crashes", want: "exit status 0 or 1", got: show(r)}, false, ""
	}
	if r.Status == 1 {
		if len(bytes.TrimSpace(r.Stderr)) == 0 {
			return verdict{what: "exit status 1 without a diagnostic", want: "a message on standard error", got: show(r)}, false, ""
		}
		return verdict{ok: true}, false, string(r.Stderr)
	}
	if llvmAs != "" {
		a := run(RunOpt{Dir: dir, Lim: limits{cpu: 60}}, llvmAs, "-o", "/dev/null", "o.ll")
		if a.Status != 0 {
			return verdict{what: "the LLVM IR is not valid", want: "a module which llvm-as accepts", got: show(a)}, true, ""
		}
	} else {
		obj = true
	}
	if obj {
		c := run(RunOpt{Dir: dir, Lim: limits{cpu: 100}}, blang, "-c", "-o", "o.o", "p.b")
		if c.Status != 0 {
			return verdict{what: "the input compiles to IR, but not to an object file", want: "exit status 0", got: show(c)}, true, ""
		}
	}
	return verdict{ok: true}, true, ""
}

var reNoise = regexp.MustCompile(`'[^']*'|"[^"]*"|[0-9]+`)

// diagClass is the form of a message without names and numbers.
func diagClass(m string) string {
	m = strings.TrimSpace(strings.TrimPrefix(m, "blang: error: "))
	m = reNoise.ReplaceAllString(m, "_")
	if i := strings.IndexByte(m, '\n'); i >= 0 {
		m = m[:i]
	}
	if len(m) > 60 {
		m = m[:60]
	}
	// the last part says what is wrong; names may still be in it
	var out []byte
	for i := 0; i < len(m); i++ {
		if m[i] < 32 || m[i] > 126 {
			out = append(out, '?')
		} else {
			out = append(out, m[i])
		}
	}
	return string(out)
}

func fuzzCase(s *Src, src []byte, class ...string) *Case {
	obj := s.P(1, 4)
	if len(src) > 65536 {
		src = src[:65536]
	}
	if outOfBounds(src) {
		return nil
	}
	c := &Case{Text: string(src), Class: class, Triv: len(src) < 2, Files: map[string]string{"p.b": string(src), "hex": fmt.Sprintf("%x\n", src)}, Order: []string{"p.b", "hex"},
		Cmd: "blang --emit-llvm -o o.ll p.b && llvm-as o.ll -o /dev/null && blang -c p.b"}
	c.Run = func() verdict {
		v, acc, msg := fuzzOne(src, obj)
		if v.ok {
			if acc {
				notes.add("accepted: " + class[0])
			} else {
				notes.add("rejected: " + class[0])
				diagSeen.add(diagClass(msg))
			}
		}
		return v
	}
	return c
}

var diagSeen caseNotes

func genBytesCase(s *Src) *Case {
	n := s.N(60)
	switch s.Weighted(6, 3, 1) {
	case 1:
		n = s.N(600)
	case 2:
		n = s.N(4000)
	}
	b := make([]byte, n)
	mode := s.N(3)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(s.N(256))
		case 1:
			b[i] = byte(s.Range(9, 127))
		case 2:
			b[i] = pick(s, []byte("(){}[];:,'\"*/=<>!&|-+% \nax01?%"))
		}
	}
	return fuzzCase(s, b, "bytes")
}

var vocab = []string{
	"auto", "extrn", "if", "else", "while", "switch", "case", "goto", "return", "auto", "extrn", "main", "f", "g", "x", "y", "v", "l", "printf", "_",
	"(", ")", "[", "]", "{", "}", ";", ",", ":", "?", ";", ";", "(", ")", "{", "}",
	"=", "+", "-", "*", "/", "%", "&", "|", "<", ">", "!", "<<", ">>", "<=", ">=", "==", "!=", "++", "--", "=+", "=-", "=*", "=/", "=%", "=&", "=|", "=<<", "=>>", "=<", "=<=", "=>", "=>=", "===", "=!=",
	"0", "1", "2", "10", "017", "08", "9223372036854775807", "18446744073709551616", "'a'", "'*n'", "''", "'abcdefgh'", "'abcdefghi'", "\"\"", "\"s*n\"", "\"*", "'", "\"", "/*", "*/", "/* c */", "@", ".", "$", "\\", "\x00", "\xff", "~", "^",
}

func genSoupCase(s *Src) *Case {
	var sb strings.Builder
	if s.P(2, 3) {
		sb.WriteString(pick(s, []string{"main() {", "main() ", "f(x,y) {", "v[3] ", "x ", "main() { auto x, y; ", "f() { switch(1) {"}))
	}
	for i, n := 0, s.N(30); i < n; i++ {
		sb.WriteString(pick(s, vocab))
		if s.P(3, 4) {
			sb.WriteString(" ")
		}
	}
	if s.P(1, 2) {
		sb.WriteString(pick(s, []string{"}", ";}", "; } }", ";", "\n"}))
	}
	return fuzzCase(s, []byte(sb.String()), "soup")
}

// genMutantCase changes a valid program in a few places.
func genMutantCase(s *Src) *Case {
	ds, es := poolProgram(s, 1, 2)
	if s.P(2, 3) {
		ds = append(ds, mainDecl(es...))
	}
	var b []byte
	cl := "mutant: bytes"
	if s.P(1, 3) { // tokens
		cl = "mutant: tokens"
		t := tokens(&Prog{Decls: ds}, nil)
		for i, n := 0, s.Range(1, 6); i < n && len(t) > 2; i++ {
			j := s.N(len(t))
			switch s.N(5) {
			case 0:
				t = deleteTok(t, j)
			case 1:
				t = insertTok(t, j, Tok{K: TWord, S: pick(s, vocab)})
			case 2:
				t = append([]Tok(nil), t...)
				t[j] = Tok{K: TWord, S: pick(s, vocab)}
			case 3:
				t = append([]Tok(nil), t...)
				k := s.N(len(t))
				t[j], t[k] = t[k], t[j]
			case 4:
				t = insertTok(t, j, t[s.N(len(t))])
			}
		}
		b = []byte(joinTokens(s, t, s.P(1, 3)))
	} else {
		b = []byte((&Prog{Decls: ds}).Source())
		for i, n := 0, s.Range(1, 5); i < n && len(b) > 4; i++ {
			j := s.N(len(b))
			k := j + s.N(40)
			if k > len(b) {
				k = len(b)
			}
			switch s.N(8) {
			case 0:
				b = append(b[:j:j], b[k:]...)
			case 1:
				b = append(append(append([]byte{}, b[:k]...), b[j:k]...), b[k:]...)
			case 2:
				b = append([]byte{}, b...)
				b[j] = byte(s.N(256))
			case 3:
				b = append(append(append([]byte{}, b[:j]...), pick(s, vocab)...), b[j:]...)
			case 4:
				b = b[:j]
			case 5: // move a piece
				p := append([]byte{}, b[j:k]...)
				b = append(b[:j:j], b[k:]...)
				m := s.N(len(b) + 1)
				b = append(append(append([]byte{}, b[:m]...), p...), b[m:]...)
			case 6:
				b = append([]byte{}, b...)
				b[j] ^= 1 << s.N(8)
			case 7:
				b = append(append(append([]byte{}, b[:j]...), ' '), b[j:]...)
			}
		}
	}
	return fuzzCase(s, b, cl)
}

// genCutCase ends a program within a definition, with nothing after it.
func genCutCase(s *Src) *Case {
	var ds []*Decl
	if s.Bool() {
		ds, _ = poolProgram(s, 1, 1)
	}
	b := (&Prog{Decls: ds}).Source() + pick(s, []string{"", "g 1, -2, h, \"s\" ;", "v[3] 1, -'a', v ;", "k -1;", "f(a,b) { extrn x, y; auto v[3], w; if (!a) b =<< 1; else { while (a != b) a++; } switch a { case 1: case 'c': --v[a ? b : 3]; default: x =+ f(a, y); } l: goto l; return (a === b); }"})
	if len(b) == 0 {
		return nil
	}
	b = strings.TrimRight(b[:s.N(len(b))+1], pick(s, []string{" \t\n", ""}))
	if s.P(1, 4) {
		b += pick(s, []string{"=", "=<", "=<<", "=>", "=!", "==", "===", "!", "-", "--", "+", "++", "*", "&", "<", "<<", ">", "(", "[", "/", "/*", "/* *", "'", "\"", "'*", "\"*", "0", "?", ":", ","})
	}
	return fuzzCase(s, []byte(b), "cut")
}

// genBigCase makes long and deep inputs.
func genBigCase(s *Src) *Case {
	n := s.Range(2, 900)
	rep := strings.Repeat
	var t string
	cl := ""
	switch k := s.N(25); k {
	case 22:
		t, cl = "f() { %s }", "many strings"
		one := "g(\"a\", \"\");\n"
		switch s.N(3) {
		case 0:
			t, one = "x %s\"\";", "\"ab\", 1, "
		case 1:
			t, one = "%s", "f%d() return(\"s\");\n"
		}
		var sb strings.Builder
		for i := 0; i < 2*n; i++ {
			sb.WriteString(strings.ReplaceAll(one, "%d", fmt.Sprint(i)))
		}
		t = strings.ReplaceAll(t, "%s", sb.String())
	case 23, 24:
		var sb strings.Builder
		few := s.Range(1, 9)
		for i := 0; i < 2*n; i++ {
			sb.WriteString(pick(s, []string{"if (x) y++;", "while (x) x--;", "switch x { case 1: y = 2; }", "if (x) y = 1; else y = 2;", "y = x ? 1 : 2;", "return;", "{ auto a%d; a%d = x; }", "goto l%d; l%d:;", "g(x, y);"}[:few]) + "\n")
		}
		t, cl = sb.String(), "many statements"
		for i := 0; strings.Contains(t, "%d"); i++ {
			t = strings.Replace(t, "%d", fmt.Sprint(i/2), 1)
		}
		t = "f(x) { auto y; " + t + "}"
	case 0:
		t, cl = "f(x) return("+rep("(", n)+"x"+rep(")", n)+");", "parentheses"
	case 1:
		t, cl = "f() "+rep("{", n)+rep("}", n), "blocks"
	case 2:
		t, cl = "f(x) { "+rep(pick(s, []string{"if(x) ", "while(x) ", "if(x) x++; else ", "if(x) while(x--) "}), n)+"; }", "statements"
	case 3:
		t, cl = "f(x) return("+rep(pick(s, []string{"!", "-x - ", "*", "- ", "*&", "!-"}), n)+"x);", "unary operators"
	case 4:
		t, cl = "f(x) x "+rep(pick(s, []string{"= x ", "=+ x ", "=* x "}), n)+";", "assignments"
	case 5:
		t, cl = "f(x) return(x"+rep(pick(s, []string{" ? x : x", "+x", " & x", "<<x", "==x", "|x*x"}), n)+");", "binary operators"
	case 6:
		t, cl = "f(x) return("+rep("f(", n)+"x"+rep(")", n)+");", "nested calls"
	case 7:
		t, cl = "f(x) return(x"+rep("[x]", n)+");", "indices"
	case 8:
		t, cl = "f(x) return(x"+rep("(x)", n)+");", "calls of calls"
	case 9:
		t, cl = "f(x) return("+rep("x[", n)+"0"+rep("]", n)+");", "nested indices"
	case 10:
		t, cl = "x 1"+rep(", 1", 10*n)+";", "initial values"
	case 11:
		var sb strings.Builder
		for i := 0; i < 2*n; i++ {
			fmt.Fprintf(&sb, "case %d: ", i)
		}
		t, cl = "f(x) switch(x) { "+sb.String()+"; }", "cases"
	case 12:
		var sb strings.Builder
		for i := 0; i < 2*n; i++ {
			fmt.Fprintf(&sb, "l%d: ", i)
		}
		t, cl = "f(x) { "+sb.String()+"; }", "labels"
	case 13:
		var sb strings.Builder
		for i := 0; i < 2*n; i++ {
			fmt.Fprintf(&sb, "%sa%d", map[bool]string{true: "", false: ","}[i == 0], i)
		}
		t = pick(s, []string{"f(%s) return;", "f() { auto %s; }", "f() { extrn %s; }", "f(%s) return(a0);"})
		t, cl = strings.ReplaceAll(t, "%s", sb.String()), "many names"
	case 14:
		t, cl = "f(x) return(f(x"+rep(",x", n)+"));", "arguments"
	case 15:
		var sb strings.Builder
		for i := 0; i < 3*n; i++ {
			fmt.Fprintf(&sb, "f%d() return(%d);\n", i%(n+1), i)
		}
		t, cl = sb.String(), "many functions"
	case 16:
		var sb strings.Builder
		for i := 0; i < 3*n; i++ {
			fmt.Fprintf(&sb, "x%d%s %d;\n", i%(n+1), pick(s, []string{"", "[]", "[3]"}), i)
		}
		t, cl = sb.String(), "many variables"
	case 17:
		t, cl = "f() g(\""+rep(pick(s, []string{"a", "*n", "\xff", "\n", "**"}), 30*n)+"\");", "long string"
	case 18:
		t, cl = rep("/* x */ ", 5*n)+"x;"+rep("/**/", n), "comments"
	case 19:
		t, cl = rep("n", 30*n)+"() { auto "+rep("v", 30*n)+"; }", "long names"
	case 20:
		t, cl = "f(x) "+rep("switch(x) { case 1: ", n)+";"+rep("}", n), "nested switches"
	case 21:
		t, cl = "x "+rep("1", n)+"; y "+rep("7", n)+"; f(x) return(x + 0"+rep("1", n)+");", "long numbers"
	}
	b := []byte(t)
	if s.P(1, 4) && len(b) > 2 {
		b = b[:s.N(len(b))]
		cl += ", cut"
	}
	return fuzzCase(s, b, "big", "big: "+cl)
}

// ---- programs of correct syntax and arbitrary meaning ----

type wild struct {
	s     *Src
	names []string
	depth int
}

func (w *wild) name() string { return pick(w.s, w.names) }

func (w *wild) expr(d int) *Expr {
	s := w.s
	if d <= 0 || s.P(1, 4) {
		switch s.Weighted(4, 6, 1, 1) {
		case 0:
			t, v := constant(s, 0)
			if t[0] == '\'' {
				return &Expr{K: EChr, N: v, Text: t}
			}
			return &Expr{K: ENum, N: v, Text: t}
		case 1:
			return name(w.name())
		case 2:
			b := randBytes(s, s.N(6), false)
			return &Expr{K: EStr, Bytes: b, Text: spell(s, b, '"')}
		default:
			return num(int64(s.N(3)))
		}
	}
	switch s.Weighted(3, 5, 4, 2, 3, 4, 2, 1) {
	case 0:
		return un(pick(s, []string{"!", "-", "*"}), w.expr(d-1))
	case 1:
		return bin(pick(s, binOps), w.expr(d-1), w.expr(d-1))
	case 2:
		return asg(pick(s, asgOps), w.lval(d-1), w.expr(d-1))
	case 3:
		return cond(w.expr(d-1), w.expr(d-1), w.expr(d-1))
	case 4:
		return w.lval(d - 1)
	case 5:
		var a []*Expr
		for i, n := 0, s.N(4); i < n; i++ {
			a = append(a, w.expr(d-1))
		}
		if s.P(3, 4) {
			return callE(name(w.name()), a...)
		}
		return callE(w.expr(d-1), a...)
	case 6:
		if s.Bool() {
			return pre(pick(s, []string{"++", "--"}), w.lval(d-1))
		}
		return post(pick(s, []string{"++", "--"}), w.lval(d-1))
	default:
		return un("&", w.lval(d-1))
	}
}

func (w *wild) lval(d int) *Expr {
	s := w.s
	switch {
	case d <= 0 || s.P(1, 2):
		return name(w.name())
	case s.Bool():
		return un("*", w.expr(d-1))
	}
	return index(w.expr(d-1), w.expr(d-1))
}

func (w *wild) stmt(d int) *Stmt {
	s := w.s
	k := s.Weighted(6, 2, 1, 1, 4, 4, 3, 3, 3, 3, 3, 2)
	if d <= 0 && k >= 8 {
		k = k % 8
	}
	switch k {
	case 0:
		return sx(w.expr(s.Range(0, 3)))
	case 1:
		return ret(w.expr(2))
	case 2:
		return ret(nil)
	case 3:
		return null()
	case 4:
		st := &Stmt{K: SAuto}
		for i, n := 0, s.Range(1, 3); i < n; i++ {
			v := VarDecl{Name: w.name()}
			if s.P(1, 3) {
				v.Vec = true
				v.Text = pick(s, []string{"", "0", "1", "3", "010", "100", "'a'"})
			}
			st.Vars = append(st.Vars, v)
		}
		return st
	case 5:
		st := &Stmt{K: SExtrn}
		for i, n := 0, s.Range(1, 3); i < n; i++ {
			st.Names = append(st.Names, w.name())
		}
		return st
	case 6:
		return goTo(w.name())
	case 7:
		return label(w.name(), w.stmt(d-1))
	case 8:
		return w.block(d - 1)
	case 9:
		var e *Stmt
		if s.Bool() {
			e = w.stmt(d - 1)
		}
		return ifs(w.expr(2), w.stmt(d-1), e)
	case 10:
		return while(w.expr(2), w.stmt(d-1))
	default:
		b := block()
		for i, n := 0, s.N(4); i < n; i++ {
			if s.P(2, 3) {
				b.List = append(b.List, caseS(int64(s.N(6)), w.stmt(d-1)))
			} else {
				b.List = append(b.List, w.stmt(d-1))
			}
		}
		return sw(w.expr(1), b)
	}
}

func (w *wild) block(d int) *Stmt {
	b := block()
	for i, n := 0, w.s.N(5); i < n; i++ {
		b.List = append(b.List, w.stmt(d))
	}
	return b
}

func genWildCase(s *Src) *Case {
	p, disc := wildProgram(s)
	return fuzzCase(s, []byte(joinTokens(s, tokens(p, nil), s.P(1, 3))), "wild", fmt.Sprintf("wild: disciplined %v", disc))
}

// wildProgram is of correct syntax and arbitrary meaning.
func wildProgram(s *Src) (*Prog, bool) {
	w := &wild{s: s, names: []string{"a", "b", "c", "f", "g", "h", "v", "w", "x"}}
	if s.P(1, 3) {
		w.names = append(w.names, "main", "printf", "fout", "char", "exit", "memset")
	}
	w.names = w.names[s.N(6):]
	disc := s.P(1, 2) // more discipline, more programs are accepted
	p := &Prog{}
	for i, n := 0, s.Range(1, 5); i < n; i++ {
		nm := w.name()
		if s.P(1, 3) {
			d := &Decl{Name: nm, Vec: s.Bool()}
			if d.Vec {
				d.SizeT = pick(s, []string{"", "0", "1", "4", "012", "70"})
			}
			for j, m := 0, s.N(4); j < m; j++ {
				d.Init = append(d.Init, genIVal(s))
			}
			p.Decls = append(p.Decls, d)
			continue
		}
		var ps []string
		for j, m := 0, s.N(4); j < m; j++ {
			ps = append(ps, w.name())
		}
		var body *Stmt
		if disc {
			body = w.tame(ps, s.Range(1, 6))
			ps = dedup(ps)
			nm = pick(s, []string{"f", "g", "h", "main", "f0", "g0", "printf", "memcpy"})
		} else {
			body = w.stmt(3)
			if s.P(2, 3) {
				body = w.block(3)
			}
		}
		p.Decls = append(p.Decls, fn(nm, ps, body))
	}
	return p, disc
}

func dedup(l []string) []string {
	seen := map[string]bool{}
	var o []string
	for _, x := range l {
		if !seen[x] {
			o = append(o, x)
		}
		seen[x] = true
	}
	return o
}

// tame makes a body in which every name is declared once and labels exist.
func (w *wild) tame(params []string, n int) *Stmt {
	s := w.s
	b := block()
	decl := map[string]bool{}
	for _, p := range params {
		decl[p] = true
	}
	save := w.names
	defer func() { w.names = save }()
	var local []string
	for _, p := range params {
		local = append(local, p)
	}
	for i, m := 0, s.Range(1, 4); i < m; i++ {
		nm := pick(s, []string{"p", "q", "r", "s", "t", "vv"})
		if decl[nm] {
			continue
		}
		decl[nm] = true
		local = append(local, nm)
		switch s.N(3) {
		case 0:
			b.List = append(b.List, autoS(nm))
		case 1:
			b.List = append(b.List, autoV(nm, int64(s.Range(1, 9))))
		case 2:
			b.List = append(b.List, extrn(nm))
		}
	}
	if len(local) == 0 {
		local = []string{"z"}
		b.List = append(b.List, autoS("z"))
	}
	w.names = local
	for i := 0; i < n; i++ {
		b.List = append(b.List, w.stmt(3))
	}
	// declarations, labels and cases of the body get names and values of their own
	k := 0
	var labels []string
	walkStmt(b, func(st *Stmt) {
		switch st.K {
		case SLabel:
			st.Name = fmt.Sprintf("lab%d", len(labels))
			labels = append(labels, st.Name)
		case SCase:
			k++
			st.N = int64(k * 7)
			if st.Text != "" {
				st.Text = ""
			}
		}
	}, func(*Expr) {})
	first := len(b.List) - n
	for _, x := range b.List[first:] {
		walkStmt(x, func(st *Stmt) {
			for i := range st.Vars {
				k++
				st.Vars[i].Name = fmt.Sprintf("d%d", k)
			}
			for i := range st.Names {
				k++
				st.Names[i] = fmt.Sprintf("e%d", k)
			}
		}, func(*Expr) {})
	}
	if len(labels) == 0 {
		labels = []string{"lab"}
		b.List = append(b.List, label("lab", null()))
	}
	walkStmt(b, func(st *Stmt) {
		if st.K == SGoto {
			st.Name = pick(s, labels)
		}
	}, func(*Expr) {})
	return b
}
