package main

// P09: layout, comments, redundant parentheses and names.

import (
	"bytes"
	"fmt"
	"os"
	"strings"
)

// okUnits makes units which have a defined outcome.
func okUnits(s *Src, lo, hi int) []*Unit {
	var us []*Unit
	for k, n := 0, s.Range(lo, hi); k < n; k++ {
		u := okUnit(s, fmt.Sprintf("u%d_", k))
		if u != nil {
			us = append(us, u)
		}
	}
	if len(us) == 0 {
		trap("no unit with a defined outcome")
	}
	return us
}

func okUnit(s *Src, pfx string) (u *Unit) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Trap); !ok {
				panic(r)
			}
			u = nil
		}
	}()
	u = poolUnit(s, pfx)
	if u.finish(s) != nil {
		return nil
	}
	return u
}

// wholeProgram puts units together with the helpers and main.
func wholeProgram(us []*Unit) []*Decl {
	ds := helperDecls()
	var es []string
	for _, u := range us {
		for _, f := range u.Decls {
			ds = append(ds, f...)
		}
		es = append(es, u.Entry)
	}
	return append(ds, mainDecl(es...))
}

// ---- renaming ----

var bKeywords = []string{"auto", "extrn", "if", "else", "while", "switch", "case", "goto", "return"}

var oddNames = []string{
	"malloc", "free", "memcpy", "memset", "memmove", "strlen", "puts", "putchar", "abort", "_start", "start", "syscall", "errno", "environ", "stdin", "stdout",
	"int", "long", "void", "struct", "for", "do", "break", "default", "sizeof", "static", "register", "word_t", "main_", "_main", "mainx",
	"i64", "i8", "i1", "ptr", "entry", "label", "ret", "br", "add", "sub", "icmp", "llvm", "undef", "null", "true", "false", "define", "declare", "global", "zeroinitializer", "call", "store", "load", "alloca",
	"while_cond", "while_body", "while_end", "if_then", "if_else", "if_end", "then", "cond", "body", "end", "switch_end", "tmp", "str", "L", "L1", "bb0", "retval", "arg", "argc", "argv", "va_start", "va_list",
	"b_printf", "b_char", "b_fout", "b_main", "b", "B", "e", "n", "t", "r", "x0", "E1", "O0", "l1", "nul", "asm", "rax", "rsp", "sp", "fp", "text", "data", "bss", "section", "globl",
	"undefined", "printff", "printdd", "chars", "writebb", "reader", "exits", "nreads", "fout_", "Fout", "Main",
}

func genName(s *Src) string {
	switch s.Weighted(4, 4, 4, 2, 1, 2) {
	case 0:
		n := string(rune('a' + s.N(26)))
		if s.Bool() {
			n += fmt.Sprint(s.N(100))
		}
		return n
	case 1:
		return pick(s, bKeywords) + pick(s, []string{"x", "_", "0", "1e", "es", "er", "X", "_if", "if", "else", "__", "auto", "9"})
	case 2:
		return pick(s, oddNames)
	case 3:
		return pick(s, []string{"_", "__", "_1", "_if", "a_", "_0x", "__a", "_a_b_", "A", "Zz", "_9_"})
	case 4:
		return pick(s, []string{"l", "_", "If"}) + strings.Repeat(pick(s, []string{"o", "ng_", "0", "aB1_"}), s.Range(5, 70)) + string(rune('a'+s.N(26)))
	}
	k := pick(s, bKeywords)
	switch s.N(4) {
	case 0:
		return strings.ToUpper(k)
	case 1:
		return strings.ToUpper(k[:1]) + k[1:]
	case 2:
		return k[:len(k)-1]
	}
	return pick(s, []string{"x", "_", "a", "el", "i"}) + k
}

func freshName(s *Src, theme string, taken func(string) bool) string {
	for i := 0; ; i++ {
		n := ""
		if theme == "~" {
			for _, c := range pick(s, []string{"ab", "abc", "name", "If", "x1y2z3"}) {
				t := string(c)
				if s.Bool() {
					t = strings.ToUpper(t)
				}
				n += t
			}
		} else if theme != "" && !s.P(1, 4) {
			n = theme + pick(s, []string{"x", "_", "0", "1e", "es", "_x", "A", "__", "9"})
		} else {
			n = genName(s)
		}
		for j := 0; j < i-1; j++ {
			n += string(rune('0' + s.N(10)))
		}
		if !taken(n) && !containsS(bKeywords, n) {
			return n
		}
		if i > 60 {
			trap("no fresh name")
		}
	}
}

func walkStmt(st *Stmt, fs func(*Stmt), fe func(*Expr)) {
	if st == nil {
		return
	}
	fs(st)
	walkExpr(st.A, fe)
	for _, x := range st.List {
		walkStmt(x, fs, fe)
	}
	walkStmt(st.Body, fs, fe)
	walkStmt(st.Else, fs, fe)
}

func walkExpr(e *Expr, f func(*Expr)) {
	if e == nil {
		return
	}
	f(e)
	walkExpr(e.A, f)
	walkExpr(e.B, f)
	walkExpr(e.C, f)
	for _, a := range e.Args {
		walkExpr(a, f)
	}
}

func isLibrary(n string) bool { return natives[n] != nil || n == "fout" || n == "main" }

// rename gives other names to variables, functions and labels, in place.
func rename(s *Src, ds []*Decl, globalsToo bool) (shadow int) {
	// ds must not share nodes
	g := map[string]string{}
	used := map[string]bool{}
	var all []string
	theme := "" // most names begin with this word
	if s.P(1, 6) {
		theme = pick(s, append([]string{"else", "else"}, bKeywords...))
	} else if s.P(1, 8) { // names which differ late
		theme = strings.Repeat(pick(s, []string{"x", "a_", "Name", "v1"}), size(s, 2, 16, 70))
	} else if s.P(1, 8) { // names which differ in case
		theme = "~"
	}
	see := func(n string) {
		if _, ok := g[n]; ok || isLibrary(n) {
			return
		}
		nn := n
		if globalsToo {
			nn = freshName(s, theme, func(x string) bool { return used[x] || isLibrary(x) })
		}
		g[n] = nn
		used[nn] = true
		all = append(all, nn)
	}
	locals := func(d *Decl) map[string]bool {
		l := map[string]bool{}
		for _, p := range d.Params {
			l[p] = true
		}
		walkStmt(d.Body, func(st *Stmt) {
			for _, v := range st.Vars {
				l[v.Name] = true
			}
		}, func(*Expr) {})
		return l
	}
	for _, d := range ds {
		see(d.Name)
	}
	for _, d := range ds {
		if !d.IsFunc {
			continue
		}
		l := locals(d)
		walkStmt(d.Body, func(st *Stmt) {
			for _, n := range st.Names {
				see(n)
			}
		}, func(e *Expr) {
			if e.K == EName && !l[e.Name] {
				see(e.Name)
			}
		})
	}
	gl := func(n string) string {
		if x, ok := g[n]; ok {
			return x
		}
		return n
	}
	for _, d := range ds {
		d.Name = gl(d.Name)
		if !d.IsFunc {
			continue
		}
		l := locals(d)
		ref := map[string]bool{}
		walkStmt(d.Body, func(st *Stmt) {
			for _, n := range st.Names {
				ref[gl(n)] = true
			}
		}, func(e *Expr) {
			if e.K == EName && !l[e.Name] {
				ref[gl(e.Name)] = true
			}
		})
		// a local name may be that of something else which is not used here
		local := func() string {
			if len(all) > 0 && s.P(1, 4) {
				n := pick(s, all)
				if s.P(1, 5) {
					n = pick(s, []string{"printf", "char", "write", "exit", "main", "fout", "lchar", "flush"})
				}
				if !ref[n] && !containsS(bKeywords, n) {
					ref[n] = true
					shadow++
					return n
				}
			}
			n := freshName(s, theme, func(x string) bool { return ref[x] })
			ref[n] = true
			return n
		}
		lm := map[string]string{}
		lab := map[string]string{}
		for i, p := range d.Params {
			lm[p] = local()
			d.Params[i] = lm[p]
		}
		lname := func(n string) string {
			if lm[n] == "" {
				lm[n] = local()
			}
			return lm[n]
		}
		label := func(n string) string {
			if lab[n] == "" {
				lab[n] = local()
			}
			return lab[n]
		}
		walkStmt(d.Body, func(st *Stmt) {
			for i := range st.Vars {
				st.Vars[i].Name = lname(st.Vars[i].Name)
			}
			for i := range st.Names {
				st.Names[i] = gl(st.Names[i])
			}
			if st.K == SLabel || st.K == SGoto {
				st.Name = label(st.Name)
			}
		}, func(e *Expr) {
			if e.K != EName {
				return
			}
			if l[e.Name] {
				e.Name = lname(e.Name)
			} else {
				e.Name = gl(e.Name)
			}
		})
	}
	return
}

// ---- layout ----

var commentTexts = []string{"", "*", "**", " x ", "/*", "\"", "'", "if (", "*\n", "//", " }", "else", "*(", "* /", "\n\n", "/", "/ ", "x;", "***", "auto x", "\xc3\xa9\xff", "a very long comment, which says nothing; { ( [ \" ' ; }\n * more\n", "*'*'", "\t"}

func genComment(s *Src) string {
	if s.P(1, 16) { // any text
		n := s.Range(1, 40)
		if s.P(1, 12) {
			n = size(s, 40, 6000, 100000)
		}
		b := make([]byte, n)
		for i := range b {
			switch s.N(4) {
			case 0:
				b[i] = pick(s, []byte("**//\n\"'{}"))
			case 1:
				b[i] = byte(s.Range(1, 255))
			default:
				b[i] = byte(s.Range('a', 'z'))
			}
			if i > 0 && b[i-1] == '*' && b[i] == '/' {
				b[i] = '*'
			}
		}
		return "/*" + string(b) + "*/"
	}
	return "/*" + pick(s, commentTexts) + "*/"
}

func genSep(s *Src, comments bool) string {
	var sb strings.Builder
	for i, n := 0, s.Range(1, 3); i < n; i++ {
		k := s.Weighted(4, 2, 3, 2, 1, 6)
		if k == 5 && !comments {
			k = 2
		}
		switch k {
		case 0:
			sb.WriteString(" ")
		case 1:
			sb.WriteString("\t")
		case 2:
			sb.WriteString("\n")
		case 3:
			sb.WriteString(pick(s, []string{"\r\n", "\r\n", "\n\f\n", "\v", "\f"}))
		case 4:
			sb.WriteString("\n\n    ")
		case 5:
			sb.WriteString(genComment(s))
		}
	}
	return sb.String()
}

// layoutOdd prints the tokens with odd separators.
func layoutOdd(s *Src, toks []Tok) (string, string) {
	base := s.N(4) // tight, one space, one line per token, tight
	num, den := 0, 1
	dens := s.N(4)
	switch dens {
	case 1:
		num, den = 1, 20
	case 2:
		num, den = 1, 4
	case 3:
		num, den = 1, 1
	}
	if base == 0 && dens == 0 {
		return layoutTight(toks), "layout:tight"
	}
	comments := s.P(3, 4)
	var sb strings.Builder
	if s.P(1, 3) {
		sb.WriteString(genSep(s, comments))
	}
	var prev *Tok
	for i := range toks {
		t := toks[i]
		if t.K == TIn || t.K == TOut || t.K == TBreak {
			continue
		}
		if prev != nil {
			sep := ""
			switch base {
			case 1:
				sep = " "
			case 2:
				sep = "\n"
			}
			if num > 0 && s.P(num, den) {
				sep = genSep(s, comments)
			}
			if needSep(*prev, t) && sep == "" {
				sep = " "
			}
			if prev.K == TOp && strings.HasSuffix(prev.S, "/") && strings.HasPrefix(sep, "/") {
				sep = " " + sep
			}
			sb.WriteString(sep)
		}
		sb.WriteString(t.S)
		prev = &toks[i]
	}
	if s.P(1, 2) {
		sb.WriteString("\n")
	} else if s.P(1, 2) {
		sb.WriteString(genSep(s, comments))
	}
	return sb.String(), fmt.Sprintf("layout:%s density %d/%d", []string{"tight", "spaced", "lines", "tight"}[base], num, den)
}

// ---- the check ----

// progRun compiles sources and runs the program; fail: it is not compiled.
type progRes struct {
	fail string
	r    Res
}

func (p progRes) same(so, se []byte, st int) bool {
	return p.fail == "" && !p.r.Truncated && p.r.Status == st && bytes.Equal(p.r.Stdout, so) && bytes.Equal(p.r.Stderr, se)
}

func (p progRes) show() string {
	if p.fail != "" {
		return p.fail
	}
	s := p.r.ended() + ", output " + showWords(p.r.Stdout)
	if len(p.r.Stderr) > 0 {
		s += fmt.Sprintf(", standard error %q", clipB(p.r.Stderr))
	}
	return s
}

func runSources(srcs []string, b Build, max int) progRes {
	dir := newDir()
	defer os.RemoveAll(dir)
	exe, fail := compileSources(dir, srcs, b)
	if fail != "" {
		return progRes{fail: fail}
	}
	return progRes{r: run(RunOpt{Dir: dir, Lim: limits{cpu: 10, memMB: 2048}, MaxOut: max + 65536}, exe)}
}

// sameAs tells whether two runs show the same behaviour (messages of the
// compiler may differ).
func (p progRes) sameAs(q progRes) bool {
	if p.fail != "" || q.fail != "" {
		return (p.fail != "") == (q.fail != "")
	}
	return q.same(p.r.Stdout, p.r.Stderr, p.r.Status) && p.r.Signal == q.r.Signal
}

func genStyleCase(s *Src) *Case {
	us := okUnits(s, 1, 8)
	so, se := expected(us)
	ds := cloneDecls(wholeProgram(us))
	plain := (&Prog{Decls: ds}).Source()
	var cl []string
	if s.P(2, 3) {
		sh := rename(s, ds, s.P(4, 5))
		cl = append(cl, "renamed")
		if sh > 0 {
			cl = append(cl, "renamed: a local named like a global")
		}
		o, err := interpret(nil, &Prog{Decls: ds})
		if err != nil {
			return nil
		}
		if !bytes.Equal(o.Stdout, so) || !bytes.Equal(o.Stderr, se) {
			infra("renaming changes the meaning:\n%s", (&Prog{Decls: ds}).Source())
		}
	}
	var ps *Src
	if s.P(1, 2) {
		ps = s
		cl = append(cl, "parentheses")
	}
	toks := tokens(&Prog{Decls: ds}, ps)
	var src, lc string
	if s.P(1, 6) {
		src, lc = layoutNormal(toks), "layout:normal"
	} else {
		src, lc = layoutOdd(s, toks)
	}
	cl = append(cl, lc)
	for _, u := range us {
		cl = append(cl, "unit:"+u.Name)
	}
	return &Case{Text: src, Class: cl, Triv: src == plain, Files: map[string]string{"plain.b": plain, "variant.b": src}, Order: []string{"plain.b", "variant.b"},
		Cmd: "blang plain.b and blang variant.b give the same program",
		Run: func() verdict {
			v := runSources([]string{src}, Build{}, len(so)+len(se))
			if v.same(so, se, 0) {
				return verdict{ok: true}
			}
			p := runSources([]string{plain}, Build{}, len(so)+len(se))
			if p.sameAs(v) {
				notes.add("plain form has the same (unexpected) outcome")
				return verdict{ok: true}
			}
			what := "another layout or other names change the behaviour of a program"
			if v.fail != "" {
				what = "another layout or other names make a program unacceptable"
			}
			return verdict{what: what, want: p.show(), got: v.show()}
		}}
}
