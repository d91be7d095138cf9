package main

// B in C: functions and variables of a program written in C by the convention of
// the runtime library (symbol b.NAME, words as parameters and results), for
// programs made of both.

import (
	"fmt"
	"sort"
	"strings"
)

type cPrinter struct {
	local map[string]bool
	ext   map[string]bool
	n     int
	used  map[string]byte // 'f' function, 'x' variable
}

type cannotC struct{}

func (p *cPrinter) tmp() string {
	p.n++
	return fmt.Sprintf("t%d", p.n)
}

func cNum(n int64) string {
	if n < 0 {
		return fmt.Sprintf("((word_t)0x%xUL)", uint64(n))
	}
	return fmt.Sprintf("%dL", n)
}

func cStr(b []byte) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for _, c := range b {
		fmt.Fprintf(&sb, "\\%03o", c)
	}
	sb.WriteByte('"')
	return sb.String()
}

func (p *cPrinter) use(n string, k byte) string {
	p.used[n] = k
	return map[byte]string{'f': "F_", 'x': "X_"}[k] + n
}

// lv is the address of an lvalue.
func (p *cPrinter) lv(e *Expr) string {
	switch e.K {
	case EName:
		if p.local[e.Name] {
			return "((word_t)&V_" + e.Name + ")"
		}
		if p.ext[e.Name] {
			return "((word_t)&" + p.use(e.Name, 'x') + ")"
		}
	case EUn:
		if e.Op == "*" {
			return p.rv(e.A)
		}
	case EPre:
		t := p.tmp()
		return fmt.Sprintf("({word_t %s=%s; *(word_t*)%s%s1; %s;})", t, p.lv(e.A), t, map[string]string{"++": "+=", "--": "-="}[e.Op], t)
	case EIndex:
		a, b := p.tmp(), p.tmp()
		return fmt.Sprintf("({word_t %s=%s; word_t %s=%s; %s+8*%s;})", a, p.rv(e.A), b, p.rv(e.B), a, b)
	}
	panic(cannotC{})
}

func cOp(o, a, b string) string {
	if o == ">>" {
		return fmt.Sprintf("(word_t)((unsigned long)%s>>%s)", a, b)
	}
	return fmt.Sprintf("(word_t)(%s %s %s)", a, o, b)
}

func (p *cPrinter) rv(e *Expr) string {
	switch e.K {
	case ENum, EChr:
		return cNum(e.N)
	case EStr:
		return "((word_t)" + cStr(e.Bytes) + ")"
	case EParen:
		return p.rv(e.A)
	case EName:
		if p.local[e.Name] {
			return "V_" + e.Name
		}
		if p.ext[e.Name] {
			return p.use(e.Name, 'x')
		}
		return "((word_t)" + p.use(e.Name, 'f') + ")"
	case EIndex, EPre:
		return "(*(word_t*)" + p.lv(e) + ")"
	case EPost:
		t := p.tmp()
		return fmt.Sprintf("({word_t %s=%s; (*(word_t*)%s)%s;})", t, p.lv(e.A), t, e.Op)
	case EUn:
		switch e.Op {
		case "*":
			return "(*(word_t*)" + p.rv(e.A) + ")"
		case "&":
			return p.lv(e.A)
		case "!":
			return "(word_t)(!" + p.rv(e.A) + ")"
		case "-":
			return "(-" + p.rv(e.A) + ")"
		}
	case EBin:
		a, b := p.tmp(), p.tmp()
		return fmt.Sprintf("({word_t %s=%s; word_t %s=%s; %s;})", a, p.rv(e.A), b, p.rv(e.B), cOp(e.Op, a, b))
	case ECond:
		return fmt.Sprintf("(%s ? %s : %s)", p.rv(e.A), p.rv(e.B), p.rv(e.C))
	case EAssign:
		a, b, o := p.tmp(), p.tmp(), e.Op[1:]
		if o == "" {
			return fmt.Sprintf("({word_t %s=%s; word_t %s=%s; *(word_t*)%s=%s; %s;})", a, p.lv(e.A), b, p.rv(e.B), a, b, b)
		}
		old := p.tmp()
		return fmt.Sprintf("({word_t %s=%s; word_t %s=%s; word_t %s=*(word_t*)%s; *(word_t*)%s=%s;})", a, p.lv(e.A), b, p.rv(e.B), old, a, a, cOp(o, old, b))
	case ECall:
		var sb strings.Builder
		sb.WriteString("({")
		f := ""
		if e.A.K == EName && !p.local[e.A.Name] && !p.ext[e.A.Name] {
			f = p.use(e.A.Name, 'f')
		} else {
			t := p.tmp()
			fmt.Fprintf(&sb, "word_t %s=%s; ", t, p.rv(e.A))
			f = t
		}
		var args []string
		for _, a := range e.Args {
			t := p.tmp()
			fmt.Fprintf(&sb, "word_t %s=%s; ", t, p.rv(a))
			args = append(args, t)
		}
		fmt.Fprintf(&sb, "((word_t(*)())%s)(%s);})", f, strings.Join(args, ","))
		return sb.String()
	}
	panic(cannotC{})
}

func (p *cPrinter) stmt(sb *strings.Builder, s *Stmt) {
	switch s.K {
	case SExpr:
		fmt.Fprintf(sb, "(void)%s;\n", p.rv(s.A))
	case SNull, SExtrn:
		sb.WriteString(";\n")
	case SBlock:
		sb.WriteString("{\n")
		for _, x := range s.List {
			p.stmt(sb, x)
		}
		sb.WriteString("}\n")
	case SIf:
		fmt.Fprintf(sb, "if (%s) {\n", p.rv(s.A))
		p.stmt(sb, s.Body)
		sb.WriteString("}\n")
		if s.Else != nil {
			sb.WriteString("else {\n")
			p.stmt(sb, s.Else)
			sb.WriteString("}\n")
		}
	case SWhile:
		fmt.Fprintf(sb, "while (%s) {\n", p.rv(s.A))
		p.stmt(sb, s.Body)
		sb.WriteString("}\n")
	case SSwitch:
		fmt.Fprintf(sb, "switch (%s) {\n", p.rv(s.A))
		p.stmt(sb, s.Body)
		sb.WriteString("}\n")
	case SCase:
		fmt.Fprintf(sb, "case %s: ;\n", cNum(s.N))
		p.stmt(sb, s.Body)
	case SLabel:
		fmt.Fprintf(sb, "L_%s: ;\n", s.Name)
		p.stmt(sb, s.Body)
	case SGoto:
		fmt.Fprintf(sb, "goto L_%s;\n", s.Name)
	case SReturn:
		if s.A == nil {
			sb.WriteString("return 0;\n")
		} else {
			fmt.Fprintf(sb, "return %s;\n", p.rv(s.A))
		}
	case SAuto:
		for _, v := range s.Vars {
			if v.Vec {
				fmt.Fprintf(sb, "V_%s = (word_t)W_%s;\n", v.Name, v.Name)
			} else {
				fmt.Fprintf(sb, "V_%s = 0;\n", v.Name)
			}
		}
	default:
		panic(cannotC{})
	}
}

func walkStmts(s *Stmt, f func(*Stmt)) {
	if s == nil {
		return
	}
	f(s)
	walkStmts(s.Body, f)
	walkStmts(s.Else, f)
	for _, x := range s.List {
		walkStmts(x, f)
	}
}

// fn gives a function in C and its prototype; variadic: with its parameters after
// the first taken as those of the library's functions.
func (p *cPrinter) fn(d *Decl, variadic, vector bool) (proto, text string) {
	p.local, p.ext = map[string]bool{}, map[string]bool{}
	var head, body strings.Builder
	var ps []string
	for _, x := range d.Params {
		p.local[x] = true
		ps = append(ps, "word_t V_"+x)
	}
	variadic = variadic && len(ps) > 0
	take := ""
	if len(ps) == 0 {
		ps = []string{"void"}
	} else if variadic {
		take = "__builtin_va_list ap;\n__builtin_va_start(ap, V_" + d.Params[0] + ");\n"
		for _, x := range d.Params[1:] {
			take += "word_t V_" + x + " = __builtin_va_arg(ap, word_t);\n"
		}
		take += "__builtin_va_end(ap);\n"
		ps = []string{ps[0], "..."}
	}
	sig := fmt.Sprintf("word_t F_%s(%s)", d.Name, strings.Join(ps, ", "))
	fmt.Fprintf(&head, "%s {\n%s", sig, take)
	if vector { // needs the stack to be aligned
		head.WriteString("volatile long z_ __attribute__((vector_size(16))) = {1, 2};\nz_ = z_ + z_;\n")
	}
	walkStmts(d.Body, func(s *Stmt) {
		switch s.K {
		case SAuto:
			for _, v := range s.Vars {
				p.local[v.Name] = true
				if v.Vec {
					n := v.Size
					if n == 0 {
						n = 1
					}
					fmt.Fprintf(&head, "word_t W_%s[%d];\nword_t V_%s = (word_t)W_%s;\n", v.Name, n, v.Name, v.Name)
				} else {
					fmt.Fprintf(&head, "word_t V_%s = 0;\n", v.Name)
				}
			}
		case SExtrn:
			for _, n := range s.Names {
				p.ext[n] = true
			}
		}
	})
	p.stmt(&body, d.Body)
	return fmt.Sprintf("%s __asm__(\"b.%s\");\n", sig, d.Name), head.String() + body.String() + "return 0;\n}\n"
}

func cVal(v IVal) string {
	if v.IsS {
		return "(word_t)" + cStr(v.Str)
	}
	return cNum(v.N)
}

// cVar gives the definition of a variable in C.
func cVar(d *Decl) string {
	var l []string
	for _, v := range d.Init {
		l = append(l, cVal(v))
	}
	if !d.Vec {
		n := len(l)
		if n == 0 {
			n = 1
		}
		return fmt.Sprintf("word_t D_%s[%d] __asm__(\"b.%s\") = {%s};\n", d.Name, n, d.Name, strings.Join(l, ", "))
	}
	n := int(d.Size)
	if len(l) > n {
		n = len(l)
	}
	if n == 0 {
		n = 1
	}
	return fmt.Sprintf("static word_t W_%s[%d] = {%s};\nword_t D_%s __asm__(\"b.%s\") = (word_t)W_%s;\n", d.Name, n, strings.Join(l, ", "), d.Name, d.Name, d.Name)
}

const cHead = "/* C */\n"

// cFuncs gives a file of functions in C, or ok = false.
func cFuncs(ds []*Decl, flip func() bool) (text string, used map[string]byte, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(cannotC); !is {
				panic(r)
			}
			ok = false
		}
	}()
	p := &cPrinter{used: map[string]byte{}}
	var head, sb strings.Builder
	head.WriteString(cHead + "#define word_t long\n")
	have := map[string]bool{}
	for _, d := range ds {
		proto, text := p.fn(d, flip(), flip())
		head.WriteString(proto)
		sb.WriteString(text)
		have[d.Name] = true
	}
	var names []string
	for n := range p.used {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if p.used[n] == 'x' {
			fmt.Fprintf(&head, "extern word_t X_%s __asm__(\"b.%s\");\n", n, n)
		} else if !have[n] {
			fmt.Fprintf(&head, "word_t F_%s() __asm__(\"b.%s\");\n", n, n)
		}
	}
	return head.String() + sb.String(), p.used, true
}

// compileC makes an object, assembly, LLVM IR or archive of a file in C.
func compileC(dir, src, kind string, opt int) (out, fail string) {
	if kind == "" {
		kind = "o"
	}
	base := strings.TrimSuffix(src, ".c")
	flags := []string{"clang", fmt.Sprintf("-O%d", opt), "-std=gnu89", "-w", "-fwrapv", "-fno-strict-aliasing", "-fno-builtin", "-ffreestanding", "-fno-stack-protector", "-fno-pic", "-fcommon"}
	to := base + "." + kind
	switch kind {
	case "s":
		flags = append(flags, "-S")
	case "ll":
		flags = append(flags, "-S", "-emit-llvm")
	default:
		flags = append(flags, "-c")
		to = base + ".o"
	}
	o := RunOpt{Dir: dir, Lim: limits{cpu: 60}}
	if r := run(o, append(flags, "-o", to, src)...); r.Status != 0 {
		return "", fmt.Sprintf("clang %s: %s %s", src, r.ended(), clipB(r.Stderr))
	}
	if kind == "a" {
		if r := run(o, "ar", "rc", base+".a", to); r.Status != 0 {
			return "", "ar: " + r.ended()
		}
		to = base + ".a"
	}
	return to, ""
}

var cStyles = []string{"", "", "_", "__", "U", "main", "b_", "b", "llvm_", "str", "L", "a9_", "data_", "exit", "X_Y_", "memcpy", "Zz", strings.Repeat("long_", 7), strings.Repeat("n", 250)}

// names which could mean something elsewhere; at most one unit of a batch has each
var exactNames = []string{"start", "memcpy", "_start", "llvm", "malloc", "data", "_", "puts", "define", "__", "exit2", "end", "rax", "main_", "errno", "strlen", "_main", "Main", "edata", "i64", "printf_", "memset", "st", "label", "va_start", "abort", "undef", "text", "null", "EXIT", "offset", "Printf", "_init", "b", "ptr", "etext", "environ", "global", "fout_", "__bss_start", "stdout", "_end", "str"}

// giveName gives one of the definitions of a unit another name.
func giveName(u *Unit, d *Decl, to string) bool {
	from, ok := d.Name, true
	var all []*Decl
	for _, ds := range u.Decls {
		all = append(all, ds...)
	}
	for _, d := range all {
		ok = ok && d.Name != to && !containsS(d.Params, to)
		walkStmt(d.Body, func(st *Stmt) {
			for _, v := range st.Vars {
				ok = ok && v.Name != to
			}
		}, func(*Expr) {})
	}
	if !ok || from == u.Entry {
		return false
	}
	for _, d := range all {
		if d.Name == from {
			d.Name = to
		}
		walkStmt(d.Body, func(st *Stmt) {
			for i, n := range st.Names {
				if n == from {
					st.Names[i] = to
				}
			}
		}, func(e *Expr) {
			if e.K == EName && e.Name == from {
				e.Name = to
			}
		})
	}
	return true
}

// mixed turns a generator of units in B into one of units in B and C.
func mixed(g UnitGen) UnitGen {
	gen := g.Gen
	return UnitGen{g.Name, g.Weight, func(s *Src, pfx string) *Unit {
		// names of several styles
		no := 0
		fmt.Sscanf(pfx, "u%d_", &no)
		pfx = pick(s, cStyles) + pfx
		u := gen(s, pfx)
		if u == nil {
			return nil
		}
		u.Pfx = pfx
		count := map[string]int{}
		var all []*Decl
		for _, ds := range u.Decls {
			for _, d := range ds {
				if d.Raw {
					trap("raw")
				}
				count[d.Name]++
				all = append(all, d)
			}
		}
		if d := pick(s, all); s.Bool() && no < len(exactNames) && giveName(u, d, exactNames[no]) {
			u.Class = append(u.Class, "name:"+d.Name)
			count = map[string]int{}
			for _, d := range all {
				count[d.Name]++
			}
		}
		part := pick(s, []int{1, 2, 3, 4})
		var bs, fs, vs []*Decl
		for _, d := range all {
			switch {
			case count[d.Name] > 1 || !s.P(part, 4):
				bs = append(bs, d)
			case d.IsFunc:
				fs = append(fs, d)
			default:
				vs = append(vs, d)
			}
		}
		if len(fs)+len(vs) == 0 {
			trap("nothing in C")
		}
		text, used, ok := cFuncs(fs, func() bool { return s.P(1, 3) })
		if !ok {
			trap("not in C")
		}
		var sb strings.Builder
		sb.WriteString(cHead + "#define word_t long\n")
		for _, d := range vs {
			sb.WriteString(cVar(d))
			u.Class = append(u.Class, "variable in C")
		}
		var names []string
		for n, k := range used {
			if k == 'x' && count[n] == 0 && n != "fout" {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names { // defined nowhere
			fmt.Fprintf(&sb, "word_t D_%s __asm__(\"b.%s\");\n", n, n)
		}
		for range fs {
			u.Class = append(u.Class, "function in C")
		}
		for range bs {
			u.Class = append(u.Class, "definition in B")
		}
		t := tokens(&Prog{Decls: bs}, nil)
		u.Src = []string{layoutNormal(t), text, sb.String()}
		return u
	}}
}
