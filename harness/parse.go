package main

// Reference parser: text to AST, with B's rules about names, labels and cases.
// It is written from the token and grammar rules of doc/bref, longest token
// first, and shares nothing with the compiler.  It says "unsure" about what the
// language or the documents leave open, and such texts are not used.

import (
	"fmt"
	"strings"
)

type refError struct{ msg string } // B's rules forbid it
type refUnsure struct{ msg string }

// refParse gives the definitions of a source, or why it must be rejected, or
// (unsure) that it is not clear.
func refParse(src string) (ds []*Decl, reject, unsure string) {
	ds, _, reject, unsure = refParseNames(src)
	return
}

// refParseNames also gives which names are variables ('v') and functions ('f').
func refParseNames(src string) (ds []*Decl, kind map[string]byte, reject, unsure string) {
	defer func() {
		if r := recover(); r != nil {
			ds = nil
			switch x := r.(type) {
			case refError:
				reject = x.msg
			case refUnsure:
				unsure = x.msg
			default:
				panic(r)
			}
		}
	}()
	p := &refParser{}
	p.lex(src)
	p.kind = map[string]byte{}
	tops := map[string]bool{}
	for !p.at("") {
		d := p.decl()
		if tops[d.Name] {
			open("'%s' is defined twice", d.Name)
		}
		tops[d.Name] = true
		ds = append(ds, d)
	}
	return ds, p.kind, "", ""
}

type refTok struct {
	k TKind // TWord, TNum (digits), TLit, TPunct
	s string
	b []byte
	q byte
	// the text cannot be read on from here
	bad string
}

const (
	rEnd TKind = 100 + iota
	rWord
	rNum
	rLit
	rOp
)

type refParser struct {
	toks []refTok
	i    int
	// 'v' or 'f' of every name seen at file level, in the order of the text
	kind map[string]byte
	// of the current function
	local, ext map[string]bool
	defined    map[string]bool
	used       []string
	depth      int
}

func no(f string, a ...any)   { panic(refError{fmt.Sprintf(f, a...)}) }
func open(f string, a ...any) { panic(refUnsure{fmt.Sprintf(f, a...)}) }
func isWordByte(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || isDigit(c)
}
func isDigit(c byte) bool { return c >= '0' && c <= '9' }

// operators and punctuation, longest first
var refOps = []string{"===", "=!=", "=<<", "=>>", "=<=", "=>=",
	"==", "!=", "<=", ">=", "<<", ">>", "++", "--", "=+", "=-", "=*", "=/", "=%", "=&", "=|", "=<", "=>",
	"=", "+", "-", "*", "/", "%", "&", "|", "<", ">", "!", "?", ":", "(", ")", "[", "]", "{", "}", ",", ";"}

// lex makes tokens; an error stays in its place, as the parser may find another
// before it (each makes the program unacceptable).
func (p *refParser) lex(src string) {
	i := 0
	add := func(t refTok) { p.toks = append(p.toks, t) }
	for i < len(src) {
		c := src[i]
		switch {
		case c >= 0x80 || c < ' ' && c != '\t' && c != '\n' && c != '\r' && c != '\v' && c != '\f' || c == 0x7f:
			open("byte %d", c)
		case c <= ' ':
			i++
		case strings.HasPrefix(src[i:], "/*"):
			k := strings.Index(src[i+2:], "*/")
			if k < 0 {
				add(refTok{bad: "comment without end"})
				return
			}
			i += k + 4
		case isDigit(c):
			k := i
			for k < len(src) && isDigit(src[k]) {
				k++
			}
			add(refTok{k: rNum, s: src[i:k]})
			i = k
		case isWordByte(c):
			k := i
			for k < len(src) && isWordByte(src[k]) {
				k++
			}
			add(refTok{k: rWord, s: src[i:k]})
			i = k
		case c == '\'' || c == '"':
			var b []byte
			k := i + 1
			for {
				if k >= len(src) {
					add(refTok{bad: "literal without end"})
					return
				}
				x := src[k]
				k++
				if x == c {
					break
				}
				if x == '*' {
					if k >= len(src) {
						add(refTok{bad: "literal without end"})
						return
					}
					e, ok := map[byte]byte{'0': 0, 'e': 0, '(': '{', ')': '}', 't': '\t', '*': '*', '\'': '\'', '"': '"', 'n': '\n', 'r': '\r'}[src[k]]
					if !ok {
						add(refTok{bad: "unknown escape"})
						return
					}
					k++
					x = e
				}
				b = append(b, x)
			}
			t := refTok{k: rLit, s: src[i:k], b: b, q: c}
			if c == '\'' && len(b) > 8 {
				t = refTok{bad: "long character constant"}
				add(t)
				return
			}
			add(t)
			i = k
		default:
			var op string
			for _, o := range refOps {
				if strings.HasPrefix(src[i:], o) {
					op = o
					break
				}
			}
			if op == "=/" && strings.HasPrefix(src[i:], "=/*") {
				op = "="
			}
			if op == "" {
				add(refTok{bad: "no token starts with '" + string(c) + "'"})
				return
			}
			add(refTok{k: rOp, s: op})
			i += len(op)
		}
	}
}

func (p *refParser) tok() refTok {
	if p.i >= len(p.toks) {
		return refTok{k: rEnd}
	}
	t := p.toks[p.i]
	if t.bad != "" {
		no("%s", t.bad)
	}
	return t
}

// at tells whether an operator or keyword is next; at("") the end.
func (p *refParser) at(s string) bool {
	t := p.tok()
	if s == "" {
		return t.k == rEnd
	}
	return (t.k == rOp || t.k == rWord) && t.s == s
}

func (p *refParser) got(s string) bool {
	if p.at(s) {
		p.i++
		return true
	}
	return false
}

func (p *refParser) need(s string) {
	if !p.got(s) {
		no("'%s' is missing", s)
	}
}

func (p *refParser) ident() string {
	t := p.tok()
	if t.k != rWord || containsS(bKeywords, t.s) {
		no("a name is missing")
	}
	p.i++
	return t.s
}

// number gives the word a digit string denotes; ok is false when it is too large.
func refNumber(s string) (v int64, ok bool) {
	base := uint64(10)
	if s[0] == '0' {
		base = 8
	}
	var n uint64
	ok = true
	for i := 0; i < len(s); i++ {
		d := uint64(s[i] - '0')
		if n > (1<<64-1-d)/base {
			ok = false
		}
		n = n*base + d
	}
	if base == 10 && n > 1<<63-1 {
		ok = false
	}
	return int64(n), ok
}

// ---- definitions ----

func (p *refParser) setKind(n string, k byte) {
	if o := p.kind[n]; o != 0 && o != k {
		no("'%s' is both variable and function", n)
	}
	p.kind[n] = k
}

func (p *refParser) decl() *Decl {
	n := p.ident()
	d := &Decl{Name: n}
	if p.got("(") {
		d.IsFunc = true
		p.local, p.ext, p.defined, p.used = map[string]bool{}, map[string]bool{}, map[string]bool{}, nil
		if !p.got(")") {
			for {
				x := p.ident()
				if p.local[x] {
					no("parameter '%s' twice", x)
				}
				p.local[x] = true
				d.Params = append(d.Params, x)
				if p.got(")") {
					break
				}
				p.need(",")
			}
		}
		p.setKind(n, 'f')
		d.Body = p.stmt(0)
		for _, l := range p.used {
			if !p.defined[l] {
				no("no label '%s'", l)
			}
		}
		return d
	}
	p.setKind(n, 'v')
	if p.got("[") {
		d.Vec = true
		if t := p.tok(); t.k == rNum {
			p.i++
			d.SizeT = t.s
			v, ok := refNumber(t.s)
			if !ok || v > 100000 {
				open("large vector")
			}
			if v == 0 {
				open("vector without words")
			}
			d.Size = v
		} else if t.k == rLit {
			open("literal as a size")
		}
		p.need("]")
	}
	if p.got(";") {
		return d
	}
	for {
		d.Init = append(d.Init, p.ival())
		if p.got(";") {
			return d
		}
		p.need(",")
	}
}

func (p *refParser) ival() IVal {
	neg := p.got("-")
	t := p.tok()
	switch t.k {
	case rNum:
		p.i++
		v, ok := refNumber(t.s)
		if neg && t.s == "9223372036854775808" {
			ok = true
		}
		if !ok {
			open("large constant")
		}
		if neg {
			return IVal{N: -v, Text: "-" + t.s}
		}
		return IVal{N: v, Text: t.s}
	case rLit:
		if neg {
			no("- before a literal")
		}
		p.i++
		if t.q == '"' {
			return IVal{IsS: true, Str: append([]byte{}, t.b...), Text: t.s}
		}
		return IVal{N: chrVal(t.b), Text: t.s}
	case rWord:
		if !neg && !containsS(bKeywords, t.s) {
			open("a name as an initial value")
		}
	}
	no("an initial value is missing")
	return IVal{}
}

// ---- statements ----

// inSw: 0 outside of a switch, 1 directly in one, 2 in an if or while inside.
func (p *refParser) stmt(inSw int) *Stmt { return p.stmtIn(&swCtx{level: inSw}) }

type swCtx struct {
	level int
	seen  map[int64]bool
}

func (p *refParser) stmtIn(sc *swCtx) *Stmt {
	if p.depth++; p.depth > 2000 {
		open("deep nesting")
	}
	defer func() { p.depth-- }()
	inner := func() *Stmt {
		k := sc.level
		if k == 1 {
			k = 2
		}
		return p.stmtIn(&swCtx{level: k})
	}
	t := p.tok()
	if t.k == rOp {
		switch t.s {
		case "{":
			p.i++
			b := &Stmt{K: SBlock}
			for !p.got("}") {
				if p.at("") {
					no("} is missing")
				}
				b.List = append(b.List, p.stmtIn(sc))
			}
			return b
		case ";":
			p.i++
			return null()
		}
	}
	if t.k == rWord {
		switch t.s {
		case "auto":
			p.i++
			st := &Stmt{K: SAuto}
			var names []string
			for {
				n := p.ident()
				if p.local[n] || containsS(names, n) {
					no("auto '%s' twice", n)
				}
				if p.ext[n] {
					open("auto and extrn")
				}
				names = append(names, n)
				v := VarDecl{Name: n}
				if p.got("[") {
					v.Vec = true
					switch t := p.tok(); t.k {
					case rNum:
						p.i++
						x, ok := refNumber(t.s)
						if !ok || x > 20000 {
							open("large vector")
						}
						if x == 0 {
							open("vector without words")
						}
						v.Size, v.Text = x, t.s
					case rLit:
						if t.q == '"' {
							no("string as a size")
						}
						p.i++
						v.Size, v.Text = chrVal(t.b), t.s
						if v.Size <= 0 || v.Size > 20000 {
							open("large vector")
						}
					}
					p.need("]")
				}
				st.Vars = append(st.Vars, v)
				if p.got(";") {
					break
				}
				p.need(",")
			}
			for _, n := range names {
				p.local[n] = true
			}
			return st
		case "extrn":
			p.i++
			st := &Stmt{K: SExtrn}
			for {
				n := p.ident()
				if p.local[n] {
					open("auto and extrn")
				}
				p.setKind(n, 'v')
				p.ext[n] = true
				st.Names = append(st.Names, n)
				if p.got(";") {
					return st
				}
				p.need(",")
			}
		case "if":
			p.i++
			p.need("(")
			st := &Stmt{K: SIf, A: p.value()}
			p.need(")")
			st.Body = inner()
			if p.got("else") {
				st.Else = inner()
			}
			return st
		case "while":
			p.i++
			p.need("(")
			st := &Stmt{K: SWhile, A: p.value()}
			p.need(")")
			st.Body = inner()
			return st
		case "switch":
			p.i++
			st := &Stmt{K: SSwitch, A: p.value()}
			st.Body = p.stmtIn(&swCtx{level: 1, seen: map[int64]bool{}})
			return st
		case "case":
			p.i++
			if sc.level == 0 {
				no("case outside of a switch")
			}
			if sc.level == 2 {
				open("case in a statement of a switch")
			}
			st := &Stmt{K: SCase}
			switch t := p.tok(); {
			case t.k == rNum:
				v, ok := refNumber(t.s)
				if !ok {
					open("large constant")
				}
				st.N, st.Text = v, t.s
			case t.k == rLit && t.q == '\'':
				st.N, st.Text = chrVal(t.b), t.s
			default:
				no("no constant after case")
			}
			p.i++
			p.need(":")
			if sc.seen[st.N] {
				no("case %d twice", st.N)
			}
			sc.seen[st.N] = true
			st.Body = p.stmtIn(sc)
			return st
		case "goto":
			p.i++
			n := p.ident()
			p.used = append(p.used, n)
			p.need(";")
			return goTo(n)
		case "return":
			p.i++
			if p.got(";") {
				return ret(nil)
			}
			p.need("(")
			e := p.value()
			p.need(")")
			p.need(";")
			return ret(e)
		case "else":
			no("else without if")
		}
		if p.i+1 < len(p.toks) && p.toks[p.i+1].k == rOp && p.toks[p.i+1].s == ":" && p.toks[p.i+1].bad == "" {
			n := p.ident()
			p.i++
			if p.defined[n] {
				no("label '%s' twice", n)
			}
			p.defined[n] = true
			return label(n, p.stmtIn(sc))
		}
	}
	e := p.value()
	p.need(";")
	return sx(e)
}

// ---- expressions ----

var refPrec = map[string]int{"|": 1, "&": 2, "==": 3, "!=": 3, "<": 4, "<=": 4, ">": 4, ">=": 4, "<<": 5, ">>": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *refParser) value() *Expr {
	if p.depth++; p.depth > 2000 {
		open("deep nesting")
	}
	defer func() { p.depth-- }()
	a := p.cond()
	if t := p.tok(); t.k == rOp && containsS(asgOps, t.s) {
		p.lvalue(a)
		r := a
		for r.K == EUn {
			r = r.A
		}
		if a.K == EUn && r.K == EName && !p.local[r.Name] && !p.ext[r.Name] {
			open("store to a function")
		}
		p.i++
		return asg(t.s, a, p.value())
	}
	return a
}

func (p *refParser) cond() *Expr {
	a := p.binary(1)
	if p.got("?") {
		b := p.value()
		p.need(":")
		c := p.cond()
		return cond(a, b, c)
	}
	return a
}

func (p *refParser) binary(min int) *Expr {
	a := p.unary()
	for {
		t := p.tok()
		q := refPrec[t.s]
		if t.k != rOp || q < min || q == 0 {
			return a
		}
		p.i++
		a = bin(t.s, a, p.binary(q+1))
	}
}

func (p *refParser) unary() *Expr {
	if p.depth++; p.depth > 2000 {
		open("deep nesting")
	}
	defer func() { p.depth-- }()
	t := p.tok()
	if t.k == rOp {
		switch t.s {
		case "!", "-", "*":
			p.i++
			return un(t.s, p.unary())
		case "&":
			p.i++
			a := p.unary()
			p.lvalue(a)
			return un("&", a)
		case "++", "--":
			p.i++
			a := p.unary()
			p.lvalue(a)
			return pre(t.s, a)
		}
	}
	e := p.primary()
	for {
		t := p.tok()
		if t.k != rOp {
			return e
		}
		switch t.s {
		case "[":
			p.i++
			i := p.value()
			p.need("]")
			e = index(e, i)
		case "(":
			p.i++
			c := &Expr{K: ECall, A: e}
			if !p.got(")") {
				for {
					c.Args = append(c.Args, p.value())
					if p.got(")") {
						break
					}
					p.need(",")
				}
			}
			e = c
		case "++", "--":
			p.i++
			p.lvalue(e)
			e = post(t.s, e)
		default:
			return e
		}
	}
}

// lvalue rejects what cannot be a target.
func (p *refParser) lvalue(e *Expr) {
	switch e.K {
	case EName:
		if p.local[e.Name] || p.ext[e.Name] {
			return
		}
		no("'%s' is not a variable here", e.Name)
	case EIndex, EPre:
		return
	case EUn:
		if e.Op == "*" {
			return
		}
	}
	no("not an lvalue")
}

func (p *refParser) primary() *Expr {
	t := p.tok()
	switch t.k {
	case rNum:
		p.i++
		v, ok := refNumber(t.s)
		if !ok {
			open("large constant")
		}
		return &Expr{K: ENum, N: v, Text: t.s}
	case rLit:
		p.i++
		if t.q == '\'' {
			return &Expr{K: EChr, N: chrVal(t.b), Text: t.s}
		}
		return &Expr{K: EStr, Bytes: append([]byte{}, t.b...), Text: t.s}
	case rWord:
		n := p.ident()
		if !p.local[n] && !p.ext[n] {
			p.setKind(n, 'f')
		}
		return name(n)
	case rOp:
		if t.s == "(" {
			p.i++
			e := p.value()
			p.need(")")
			return paren(e)
		}
	}
	no("an expression is missing")
	return nil
}
