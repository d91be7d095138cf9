package main

// Abstract syntax of B as documented in doc/bref.pdf, and its printer.  The
// printer knows the documented precedence table and nothing of the compiler.

import (
	"fmt"
	"strconv"
	"strings"
)

type EKind int

const (
	ENum    EKind = iota // N, written as Text if not empty
	EChr                 // N, written as Text
	EStr                 // Bytes, written as Text
	EName                // Name
	EUn                  // Op in "!" "-" "*" "&"
	EPre                 // Op in "++" "--"
	EPost                // Op in "++" "--"
	EBin                 // Op
	EAssign              // Op: "=", "=+", ...
	ECond                // A ? B : C
	EIndex               // A[B]
	ECall                // A(Args...)
	EParen               // (A), a value
	ERaw                 // Text as it is
)

type Expr struct {
	K       EKind
	Op      string
	A, B, C *Expr
	Args    []*Expr
	Name    string
	N       int64
	Text    string
	Bytes   []byte
}

type SKind int

const (
	SExpr SKind = iota
	SNull
	SBlock
	SIf // A; Body; Else
	SWhile
	SSwitch
	SCase  // N/Text: Body (a single following statement)
	SLabel // Name: Body
	SGoto
	SReturn // A may be nil
	SAuto
	SExtrn
	SRaw // Text as it is
)

type VarDecl struct {
	Name string
	Vec  bool
	Size int64  // number given in brackets
	Text string // text in brackets, may be empty for []
}

type Stmt struct {
	K     SKind
	A     *Expr
	Body  *Stmt
	Else  *Stmt
	List  []*Stmt
	Name  string
	N     int64
	Text  string
	Vars  []VarDecl
	Names []string
}

type IVal struct {
	N    int64
	Text string
	Str  []byte // if IsStr
	IsS  bool
}

type Decl struct {
	Raw bool // Name is the whole text
	// function
	IsFunc bool
	Name   string
	Params []string
	Body   *Stmt
	// variable
	Vec   bool
	Size  int64
	SizeT string // text of the size, may be empty
	Init  []IVal
}

type Prog struct{ Decls []*Decl }

// ---- constructors ----

func num(n int64) *Expr {
	if n < 0 {
		if n == -1<<63 {
			return paren(bin("-", un("-", &Expr{K: ENum, N: 1<<63 - 1}), num(1)))
		}
		return un("-", &Expr{K: ENum, N: -n})
	}
	return &Expr{K: ENum, N: n}
}
func name(s string) *Expr             { return &Expr{K: EName, Name: s} }
func un(op string, a *Expr) *Expr     { return &Expr{K: EUn, Op: op, A: a} }
func bin(op string, a, b *Expr) *Expr { return &Expr{K: EBin, Op: op, A: a, B: b} }
func asg(op string, a, b *Expr) *Expr { return &Expr{K: EAssign, Op: op, A: a, B: b} }
func pre(op string, a *Expr) *Expr    { return &Expr{K: EPre, Op: op, A: a} }
func post(op string, a *Expr) *Expr   { return &Expr{K: EPost, Op: op, A: a} }
func cond(a, b, c *Expr) *Expr        { return &Expr{K: ECond, A: a, B: b, C: c} }
func index(a, b *Expr) *Expr          { return &Expr{K: EIndex, A: a, B: b} }
func paren(a *Expr) *Expr             { return &Expr{K: EParen, A: a} }
func call(f string, a ...*Expr) *Expr { return &Expr{K: ECall, A: name(f), Args: a} }
func callE(f *Expr, a ...*Expr) *Expr { return &Expr{K: ECall, A: f, Args: a} }
func str(b []byte) *Expr              { return &Expr{K: EStr, Bytes: b} }
func chr(b string) *Expr              { return &Expr{K: EChr, N: chrVal([]byte(b)), Text: quoteB([]byte(b), '\'')} }
func sx(e *Expr) *Stmt                { return &Stmt{K: SExpr, A: e} }
func block(l ...*Stmt) *Stmt          { return &Stmt{K: SBlock, List: l} }
func ifs(a *Expr, b, e *Stmt) *Stmt   { return &Stmt{K: SIf, A: a, Body: b, Else: e} }
func while(a *Expr, b *Stmt) *Stmt    { return &Stmt{K: SWhile, A: a, Body: b} }
func ret(a *Expr) *Stmt               { return &Stmt{K: SReturn, A: a} }
func goTo(l string) *Stmt             { return &Stmt{K: SGoto, Name: l} }
func label(l string, b *Stmt) *Stmt   { return &Stmt{K: SLabel, Name: l, Body: b} }
func null() *Stmt                     { return &Stmt{K: SNull} }
func extrn(n ...string) *Stmt         { return &Stmt{K: SExtrn, Names: n} }
func sw(a *Expr, b *Stmt) *Stmt       { return &Stmt{K: SSwitch, A: a, Body: b} }
func caseS(n int64, b *Stmt) *Stmt    { return &Stmt{K: SCase, N: n, Body: b} }
func fn(n string, ps []string, b *Stmt) *Decl {
	return &Decl{IsFunc: true, Name: n, Params: ps, Body: b}
}
func autoS(n ...string) *Stmt {
	s := &Stmt{K: SAuto}
	for _, x := range n {
		s.Vars = append(s.Vars, VarDecl{Name: x})
	}
	return s
}
func autoV(n string, size int64) *Stmt {
	return &Stmt{K: SAuto, Vars: []VarDecl{{Name: n, Vec: true, Size: size, Text: fmt.Sprint(size)}}}
}

func chrVal(b []byte) int64 {
	var v uint64
	for _, c := range b {
		v = v<<8 | uint64(c)
	}
	return int64(v)
}

// quoteB writes bytes as a literal with the given quote, using escapes only
// where needed.
func quoteB(b []byte, q byte) string {
	var sb strings.Builder
	sb.WriteByte(q)
	for _, c := range b {
		switch c {
		case 0:
			sb.WriteString("*0")
		case '*':
			sb.WriteString("**")
		case '\n':
			sb.WriteString("*n")
		case '\t':
			sb.WriteString("*t")
		case '\r':
			sb.WriteString("*r")
		case q:
			sb.WriteByte('*')
			sb.WriteByte(q)
		default:
			sb.WriteByte(c)
		}
	}
	sb.WriteByte(q)
	return sb.String()
}

// ---- tokens ----

type TKind int

const (
	TWord  TKind = iota // identifier, keyword, number
	TPunct              // ( ) [ ] { } , ; : ?
	TOp                 // operator
	TLit                // quoted literal
	TBreak              // a good place for a new line (no text)
	TIn                 // indent
	TOut                // unindent
)

type Tok struct {
	K TKind
	S string
	// Unary: prefix operator (may follow most binary operators without a separator)
	Unary bool
	// Bin: binary, non-assignment operator
	Bin bool
}

type printer struct {
	toks []Tok
	src  *Src // for redundant parentheses, may be nil
}

func (p *printer) w(s string)  { p.toks = append(p.toks, Tok{K: TWord, S: s}) }
func (p *printer) pu(s string) { p.toks = append(p.toks, Tok{K: TPunct, S: s}) }
func (p *printer) lit(s string) {
	p.toks = append(p.toks, Tok{K: TLit, S: s})
}
func (p *printer) op(s string) { p.toks = append(p.toks, Tok{K: TOp, S: s}) }
func (p *printer) br()         { p.toks = append(p.toks, Tok{K: TBreak}) }
func (p *printer) in()         { p.toks = append(p.toks, Tok{K: TIn}) }
func (p *printer) out()        { p.toks = append(p.toks, Tok{K: TOut}) }

const (
	precAssign = 10
	precCond   = 15
	precUnary  = 90
	precPost   = 100
)

var binPrec = map[string]int{
	"|": 20, "&": 30, "==": 40, "!=": 40, "<": 50, "<=": 50, ">": 50, ">=": 50,
	"<<": 60, ">>": 60, "+": 70, "-": 70, "*": 80, "/": 80, "%": 80,
}

var binOps = []string{"+", "-", "*", "&", "|", "<", "==", "<<", ">>", "/", "%", "<=", ">", ">=", "!="}
var asgOps = []string{"=", "=+", "=-", "=*", "=/", "=%", "=&", "=|", "=<<", "=>>", "=<", "=<=", "=>", "=>=", "===", "=!="}

func (e *Expr) prec() int {
	switch e.K {
	case EAssign:
		return precAssign
	case ECond:
		return precCond
	case EBin:
		return binPrec[e.Op]
	case EUn, EPre:
		return precUnary
	}
	return precPost
}

// expr prints e in a context which needs at least precedence min.  lval: the
// place needs an lvalue, so no parentheses may be added.
func (p *printer) expr(e *Expr, min int) { p.expr2(e, min, false) }

func (p *printer) expr2(e *Expr, min int, lval bool) {
	if e.prec() < min || (!lval && p.src != nil && e.K != EParen && p.src.P(1, 12)) {
		p.pu("(")
		p.expr(e, 0)
		p.pu(")")
		return
	}
	switch e.K {
	case ENum:
		if e.Text != "" {
			p.w(e.Text)
		} else {
			p.w(strconv.FormatInt(e.N, 10))
		}
	case EChr:
		p.lit(e.Text)
	case EStr:
		if e.Text != "" {
			p.lit(e.Text)
		} else {
			p.lit(quoteB(e.Bytes, '"'))
		}
	case EName:
		p.w(e.Name)
	case ERaw:
		p.w(e.Text)
	case EParen:
		p.pu("(")
		p.expr(e.A, 0)
		p.pu(")")
	case EUn:
		p.toks = append(p.toks, Tok{K: TOp, S: e.Op, Unary: true})
		p.expr2(e.A, precUnary, e.Op == "&")
	case EPre:
		p.toks = append(p.toks, Tok{K: TOp, S: e.Op, Unary: true})
		p.expr2(e.A, precUnary, true)
	case EPost:
		p.expr2(e.A, precPost, true)
		p.toks = append(p.toks, Tok{K: TOp, S: e.Op})
	case EBin:
		q := binPrec[e.Op]
		p.expr(e.A, q)
		p.toks = append(p.toks, Tok{K: TOp, S: e.Op, Bin: true})
		p.expr(e.B, q+1)
	case EAssign:
		p.expr2(e.A, precUnary, true)
		p.op(e.Op)
		p.expr(e.B, precAssign)
	case ECond:
		p.expr(e.A, precCond+1)
		p.pu("?")
		p.expr(e.B, 0)
		p.pu(":")
		p.expr(e.C, precCond)
	case EIndex:
		p.expr(e.A, precPost)
		p.pu("[")
		p.expr(e.B, 0)
		p.pu("]")
	case ECall:
		// a parenthesised function name would be another kind of call
		p.expr2(e.A, precPost, true)
		p.pu("(")
		for i, a := range e.Args {
			if i > 0 {
				p.pu(",")
			}
			p.expr(a, 0)
		}
		p.pu(")")
	}
}

func (p *printer) stmt(s *Stmt) {
	switch s.K {
	case SExpr:
		p.expr(s.A, 0)
		p.pu(";")
		p.br()
	case SRaw:
		p.w(s.Text)
		p.br()
	case SNull:
		p.pu(";")
		p.br()
	case SBlock:
		p.pu("{")
		p.in()
		p.br()
		for _, x := range s.List {
			p.stmt(x)
		}
		p.out()
		p.pu("}")
		p.br()
	case SIf:
		p.w("if")
		p.pu("(")
		p.expr(s.A, 0)
		p.pu(")")
		body := s.Body
		if s.Else != nil && dangling(body) {
			body = block(body)
		}
		p.stmt(body)
		if s.Else != nil {
			p.w("else")
			p.stmt(s.Else)
		}
	case SWhile:
		p.w("while")
		p.pu("(")
		p.expr(s.A, 0)
		p.pu(")")
		p.stmt(s.Body)
	case SSwitch:
		p.w("switch")
		if s.Text == "bare" { // switch rvalue without parentheses
			p.expr(s.A, 0)
		} else {
			p.pu("(")
			p.expr(s.A, 0)
			p.pu(")")
		}
		if s.Body.K == SExpr { // a parenthesis here would continue the selector
			old := p.src
			p.src = nil
			p.stmt(s.Body)
			p.src = old
		} else {
			p.stmt(s.Body)
		}
	case SCase:
		p.w("case")
		switch {
		case s.Text == "":
			p.w(strconv.FormatInt(s.N, 10))
		case s.Text[0] == '\'':
			p.lit(s.Text)
		default:
			p.w(s.Text)
		}
		p.pu(":")
		p.stmt(s.Body)
	case SLabel:
		p.w(s.Name)
		p.pu(":")
		p.stmt(s.Body)
	case SGoto:
		p.w("goto")
		p.w(s.Name)
		p.pu(";")
		p.br()
	case SReturn:
		p.w("return")
		if s.A != nil {
			p.pu("(")
			p.expr(s.A, 0)
			p.pu(")")
		}
		p.pu(";")
		p.br()
	case SAuto:
		p.w("auto")
		for i, v := range s.Vars {
			if i > 0 {
				p.pu(",")
			}
			p.w(v.Name)
			if v.Vec {
				p.pu("[")
				if v.Text != "" {
					if v.Text[0] == '\'' {
						p.lit(v.Text)
					} else {
						p.w(v.Text)
					}
				}
				p.pu("]")
			}
		}
		p.pu(";")
		p.br()
	case SExtrn:
		p.w("extrn")
		for i, v := range s.Names {
			if i > 0 {
				p.pu(",")
			}
			p.w(v)
		}
		p.pu(";")
		p.br()
	}
}

// dangling tells that an else after s would belong to an if inside s.
func dangling(s *Stmt) bool {
	switch s.K {
	case SIf:
		return s.Else == nil || dangling(s.Else)
	case SWhile, SSwitch, SCase, SLabel:
		return dangling(s.Body)
	}
	return false
}

func (p *printer) decl(d *Decl) {
	p.w(d.Name)
	if d.Raw {
		p.br()
		return
	}
	if d.IsFunc {
		p.pu("(")
		for i, a := range d.Params {
			if i > 0 {
				p.pu(",")
			}
			p.w(a)
		}
		p.pu(")")
		p.br()
		p.stmt(d.Body)
		return
	}
	if d.Vec {
		p.pu("[")
		if d.SizeT != "" {
			p.w(d.SizeT)
		}
		p.pu("]")
	}
	for i, v := range d.Init {
		if i > 0 {
			p.pu(",")
		}
		switch {
		case v.IsS:
			if v.Text != "" {
				p.lit(v.Text)
			} else {
				p.lit(quoteB(v.Str, '"'))
			}
		case v.Text != "" && v.Text[0] == '\'':
			p.lit(v.Text)
		case v.Text != "" && v.Text[0] == '-':
			p.toks = append(p.toks, Tok{K: TOp, S: "-", Unary: true})
			p.w(v.Text[1:])
		case v.Text != "":
			p.w(v.Text)
		case v.N < 0:
			p.toks = append(p.toks, Tok{K: TOp, S: "-", Unary: true})
			p.w(strconv.FormatUint(uint64(-v.N), 10))
		default:
			p.w(strconv.FormatInt(v.N, 10))
		}
	}
	p.pu(";")
	p.br()
}

func tokens(p *Prog, src *Src) []Tok {
	pr := &printer{src: src}
	for _, d := range p.Decls {
		pr.decl(d)
		pr.br()
	}
	return pr.toks
}

// needSep tells whether two adjacent tokens must be separated.  It is
// conservative for operators, except that a prefix operator may follow a
// binary one unless the two would read as something else.
func needSep(a, b Tok) bool {
	if a.K == TWord && b.K == TWord {
		return true
	}
	if a.K == TOp && b.K == TOp {
		la, fb := a.S[len(a.S)-1], b.S[0]
		switch {
		case !a.Bin && !a.Unary && (a.S == "++" || a.S == "--"): // postfix
			return !b.Bin || fb == la
		case !a.Bin && !a.Unary && a.S == "=": // =- =* =& would be operators
			return b.S != "!"
		case b.Unary && (a.Bin || !a.Unary): // binary or compound assignment
			return fb == la && fb != '!' && fb != '*' || la == '/' && fb == '*'
		case a.Unary && b.Unary: // !, -, *, &, ++, --
			return a.S != "!" && a.S != "*" && fb == la || len(a.S) == 2
		}
		return true
	}
	return false
}

// Source prints p in the normal layout: one statement per line.
func (p *Prog) Source() string { return layoutNormal(tokens(p, nil)) }

func layoutNormal(toks []Tok) string {
	var sb strings.Builder
	indent := 0
	bol := true
	var prev *Tok
	for i := range toks {
		t := toks[i]
		switch t.K {
		case TIn:
			indent++
			continue
		case TOut:
			indent--
			continue
		case TBreak:
			if !bol {
				sb.WriteByte('\n')
				bol = true
			}
			continue
		}
		if bol {
			for j := 0; j < indent; j++ {
				sb.WriteString("  ")
			}
		} else if prev != nil {
			sp := false
			switch {
			case needSep(*prev, t):
				sp = true
			case prev.K == TOp && prev.Unary, t.K == TOp && !t.Bin && !t.Unary && (t.S == "++" || t.S == "--"):
			case prev.K == TOp || t.K == TOp:
				sp = !(prev.K == TPunct && (prev.S == "(" || prev.S == "["))
				if prev.K == TOp && (prev.S == "++" || prev.S == "--") && t.K == TPunct {
					sp = false
				}
			case t.K == TPunct && (t.S == "?" || t.S == "{"):
				sp = true
			case prev.K == TPunct && (prev.S == "," || prev.S == "?" || prev.S == ":"):
				sp = true
			case prev.K == TPunct && (prev.S == ")" || prev.S == "]") && (t.K == TWord || t.K == TLit):
				sp = true
			case prev.K == TWord && t.K == TLit, prev.K == TLit && t.K == TWord:
				sp = true
			}
			if sp {
				sb.WriteByte(' ')
			}
		}
		sb.WriteString(t.S)
		bol = false
		prev = &toks[i]
	}
	return sb.String()
}

// layoutTight prints the tokens with as few separators as possible.
func layoutTight(toks []Tok) string {
	var sb strings.Builder
	var prev *Tok
	col := 0
	for i := range toks {
		t := toks[i]
		if t.K == TIn || t.K == TOut || t.K == TBreak {
			continue
		}
		if prev != nil && needSep(*prev, t) {
			sb.WriteByte(' ')
			col++
		} else if prev != nil && col > 100 && prev.K == TPunct {
			sb.WriteByte('\n')
			col = 0
		}
		sb.WriteString(t.S)
		col += len(t.S)
		prev = &toks[i]
	}
	sb.WriteByte('\n')
	return sb.String()
}

func (e *Expr) String() string {
	p := &printer{}
	p.expr(e, 0)
	return layoutNormal(p.toks)
}

// ---- copies (generators share nodes; after copying nothing is shared) ----

func (e *Expr) clone() *Expr {
	if e == nil {
		return nil
	}
	c := *e
	c.A, c.B, c.C = e.A.clone(), e.B.clone(), e.C.clone()
	c.Args = nil
	for _, a := range e.Args {
		c.Args = append(c.Args, a.clone())
	}
	return &c
}

func (s *Stmt) clone() *Stmt {
	if s == nil {
		return nil
	}
	c := *s
	c.A, c.Body, c.Else = s.A.clone(), s.Body.clone(), s.Else.clone()
	c.List = nil
	for _, x := range s.List {
		c.List = append(c.List, x.clone())
	}
	c.Vars = append([]VarDecl(nil), s.Vars...)
	c.Names = append([]string(nil), s.Names...)
	return &c
}

func cloneDecls(ds []*Decl) []*Decl {
	var out []*Decl
	for _, d := range ds {
		c := *d
		c.Params = append([]string(nil), d.Params...)
		c.Body = d.Body.clone()
		c.Init = append([]IVal(nil), d.Init...)
		out = append(out, &c)
	}
	return out
}
