package main

// P01: values of operator expressions.

// known is an expression with the value it must have.
type known struct {
	e *Expr
	v int64
}

type exprGen struct {
	s      *Src
	leaves []known // variables and the like, none of which changes
	calls  []func(g *exprGen, k known) known
	vals   func() int64
}

// wnum is any word, as a constant.
func wnum(s *Src) *Expr { return constOf(s, s.Word()) }

// constOf writes a negative number with a minus or as an octal constant.
func constOf(s *Src, v int64) *Expr {
	if v < 0 && s.P(1, 3) {
		return &Expr{K: ENum, N: v, Text: "0" + octal(v)}
	}
	return num(v)
}

// numeral writes a constant in one of its spellings.
func numeral(s *Src, v int64) *Expr {
	if v < 0 {
		if s.P(1, 4) { // all 64 bits
			return &Expr{K: ENum, N: v, Text: "0" + octal(v)}
		}
		e := num(v)
		if s.Bool() {
			return paren(e)
		}
		return e
	}
	switch s.Weighted(8, 2, 2) {
	case 1:
		return &Expr{K: ENum, N: v, Text: "0" + octal(v)}
	case 2:
		b := wordBytes(v)
		ok := true
		for _, c := range b {
			ok = ok && c >= ' ' && c < 127
		}
		if ok {
			return &Expr{K: EChr, N: v, Text: quoteB(b, '\'')}
		}
	}
	return num(v)
}

func octal(v int64) string {
	u := uint64(v)
	if u == 0 {
		return "0"
	}
	var b []byte
	for ; u > 0; u >>= 3 {
		b = append([]byte{'0' + byte(u&7)}, b...)
	}
	return string(b)
}

func (g *exprGen) leaf() known {
	s := g.s
	switch s.Weighted(5, 8) {
	case 1:
		if len(g.leaves) > 0 {
			return pick(s, g.leaves)
		}
	}
	v := s.Word()
	return known{numeral(s, v), v}
}

// safe turns k into an operand o accepts on the right of l.
func (g *exprGen) safe(o string, l int64, k known) known {
	switch o {
	case "/", "%":
		if k.v == 0 || k.v == -1 && l == -1<<63 {
			k = known{bin("|", k.e, num(1)), k.v | 1}
			if k.v == -1 && l == -1<<63 {
				return known{num(3), 3}
			}
		}
	case "<<", ">>":
		if k.v < 0 || k.v > 63 {
			if g.s.Bool() {
				return known{bin("&", k.e, num(63)), k.v & 63}
			}
			v := int64(g.s.N(64))
			return known{num(v), v}
		}
	}
	return k
}

// gen makes an expression with about n operators.
func (g *exprGen) gen(n int) known {
	s := g.s
	var k known
	if n <= 0 {
		k = g.leaf()
	} else {
		switch s.Weighted(14, 4, 2, 2, 1) {
		case 0:
			o := pick(s, binOps)
			ln := s.N(n)
			l := g.gen(ln)
			r := g.safe(o, l.v, g.gen(n-1-ln))
			k = known{bin(o, l.e, r.e), binop(o, l.v, r.v)}
		case 1:
			a := g.gen(n - 1)
			if s.Bool() {
				k = known{un("-", a.e), -a.v}
			} else {
				k = known{un("!", a.e), b2i(a.v == 0)}
			}
		case 2:
			a := s.N(n)
			c := g.gen(a)
			x := g.gen((n - 1 - a) / 2)
			y := g.gen((n - 1 - a) / 2)
			k = known{cond(c.e, x.e, y.e), y.v}
			if c.v != 0 {
				k.v = x.v
			}
		case 3:
			if len(g.calls) > 0 {
				k = pick(s, g.calls)(g, g.gen(n-1))
			} else {
				k = g.gen(n - 1)
			}
		case 4:
			a := g.gen(n - 1)
			k = known{paren(a.e), a.v}
		}
	}
	if s.P(1, 12) {
		k.e = paren(k.e)
	}
	return k
}

// exprContext is a function with parameters, auto and extrn variables of known
// values, in which expressions can be tried.
type exprContext struct {
	s     *Src
	pfx   string
	g     *exprGen
	pre   []*Stmt // declarations and settings
	decls []*Decl // besides the function itself
	pars  []string
	args  []*Expr
}

func newExprContext(s *Src, pfx string) *exprContext {
	c := &exprContext{s: s, pfx: pfx, g: &exprGen{s: s}}
	g := c.g
	lf := func(e *Expr, v int64) { g.leaves = append(g.leaves, known{e, v}) }
	// parameters
	for i, n := 0, s.N(4); i < n; i++ {
		v := s.Word()
		p := string(rune('p' + i))
		c.pars = append(c.pars, p)
		c.args = append(c.args, num(v))
		lf(name(p), v)
	}
	// extrn variables
	var ext []string
	for i, n := 0, s.N(3); i < n; i++ {
		x := pfx + "g" + string(rune('0'+i))
		v := s.Word()
		c.decls = append(c.decls, &Decl{Name: x, Init: []IVal{{N: v}}})
		ext = append(ext, x)
		lf(name(x), v)
	}
	if s.P(1, 3) {
		x := pfx + "gv"
		d := &Decl{Name: x, Vec: true, Size: 3, SizeT: "3"}
		for i := 0; i < 3; i++ {
			v := s.Word()
			d.Init = append(d.Init, IVal{N: v})
			lf(index(name(x), num(int64(i))), v)
		}
		c.decls = append(c.decls, d)
		ext = append(ext, x)
	}
	if ext != nil {
		c.pre = append(c.pre, extrn(ext...))
	}
	// auto variables
	for i, n := 0, s.Range(1, 4); i < n; i++ {
		x := string(rune('a' + i))
		v := s.Word()
		c.pre = append(c.pre, autoS(x), sx(asg("=", name(x), num(v))))
		lf(name(x), v)
		if s.P(1, 3) {
			q := x + "p"
			c.pre = append(c.pre, autoS(q), sx(asg("=", name(q), un("&", name(x)))))
			lf(un("*", name(q)), v)
			lf(index(name(q), num(0)), v)
			lf(un("*", un("&", name(x))), v)
		}
	}
	if s.P(1, 3) {
		c.pre = append(c.pre, autoV("v", 2))
		for i := int64(0); i < 2; i++ {
			v := s.Word()
			c.pre = append(c.pre, sx(asg("=", index(name("v"), num(i)), num(v))))
			lf(index(name("v"), num(i)), v)
		}
	}
	// functions
	id := pfx + "id"
	c.decls = append(c.decls, fn(id, []string{"x"}, ret(name("x"))))
	g.calls = append(g.calls, func(_ *exprGen, k known) known { return known{call(id, k.e), k.v} })
	if s.P(1, 3) {
		sb := pfx + "sub"
		c.decls = append(c.decls, fn(sb, []string{"x", "y"}, block(ret(bin("-", name("x"), name("y"))))))
		g.calls = append(g.calls, func(g *exprGen, k known) known {
			l := g.leaf()
			return known{call(sb, k.e, l.e), k.v - l.v}
		})
		if s.P(1, 2) {
			// names of functions are values, too
			lf(bin("==", name(sb), name(id)), 0)
			lf(bin("==", name(id), name(id)), 1)
			lf(un("!", name(id)), 0)
			lf(bin("!=", name(id), num(0)), 1)
		}
	}
	if s.P(1, 6) {
		lf(un("!", str([]byte("text"))), 0)
		lf(call("char", str([]byte("az")), num(1)), 'z')
	}
	return c
}

// use makes statements which show the value of k in some context.
func (c *exprContext) use(k known) []*Stmt {
	s := c.s
	switch s.Weighted(8, 3, 3, 2, 2, 2) {
	case 1:
		return []*Stmt{sx(asg("=", name("res"), k.e)), rlog(name("res"))}
	case 2:
		return []*Stmt{ifs(k.e, rlog(num(1)), rlog(num(0)))}
	case 3:
		return []*Stmt{sx(asg("=", name("res"), num(5))), rlog(index(un("&", name("res")), bin("*", num(0), k.e)))}
	case 4: // the loop ends by itself only if the value is 0
		return []*Stmt{sx(asg("=", name("res"), num(0))),
			while(bin("&", paren(k.e), un("!", name("res"))), block(sx(pre("++", name("res"))))), rlog(name("res"))}
	case 5:
		f := c.pfx + "r" + string(rune('0'+len(c.decls)%10)) + string(rune('a'+len(c.decls)/10))
		// only constants and calls are known there: a fresh expression
		g := &exprGen{s: s, calls: c.g.calls}
		q := g.gen(s.N(5))
		c.decls = append(c.decls, fn(f, nil, block(ret(q.e))))
		return []*Stmt{rlog(call(f))}
	}
	return []*Stmt{rlog(k.e)}
}

func (c *exprContext) unit(body []*Stmt, class ...string) *Unit {
	f := c.pfx + "f"
	all := append(append(append([]*Stmt(nil), c.pre...), autoS("res")), body...)
	main := fn(f, c.pars, block(all...))
	entry := fn(c.pfx+"e", nil, block(sx(call(f, c.args...))))
	ds := append([]*Decl{main, entry}, c.decls...)
	shuffle(c.s, ds)
	return &Unit{Decls: [][]*Decl{ds}, Entry: c.pfx + "e", Class: class}
}

func genExprUnit(s *Src, pfx string) *Unit {
	c := newExprContext(s, pfx)
	var body []*Stmt
	for i, n := 0, s.Range(1, 4); i < n; i++ {
		body = append(body, c.use(c.g.gen(s.Range(1, 12)))...)
	}
	return c.unit(body, "random-expression")
}

// genDeepUnit: long chains and deep nesting.
func genDeepUnit(s *Src, pfx string) *Unit {
	c := newExprContext(s, pfx)
	k := c.g.gen(s.Range(20, 60))
	return c.unit([]*Stmt{rlog(k.e)}, "large-expression")
}

// genTripleUnit: a op b op c (op d), values chosen to tell the groupings apart.
func genTripleUnit(s *Src, pfx string) *Unit {
	c := newExprContext(s, pfx)
	var body []*Stmt
	for i := 0; i < 3; i++ {
		n := s.Range(2, 4)
		ops := make([]string, n)
		for j := range ops {
			ops[j] = pick(s, binOps)
		}
		var best *Expr
		for try := 0; try < 12; try++ {
			ks := make([]known, n+1)
			for j := range ks {
				ks[j] = c.g.leaf()
				if s.P(1, 8) {
					if s.Bool() {
						ks[j] = known{un("-", ks[j].e), -ks[j].v}
					} else {
						ks[j] = known{un("!", ks[j].e), b2i(ks[j].v == 0)}
					}
				}
			}
			e, v, ok := climb(ops, ks)
			if !ok {
				continue
			}
			best = e
			if w, ok := leftToRight(ops, ks); !ok || w != v {
				break
			}
		}
		if best == nil {
			best = bin("+", num(1), bin("*", num(2), num(3)))
		}
		body = append(body, rlog(best))
	}
	return c.unit(body, "operator-chain")
}

// climb groups a flat chain by precedence, all operators to the left.
func climb(ops []string, ks []known) (e *Expr, v int64, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(Trap); !is {
				panic(r)
			}
			ok = false
		}
	}()
	pos := 0
	var rec func(min int) known
	rec = func(min int) known {
		l := ks[pos]
		for pos < len(ops) && binPrec[ops[pos]] >= min {
			o := ops[pos]
			pos++
			r := rec(binPrec[o] + 1)
			l = known{bin(o, l.e, r.e), binop(o, l.v, r.v)}
		}
		return l
	}
	k := rec(0)
	return k.e, k.v, true
}

func leftToRight(ops []string, ks []known) (v int64, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(Trap); !is {
				panic(r)
			}
			ok = false
		}
	}()
	v = ks[0].v
	for i, o := range ops {
		v = binop(o, v, ks[i+1].v)
	}
	return v, true
}

// genPairsUnit runs systematically through all pairs of operators.
func genPairsUnit(s *Src, pfx string) *Unit {
	c := newExprContext(s, pfx)
	var body []*Stmt
	// a block of the 15*15 pairs
	at := s.N(225)
	for i := 0; i < 9; i++ {
		p := (at + i*25) % 225
		ops := []string{binOps[p/15], binOps[p%15]}
		for try := 0; try < 12; try++ {
			ks := []known{c.g.leaf(), c.g.leaf(), c.g.leaf()}
			e, _, ok := climb(ops, ks)
			if ok {
				body = append(body, rlog(e))
				break
			}
		}
		// conditional and assignment around
		if s.P(1, 3) {
			k, a, b := c.g.leaf(), c.g.leaf(), c.g.leaf()
			q, r := c.g.leaf(), c.g.leaf()
			r = c.g.safe(ops[0], q.v, r)
			body = append(body, rlog(cond(bin(ops[0], q.e, r.e), a.e, cond(k.e, b.e, bin(ops[0], q.e, r.e)))))
		}
	}
	return c.unit(body, "operator-pairs")
}
