package main

// P02: assignments, increments, order and number of evaluations.

// place is a word which can be assigned to.
type place struct {
	lv  func(s *Src) *Expr // some lvalue for the word
	idx bool
}

type effGen struct {
	s      *Src
	pfx    string
	places []place
	k      int // numbers of traces
	size   int
}

func (g *effGen) tr(e *Expr) *Expr {
	g.k++
	return trace(g.k, e)
}

// rvalue makes an expression with effects; everything is defined for any values.
func (g *effGen) rvalue(n int) *Expr {
	s := g.s
	g.size++
	if n <= 0 {
		switch s.Weighted(4, 5, 3) {
		case 0:
			return wnum(s)
		case 1:
			return pick(s, g.places).lv(s)
		default:
			return g.tr(wnum(s))
		}
	}
	switch s.Weighted(6, 7, 4, 4, 3, 2, 2, 2) {
	case 0:
		o := pick(s, binOps)
		l := g.rvalue(s.N(n))
		return bin(o, l, g.rhs(o, n))
	case 1:
		return g.assign(n)
	case 2:
		o := pick(s, []string{"++", "--"})
		p := pick(s, g.places)
		if s.Bool() {
			return pre(o, p.lv(s))
		}
		e := p.lv(s)
		if e.K == EUn { // a postfix operator binds tighter than the prefix *
			e = index(e.A, num(0))
		}
		return post(o, e)
	case 3:
		return g.tr(g.rvalue(n - 1))
	case 4:
		return cond(g.rvalue(n/3), g.rvalue(n/3), g.rvalue(n/3))
	case 5:
		return un(pick(s, []string{"-", "!"}), g.rvalue(n-1))
	case 6:
		return call(g.pfx+"add", g.rvalue(n/3), g.rvalue(n/3), g.rvalue(n/3))
	default:
		return paren(g.rvalue(n - 1))
	}
}

// rhs makes a right operand for o.
func (g *effGen) rhs(o string, n int) *Expr {
	s := g.s
	switch o {
	case "/", "%":
		c := num(int64(s.Range(1, 9)))
		if s.P(1, 3) {
			c = num(-int64(s.Range(2, 9)))
		}
		if s.Bool() {
			return g.tr(c)
		}
		return c
	case "<<", ">>":
		if s.Bool() {
			return num(int64(s.N(64)))
		}
		return bin("&", g.rvalue((n-1)/2), num(63))
	}
	return g.rvalue((n - 1) / 2)
}

func (g *effGen) assign(n int) *Expr {
	s := g.s
	o := "="
	if s.P(2, 3) {
		o = pick(s, asgOps)
	}
	l := g.target(n)
	var r *Expr
	if o == "=" {
		r = g.rvalue(n - 1)
	} else {
		r = g.rhs(o[1:], n)
	}
	return asg(o, l, r)
}

// target is an lvalue, possibly with effects in it.
func (g *effGen) target(n int) *Expr {
	s := g.s
	p := pick(s, g.places)
	e := p.lv(s)
	if n > 1 && s.P(1, 3) {
		switch e.K {
		case EIndex:
			return index(e.A, g.tr(e.B))
		case EUn:
			return un("*", g.tr(e.A))
		case EName:
			if s.Bool() {
				return un("*", g.tr(un("&", e)))
			}
			return index(un("&", e), g.tr(num(0)))
		}
	}
	return e
}

type effCtx struct {
	g     *effGen
	decls []*Decl
	pre   []*Stmt
	show  []*Expr // all words
	pars  []string
	args  []*Expr
}

func newEffCtx(s *Src, pfx string) *effCtx {
	g := &effGen{s: s, pfx: pfx}
	c := &effCtx{g: g}
	nm := func(x string) {
		ptr := s.P(1, 3)
		q := "q" + x
		if ptr {
			c.pre = append(c.pre, autoS(q), sx(asg("=", name(q), un("&", name(x)))))
		}
		g.places = append(g.places, place{lv: func(s *Src) *Expr {
			if ptr {
				switch s.Weighted(3, 3, 2) {
				case 1:
					return un("*", name(q))
				case 2:
					return index(name(q), num(0))
				}
			}
			return name(x)
		}})
		c.show = append(c.show, name(x))
	}
	vec := func(x string, n int) {
		for i := 0; i < n; i++ {
			i := i
			g.places = append(g.places, place{idx: true, lv: func(s *Src) *Expr {
				switch s.Weighted(5, 1, 1) {
				case 1:
					return un("*", un("&", index(name(x), num(int64(i)))))
				case 2:
					return un("*", paren(bin("+", name(x), num(int64(8*i)))))
				}
				return index(name(x), num(int64(i)))
			}})
			c.show = append(c.show, index(name(x), num(int64(i))))
		}
	}
	var ext []string
	for i, n := 0, s.N(3); i < n; i++ {
		x := pfx + "g" + string(rune('0'+i))
		c.decls = append(c.decls, &Decl{Name: x, Init: []IVal{{N: s.Word()}}})
		ext = append(ext, x)
	}
	gv := s.P(1, 2)
	if gv {
		d := &Decl{Name: pfx + "gv", Vec: true, Size: 3, SizeT: "3"}
		for i := 0; i < 3; i++ {
			d.Init = append(d.Init, IVal{N: s.Word()})
		}
		c.decls = append(c.decls, d)
		ext = append(ext, d.Name)
	}
	if ext != nil {
		c.pre = append(c.pre, extrn(ext...))
	}
	for i, n := 0, s.N(3); i < n; i++ {
		p := string(rune('x' + i))
		c.pars = append(c.pars, p)
		c.args = append(c.args, wnum(s))
	}
	for i, n := 0, s.Range(1, 3); i < n; i++ {
		x := string(rune('a' + i))
		c.pre = append(c.pre, autoS(x), sx(asg("=", name(x), wnum(s))))
		nm(x)
	}
	for _, p := range c.pars {
		nm(p)
	}
	for _, x := range ext {
		if x == pfx+"gv" {
			vec(x, 3)
		} else {
			nm(x)
		}
	}
	if s.P(1, 2) {
		c.pre = append(c.pre, autoV("v", 3))
		for i := int64(0); i < 3; i++ {
			c.pre = append(c.pre, sx(asg("=", index(name("v"), num(i)), wnum(s))))
		}
		vec("v", 3)
	}
	c.decls = append(c.decls, fn(pfx+"add", []string{"x", "y", "z"},
		block(rlog(num(77)), ret(bin("+", name("x"), bin("-", bin("*", name("y"), num(3)), name("z")))))))
	return c
}

func (c *effCtx) unit(body []*Stmt, class ...string) *Unit {
	pfx := c.g.pfx
	all := append(append([]*Stmt(nil), c.pre...), body...)
	for _, e := range c.show {
		all = append(all, rlog(e))
	}
	ds := append([]*Decl{fn(pfx+"f", c.pars, block(all...)), fn(pfx+"e", nil, block(sx(call(pfx+"f", c.args...))))}, c.decls...)
	shuffle(c.g.s, ds)
	return &Unit{Decls: [][]*Decl{ds}, Entry: pfx + "e", Class: class}
}

func genAssignUnit(s *Src, pfx string) *Unit {
	c := newEffCtx(s, pfx)
	var body []*Stmt
	for i, n := 0, s.Range(1, 5); i < n; i++ {
		var e *Expr
		switch s.Weighted(5, 2, 1) {
		case 0:
			e = c.g.assign(s.Range(1, 5))
		case 1:
			e = c.g.rvalue(s.Range(1, 8))
		default: // a chain of assignments
			e = c.g.rvalue(s.N(3))
			for j, m := 0, s.Range(2, 4); j < m; j++ {
				o := "="
				if s.P(1, 3) {
					o = pick(s, []string{"=+", "=-", "=*", "=&", "=|", "=<", "=<=", "=>", "=>=", "===", "=!="})
				}
				e = asg(o, c.g.target(2), e)
			}
		}
		if s.P(2, 3) {
			body = append(body, rlog(e))
		} else {
			body = append(body, sx(e))
			if s.P(1, 3) {
				for _, x := range c.show {
					body = append(body, rlog(x))
				}
			}
		}
	}
	return c.unit(body, "effects")
}

// divisor is not 0 and not -1.
func divisor(s *Src) int64 {
	switch s.N(4) {
	case 0:
		return 1 << uint(s.N(63))
	case 1:
		return int64(s.Range(1, 1000))
	case 2:
		if v := s.Word(); v != 0 && v != -1 {
			return v
		}
	}
	return pick(s, []int64{1, 2, 3, 7, -2, -3, 10, 1 << 40})
}

// genEveryOpUnit runs every assignment operator on one kind of place.
func genEveryOpUnit(s *Src, pfx string) *Unit {
	c := newEffCtx(s, pfx)
	var body []*Stmt
	ops := append([]string(nil), asgOps...)
	shuffle(s, ops)
	p := pick(s, c.g.places)
	for _, o := range ops {
		if s.P(1, 2) {
			body = append(body, sx(asg("=", p.lv(s), wnum(s))))
		}
		var r *Expr
		switch o {
		case "=/", "=%":
			r = num(divisor(s))
		case "=<<", "=>>":
			r = num(int64(s.N(64)))
		case "===", "=!=", "=<", "=<=", "=>", "=>=":
			if s.Bool() {
				r = p.lv(s)
			} else {
				r = wnum(s)
			}
		default:
			r = wnum(s)
		}
		if s.P(1, 4) {
			r = c.g.tr(r)
		}
		body = append(body, rlog(asg(o, p.lv(s), r)), rlog(p.lv(s)))
	}
	for _, o := range []string{"++", "--"} {
		e := p.lv(s)
		if e.K == EUn {
			e = index(e.A, num(0))
		}
		body = append(body, rlog(post(o, e)), rlog(p.lv(s)), rlog(pre(o, p.lv(s))), rlog(p.lv(s)))
	}
	return c.unit(body, "every-operator")
}

// genPointerStepUnit: *p++, v[i++], v[--i] and the like, with moving indices.
func genPointerStepUnit(s *Src, pfx string) *Unit {
	n := int64(s.Range(3, 6))
	g := &effGen{s: s, pfx: pfx}
	v, i, p := name("v"), name("i"), name("p")
	var pre1 []*Stmt
	var decls []*Decl
	if s.Bool() {
		decls = append(decls, &Decl{Name: pfx + "w", Vec: true, Size: n, SizeT: num(n).String()})
		v = name(pfx + "w")
		pre1 = append(pre1, extrn(pfx+"w"))
	} else {
		pre1 = append(pre1, autoV("v", n))
		for k := int64(0); k < n; k++ {
			pre1 = append(pre1, sx(asg("=", index(v, num(k)), num(0))))
		}
	}
	pre1 = append(pre1, autoS("i", "p"))
	var body []*Stmt
	pos := int64(0)
	for k, m := 0, s.Range(2, 6); k < m; k++ {
		val := g.tr(wnum(s))
		o := pick(s, []string{"=", "=+", "=-", "=*", "=|"})
		switch s.Weighted(3, 3, 2, 2, 2, 2) {
		case 0:
			if pos < n {
				body = append(body, rlog(asg(o, index(v, post("++", i)), val)))
				pos++
			}
		case 1:
			if pos+1 < n {
				body = append(body, rlog(asg(o, index(v, pre("++", i)), val)))
				pos++
			}
		case 2:
			if pos > 0 {
				body = append(body, rlog(asg(o, index(v, pre("--", i)), val)))
				pos--
			}
		case 3:
			if pos < n {
				body = append(body, sx(asg("=", p, un("&", index(v, i)))), rlog(asg(o, un("*", p), val)), rlog(bin("-", p, v)))
			}
		case 4:
			if pos < n {
				body = append(body, rlog(post("++", index(v, i))), rlog(index(v, i)), rlog(pre("--", index(v, i))))
			}
		case 5:
			if pos+1 < n {
				body = append(body, rlog(asg("=", index(v, i), asg("=", index(v, bin("+", i, num(1))), val))))
			}
		}
		if pos >= n {
			body = append(body, sx(asg("=", i, num(0))))
			pos = 0
		}
	}
	body = append(body, rlog(i))
	for k := int64(0); k < n; k++ {
		body = append(body, rlog(index(v, num(k))))
	}
	all := append(pre1, body...)
	ds := append([]*Decl{fn(pfx+"e", nil, block(all...))}, decls...)
	shuffle(s, ds)
	return &Unit{Decls: [][]*Decl{ds}, Entry: pfx + "e", Class: []string{"moving-index"}}
}

// genOrderUnit: every operand is traced.
func genOrderUnit(s *Src, pfx string) *Unit {
	c := newEffCtx(s, pfx)
	g := c.g
	var rec func(n int) *Expr
	rec = func(n int) *Expr {
		if n <= 0 {
			if s.P(1, 3) {
				return g.tr(pick(s, g.places).lv(s))
			}
			return g.tr(num(int64(s.N(5)) - 1))
		}
		switch s.Weighted(5, 3, 3, 2) {
		case 0:
			o := pick(s, binOps)
			l := rec(n - 1)
			switch o {
			case "/", "%":
				return bin(o, l, g.tr(num(int64(s.Range(1, 4)))))
			case "<<", ">>":
				return bin(o, l, g.tr(num(int64(s.N(8)))))
			}
			return bin(o, l, rec(n-1))
		case 1:
			return cond(rec(n-1), rec(n-1), rec(n-1))
		case 2:
			var as []*Expr
			for i, m := 0, s.Range(3, 4); i < m; i++ {
				as = append(as, rec(n-2))
			}
			return call(g.pfx+"add", as...)
		default:
			return asg(pick(s, []string{"=", "=+", "=-", "=&"}), g.target(2), rec(n-1))
		}
	}
	return c.unit([]*Stmt{rlog(rec(s.Range(2, 4)))}, "order-of-evaluation")
}

// genHolderUnit: an expression changes the variable through which it calls,
// indexes or indirects, before or after the variable counts.
func genHolderUnit(s *Src, pfx string) *Unit {
	g := &effGen{s: s, pfx: pfx}
	var ds []*Decl
	var b []*Stmt
	put := func(l ...*Stmt) { b = append(b, l...) }
	n := s.Range(2, 3)
	var fs []string
	for i := 0; i < n; i++ {
		f := pfx + "h" + string(rune('0'+i))
		fs = append(fs, f)
		ds = append(ds, fn(f, []string{"x", "y"}, block(rlog(num(int64(900+i))),
			ret(bin("+", bin("*", name("x"), num(int64(i+2))), name("y"))))))
	}
	// vectors of four words each, and cells that point to one of them
	var vs []*Expr
	for i, m := 0, s.Range(2, 3); i < m; i++ {
		x := string(rune('u' + i))
		if s.P(1, 3) {
			x = pfx + x
			d := &Decl{Name: x, Vec: true, Size: 4, SizeT: "4"}
			for j := 0; j < 4; j++ {
				d.Init = append(d.Init, IVal{N: int64(10*i + j + 100)})
			}
			ds = append(ds, d)
			put(extrn(x))
		} else {
			put(autoV(x, 4))
			for j := 0; j < 4; j++ {
				put(sx(asg("=", index(name(x), num(int64(j))), num(int64(10*i+j+100)))))
			}
		}
		vs = append(vs, name(x))
	}
	pars := []string{}
	var args []*Expr
	holder := func(x string, v *Expr) *Expr { // a place for a pointer
		switch s.Weighted(4, 2, 2, 2) {
		case 1:
			ds = append(ds, &Decl{Name: pfx + x, Init: []IVal{{N: 0}}})
			put(extrn(pfx+x), sx(asg("=", name(pfx+x), v)))
			return name(pfx + x)
		case 2:
			put(autoV(x, 2), sx(asg("=", index(name(x), num(1)), v)))
			return index(name(x), num(1))
		case 3:
			if v.K == EName && len(v.Name) > 1 && v.Name[:len(pfx)] == pfx {
				for _, f := range fs {
					if f == v.Name { // a function can be given as an argument
						pars = append(pars, x)
						args = append(args, v)
						return name(x)
					}
				}
			}
			fallthrough
		default:
			put(autoS(x), sx(asg("=", name(x), v)))
			return name(x)
		}
	}
	anyF := func() *Expr { return name(pick(s, fs)) }
	anyV := func() *Expr { return pick(s, vs) }
	fp := holder("p", anyF())
	vp := holder("q", anyV())
	wp := holder("r", anyV())
	put(autoS("i"), sx(asg("=", name("i"), num(int64(s.N(4))))))
	// small: 0..3, with an effect
	small := func(d int) *Expr {
		switch s.Weighted(3, 3, 3, 2, 2, 1) {
		case 0:
			return num(int64(s.N(4)))
		case 1: // change a holder
			z := pick(s, []string{"*", "&"})
			return bin("+", bin(z, paren(asg("=", fp, anyF())), num(0)), num(int64(s.N(4))))
		case 2:
			z := pick(s, []string{"*", "&"})
			return bin("|", bin(z, paren(asg("=", pick(s, []*Expr{vp, wp}), anyV())), num(0)), num(int64(s.N(4))))
		case 3:
			return bin("&", pick(s, []*Expr{post("++", name("i")), pre("++", name("i")), post("--", name("i")), paren(asg("=", name("i"), num(int64(s.N(9)))))}), num(3))
		case 4:
			return g.tr(num(int64(s.N(4))))
		default:
			return paren(asg("=", name("i"), num(int64(s.N(4)))))
		}
	}
	callee := func() *Expr {
		switch s.Weighted(5, 2, 1, 1, 1) {
		case 1:
			return paren(asg("=", fp, anyF()))
		case 2:
			return paren(cond(small(0), anyF(), fp))
		case 3:
			return paren(g.tr(fp))
		case 4:
			return anyF()
		}
		return fp
	}
	base := func() *Expr {
		switch s.Weighted(6, 2, 2, 1) {
		case 1:
			return paren(asg("=", vp, anyV()))
		case 2:
			return wp
		case 3:
			return paren(g.tr(anyV()))
		}
		return vp
	}
	var val func(d int) *Expr
	lval := func(d int) *Expr {
		switch s.Weighted(5, 2, 1) {
		case 1:
			return un("*", base())
		case 2:
			return un("*", paren(bin("+", base(), bin("*", small(d), num(8)))))
		}
		return index(base(), small(d))
	}
	val = func(d int) *Expr {
		if d <= 0 {
			return small(0)
		}
		switch s.Weighted(4, 4, 3, 2, 2) {
		case 0:
			return callE(callee(), val(d-1), small(d))
		case 1:
			return lval(d)
		case 2:
			return bin(pick(s, []string{"+", "-", "*", "&", "|", "==", "<"}), val(d-1), val(d-1))
		case 3:
			return asg("=", lval(d), val(d-1))
		default:
			return callE(callee(), small(d), val(d-1))
		}
	}
	for k, m := 0, s.Range(1, 4); k < m; k++ {
		e := val(s.Range(1, 3))
		if s.P(1, 4) {
			e = asg("=", lval(2), val(2))
		}
		put(rlog(e))
		put(rlog(bin("+", bin("==", vp, vs[0]), bin("*", num(2), bin("==", vp, vs[1])))), rlog(name("i")))
	}
	put(rlog(callE(fp, num(5), num(7))))
	for _, v := range vs {
		for j := int64(0); j < 4; j++ {
			put(rlog(index(v, num(j))))
		}
	}
	ds = append(ds, fn(pfx+"f", pars, block(b...)), fn(pfx+"e", nil, block(sx(call(pfx+"f", args...)))))
	shuffle(s, ds)
	return &Unit{Decls: [][]*Decl{ds}, Entry: pfx + "e", Class: []string{"changing-holder"}}
}
