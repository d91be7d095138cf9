package main

import "fmt"

// P05: calls.

func pnames(s *Src, n int) []string {
	r := make([]string, n)
	for i := range r {
		r[i] = fmt.Sprintf("%c%d", "pqxyz"[i%5], i)
	}
	return r
}

// genCallUnit: functions with many parameters, called directly and through
// pointers held in all kinds of places.
func genCallUnit(s *Src, pfx string) *Unit {
	type fun struct {
		name string
		n    int
		kind int
	}
	var ds []*Decl
	var fs []fun
	for i, m := 0, s.Range(1, 4); i < m; i++ {
		n := s.Weighted(1, 3, 4, 4, 3, 2, 2, 2, 2, 1, 1, 1, 1)
		if s.P(1, 25) {
			n = s.Range(13, 40)
		}
		f := fun{fmt.Sprintf("%sf%d", pfx, i), n, s.Weighted(4, 3, 2, 2)}
		ps := pnames(s, n)
		b := block()
		idx := make([]int, n)
		for j := range idx {
			idx[j] = j
		}
		shuffle(s, idx)
		for _, j := range idx {
			b.List = append(b.List, rlog(name(ps[j])))
		}
		// parameters are private: change them
		for _, j := range idx {
			if s.P(1, 3) {
				switch s.N(3) {
				case 0:
					b.List = append(b.List, sx(asg("=", name(ps[j]), num(int64(s.N(100))))))
				case 1:
					b.List = append(b.List, sx(post("++", name(ps[j]))))
				case 2:
					b.List = append(b.List, sx(asg("=", un("*", un("&", name(ps[j]))), num(int64(s.N(100))))))
				}
				b.List = append(b.List, rlog(name(ps[s.N(n)])))
			}
		}
		switch f.kind {
		case 0:
			var e *Expr = num(int64(s.N(10)))
			for j := range ps {
				e = bin(pick(s, []string{"+", "-", "*"}), e, bin("*", name(ps[j]), num(int64(j+1))))
			}
			b.List = append(b.List, ret(e))
		case 1:
			if n > 0 {
				b.List = append(b.List, ret(name(pick(s, ps))))
			} else {
				b.List = append(b.List, ret(wnum(s)))
			}
		case 2: // no return: 0
		case 3:
			b.List = append(b.List, ret(nil))
		}
		var body *Stmt = b
		ds = append(ds, fn(f.name, ps, body))
		fs = append(fs, f)
	}
	// the caller
	var pre1, body []*Stmt
	pre1 = append(pre1, extrn(pfx+"fp", pfx+"fv"), autoS("a", "b", "h"), autoV("w", 3))
	ds = append(ds, &Decl{Name: pfx + "fp"}, &Decl{Name: pfx + "fv", Vec: true, Size: 2, SizeT: "2"},
		fn(pfx+"get", []string{"x"}, ret(name("x"))),
		fn(pfx+"via", []string{"g", "x", "y"}, block(rlog(call("g", name("x"), name("y"))), ret(call("g", name("y"), name("x"))))))
	body = append(body, sx(asg("=", name("a"), wnum(s))), sx(asg("=", name("b"), wnum(s))))
	depth := 0
	var arg func() *Expr
	mkcall := func(f fun, how int) *Expr {
		var as []*Expr
		for i := 0; i < f.n; i++ {
			as = append(as, arg())
		}
		for f.n > 0 && s.P(1, 8) && len(as) < f.n+3 || f.n == 0 && s.P(1, 10) && len(as) < 2 {
			as = append(as, wnum(s)) // ignored
		}
		fe := name(f.name)
		switch how {
		case 0:
			return callE(fe, as...)
		case 1: // auto
			return callE(name("h"), as...)
		case 2:
			return callE(name(pfx+"fp"), as...)
		case 3:
			return callE(index(name("w"), num(1)), as...)
		case 4:
			return callE(index(name(pfx+"fv"), num(0)), as...)
		case 5:
			return callE(paren(cond(name("a"), fe, fe)), as...)
		case 6:
			return callE(call(pfx+"get", fe), as...)
		case 7:
			return callE(paren(un("*", un("&", name("h")))), as...)
		}
		return callE(paren(fe), as...)
	}
	arg = func() *Expr {
		switch s.Weighted(6, 3, 1, 1, 1) {
		case 1:
			return pick(s, []*Expr{name("a"), name("b")})
		case 2:
			if depth < 3 {
				depth++
				defer func() { depth-- }()
				return mkcall(pick(s, fs), 0)
			}
		case 3:
			return bin("+", name("a"), num(int64(s.N(10))))
		case 4:
			return post("++", name("b"))
		}
		return wnum(s)
	}
	for i, m := 0, s.Range(1, 5); i < m; i++ {
		f := pick(s, fs)
		how := s.Weighted(5, 2, 2, 2, 2, 1, 1, 1, 1)
		switch how {
		case 1, 7:
			body = append(body, sx(asg("=", name("h"), name(f.name))))
		case 2:
			body = append(body, sx(asg("=", name(pfx+"fp"), name(f.name))))
		case 3:
			body = append(body, sx(asg("=", index(name("w"), num(1)), name(f.name))))
		case 4:
			body = append(body, sx(asg("=", index(name(pfx+"fv"), num(0)), name(f.name))))
		}
		if f.n == 2 && s.P(1, 4) {
			body = append(body, rlog(call(pfx+"via", name(f.name), arg(), arg())))
			continue
		}
		body = append(body, rlog(mkcall(f, how)))
		if s.P(1, 3) {
			body = append(body, rlog(name("a")), rlog(name("b")))
		}
	}
	ds = append(ds, fn(pfx+"e", nil, block(append(pre1, body...)...)))
	shuffle(s, ds)
	return &Unit{Decls: [][]*Decl{ds}, Entry: pfx + "e", Class: []string{"calls"}}
}

// genRecUnit: recursion with private parameters and auto variables.
func genRecUnit(s *Src, pfx string) *Unit {
	var ds []*Decl
	var e *Stmt
	k := int64(s.Range(1, 7))
	switch s.N(6) {
	case 0: // every activation keeps its variables over the inner calls
		np := s.Range(1, 5)
		ps := pnames(s, np)
		b := block(autoS("a", "b"), autoV("v", 3))
		b.List = append(b.List, sx(asg("=", name("a"), bin("*", name(ps[0]), num(int64(s.Range(2, 9)))))),
			sx(asg("=", index(name("v"), num(0)), bin("+", name(ps[np-1]), num(1)))),
			sx(asg("=", index(name("v"), num(2)), bin("-", name(ps[np/2]), num(1)))))
		var as []*Expr
		as = append(as, bin("-", name(ps[0]), num(1)))
		for i := 1; i < np; i++ {
			as = append(as, bin("+", name(ps[i]), num(int64(s.N(5)))))
		}
		inner := asg("=", name("b"), call(pfx+"f", as...))
		if s.Bool() {
			var as2 []*Expr
			as2 = append(as2, bin("-", name(ps[0]), num(2)))
			for i := 1; i < np; i++ {
				as2 = append(as2, name(ps[i]))
			}
			inner = asg("=", name("b"), bin("+", call(pfx+"f", as...), call(pfx+"f", as2...)))
		}
		b.List = append(b.List, ifs(bin(">", name(ps[0]), num(0)), sx(inner), nil))
		for _, p := range ps {
			b.List = append(b.List, rlog(name(p)))
		}
		b.List = append(b.List, rlog(name("a")), rlog(index(name("v"), num(0))), rlog(index(name("v"), num(2))), ret(bin("+", name("a"), name("b"))))
		ds = append(ds, fn(pfx+"f", ps, b))
		var c []*Expr
		c = append(c, num(k%5))
		for i := 1; i < np; i++ {
			c = append(c, wnum(s))
		}
		e = block(rlog(call(pfx+"f", c...)))
	case 1: // mutual recursion
		ds = append(ds,
			fn(pfx+"ev", []string{"n", "x"}, block(rlog(name("n")), ifs(bin("==", name("n"), num(0)), ret(name("x")), nil),
				ret(bin("+", call(pfx+"od", bin("-", name("n"), num(1)), bin("*", name("x"), num(3))), name("n"))))),
			fn(pfx+"od", []string{"n", "x"}, block(rlog(name("x")), ifs(un("!", name("n")), ret(un("-", name("x"))), nil),
				ret(bin("-", call(pfx+"ev", bin("-", name("n"), num(1)), bin("+", name("x"), num(1))), name("n"))))))
		e = block(rlog(call(pfx+"ev", num(k), wnum(s))))
	case 2: // Ackermann
		m, n := name("m"), name("n")
		ds = append(ds, fn(pfx+"f", []string{"m", "n"}, block(
			ifs(bin("==", m, num(0)), ret(bin("+", n, num(1))), nil),
			ifs(bin("==", n, num(0)), ret(call(pfx+"f", bin("-", m, num(1)), num(1))), nil),
			ret(call(pfx+"f", bin("-", m, num(1)), call(pfx+"f", m, bin("-", n, num(1))))))))
		e = block(rlog(call(pfx+"f", num(int64(s.N(3))), num(k))))
	case 3: // Fibonacci by two calls
		n := name("n")
		ds = append(ds, fn(pfx+"f", []string{"n"}, block(
			ifs(bin("<", n, num(2)), ret(n), nil),
			ret(bin("+", call(pfx+"f", bin("-", n, num(1))), call(pfx+"f", bin("-", n, num(2))))))))
		e = block(rlog(call(pfx+"f", num(k+3))))
	case 4: // pointer to a variable of an outer activation
		ds = append(ds, fn(pfx+"f", []string{"n", "p"}, block(autoS("t"),
			sx(asg("=", name("t"), name("n"))),
			ifs(bin(">", name("n"), num(0)), block(sx(call(pfx+"f", bin("-", name("n"), num(1)), un("&", name("t")))), rlog(name("t"))), nil),
			ifs(name("p"), sx(asg("=", un("*", name("p")), bin("+", un("*", name("p")), bin("*", name("t"), num(10))))), nil))))
		e = block(sx(call(pfx+"f", num(k), num(0))))
	default: // the function is passed on to itself
		ds = append(ds, fn(pfx+"f", []string{"g", "n", "x"}, block(
			rlog(bin("+", name("n"), name("x"))),
			ifs(bin("<=", name("n"), num(0)), ret(name("x")), nil),
			ret(bin("+", call("g", name("g"), bin("-", name("n"), num(1)), bin("+", name("x"), name("n"))), num(1))))))
		e = block(rlog(call(pfx+"f", name(pfx+"f"), num(k), wnum(s))))
	}
	ds = append(ds, fn(pfx+"e", nil, e))
	shuffle(s, ds)
	return &Unit{Decls: [][]*Decl{ds}, Entry: pfx + "e", Class: []string{"recursion"}}
}

// P06: auto variables.

type autoVar struct {
	name string
	vec  bool
	n    int64
}

func genAutoUnit(s *Src, pfx string) *Unit {
	var ds []*Decl
	// junk(n) leaves the stack full of other values
	ds = append(ds, fn(pfx+"junk", []string{"n"}, block(autoV("j", 40), autoS("i"),
		while(bin("<", name("i"), num(40)), sx(asg("=", index(name("j"), post("++", name("i"))), bin("-", num(-1), name("n"))))),
		ret(index(name("j"), num(39))))))
	var vars []autoVar
	k := 0
	sizeText := func(n int64) string {
		switch s.Weighted(6, 2, 1) {
		case 1:
			return "0" + octal(n)
		case 2:
			if n >= 32 && n < 127 && n != '\'' && n != '*' {
				return "'" + string(rune(n)) + "'"
			}
		}
		return fmt.Sprint(n)
	}
	decl := func() *Stmt {
		st := &Stmt{K: SAuto}
		for i, m := 0, s.Range(1, 4); i < m; i++ {
			k++
			v := autoVar{name: fmt.Sprintf("%c%d", "abvw"[s.N(4)], k)}
			vd := VarDecl{Name: v.name}
			if s.P(1, 3) {
				v.vec = true
				v.n = int64(s.Weighted(2, 3, 3, 2, 2, 1, 1))
				if s.P(1, 10) {
					v.n = int64(s.Range(7, 100))
				}
				vd.Vec = true
				vd.Size = v.n
				if v.n == 0 {
					if s.Bool() {
						vd.Text = "0"
					}
					v.n = 1
				} else {
					vd.Text = sizeText(v.n)
				}
			}
			vars = append(vars, v)
			st.Vars = append(st.Vars, vd)
		}
		return st
	}
	fill := func(v autoVar, salt int64) []*Stmt {
		var l []*Stmt
		if !v.vec {
			return []*Stmt{sx(asg("=", name(v.name), num(salt)))}
		}
		for i := int64(0); i < v.n; i++ {
			if v.n > 8 && i > 1 && i < v.n-2 {
				continue
			}
			l = append(l, sx(asg("=", index(name(v.name), num(i)), num(salt+i))))
		}
		return l
	}
	show := func(v autoVar) []*Stmt {
		if !v.vec {
			return []*Stmt{rlog(name(v.name))}
		}
		var l []*Stmt
		for i := int64(0); i < v.n; i++ {
			if v.n > 8 && i > 1 && i < v.n-2 {
				continue
			}
			l = append(l, rlog(index(name(v.name), num(i))))
		}
		return l
	}
	body := block()
	put := func(b *Stmt, l ...*Stmt) { b.List = append(b.List, l...) }
	showNew := func(b *Stmt, from int) {
		for _, v := range vars[from:] {
			if !v.vec {
				put(b, rlog(name(v.name)))
			} else if s.P(1, 2) {
				put(b, sx(asg("=", index(name(v.name), num(v.n-1)), num(77))), rlog(index(name(v.name), num(v.n-1))))
			}
		}
	}
	params := pnames(s, s.N(4))
	class := []string{"autos"}
	for i, m := 0, s.Range(1, 5); i < m; i++ {
		from := len(vars)
		switch s.Weighted(5, 3, 3, 2, 2, 2) {
		case 0:
			put(body, decl())
			showNew(body, from)
		case 1: // in a block or behind a condition
			b := block(decl())
			showNew(b, from)
			for _, v := range vars[from:] {
				put(b, fill(v, int64(1000*k))...)
			}
			put(body, ifs(num(int64(s.N(2))), b, nil))
			for _, v := range vars[from:] {
				if !v.vec {
					put(body, rlog(name(v.name)))
				} else {
					put(body, fill(v, int64(3000*k))...)
				}
			}
			class = append(class, "in-if")
		case 2: // in a loop: set to zero each time
			cnt := fmt.Sprintf("i%d", i)
			put(body, autoS(cnt))
			b := block(decl())
			showNew(b, from)
			for _, v := range vars[from:] {
				put(b, fill(v, int64(100*k))...)
				put(b, show(v)...)
			}
			if s.P(1, 3) {
				put(b, rlog(call(pfx+"junk", name(cnt))))
			}
			turns := int64(s.Range(1, 4))
			for _, v := range vars[from:] {
				if v.vec && s.P(1, 2) { // the next turn sets the cell again
					x := []*Expr{num(5), bin("+", name(v.name), num(8)), name(cnt), un("&", name("cell"))}[s.N(4)]
					put(b, ifs(bin("<", name(cnt), num(turns)), sx(asg("=", name(v.name), x)), nil))
				}
			}
			if s.P(1, 3) { // the same with a goto
				l := fmt.Sprintf("t%d", i)
				put(body, sx(pre("++", name(cnt))), label(l, b), ifs(bin("<=", pre("++", name(cnt)), num(turns)), goTo(l), nil))
			} else {
				put(body, while(bin("<", post("++", name(cnt)), num(turns)), b))
			}
			class = append(class, "in-loop")
		case 3: // skipped by a goto
			l := fmt.Sprintf("s%d", i)
			var at *Stmt
			if s.Bool() {
				at = goTo(l)
			} else {
				at = ifs(num(int64(s.N(2))), goTo(l), nil)
			}
			put(body, at, decl(), label(l, null()))
			for _, v := range vars[from:] {
				if !v.vec {
					put(body, rlog(name(v.name)))
				} else {
					put(body, fill(v, int64(500*k))...)
				}
			}
			class = append(class, "skipped")
		case 4: // in a switch, before or after a case
			b := block()
			d := decl()
			if s.Bool() {
				put(b, d, caseS(1, rlog(num(1))), caseS(2, rlog(num(2))))
			} else {
				put(b, caseS(1, d), caseS(2, rlog(num(2))))
			}
			put(body, sw(num(int64(s.N(4))), b))
			for _, v := range vars[from:] {
				if !v.vec {
					put(body, rlog(name(v.name)))
				} else {
					put(body, fill(v, int64(700*k))...)
				}
			}
			class = append(class, "in-switch")
		case 5: // the cell of a vector is a variable
			put(body, decl())
			for _, v := range vars[from:] {
				put(body, fill(v, int64(900*k))...)
			}
			for _, v := range vars[from:] {
				if v.vec {
					put(body, rlog(index(name(v.name), num(v.n-1))),
						sx(asg("=", name("cell"), name(v.name))), sx(asg("=", name(v.name), num(5))), rlog(name(v.name)),
						rlog(index(name("cell"), num(v.n-1))), sx(asg("=", name(v.name), name("cell"))), rlog(index(name(v.name), num(0))))
					put(body, rlog(call(pfx+"sum", name(v.name), num(0))))
				}
			}
			class = append(class, "cell")
		}
	}
	if len(vars) == 0 {
		put(body, decl())
	}
	// fill everything with different values, then look at everything
	order := make([]int, len(vars))
	for i := range order {
		order[i] = i
	}
	shuffle(s, order)
	for _, i := range order {
		put(body, fill(vars[i], int64(10000*(i+1)))...)
	}
	if s.P(1, 2) {
		put(body, rlog(call(pfx+"junk", num(int64(s.N(9))))))
	}
	for _, v := range vars {
		put(body, show(v)...)
	}
	for _, p := range params {
		put(body, rlog(name(p)))
	}
	// distances inside a vector, and whole vectors of any size
	for _, v := range vars {
		if v.vec {
			put(body, rlog(bin("-", un("&", index(name(v.name), num(v.n-1))), name(v.name))))
		}
	}
	body.List = append([]*Stmt{autoS("cell")}, body.List...)
	f := fn(pfx+"f", params, body)
	var args []*Expr
	for range params {
		args = append(args, wnum(s))
	}
	e := block(rlog(call(pfx+"junk", num(3))), sx(call(pfx+"f", args...)), rlog(call(pfx+"junk", num(4))), sx(call(pfx+"f", args...)))
	ds = append(ds, f, fn(pfx+"e", nil, e), fn(pfx+"sum", []string{"v", "i"}, block(ret(index(name("v"), name("i"))))))
	shuffle(s, ds)
	return &Unit{Decls: [][]*Decl{ds}, Entry: pfx + "e", Class: class}
}

// genAutoRecUnit: a recursive function whose autos must survive inner calls.
func genAutoRecUnit(s *Src, pfx string) *Unit {
	n := int64(s.Range(1, 20))
	if s.P(1, 15) {
		n = int64(s.Range(20, 600))
		if s.Bool() {
			n = int64(s.Range(600, 9000))
		}
	}
	b := block(ifs(bin("<=", name("n"), num(0)), ret(num(0)), nil))
	place := s.N(3)
	d := &Stmt{K: SAuto, Vars: []VarDecl{{Name: "a"}, {Name: "v", Vec: true, Size: n, Text: fmt.Sprint(n)}, {Name: "b"}}}
	shuffle(s, d.Vars)
	switch place {
	case 0:
		b.List = append([]*Stmt{d}, b.List...)
	case 1:
		b.List = append(b.List, d)
	case 2:
		b.List = append(b.List, ifs(bin(">", name("n"), num(0)), block(d), nil))
	}
	b.List = append(b.List, rlog(name("a")), rlog(name("b")),
		sx(asg("=", name("a"), bin("*", name("n"), num(7)))), sx(asg("=", name("b"), un("-", name("n")))),
		autoS("i"),
		while(bin("<", name("i"), num(n)), block(sx(asg("=", index(name("v"), name("i")), bin("+", name("i"), bin("*", name("n"), num(100))))), sx(post("++", name("i"))))),
		sx(call(pfx+"f", bin("-", name("n"), num(1)))),
		rlog(name("a")), rlog(name("b")), rlog(index(name("v"), num(n-1))), rlog(index(name("v"), num(0))),
		sx(asg("=", name("i"), num(0))), autoS("sum"),
		while(bin("<", name("i"), num(n)), sx(asg("=+", name("sum"), index(name("v"), post("++", name("i")))))),
		rlog(name("sum")))
	f := fn(pfx+"f", []string{"n"}, b)
	e := fn(pfx+"e", nil, block(sx(call(pfx+"f", num(int64(s.Range(1, 5)))))))
	ds := []*Decl{f, e}
	shuffle(s, ds)
	return &Unit{Decls: [][]*Decl{ds}, Entry: pfx + "e", Class: []string{"recursive-autos"}}
}

// genManyLoopUnit: a declaration in a loop which runs many times must not use
// up the stack.
func genManyLoopUnit(s *Src, pfx string) *Unit {
	n := int64(s.Range(200, 400))
	cnt := int64(s.Range(5000, 8000))
	b := block(autoS("i", "x"),
		while(bin("<", post("++", name("i")), num(cnt)), block(
			&Stmt{K: SAuto, Vars: []VarDecl{{Name: "v", Vec: true, Size: n, Text: fmt.Sprint(n)}, {Name: "y"}}},
			sx(asg("=", index(name("v"), num(n-1)), name("i"))),
			sx(asg("=+", name("x"), bin("+", index(name("v"), num(n-1)), name("y")))),
			sx(asg("=", name("y"), num(9))))),
		rlog(name("x")))
	return &Unit{Decls: [][]*Decl{{fn(pfx+"e", nil, b)}}, Entry: pfx + "e", Class: []string{"declared-in-a-long-loop"}}
}
