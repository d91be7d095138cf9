package main

import "fmt"

// Large units: the same constructs in sizes and depths that small cases never
// reach, as a program may be of any size.

// size is mostly moderate and sometimes large.
func size(s *Src, lo, mid, hi int) int {
	if s.P(1, 4) {
		return s.Range(mid, hi)
	}
	return s.Range(lo, mid)
}

// P01
func genBigExprUnit(s *Src, pfx string) *Unit {
	c := newExprContext(s, pfx)
	g := c.g
	safe := []string{"+", "-", "*", "&", "|", "==", "!=", "<", ">", "<=", ">="}
	var k known
	kind := s.N(7)
	switch kind {
	case 0: // a flat chain
		n := size(s, 20, 80, 400)
		ops := make([]string, n)
		ks := make([]known, n+1)
		few := s.Range(1, len(safe))
		for i := range ks {
			if i < n {
				ops[i] = safe[s.N(few)]
			}
			ks[i] = g.leaf()
		}
		e, v, ok := climb(ops, ks)
		if !ok {
			panic(Trap{"chain"})
		}
		k = known{e, v}
	case 1: // grouped to the right or the left by parentheses
		k = g.leaf()
		right := s.Bool()
		keep := s.P(2, 3) // sums lose nothing of what is inside
		for i, n := 0, size(s, 10, 40, 200); i < n; i++ {
			o := pick(s, safe)
			if keep {
				o = pick(s, []string{"+", "-"})
			}
			l := g.leaf()
			if s.P(1, 2) { // among other operators
				ops := []string{}
				ks := []known{l}
				for len(ops) < 4 && (len(ops) < 1 || s.P(2, 3)) {
					ops = append(ops, pick(s, safe))
					ks = append(ks, g.leaf())
				}
				apart := keep || s.P(1, 3)
				if !apart {
					at := len(ops)
					if !right {
						at = s.N(at + 1)
					}
					ks[at] = known{paren(k.e), k.v}
				}
				e, v, ok := climb(ops, ks)
				if !ok {
					panic(Trap{"chain"})
				}
				if apart {
					if right {
						e, v = bin(o, paren(e), paren(k.e)), binop(o, v, k.v)
					} else {
						e, v = bin(o, paren(k.e), paren(e)), binop(o, k.v, v)
					}
				}
				k = known{e, v}
			} else if right {
				k = known{bin(o, l.e, paren(k.e)), binop(o, l.v, k.v)}
			} else {
				k = known{bin(o, paren(k.e), l.e), binop(o, k.v, l.v)}
			}
		}
	case 2: // unary operators
		k = g.leaf()
		for i, n := 0, size(s, 5, 20, 100); i < n; i++ {
			if s.P(2, 3) {
				k = known{un("-", k.e), -k.v}
			} else {
				k = known{un("!", k.e), b2i(k.v == 0)}
			}
		}
	case 3: // conditions in a row
		k = g.leaf()
		for i, n := 0, size(s, 5, 20, 80); i < n; i++ {
			q, a := g.leaf(), g.leaf()
			if s.P(2, 3) {
				q = known{bin("==", q.e, num(q.v+1)), 0}
			}
			v := k.v
			if q.v != 0 {
				v = a.v
			}
			k = known{cond(q.e, a.e, k.e), v}
		}
	case 4: // conditions inside of conditions
		k = g.leaf()
		for i, n := 0, size(s, 4, 12, 40); i < n; i++ {
			a, b := g.leaf(), g.leaf()
			v := b.v
			switch s.N(3) {
			case 0:
				if k.v != 0 {
					v = a.v
				}
				k = known{cond(paren(k.e), a.e, b.e), v}
			default:
				if a.v != 0 {
					v = k.v
				}
				k = known{cond(a.e, k.e, b.e), v}
			}
		}
	case 5: // calls
		k = g.leaf()
		for i, n := 0, size(s, 4, 20, 80); i < n; i++ {
			k = pick(s, g.calls)(g, k)
		}
	default:
		k = g.gen(size(s, 60, 150, 400))
	}
	return c.unit([]*Stmt{rlog(k.e)}, fmt.Sprintf("big-expression-%d", kind))
}

// P02
func genBigAssignUnit(s *Src, pfx string) *Unit {
	var b []*Stmt
	n := size(s, 5, 20, 60)
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, fmt.Sprintf("a%d", i))
	}
	b = append(b, autoS(names...), autoV("v", int64(n)))
	for i, x := range names {
		b = append(b, sx(asg("=", name(x), wnum(s))), sx(asg("=", index(name("v"), num(int64(i))), num(int64((i*7+3)%n)))))
	}
	ops := []string{"=", "=+", "=-", "=*", "=&", "=|", "=<", "==="}
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	kind := s.N(3)
	switch kind {
	case 0: // a = b =+ c =* ...
		shuffle(s, idx)
		e := wnum(s)
		for _, i := range idx {
			e = asg(pick(s, ops), name(names[i]), e)
		}
		b = append(b, rlog(e))
	case 1: // v[v[v[...]]]
		e := num(int64(s.N(n)))
		for i, m := 0, size(s, 3, 10, 50); i < m; i++ {
			e = index(name("v"), e)
		}
		if s.Bool() {
			b = append(b, rlog(asg("=", index(name("v"), e), num(int64(s.N(n))))))
		} else {
			b = append(b, rlog(post(pick(s, []string{"++", "--"}), index(name("v"), e))))
		}
	case 2: // many statements
		for i, m := 0, size(s, 30, 100, 400); i < m; i++ {
			x, y := name(pick(s, names)), name(pick(s, names))
			switch s.N(4) {
			case 0:
				b = append(b, sx(asg(pick(s, ops), x, y)))
			case 1:
				b = append(b, sx(pre(pick(s, []string{"++", "--"}), x)))
			case 2:
				b = append(b, sx(asg("=", x, bin(pick(s, []string{"+", "-", "*"}), y, num(int64(s.N(9)))))))
			case 3:
				b = append(b, sx(asg("=+", x, post("++", index(name("v"), num(int64(s.N(n))))))))
			}
		}
	}
	for i, x := range names {
		b = append(b, rlog(name(x)), rlog(index(name("v"), num(int64(i)))))
	}
	return &Unit{Decls: [][]*Decl{{fn(pfx+"e", nil, block(b...))}}, Entry: pfx + "e", Class: []string{fmt.Sprintf("big-assign-%d", kind)}}
}

// P03
func genBigFlowUnit(s *Src, pfx string) *Unit {
	var body *Stmt
	k := 0
	lg := func() *Stmt { k++; return rlog(num(int64(k))) }
	pre1 := []*Stmt{autoS("i", "j")}
	kind := s.N(6)
	var args []int64
	switch kind {
	case 0: // else if else if ...
		n := size(s, 10, 40, 200)
		st := lg()
		for i := n; i > 0; i-- {
			st = ifs(bin("==", name("p"), num(int64(i))), lg(), st)
		}
		body = block(st, lg())
		args = []int64{1, int64(n), int64(s.Range(1, n)), 0}
	case 1: // if inside of if
		n := size(s, 5, 30, 100)
		st := lg()
		for i := n; i > 0; i-- {
			var els *Stmt
			if s.P(1, 3) {
				els = lg()
			}
			c := bin(">", name("p"), num(int64(i)))
			if s.P(1, 3) {
				st = block(lg(), st)
			}
			st = ifs(c, st, els)
			if els == nil && s.Bool() { // an else must not go to it
				st = block(st)
			}
		}
		body = block(st, lg())
		args = []int64{0, int64(n) + 1, int64(s.Range(0, n)), int64(s.Range(0, n))}
	case 2: // gotos through many labels
		n := size(s, 10, 40, 150)
		ord := make([]int, n)
		for i := range ord {
			ord[i] = i
		}
		shuffle(s, ord)
		next := make([]int, n)
		for i := range ord {
			next[ord[i]] = -1
			if i+1 < n {
				next[ord[i]] = ord[i+1]
			}
		}
		body = block(goTo(fmt.Sprint("x", ord[0])))
		for i := 0; i < n; i++ {
			t := "end"
			if next[i] >= 0 {
				t = fmt.Sprint("x", next[i])
			}
			st := block(lg(), goTo(t))
			if s.P(1, 4) {
				st = block(lg(), ifs(bin("==", name("p"), num(int64(i))), ret(num(int64(i))), nil), goTo(t))
			}
			body.List = append(body.List, label(fmt.Sprint("x", i), st))
		}
		body.List = append(body.List, label("end", lg()))
		args = []int64{-1, int64(s.N(n))}
	case 3: // loops in loops
		n := s.Range(3, 8)
		var vars []string
		st := lg()
		for i := 0; i < n; i++ {
			v := fmt.Sprint("n", i)
			vars = append(vars, v)
			l := []*Stmt{st}
			if s.P(1, 2) {
				l = append(l, lg())
			}
			st = block(sx(asg("=", name(v), num(0))), while(bin("<", post("++", name(v)), num(2)), block(l...)))
		}
		pre1 = append(pre1, autoS(vars...))
		body = block(st, lg())
		args = []int64{0}
	case 4: // a long function
		body = block()
		long := 600
		if s.P(1, 3) {
			long = 4000
		}
		for i, n := 0, size(s, 50, 200, long); i < n; i++ {
			switch s.N(6) {
			case 0:
				body.List = append(body.List, ifs(bin("&", name("p"), num(1<<uint(s.N(8)))), lg(), nil))
			case 1:
				body.List = append(body.List, ifs(bin("<", name("p"), num(int64(s.N(99)))), lg(), lg()))
			case 2:
				body.List = append(body.List, sx(asg("=", name("j"), num(0))), while(bin("<", post("++", name("j")), num(int64(s.N(4)))), sx(pre("++", name("i")))))
			default:
				body.List = append(body.List, lg())
			}
		}
		body.List = append(body.List, rlog(name("i")))
		args = []int64{s.Word(), int64(s.N(100))}
	default: // blocks in blocks, a goto out of them and back into them
		n := size(s, 10, 40, 150)
		out := s.N(n)
		in := s.N(n)
		st := lg()
		for i := 0; i < n; i++ {
			l := []*Stmt{st}
			if i == out {
				l = append([]*Stmt{ifs(bin("==", post("++", name("i")), num(0)), goTo("out"), nil)}, l...)
			}
			if i == in {
				l = append([]*Stmt{label("in", lg())}, l...)
			}
			if s.P(1, 3) {
				l = append(l, lg())
			}
			st = block(l...)
		}
		body = block(st, ret(num(1)), label("out", lg()), goTo("in"))
		args = []int64{0}
	}
	f := fn(pfx+"f", []string{"p"}, block(append(pre1, body, ret(num(7)))...))
	eb := block()
	for _, a := range args {
		eb.List = append(eb.List, rlog(call(pfx+"f", num(a))))
	}
	return &Unit{Decls: [][]*Decl{{f, fn(pfx+"e", nil, eb)}}, Entry: pfx + "e", Class: []string{fmt.Sprintf("big-flow-%d", kind)}}
}

// P04
func genBigSwitchUnit(s *Src, pfx string) *Unit {
	k := 0
	lg := func() *Stmt { k++; return rlog(num(int64(k))) }
	g := &flowGen{s: s, pfx: pfx, max: 60, sw: true}
	var args []int64
	body := block()
	kind := s.N(4)
	switch kind {
	case 3: // many switches with many cases, which differ in digits only
		n := size(s, 3, 12, 40)
		den := s.Range(2, 6)
		top := pick(s, []int{30, 60, 130})
		nest := s.P(1, 3)
		in := body
		for i := 0; i < n; i++ {
			b := block()
			for j := 0; j < top; j++ {
				if s.P(1, den) {
					b.List = append(b.List, caseS(int64(j), lg()))
					if s.P(3, 4) {
						b.List = append(b.List, goTo(fmt.Sprint("o", i)))
					}
				}
			}
			if len(b.List) == 0 {
				b.List = append(b.List, caseS(0, lg()))
			}
			in.List = append(in.List, sw(bin("&", bin("*", bin("+", name("p"), num(int64(i))), num(int64(s.Range(1, 9)))), num(127)), b), label(fmt.Sprint("o", i), lg()))
			if nest && s.P(1, 3) {
				nb := block()
				in.List = append(in.List, ifs(bin("<", name("p"), num(int64(s.N(130)))), nb, nil))
				in = nb
			}
		}
		for i := 0; i < 12; i++ {
			args = append(args, int64(s.N(128)))
		}
	case 0: // many cases
		n := size(s, 20, 80, 400)
		b := block()
		m := map[int64]bool{}
		var vals []int64
		mode := s.N(3)
		for i := 0; i < n; i++ {
			st := &Stmt{K: SCase, N: int64(i)}
			switch mode {
			case 1:
				st.N, st.Text = g.caseConst()
			case 2:
				st.N = int64(i) * (1 << 33)
			}
			if m[st.N] {
				continue
			}
			m[st.N] = true
			vals = append(vals, st.N)
			st.Body = lg()
			b.List = append(b.List, st)
			if s.P(3, 4) {
				b.List = append(b.List, goTo("out"))
			}
		}
		shuffleCases(s, b)
		body.List = append(body.List, sw(name("p"), b), label("out", lg()))
		args = []int64{vals[0], vals[len(vals)-1], pick(s, vals), pick(s, vals), pick(s, vals) ^ 1<<uint(s.N(64)), s.Word()}
	case 1: // a switch in a switch in a switch
		n := size(s, 3, 8, 30)
		st := lg()
		for i := 0; i < n; i++ {
			b := block(caseS(int64(s.N(3)), lg()))
			if s.Bool() {
				b.List = append(b.List, caseS(5, block(lg(), st)))
			} else {
				b.List = append(b.List, st)
			}
			b.List = append(b.List, caseS(7, lg()))
			if s.P(1, 4) {
				b.List = append(b.List, caseS(5+8, lg()))
			}
			st = block(lg(), sw(cond(name("p"), num(int64(pick(s, []int{0, 1, 5, 5, 5, 7, 9}))), num(pick(s, []int64{5, 5, 0, 7}))), b))
		}
		body.List = append(body.List, st, label("out", lg()))
		args = []int64{0, 1}
	default: // one switch after the other
		for i, n := 0, size(s, 10, 30, 100); i < n; i++ {
			b := block()
			for j, m := 0, s.Range(0, 4); j < m; j++ {
				b.List = append(b.List, caseS(int64(j+i%2), lg()))
			}
			body.List = append(body.List, sw(bin("&", bin("+", name("p"), num(int64(i))), num(7)), b))
		}
		body.List = append(body.List, label("out", lg()))
		args = []int64{int64(s.N(8)), int64(s.N(8)), s.Word()}
	}
	f := fn(pfx+"f", []string{"p"}, body)
	eb := block()
	for _, a := range args {
		eb.List = append(eb.List, rlog(call(pfx+"f", num(a))))
	}
	return &Unit{Decls: [][]*Decl{{f, fn(pfx+"e", nil, eb)}}, Entry: pfx + "e", Class: []string{fmt.Sprintf("big-switch-%d", kind)}}
}

// shuffleCases permutes the cases, each with what follows it.
func shuffleCases(s *Src, b *Stmt) {
	var gs [][]*Stmt
	for _, st := range b.List {
		if st.K == SCase {
			gs = append(gs, nil)
		}
		gs[len(gs)-1] = append(gs[len(gs)-1], st)
	}
	if s.Bool() {
		shuffle(s, gs)
	}
	b.List = nil
	for _, g := range gs {
		b.List = append(b.List, g...)
	}
}

// P05
func genBigCallUnit(s *Src, pfx string) *Unit {
	kind := s.N(4)
	var ds []*Decl
	eb := block(autoS("h"))
	switch kind {
	case 0: // many parameters
		n := size(s, 12, 30, 120)
		ps := pnames(s, n)
		b := block()
		var e *Expr = num(0)
		for j, p := range ps {
			b.List = append(b.List, rlog(name(p)))
			e = bin("+", e, bin("*", name(p), num(int64(j+1))))
		}
		b.List = append(b.List, ret(e))
		ds = append(ds, fn(pfx+"f", ps, b))
		var as []*Expr
		for range ps {
			as = append(as, wnum(s))
		}
		if s.Bool() {
			eb.List = append(eb.List, sx(asg("=", name("h"), name(pfx+"f"))), rlog(callE(name("h"), as...)))
		} else {
			eb.List = append(eb.List, rlog(call(pfx+"f", as...)))
		}
	case 1: // deep recursion
		n := int64(size(s, 50, 500, 2500))
		np := s.Range(1, 9)
		ps := pnames(s, np)
		var as []*Expr
		as = append(as, bin("-", name(ps[0]), num(1)))
		for i := 1; i < np; i++ {
			as = append(as, bin("+", name(ps[i]), num(int64(i))))
		}
		sum := name(ps[np-1])
		ds = append(ds, fn(pfx+"f", ps, block(autoS("x"), sx(asg("=", name("x"), bin("*", name(ps[0]), num(3)))),
			ifs(bin("<=", name(ps[0]), num(0)), ret(sum), nil),
			sx(asg("=+", name("x"), call(pfx+"f", as...))),
			ret(bin("+", name("x"), bin("-", name(ps[0]), sum))))))
		var c []*Expr
		c = append(c, num(n))
		for i := 1; i < np; i++ {
			c = append(c, wnum(s))
		}
		eb.List = append(eb.List, rlog(call(pfx+"f", c...)))
	case 2: // a chain of many functions, in any order
		n := size(s, 10, 40, 200)
		for i := 0; i < n; i++ {
			nx := fmt.Sprintf("%sf%d", pfx, i+1)
			var b *Stmt
			if i == n-1 {
				b = ret(bin("+", name("x"), name("y")))
			} else {
				b = ret(bin("-", call(nx, bin("+", name("y"), num(int64(i))), name("x")), num(1)))
			}
			ds = append(ds, fn(fmt.Sprintf("%sf%d", pfx, i), []string{"x", "y"}, block(b)))
		}
		eb.List = append(eb.List, rlog(call(pfx+"f0", wnum(s), wnum(s))))
	default: // a table of many functions
		n := size(s, 10, 40, 150)
		b := block()
		for i := 0; i < n; i++ {
			f := fmt.Sprintf("%sf%d", pfx, i)
			ds = append(ds, fn(f, []string{"x"}, ret(bin("+", name("x"), num(int64(i*i))))))
			b.List = append(b.List, sx(asg("=", index(name(pfx+"t"), num(int64(i))), name(f))))
		}
		ds = append(ds, &Decl{Name: pfx + "t", Vec: true, Size: int64(n), SizeT: fmt.Sprint(n)})
		eb.List = append(eb.List, extrn(pfx+"t"), b, sx(asg("=", name("h"), num(0))),
			while(bin("<", name("h"), num(int64(n))), block(rlog(callE(index(name(pfx+"t"), name("h")), num(int64(s.N(50))))), sx(pre("++", name("h"))))))
	}
	ds = append(ds, fn(pfx+"e", nil, eb))
	shuffle(s, ds)
	return &Unit{Decls: [][]*Decl{ds}, Entry: pfx + "e", Class: []string{fmt.Sprintf("big-call-%d", kind)}}
}

// sparse gives some indices of a vector of n words, the edges among them.
func sparse(s *Src, n int64) []int64 {
	l := []int64{0, n - 1, n / 2}
	for i := 0; i < 4; i++ {
		x := int64(1)<<uint(s.N(20)) + int64(s.Range(-1, 1))
		if x > 0 && x < n-1 {
			l = append(l, x)
		}
		l = append(l, int64(s.N(int(n))))
	}
	return l
}

// P06
func genBigAutoUnit(s *Src, pfx string) *Unit {
	kind := s.N(3)
	b := block()
	put := func(l ...*Stmt) { b.List = append(b.List, l...) }
	switch kind {
	case 2: // very large vectors
		type big struct {
			n string
			v int64
		}
		var vs []big
		for i, m := 0, s.Range(1, 3); i < m; i++ {
			v := big{fmt.Sprint("v", i), int64(pick(s, []int{255, 256, 257, 1000, 4095, 4096, 8192, 32767, 32768, 65535, 65536, 100000}) + s.Range(0, 3))}
			t := fmt.Sprint(v.v)
			switch s.N(4) {
			case 0, 1:
				x := []byte{byte(pick(s, []int{9, 10, 13, 32, 33, 65, 97, 122})), byte(s.Range(32, 126))}
				t = spell(s, x, '\'')
				v.v = int64(x[0])<<8 | int64(x[1])
			case 2:
				t = "0" + octal(v.v)
			}
			vs = append(vs, v)
			put(&Stmt{K: SAuto, Vars: []VarDecl{{Name: fmt.Sprint("l", i)}, {Name: v.n, Vec: true, Size: v.v, Text: t}, {Name: fmt.Sprint("r", i)}}})
		}
		var at [][]int64
		for k, v := range vs {
			put(rlog(name(fmt.Sprint("l", k))), rlog(name(fmt.Sprint("r", k))))
			at = append(at, sparse(s, v.v))
			for _, i := range at[k] {
				put(sx(asg("=", index(name(v.n), num(i)), num(int64(k)*1000000+i))))
			}
		}
		for k, v := range vs {
			put(rlog(name(fmt.Sprint("l", k))), rlog(name(fmt.Sprint("r", k))))
			for _, i := range at[k] {
				put(rlog(index(name(v.n), num(i))))
			}
		}
	case 0: // many variables
		n := size(s, 20, 60, 300)
		var vs []autoVar
		for len(vs) < n {
			st := &Stmt{K: SAuto}
			for i, m := 0, size(s, 1, 10, 60); i < m && len(vs) < n; i++ {
				v := autoVar{name: fmt.Sprintf("%c%d", "abcdv"[s.N(5)], len(vs)), n: 1}
				vd := VarDecl{Name: v.name}
				if s.P(1, 4) {
					v.vec, v.n = true, int64(s.Range(1, 6))
					vd.Vec, vd.Size, vd.Text = true, v.n, fmt.Sprint(v.n)
				}
				vs = append(vs, v)
				st.Vars = append(st.Vars, vd)
			}
			put(st)
		}
		lv := func(v autoVar, i int64) *Expr {
			if v.vec {
				return index(name(v.name), num(i))
			}
			return name(v.name)
		}
		for _, v := range vs {
			if !v.vec {
				put(rlog(name(v.name)))
			}
		}
		for k, v := range vs {
			for i := int64(0); i < v.n; i++ {
				put(sx(asg("=", lv(v, i), num(int64(k)*10+i+1))))
			}
		}
		for _, v := range vs {
			for i := int64(0); i < v.n; i++ {
				put(rlog(lv(v, i)))
			}
		}
	default: // large vectors
		var vs []autoVar
		put(autoS("i", "sum"))
		for i, m := 0, s.Range(1, 3); i < m; i++ {
			v := autoVar{name: fmt.Sprint("v", i), vec: true, n: int64(size(s, 100, 1000, 8000))}
			vs = append(vs, v)
			put(&Stmt{K: SAuto, Vars: []VarDecl{{Name: fmt.Sprint("l", i)}, {Name: v.name, Vec: true, Size: v.n, Text: fmt.Sprint(v.n)}, {Name: fmt.Sprint("r", i)}}})
		}
		for k, v := range vs {
			put(sx(asg("=", name("i"), num(0))), while(bin("<", name("i"), num(v.n)), block(
				sx(asg("=", index(name(v.name), name("i")), bin("+", name("i"), num(int64(k)*1000000)))), sx(pre("++", name("i"))))))
		}
		for k, v := range vs {
			put(rlog(name(fmt.Sprint("l", k))), rlog(name(fmt.Sprint("r", k))), sx(asg("=", name("i"), num(0))), sx(asg("=", name("sum"), num(0))),
				while(bin("<", name("i"), num(v.n)), sx(asg("=+", name("sum"), bin("*", name("i"), index(name(v.name), post("++", name("i"))))))))
			_ = k
			put(rlog(index(name(v.name), num(v.n-1))), rlog(index(name(v.name), num(0))), rlog(index(name(v.name), num(v.n/2))))
		}
	}
	return &Unit{Decls: [][]*Decl{{fn(pfx+"f", nil, b), fn(pfx+"e", nil, block(sx(call(pfx+"f")), sx(call(pfx+"f"))))}}, Entry: pfx + "e", Class: []string{fmt.Sprintf("big-autos-%d", kind)}}
}

// P07
func genBigExtUnit(s *Src, pfx string) *Unit {
	kind := s.N(3)
	var ds []*Decl
	b := block(autoS("i"))
	put := func(l ...*Stmt) { b.List = append(b.List, l...) }
	switch kind {
	case 2: // very large vectors
		var at [][]int64
		for k, m := 0, s.Range(1, 3); k < m; k++ {
			n := int64(pick(s, []int{255, 256, 1000, 4096, 32767, 65535, 65536, 100000, 131072, 300000}) + s.Range(0, 3))
			d := &Decl{Name: fmt.Sprintf("%sv%d", pfx, k), Vec: true, Size: n, SizeT: fmt.Sprint(n)}
			if s.P(1, 4) {
				d.SizeT = "0" + octal(n)
			}
			ds = append(ds, d)
			put(extrn(d.Name))
			at = append(at, sparse(s, n))
			for _, i := range at[k] {
				put(rlog(index(name(d.Name), num(i))))
			}
			for _, i := range at[k] {
				put(sx(asg("=", index(name(d.Name), num(i)), num(int64(k)*1000000+i))))
			}
		}
		for k, d := range ds {
			for _, i := range at[k] {
				put(rlog(index(name(d.Name), num(i))))
			}
		}
	case 0: // many names
		n := size(s, 20, 60, 300)
		var names []string
		for i := 0; i < n; i++ {
			d := &Decl{Name: fmt.Sprintf("%sx%d", pfx, i)}
			if s.P(4, 5) {
				d.Init = []IVal{{N: s.Word()}}
			}
			if s.P(1, 4) {
				d.Vec = true
				if len(d.Init) == 0 {
					d.Size, d.SizeT = 2, "2"
				}
			}
			ds = append(ds, d)
			names = append(names, d.Name)
		}
		if s.Bool() {
			put(extrn(names...))
		} else {
			for _, x := range names {
				put(extrn(x))
			}
		}
		show := func() {
			for _, d := range ds[:n] {
				if d.Vec {
					put(rlog(index(name(d.Name), num(0))))
				} else {
					put(rlog(name(d.Name)))
				}
			}
		}
		ds = ds[:n:n]
		show()
		for k, d := range ds {
			if s.P(1, 3) {
				continue
			}
			if d.Vec {
				put(sx(asg("=", index(name(d.Name), num(0)), num(int64(k)+1000))))
			} else {
				put(sx(asg("=", name(d.Name), num(int64(k)+1000))))
			}
		}
		show()
	default: // long lists
		x, y, z := pfx+"a", pfx+"b", pfx+"c"
		n := size(s, 20, 200, 1500)
		few := s.P(1, 3)
		if few {
			n = s.Range(1, 12)
		}
		d := &Decl{Name: y}
		for i := 0; i < n; i++ {
			v := s.Word()
			if s.P(1, 3) {
				v = 0
			}
			d.Init = append(d.Init, IVal{N: v})
		}
		total := int64(n)
		form := s.N(4)
		if few {
			form = 2
		}
		switch form {
		case 0:
		case 1:
			d.Vec = true
		case 2: // longer than its list
			d.Vec = true
			total = int64(n + s.Range(1, 3000))
			if s.P(1, 3) {
				total = int64(s.Range(3000, 20000))
			}
			d.Size, d.SizeT = total, fmt.Sprint(total)
		case 3: // shorter
			d.Vec = true
			d.Size = int64(s.Range(1, n))
			d.SizeT = fmt.Sprint(d.Size)
		}
		ds = append(ds, &Decl{Name: x, Init: []IVal{{N: 111}}}, d, &Decl{Name: z, Init: []IVal{{N: 222}}})
		put(extrn(x, y, z))
		base := name(y)
		if !d.Vec {
			base = un("&", name(y))
		}
		put(autoS("p", "sum"), sx(asg("=", name("p"), base)))
		put(while(bin("<", name("i"), num(total)), block(sx(asg("=", name("sum"), bin("+", bin("*", name("sum"), num(31)), index(name("p"), name("i"))))), sx(pre("++", name("i"))))),
			rlog(name("sum")), rlog(index(name("p"), num(int64(n)-1))), rlog(index(name("p"), num(total-1))),
			sx(asg("=", name("i"), num(0))), while(bin("<", name("i"), num(total)), sx(asg("=", index(name("p"), post("++", name("i"))), num(-1)))),
			rlog(name(x)), rlog(name(z)), rlog(index(name("p"), num(total/2))))
	}
	ds = append(ds, fn(pfx+"e", nil, b))
	shuffle(s, ds)
	return &Unit{Decls: [][]*Decl{ds, nil, nil}, Entry: pfx + "e", Class: []string{fmt.Sprintf("big-externals-%d", kind)}}
}

// P08
func genBigLiteralUnit(s *Src, pfx string) *Unit {
	kind := s.N(4)
	b := block(autoS("p", "i", "sum"))
	put := func(l ...*Stmt) { b.List = append(b.List, l...) }
	switch kind {
	case 0: // a long string
		n := size(s, 200, 2000, 20000)
		x := randBytes(s, n, false)
		put(sx(asg("=", name("p"), &Expr{K: EStr, Bytes: x, Text: spell(s, x, '"')})),
			while(bin("<=", name("i"), num(int64(n))), block(
				sx(asg("=", name("sum"), bin("+", bin("*", name("sum"), num(31)), call("char", name("p"), name("i"))))), sx(pre("++", name("i"))))),
			rlog(name("sum")))
	case 1: // many strings
		n := size(s, 10, 60, 300)
		put(autoV("v", int64(n)))
		var xs [][]byte
		for i := 0; i < n; i++ {
			var x []byte
			if len(xs) > 0 && s.P(1, 3) { // almost the same as another one
				x = append(x, pick(s, xs)...)
				switch {
				case len(x) > 0 && s.Bool():
					x[s.N(len(x))] = byte(s.Range(32, 126))
				case s.Bool():
					x = append(x, byte(s.Range(0, 126)))
				}
			} else {
				x = randBytes(s, s.N(12), false)
			}
			xs = append(xs, x)
			put(sx(asg("=", index(name("v"), num(int64(i))), &Expr{K: EStr, Bytes: x, Text: spell(s, x, '"')})))
		}
		for i, x := range xs {
			put(sx(asg("=", name("sum"), num(0))))
			for j := range x {
				put(sx(asg("=", name("sum"), bin("+", bin("*", name("sum"), num(257)), call("char", index(name("v"), num(int64(i))), num(int64(j)))))))
			}
			put(rlog(name("sum")), rlog(call("char", index(name("v"), num(int64(i))), num(int64(len(x))))))
		}
	case 2: // long strings, almost the same
		n := size(s, 10, 100, 1500)
		x := randBytes(s, n, false)
		for i, m := 0, s.Range(2, 6); i < m; i++ {
			y := append([]byte{}, x...)
			switch s.N(4) {
			case 0:
				y[s.N(n)] = byte(s.Range(32, 126))
			case 1:
				y[n-1] = byte(s.Range(32, 126))
			case 2:
				y = append(y, byte(s.Range(0, 126)))
			case 3:
				y = y[:s.Range(1, n)]
			}
			if s.Bool() {
				x = y
				n = len(x)
			}
			put(sx(asg("=", name("p"), &Expr{K: EStr, Bytes: y, Text: spell(s, y, '"')})), sx(asg("=", name("sum"), num(0))), sx(asg("=", name("i"), num(0))),
				while(bin("<=", name("i"), num(int64(len(y)))), block(
					sx(asg("=", name("sum"), bin("+", bin("*", name("sum"), num(31)), call("char", name("p"), name("i"))))), sx(pre("++", name("i"))))),
				rlog(name("sum")))
		}
	default: // many constants, with many zeros in front
		for i, n := 0, size(s, 10, 60, 300); i < n; i++ {
			t, v := constant(s, 0)
			if t[0] != '\'' && t[0] == '0' {
				for s.P(1, 3) {
					t = "00000000" + t
				}
			}
			put(rlog(constExpr(t, v)))
		}
	}
	return &Unit{Decls: [][]*Decl{{fn(pfx+"e", nil, b)}}, Entry: pfx + "e", Class: []string{fmt.Sprintf("big-literals-%d", kind)}}
}

// P17
func genBigMemUnit(s *Src, pfx string) *Unit {
	kind := s.N(3)
	var ds []*Decl
	b := block(autoS("p", "i", "k", "sum"))
	put := func(l ...*Stmt) { b.List = append(b.List, l...) }
	vec := func(n int64) *Expr {
		if s.Bool() {
			put(autoV("v", n))
			return name("v")
		}
		ds = append(ds, &Decl{Name: pfx + "v", Vec: true, Size: n, SizeT: fmt.Sprint(n)})
		put(extrn(pfx + "v"))
		return name(pfx + "v")
	}
	switch kind {
	case 0: // a pointer to a pointer to a pointer ...
		n := size(s, 3, 12, 60)
		v := vec(int64(n + 1))
		for i := 0; i < n; i++ {
			put(sx(asg("=", index(v, num(int64(i))), un("&", index(v, num(int64(i+1)))))))
		}
		put(sx(asg("=", index(v, num(int64(n))), wnum(s))))
		e := func(d int) *Expr {
			x := v
			for i := 0; i < d; i++ {
				if s.P(1, 4) {
					x = index(x, num(0))
				} else {
					x = un("*", x)
				}
			}
			return x
		}
		put(rlog(e(n+1)), sx(asg("=", e(n+1), wnum(s))), rlog(index(v, num(int64(n)))), sx(asg("=+", e(n+1), wnum(s))), rlog(e(n+1)),
			rlog(bin("==", e(s.Range(1, n)), v)))
		m := s.Range(1, n)
		put(rlog(bin("==", e(m), un("&", index(v, num(int64(m)))))))
	case 1: // strides over a large vector
		n := int64(size(s, 100, 1000, 6000))
		v := vec(n)
		put(sx(asg("=", name("i"), num(0))), while(bin("<", name("i"), num(n)), sx(asg("=", index(v, post("++", name("i"))), num(0)))))
		for j, m := 0, s.Range(1, 3); j < m; j++ {
			st := int64(s.Range(1, 13))
			lv := pick(s, []*Expr{index(v, name("i")), un("*", bin("+", v, bin("*", num(8), name("i")))), index(un("&", index(v, name("i"))), num(0))})
			put(sx(asg("=", name("i"), num(int64(s.N(9))))), while(bin("<", name("i"), num(n)), block(sx(asg(pick(s, []string{"=+", "="}), lv, bin("+", name("i"), num(int64(j)+1)))), sx(asg("=+", name("i"), num(st))))))
		}
		put(sx(asg("=", name("i"), num(0))), sx(asg("=", name("p"), v)),
			while(bin("<", post("++", name("i")), num(n)), block(sx(asg("=", name("sum"), bin("+", bin("*", name("sum"), num(5)), un("*", name("p"))))), sx(asg("=+", name("p"), num(8))))),
			rlog(name("sum")))
	default: // bytes
		n := int64(size(s, 4, 40, 300))
		v := vec(n)
		put(sx(asg("=", name("i"), num(0))), while(bin("<", name("i"), num(n)), sx(asg("=", index(v, post("++", name("i"))), num(0)))))
		for j, m := 0, size(s, 5, 20, 60); j < m; j++ {
			put(sx(call("lchar", v, num(int64(s.N(int(8*n)))), num(int64(s.N(256))))))
		}
		put(sx(asg("=", name("i"), num(0))), while(bin("<", name("i"), num(n)), rlog(index(v, post("++", name("i"))))),
			rlog(call("char", v, num(8*n-1))))
	}
	ds = append(ds, fn(pfx+"e", nil, b))
	shuffle(s, ds)
	return &Unit{Decls: [][]*Decl{ds}, Entry: pfx + "e", Class: []string{fmt.Sprintf("big-memory-%d", kind)}}
}
