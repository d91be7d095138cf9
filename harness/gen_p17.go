package main

import "fmt"

// P17: one flat memory.  The generator keeps the content of every word, so that
// it can reach a word through any chain of aliases that leads to it now.

type memVal struct {
	ptr bool
	obj int
	off int64 // words
	n   int64
}

type memObj struct {
	name  string
	vec   bool // name is a cell holding the address of the words
	cell  int  // for vectors: the object of the cell (one word)
	words []memVal
	ext   bool
}

type memGen struct {
	s    *Src
	pfx  string
	objs []*memObj
}

type memLoc struct {
	o int
	w int64
}

func (g *memGen) at(l memLoc) *memVal { return &g.objs[l.o].words[l.w] }

// kexpr writes a small number.
func (g *memGen) kexpr(n int64) *Expr {
	s := g.s
	switch s.Weighted(8, 1, 1, 1, 1) {
	case 1:
		return bin("-", num(n+3), num(3))
	case 2:
		return bin("+", num(n-2), num(2))
	case 3: // a word that holds the number
		for try := 0; try < 4; try++ {
			o := s.N(len(g.objs))
			for w, v := range g.objs[o].words {
				if !v.ptr && v.n == n {
					return g.lval(memLoc{o, int64(w)}, 1)
				}
			}
		}
	case 4:
		return call(g.pfx+"id", num(n))
	}
	return num(n)
}

// addr makes an expression for the address of l.
func (g *memGen) addr(l memLoc, d int) *Expr {
	s := g.s
	o := g.objs[l.o]
	var e *Expr
	shift := func(base *Expr, from int64) *Expr {
		k := l.w - from
		switch {
		case k == 0 && s.P(3, 4):
			return base
		case s.Bool():
			return un("&", index(base, g.kexpr(k)))
		case k >= 0:
			b := bin("*", num(8), g.kexpr(k))
			if s.Bool() {
				b = num(8 * k)
			}
			if s.Bool() {
				return bin("+", base, b)
			}
			return bin("+", b, base)
		default:
			return bin("-", base, num(-8*k))
		}
	}
	switch {
	case d > 0 && s.P(1, 2):
		// a cell holding a pointer into the same object
		var cs []memLoc
		for oi, x := range g.objs {
			for w, v := range x.words {
				if v.ptr && v.obj == l.o {
					cs = append(cs, memLoc{oi, int64(w)})
				}
			}
		}
		if len(cs) > 0 {
			c := pick(s, cs)
			v := *g.at(c)
			e = shift(g.lval(c, d-1), v.off)
			break
		}
		fallthrough
	case d > 0 && s.P(1, 3):
		e = un("&", g.lval(l, d-1))
	default:
		// by its name
		if o.name == "" {
			// words of a vector: its cell may have been changed, look for any
			// pointer in a word with a name
			var cs []memLoc
			for oi, x := range g.objs {
				for w, v := range x.words {
					if x.name != "" && v.ptr && v.obj == l.o {
						cs = append(cs, memLoc{oi, int64(w)})
					}
				}
			}
			if len(cs) == 0 {
				return nil
			}
			c := pick(s, cs)
			e = shift(g.lval(c, 0), g.at(c).off)
		} else {
			e = shift(un("&", name(o.name)), 0)
		}
	}
	if e == nil {
		return nil
	}
	switch s.Weighted(14, 1, 1, 1) {
	case 1:
		e = call(g.pfx+"id", e)
	case 2:
		e = paren(cond(num(int64(s.Range(0, 1))), e, e))
	case 3:
		e = un("&", un("*", e))
	}
	return e
}

// lval makes an lvalue for l.  Reachability is checked by the caller.
func (g *memGen) lval(l memLoc, d int) *Expr {
	s := g.s
	o := g.objs[l.o]
	if o.name != "" && l.w == 0 && (d <= 0 || s.P(2, 5)) {
		return name(o.name)
	}
	if d > 0 && s.P(1, 2) {
		// index from another word of the object
		w := int64(s.N(len(o.words)))
		if a := g.addr(memLoc{l.o, w}, d-1); a != nil {
			return index(a, g.kexpr(l.w-w))
		}
	}
	a := g.addr(l, d-1)
	if a == nil {
		trap("unreachable word")
	}
	if s.Bool() {
		return un("*", a)
	}
	return index(a, num(0))
}

// try changes a word, unless some unnamed object would no longer be pointed to
// by a word that has a name.
func (g *memGen) try(l memLoc, v memVal) bool {
	old := *g.at(l)
	*g.at(l) = v
	for _, o := range g.objs {
		if o.name != "" {
			continue
		}
		ok := false
		for _, x := range g.objs {
			if x.name == "" {
				continue
			}
			for _, y := range x.words {
				if y.ptr && g.objs[y.obj] == o {
					ok = true
				}
			}
		}
		if !ok {
			*g.at(l) = old
			return false
		}
	}
	return true
}

func genMemUnit(s *Src, pfx string) *Unit {
	g := &memGen{s: s, pfx: pfx}
	var ds []*Decl
	decls := []*Stmt{}
	var ext []string
	b := block()
	put := func(l ...*Stmt) { b.List = append(b.List, l...) }
	add := func(o *memObj) int { g.objs = append(g.objs, o); return len(g.objs) - 1 }
	auto := &Stmt{K: SAuto}
	var initial []*Stmt
	for i, n := 0, s.Range(3, 8); i < n; i++ {
		nm := fmt.Sprintf("%c%d", "apvq"[s.N(4)], i)
		switch s.Weighted(3, 3, 2, 2, 1) {
		case 0: // auto scalar
			auto.Vars = append(auto.Vars, VarDecl{Name: nm})
			add(&memObj{name: nm, words: make([]memVal, 1)})
		case 1: // auto vector
			k := s.Range(1, 6)
			auto.Vars = append(auto.Vars, VarDecl{Name: nm, Vec: true, Size: int64(k), Text: fmt.Sprint(k)})
			w := add(&memObj{words: make([]memVal, k)})
			add(&memObj{name: nm, words: []memVal{{ptr: true, obj: w}}})
			for j := 0; j < k; j++ {
				initial = append(initial, sx(asg("=", index(name(nm), num(int64(j))), num(int64(j*3+i)))))
				g.objs[w].words[j].n = int64(j*3 + i)
			}
		case 2: // external scalar
			nm = pfx + nm
			v := s.Word()
			if v == -1<<63 {
				v = 0
			}
			ds = append(ds, &Decl{Name: nm, Init: []IVal{{N: v}}})
			ext = append(ext, nm)
			add(&memObj{name: nm, words: []memVal{{n: v}}, ext: true})
		case 3: // external vector
			nm = pfx + nm
			k := s.Range(1, 6)
			d := &Decl{Name: nm, Vec: true, Size: int64(k), SizeT: fmt.Sprint(k)}
			w := add(&memObj{words: make([]memVal, k), ext: true})
			for j, m := 0, s.N(k+1); j < m; j++ {
				d.Init = append(d.Init, IVal{N: int64(j + 40)})
				g.objs[w].words[j].n = int64(j + 40)
			}
			ds = append(ds, d)
			ext = append(ext, nm)
			add(&memObj{name: nm, words: []memVal{{ptr: true, obj: w}}, ext: true})
		case 4: // external words
			nm = pfx + nm
			d := &Decl{Name: nm}
			o := &memObj{name: nm, ext: true}
			for j, m := 0, s.Range(2, 5); j < m; j++ {
				d.Init = append(d.Init, IVal{N: int64(j + 70)})
				o.words = append(o.words, memVal{n: int64(j + 70)})
			}
			ds = append(ds, d)
			ext = append(ext, nm)
			add(o)
		}
	}
	// helpers
	ds = append(ds, fn(pfx+"id", []string{"x"}, ret(name("x"))),
		fn(pfx+"set", []string{"p", "i", "v"}, ret(asg("=", index(name("p"), name("i")), name("v")))),
		fn(pfx+"get", []string{"p", "i"}, ret(index(name("p"), name("i")))),
		fn(pfx+"add", []string{"p", "v"}, block(sx(asg("=+", un("*", name("p")), name("v"))), ret(un("*", name("p"))))),
		fn(pfx+"swap", []string{"p", "q"}, block(autoS("t"), sx(asg("=", name("t"), un("*", name("p")))),
			sx(asg("=", un("*", name("p")), un("*", name("q")))), sx(asg("=", un("*", name("q")), name("t"))))),
		fn(pfx+"copy", []string{"d", "s", "n"}, while(bin(">=", asg("=", name("n"), bin("-", name("n"), num(1))), num(0)),
			sx(asg("=", index(name("d"), name("n")), index(name("s"), name("n")))))),
		fn(pfx+"sum", []string{"p", "n"}, block(autoS("t"), while(post("--", name("n")),
			block(sx(asg("=+", name("t"), un("*", name("p")))), sx(asg("=+", name("p"), num(8))))), ret(name("t")))))
	if len(auto.Vars) > 0 {
		decls = append(decls, auto)
	}
	if len(ext) > 0 {
		decls = append(decls, extrn(ext...))
	}
	put(initial...)
	classes := map[string]bool{}
	loc := func() memLoc {
		o := s.N(len(g.objs))
		return memLoc{o, int64(s.N(len(g.objs[o].words)))}
	}
	// an unnamed object must stay reachable from a named word
	for i, n := 0, s.Range(4, 25); i < n; i++ {
		d := s.N(4)
		l := loc()
		v := *g.at(l)
		switch s.Weighted(6, 6, 3, 2, 2, 2, 2, 2, 2, 2, 1) {
		case 0: // store a number
			nv := s.Word()
			if v.ptr && !g.try(l, memVal{}) {
				continue
			}
			*g.at(l) = v
			lv := g.lval(l, d)
			if !g.try(l, memVal{n: nv}) {
				continue
			}
			if s.P(1, 3) {
				*g.at(l) = v
				a := g.addr(l, d)
				put(sx(call(pfx+"set", a, num(0), num(nv))))
				*g.at(l) = memVal{n: nv}
				classes["set-by-callee"] = true
			} else {
				put(sx(asg("=", lv, num(nv))))
			}
		case 1: // store a pointer
			t := loc()
			nv := memVal{ptr: true, obj: t.o, off: t.w}
			lv := g.lval(l, d)
			a := g.addr(t, s.N(3))
			if a == nil || !g.try(l, nv) {
				continue
			}
			put(sx(asg("=", lv, a)))
			classes["pointer"] = true
		case 2: // load
			if v.ptr {
				base := g.addr(memLoc{v.obj, 0}, d)
				if base != nil {
					put(rlog(bin("-", g.lval(l, d), base)))
					classes["difference"] = true
				}
				continue
			}
			if s.P(1, 4) {
				w := int64(s.N(len(g.objs[l.o].words)))
				put(rlog(call(pfx+"get", g.addr(memLoc{l.o, w}, d), num(l.w-w))))
			} else {
				put(rlog(g.lval(l, d)))
			}
		case 3: // compound assignment, increments of numbers
			if v.ptr {
				continue
			}
			switch s.N(4) {
			case 0:
				k := s.Word()
				put(sx(asg("=+", g.lval(l, d), num(k))))
				g.at(l).n += k
			case 1:
				lv := g.lval(l, d)
				if lv.K == EUn { // *p++ would step the pointer
					put(rlog(pre("++", lv)))
				} else {
					put(rlog(post("++", lv)))
				}
				g.at(l).n++
			case 2:
				put(rlog(pre("--", g.lval(l, d))))
				g.at(l).n--
			case 3:
				k := s.Word()
				put(rlog(call(pfx+"add", g.addr(l, d), num(k))))
				g.at(l).n += k
			}
			classes["update"] = true
		case 4: // advance a pointer
			if !v.ptr {
				continue
			}
			k := int64(s.N(len(g.objs[v.obj].words))) - v.off
			lv := g.lval(l, d)
			nv := v
			nv.off += k
			*g.at(l) = nv
			if k < 0 && s.Bool() {
				put(sx(asg("=-", lv, num(-8*k))))
			} else {
				put(sx(asg("=+", lv, num(8*k))))
			}
			classes["advance"] = true
		case 5: // swap two words
			m := loc()
			if m == l {
				continue
			}
			a, c := g.addr(l, d), g.addr(m, s.N(3))
			if a == nil || c == nil {
				continue
			}
			x, y := *g.at(l), *g.at(m)
			*g.at(l) = y
			if !g.try(m, x) {
				*g.at(l) = x
				continue
			}
			put(sx(call(pfx+"swap", a, c)))
			classes["swap"] = true
		case 6: // a byte
			if v.ptr {
				continue
			}
			k := s.N(8)
			c := byte(s.N(256))
			put(sx(call("lchar", g.addr(l, d), num(int64(k)), num(int64(c)+256*int64(s.N(3))))))
			u := uint64(v.n)
			u = u&^(255<<(8*uint(k))) | uint64(c)<<(8*uint(k))
			g.at(l).n = int64(u)
			put(rlog(g.lval(l, d)))
			classes["lchar"] = true
		case 7:
			if v.ptr {
				continue
			}
			w := int64(s.N(len(g.objs[l.o].words)))
			put(rlog(call("char", g.addr(memLoc{l.o, w}, d), num(8*(l.w-w)+int64(s.N(8))))))
			classes["char"] = true
		case 8: // equal addresses
			a, c := g.addr(l, 2), g.addr(l, 3)
			if a != nil && c != nil {
				put(rlog(bin(pick(s, []string{"==", "!="}), a, c)))
				classes["compare"] = true
			}
		case 9: // sum of the numbers of an object
			o := g.objs[l.o]
			for _, x := range o.words {
				if x.ptr {
					o = nil
					break
				}
			}
			if o == nil {
				continue
			}
			put(rlog(call(pfx+"sum", g.addr(memLoc{l.o, 0}, d), num(int64(len(o.words))))))
			classes["sum"] = true
		case 10: // copy words
			m := loc()
			n := int64(len(g.objs[l.o].words)) - l.w
			if k := int64(len(g.objs[m.o].words)) - m.w; k < n {
				n = k
			}
			if m.o == l.o {
				continue
			}
			a, c := g.addr(l, d), g.addr(m, s.N(3))
			if a == nil || c == nil {
				continue
			}
			ok := true
			save := append([]memVal(nil), g.objs[l.o].words...)
			for k := int64(0); k < n; k++ {
				if !g.try(memLoc{l.o, l.w + k}, g.objs[m.o].words[m.w+k]) {
					ok = false
					break
				}
			}
			if !ok {
				copy(g.objs[l.o].words, save)
				continue
			}
			put(sx(call(pfx+"copy", a, c, num(n))))
			classes["copy"] = true
		}
	}
	// everything, by plain routes
	for oi, o := range g.objs {
		for w, v := range o.words {
			l := memLoc{oi, int64(w)}
			if v.ptr {
				if base := g.addr(memLoc{v.obj, 0}, 0); base != nil {
					put(rlog(bin("-", g.lval(l, 0), base)))
				}
				continue
			}
			put(rlog(g.lval(l, 0)))
		}
	}
	e := fn(pfx+"e", nil, block(append(decls, b.List...)...))
	ds = append(ds, e)
	shuffle(s, ds)
	cl := []string{"memory"}
	for _, k := range []string{"pointer", "difference", "update", "advance", "swap", "lchar", "char", "compare", "sum", "copy", "set-by-callee"} {
		if classes[k] {
			cl = append(cl, k)
		}
	}
	return &Unit{Decls: [][]*Decl{ds}, Entry: pfx + "e", Class: cl}
}

// genListUnit: linked structures in vectors.
func genListUnit(s *Src, pfx string) *Unit {
	var ds []*Decl
	n := s.Range(1, 9)
	fields := s.Range(2, 4)
	link := s.N(fields)
	val := (link + 1) % fields
	b := block(extrn(pfx+"pool", pfx+"head"), autoS("p", "q", "r", "i"))
	put := func(l ...*Stmt) { b.List = append(b.List, l...) }
	ds = append(ds, &Decl{Name: pfx + "pool", Vec: true, Size: int64(n * fields), SizeT: fmt.Sprint(n * fields)}, &Decl{Name: pfx + "head"})
	f := func(p *Expr, k int) *Expr { return index(p, num(int64(k))) }
	p, q, r, head := name("p"), name("q"), name("r"), name(pfx+"head")
	// push the nodes in a random order
	ord := make([]int, n)
	for i := range ord {
		ord[i] = i
	}
	shuffle(s, ord)
	for _, k := range ord {
		put(sx(asg("=", p, un("&", index(name(pfx+"pool"), num(int64(k*fields)))))),
			sx(asg("=", f(p, val), wnum(s))))
		if s.Bool() {
			put(sx(asg("=", f(p, link), head)), sx(asg("=", head, p)))
		} else { // append through a pointer to the last link
			put(sx(asg("=", q, un("&", head))),
				while(un("*", q), sx(asg("=", q, un("&", index(un("*", q), num(int64(link))))))),
				sx(asg("=", un("*", q), p)), sx(asg("=", f(p, link), num(0))))
		}
	}
	walk := func() {
		put(sx(asg("=", p, head)), while(p, block(rlog(f(p, val)), sx(asg("=", p, f(p, link))))))
	}
	walk()
	for k, m := 0, s.Range(1, 3); k < m; k++ {
		switch s.N(4) {
		case 0: // reverse
			put(sx(asg("=", q, num(0))), sx(asg("=", p, head)),
				while(p, block(sx(asg("=", r, f(p, link))), sx(asg("=", f(p, link), q)), sx(asg("=", q, p)), sx(asg("=", p, r)))),
				sx(asg("=", head, q)))
		case 1: // sort by insertion
			put(sx(asg("=", r, num(0))),
				while(asg("=", p, head), block(
					sx(asg("=", head, f(p, link))),
					sx(asg("=", q, un("&", name("r")))),
					while(cond(un("*", q), bin("<", index(un("*", q), num(int64(val))), f(p, val)), num(0)),
						sx(asg("=", q, un("&", index(un("*", q), num(int64(link))))))),
					sx(asg("=", f(p, link), un("*", q))),
					sx(asg("=", un("*", q), p)))),
				sx(asg("=", head, r)))
		case 2: // remove every second node
			put(sx(asg("=", q, un("&", head))), sx(asg("=", name("i"), num(0))),
				while(asg("=", p, un("*", q)), ifs(bin("&", post("++", name("i")), num(1)),
					sx(asg("=", un("*", q), f(p, link))),
					sx(asg("=", q, un("&", f(p, link)))))))
		case 3: // add to every value through the pointer
			put(sx(asg("=", p, head)), while(p, block(sx(asg("=+", un("*", bin("+", p, num(int64(8*val)))), wnum(s))), sx(asg("=", p, index(p, num(int64(link))))))))
		}
		walk()
	}
	ds = append(ds, fn(pfx+"e", nil, b))
	shuffle(s, ds)
	return &Unit{Decls: [][]*Decl{ds}, Entry: pfx + "e", Class: []string{"list"}}
}

// genMatrixUnit: vectors of vectors.
func genMatrixUnit(s *Src, pfx string) *Unit {
	rows, cols := s.Range(1, 5), s.Range(1, 5)
	m, i, j := name("m"), name("i"), name("j")
	b := block(&Stmt{K: SAuto, Vars: []VarDecl{{Name: "m", Vec: true, Size: int64(rows), Text: fmt.Sprint(rows)}, {Name: "i"}, {Name: "j"},
		{Name: "w", Vec: true, Size: int64(rows * cols), Text: fmt.Sprint(rows * cols)}, {Name: "t"}}})
	put := func(l ...*Stmt) { b.List = append(b.List, l...) }
	// rows may be stored in any order, and shared
	place := make([]int, rows)
	for k := range place {
		place[k] = k
	}
	shuffle(s, place)
	shared := s.P(1, 4)
	if shared {
		place[s.N(rows)] = place[s.N(rows)]
	}
	for k := 0; k < rows*cols; k++ {
		put(sx(asg("=", index(name("w"), num(int64(k))), num(int64(k)))))
	}
	for k := 0; k < rows; k++ {
		put(sx(asg("=", index(m, num(int64(k))), bin("+", name("w"), num(int64(8*cols*place[k]))))))
	}
	for k, n := 0, s.Range(2, 10); k < n; k++ {
		x, y := int64(s.N(rows)), int64(s.N(cols))
		lv := pick(s, []*Expr{
			index(index(m, num(x)), num(y)),
			un("*", bin("+", index(m, num(x)), num(8*y))),
			index(un("*", bin("+", m, num(8*x))), num(y)),
			un("*", un("&", index(index(m, num(x)), num(y)))),
			index(un("&", index(index(m, num(x)), num(0))), num(y)),
		})
		switch s.N(3) {
		case 0:
			put(sx(asg(pick(s, []string{"=", "=+", "=*", "=-"}), lv, wnum(s))))
		case 1:
			put(rlog(lv))
		case 2:
			x2, y2 := int64(s.N(rows)), int64(s.N(cols))
			put(sx(asg("=", lv, bin("+", index(index(m, num(x2)), num(y2)), num(int64(k))))))
		}
		if s.P(1, 4) { // swap rows
			x2 := int64(s.N(rows))
			put(sx(asg("=", name("t"), index(m, num(x)))), sx(asg("=", index(m, num(x)), index(m, num(x2)))), sx(asg("=", index(m, num(x2)), name("t"))))
		}
	}
	put(sx(asg("=", i, num(0))), while(bin("<", i, num(int64(rows))), block(sx(asg("=", j, num(0))),
		while(bin("<", j, num(int64(cols))), block(rlog(index(index(m, i), post("++", j))))),
		sx(post("++", i)))))
	for k := 0; k < rows*cols; k++ {
		put(rlog(index(name("w"), num(int64(k)))))
	}
	return &Unit{Decls: [][]*Decl{{fn(pfx+"e", nil, b)}}, Entry: pfx + "e", Class: []string{"matrix"}}
}

// genFarUnit: words reached from bases and by indices far away from them.  A
// base is a plain number, never the address of another object.
func genFarUnit(s *Src, pfx string) *Unit {
	var ds []*Decl
	var b []*Stmt
	put := func(l ...*Stmt) { b = append(b, l...) }
	var words []*Expr // lvalues
	for i, n := 0, s.Range(1, 4); i < n; i++ {
		x := string(rune('a' + i))
		switch s.N(5) {
		case 0:
			put(autoS(x), sx(asg("=", name(x), wnum(s))))
			words = append(words, name(x))
		case 1:
			ds = append(ds, &Decl{Name: pfx + x, Init: []IVal{{N: s.Word()}}})
			put(extrn(pfx + x))
			words = append(words, name(pfx+x))
		case 2:
			k := int64(s.Range(1, 40))
			put(autoV(x, k))
			for _, j := range []int64{0, k - 1} {
				put(sx(asg("=", index(name(x), num(j)), wnum(s))))
				words = append(words, index(name(x), num(j)))
			}
		case 3:
			k := int64(s.Range(2, 40))
			ds = append(ds, &Decl{Name: pfx + x, Vec: true, Size: k, SizeT: fmt.Sprint(k), Init: []IVal{{N: s.Word()}}})
			put(extrn(pfx + x))
			words = append(words, index(name(pfx+x), num(0)), index(name(pfx+x), num(k-1)))
		default:
			d := &Decl{Name: pfx + x}
			for j, m := 0, s.Range(2, 4); j < m; j++ {
				d.Init = append(d.Init, IVal{N: s.Word()})
			}
			ds = append(ds, d)
			put(extrn(pfx + x))
			words = append(words, name(pfx+x), index(un("&", name(pfx+x)), num(int64(len(d.Init)-1))))
		}
	}
	put(autoS("p", "i", "k"))
	ds = append(ds, fn(pfx+"at", []string{"p", "i"}, ret(index(name("p"), name("i")))),
		fn(pfx+"put", []string{"p", "i", "v"}, ret(asg("=", index(name("p"), name("i")), name("v")))))
	base := func() int64 {
		v := int64(s.N(4096))
		switch s.N(4) {
		case 1:
			v = -v
		case 2:
			v = 1<<uint(s.Range(10, 44)) + v
		case 3:
			v = -(1<<uint(s.Range(10, 44)) + v)
		}
		return v * 8
	}
	for i, n := 0, s.Range(2, 8); i < n; i++ {
		w := pick(s, words)
		c := base()
		if s.P(1, 3) { // a constant index, from a base that lies so far before or behind
			n := c / 8
			put(sx(asg("=", name("p"), pick(s, []*Expr{
				bin("-", un("&", w), constOf(s, c)),
				bin("+", un("&", w), constOf(s, -c)),
				un("&", index(un("&", w), constOf(s, -n))),
			}))))
			lv := pick(s, []*Expr{
				index(name("p"), constOf(s, n)),
				un("*", bin("+", name("p"), constOf(s, c))),
				un("*", un("&", index(name("p"), constOf(s, n)))),
				index(un("&", index(name("p"), num(1))), constOf(s, n-1)),
			})
			switch s.N(3) {
			case 0:
				put(rlog(lv))
			case 1:
				put(sx(asg(pick(s, []string{"=", "=+", "=*"}), lv, wnum(s))), rlog(w))
			default:
				put(sx(pre("++", lv)), rlog(w))
			}
			continue
		}
		// w is the word idx of p
		put(sx(asg("=", name("p"), num(c))))
		d := bin("-", un("&", w), name("p"))
		if s.Bool() {
			d = bin("-", un("&", w), num(c))
		}
		if c < 0 && s.Bool() {
			d = bin("+", un("&", w), num(-c))
		}
		idx := bin("/", d, num(8))
		if s.P(1, 3) {
			put(sx(asg("=", name("i"), idx)))
			idx = name("i")
		}
		var lv *Expr
		k := num(c)
		if s.Bool() {
			k = name("p")
		}
		switch s.N(6) {
		case 0:
			lv = index(k, idx)
		case 1:
			lv = un("*", un("&", index(k, idx)))
		case 2:
			lv = un("*", paren(bin("+", k, bin("*", num(8), idx))))
		case 3: // a step in between
			m := base()
			put(sx(asg("=", name("k"), num(m/8))))
			lv = index(un("&", index(k, name("k"))), bin("-", idx, name("k")))
		case 4:
			put(rlog(call(pfx+"at", k, idx)))
			if s.Bool() {
				put(rlog(call(pfx+"put", k, idx, wnum(s))))
				put(rlog(w))
			}
			continue
		default:
			lv = index(bin("+", k, num(80)), bin("-", idx, num(10)))
		}
		switch s.N(4) {
		case 0:
			put(rlog(lv))
		case 1:
			put(sx(asg("=", lv, wnum(s))), rlog(w))
		case 2:
			put(sx(asg("=+", lv, wnum(s))), rlog(w))
		default:
			put(rlog(bin("==", un("&", lv), un("&", w))))
		}
	}
	for _, w := range words {
		put(rlog(w))
	}
	ds = append(ds, fn(pfx+"e", nil, block(b...)))
	shuffle(s, ds)
	return &Unit{Decls: [][]*Decl{ds}, Entry: pfx + "e", Class: []string{"far-index"}}
}
