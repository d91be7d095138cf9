package main

import "fmt"

// P03: control flow.  P04: switch.

// flowGen makes statements whose conditions come from a list of values, so that
// every loop ends when the list is used up.
type flowGen struct {
	s      *Src
	pfx    string
	k      int
	pos    int
	labels []flowLabel
	gotos  []*flowGoto
	size   int
	max    int
	// switch
	sw      bool
	inSw    []map[int64]bool // case values of the enclosing switch, nil: case not allowed here
	autos   bool
	nauto   int
	swSeen  int
	hasLoop bool
	hasGoto bool
}

type flowLabel struct {
	name string
	pos  int
}

type flowGoto struct {
	s       *Stmt
	pos     int
	guarded bool
}

func (g *flowGen) log() *Stmt {
	g.k++
	return rlog(num(int64(g.k)))
}

func (g *flowGen) c() *Expr { return call(g.pfx + "c") }

var truthy = []int64{1, 2, -1, 256, 1 << 32, -1 << 63, 3, 7, 1 << 40, 65536}

func (g *flowGen) cond() *Expr {
	s := g.s
	switch s.Weighted(10, 3, 3, 3, 2, 2, 1) {
	case 1:
		return un("!", g.c())
	case 2:
		return bin(pick(s, []string{"==", "!=", "<", ">", "<=", ">="}), g.c(), num(pick(s, []int64{0, 1, 2, -1})))
	case 3:
		return asg("=", name("x"), g.c())
	case 4:
		return bin(pick(s, []string{"&", "|"}), g.c(), g.c())
	case 5:
		return trace(900+s.N(50), g.c())
	case 6:
		return cond(g.c(), g.c(), un("!", g.c()))
	}
	return g.c()
}

// ifCond may be constant, too.
func (g *flowGen) ifCond() *Expr {
	s := g.s
	switch s.Weighted(12, 3, 1, 1, 1) {
	case 1:
		return constOf(s, pick(s, []int64{0, 1, 2, -1, 1 << 32, -1 << 63, 0, 1<<63 - 1}))
	case 2:
		return name("x")
	case 3:
		return name("p")
	case 4:
		return str([]byte(pick(s, []string{"", "x"})))
	}
	return g.cond()
}

func (g *flowGen) block(d int, lo, hi int) *Stmt {
	b := block()
	for i, n := 0, g.s.Range(lo, hi); i < n && g.size < g.max; i++ {
		b.List = append(b.List, g.stmt(d))
	}
	return b
}

// nested generates a statement in which a case does not belong to the switch.
func (g *flowGen) nested(f func() *Stmt) *Stmt {
	g.inSw = append(g.inSw, nil)
	r := f()
	g.inSw = g.inSw[:len(g.inSw)-1]
	return r
}

func (g *flowGen) stmt(d int) *Stmt {
	s := g.s
	g.size++
	g.pos++
	pos := g.pos
	if d <= 0 || g.size > g.max {
		switch s.Weighted(8, 2, 2, 2, 1) {
		case 1:
			return null()
		case 2:
			return g.goTo(pos)
		case 3:
			return sx(asg(pick(s, []string{"=", "=+"}), name("x"), num(int64(s.N(4)))))
		case 4:
			return g.ret()
		}
		return g.log()
	}
	swW := 0
	if g.sw {
		swW = 5
	}
	caseW := 0
	if n := len(g.inSw); n > 0 && g.inSw[n-1] != nil {
		caseW = 12
	}
	autoW := 0
	if g.autos {
		autoW = 3
	}
	switch s.Weighted(7, 7, 4, 3, 4, 3, 1, 1, swW, caseW, autoW) {
	case 0:
		return g.log()
	case 1:
		c := g.ifCond()
		var e *Stmt
		b := g.nested(func() *Stmt { return g.stmt(d - 1) })
		if s.P(1, 2) {
			e = g.nested(func() *Stmt { return g.stmt(d - 1) })
		}
		return ifs(c, b, e)
	case 2:
		return g.loop(d)
	case 3:
		return g.block(d-1, 0, 4)
	case 4:
		n := fmt.Sprintf("l%d", len(g.labels))
		g.labels = append(g.labels, flowLabel{n, pos})
		return label(n, g.stmt(d-1))
	case 5:
		return g.goTo(pos)
	case 6:
		return g.ret()
	case 7:
		return null()
	case 8:
		return g.switchS(d)
	case 9:
		m := g.inSw[len(g.inSw)-1]
		st := &Stmt{K: SCase}
		for try := 0; ; try++ {
			st.N, st.Text = g.caseConst()
			if !m[st.N] {
				break
			}
			if try > 10 {
				return g.log()
			}
		}
		m[st.N] = true
		st.Body = g.stmt(d - 1)
		return st
	default:
		g.nauto++
		n := fmt.Sprintf("y%d", g.nauto)
		return block(autoS(n), rlog(name(n)), sx(asg("=", name(n), num(int64(g.nauto)))), rlog(name(n)))
	}
}

func (g *flowGen) loop(d int) *Stmt {
	s := g.s
	g.hasLoop = true
	switch s.Weighted(6, 2, 2, 1) {
	case 1:
		return block(sx(asg("=", name("n"), num(int64(s.Range(1, 3))))),
			g.nested(func() *Stmt { return while(bin(">", post("--", name("n")), num(0)), g.stmt(d-1)) }))
	case 2: // left by goto only
		n := fmt.Sprintf("l%d", len(g.labels))
		g.labels = append(g.labels, flowLabel{n, g.pos + 1000000}) // forward for now
		at := len(g.labels) - 1
		b := g.nested(func() *Stmt {
			exit := goTo(n)
			if s.P(1, 5) {
				exit = ret(num(int64(s.N(50))))
			}
			l := block(ifs(un("!", g.c()), exit, nil))
			l.List = append(l.List, g.block(d-1, 1, 3).List...)
			return while(constOf(s, pick(s, truthy)), l)
		})
		g.pos++
		g.labels[at].pos = g.pos
		return block(b, label(n, g.log()))
	case 3: // entered by a goto, if at all
		z := pick(s, []*Expr{num(0), &Expr{K: ENum, Text: "00"}, paren(num(0)), {K: EChr, Text: "''"}})
		return g.nested(func() *Stmt { return while(z, g.stmt(d-1)) })
	}
	c := g.cond()
	return g.nested(func() *Stmt { return while(c, g.stmt(d-1)) })
}

func (g *flowGen) ret() *Stmt {
	s := g.s
	// most returns are conditional, or little is executed
	var r *Stmt
	if s.Bool() {
		g.k++
		r = ret(num(int64(g.k)))
	} else if s.Bool() {
		r = ret(nil)
	} else {
		r = ret(bin("+", name("x"), num(int64(s.N(100)))))
	}
	if s.P(4, 5) {
		return ifs(bin("==", g.c(), num(2)), r, nil)
	}
	return r
}

func (g *flowGen) goTo(pos int) *Stmt {
	s := g.s
	g.hasGoto = true
	st := goTo("")
	gt := &flowGoto{s: st, pos: pos, guarded: s.P(3, 4)}
	g.gotos = append(g.gotos, gt)
	if gt.guarded {
		return ifs(g.cond0(), st, nil)
	}
	return st
}

// cond0 is false when the list of values is used up.
func (g *flowGen) cond0() *Expr {
	switch g.s.Weighted(6, 1, 1) {
	case 1:
		return bin("!=", g.c(), num(0))
	case 2:
		return bin(">", g.c(), num(0))
	}
	return g.c()
}

// resolve chooses the targets.
func (g *flowGen) resolve() {
	for _, gt := range g.gotos {
		var ok []string
		for _, l := range g.labels {
			if gt.guarded || l.pos > gt.pos {
				ok = append(ok, l.name)
			}
		}
		if len(ok) == 0 {
			*gt.s = *null()
			continue
		}
		gt.s.Name = pick(g.s, ok)
	}
}

func (g *flowGen) caseConst() (int64, string) {
	s := g.s
	switch s.Weighted(8, 2, 2, 2, 2) {
	case 1:
		v := int64(s.N(70))
		return v, "0" + octal(v)
	case 2:
		b := []byte{byte(s.Range('a', 'f'))}
		for s.P(1, 3) && len(b) < 8 {
			b = append(b, byte(s.Range('a', 'f')))
		}
		return chrVal(b), quoteB(b, '\'')
	case 3:
		v := pick(s, []int64{1 << 32, 1<<32 + 1, 1<<63 - 1, 1 << 31, 256, 257, 65537, 1 << 40})
		return v, ""
	case 4:
		v := s.Word()
		if v < 0 {
			if s.Bool() {
				return v, "0" + octal(v)
			}
			v = ^v
		}
		return v, ""
	}
	return int64(s.N(8)), ""
}

func (g *flowGen) switchS(d int) *Stmt {
	s := g.s
	g.swSeen++
	m := map[int64]bool{}
	sw1 := &Stmt{K: SSwitch}
	g.inSw = append(g.inSw, m)
	switch s.Weighted(10, 1) {
	case 0:
		sw1.Body = g.block(d-1, 1, 7)
	case 1:
		sw1.Body = g.stmt(d - 1)
	}
	g.inSw = g.inSw[:len(g.inSw)-1]
	// the selector: often one of the constants, or close to it
	var vals []int64
	for _, v := range sortedKeys(m) {
		vals = append(vals, v)
	}
	sel := func() int64 {
		if len(vals) > 0 && s.P(5, 6) {
			v := pick(s, vals)
			switch s.Weighted(10, 1, 1, 1) {
			case 1:
				v ^= 1 << uint(s.N(64))
			case 2:
				v = -v
			case 3:
				v += 1 << 32
			}
			return v
		}
		return s.Word()
	}
	switch s.Weighted(3, 3, 2) {
	case 0:
		sw1.A = trace(800+g.swSeen, num(sel()))
	case 1:
		sw1.A = cond(g.c(), num(sel()), num(sel()))
	default:
		sw1.A = asg("=", name("x"), cond(g.c(), num(sel()), cond(g.c(), num(sel()), num(sel()))))
	}
	if s.P(1, 8) {
		sw1.Text = "bare"
		sw1.A = trace(800+g.swSeen, num(sel()))
	}
	return sw1
}

func sortedKeys(m map[int64]bool) []int64 {
	var k []int64
	for v := range m {
		k = append(k, v)
	}
	for i := range k {
		for j := i + 1; j < len(k); j++ {
			if k[j] < k[i] {
				k[i], k[j] = k[j], k[i]
			}
		}
	}
	return k
}

func (g *flowGen) unit(d int, class ...string) *Unit {
	s, pfx := g.s, g.pfx
	body := g.block(d, 2, 7)
	g.resolve()
	body.List = append([]*Stmt{autoS("x", "n")}, body.List...)
	body.List = append(body.List, rlog(name("x")))
	n := s.Range(4, 30)
	cv := &Decl{Name: pfx + "cv", Vec: true, Size: int64(n + 1), SizeT: fmt.Sprint(n + 1)}
	for i := 0; i < n; i++ {
		v := int64(0)
		if s.P(3, 5) {
			v = pick(s, truthy)
		}
		cv.Init = append(cv.Init, IVal{N: v})
	}
	ci := name(pfx + "ci")
	cf := fn(pfx+"c", nil, block(extrn(pfx+"cv", pfx+"ci"),
		ret(index(name(pfx+"cv"), cond(bin("<", ci, num(int64(n))), post("++", ci), num(int64(n)))))))
	f := fn(pfx+"f", []string{"p"}, body)
	e := fn(pfx+"e", nil, block(rlog(call(pfx+"f", num(int64(s.N(3))))), rlog(call(pfx+"f", num(1)))))
	ds := []*Decl{f, e, cf, cv, {Name: pfx + "ci"}}
	shuffle(s, ds)
	if g.hasLoop {
		class = append(class, "loop")
	}
	if g.hasGoto {
		class = append(class, "goto")
	}
	if g.swSeen > 1 {
		class = append(class, "switches>1")
	}
	return &Unit{Decls: [][]*Decl{ds}, Entry: pfx + "e", Class: class, Triv: !g.hasLoop && !g.hasGoto && g.swSeen == 0 && g.size < 4}
}

func genFlowUnit(s *Src, pfx string) *Unit {
	g := &flowGen{s: s, pfx: pfx, max: s.Range(6, 40), autos: s.P(1, 4)}
	return g.unit(s.Range(2, 6), "flow")
}

func genSwitchUnit(s *Src, pfx string) *Unit {
	g := &flowGen{s: s, pfx: pfx, max: s.Range(8, 40), sw: true, autos: s.P(1, 6)}
	return g.unit(s.Range(3, 6), "switch-flow")
}

// genSelectUnit: one switch with many cases, called with many values.
func genSelectUnit(s *Src, pfx string) *Unit {
	g := &flowGen{s: s, pfx: pfx, max: 60, sw: true}
	m := map[int64]bool{}
	sw1 := &Stmt{K: SSwitch, A: name("v"), Body: block()}
	var vals []int64
	add := func(x *Stmt) { sw1.Body.List = append(sw1.Body.List, x) }
	n := s.Weighted(1, 6, 6, 3) * 4
	n += s.N(4)
	dense := s.P(1, 3)
	base := s.Word()
	if base < 0 {
		base = ^base
	}
	if s.P(1, 4) {
		add(g.log())
	}
	for i := 0; i < n; i++ {
		st := &Stmt{K: SCase}
		if dense {
			st.N = int64(uint64(base)+uint64(s.N(2*n))) & (1<<63 - 1)
		} else {
			st.N, st.Text = g.caseConst()
		}
		if m[st.N] {
			continue
		}
		m[st.N] = true
		vals = append(vals, st.N)
		switch s.Weighted(6, 2, 2, 1) {
		case 0:
			st.Body = g.log()
		case 1:
			st.Body = null()
		case 2:
			st.Body = block(g.log(), goTo("out"))
		case 3:
			st.Body = ret(num(int64(1000 + i)))
		}
		if s.P(1, 10) {
			st = block(st)
		}
		if s.P(1, 10) {
			st = label(fmt.Sprintf("lab%d", i), st)
		}
		add(st)
		if s.P(1, 3) {
			add(g.log())
		}
		if s.P(1, 4) {
			add(goTo("out"))
		}
	}
	f := fn(pfx+"f", []string{"v"}, block(sw1, g.log(), label("out", rlog(num(999)))))
	eb := block()
	for i, k := 0, s.Range(3, 8); i < k; i++ {
		v := s.Word()
		if len(vals) > 0 && s.P(4, 5) {
			v = pick(s, vals)
			switch s.Weighted(10, 1, 1, 1, 1) {
			case 1:
				v ^= 1 << uint(s.N(64))
			case 2:
				v = -v
			case 3:
				v += 1 << 32
			case 4:
				v++
			}
		}
		eb.List = append(eb.List, rlog(call(pfx+"f", num(v))))
	}
	ds := []*Decl{f, fn(pfx+"e", nil, eb)}
	shuffle(s, ds)
	return &Unit{Decls: [][]*Decl{ds}, Entry: pfx + "e", Class: []string{fmt.Sprintf("cases:%d+", len(vals)/4*4)}}
}
