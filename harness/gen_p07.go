package main

import (
	"fmt"
	"strings"
)

// P07: external variables.

type extVar struct {
	d     *Decl
	words int64 // that can be accessed
	undef bool
}

func (v extVar) at(i *Expr) *Expr {
	if v.d.Vec {
		return index(name(v.d.Name), i)
	}
	return index(un("&", name(v.d.Name)), i)
}

func genIVal(s *Src) IVal {
	switch s.Weighted(6, 2, 2, 2) {
	case 1:
		v := s.Word()
		if v < 0 {
			v = ^v
		}
		return IVal{N: v, Text: "0" + octal(v)}
	case 2:
		b := randBytes(s, s.Range(1, 8), true)
		return IVal{N: chrVal(b), Text: spell(s, b, '\'')}
	case 3:
		b := randBytes(s, s.N(12), false)
		return IVal{IsS: true, Str: b, Text: spell(s, b, '"')}
	}
	v := s.Word()
	if v == -1<<63 {
		v++
	}
	return IVal{N: v}
}

func genExtVar(s *Src, n string) extVar {
	d := &Decl{Name: n}
	switch s.Weighted(2, 3, 2, 3, 2, 2) {
	case 0: // x;
	case 1: // x v;
		d.Init = []IVal{genIVal(s)}
	case 2: // x v, v, v;
		for i, m := 0, s.Range(2, 6); i < m; i++ {
			d.Init = append(d.Init, genIVal(s))
		}
	case 3: // x[n] v, ...;
		d.Vec = true
		d.Size = int64(s.Range(1, 9))
		d.SizeT = fmt.Sprint(d.Size)
		if s.P(1, 4) {
			d.Size = int64(s.Range(8, 20))
			d.SizeT = "0" + octal(d.Size)
		}
		for i, m := 0, s.N(8); i < m; i++ {
			d.Init = append(d.Init, genIVal(s))
		}
	case 4: // x[] v, ...;
		d.Vec = true
		for i, m := 0, s.N(6); i < m; i++ {
			d.Init = append(d.Init, genIVal(s))
		}
		if s.P(1, 4) {
			d.SizeT = "0"
		}
	case 5: // x[n];
		d.Vec = true
		d.Size = int64(s.Range(1, 12))
		if s.P(1, 6) {
			d.Size = int64(s.Range(12, 600))
		}
		d.SizeT = fmt.Sprint(d.Size)
	}
	v := extVar{d: d, words: int64(len(d.Init))}
	if d.Vec && d.Size > v.words {
		v.words = d.Size
	}
	if v.words == 0 {
		v.words = 1
	}
	return v
}

func genExtUnit(files int) func(s *Src, pfx string) *Unit {
	return func(s *Src, pfx string) *Unit {
		fs := make([][]*Decl, files)
		put := func(f int, d *Decl) { fs[f] = append(fs[f], d) }
		class := []string{"extern"}
		var vars []extVar
		for i, n := 0, s.Range(1, 5); i < n; i++ {
			v := genExtVar(s, fmt.Sprintf("%sx%d", pfx, i))
			if s.P(1, 8) { // defined nowhere: 0
				v = extVar{d: &Decl{Name: v.d.Name}, words: 1, undef: true}
				class = append(class, "undefined-extrn")
			}
			vars = append(vars, v)
		}
		// accessors
		type acc struct {
			name string
			set  bool
			v    int
		}
		var accs []acc
		words := func(v extVar) *Expr { return num(v.words) }
		_ = words
		for i := range vars {
			v := vars[i]
			for j, n := 0, s.Range(1, 2); j < n; j++ {
				f := s.N(files)
				g := fmt.Sprintf("%sget%d_%d", pfx, i, j)
				st := fmt.Sprintf("%sset%d_%d", pfx, i, j)
				others := []string{v.d.Name}
				if s.P(1, 3) {
					others = append(others, pick(s, vars).d.Name)
					if others[1] == others[0] {
						others = others[:1]
					}
				}
				shuffle(s, others)
				var ex *Stmt = extrn(others...)
				gb := block(ex, ret(v.at(name("i"))))
				if s.P(1, 4) { // declared in an inner block, valid from there on
					gb = block(block(ex), ret(v.at(name("i"))))
				}
				put(f, fn(g, []string{"i"}, gb))
				accs = append(accs, acc{g, false, i})
				f = s.N(files)
				sb := block(extrn(v.d.Name), sx(asg(pick(s, []string{"=", "=", "=+"}), v.at(name("i")), name("n"))), ret(v.at(name("i"))))
				put(f, fn(st, []string{"i", "n"}, sb))
				accs = append(accs, acc{st, true, i})
			}
		}
		// the entry: everything has its initial value; then changes
		b := block()
		showAll := func() {
			for i, v := range vars {
				for w := int64(0); w < v.words; w++ {
					if v.words > 20 && w > 2 && w < v.words-2 {
						continue
					}
					if w < int64(len(v.d.Init)) && v.d.Init[w].IsS {
						continue
					}
					b.List = append(b.List, rlog(call(fmt.Sprintf("%sget%d_0", pfx, i), num(w))))
				}
			}
		}
		showAll()
		for i, v := range vars {
			for w, iv := range v.d.Init {
				if iv.IsS {
					for k := 0; k <= len(iv.Str); k++ {
						b.List = append(b.List, rlog(call("char", call(fmt.Sprintf("%sget%d_0", pfx, i), num(int64(w))), num(int64(k)))))
					}
				}
			}
		}
		for k, n := 0, s.Range(1, 8); k < n; k++ {
			a := pick(s, accs)
			v := vars[a.v]
			w := int64(s.N(int(v.words)))
			if w < int64(len(v.d.Init)) && v.d.Init[w].IsS {
				continue
			}
			if a.set {
				b.List = append(b.List, rlog(call(a.name, num(w), wnum(s))))
			} else {
				b.List = append(b.List, rlog(call(a.name, num(w))))
			}
		}
		showAll()
		// a vector is a cell which can be changed
		if v := pick(s, vars); v.d.Vec && s.P(1, 3) {
			b.List = append([]*Stmt{extrn(v.d.Name), autoS("t")}, b.List...)
			b.List = append(b.List, sx(asg("=", name("t"), name(v.d.Name))), sx(asg("=", name(v.d.Name), num(99))),
				rlog(name(v.d.Name)), sx(asg("=", name(v.d.Name), name("t"))), rlog(bin("-", un("&", index(name(v.d.Name), num(v.words-1))), name("t"))))
			class = append(class, "cell")
		}
		put(s.N(files), fn(pfx+"e", nil, b))
		for i := range fs {
			shuffle(s, fs[i])
		}
		// definitions, some of them preceded by another one of the same name
		for _, v := range vars {
			if v.undef {
				continue
			}
			f := s.N(files)
			at := s.N(len(fs[f]) + 1)
			fs[f] = append(fs[f][:at], append([]*Decl{v.d}, fs[f][at:]...)...)
			if s.P(1, 6) {
				old := genExtVar(s, v.d.Name).d
				at2 := s.N(at + 1)
				fs[f] = append(fs[f][:at2], append([]*Decl{old}, fs[f][at2:]...)...)
				class = append(class, "redefined")
			}
		}
		return &Unit{Decls: fs, Entry: pfx + "e", Class: class}
	}
}

// P08: constants and strings.

// randBytes makes bytes for a literal.
func randBytes(s *Src, n int, nonzero bool) []byte {
	b := make([]byte, n)
	mode := s.N(4)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(s.Range('a', 'z'))
		case 1:
			b[i] = byte(s.Range(' ', '~'))
		case 2:
			b[i] = pick(s, []byte("*'\"\n\t\r{}(%\\/*a0e"))
		default:
			b[i] = byte(s.N(256))
		}
		if b[i] == 0 && nonzero && i == 0 {
			b[i] = 1
		}
	}
	return b
}

// spell writes bytes as a literal, with a random choice among the spellings.
func spell(s *Src, b []byte, q byte) string {
	var sb strings.Builder
	sb.WriteByte(q)
	for _, c := range b {
		esc := ""
		must := false
		switch c {
		case 0:
			esc, must = "0", true
			if s.Bool() {
				esc = "e"
			}
		case '*':
			esc, must = "*", true
		case '{':
			esc = "("
		case '}':
			esc = ")"
		case '\t':
			esc = "t"
		case '\n':
			esc = "n"
		case '\r':
			esc = "r"
		case '\'', '"':
			esc, must = string(rune(c)), c == q
		}
		if esc != "" && (must || s.Bool()) {
			sb.WriteByte('*')
			sb.WriteString(esc)
		} else {
			sb.WriteByte(c)
		}
	}
	sb.WriteByte(q)
	return sb.String()
}

// constant makes a constant and its value; max limits the value if not 0.
func constant(s *Src, max uint64) (string, int64) {
	for {
		switch s.Weighted(4, 4, 3, 4) {
		case 0:
			v := uint64(s.Word())
			if max > 0 {
				v = s.U(max) + 1
			}
			v &= 1<<63 - 1
			return fmt.Sprint(v), int64(v)
		case 1: // octal
			v := uint64(s.Word())
			if max > 0 {
				v = s.U(max) + 1
			}
			return strings.Repeat("0", s.Range(1, 3)) + octal(int64(v)), int64(v)
		case 2: // digits 8 and 9 in an octal constant
			n := s.Range(1, 7)
			if max > 0 {
				n = s.Range(1, 2)
			}
			t, v := "0", uint64(0)
			for i := 0; i < n; i++ {
				d := s.N(10)
				t += fmt.Sprint(d)
				v = v*8 + uint64(d)
			}
			if max > 0 && (v == 0 || v > max) {
				continue
			}
			return t, int64(v)
		default:
			n := s.Range(1, 8)
			if max > 0 {
				n = 1
			}
			b := randBytes(s, n, false)
			v := chrVal(b)
			if max > 0 && (v <= 0 || uint64(v) > max) {
				continue
			}
			return spell(s, b, '\''), v
		}
	}
}

func constExpr(t string, v int64) *Expr {
	if t[0] == '\'' {
		return &Expr{K: EChr, N: v, Text: t}
	}
	return &Expr{K: ENum, N: v, Text: t}
}

func genConstUnit(s *Src, pfx string) *Unit {
	var ds []*Decl
	b := block(autoS("x"))
	class := []string{"constants"}
	for i, n := 0, s.Range(2, 8); i < n; i++ {
		switch s.Weighted(6, 3, 3, 3) {
		case 0:
			t, v := constant(s, 0)
			b.List = append(b.List, rlog(constExpr(t, v)))
		case 1:
			t, v := constant(s, 0)
			b.List = append(b.List, sx(asg("=", name("x"), num(v))),
				sw(name("x"), block(&Stmt{K: SCase, N: v, Text: t, Body: rlog(num(int64(i)))})))
			class = append(class, "case")
		case 2: // initial values
			g := fmt.Sprintf("%sg%d", pfx, i)
			t, v := constant(s, 0)
			iv := IVal{N: v, Text: t}
			if t[0] != '\'' && s.P(1, 3) && v > 0 {
				iv = IVal{N: -v, Text: "-" + t}
			}
			d := &Decl{Name: g, Init: []IVal{iv}}
			if s.Bool() {
				d.Vec = true
			}
			ds = append(ds, d)
			b.List = append(b.List, extrn(g))
			if d.Vec {
				b.List = append(b.List, rlog(index(name(g), num(0))))
			} else {
				b.List = append(b.List, rlog(name(g)))
			}
			class = append(class, "ival")
		case 3: // sizes: the words must not overlap their neighbours
			t, v := constant(s, 70)
			l, w, r := fmt.Sprintf("l%d", i), fmt.Sprintf("w%d", i), fmt.Sprintf("r%d", i)
			if s.Bool() && t[0] != '\'' {
				l, w, r = pfx+l, pfx+w, pfx+r
				b.List = append(b.List, extrn(l, w, r))
				ds = append(ds, &Decl{Name: l, Init: []IVal{{N: 11}}}, &Decl{Name: w, Vec: true, Size: v, SizeT: t}, &Decl{Name: r, Init: []IVal{{N: 12}}})
			} else {
				b.List = append(b.List, &Stmt{K: SAuto, Vars: []VarDecl{{Name: l}, {Name: w, Vec: true, Size: v, Text: t}, {Name: r}}},
					sx(asg("=", name(l), num(11))), sx(asg("=", name(r), num(12))))
			}
			b.List = append(b.List, sx(asg("=", name("x"), num(0))),
				while(bin("<", name("x"), num(v)), sx(asg("=", index(name(w), post("++", name("x"))), num(-1)))),
				rlog(name(l)), rlog(name(r)), rlog(index(name(w), num(v-1))))
			class = append(class, "size")
		}
	}
	ds = append([]*Decl{fn(pfx+"e", nil, b)}, ds...)
	return &Unit{Decls: [][]*Decl{ds}, Entry: pfx + "e", Class: class}
}

func genStringUnit(s *Src, pfx string) *Unit {
	var ds []*Decl
	b := block(autoS("p", "i"))
	class := []string{"strings"}
	type kept struct {
		v *Expr
		b []byte
	}
	var ks []kept
	show := func(e *Expr, x []byte) {
		if s.Bool() {
			b.List = append(b.List, sx(call("nwrite", num(1), e, num(int64(len(x)+1)))))
			// keep the log aligned to words
			if r := (len(x) + 1) % 8; r != 0 {
				b.List = append(b.List, sx(call("nwrite", num(1), str([]byte("........")), num(int64(8-r)))))
			}
			return
		}
		for i := 0; i <= len(x); i++ {
			if len(x) > 40 && i > 10 && i < len(x)-10 {
				continue
			}
			b.List = append(b.List, rlog(call("char", e, num(int64(i)))))
		}
	}
	for i, n := 0, s.Range(1, 5); i < n; i++ {
		m := s.N(20)
		if s.P(1, 10) {
			m = s.Range(100, 1500)
			class = append(class, "long-string")
		}
		x := randBytes(s, m, false)
		lit := &Expr{K: EStr, Bytes: x, Text: spell(s, x, '"')}
		switch s.Weighted(3, 3, 2) {
		case 0:
			show(lit, x)
		case 1:
			v := fmt.Sprintf("s%d", i)
			b.List = append(b.List, autoS(v), sx(asg("=", name(v), lit)))
			ks = append(ks, kept{name(v), x})
		case 2:
			g := fmt.Sprintf("%ss%d", pfx, i)
			ds = append(ds, &Decl{Name: g, Init: []IVal{{IsS: true, Str: x, Text: lit.Text}}})
			b.List = append(b.List, extrn(g))
			ks = append(ks, kept{name(g), x})
		}
	}
	for _, k := range ks {
		show(k.v, k.b)
	}
	ds = append([]*Decl{fn(pfx+"e", nil, b)}, ds...)
	shuffle(s, ds)
	return &Unit{Decls: [][]*Decl{ds}, Entry: pfx + "e", Class: class}
}
