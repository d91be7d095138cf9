package main

// P12: invalid programs.

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// unitPool gives valid program parts of all kinds.
var unitPool = []UnitGen{
	{"expr", 2, genExprUnit}, {"chain", 1, genTripleUnit}, {"assign", 2, genAssignUnit}, {"step", 1, genPointerStepUnit}, {"order", 1, genOrderUnit},
	{"flow", 3, genFlowUnit}, {"switchflow", 3, genSwitchUnit}, {"select", 1, genSelectUnit}, {"call", 2, genCallUnit}, {"recursion", 1, genRecUnit},
	{"autos", 2, genAutoUnit}, {"autorec", 1, genAutoRecUnit}, {"ext", 2, genExtUnit(1)}, {"constants", 2, genConstUnit}, {"strings", 2, genStringUnit},
	{"memory", 2, genMemUnit}, {"list", 1, genListUnit}, {"idiom", 3, corpusUnit("")},
}

func poolUnit(s *Src, pfx string) *Unit {
	var w []int
	for _, g := range unitPool {
		w = append(w, g.Weight)
	}
	g := unitPool[s.Weighted(w...)]
	u := g.Gen(s, pfx)
	u.Name = g.Name
	return u
}

// poolProgram makes the definitions of a valid program of a few units.  The
// outcome is not computed.
func poolProgram(s *Src, lo, hi int) (ds []*Decl, entries []string) {
	ds = append(ds, helperDecls()...)
	for k, n := 0, s.Range(lo, hi); k < n; k++ {
		u := poolUnit(s, fmt.Sprintf("u%d_", k))
		for _, f := range u.Decls {
			ds = append(ds, f...)
		}
		entries = append(entries, u.Entry)
	}
	return ds, entries
}

// ---- walking ----

// stmtLists gives every list of statements of a function.
func stmtLists(d *Decl) []*[]*Stmt {
	var out []*[]*Stmt
	if d.Body.K != SBlock {
		d.Body = block(d.Body)
	}
	var walk func(st *Stmt)
	walk = func(st *Stmt) {
		if st == nil {
			return
		}
		if st.K == SBlock {
			out = append(out, &st.List)
			for _, x := range st.List {
				walk(x)
			}
			return
		}
		walk(st.Body)
		walk(st.Else)
	}
	walk(d.Body)
	return out
}

// rvalues gives every place of an expression where any value may stand.
func rvalues(st *Stmt) []**Expr {
	var out []**Expr
	var ex func(e **Expr)
	ex = func(e **Expr) {
		x := *e
		if x == nil {
			return
		}
		out = append(out, e)
		switch x.K {
		case EUn:
			if x.Op == "&" {
				lvalues(x.A, ex)
			} else {
				ex(&x.A)
			}
		case EPre, EPost:
			lvalues(x.A, ex)
		case EBin:
			ex(&x.A)
			ex(&x.B)
		case EAssign:
			lvalues(x.A, ex)
			ex(&x.B)
		case ECond:
			ex(&x.A)
			ex(&x.B)
			ex(&x.C)
		case EIndex:
			ex(&x.A)
			ex(&x.B)
		case ECall:
			for i := range x.Args {
				ex(&x.Args[i])
			}
		case EParen:
			ex(&x.A)
		}
	}
	var walk func(st *Stmt)
	walk = func(st *Stmt) {
		if st == nil {
			return
		}
		if st.A != nil {
			ex(&st.A)
		}
		for _, x := range st.List {
			walk(x)
		}
		walk(st.Body)
		walk(st.Else)
	}
	walk(st)
	return out
}

// lvalues visits the values inside an lvalue.
func lvalues(x *Expr, ex func(e **Expr)) {
	switch x.K {
	case EUn: // *
		if x.Op == "*" {
			ex(&x.A)
		}
	case EPre:
		lvalues(x.A, ex)
	case EIndex:
		ex(&x.A)
		ex(&x.B)
	}
}

func funcsOf(ds []*Decl) []*Decl {
	var fs []*Decl
	for _, d := range ds {
		if d.IsFunc {
			fs = append(fs, d)
		}
	}
	return fs
}

func rawS(t string) *Stmt { return &Stmt{K: SRaw, Text: t} }
func rawE(t string) *Expr { return &Expr{K: ERaw, Text: t} }

// plantStmt puts a statement at a random place of a function.
func plantStmt(s *Src, d *Decl, st *Stmt) {
	l := pick(s, stmtLists(d))
	i := s.N(len(*l) + 1)
	*l = append((*l)[:i:i], append([]*Stmt{st}, (*l)[i:]...)...)
}

// plantExpr puts an expression at a random place of a function, or makes a
// statement of it.
func plantExpr(s *Src, d *Decl, t string) string {
	rs := rvalues(d.Body)
	if len(rs) > 0 && s.P(2, 3) {
		*pick(s, rs) = rawE("(" + t + ")")
		return "in an expression"
	}
	k := s.N(5)
	if k > 2 && containsS([]string{"", "{}", "return", "else"}, t) { // which may be statements
		k = 0
	}
	switch k {
	case 0:
		plantStmt(s, d, rawS("if ("+t+") ;"))
	case 1:
		plantStmt(s, d, rawS("while ("+t+") ;"))
	case 2:
		plantStmt(s, d, rawS("return("+t+");"))
	default:
		plantStmt(s, d, rawS(t+";"))
	}
	return "as a statement"
}

// ---- errors ----

type errClass struct {
	name   string
	weight int
	// plant breaks the definitions and gives the text of the error, or "" when
	// it does not apply; behind a zero byte may follow what the message must name
	plant func(s *Src, ds *[]*Decl, fs []*Decl) string
}

func exprErr(name string, w int, texts ...string) errClass {
	return errClass{name, w, func(s *Src, ds *[]*Decl, fs []*Decl) string {
		t := pick(s, texts)
		d := pick(s, fs)
		// zzv is a variable, zzf a function of the program
		needV := strings.Contains(t, "zzv")
		if needV {
			stmtLists(d)
			switch s.N(3) {
			case 0:
				d.Body.List = append([]*Stmt{autoS("zzv")}, d.Body.List...)
			case 1:
				d.Body.List = append([]*Stmt{extrn("zzv")}, d.Body.List...)
			case 2:
				d.Body.List = append([]*Stmt{autoV("zzv", 4)}, d.Body.List...)
			}
		}
		n := len(d.Body.List)
		where := plantExpr(s, d, t)
		if needV && len(d.Body.List) > n && d.Body.List[0].K == SRaw {
			// keep the declaration first
			d.Body.List[0], d.Body.List[1] = d.Body.List[1], d.Body.List[0]
		}
		return t + " " + where
	}}
}

func stmtErr(name string, w int, texts ...string) errClass {
	return errClass{name, w, func(s *Src, ds *[]*Decl, fs []*Decl) string {
		t := pick(s, texts)
		plantStmt(s, pick(s, fs), rawS(t))
		return t
	}}
}

func topErr(name string, w int, texts ...string) errClass {
	return errClass{name, w, func(s *Src, ds *[]*Decl, fs []*Decl) string {
		t := pick(s, texts)
		i := s.N(len(*ds) + 1)
		l := append([]*Decl(nil), (*ds)[:i]...)
		l = append(l, &Decl{Name: t, Raw: true})
		*ds = append(l, (*ds)[i:]...)
		return t
	}}
}

func num2(s *Src) string {
	return pick(s, []string{"0", "1", "7", "12345", "010", "'a'", "9223372036854775807", "'abcdefgh'"})
}

var nonLvalues = []string{"5", "'c'", "\"s\"", "zzf()", "zzf(1, 2)", "(zzv)", "(zzv = 1)", "(1 ? zzv : zzv)", "zzv++", "zzv--", "(zzv + 1)", "(-zzv)", "(*zzv)", "(zzv[0])", "zzf(zzv)", "(!zzv)"}

var errClasses = func() []errClass {
	var l []errClass
	var as []string
	for _, v := range nonLvalues {
		for _, o := range asgOps {
			as = append(as, v+" "+o+" 2")
		}
	}
	for _, o := range asgOps {
		as = append(as, "-zzv "+o+" 3", "!zzv "+o+" 3", "&zzv "+o+" 3", "zzv + 1 "+o+" 3", "1 + zzv "+o+" 3", "zzv = zzv < 2 "+o+" 3", "zzv * *zzv "+o+" 1", "zzv == zzv "+o+" 1", "zzv ? zzv : zzv "+o+" 1", "zzv = 5 "+o+" 1", "zzf "+o+" 2")
	}
	l = append(l, exprErr("assignment-target", 6, as...))
	var inc []string
	for _, v := range nonLvalues {
		inc = append(inc, "++"+v, "--"+v, v+"++", v+"--", "zzv + ++"+v)
	}
	inc = append(inc, "++-zzv", "--!zzv", "++&zzv", "--zzv--", "++zzv++", "zzf++", "++zzf", "&zzv++")
	l = append(l, exprErr("increment-target", 4, inc...))
	var adr []string
	for _, v := range nonLvalues {
		adr = append(adr, "&"+v, "zzv = 1 + &"+v, "zzv[&"+v+"]")
	}
	adr = append(adr, "&-zzv", "&!zzv", "&&zzv", "& &zzv")
	l = append(l, exprErr("address-of-nonlvalue", 4, adr...))
	l = append(l, errClass{"undeclared-target", 5, func(s *Src, ds *[]*Decl, fs []*Decl) string {
		n := pick(s, []string{"zzu", "u", "x99", "undeclared", "_"})
		// the name may be known elsewhere
		switch s.N(4) {
		case 0:
			*ds = append([]*Decl{{Name: n, Init: []IVal{{N: 5}}}}, *ds...)
		case 1:
			*ds = append(*ds, &Decl{Name: n})
		case 2:
			*ds = append([]*Decl{fn("zzo", nil, block(extrn(n), sx(asg("=", name(n), num(1)))))}, *ds...)
		}
		o := pick(s, asgOps)
		t := pick(s, []string{n + " " + o + " 1", "1 + " + "(" + n + " " + o + " 1)", n + "++", "--" + n, "&" + n})
		return t + " " + plantExpr(s, pick(s, fs), t)
	}})
	l = append(l, errClass{"external-without-extrn", 5, func(s *Src, ds *[]*Decl, fs []*Decl) string {
		g := &Decl{Name: "zzg", Init: []IVal{{N: 5}}}
		if s.Bool() {
			g.Vec = true
		}
		if s.P(2, 3) {
			*ds = append([]*Decl{g}, *ds...)
		} else {
			*ds = append([]*Decl{fn("zzo", nil, block(extrn("zzg"), sx(asg("=", name("zzg"), num(1)))))}, *ds...)
			if s.Bool() {
				*ds = append(*ds, g)
			}
		}
		t := pick(s, []string{"zzg", "zzg + 1", "zzg[1]", "*zzg", "zzg = 2", "zzg()", "zzg(1)", "&zzg", "zzg++", "-zzg"})
		return t + " " + plantExpr(s, pick(s, fs), t)
	}})
	l = append(l, errClass{"duplicate-auto", 4, func(s *Src, ds *[]*Decl, fs []*Decl) string {
		d := pick(s, fs)
		stmtLists(d)
		one := pick(s, []string{"zzd", "zzd[3]", "zza, zzd", "zzd, zzb", "zzd[], zzc"})
		two := pick(s, []string{"zzd", "zzd[7]", "zzd, zzx", "zzy[2], zzd"})
		switch s.N(3) {
		case 0:
			t := "auto " + pick(s, []string{"zzd, zzd", "zzd, zze, zzd", "zzd[2], zzd", "zzd, zzd[2]", "zzd[1], zzd[2]"}) + ";"
			if s.P(1, 3) { // far from each other
				t = "auto zzd"
				for i, n := 0, size(s, 1, 10, 60); i < n; i++ {
					t += fmt.Sprintf(", zk%d%s", i, pick(s, []string{"", "", "[2]"}))
				}
				t += ", zzd;"
			}
			plantStmt(s, d, rawS(t))
			return t + "\x00'zzd'"
		case 1:
			if len(d.Params) > 0 {
				n := pick(s, d.Params)
				t := "auto " + pick(s, []string{"zza, ", "", "zza[3], "}) + n + pick(s, []string{"", "[2]", ", zzb"}) + ";"
				plantStmt(s, d, rawS(t))
				return t + "\x00'" + n + "'"
			}
		}
		plantStmt(s, d, rawS("auto "+one+";"))
		plantStmt(s, d, rawS("auto "+two+";"))
		return "auto " + one + " and auto " + two + "\x00'zzd'"
	}})
	l = append(l, errClass{"duplicate-parameter", 2, func(s *Src, ds *[]*Decl, fs []*Decl) string {
		ps := []string{"a", "b", "c", "d"}[:s.Range(2, 4)]
		if s.P(1, 4) {
			ps = pnames(s, size(s, 4, 20, 100))
		}
		i := s.N(len(ps) - 1)
		ps = append([]string(nil), ps...)
		ps[s.Range(i+1, len(ps)-1)] = ps[i]
		*ds = append(*ds, fn("zzf", ps, null()))
		k := s.N(len(*ds))
		(*ds)[k], (*ds)[len(*ds)-1] = (*ds)[len(*ds)-1], (*ds)[k]
		return fmt.Sprint(ps) + "\x00'" + ps[i] + "'"
	}})
	l = append(l, errClass{"duplicate-label", 3, func(s *Src, ds *[]*Decl, fs []*Decl) string {
		d := pick(s, fs)
		if s.Bool() {
			plantStmt(s, d, goTo("zzl"))
		}
		plantStmt(s, d, label("zzl", null()))
		plantStmt(s, d, label("zzl", null()))
		return "zzl\x00'zzl'"
	}})
	l = append(l, errClass{"undefined-label", 4, func(s *Src, ds *[]*Decl, fs []*Decl) string {
		d := pick(s, fs)
		n := pick(s, []string{"zzl", "x", "entry", "end", d.Name, "main"})
		switch s.N(3) {
		case 0: // a label of another function
			*ds = append(*ds, fn("zzo", nil, block(label(n, null()))))
		case 1:
			*ds = append([]*Decl{fn("zzo", nil, block(label(n, null()), goTo(n)))}, *ds...)
		}
		plantStmt(s, d, goTo(n))
		return "goto " + n + "\x00'" + n + "'"
	}})
	l = append(l, errClass{"case-outside-switch", 3, func(s *Src, ds *[]*Decl, fs []*Decl) string {
		d := pick(s, fs)
		t := "case " + num2(s) + ": ;"
		switch s.N(4) {
		case 0:
			t = "if (1) " + t
		case 1:
			t = "{ switch (1) { case 1: ; } " + t + " }"
		}
		stmtLists(d)
		// not inside of a switch: at the level of the function
		i := s.N(len(d.Body.List) + 1)
		d.Body.List = append(d.Body.List[:i:i], append([]*Stmt{rawS(t)}, d.Body.List[i:]...)...)
		return t
	}})
	l = append(l, errClass{"duplicate-case", 4, func(s *Src, ds *[]*Decl, fs []*Decl) string {
		same := pick(s, [][]string{{"97", "'a'", "0141"}, {"8", "010", "8"}, {"0", "00", "'*0'"}, {"24930", "'ab'"}, {"9223372036854775807", "0777777777777777777777"}, {"5", "05"}, {"1", "1"}})
		a, b := pick(s, same), pick(s, same)
		many := ""
		for i, n := 0, size(s, 1, 20, 200); i < n; i++ {
			many += fmt.Sprintf("case %d: ; ", 1000+i)
		}
		mid := pick(s, []string{many, "", "r_(1); ", "case 3: ", "case 3: { r_(3); } ", "zzl: ", "switch (2) { case " + b + ": ; } ", "{ case 4: ; } ", "return; ", "{} "})
		t := "switch (" + pick(s, []string{"1", "5", "97"}) + ") { case " + a + ": " + pick(s, []string{";", "{}", "r_(2);", mid + ";"}) + " " + mid + "case " + b + ": ; }"
		if s.Bool() {
			t = "switch (3) { case 77: ; " + t + " case 78: ; }"
		}
		plantStmt(s, pick(s, fs), rawS(t))
		return t
	}})
	l = append(l, errClass{"variable-and-function", 4, func(s *Src, ds *[]*Decl, fs []*Decl) string {
		f := pick(s, fs)
		v := &Decl{Name: f.Name}
		switch s.N(3) {
		case 0:
			v.Vec, v.Size, v.SizeT = true, 3, "3"
		case 1:
			v.Init = []IVal{{N: 4}}
		}
		var at *[]*Decl = ds
		if s.P(1, 4) { // by extrn
			g := pick(s, fs)
			if containsS(g.Params, f.Name) {
				return ""
			}
			for _, d := range *ds {
				if d == f {
					break
				}
				if d == g && !d.IsFunc {
					return ""
				}
			}
			plantStmt(s, g, extrn(f.Name))
			return "extrn " + f.Name
		}
		i := s.N(len(*at) + 1)
		l := append([]*Decl(nil), (*at)[:i]...)
		l = append(l, v)
		*at = append(l, (*at)[i:]...)
		return "variable " + f.Name + "\x00'" + f.Name + "'"
	}})
	esc := func(s *Src) string {
		for {
			c := byte(s.Range(33, 126))
			if !strings.ContainsRune("0e()t*'\"nr", rune(c)) {
				return "*" + string(rune(c))
			}
		}
	}
	l = append(l, errClass{"unknown-escape", 4, func(s *Src, ds *[]*Decl, fs []*Decl) string {
		a, b := pick(s, []string{"", "a", "ab", "**", "*n", "*e"}), pick(s, []string{"", "z", "*0", "**"})
		q := pick(s, []string{"'", "\""})
		t := q + a + esc(s) + b + q
		switch s.N(4) {
		case 0:
			*ds = append(*ds, &Decl{Name: "zzi " + t + ";", Raw: true})
			k := s.N(len(*ds))
			(*ds)[k], (*ds)[len(*ds)-1] = (*ds)[len(*ds)-1], (*ds)[k]
			return t
		case 1:
			if q == "'" {
				t = "switch (1) { case " + t + ": ; }"
				plantStmt(s, pick(s, fs), rawS(t))
				return t
			}
		}
		return t + plantExpr(s, pick(s, fs), t)
	}})
	l = append(l, errClass{"long-character", 3, func(s *Src, ds *[]*Decl, fs []*Decl) string {
		t := ""
		for i, n := 0, s.Range(9, 14); i < n; i++ {
			t += pick(s, []string{"a", "b", "*n", "**", " ", "\"", "*'", "0"})
		}
		t = "'" + t + "'"
		switch s.N(4) {
		case 0:
			*ds = append(*ds, &Decl{Name: "zzi " + t + ";", Raw: true})
			return t
		case 1:
			t = "switch (1) { case " + t + ": ; }"
			plantStmt(s, pick(s, fs), rawS(t))
			return t
		case 2:
			t = "auto zzq[" + t + "];"
			plantStmt(s, pick(s, fs), rawS(t))
			return t
		}
		return t + plantExpr(s, pick(s, fs), t)
	}})
	l = append(l, errClass{"keyword-name", 4, func(s *Src, ds *[]*Decl, fs []*Decl) string {
		k := pick(s, bKeywords)
		top := func(t string) string {
			i := s.N(len(*ds) + 1)
			l := append([]*Decl(nil), (*ds)[:i]...)
			l = append(l, &Decl{Name: t, Raw: true})
			*ds = append(l, (*ds)[i:]...)
			return t
		}
		t := ""
		switch s.N(7) {
		case 0:
			t = top(k + pick(s, []string{";", " 5;", "[3];", "[3] 1;", " 1, 2;", "[];"}))
		case 1:
			t = top(k + pick(s, []string{"() {}", "(a) {}", "(a, b) {}"}))
		case 2:
			t = top("zzx(" + pick(s, []string{"", "a, "}) + k + pick(s, []string{"", ", b"}) + ") {}")
		case 3:
			t = "auto " + pick(s, []string{"", "zza, ", "zza[2], "}) + k + pick(s, []string{"", "[3]", ", zzb"}) + ";"
			plantStmt(s, pick(s, fs), rawS(t))
		case 4:
			t = "extrn " + pick(s, []string{"", "zza, "}) + k + pick(s, []string{"", ", zzb"}) + ";"
			plantStmt(s, pick(s, fs), rawS(t))
		case 5:
			t = "goto " + k + ";"
			plantStmt(s, pick(s, fs), rawS(t))
		case 6:
			t = k + ": ;"
			plantStmt(s, pick(s, fs), rawS(t))
		}
		return t
	}})
	l = append(l, exprErr("expression-syntax", 6,
		"+1", "1 + +1", "(zzv = +1)", "1 - +zzv", "+ +zzv", "+zzf()", "- +1", "zzv[+1]", "zzf(+1)",
		"", "1 +", "* ", "1 2", "zzv 2", "2 zzv", "\"a\" \"b\"", "zzv ? 1", "zzv ? 1 :", "zzv ? : 2", "? 1 : 2", "zzv = ", "= 1", "zzf(, 1)", "zzf(1,)", "zzf(1,,2)", "zzf(1 2)",
		"zzf(1", "zzf(1;2)", "zzv[", "zzv[]", "zzv[1", "zzv[1,2]", "()", "(1", "1)", "(1]", "zzv[1)", "1 <", "< 1", "1 == == 2", "zzv = = 1", "zzv += 1", "zzv -= 1 +", "1 || 1", "1 && 1", "~1", "1 ^ 1", "1 ~ 1", "1 # 1", "@", "$x", "\\", "`", "zzv.1", "zzv, zzv", "1, 2", "1 / ", "1 % ", "!", "-", "& ", "++", "--", "1 ? 2 : 3 : 4", "{", "}", "{}", "zzv = {1}", "if", "while", "else", "return", "goto", "case", "switch", "auto", "extrn",
		"zzv = if", "else = 1", "1.5", "5x", "0x10", "zzv = return(1)", "zzv := 1", "zzv -> 1", "[1]", "zzv !", "zzv ! = 1", "1 =< 2",
		"zzv =<> 1", "zzv =>< 1", "zzv =><= 1", "zzv =<>= 1", "1 <> 2", "1 >< 2", "1 <=> 2", "1 <<< 2", "1 >>> 2", "1 < < 2", "1 <<> 2", "1 >>< 2", "1 <== 2", "1 >== 2", "1 === 2", "1 !== 2", "1 =! 2", "1 |= 2", "1 &= 2", "1 %= 2", "1 *= 2", "zzv =+= 1", "zzv =*= 1", "zzv =/= 1", "zzv =|| 1", "zzv =&& 1", "zzv =?= 1", "zzv ==? 1", "zzv =<<< 1", "zzv =>>> 1", "zzv =<<= 1", "zzv =>>= 1", "zzv =%% 1", "zzv =!=! ", "zzv =++", "zzv =--", "zzv <<= 1", "zzv >>= 1", "zzv =^ 1", "zzv =~ 1", "zzv =: 1", "zzv =, 1", "zzv =; 1", "zzv =) 1"))
	l = append(l, stmtErr("statement-syntax", 6,
		"if () ;", "if 1 ;", "if (1 ;", "if (1", "if ;", "if (1) else ;", "while () ;", "while 1 ;", "while (1 ;", "while ;", "goto ;", "goto 5;", "goto if;", "goto zz zy;", "goto (zz);", "goto zzl",
		"auto ;", "auto 5;", "auto zzm,;", "auto , zzm;", "auto zzm zzn;", "auto zzm[;", "auto zzm[zzv];", "auto zzm[-1];", "auto zzm[1+1];", "auto zzm[2;", "auto if;", "auto zzm = 5;", "auto (zzm);", "auto zzm[1][2];", "auto else, zzm;", "auto zzm {}", "auto zzm 5;",
		"extrn ;", "extrn 5;", "extrn zzm,;", "extrn zzm[1];", "extrn zzm zzn;", "extrn while;", "extrn zzm {}", "extrn (zzm);",
		"switch ;", "switch (1) { case : ; }", "switch (1) { case zzv: ; }", "switch (1) { case -1: ; }", "switch (1) { case 1 ; }", "switch (1) { case 1+1: ; }", "switch (1) { case (1): ; }", "switch (1) { case \"a\": ; }", "switch (1) { case 1: }", "switch (1 { case 1: ; }", "switch () { case 1: ; }", "switch (1) { case 1; ; }",
		"return 5;", "return(;", "return();", "return(5) {}", "return 5 {}", "return(1) 2;", "return(1, 2);",
		"; else ;", "zzl: }", "zzl:: ;", ": ;", "5: ;", "if: ;", "else: ;", "{ ;", "} ;", "( ;", ") ;", "[ ;", "] ;", ", ;", "1 {}", "\"s\" {}", "r_(1) {}", "r_(1),;", "zzv = 1; }", "do ; while (1);)", "for (;;) ;", "@;", "#;", "\\;", "$;"))
	l = append(l, topErr("definition-syntax", 6,
		"zzx = 5;", "zzx 5", "zzx 5,;", "zzx ,5;", "zzx 5 6;", "zzx -;", "zzx - -5;", "zzx +5;", "zzx -'a';", "zzx -\"a\";", "zzx (5);", "zzx[5;", "zzx[zzy];", "zzx[-1];", "zzx[1+1];", "zzx[5] 1,;", "zzx[5] ,1;", "zzx[5] 1 2;", "zzx[5]", "zzx[", "zzx[3]]; ", "zzx[[3]];", "zzx 5]; ",
		"{}", ";", "5;", "}", "{", ")", "(", "]", "zzx", "zzx zzy zzz;", "zzx() }", "zzx() {", "zzx( {}", "zzx) {}", "zzx(5) {}", "zzx(a b) {}", "zzx(a,) {}", "zzx(,a) {}", "zzx(a;b) {}", "zzx(a,a) {}", "zzx(if) {}", "zzx(\"a\") {}", "zzx((a)) {}", "zzx(a) }", "zzx(a[1]) {}",
		"if (1) ;", "if() {}", "while 5;", "auto zzx;", "extrn zzx;", "return;", "return() {}", "else;", "goto zzx;", "case 1: ;", "switch[3];", "\"s\";", "'a';", "zzx 'a;", "zzx \"a;", "zzx \"*q\";", "zzx 5; }", "@", "zzx 5 @;", "zzx # 5;", "*zzx;", "&zzx 5;", "zzx: 5;", "zzx.y 5;", "zzx 1.5;", "zzx 5a;", "zzx() = 5;", "zzx() auto;", "zzx(a) extrn;"))
	return l
}()

func containsS(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// ---- errors made of the tokens ----

func joinTokens(s *Src, toks []Tok, tight bool) string {
	if tight {
		return layoutTight(toks)
	}
	return layoutNormal(toks)
}

func realToks(toks []Tok) []int {
	var ix []int
	for i, t := range toks {
		if t.K != TIn && t.K != TOut && t.K != TBreak {
			ix = append(ix, i)
		}
	}
	return ix
}

func insertTok(toks []Tok, i int, t Tok) []Tok {
	return append(append(append([]Tok(nil), toks[:i]...), t), toks[i:]...)
}

func deleteTok(toks []Tok, i int) []Tok {
	return append(append([]Tok(nil), toks[:i]...), toks[i+1:]...)
}

type tokErr struct {
	name   string
	weight int
	f      func(s *Src, toks []Tok) ([]Tok, string)
}

var brackets = []string{"(", ")", "[", "]", "{", "}"}

func isBracket(t Tok) bool { return t.K == TPunct && containsS(brackets, t.S) }

var tokErrs = []tokErr{
	{"bracket-missing", 4, func(s *Src, toks []Tok) ([]Tok, string) {
		var ix []int
		for i, t := range toks {
			if isBracket(t) {
				ix = append(ix, i)
			}
		}
		i := pick(s, ix)
		return deleteTok(toks, i), toks[i].S
	}},
	{"bracket-extra", 3, func(s *Src, toks []Tok) ([]Tok, string) {
		b := pick(s, brackets)
		i := s.N(len(toks) + 1)
		return insertTok(toks, i, Tok{K: TPunct, S: b}), b
	}},
	{"bracket-other", 3, func(s *Src, toks []Tok) ([]Tok, string) {
		var ix []int
		for i, t := range toks {
			if isBracket(t) {
				ix = append(ix, i)
			}
		}
		i := pick(s, ix)
		b := pick(s, brackets)
		if b == toks[i].S {
			return nil, ""
		}
		r := append([]Tok(nil), toks...)
		r[i].S = b
		return r, toks[i].S + " " + b
	}},
	{"character", 3, func(s *Src, toks []Tok) ([]Tok, string) {
		i := s.N(len(toks) + 1)
		c := pick(s, []string{"@", "$", "\\", "^", "~", "#", "`", ".", "\x01", "\x7f", "\x00"})
		return insertTok(toks, i, Tok{K: TPunct, S: " " + c + " "}), fmt.Sprintf("%q", c)
	}},
	{"truncated", 4, func(s *Src, toks []Tok) ([]Tok, string) {
		// somewhere in a definition
		depth, ix := 0, []int{}
		for i, t := range toks {
			if isBracket(t) {
				if strings.Contains("([{", t.S) {
					depth++
				} else {
					depth--
				}
			}
			if depth > 0 || t.K == TWord || t.K == TLit || t.K == TOp || t.K == TPunct && t.S != ";" && t.S != "}" {
				ix = append(ix, i+1)
			}
		}
		i := pick(s, ix)
		if s.Bool() { // which ends right there
			return append(append([]Tok(nil), toks[:i]...), Tok{K: TPunct, S: pick(s, []string{"", " ", "\n", "/* x */", "\t", " /**/\n", "/", "=", "=<", "=!", "==", "-", "++", "!", "&", "<", "("})}), "cut"
		}
		return toks[:i], "cut"
	}},
	{"semicolon-missing", 4, func(s *Src, toks []Tok) ([]Tok, string) {
		rt := realToks(toks)
		var ix []int
		for k := 1; k+1 < len(rt); k++ {
			p, t, n := toks[rt[k-1]], toks[rt[k]], toks[rt[k+1]]
			if t.K != TPunct || t.S != ";" {
				continue
			}
			if p.K == TPunct && (p.S == ")" || p.S == ":" || p.S == "{" || p.S == "}" || p.S == ";") || p.S == "else" {
				continue
			}
			if n.K == TWord || n.K == TLit || n.S == "}" {
				ix = append(ix, rt[k])
			}
		}
		if len(ix) == 0 {
			return nil, ""
		}
		i := pick(s, ix)
		r := append([]Tok(nil), toks...)
		r[i] = Tok{K: TPunct, S: " "}
		return r, "between " + toks[i-1].S + " and the next token"
	}},
	{"unterminated", 5, func(s *Src, toks []Tok) ([]Tok, string) {
		q := pick(s, []string{"/*", "'", "\"", "/* *", "/*/", "/**", "'a", "\"ab", "\"*", "'*"})
		from := 0
		for i, t := range toks {
			if t.K == TLit {
				from = i + 1
			}
		}
		i := from + s.N(len(toks)-from+1)
		r := insertTok(toks, i, Tok{K: TPunct, S: " " + q + " "})
		return r, q
	}},
}

// ---- the check ----

var rejectModes = [][]string{{"--emit-llvm"}, {"-S"}, {"-c"}, {}, {"-O2"}, {"-c", "-g"}, {"--save-temps"}, {"-S", "--save-temps"}}

func listDir(dir string) string {
	es, err := os.ReadDir(dir)
	must(err)
	var l []string
	for _, e := range es {
		l = append(l, e.Name())
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// rejected runs blang on a source that must be rejected.
func rejected(src string, mode []string, out bool, mention string) verdict {
	dir := newDir()
	defer os.RemoveAll(dir)
	must(os.WriteFile(filepath.Join(dir, "p.b"), []byte(src), 0o644))
	args := append([]string{blang}, mode...)
	if out {
		args = append(args, "-o", "out")
	}
	args = append(args, "p.b")
	r := run(RunOpt{Dir: dir, Lim: limits{cpu: 20}}, args...)
	if r.Status == 0 {
		return verdict{what: "an invalid program is accepted", want: "exit status 1 and a diagnostic", got: "exit status 0"}
	}
	if r.Status != 1 {
		return verdict{what: "blang ends abnormally on an invalid program", want: "exit status 1 and a diagnostic", got: r.ended() + " " + string(clipB(r.Stderr))}
	}
	const p = "blang: error: "
	msg := bytes.TrimSpace(bytes.TrimPrefix(r.Stderr, []byte(p)))
	if !bytes.HasPrefix(r.Stderr, []byte(p)) || len(msg) == 0 {
		return verdict{what: "no diagnostic", want: "blang: error: ...", got: fmt.Sprintf("%q", clipB(r.Stderr))}
	}
	if !bytes.Contains(msg, []byte(strings.Trim(mention, "'"))) {
		return verdict{what: "the diagnostic does not name what is wrong", want: "a diagnostic about " + mention, got: fmt.Sprintf("%q", clipB(r.Stderr))}
	}
	if bytes.Contains(msg, []byte("failed to generate")) {
		return verdict{what: "the error is found by clang, not by blang", want: "a diagnostic that says what is wrong", got: fmt.Sprintf("%q", clipB(r.Stderr))}
	}
	if l := listDir(dir); l != "p.b" {
		return verdict{what: "files are left behind by a rejected program", want: "p.b", got: l}
	}
	if b, err := os.ReadFile(filepath.Join(dir, "p.b")); err != nil || string(b) != src {
		return verdict{what: "the source file is changed", want: "unchanged", got: "changed"}
	}
	return verdict{ok: true}
}

func clipB(b []byte) []byte {
	if len(b) > 400 {
		return b[:400]
	}
	return b
}

// accepted compiles a valid source to IR.
func accepted(src string) verdict {
	dir := newDir()
	defer os.RemoveAll(dir)
	must(os.WriteFile(filepath.Join(dir, "p.b"), []byte(src), 0o644))
	r := run(RunOpt{Dir: dir, Lim: limits{cpu: 20}}, blang, "--emit-llvm", "p.b")
	if r.Status != 0 {
		return verdict{what: "a valid program is rejected", want: "exit status 0", got: r.ended() + " " + string(clipB(r.Stderr))}
	}
	return verdict{ok: true}
}

// pad makes a program large by declarations and statements that do nothing.
func pad(s *Src, ds *[]*Decl) {
	fs := funcsOf(*ds)
	d := pick(s, fs)
	many := s.P(1, 3) // most of them in one function
	kind := s.N(6)
	for i, n := 0, size(s, 20, 100, 600); i < n; i++ {
		if !many {
			d = pick(s, fs)
		}
		k := kind
		if k == 5 {
			k = s.N(5)
		}
		switch k {
		case 0:
			plantStmt(s, d, null())
		case 1:
			plantStmt(s, d, autoS(fmt.Sprintf("zp%d", i)))
		case 2:
			plantStmt(s, d, label(fmt.Sprintf("zp%d", i), null()))
		case 3:
			plantStmt(s, d, ifs(num(int64(i)), block(), block()))
		case 4:
			j := s.N(len(*ds) + 1)
			*ds = append((*ds)[:j:j], append([]*Decl{{Name: fmt.Sprintf("zp%d", i), Init: []IVal{{N: int64(i)}}}}, (*ds)[j:]...)...)
		}
	}
}

func genRejectCase(s *Src) *Case {
	mode := rejectModes[s.Weighted(6, 1, 1, 1, 1, 1, 1, 1)]
	out := s.P(1, 3)
	tight := s.P(1, 4)
	ds, es := poolProgram(s, 1, 2)
	ds = append(ds, mainDecl(es...))
	if s.P(1, 3) {
		shuffle(s, ds)
	}
	if s.P(1, 8) {
		pad(s, &ds)
	}
	good := joinTokens(s, tokens(&Prog{Decls: ds}, nil), tight)
	var cl, what, bad, mention string
	total := 0
	for _, e := range errClasses {
		total += e.weight
	}
	tot2 := 0
	for _, e := range tokErrs {
		tot2 += e.weight
	}
	k := s.N(total + tot2)
	if k < total {
		for _, e := range errClasses {
			if k < e.weight {
				cl = e.name
				fs := funcsOf(ds)
				if what = e.plant(s, &ds, fs); what == "" {
					return nil
				}
				what, mention, _ = strings.Cut(what, "\x00")
				break
			}
			k -= e.weight
		}
		bad = joinTokens(s, tokens(&Prog{Decls: ds}, nil), tight)
	} else {
		k -= total
		for _, e := range tokErrs {
			if k < e.weight {
				cl = e.name
				toks, w := e.f(s, tokens(&Prog{Decls: ds}, nil))
				if toks == nil {
					return nil
				}
				what = w
				bad = joinTokens(s, toks, tight)
				if w == "cut" && s.P(2, 3) {
					bad = strings.TrimRight(bad, " \t\n")
				}
				break
			}
			k -= e.weight
		}
	}
	args := append([]string{}, mode...)
	if out {
		args = append(args, "-o", "out")
	}
	return &Case{Text: "/* " + cl + ": " + strings.ReplaceAll(what, "*/", "* /") + " */\n" + bad, Class: []string{"error:" + cl}, Files: map[string]string{"good.b": good, "p.b": bad}, Order: []string{"p.b"},
		Cmd: "blang " + strings.Join(args, " ") + " p.b",
		Run: func() verdict {
			v := rejected(bad, mode, out, mention)
			if v.ok {
				v = accepted(good)
			}
			v.what += " (" + cl + ")"
			return v
		}}
}
