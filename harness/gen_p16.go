package main

// P16: the same source gives the same bytes; definitions are independent.

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

type detFile struct {
	base string
	text string
	ir   []byte
}

// firstDiff shows where two outputs differ.
func firstDiff(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(i-60, 0)
	return fmt.Sprintf("%d bytes, at %d: %q", len(b), i, b[lo:min(i+80, len(b))])
}

// sameTemps compares the IR files kept in a place with those of the inputs.
func sameTemps(d, cmd string, fs []*detFile, ins []int) *verdict {
	left := append([]int{}, ins...)
	var bad *verdict
	filepath.WalkDir(d, func(p string, e os.DirEntry, err error) error {
		if err != nil || !e.Type().IsRegular() || filepath.Ext(p) != ".ll" || bad != nil {
			return nil
		}
		b, err := os.ReadFile(p)
		must(err)
		for k, i := range left {
			if bytes.Equal(b, fs[i].ir) {
				left = append(left[:k], left[k+1:]...)
				return nil
			}
		}
		want := "no further file"
		if len(left) > 0 {
			want = firstDiff(b, fs[left[0]].ir) + " (alone)"
			b2 := fs[left[0]].ir
			bad = &verdict{what: "the same source gives other LLVM IR", want: want, got: firstDiff(b2, b) + " in " + filepath.Base(p) + " from " + cmd}
			return nil
		}
		bad = &verdict{what: "the same source gives other LLVM IR", want: want, got: filepath.Base(p) + " from " + cmd}
		return nil
	})
	if bad == nil && len(left) > 0 {
		bad = &verdict{what: "an IR file is missing", want: fmt.Sprintf("the IR of %s kept by %s", fs[left[0]].base, cmd), got: "no such file"}
	}
	return bad
}

func genSameCase(s *Src) *Case {
	// sources
	var fs []*detFile
	var cl []string
	names := []string{"x", "prog", "a.b", "long_name_of_a_file", "q", "tmp", "main", "z-9", "b", "f 1"}
	shuffle(s, names)
	nf := s.Weighted(0, 3, 3, 2, 1)
	for i := 0; i < nf; i++ {
		us := okUnits(s, 1, 4)
		ds := wholeProgram(us)
		if s.P(1, 5) {
			reorder(s, ds)
		}
		t := tokens(&Prog{Decls: ds}, nil)
		f := &detFile{base: names[i]}
		if s.P(1, 4) {
			f.text = layoutTight(t)
		} else {
			f.text = layoutNormal(t)
		}
		if i > 0 && s.P(1, 8) { // twice the same text
			f.text = fs[0].text
		}
		fs = append(fs, f)
	}
	// runs
	type runD struct {
		cwd    string // relative to the case's directory
		prefix string // before the names of inputs
		args   func(dir string, ins []string) []string
		ins    []int
		names  []string // names of the inputs, without .b
		outs   []string // IR of input i is found here, relative to cwd
		cmd    string
		env    []string
		temps  bool // IR is among the temporary files, of any name
		twice  bool // other bytes than IR: compared with run in a second place
		mode   string
	}
	var rs []runD
	order := func(all bool) []int {
		p := make([]int, nf)
		for i := range p {
			p[i] = i
		}
		shuffle(s, p)
		if !all {
			p = p[:s.Range(1, nf)]
		}
		return p
	}
	irRun := func() {
		r := runD{ins: order(false)}
		r.cwd = pick(s, []string{".", "d1", "d1/d2"})
		up := map[string]string{".": "", "d1": "../", "d1/d2": "../../"}[r.cwd]
		renamed := s.P(1, 4)
		abs := s.P(1, 4)
		for _, i := range r.ins {
			n := fs[i].base
			if renamed {
				n = fmt.Sprintf("copy%d_of", i)
			}
			r.names = append(r.names, n)
		}
		r.prefix = up + pick(s, []string{"", "", "src/", "src/../", "./"})
		fl := optFlags(s)
		if s.P(1, 6) {
			fl = append(fl, "-v")
		}
		mode := s.Weighted(6, 2, 2, 2)
		out := ""
		if s.P(1, 3) && len(r.ins) == 1 {
			out = pick(s, []string{"out.ll", "y", "./zz.ll", "d3/o.x"})
			if mode > 0 {
				out = pick(s, []string{"out.s", "y", "./zz.o", "d3/o.x"})
			}
		}
		r.mode = []string{"--emit-llvm", "-S --save-temps", "-c --save-temps", "--save-temps"}[mode]
		if mode == 3 { // an executable of one file
			r.ins, r.names = r.ins[:1], r.names[:1]
			if out == "" {
				out = "y"
			}
		}
		r.temps = mode > 0
		for _, n := range r.names {
			r.outs = append(r.outs, n+".ll")
		}
		if out != "" {
			r.outs = []string{out}
			fl = append(fl, "-o", out)
		}
		front := s.Bool()
		m := strings.Fields(r.mode)
		r.args = func(dir string, ins []string) []string {
			var a []string
			if front {
				a = append(append(append(a, m...), fl...), ins...)
			} else {
				a = append(append(append(a, ins...), m...), fl...)
			}
			return a
		}
		_ = abs
		if abs {
			r.prefix = "/ABS/" + strings.TrimPrefix(r.prefix, up)
		}
		r.env = pick(s, [][]string{nil, nil, {"LANG=de_DE.UTF-8", "TZ=Asia/Tokyo"}, {"GOMAXPROCS=1", "USER=x"}, {"SOURCE_DATE_EPOCH=1", "PWD=/"}})
		rs = append(rs, r)
		cl = append(cl, "run:"+r.mode)
	}
	codeRun := func() {
		r := runD{ins: order(false), twice: true, cwd: "."}
		fl := optFlags(s)
		mode := s.N(3)
		r.mode = []string{"-S", "-c", "-o prog.out"}[mode]
		if mode == 2 {
			r.ins = r.ins[:1]
		}
		for _, i := range r.ins {
			r.names = append(r.names, fs[i].base)
		}
		m := strings.Fields(r.mode)
		r.args = func(dir string, ins []string) []string {
			return append(append(append([]string{}, m...), fl...), ins...)
		}
		for k := range r.ins {
			switch mode {
			case 0:
				r.outs = append(r.outs, r.names[k]+".s")
			case 1:
				r.outs = append(r.outs, r.names[k]+".o")
			case 2:
				r.outs = append(r.outs, "prog.out")
			}
		}
		rs = append(rs, r)
		cl = append(cl, "twice:"+r.mode)
	}
	for i, n := 0, s.Range(2, 5); i < n; i++ {
		irRun()
	}
	if s.P(2, 3) {
		codeRun()
	}
	c := &Case{Class: append(cl, fmt.Sprintf("files:%d", nf)), Files: map[string]string{}, Triv: false}
	var sb strings.Builder
	for _, f := range fs {
		c.Files[f.base+".b"] = f.text
		c.Order = append(c.Order, f.base+".b")
		sb.WriteString("# " + f.base + ".b\n" + f.text)
	}
	inputs := func(dir string, r runD) []string {
		var ins []string
		for _, n := range r.names {
			ins = append(ins, strings.Replace(r.prefix, "/ABS/", dir+"/", 1)+n+".b")
		}
		return ins
	}
	var cs []string
	for i, r := range rs {
		rs[i].cmd = "(cd " + r.cwd + "; " + strings.Join(append(r.env, append([]string{"blang"}, r.args("/ABS", inputs("/ABS", r))...)...), " ") + ")"
		cs = append(cs, rs[i].cmd)
	}
	c.Cmd = strings.Join(cs, " ")
	c.Text = sb.String() + "\n# " + c.Cmd
	c.Run = func() verdict {
		top := newDir()
		defer os.RemoveAll(top)
		baseEnv := []string{"PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME=" + homeDir, "LANG=C.UTF-8", "TMPDIR=" + scratch}
		// the reference: each alone
		for _, f := range fs {
			d := filepath.Join(top, "ref")
			must(os.RemoveAll(d))
			must(os.MkdirAll(d, 0o755))
			must(os.WriteFile(filepath.Join(d, f.base+".b"), []byte(f.text), 0o644))
			r := run(RunOpt{Dir: d, Lim: limits{cpu: 60}}, blang, "--emit-llvm", f.base+".b")
			if r.Status != 0 {
				return verdict{what: "a valid program is not compiled", want: "exit status 0", got: r.ended() + ": " + string(r.Stderr)}
			}
			b, err := os.ReadFile(filepath.Join(d, f.base+".ll"))
			if err != nil {
				return verdict{what: "the IR file is missing", want: f.base + ".ll", got: err.Error()}
			}
			f.ir = b
		}
		place := func(d string, r runD) {
			for _, x := range []string{"d1/d2", "d1/d3", "d1/d2/d3", "d3", "src"} {
				must(os.MkdirAll(filepath.Join(d, x), 0o755))
			}
			for k, i := range r.ins {
				for _, sub := range []string{"", "src"} {
					must(os.WriteFile(filepath.Join(d, sub, r.names[k]+".b"), []byte(fs[i].text), 0o644))
				}
			}
		}
		for ri, r := range rs {
			d := filepath.Join(top, fmt.Sprintf("r%d", ri))
			place(d, r)
			go1 := func(d string, ins []string) *verdict {
				x := run(RunOpt{Dir: filepath.Join(d, r.cwd), Lim: limits{cpu: 60}, Env: append(append([]string{}, baseEnv...), r.env...)}, append([]string{blang}, r.args(d, ins)...)...)
				if x.Status != 0 {
					return &verdict{what: "a program compiled alone is not compiled otherwise", want: "exit status 0 of " + r.cmd, got: x.ended() + ": " + string(x.Stderr)}
				}
				return nil
			}
			if v := go1(d, inputs(d, r)); v != nil {
				return *v
			}
			get := func(d string, k int) ([]byte, *verdict) {
				b, err := os.ReadFile(filepath.Join(d, r.cwd, r.outs[k]))
				if err != nil {
					return nil, &verdict{what: "an output file is missing", want: r.outs[k] + " from " + r.cmd, got: err.Error()}
				}
				return b, nil
			}
			if r.temps {
				if v := sameTemps(d, r.cmd, fs, r.ins); v != nil {
					return *v
				}
				continue
			}
			if !r.twice {
				for k, i := range r.ins {
					b, v := get(d, k)
					if v != nil {
						return *v
					}
					if !bytes.Equal(b, fs[i].ir) {
						return verdict{what: "the same source gives other LLVM IR", want: firstDiff(b, fs[i].ir) + " (alone)", got: firstDiff(fs[i].ir, b) + " in " + r.outs[k] + " from " + r.cmd}
					}
				}
				continue
			}
			// again, in another place, one by one
			for k := range r.ins {
				b, v := get(d, k)
				if v != nil {
					return *v
				}
				d2 := filepath.Join(top, fmt.Sprintf("other place %d %d", ri, k))
				place(d2, r)
				if v := go1(d2, inputs(d2, r)[k:k+1]); v != nil {
					return *v
				}
				b2, v := get(d2, k)
				if v != nil {
					return *v
				}
				if !bytes.Equal(b, b2) {
					return verdict{what: "the same command gives other bytes for the same source", want: firstDiff(b2, b), got: firstDiff(b, b2) + " in " + r.outs[k] + " from " + r.cmd}
				}
			}
		}
		return verdict{ok: true}
	}
	return c
}

// ---- order and company of definitions ----

// noiseDecls makes definitions which the program does not use.
func noiseDecls(s *Src, prog []*Decl) (ds []*Decl, cl []string) {
	var vars, funs []string
	for _, d := range prog {
		if d.IsFunc {
			funs = append(funs, d.Name)
		} else {
			vars = append(vars, d.Name)
		}
	}
	undef := map[string]bool{}
	for _, d := range prog {
		if d.IsFunc {
			walkStmt(d.Body, func(st *Stmt) {
				for _, n := range st.Names {
					if !containsS(vars, n) {
						undef[n] = true
					}
				}
			}, func(*Expr) {})
		}
	}
	var extra []string
	for _, d := range prog { // in a fixed order
		if d.IsFunc {
			walkStmt(d.Body, func(st *Stmt) {
				for _, n := range st.Names {
					if undef[n] && !containsS(extra, n) {
						extra = append(extra, n)
					}
				}
			}, func(*Expr) {})
		}
	}
	all := append(append([]string{}, vars...), extra...)
	for i, n := 0, s.Range(1, 6); i < n; i++ {
		nm := fmt.Sprintf("zz%d_", i)
		switch s.Weighted(4, 3, 3, 2, 2, 3, 2) {
		case 0: // a whole other unit
			u := okUnit(s, nm)
			if u == nil {
				continue
			}
			for _, f := range u.Decls {
				ds = append(ds, f...)
			}
			cl = append(cl, "noise:unit")
		case 1: // uses variables of the program
			if len(all) == 0 {
				continue
			}
			v := pick(s, all)
			ds = append(ds, fn(nm, []string{"x"}, block(extrn(v), sx(asg(pick(s, []string{"=", "=+", "=<"}), name(v), name("x"))), ret(un("&", name(v))))))
			cl = append(cl, "noise:extrn")
		case 2: // calls functions of the program with any arguments
			f := pick(s, funs)
			var as []*Expr
			for k, m := 0, s.N(4); k < m; k++ {
				as = append(as, num(int64(k)))
			}
			var b *Stmt
			switch s.N(3) {
			case 0:
				b = ret(call(f, as...))
			case 1:
				b = ret(name(f))
			default:
				b = block(autoS("q"), sx(asg("=", name("q"), name(f))), ret(call("q", as...)))
			}
			ds = append(ds, fn(nm, nil, b))
			cl = append(cl, "noise:call")
		case 3: // locals and labels of such names
			n1 := pick(s, append(append([]string{}, all...), funs...))
			ds = append(ds, fn(nm, nil, block(autoS(n1), label(n1+"l", sx(asg("=", name(n1), num(5)))), ifs(bin("<", name(n1), num(3)), goTo(n1+"l"), nil), ret(name(n1)))))
			cl = append(cl, "noise:local")
		case 4: // parameters of such names
			n1 := pick(s, append(append([]string{}, all...), funs...))
			ds = append(ds, fn(nm, []string{n1, "zzb"}, ret(bin("+", name(n1), name("zzb")))))
			cl = append(cl, "noise:parameter")
		case 5: // variables
			d := genExtVar(s, nm).d
			ds = append(ds, d)
			cl = append(cl, "noise:variable")
		case 6: // strings
			x := []byte("U%d%s*n")
			var l []*Stmt
			for _, d := range prog {
				if d.IsFunc {
					walkStmt(d.Body, func(*Stmt) {}, func(e *Expr) {
						if e.K == EStr && len(l) < 3 {
							l = append(l, sx(call("printf", e.clone())))
						}
					})
				}
			}
			l = append(l, sx(call("printf", str(x))))
			ds = append(ds, fn(nm, nil, block(l...)))
			cl = append(cl, "noise:string")
		}
	}
	return
}

func genOrderCase(s *Src) *Case {
	us := okUnits(s, 1, 6)
	so, se := expected(us)
	ds := wholeProgram(us)
	plain := (&Prog{Decls: ds}).Source()
	vs := append([]*Decl{}, ds...)
	var cl []string
	how := s.Weighted(2, 2, 3)
	if how != 1 {
		switch s.N(4) {
		case 0: // the other way round
			for i, j := 0, len(vs)-1; i < j; i, j = i+1, j-1 {
				vs[i], vs[j] = vs[j], vs[i]
			}
			// definitions of one name stay in order
			at := map[string][]int{}
			for i, d := range vs {
				at[d.Name] = append(at[d.Name], i)
			}
			for _, p := range at {
				for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
					vs[p[i]], vs[p[j]] = vs[p[j]], vs[p[i]]
				}
			}
		case 1: // rotated
			if k := s.N(len(vs)); true {
				rot := append(append([]*Decl{}, vs[k:]...), vs[:k]...)
				ok := true
				seen := map[string]bool{}
				for _, d := range vs {
					if seen[d.Name] {
						ok = false
					}
					seen[d.Name] = true
				}
				if ok {
					vs = rot
				} else {
					reorder(s, vs)
				}
			}
		default:
			reorder(s, vs)
		}
		cl = append(cl, "reordered")
	}
	if how != 0 {
		nd, c := noiseDecls(s, ds)
		cl = append(cl, c...)
		// definitions of one name stay in order: they go in as a sequence
		at := 0
		for _, d := range nd {
			at = s.Range(at, len(vs))
			vs = append(vs[:at], append([]*Decl{d}, vs[at:]...)...)
			at++
		}
	}
	src := (&Prog{Decls: vs}).Source()
	for _, u := range us {
		cl = append(cl, "unit:"+u.Name)
	}
	return &Case{Text: src, Class: cl, Triv: src == plain, Files: map[string]string{"plain.b": plain, "variant.b": src}, Order: []string{"plain.b", "variant.b"},
		Cmd: "blang plain.b and blang variant.b give programs of the same behaviour",
		Run: func() verdict {
			v := runSources([]string{src}, Build{}, len(so)+len(se))
			if v.same(so, se, 0) {
				return verdict{ok: true}
			}
			p := runSources([]string{plain}, Build{}, len(so)+len(se))
			if p.sameAs(v) {
				notes.add("plain form has the same (unexpected) outcome")
				return verdict{ok: true}
			}
			what := "another order, or unrelated definitions, change the behaviour of a program"
			if v.fail != "" {
				what = "another order, or unrelated definitions, make a program unacceptable"
			}
			return verdict{what: what, want: p.show(), got: v.show()}
		}}
}
