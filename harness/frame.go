package main

// The frame shared by all checks: seeds, workers, evidence, violations, and the
// checks whose cases are small units of B code run in batches.

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var (
	verifDir = "/verif"
	seed     int
	tier     = "quick"
	started  = time.Now()
	noShrink bool
)

// ---- results of a check ----

type Failure struct {
	Property string   `json:"property"`
	Kind     string   `json:"kind"`
	What     string   `json:"what"`
	Seed     int      `json:"seed"`
	Case     string   `json:"case"`
	Choices  []uint64 `json:"choices,omitempty"`
	// replayable content
	Files    map[string]string `json:"files,omitempty"`
	Order    []string          `json:"order,omitempty"`
	Build    *Build            `json:"build,omitempty"`
	Stdin    string            `json:"stdin,omitempty"`
	Expected string            `json:"expected"`
	Got      string            `json:"got"`
	Cmd      string            `json:"cmd,omitempty"`
}

type Stats struct {
	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	classes  map[string]int64
	samples  []string
	dropped  map[string]int64
	extra    map[string]any
}

func newStats() *Stats {
	return &Stats{distinct: map[uint64]struct{}{}, classes: map[string]int64{}, dropped: map[string]int64{}, extra: map[string]any{}}
}

func (st *Stats) add(key uint64, nontrivial bool, classes []string, sample func() string) {
	st.mu.Lock()
	defer st.mu.Unlock()
	st.evals++
	for _, c := range classes {
		st.classes[c]++
	}
	if !nontrivial {
		return
	}
	if _, ok := st.distinct[key]; ok {
		return
	}
	st.distinct[key] = struct{}{}
	if len(st.samples) < 3 || len(st.samples) < 6 && len(st.distinct)%97 == 0 {
		st.samples = append(st.samples, sample())
	}
}

func (st *Stats) drop(why string) {
	st.mu.Lock()
	st.dropped[why]++
	st.mu.Unlock()
}

// Check decides one property.
type Check struct {
	ID    string
	Rule  string
	Level string
	Run   func(c *Ctx)
}

type Ctx struct {
	Check *Check
	St    *Stats
	quick bool
	stop  atomic.Bool
	mu    sync.Mutex
	fails []*Failure
	known []string
	until time.Time
}

func (c *Ctx) over() bool { return c.stop.Load() || time.Now().After(c.until) }

// budget gives the check d seconds from now (quick), or dt (thorough).
func (c *Ctx) budget(quick, thorough time.Duration) {
	d := quick
	if !c.quick {
		d = thorough
	}
	if e := os.Getenv("VERIF_SECONDS"); e != "" {
		if n, err := strconv.Atoi(e); err == nil {
			d = time.Duration(n) * time.Second
		}
	}
	c.until = time.Now().Add(d)
}

// count picks the number of cases.
func (c *Ctx) count(quick, thorough int) int {
	if c.quick {
		return quick
	}
	return thorough
}

func (c *Ctx) fail(f *Failure) {
	f.Property = c.Check.ID
	f.Seed = seed
	c.mu.Lock()
	c.fails = append(c.fails, f)
	c.mu.Unlock()
	c.stop.Store(true)
}

// parallel runs f(0..n-1) on all cores until the budget is used up.
func (c *Ctx) parallel(n int, f func(i int)) int {
	var next atomic.Int64
	var done atomic.Int64
	var wg sync.WaitGroup
	w := runtime.NumCPU()
	if w < 4 {
		w = 4
	}
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !c.over() {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				f(i)
				done.Add(1)
			}
		}()
	}
	wg.Wait()
	return int(done.Load())
}

func fnv(s string) uint64 { return strSeed(s) }

// ---- units ----

// Unit is one case of a program-level check: definitions with names of their
// own, an entry function, and the outcome the interpreter gives.
type Unit struct {
	Name  string
	Decls [][]*Decl // per file
	Entry string
	Pfx   string   // of its names, when not that of Entry
	Src   []string // printed definitions, per file
	Want  Out
	Class []string
	Triv  bool
	Seed  uint64
	Rec   []uint64
	lays  int // address layouts to try, when not 2
}

// helperDecls: r_(x) writes the word x to the standard output, t_(k,v) traces
// the evaluation of an operand and gives v.
func helperDecls() []*Decl {
	x, k, v := name("x"), name("k"), name("v")
	return []*Decl{
		fn("r_", []string{"x"}, block(sx(call("nwrite", num(1), un("&", x), num(8))))),
		fn("t_", []string{"k", "v"}, block(sx(call("r_", k)), ret(v))),
	}
}

var helperSrc = func() string { return (&Prog{Decls: helperDecls()}).Source() }()

func rlog(e *Expr) *Stmt         { return sx(call("r_", e)) }
func trace(k int, v *Expr) *Expr { return call("t_", num(int64(k)), v) }

const unitMark = 0x55AA12345678

func mainDecl(entries ...string) *Decl {
	var l []*Stmt
	for i, e := range entries {
		l = append(l, rlog(num(unitMark+int64(i))), sx(call(e)))
	}
	l = append(l, ret(num(0)))
	return fn("main", nil, block(l...))
}

// finish prints the unit and asks the interpreter for its outcome.
func (u *Unit) finish(s *Src) error {
	if u.Src == nil {
		tight := s.P(1, 5)
		for _, ds := range u.Decls {
			t := tokens(&Prog{Decls: ds}, nil)
			if tight {
				u.Src = append(u.Src, layoutTight(t))
			} else {
				u.Src = append(u.Src, layoutNormal(t))
			}
		}
	}
	var all []*Decl
	all = append(all, helperDecls()...)
	for _, ds := range u.Decls {
		all = append(all, ds...)
	}
	all = append(all, mainDecl(u.Entry))
	var err error
	n := u.lays
	if n == 0 {
		n = 2
	}
	u.Want, err = interpretIn(n, nil, &Prog{Decls: all})
	return err
}

type UnitGen struct {
	Name   string
	Weight int
	Gen    func(s *Src, pfx string) *Unit
}

type UnitCheck struct {
	Gens     []UnitGen
	PerBatch int
	Files    int // number of source files, at least 1
	// builds to use for batch i
	Build func(i int) Build
}

func (g UnitGen) make(s *Src, pfx string) (u *Unit, err error) {
	defer func() {
		if r := recover(); r != nil {
			if t, ok := r.(Trap); ok {
				err = t
				return
			}
			panic(r)
		}
	}()
	u = g.Gen(s, pfx)
	u.Name = g.Name
	if err = u.finish(s); err == nil && len(u.Src) == 1 && s.P(1, 3) {
		for k := 0; k < 4; k++ {
			if v := mutateUnit(s, u); v != nil && v.finish(s) == nil {
				u = v
				break
			}
		}
	}
	u.Rec = s.rec
	return u, err
}

// sources puts units together to a program.
func sources(us []*Unit, files int) []string {
	out := make([]string, files)
	sb := make([]strings.Builder, files)
	for i := range sb {
		if i == 0 {
			sb[i].WriteString(helperSrc)
		}
		for _, u := range us {
			if i < len(u.Src) {
				sb[i].WriteString(u.Src[i])
			}
		}
	}
	var es []string
	for _, u := range us {
		es = append(es, u.Entry)
	}
	sb[0].WriteString((&Prog{Decls: []*Decl{mainDecl(es...)}}).Source())
	for i := range sb {
		out[i] = sb[i].String()
	}
	return out
}

func expected(us []*Unit) (so, se []byte) {
	var w [8]byte
	for i, u := range us {
		binary.LittleEndian.PutUint64(w[:], uint64(unitMark+i))
		so = append(so, w[:]...)
		so = append(so, u.Want.Stdout[8:]...)
		se = append(se, u.Want.Stderr...)
	}
	return
}

type verdict struct {
	ok        bool
	what      string
	want, got string
}

// runUnits compiles and runs the units as one program.
func runUnits(us []*Unit, files int, b Build) verdict {
	dir := newDir()
	defer os.RemoveAll(dir)
	srcs := sources(us, files)
	exe, fail := compileSources(dir, srcs, b)
	if fail != "" {
		return verdict{what: "a valid program is not compiled", want: "an executable", got: fail}
	}
	so, se := expected(us)
	r := run(RunOpt{Dir: dir, Lim: limits{cpu: 10, memMB: 2048}, MaxOut: len(so) + len(se) + 65536}, exe)
	if r.Status != 0 || r.Truncated {
		return verdict{what: "the program ends abnormally: " + r.ended(), want: "exit status 0, output " + showWords(so), got: r.ended() + ", output " + showWords(r.Stdout)}
	}
	if !bytes.Equal(r.Stdout, so) {
		return verdict{what: "wrong output", want: showWords(so), got: showWords(r.Stdout)}
	}
	if !bytes.Equal(r.Stderr, se) {
		return verdict{what: "wrong standard error output", want: strconv.Quote(string(se)), got: strconv.Quote(string(r.Stderr))}
	}
	return verdict{ok: true}
}

// showWords writes logged words readably; U0, U1... start the output of a unit.
func showWords(b []byte) string {
	var sb strings.Builder
	for i := 0; i+8 <= len(b); i += 8 {
		v := int64(binary.LittleEndian.Uint64(b[i:]))
		if v >= unitMark && v < unitMark+4096 {
			fmt.Fprintf(&sb, "U%d: ", v-unitMark)
			continue
		}
		fmt.Fprintf(&sb, "%d ", v)
		if sb.Len() > 6000 {
			sb.WriteString("...")
			return sb.String()
		}
	}
	if r := len(b) % 8; r != 0 {
		fmt.Fprintf(&sb, "+%q", b[len(b)-r:])
	}
	return strings.TrimSpace(sb.String())
}

func (uc *UnitCheck) pickGen(s *Src) UnitGen {
	var w []int
	for _, g := range uc.Gens {
		w = append(w, g.Weight)
	}
	return uc.Gens[s.Weighted(w...)]
}

// run explores n batches.
func (uc *UnitCheck) run(c *Ctx, n int) int {
	if uc.Files == 0 {
		uc.Files = 1
	}
	base := seedOf(uint64(seed), strSeed(c.Check.ID))
	return c.parallel(n, func(i int) {
		us := uc.batch(c, seedOf(base, uint64(i)))
		if len(us) == 0 {
			return
		}
		b := Build{}
		if uc.Build != nil {
			b = uc.Build(i)
		}
		v := runUnits(us, uc.Files, b)
		if v.ok {
			for _, u := range us {
				u := u
				pfx := u.Pfx
				if pfx == "" {
					pfx = u.Entry[:strings.IndexByte(u.Entry, '_')+1]
				}
				text := strings.ReplaceAll(strings.Join(u.Src, "\f"), pfx, "")
				cl := append([]string{"gen:" + u.Name}, u.Class...)
				c.St.add(fnv(text), !u.Triv, cl, func() string { return text + "\n/* expected: " + showWords(u.Want.Stdout[8:]) + " */" })
			}
			return
		}
		uc.report(c, us, b, v)
	})
}

func (uc *UnitCheck) batch(c *Ctx, bseed uint64) []*Unit {
	var us []*Unit
	for k := 0; k < uc.PerBatch; k++ {
		us1 := seedOf(bseed, uint64(k))
		s := NewSrc(us1)
		g := uc.pickGen(s)
		u, err := g.make(s, fmt.Sprintf("u%d_", k))
		if err != nil {
			c.St.drop(g.Name + ": " + err.Error())
			continue
		}
		u.Seed = us1
		us = append(us, u)
	}
	if bseed%2 == 0 { // a large one at the beginning of the file
		sort.SliceStable(us, func(i, j int) bool { return us[i].Name == "big" && us[j].Name != "big" })
	}
	return us
}

// remake generates a single unit from choices, for replay and shrinking.
func (uc *UnitCheck) remake(ch []uint64, pfx string) (*Unit, error) {
	s := ReplaySrc(ch)
	g := uc.pickGen(s)
	return g.make(s, pfx)
}

func (uc *UnitCheck) report(c *Ctx, us []*Unit, b Build, v verdict) {
	c.mu.Lock()
	busy := c.stop.Load()
	c.stop.Store(true)
	c.mu.Unlock()
	if busy {
		return
	}
	deadline := time.Now().Add(90 * time.Second)
	budget := func() bool { return time.Now().Before(deadline) }
	// which unit fails on its own?
	var mu sync.Mutex
	var bad []*Unit
	var vs []verdict
	sem := make(chan struct{}, runtime.NumCPU())
	var wg sync.WaitGroup
	for _, u := range us {
		wg.Add(1)
		go func(u *Unit) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			if r := runUnits([]*Unit{u}, uc.Files, b); !r.ok {
				mu.Lock()
				bad = append(bad, u)
				vs = append(vs, r)
				mu.Unlock()
			}
		}(u)
	}
	wg.Wait()
	if len(bad) == 0 {
		// only together: reduce the list of units
		again := runUnits(us, uc.Files, b)
		for k := 0; again.ok && k < 10; k++ {
			again = runUnits(us, uc.Files, b)
		}
		if again.ok {
			// not reproducible: something outside of the program
			infra("a failure is not reproducible: %s; want %s got %s", v.what, v.want, v.got)
		}
		v = again
		for size := len(us) / 2; size >= 1 && budget(); size /= 2 {
			for i := 0; i+size <= len(us) && budget(); {
				l := append(append([]*Unit(nil), us[:i]...), us[i+size:]...)
				if len(l) > 0 {
					if r := runUnits(l, uc.Files, b); !r.ok {
						us, v = l, r
						continue
					}
				}
				i += size
			}
		}
		c.fail(uc.failure(us, b, v, nil))
		return
	}
	// shrink the failing unit with the fewest choices
	best := 0
	for i := range bad {
		if len(bad[i].Rec) < len(bad[best].Rec) {
			best = i
		}
	}
	u, v := bad[best], vs[best]
	ch := shrinkMany(u.Rec, budget, func(cands [][]uint64) int {
		res := make([]bool, len(cands))
		var wg sync.WaitGroup
		for i := range cands {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				x, err := uc.remake(cands[i], "u0_")
				if err != nil {
					return
				}
				res[i] = !runUnits([]*Unit{x}, uc.Files, b).ok
			}(i)
		}
		wg.Wait()
		for i, r := range res {
			if r {
				return i
			}
		}
		return -1
	})
	if x, err := uc.remake(ch, "u0_"); err == nil {
		if r := runUnits([]*Unit{x}, uc.Files, b); !r.ok {
			u, v = x, r
		}
	}
	c.fail(uc.failure([]*Unit{u}, b, v, ch))
}

func (uc *UnitCheck) failure(us []*Unit, b Build, v verdict, ch []uint64) *Failure {
	f := &Failure{Kind: "program", What: v.what, Expected: v.want, Got: v.got, Choices: ch, Files: map[string]string{}, Build: &b}
	for i, s := range sources(us, uc.Files) {
		n := fmt.Sprintf("f%d.b", i)
		if strings.HasPrefix(s, cHead) {
			n = fmt.Sprintf("f%d.c", i)
		}
		f.Files[n] = s
		f.Order = append(f.Order, n)
	}
	var names []string
	for _, u := range us {
		names = append(names, u.Name)
	}
	so, se := expected(us)
	f.Case = strings.Join(names, ",")
	f.Expected = fmt.Sprintf("%x/%x\n%s", so, se, f.Expected)
	return f
}

// shrinkMany is shrink with several candidates tried at a time.
func shrinkMany(choices []uint64, budget func() bool, firstFail func([][]uint64) int) []uint64 {
	best := append([]uint64(nil), choices...)
	if noShrink {
		return best
	}
	width := runtime.NumCPU()
	// pass tries the edits in order; edit returns nil when it does not apply
	pass := func(n func() int, edit func(i int) []uint64) bool {
		improved := false
		for i := 0; i < n() && budget(); {
			var cs [][]uint64
			var at []int
			for len(cs) < width && i < n() {
				if e := edit(i); e != nil {
					cs = append(cs, e)
					at = append(at, i)
				}
				i++
			}
			if len(cs) == 0 {
				continue
			}
			if k := firstFail(cs); k >= 0 {
				best = cs[k]
				improved = true
				i = at[k]
			}
		}
		return improved
	}
	for improved := true; improved && budget(); {
		improved = false
		for size := len(best) / 2; size >= 1 && budget(); size /= 2 {
			sz := size
			if pass(func() int { return len(best) - sz + 1 }, func(i int) []uint64 {
				if sz > 3 && i%((sz+3)/4) != 0 {
					return nil
				}
				return append(append([]uint64(nil), best[:i]...), best[i+sz:]...)
			}) {
				improved = true
			}
		}
		if pass(func() int { return len(best) }, func(i int) []uint64 {
			if best[i] == 0 {
				return nil
			}
			e := append([]uint64(nil), best...)
			e[i] = 0
			return e
		}) {
			improved = true
		}
		if pass(func() int { return len(best) }, func(i int) []uint64 {
			if best[i] < 2 {
				return nil
			}
			e := append([]uint64(nil), best...)
			e[i] /= 2
			return e
		}) {
			improved = true
		}
		if pass(func() int { return len(best) }, func(i int) []uint64 {
			if best[i] == 0 {
				return nil
			}
			e := append([]uint64(nil), best...)
			e[i]--
			return e
		}) {
			improved = true
		}
	}
	return best
}

// ---- evidence, violations ----

func (c *Ctx) finish() int {
	st := c.St
	ev := map[string]any{
		"property": c.Check.ID, "tier": tier, "seed": seed, "level": c.Check.Level,
		"wall_s":     time.Since(started).Seconds(),
		"violations": len(c.fails),
	}
	cov := map[string]any{
		"evaluations": st.evals, "distinct_nontrivial": len(st.distinct),
		"rule": c.Check.Rule, "samples": st.samples, "classes": st.classes,
	}
	if len(st.dropped) > 0 {
		cov["dropped"] = st.dropped
	}
	for k, v := range st.extra {
		cov[k] = v
	}
	if st.samples == nil {
		cov["samples"] = []string{}
	}
	ev["coverage"] = cov
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755))
	must(os.WriteFile(filepath.Join(verifDir, "evidence", c.Check.ID+".json"), append(b, '\n'), 0o644))
	var ks []string
	for k := range st.classes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	fmt.Printf("%s %s seed %d: %d cases, %d distinct non-trivial, %.1f s\n", c.Check.ID, tier, seed, st.evals, len(st.distinct), time.Since(started).Seconds())
	for _, k := range ks {
		fmt.Printf("  %-28s %d\n", k, st.classes[k])
	}
	for k, v := range st.dropped {
		fmt.Printf("  dropped %-28s %d\n", k, v)
	}
	for _, k := range c.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Check.ID, k)
	}
	if len(c.fails) == 0 {
		if st.evals == 0 {
			infra("no case was run")
		}
		return 0
	}
	for i, f := range c.fails {
		must(os.MkdirAll(filepath.Join(verifDir, "replays"), 0o755))
		p := filepath.Join(verifDir, "replays", fmt.Sprintf("%s-%s-%d-%d.json", f.Property, tier, seed, i))
		b, err := json.MarshalIndent(f, "", " ")
		must(err)
		must(os.WriteFile(p, append(b, '\n'), 0o644))
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, p)
		fmt.Printf("  %s\n  expected: %s\n  got: %s\n", f.What, clip(f.Expected), clip(f.Got))
		for _, n := range f.Order {
			fmt.Printf("--- %s\n%s", n, clip(f.Files[n]))
		}
	}
	return 1
}

func clip(s string) string {
	if len(s) > 3000 {
		return s[:3000] + "..."
	}
	return s
}
