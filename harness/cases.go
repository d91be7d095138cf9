package main

// Checks whose cases are not units of one program: each case is made from a
// choice sequence, run, and shrunk by editing that sequence.

import (
	"fmt"
	"runtime"
	"sync"
	"time"
)

type Case struct {
	Text  string // what is counted as distinct and shown as a sample
	Class []string
	Triv  bool
	Files map[string]string
	Order []string
	Cmd   string
	Run   func() verdict
	// the outcome depends on the time: a failure counts though it does not happen again
	Timing bool
}

type CaseGen struct {
	Name   string
	Weight int
	Gen    func(s *Src) *Case
}

// A note made by a case while it runs is counted as a class.
type caseNotes struct {
	mu sync.Mutex
	m  map[string]int64
}

func (n *caseNotes) add(k string) {
	n.mu.Lock()
	if n.m == nil {
		n.m = map[string]int64{}
	}
	n.m[k]++
	n.mu.Unlock()
}

var notes caseNotes

var caseChecks = map[string][]CaseGen{}

func pickCase(gens []CaseGen, s *Src) CaseGen {
	var w []int
	for _, g := range gens {
		w = append(w, g.Weight)
	}
	return gens[s.Weighted(w...)]
}

// makeCase generates a case; err tells that the choices give none.
func makeCase(gens []CaseGen, s *Src) (c *Case, name string, err error) {
	defer func() {
		if r := recover(); r != nil {
			if t, ok := r.(Trap); ok {
				err = t
				return
			}
			panic(r)
		}
	}()
	g := pickCase(gens, s)
	name = g.Name
	c = g.Gen(s)
	if c == nil {
		err = Trap{"no case"}
	}
	return
}

// runCases explores up to n cases, on all cores, until the budget is used up.
func (c *Ctx) runCases(gens []CaseGen, n int, salt string) int {
	caseChecks[c.Check.ID+salt] = gens
	base := seedOf(uint64(seed), strSeed(c.Check.ID+salt))
	// more workers than cores: cases wait for processes
	return c.parallel(n, func(i int) {
		s := NewSrc(seedOf(base, uint64(i)))
		cs, name, err := makeCase(gens, s)
		if err != nil {
			c.St.drop(name + ": " + err.Error())
			return
		}
		v := cs.Run()
		if v.ok {
			c.St.add(fnv(name+cs.Text), !cs.Triv, append([]string{"gen:" + name}, cs.Class...), func() string { return cs.Text })
			return
		}
		c.reportCase(gens, s.rec, cs, name, v, salt)
	})
}

func (c *Ctx) reportCase(gens []CaseGen, rec []uint64, cs *Case, name string, v verdict, salt string) {
	c.mu.Lock()
	busy := c.stop.Load()
	c.stop.Store(true)
	c.mu.Unlock()
	if busy {
		return
	}
	again := cs.Run()
	for k := 0; again.ok && k < 10; k++ {
		again = cs.Run()
	}
	if again.ok && cs.Timing {
		c.fail(&Failure{Kind: "choices", What: v.what, Expected: v.want, Got: v.got, Choices: rec, Case: name + salt, Files: cs.Files, Order: cs.Order, Cmd: cs.Cmd})
		return
	}
	if again.ok {
		infra("a failure is not reproducible: %s; want %s got %s", v.what, v.want, v.got)
	}
	v = again
	deadline := time.Now().Add(90 * time.Second)
	budget := func() bool { return time.Now().Before(deadline) }
	ch := shrinkMany(rec, budget, func(cands [][]uint64) int {
		res := make([]bool, len(cands))
		var wg sync.WaitGroup
		var sem = make(chan struct{}, runtime.NumCPU())
		for i := range cands {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				x, _, err := makeCase(gens, ReplaySrc(cands[i]))
				if err != nil {
					return
				}
				r := x.Run()
				res[i] = !r.ok && r.what == v.what
			}(i)
		}
		wg.Wait()
		for i, r := range res {
			if r {
				return i
			}
		}
		return -1
	})
	if x, nm, err := makeCase(gens, ReplaySrc(ch)); err == nil {
		if r := x.Run(); !r.ok {
			cs, v, name = x, r, nm
		}
	}
	f := &Failure{Kind: "choices", What: v.what, Expected: v.want, Got: v.got, Choices: ch, Case: name + salt, Files: cs.Files, Order: cs.Order, Cmd: cs.Cmd}
	if f.Files == nil {
		f.Files = map[string]string{"case": cs.Text}
		f.Order = []string{"case"}
	}
	c.fail(f)
}

func init() {
	replayers["choices"] = func(f *Failure) (bool, string) {
		for key, gens := range caseChecks {
			if len(key) < len(f.Property) || key[:len(f.Property)] != f.Property {
				continue
			}
			if x, name, err := makeCase(gens, ReplaySrc(f.Choices)); err == nil && name+key[len(f.Property):] == f.Case {
				v := x.Run()
				return !v.ok, v.what + ": " + v.got
			}
		}
		infra("the case cannot be generated again")
		return false, ""
	}
}

// caseCheck registers a check made of such cases.
func caseCheck(id string, gens []CaseGen, quick, thorough time.Duration, rule string) {
	caseChecks[id] = gens
	checks = append(checks, &Check{ID: id, Level: "exploration", Rule: rule, Run: func(c *Ctx) {
		c.budget(quick, thorough)
		c.runCases(gens, 100000000, "")
		c.takeNotes()
	}})
}

func (c *Ctx) takeNotes() {
	notes.mu.Lock()
	defer notes.mu.Unlock()
	for k, v := range notes.m {
		c.St.extra["note: "+k] = v
		fmt.Printf("  note %-28s %d\n", k, v)
	}
}
