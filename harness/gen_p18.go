package main

// P18: several runs of blang at the same time in one directory.  A clang that
// waits for the scheduler before and after its work makes the interleaving part
// of the case; every job must end as it does alone.

import (
	"bufio"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

type parJob struct {
	words []string
	outs  []string
	mode  string
	save  bool
}

func (j parJob) String() string { return "blang " + quoteWords(j.words) }

type parRun struct {
	files map[string][]byte
	jobs  []parJob
	sched []int // which job, among those that are not finished, runs next
	delay []int // ms before each system call on files, when the jobs run freely
	start []int // ms
}

// A step is a job's work up to its next call of clang, the end of that call, or
// the end of the job.
const parSteps = 60

func gatedClang() string {
	d := filepath.Join(cli.dir, "gate")
	must(os.MkdirAll(d, 0o755))
	p := filepath.Join(d, "clang")
	if _, err := os.Stat(p); err == nil {
		return d
	}
	t, err := os.CreateTemp(d, "x")
	must(err)
	// The gate is a pair of pipes with names.
	fmt.Fprint(t, "#!/bin/sh\nwait_() { echo > \"$GATE/req\"; read x < \"$GATE/go\"; }\nwait_\n/usr/bin/env PATH=\"$REALPATH\" clang \"$@\"\nr=$?\nwait_\nexit $r\n")
	must(t.Close())
	must(os.Chmod(t.Name(), 0o755))
	must(os.Rename(t.Name(), p))
	return d
}

// genParallelCase gives the order of the steps; genDelayCase lets the jobs run
// freely, each with a delay at its system calls on files, which opens the windows
// between them.
func genParallelCase(s *Src) *Case { return parallelCase(s, false) }

func genDelayCase(s *Src) *Case {
	if !straceWorks() {
		return nil
	}
	return parallelCase(s, true)
}

func parallelCase(s *Src, free bool) *Case {
	if cliSetup() != "" {
		return nil
	}
	files := map[string][]byte{}
	var names []string
	add := func(n string, data []byte) string {
		if _, ok := files[n]; !ok {
			files[n] = data
			names = append(names, n)
		}
		return n
	}
	stems := []string{"a", "prog", "util", "x.y", "m n", "zz", "q", "lib", "t1"}
	shuffle(s, stems)
	dirs := []string{"", "", "", "sub/", "d ir/"}
	// the modules, in one or two forms
	forms := map[string][]string{}
	mod := func(m string, exts []string) string {
		var ok []string
		for _, f := range forms[m] {
			for _, e := range exts {
				if filepath.Ext(f) == e {
					ok = append(ok, f)
				}
			}
		}
		if len(ok) > 0 && !s.P(1, 4) {
			return pick(s, ok)
		}
		e := pick(s, exts)
		n := pick(s, dirs) + stems[(len(forms)+len(forms[m]))%len(stems)] + e
		if _, used := files[n]; used {
			n = fmt.Sprintf("f%d%s", len(files), e)
		}
		forms[m] = append(forms[m], n)
		return add(n, cli.art[m+e])
	}
	exts := map[string][]string{"exe": {".b", ".b", ".b", ".ll", ".o"}, "-c": {".b", ".b", ".ll", ".s"}, "-S": {".b", ".b", ".ll"}, "--emit-llvm": {".b"}}
	var jobs []parJob
	taken := map[string]bool{}
	saved := false
	n := s.Weighted(0, 0, 6, 3, 2, 1)
	var cl []string
	// often all the jobs do much the same
	theme, alike, common := "", 0, ""
	if s.Bool() {
		theme = []string{"exe", "-c", "-S", "--emit-llvm"}[s.Weighted(3, 2, 2, 1)]
		alike = s.N(5)
		if theme != "exe" && s.P(2, 3) {
			common = pick(s, []string{"h0", "h1", "main0"})
		}
		cl = append(cl, "alike:"+theme)
	}
	for i := 0; i < n; i++ {
		mode := []string{"exe", "-c", "-S", "--emit-llvm"}[s.Weighted(6, 3, 2, 1)]
		if theme != "" {
			mode = theme
		}
		j := parJob{mode: mode}
		var ins []string
		if mode == "exe" {
			k := s.N(4)
			for h := 0; h < k; h++ {
				ins = append(ins, mod(fmt.Sprint("h", h), exts[mode]))
			}
			ins = append(ins, mod(fmt.Sprint("main", k), exts[mode]))
			if s.Bool() { // the shared ones last or first
				for a, b := 0, len(ins)-1; a < b; a, b = a+1, b-1 {
					ins[a], ins[b] = ins[b], ins[a]
				}
			}
		} else {
			l := []string{"h0", "h1", "h2", "main0", "main2"}
			shuffle(s, l)
			if common != "" {
				l = []string{common}
			}
			for _, m := range l[:min(len(l), s.Weighted(4, 3, 1)+1)] {
				ins = append(ins, mod(m, exts[mode]))
			}
		}
		switch s.N(12) {
		case 0:
			ins = append(ins, add("bad.b", []byte("f() { return(1; }\n")))
			cl = append(cl, "job:in error")
		case 1:
			if mode == "exe" {
				ins = append(ins, add("undef.b", []byte("zq() { nowhere_defined(1); }\n")))
				cl = append(cl, "job:not linked")
			}
		}
		o := ""
		if mode == "exe" || len(ins) == 1 {
			if s.P(3, 4) {
				o = pick(s, []string{"out", "sub/out", "r.x", "./out", "d ir/o"}) + fmt.Sprint(i)
				ext := map[string]string{"exe": pick(s, []string{"", ".exe", ".out"}), "-c": ".o", "-S": ".s", "--emit-llvm": ".ll"}[mode]
				switch alike {
				case 1: // names with the usual extension
					o = fmt.Sprint("out", i) + ext
				case 2: // which differ in the extension only
					o = fmt.Sprint("out.", i)
				case 3: // in the directory only
					o = []string{"r", "sub/r", "d ir/r", "r2", "sub/r2"}[i] + ext
				case 4: // in the case or the end only
					o = []string{"sub/r", "sub/R", "sub/r1", "sub/r_", "sub/r.r"}[i] + ext
				}
			}
		}
		base := func(p string) string {
			b := filepath.Base(p)
			return strings.TrimSuffix(b, filepath.Ext(b))
		}
		if o != "" {
			j.outs = []string{filepath.Clean(o)}
		} else if mode == "exe" {
			j.outs = []string{base(ins[0])}
		} else {
			for _, in := range ins {
				j.outs = append(j.outs, base(in)+map[string]string{"-c": ".o", "-S": ".s", "--emit-llvm": ".ll"}[mode])
			}
		}
		for _, f := range j.outs {
			if taken[f] || f == "sub" || f == "d ir" {
				return nil
			}
			taken[f] = true
		}
		if mode != "exe" {
			j.words = append(j.words, mode)
		}
		if s.P(1, 3) {
			j.words = append(j.words, fmt.Sprint("-O", s.N(4)))
		}
		asm := false
		for _, f := range ins {
			asm = asm || strings.HasSuffix(f, ".s") // its debug information tells the directory
		}
		if s.P(1, 6) && !asm {
			j.words = append(j.words, "-g")
		}
		if !saved && s.P(1, 8) {
			saved = true
			j.save = true
			j.words = append(j.words, "--save-temps")
		}
		j.words = append(j.words, ins...)
		if o != "" {
			j.words = append(j.words, "-o", o)
		}
		jobs = append(jobs, j)
		cl = append(cl, "job:"+mode)
	}
	for _, f := range names {
		if taken[f] {
			return nil
		}
	}
	p := &parRun{files: files, jobs: jobs}
	if free {
		for range jobs {
			p.delay = append(p.delay, pick(s, []int{0, 1, 2, 3, 5, 8, 13, 20}))
			p.start = append(p.start, s.N(60))
		}
	} else {
		p.sched = make([]int, parSteps)
		for i := range p.sched {
			p.sched[i] = s.N(n)
		}
	}
	var desc strings.Builder
	for i, j := range jobs {
		fmt.Fprintf(&desc, "job %d: %s\n", i, j)
	}
	how := "the jobs in one directory, each step (to the next call of clang, or its end) in the order given"
	if free {
		fmt.Fprintf(&desc, "start (ms): %v\ndelay at system calls (ms): %v\n", p.start, p.delay)
		how = "the jobs in one directory, started at the times given, each with the delay given at its system calls on files (strace inject)"
	} else {
		fmt.Fprintf(&desc, "order: %v\n", p.sched)
	}
	cl = append(cl, fmt.Sprint("jobs:", n))
	fs := map[string]string{"case": desc.String()}
	return &Case{Text: desc.String(), Class: cl, Files: fs, Order: []string{"case"}, Cmd: how, Run: p.run, Timing: free}
}

func (p *parRun) tree() string {
	dir := newDir()
	for _, d := range []string{"sub", "d ir"} {
		must(os.MkdirAll(filepath.Join(dir, d), 0o755))
	}
	for f, b := range p.files {
		must(os.WriteFile(filepath.Join(dir, f), b, 0o644))
	}
	return dir
}

const parPath = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"

func (p *parRun) run() verdict {
	before := func() map[string]string {
		d := p.tree()
		defer os.RemoveAll(d)
		return treeOf(d)
	}()
	// alone
	want := map[string]string{}
	owner := map[string]int{}
	var alone []Res
	for i, j := range p.jobs {
		dir := p.tree()
		r := run(RunOpt{Dir: dir, Lim: limits{cpu: 60}}, append([]string{blang}, j.words...)...)
		alone = append(alone, r)
		for f, t := range treeOf(dir) {
			if b, ok := before[f]; ok {
				if b != t {
					os.RemoveAll(dir)
					return verdict{what: "a job alone changes an input", want: f + " as before", got: "changed by " + j.String()}
				}
				continue
			}
			want[f] = t
			owner[f] = i
		}
		os.RemoveAll(dir)
	}
	// together
	dir := p.tree()
	defer os.RemoveAll(dir)
	tmp := newDir()
	defer os.RemoveAll(tmp)
	got := make([]Res, len(p.jobs))
	if p.delay != nil {
		p.runFree(dir, tmp, got)
	} else {
		p.runSteps(dir, tmp, got)
	}
	return p.judge(before, treeOf(dir), want, owner, alone, got)
}

func (p *parRun) runFree(dir, tmp string, got []Res) {
	const calls = "openat,write,unlinkat,renameat,renameat2,mkdirat,newfstatat,linkat,ftruncate"
	env := []string{"PATH=" + parPath, "HOME=" + homeDir, "LANG=C.UTF-8", "LC_ALL=C.UTF-8", "TMPDIR=" + tmp}
	var wg sync.WaitGroup
	for i, j := range p.jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			args := append([]string{blang}, j.words...)
			if d := p.delay[i]; d > 0 {
				args = append([]string{straceBin(), "-f", "-b", "execve", "-o", "/dev/null", "-e", "trace=" + calls, "-e", fmt.Sprintf("inject=%s:delay_enter=%d", calls, d*1000)}, args...)
			}
			time.Sleep(time.Duration(p.start[i]) * time.Millisecond)
			got[i] = run(RunOpt{Dir: dir, Env: env, Lim: limits{cpu: 60}}, args...)
		}()
	}
	wg.Wait()
}

func (p *parRun) runSteps(dir, tmp string, got []Res) {
	gates := newDir()
	defer os.RemoveAll(gates)
	started := make([]bool, len(p.jobs))
	ended := make([]bool, len(p.jobs))
	type job struct {
		req  chan bool
		done chan bool
		goW  *os.File
		reqR *os.File
	}
	js := make([]job, len(p.jobs))
	gate := gatedClang()
	for i := range js {
		g := filepath.Join(gates, fmt.Sprint(i))
		must(os.Mkdir(g, 0o755))
		must(syscall.Mkfifo(filepath.Join(g, "req"), 0o600))
		must(syscall.Mkfifo(filepath.Join(g, "go"), 0o600))
		var err error
		js[i].reqR, err = os.OpenFile(filepath.Join(g, "req"), os.O_RDWR, 0)
		must(err)
		js[i].goW, err = os.OpenFile(filepath.Join(g, "go"), os.O_RDWR, 0)
		must(err)
		defer js[i].reqR.Close()
		defer js[i].goW.Close()
		js[i].req = make(chan bool, 100)
		js[i].done = make(chan bool, 1)
		go func() {
			rd := bufio.NewReader(js[i].reqR)
			for {
				if _, err := rd.ReadString('\n'); err != nil {
					return
				}
				js[i].req <- true
			}
		}()
	}
	step := func(i int) {
		if !started[i] {
			started[i] = true
			env := []string{"PATH=" + gate + ":" + parPath, "REALPATH=" + parPath, "GATE=" + filepath.Join(gates, fmt.Sprint(i)), "HOME=" + homeDir, "LANG=C.UTF-8", "LC_ALL=C.UTF-8", "TMPDIR=" + tmp}
			go func() {
				got[i] = run(RunOpt{Dir: dir, Env: env, Lim: limits{cpu: 60}}, append([]string{blang}, p.jobs[i].words...)...)
				js[i].done <- true
			}()
		} else {
			js[i].goW.WriteString("go\n")
		}
		select {
		case <-js[i].req:
		case <-js[i].done:
			ended[i] = true
		}
	}
	for n := 0; ; n++ {
		var live []int
		for i := range js {
			if !ended[i] {
				live = append(live, i)
			}
		}
		if len(live) == 0 {
			break
		}
		i := live[0]
		if n < len(p.sched) {
			i = live[p.sched[n]%len(live)]
		}
		step(i)
	}
}

func (p *parRun) judge(before, after, want map[string]string, owner map[string]int, alone, got []Res) verdict {
	for i, j := range p.jobs {
		if a, b := alone[i], got[i]; a.Status != b.Status || string(a.Stdout) != string(b.Stdout) || string(a.Stderr) != string(b.Stderr) {
			return verdict{what: "a job ends otherwise than alone", want: fmt.Sprintf("%s: %s, output %q, message %q", j, a.ended(), clipB(a.Stdout), clipB(a.Stderr)), got: fmt.Sprintf("%s, output %q, message %q", b.ended(), clipB(b.Stdout), clipB(b.Stderr))}
		}
	}
	var all []string
	for f := range after {
		all = append(all, f)
	}
	sort.Strings(all)
	for f, t := range before {
		if a, ok := after[f]; !ok || a != t {
			return verdict{what: "a file which was there is changed or removed", want: f + " as before", got: fmt.Sprintf("files %q", all)}
		}
	}
	for f, t := range want {
		a, ok := after[f]
		if !ok {
			return verdict{what: "a file of a job is missing", want: fmt.Sprintf("%s of %s", f, p.jobs[owner[f]]), got: fmt.Sprintf("files %q", all)}
		}
		if a != t {
			return verdict{what: "a file of a job is not what the job makes alone", want: fmt.Sprintf("%s of %s: %d bytes", f, p.jobs[owner[f]], len(t)), got: fmt.Sprintf("%d other bytes", len(a))}
		}
	}
	for f := range after {
		if _, ok := before[f]; ok {
			continue
		}
		if _, ok := want[f]; !ok {
			return verdict{what: "an unexpected file is left", want: "only the outputs", got: f}
		}
	}
	return verdict{ok: true}
}
