package main

// P14: the command line.  Every case makes a directory tree, runs blang in it
// and compares the tree, the status and the outputs with a model.

import (
	"bytes"
	"debug/elf"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

// Modules: main calls the first K helpers.  Every module has a lot of code that
// any optimisation removes.
const cliHelpers = 6

func deadCode() string {
	var sb strings.Builder
	sb.WriteString("  auto d0, d1, d2, d3;\n")
	for i := 0; i < 40; i++ {
		fmt.Fprintf(&sb, "  d%d = d%d + %d;\n", i%4, (i+1)%4, i)
	}
	return sb.String()
}

func cliMain(k int) string {
	var sb strings.Builder
	sb.WriteString("main() {\n" + deadCode())
	for i := 0; i < k; i++ {
		fmt.Fprintf(&sb, "  helper%d(%d);\n", i, i+5)
	}
	fmt.Fprintf(&sb, "  write('m*n');\n  return(%d);\n}\n", 40+k)
	return sb.String()
}

func cliHelper(i int) string {
	return fmt.Sprintf("hv%d[3] 1, 2, %d;\nhelper%d(x) {\n  extrn hv%d;\n%s  printf(\"h%d %%d %%s*n\", x * hv%d[2], \"end\");\n  return(x);\n}\n", i, i+10, i, i, deadCode(), i, i)
}

// A library which leaves its work to another one, which is given after it.
func cliFront(i int) string {
	return fmt.Sprintf("helper%d(x) {\n%s  return(back%d(x));\n}\n", i, deadCode(), i)
}

func cliBack(i int) string {
	return strings.Replace(cliHelper(i), fmt.Sprintf("helper%d(", i), fmt.Sprintf("back%d(", i), 1)
}

// A library of the same name in a directory which is searched later.
func cliOther(i int) string {
	return fmt.Sprintf("helper%d(x) {\n  write('??*n');\n  return(x);\n}\nback%d(x) {\n  write('???*n');\n  return(x);\n}\n", i, i)
}

func cliOutput(k int) string {
	s := ""
	for i := 0; i < k; i++ {
		s += fmt.Sprintf("h%d %d end\n", i, (i+5)*(i+10))
	}
	return s + "m\n"
}

// Artifacts: the modules in every form, and what their optimised forms must beat.
var cli struct {
	once sync.Once
	err  string
	art  map[string][]byte // "main2.ll", "h0.o"
	text map[string]uint64 // size of the code at -O0
	slen map[string]int    // length of the assembly at -O0
	dir  string
}

func cliSetup() string {
	cli.once.Do(func() {
		cli.art = map[string][]byte{}
		cli.text = map[string]uint64{}
		cli.slen = map[string]int{}
		cli.dir = newDir()
		fakeClang(cli.dir)
		mods := map[string]string{}
		for k := 0; k <= cliHelpers; k++ {
			mods[fmt.Sprintf("main%d", k)] = cliMain(k)
		}
		for i := 0; i < cliHelpers; i++ {
			mods[fmt.Sprintf("h%d", i)] = cliHelper(i)
			mods[fmt.Sprintf("front%d", i)] = cliFront(i)
			mods[fmt.Sprintf("back%d", i)] = cliBack(i)
			mods[fmt.Sprintf("other%d", i)] = cliOther(i)
		}
		var names []string
		for m := range mods {
			names = append(names, m)
		}
		sort.Strings(names)
		var mu sync.Mutex
		build := func(m string) {
			bad := func(f string, a ...any) {
				mu.Lock()
				cli.err = fmt.Sprintf(f, a...)
				mu.Unlock()
			}
			must(os.WriteFile(filepath.Join(cli.dir, m+".b"), []byte(mods[m]), 0o644))
			o := RunOpt{Dir: cli.dir, Lim: limits{cpu: 60}}
			r := run(o, blang, "--emit-llvm", m+".b")
			if r.Status != 0 {
				bad("blang --emit-llvm %s.b: %s %q", m, r.ended(), clipB(r.Stderr))
				return
			}
			for _, c := range [][]string{{"clang", "-S", "-o", m + ".s", m + ".ll"}, {"clang", "-c", "-o", m + ".o", m + ".ll"}, {"ar", "rc", m + ".a", m + ".o"}} {
				if r := run(o, c...); r.Status != 0 {
					bad("%s: %s %q", strings.Join(c, " "), r.ended(), clipB(r.Stderr))
					return
				}
			}
			for _, e := range []string{".b", ".ll", ".s", ".o", ".a"} {
				b, err := os.ReadFile(filepath.Join(cli.dir, m+e))
				if err != nil {
					bad("%v", err)
					return
				}
				mu.Lock()
				cli.art[m+e] = b
				mu.Unlock()
			}
			mu.Lock()
			cli.slen[m] = len(cli.art[m+".s"])
			cli.text[m] = textSize(filepath.Join(cli.dir, m+".o"))
			mu.Unlock()
		}
		var wg sync.WaitGroup
		sem := make(chan bool, 8)
		for _, m := range names {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				build(m)
				<-sem
			}()
		}
		wg.Wait()
	})
	return cli.err
}

func fakeClang(dir string) {
	for n, body := range map[string]string{"fail": "exit 1", "fail3": "echo oops >&2; exit 3", "kill": "kill -9 $$", "none": ""} {
		d := filepath.Join(dir, "fake-"+n)
		must(os.MkdirAll(d, 0o755))
		if body != "" {
			must(os.WriteFile(filepath.Join(d, "clang"), []byte("#!/bin/sh\n"+body+"\n"), 0o755))
		}
	}
}

// textSize is the size of the code of an object file, 0 if it is none.
func textSize(path string) uint64 {
	f, err := elf.Open(path)
	if err != nil {
		return 0
	}
	defer f.Close()
	if f.Type != elf.ET_REL {
		return 0
	}
	var n uint64
	for _, s := range f.Sections {
		if s.Flags&elf.SHF_EXECINSTR != 0 {
			n += s.Size
		}
	}
	return n
}

type cliIn struct {
	mod  string
	ext  string
	path string // as on the command line
	file string // relative to the directory
	data []byte
	bad  bool
}

func (i cliIn) base() string {
	b := filepath.Base(i.file)
	return strings.TrimSuffix(b, filepath.Ext(b))
}

func treeOf(dir string) map[string]string {
	t := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		must(err)
		rel, _ := filepath.Rel(dir, p)
		if fi.IsDir() {
			t[rel+"/"] = ""
			return nil
		}
		if fi.Mode()&os.ModeSymlink != 0 {
			t[rel] = "symlink"
			return nil
		}
		b, err := os.ReadFile(p)
		must(err)
		t[rel] = string(b)
		return nil
	})
	return t
}

var badSources = []string{"main( { }\n", "f() { x = 1; }\n", "f() { return(1; }\n", "f() { goto nowhere; }\n", "x = 5;\n", "f() { /* open\n", "f() { \"open }\n", "}\n", "f() { auto a, a; }\n"}

func genCLICase(s *Src) *Case {
	if cliSetup() != "" {
		return nil
	}
	modes := []string{"exe", "-c", "-S", "--emit-llvm"}
	mode := modes[s.Weighted(4, 3, 3, 3)]
	fault := ""
	if s.P(2, 5) {
		fl := []string{"bad source", "missing input", "extension", "bad -O", "unknown option", "no output directory", "output is a directory", "clang fails", "no clang", "clang killed", "no input"}
		if mode == "exe" {
			fl = append(fl, "no runtime", "no library", "undefined function", "two mains", "input is a directory", "not an object")
		} else {
			fl = append(fl, "-o with several inputs", "input type", "-o with several inputs", "input type")
		}
		fl = append(fl, "full disk", "full disk", "bad source", "dangling link", "no value", "below a file", "help", "version")
		if straceWorks() {
			fl = append(fl, "read error", "read error")
		}
		fault = pick(s, fl)
	}
	if mode == "--emit-llvm" && (fault == "clang fails" || fault == "no clang" || fault == "clang killed") {
		fault = "full disk"
	}
	stems := []string{"a", "prog", "x1", "my prog", "a.b", "lib-x", "UP", "\xc3\xa4", "main", "hello.world", "q'q", "$x", "e2", "_z", "b", "o", "ll"}
	shuffle(s, stems)
	dirs := []string{"sub", "sub/deep", "d ir"}
	// inputs
	var ins []cliIn
	k := 0
	addIn := func(mod, ext string) {
		in := cliIn{mod: mod, ext: ext, data: cli.art[mod+ext]}
		if ext == ".b" {
			in.data = []byte(strings.Repeat("\n", s.N(3)) + string(in.data))
		}
		st := stems[len(ins)]
		d := ""
		if s.P(1, 3) {
			d = pick(s, dirs) + "/"
		}
		in.file = d + st + ext
		if mode == "exe" && len(ins) > 0 && s.P(1, 6) { // another file of the same name
			n := pick(s, append([]string{""}, "sub/", "sub/deep/", "d ir/")) + ins[0].base() + ext
			used := false
			for _, x := range ins {
				used = used || x.file == n
			}
			if !used {
				in.file = n
			}
		}
		switch s.N(6) {
		case 1:
			in.path = "./" + in.file
		case 2:
			in.path = "$CWD/" + in.file
		case 3:
			in.path = "sub/../" + in.file
		default:
			in.path = in.file
		}
		ins = append(ins, in)
	}
	exts := map[string][]string{"exe": {".b", ".b", ".ll", ".s", ".o"}, "-c": {".b", ".b", ".ll", ".s"}, "-S": {".b", ".b", ".ll"}, "--emit-llvm": {".b"}}[mode]
	var libs []int
	if mode == "exe" {
		k = pick(s, []int{0, 1, 2, 3, 0, 1, 2, 3, 4, 5, cliHelpers})
		var hs []int
		for i := 0; i < k; i++ {
			hs = append(hs, i)
		}
		at := s.N(k + 1)
		for i, h := range hs {
			if i == at {
				addIn(fmt.Sprintf("main%d", k), pick(s, exts))
			}
			if i >= at && s.P(1, 5) {
				addIn(fmt.Sprintf("h%d", h), ".a")
			} else if s.P(1, 5) {
				libs = append(libs, h)
			} else {
				addIn(fmt.Sprintf("h%d", h), pick(s, exts))
			}
		}
		if at == k {
			addIn(fmt.Sprintf("main%d", k), pick(s, exts))
		}
	} else {
		n := s.Weighted(20, 12, 4, 2, 2, 1, 0, 1) + 1
		mods := []string{"h0", "h1", "h2", "main0", fmt.Sprint("main", cliHelpers), "h3", "h4", "h5"}
		shuffle(s, mods)
		for i := 0; i < n; i++ {
			addIn(mods[i], pick(s, exts))
		}
	}
	dirNames := map[string]bool{}
	for _, d := range dirs {
		dirNames[d] = true
	}
	// options: groups of words
	var opts [][]string
	opt := func(w ...string) { opts = append(opts, w) }
	var ordered [][]string // take the places of the nils
	level := 0
	optSpell := func(v string) []string {
		switch s.N(4) {
		case 1:
			return []string{"-O", v}
		case 2:
			return []string{"--optimize=" + v}
		case 3:
			return []string{"--optimize", v}
		}
		return []string{"-O" + v}
	}
	mention := ""
	if fault == "bad -O" {
		mention = pick(s, []string{"4", "9", "-1", "s", "fast", "00", "1x", "10", "z"})
		opt(optSpell(mention)...)
	} else if s.P(1, 2) {
		level = s.N(4)
		if s.P(1, 6) { // the last one counts
			ordered = append(ordered, optSpell(fmt.Sprint(s.N(4))), optSpell(fmt.Sprint(level)))
			opts = append(opts, nil, nil)
		} else {
			opt(optSpell(fmt.Sprint(level))...)
		}
	}
	debug, verbose := false, false
	flag := func(l ...string) {
		w := pick(s, l)
		debug = debug || w == "--debug" || !strings.HasPrefix(w, "--") && strings.Contains(w, "g")
		verbose = verbose || w == "--verbose" || !strings.HasPrefix(w, "--") && strings.Contains(w, "v")
		opt(w)
	}
	switch mode {
	case "-c":
		flag("-c", "-c", "--compile", "-cg", "--compile=true", "-vc")
	case "-S":
		flag("-S", "-S", "--assemble", "-gS", "-vSg")
	case "--emit-llvm":
		opt("--emit-llvm")
	}
	if s.P(1, 4) {
		flag("-g", "--debug", "-gv")
	}
	if s.P(1, 5) {
		flag("-v", "--verbose")
	}
	save := s.P(1, 4)
	if save {
		opt("--save-temps")
	}
	if s.P(1, 5) {
		opt(pick(s, [][]string{{"-L", "sub"}, {"-Lsub"}, {"--library-dir=d ir"}, {"-L", "nowhere"}})...)
	}
	runtimeByL := false
	if len(libs) > 0 || fault == "no library" {
		opt(pick(s, [][]string{{"-L", "$LIB"}, {"-L$LIB"}, {"--library-dir=$LIB"}, {"--library-dir", "$LIB"}})...)
		var l [][]string
		lib := func(n string) []string {
			return pick(s, [][]string{{"-l", n}, {"-l" + n}, {"--library=" + n}, {"--library", n}})
		}
		if s.P(1, 3) { // searched later
			ordered = append(ordered, opts[len(opts)-1])
			opts = opts[:len(opts)-1]
			ordered = append(ordered, pick(s, [][]string{{"-L", "$LIB2"}, {"-L$LIB2"}, {"--library-dir=$LIB2"}}))
			l = append(l, nil, nil)
		}
		for _, h := range libs {
			if s.P(1, 2) { // two libraries, in this order
				ordered = append(ordered, lib(fmt.Sprint("front", h)), lib(fmt.Sprint("back", h)))
				l = append(l, nil, nil)
			} else {
				l = append(l, lib(fmt.Sprint("h", h)))
			}
		}
		if fault == "no library" {
			l = append(l, []string{"-lnope"})
		}
		opts = append(opts, l...)
	} else if s.P(1, 6) && mode == "exe" && fault == "" {
		runtimeByL = true
		opt("-L", "$RT")
	}
	// output
	out := ""
	multi := len(ins) > 1
	if fault == "-o with several inputs" {
		if !multi {
			return nil
		}
		out = "out.x"
	} else if (!multi || mode == "exe") && s.P(1, 2) {
		out = pick(s, []string{"out", "sub/out", "out.x", "d ir/o p", "$CWD/result", "sub/../z.exe", "out.o", "out.b2"})
	}
	switch fault {
	case "no output directory":
		out = "nodir/out"
	case "output is a directory":
		out = "sub"
	case "below a file":
		out = "notes.txt/out"
	}
	if strings.HasPrefix(fault, "no output") || strings.HasPrefix(fault, "output is") || fault == "below a file" {
		if multi && mode != "exe" {
			return nil
		}
	}
	if out != "" {
		oo := func(n string) []string {
			return pick(s, [][]string{{"-o", n}, {"-o" + n}, {"--output=" + n}, {"--output", n}})
		}
		if s.P(1, 8) { // the last one counts
			ordered = append(ordered, oo("not-this"), oo(out))
			opts = append(opts, nil, nil)
		} else {
			opt(oo(out)...)
		}
	}
	// faults
	env := ""
	fsize := false
	readErr := 0
	badAt := -1
	first := func(p func(cliIn) bool) int {
		var c []int
		for i, in := range ins {
			if p(in) {
				c = append(c, i)
			}
		}
		if len(c) == 0 {
			return -1
		}
		return pick(s, c)
	}
	isB := func(in cliIn) bool { return in.ext == ".b" }
	switch fault {
	case "bad source":
		if badAt = first(isB); badAt < 0 {
			return nil
		}
		src := pick(s, badSources)
		if s.Bool() {
			src = string(ins[badAt].data) + src
		}
		ins[badAt].data = []byte(src)
	case "missing input", "dangling link", "input is a directory":
		badAt = s.N(len(ins))
		ins[badAt].bad = true
		if fault == "input is a directory" && ins[badAt].ext != ".b" {
			return nil
		}
	case "extension":
		badAt = s.N(len(ins))
		e := pick(s, []string{".txt", ".c", ".B", "", ".bb", ".b~", ".so", ".ll.bak"})
		ins[badAt].file = strings.TrimSuffix(ins[badAt].file, ins[badAt].ext) + "_" + e
		ins[badAt].path = ins[badAt].file
		ins[badAt].data = cli.art["h0.b"]
		ins[badAt].ext = e
	case "input type":
		badAt = s.N(len(ins))
		e := pick(s, map[string][]string{"-c": {".o", ".a"}, "-S": {".s", ".o", ".a"}, "--emit-llvm": {".ll", ".s", ".o", ".a"}}[mode])
		ins[badAt].file = strings.TrimSuffix(ins[badAt].file, ins[badAt].ext) + e
		ins[badAt].path = ins[badAt].file
		ins[badAt].ext = e
		ins[badAt].data = cli.art[ins[badAt].mod+e]
	case "unknown option":
		o := pick(s, []string{"--bogus", "-x", "-q", "--emitllvm", "--save-temp", "-cz", "--optimise=1", "-W"})
		opt(o)
		mention = map[string]string{"-x": "x", "-q": "q", "-cz": "z", "--optimise=1": "--optimise", "-W": "W"}[o]
		if mention == "" {
			mention = o
		}
	case "help":
		opt(pick(s, []string{"-h", "--help"}))
	case "version":
		opt(pick(s, []string{"-V", "--version"}))
	case "no value":
		// the last word of the command line
	case "clang fails":
		env = pick(s, []string{"fail", "fail3"})
	case "no clang":
		env = "none"
	case "clang killed":
		env = "kill"
	case "read error":
		if badAt = first(isB); badAt < 0 {
			return nil
		}
		readErr = 1
		if s.P(2, 3) {
			readErr = 1 + s.N(len(ins[badAt].data)+1)
		}
	case "full disk":
		fsize = true
		if badAt = first(isB); badAt < 0 {
			return nil
		}
	case "undefined function":
		ins = append(ins, cliIn{mod: "u", ext: ".b", path: "undef.b", file: "undef.b", data: []byte("zq() { nowhere_defined(1); }\n")})
	case "two mains":
		ins = append(ins, cliIn{mod: "u", ext: ".b", path: "second.b", file: "second.b", data: []byte("main() { return(1); }\n")})
	case "not an object":
		ins = append(ins, cliIn{mod: "u", ext: ".o", path: "junk.o", file: "junk.o", data: []byte("this is not an object file\n")})
	}
	if fault == "no input" {
		if len(opts) == 0 {
			return nil
		}
	}
	switch fault {
	case "missing input", "dangling link", "extension", "input type":
		mention = filepath.Base(ins[badAt].file)
	}
	// the command line: options and inputs mixed
	var words []string
	shuffle(s, opts)
	for i := range opts {
		if opts[i] == nil {
			opts[i], ordered = ordered[0], ordered[1:]
		}
	}
	inw := ins
	if fault == "no input" || (fault == "help" || fault == "version") && s.Bool() {
		inw = nil
	}
	oi, ii := 0, 0
	dd := s.P(1, 12) // inputs after --
	if fault == "no value" {
		dd = false
	}
	for oi < len(opts) || ii < len(inw) {
		if ii >= len(inw) || (oi < len(opts) && (dd || s.Bool())) {
			words = append(words, opts[oi]...)
			oi++
			continue
		}
		if dd && ii == 0 {
			words = append(words, "--")
		}
		words = append(words, inw[ii].path)
		ii++
	}
	if fault == "no value" {
		words = append(words, pick(s, []string{"-o", "-O", "-L", "-l", "--output", "--library"}))
	}
	decoys := map[string]string{"notes.txt": "keep\n", "sub/other.b": "other;\n", "tmp.ll": "keep too\n", "core": "x"}
	stale := s.P(1, 5)

	// the model
	resolve := func(p string) string { return filepath.Clean(strings.TrimPrefix(p, "$CWD/")) }
	ext := map[string]string{"-c": ".o", "-S": ".s", "--emit-llvm": ".ll"}[mode]
	outs := map[string]int{} // file -> input, or -1
	if mode == "exe" {
		o := resolve(out)
		if out == "" {
			o = ins[0].base()
		}
		outs[o] = -1
	} else if out != "" {
		outs[resolve(out)] = 0
	} else {
		for i, in := range ins {
			outs[in.base()+ext] = i
		}
	}
	for o := range outs {
		if dirNames[o] && fault != "output is a directory" {
			return nil
		}
		if decoys[o] != "" {
			return nil
		}
		for _, in := range ins {
			if o == in.file {
				return nil
			}
		}
	}
	if !save && s.P(1, 4) { // the user's own, of names like those of intermediate files
		for i, in := range ins {
			decoys[fmt.Sprintf("%s.tmp.%d.ll", in.base(), i)] = "mine\n"
			decoys[in.base()+".tmp.ll"] = "mine\n"
		}
		for o := range outs {
			decoys[o+".tmp.ll"] = "mine\n"
		}
		if fault == "no output directory" || fault == "below a file" {
			delete(decoys, resolve(out)+".tmp.ll")
		}
	}
	cl := []string{"mode:" + mode}
	if fault != "" {
		cl = append(cl, "fault:"+fault)
	}
	for _, in := range ins {
		cl = append(cl, "input:"+in.ext)
	}
	var desc strings.Builder
	fmt.Fprintf(&desc, "blang %s\n", quoteWords(words))
	for i, in := range ins {
		fmt.Fprintf(&desc, "  input %q: %s%s\n", in.file, in.mod, in.ext)
		if i == badAt && fault != "" {
			fmt.Fprintf(&desc, "    (%s)\n", fault)
			if readErr > 0 {
				fmt.Fprintf(&desc, "    (from reading %d on)\n", readErr)
			}
		}
	}
	fmt.Fprintf(&desc, "  fault: %s; outputs: %v; stale outputs: %v; runtime given by -L: %v\n", fault, sortedOuts(outs), stale, runtimeByL)
	run1 := func() verdict {
		return runCLI(&cliRun{words: words, ins: ins, decoys: decoys, dirs: dirs, outs: outs, mode: mode, fault: fault, env: env, fsize: fsize,
			badAt: badAt, save: save, debug: debug, verbose: verbose, mention: mention, readErr: readErr, stale: stale, level: level, k: k, noHome: runtimeByL || fault == "no runtime", out: resolve(out), hasOut: out != ""})
	}
	return &Case{Text: desc.String(), Class: cl, Files: map[string]string{"case": desc.String()}, Order: []string{"case"}, Cmd: "blang " + quoteWords(words), Run: run1}
}

func sortedOuts(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func quoteWords(w []string) string {
	var l []string
	for _, x := range w {
		if strings.ContainsAny(x, " '$\"\\") || x == "" {
			x = "'" + strings.ReplaceAll(x, "'", `'\''`) + "'"
		}
		l = append(l, x)
	}
	return strings.Join(l, " ")
}

type cliRun struct {
	words   []string
	ins     []cliIn
	decoys  map[string]string
	dirs    []string
	outs    map[string]int
	mode    string
	fault   string
	env     string
	fsize   bool
	badAt   int
	save    bool
	debug   bool
	verbose bool
	mention string // part of the diagnostic
	readErr int    // the first reading of the bad input that fails
	stale   bool
	level   int
	k       int
	noHome  bool
	out     string
	hasOut  bool
}

func runCLI(c *cliRun) verdict {
	dir := newDir()
	defer os.RemoveAll(dir)
	for _, d := range c.dirs {
		must(os.MkdirAll(filepath.Join(dir, d), 0o755))
	}
	for f, t := range c.decoys {
		must(os.WriteFile(filepath.Join(dir, f), []byte(t), 0o644))
	}
	for _, in := range c.ins {
		p := filepath.Join(dir, in.file)
		if in.bad {
			switch c.fault {
			case "dangling link":
				must(os.Symlink("nothing-here", p))
			case "input is a directory":
				must(os.Mkdir(p, 0o755))
			}
			continue
		}
		must(os.WriteFile(p, in.data, 0o644))
	}
	if c.stale && c.fault == "" {
		for o := range c.outs {
			must(os.WriteFile(filepath.Join(dir, o), bytes.Repeat([]byte("stale\n"), 50000), 0o644))
		}
	}
	tmp := newDir()
	defer os.RemoveAll(tmp)
	lib := newDir()
	defer os.RemoveAll(lib)
	lib2 := newDir()
	defer os.RemoveAll(lib2)
	for i := 0; i < cliHelpers; i++ {
		for _, m := range []string{"h", "front", "back"} {
			must(os.WriteFile(filepath.Join(lib, fmt.Sprintf("lib%s%d.a", m, i)), cli.art[fmt.Sprintf("%s%d.a", m, i)], 0o644))
			must(os.WriteFile(filepath.Join(lib2, fmt.Sprintf("lib%s%d.a", m, i)), cli.art[fmt.Sprintf("other%d.a", i)], 0o644))
		}
	}
	rt := filepath.Join(homeDir, ".local", "lib")
	path := "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
	if c.env == "none" {
		path = filepath.Join(cli.dir, "fake-none")
	} else if c.env != "" {
		path = filepath.Join(cli.dir, "fake-"+c.env) + ":" + path
	}
	home := homeDir
	if c.noHome {
		home = lib
	}
	env := []string{"PATH=" + path, "HOME=" + home, "LANG=C.UTF-8", "LC_ALL=C.UTF-8", "TMPDIR=" + tmp}
	args := []string{blang}
	if c.fsize {
		args = []string{"/bin/sh", "-c", `ulimit -f 1; exec "$@"`, "sh", blang}
	}
	if c.readErr > 0 {
		d, err := filepath.EvalSymlinks(dir)
		must(err)
		args = []string{straceBin(), "-f", "-b", "execve", "-o", filepath.Join(lib, "log"), "-P", filepath.Join(d, c.ins[c.badAt].file), "-e", "trace=read,pread64,readv", "-e", fmt.Sprintf("inject=read,pread64,readv:error=EIO:when=%d+", c.readErr), blang}
	}
	rep := strings.NewReplacer("$CWD", dir, "$LIB2", lib2, "$LIB", lib, "$RT", rt)
	for _, w := range c.words {
		args = append(args, rep.Replace(w))
	}
	before := treeOf(dir)
	r := run(RunOpt{Dir: dir, Env: env, Lim: limits{cpu: 60}}, args...)
	after := treeOf(dir)
	if c.readErr > 0 {
		if l, _ := os.ReadFile(filepath.Join(lib, "log")); !bytes.Contains(l, []byte("INJECTED")) {
			notes.add("read error which does not happen")
			return verdict{ok: true}
		}
	}

	// files that are there already are not touched
	for f, t := range before {
		a, ok := after[f]
		if !ok {
			return verdict{what: "a file disappears", want: f, got: "removed"}
		}
		if _, isOut := c.outs[f]; isOut {
			continue
		}
		if a != t {
			return verdict{what: "an input or unrelated file is changed", want: f + " as before", got: "changed"}
		}
	}
	var fresh []string
	for f := range after {
		if _, ok := before[f]; !ok {
			fresh = append(fresh, f)
		}
	}
	sort.Strings(fresh)
	isTemp := func(f string) bool { return strings.HasSuffix(f, ".ll") && strings.Contains(filepath.Base(f), ".tmp") }
	got := fmt.Sprintf("%s, new files %q, message %q", r.ended(), fresh, clipB(r.Stderr))
	if l := treeOf(tmp); len(l) > 1 && c.fault != "full disk" {
		delete(l, "./")
		var n []string
		for f := range l {
			n = append(n, f)
		}
		sort.Strings(n)
		return verdict{what: "files are left behind in the directory for temporary files", want: "none", got: fmt.Sprintf("%q, %s", n, got)}
	}
	if !c.verbose && c.fault != "help" && c.fault != "version" && len(r.Stdout) > 0 {
		return verdict{what: "output without -v", want: "no output", got: fmt.Sprintf("%q", clipB(r.Stdout))}
	}
	if c.fault == "help" || c.fault == "version" {
		if r.Status != 0 || len(fresh) > 0 {
			return verdict{what: "the option for help or the version does not just tell", want: "exit status 0, no files", got: got}
		}
		text := string(r.Stdout) + string(r.Stderr)
		need := []string{"blang version"}
		if c.fault == "help" {
			need = []string{"Usage: blang", "--output", "--save-temps", "--emit-llvm", "--compile", "--assemble", "--optimize", "--debug", "--verbose", "--library-dir", "--library ", "--version", "--help"}
		}
		for _, n := range need {
			if !strings.Contains(text, n) {
				return verdict{what: "the option for help or the version does not tell", want: n, got: text}
			}
		}
		return verdict{ok: true}
	}
	if c.fault == "" {
		want := fmt.Sprintf("exit status 0, outputs %q", sortedOuts(c.outs))
		if r.Status != 0 {
			return verdict{what: "a valid command line fails", want: want, got: got}
		}
		for o := range c.outs {
			if _, ok := after[o]; !ok {
				return verdict{what: "an output file is missing", want: want, got: got}
			}
		}
		for _, f := range fresh {
			if _, ok := c.outs[f]; ok || (c.save && isTemp(f)) {
				continue
			}
			return verdict{what: "an unexpected file appears", want: want, got: got}
		}
		if len(r.Stderr) > 0 {
			return verdict{what: "a message for a valid command line", want: "none", got: got}
		}
		if c.verbose {
			told := string(r.Stdout)
			for _, l := range strings.Split(strings.TrimSpace(told), "\n") {
				if !strings.HasPrefix(l, "blang: ") {
					return verdict{what: "output of -v which is not a message of blang", want: "blang: ...", got: l}
				}
			}
			for _, in := range c.ins {
				if p := rep.Replace(in.path); in.ext == ".b" && !strings.Contains(told, p) {
					return verdict{what: "-v does not tell the input", want: p, got: told}
				}
			}
			for o := range c.outs {
				if !strings.Contains(told, filepath.Base(o)) {
					return verdict{what: "-v does not tell the output", want: o, got: told}
				}
			}
		}
		if c.save && (c.mode == "-c" || c.mode == "-S") {
			n, nb := 0, 0
			for _, f := range fresh {
				if isTemp(f) {
					n++
				}
			}
			for _, in := range c.ins {
				if in.ext == ".b" {
					nb++
				}
			}
			if n < nb {
				return verdict{what: "an intermediate file is not kept", want: fmt.Sprint(nb, " files of LLVM IR"), got: got}
			}
			if nb == 1 && c.hasOut && !strings.Contains(after[c.out+".tmp.ll"], "define") {
				return verdict{what: "an intermediate file is not kept", want: c.out + ".tmp.ll", got: got}
			}
		}
		if c.save && c.mode == "exe" {
			for i, in := range c.ins {
				if in.ext != ".b" {
					continue
				}
				n := fmt.Sprintf("%s.tmp.%d.ll", in.base(), i)
				if len(c.ins) == 1 {
					if !c.hasOut {
						continue
					}
					n = c.out + ".tmp.ll"
				}
				if t, ok := after[n]; !ok || !strings.Contains(t, "define") {
					return verdict{what: "an intermediate file is not kept", want: n, got: got}
				}
			}
		}
		return c.outputsOK(dir, env)
	}
	// a failing command line
	want := "exit status 1, a diagnostic and no file"
	if r.Status != 1 {
		return verdict{what: "a command line which must fail does not end with status 1 (" + c.fault + ")", want: want, got: got}
	}
	if !bytes.HasPrefix(r.Stderr, []byte("blang: error: ")) || len(bytes.TrimSpace(r.Stderr)) < 16 {
		return verdict{what: "no diagnostic (" + c.fault + ")", want: want, got: got}
	}
	if c.mention != "" && !bytes.Contains(r.Stderr, []byte(c.mention)) {
		return verdict{what: "the diagnostic does not tell what is wrong (" + c.fault + ")", want: c.mention, got: got}
	}
	for _, f := range fresh {
		if c.save && isTemp(f) {
			continue
		}
		if i, ok := c.outs[f]; ok && i >= 0 && !c.hasOut && i != c.badAt {
			switch c.fault {
			case "bad source", "missing input", "dangling link", "input is a directory", "full disk", "read error":
				continue // made from another input
			}
		}
		return verdict{what: "files are left behind by a failing command line (" + c.fault + ")", want: want, got: got}
	}
	return verdict{ok: true}
}

// outputsOK checks what the output files are.
func (c *cliRun) outputsOK(dir string, env []string) verdict {
	if c.mode == "exe" {
		for o := range c.outs {
			p := filepath.Join(dir, o)
			r := run(RunOpt{Dir: dir, Lim: limits{cpu: 10, memMB: 1024}}, p)
			if r.Status != 40+c.k || string(r.Stdout) != cliOutput(c.k) {
				return verdict{what: "the executable does not work", want: fmt.Sprintf("exit status %d, output %q", 40+c.k, cliOutput(c.k)), got: fmt.Sprintf("%s, output %q", r.ended(), clipB(r.Stdout))}
			}
			if c.level > 0 && (c.ins[0].ext == ".b" || c.ins[0].ext == ".ll") {
				sym := symOf(c.ins[0].mod)
				if a, b := symSize(p, sym), symSizeOf(c.ins[0].mod, sym); a >= b && b > 0 && a > 0 {
					return verdict{what: "the code is not optimised", want: fmt.Sprintf("fewer than %d bytes of code in %s at -O%d", b, sym, c.level), got: fmt.Sprint(a)}
				}
			}
		}
		return verdict{ok: true}
	}
	for o, i := range c.outs {
		p := filepath.Join(dir, o)
		in := c.ins[i]
		b, err := os.ReadFile(p)
		must(err)
		sym := symOf(in.mod)
		switch c.mode {
		case "--emit-llvm":
			if !bytes.Contains(b, []byte("define")) || !bytes.Contains(b, []byte(sym)) {
				return verdict{what: "the output is not LLVM IR of the input", want: "a definition of " + sym, got: string(clipB(b))}
			}
		case "-S":
			if bytes.HasPrefix(b, []byte("\x7fELF")) || !bytes.Contains(b, []byte(sym+":")) && !bytes.Contains(b, []byte("\""+sym+"\":")) {
				return verdict{what: "the output is not assembly of the input", want: "a label " + sym, got: string(clipB(b))}
			}
			if c.level > 0 && len(b) >= cli.slen[in.mod] {
				return verdict{what: "the code is not optimised", want: fmt.Sprintf("less than %d bytes of assembly at -O%d", cli.slen[in.mod], c.level), got: fmt.Sprint(len(b))}
			}
			if c.level == 0 && len(b) < cli.slen[in.mod]*9/10 {
				return verdict{what: "the code is optimised without -O", want: fmt.Sprintf("about %d bytes of assembly", cli.slen[in.mod]), got: fmt.Sprint(len(b))}
			}
		case "-c":
			n := textSize(p)
			if n == 0 {
				return verdict{what: "the output is not an object file", want: "a relocatable object file with code", got: fmt.Sprintf("%q", clipB(b))}
			}
			if c.level > 0 && n >= cli.text[in.mod] && in.ext != ".s" {
				return verdict{what: "the code is not optimised", want: fmt.Sprintf("less than %d bytes of code at -O%d", cli.text[in.mod], c.level), got: fmt.Sprint(n)}
			}
			if in.ext == ".s" && hasSection(p, ".debug_line") != c.debug {
				return verdict{what: "debug information, against the options", want: fmt.Sprint(c.debug), got: fmt.Sprint(!c.debug)}
			}
			if symSize(p, sym) == 0 {
				return verdict{what: "the object file does not define the function of the input", want: sym, got: "no such symbol"}
			}
		}
	}
	// put the outputs together with the other modules and run
	k := 0
	main := "main0"
	need := map[string]bool{}
	for _, in := range c.ins {
		if strings.HasPrefix(in.mod, "main") {
			main = in.mod
		} else {
			need[in.mod] = true
			k = cliHelpers
			main = fmt.Sprint("main", cliHelpers)
		}
	}
	if main == fmt.Sprint("main", cliHelpers) {
		k = cliHelpers
	}
	mains := 0
	for _, in := range c.ins {
		if in.mod == "main0" && k > 0 {
			return verdict{ok: true} // main0 does not call the helpers; the symbols were checked
		}
		if strings.HasPrefix(in.mod, "main") {
			mains++
		}
	}
	if mains > 1 {
		return verdict{ok: true}
	}
	args := []string{"clang", "-static", "-nostdlib"}
	have := map[string]bool{}
	var tmp []string
	for o, i := range c.outs {
		p := filepath.Join(dir, o)
		// a name clang understands
		q := filepath.Join(dir, fmt.Sprintf("zz%d%s", i, map[string]string{"-c": ".o", "-S": ".s", "--emit-llvm": ".ll"}[c.mode]))
		must(os.Rename(p, q))
		tmp = append(tmp, q)
		have[c.ins[i].mod] = true
	}
	sort.Strings(tmp)
	args = append(args, tmp...)
	for i := 0; i < k; i++ {
		if m := fmt.Sprintf("h%d", i); !have[m] {
			args = append(args, filepath.Join(cli.dir, m+".o"))
		}
	}
	if !have[main] {
		args = append(args, filepath.Join(cli.dir, main+".o"))
	}
	exe := filepath.Join(dir, "zz.exe")
	args = append(args, "-L"+filepath.Join(homeDir, ".local", "lib"), "-lb", "-o", exe)
	r := run(RunOpt{Dir: dir, Lim: limits{cpu: 60}}, args...)
	if r.Status != 0 {
		return verdict{what: "the outputs cannot be linked", want: "an executable", got: r.ended() + " " + string(clipB(r.Stderr))}
	}
	r = run(RunOpt{Dir: dir, Lim: limits{cpu: 10, memMB: 1024}}, exe)
	if r.Status != 40+k || string(r.Stdout) != cliOutput(k) {
		return verdict{what: "the outputs do not work together", want: fmt.Sprintf("exit status %d, output %q", 40+k, cliOutput(k)), got: fmt.Sprintf("%s, output %q", r.ended(), clipB(r.Stdout))}
	}
	return verdict{ok: true}
}

// symOf is the symbol of the function of a module.
func symOf(mod string) string {
	if strings.HasPrefix(mod, "main") {
		return "main"
	}
	return cliSym("helper" + mod[1:])
}

var cliPrefix struct {
	once sync.Once
	p    string
}

// cliSym gives the symbol of a B function; the way of naming is found out.
func cliSym(f string) string {
	cliPrefix.once.Do(func() {
		o, _ := exec.Command("nm", filepath.Join(cli.dir, "h0.o")).Output()
		for _, w := range strings.Fields(string(o)) {
			if strings.HasSuffix(w, "helper0") {
				cliPrefix.p = strings.TrimSuffix(w, "helper0")
			}
		}
	})
	return cliPrefix.p + f
}

// strace makes system calls fail or take long.

func straceBin() string {
	p, err := exec.LookPath("strace")
	if err != nil {
		return ""
	}
	return p
}

var strace struct {
	once  sync.Once
	works bool
}

func straceWorks() bool {
	strace.once.Do(func() {
		p := straceBin()
		if p == "" {
			return
		}
		d := newDir()
		defer os.RemoveAll(d)
		must(os.WriteFile(filepath.Join(d, "f"), []byte("x\n"), 0o644))
		r := run(RunOpt{Dir: d}, p, "-f", "-b", "execve", "-o", filepath.Join(d, "log"), "-P", filepath.Join(d, "f"), "-e", "trace=read", "-e", "inject=read:error=EIO:when=1+", "cat", filepath.Join(d, "f"))
		l, _ := os.ReadFile(filepath.Join(d, "log"))
		strace.works = r.Status == 1 && bytes.Contains(l, []byte("INJECTED"))
	})
	return strace.works
}

func hasSection(path, name string) bool {
	f, err := elf.Open(path)
	if err != nil {
		return false
	}
	defer f.Close()
	return f.Section(name) != nil
}

func symSize(path, sym string) uint64 {
	f, err := elf.Open(path)
	if err != nil {
		return 0
	}
	defer f.Close()
	ss, _ := f.Symbols()
	for _, x := range ss {
		if x.Name == sym && x.Section != elf.SHN_UNDEF {
			return x.Size
		}
	}
	return 0
}

func symSizeOf(mod, sym string) uint64 { return symSize(filepath.Join(cli.dir, mod+".o"), sym) }
