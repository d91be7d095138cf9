package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"strings"
)

var replayers = map[string]func(*Failure) (bool, string){}

// replay runs a saved failing case again.
func replay(path string) int {
	b, err := os.ReadFile(path)
	must(err)
	var f Failure
	must(json.Unmarshal(b, &f))
	r := replayers[f.Kind]
	if r == nil {
		infra("nothing to replay for kind %q; the case is described in the file", f.Kind)
	}
	bad, got := r(&f)
	fmt.Printf("expected: %s\ngot: %s\n", clip(f.Expected), clip(got))
	if bad {
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

func init() {
	replayers["program"] = func(f *Failure) (bool, string) {
		dir := newDir()
		var srcs []string
		for _, n := range f.Order {
			srcs = append(srcs, f.Files[n])
		}
		exe, fail := compileSources(dir, srcs, *f.Build)
		if fail != "" {
			return true, fail
		}
		line, _, _ := strings.Cut(f.Expected, "\n")
		a, b, _ := strings.Cut(line, "/")
		so, _ := hex.DecodeString(a)
		se, _ := hex.DecodeString(b)
		r := run(RunOpt{Dir: dir, Stdin: []byte(f.Stdin), Lim: limits{cpu: 10, memMB: 2048}}, exe)
		return r.Status != 0 || string(r.Stdout) != string(so) || string(r.Stderr) != string(se), r.ended() + ", output " + showWords(r.Stdout)
	}
}
