package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"
)

var checks []*Check

func main() {
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verifDir = v
	}
	seed = 1
	if v := os.Getenv("VERIF_SEED"); v != "" {
		n, err := strconv.Atoi(v)
		if err != nil {
			infra("VERIF_SEED: %v", err)
		}
		seed = n
	}
	if os.Getenv("VERIF_TIER") == "thorough" {
		tier = "thorough"
	}
	if len(os.Args) < 3 {
		infra("usage: harness check ID | harness gen ID NUMBER | harness selftest NUMBER | harness replay FILE")
	}
	registerChecks()
	switch os.Args[1] {
	case "check":
		c := findCheck(os.Args[2])
		mkScratch()
		setupEnv()
		ctx := &Ctx{Check: c, St: newStats(), quick: tier == "quick"}
		c.Run(ctx)
		rc := ctx.finish()
		cleanup()
		os.Exit(rc)
	case "sweep": // several checks with one build, up to the first that fails
		mkScratch()
		setupEnv()
		noShrink = true
		for _, id := range os.Args[2:] {
			c := findCheck(id)
			started = time.Now()
			ctx := &Ctx{Check: c, St: newStats(), quick: true}
			c.Run(ctx)
			if rc := ctx.finish(); rc != 0 {
				fmt.Printf("CAUGHT %s\n", id)
				cleanup()
				os.Exit(rc)
			}
		}
		cleanup()
	case "gen":
		c := findCheck(os.Args[2])
		n, _ := strconv.Atoi(os.Args[3])
		genSamples(c, n)
	case "selftest":
		n, _ := strconv.Atoi(os.Args[2])
		selfTest(n)
	case "replay":
		mkScratch()
		setupEnv()
		rc := replay(os.Args[2])
		cleanup()
		os.Exit(rc)
	default:
		infra("unknown command %s", os.Args[1])
	}
}

func findCheck(id string) *Check {
	for _, c := range checks {
		if strings.EqualFold(c.ID, id) {
			return c
		}
	}
	infra("no check %s", id)
	return nil
}

func genSamples(c *Check, n int) {
	uc := unitChecks[c.ID]
	if uc == nil {
		infra("%s has no unit generator", c.ID)
	}
	for i := 0; i < n; i++ {
		s := NewSrc(seedOf(uint64(seed), strSeed(c.ID), uint64(i)))
		g := uc.pickGen(s)
		u, err := g.make(s, "u0_")
		if u == nil {
			fmt.Printf("=== %s: %v\n", g.Name, err)
			continue
		}
		fmt.Printf("=== %s %v err=%v\n%s\n", g.Name, u.Class, err, strings.Join(u.Src, "-----\n"))
		if err == nil {
			fmt.Printf("/* expected %s */\n", showWords(u.Want.Stdout[8:]))
		}
	}
}
