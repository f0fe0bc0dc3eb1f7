package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"time"
)

type checkFn func(e *Env)

var checks = map[string]checkFn{}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "", "quick|thorough")
	repo := flag.String("repo", "/repo", "tree under check")
	verif := flag.String("verif", "/verif", "verification directory")
	budget := flag.Duration("budget", 0, "internal deadline")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	f, ok := checks[*prop]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(3)
	}
	scratch, err := os.MkdirTemp("", "vmc-")
	if err != nil {
		fatal("scratch: %v", err)
	}
	b := 400 * time.Second
	if *tier == "thorough" {
		b = 3 * time.Hour
	}
	if *budget > 0 {
		b = *budget
	}
	e := &Env{Repo: *repo, Verif: *verif, Scratch: scratch, Tier: *tier, Seed: seed, Start: time.Now(), Budget: b, Workers: numCPU()}
	theEnv = e
	e.R = newReport(*prop)
	e.R.Level = "exploration"
	e.loadKnown()
	e.Bin = filepath.Join(scratch, "vigilantbsp")
	if err := e.BuildRepo(e.Repo, e.Bin); err != nil {
		fatal("%v", err)
	}
	f(e)
	code := e.Finish()
	e.Cleanup()
	os.Exit(code)
}
