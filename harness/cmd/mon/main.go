// Command mon runs one property check.
package main

import (
	"flag"
	"fmt"
	"os"

	"verif/core"
	"verif/props"
)

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	repo := flag.String("repo", "/repo", "source tree")
	work := flag.String("work", "", "scratch directory")
	ev := flag.String("evidence", "/verif/evidence", "evidence directory")
	harness := flag.String("harness", "/verif/harness", "this module")
	stage := flag.String("stage", "", "replay: only this stage")
	stub := flag.Bool("stub", false, "only write an evidence file for a run that crashed")
	child := flag.Int("child", 0, "C16: only print the hashes of this many programs")
	cs := flag.Int("case", -1, "replay: only this case")
	flag.Parse()
	if *child > 0 {
		props.C16Child(*seed, *child)
		return
	}
	p := props.All[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	r := core.NewRun(p)
	r.Seed, r.Tier, r.Repo, r.Work, r.EvDir, r.Harness = *seed, *tier, *repo, *work, *ev, *harness
	if *stub {
		r.Stub()
		return
	}
	r.OnlyStg, r.OnlyCase = *stage, *cs
	r.Watch()
	p.Run(r)
	r.Finish()
}
