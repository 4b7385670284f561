package props

import (
	"fmt"
	"os/exec"
	"path/filepath"

	"verif/core"
)

func init() {
	register(&core.Prop{
		ID:    "C24",
		Level: "exploration",
		Rule:  "the monitors are built once more with the debug tag; the workloads and oracles of the verdict, default, reference, builder, generator and robustness properties (C01-C18 but C11, C15, and C25) run on that build with tracing off and, smaller, with tracing on (PDEBUG_TRACE=1, the trace is counted and thrown away); only what the ordinary build of the same tree does right is demanded; non-trivial = a property checked in a mode",
		Assumptions: []string{
			"concurrent use of the tracer itself (a dependency) is not judged",
		},
		Run: func(r *core.Run) {
			bin := filepath.Join(r.Work, "mon-debug")
			r.CasesN("build", 1, 1, func(c *core.Case) {
				c.Beat()
				cmd := exec.Command("go", "build", "-tags", "debug", "-o", bin, "./cmd/mon")
				cmd.Dir = r.Harness
				if out, err := cmd.CombinedOutput(); err != nil {
					c.Violate("does not compile", "with the debug tag:\n%.3000s", out)
				}
			})
			if r.Stopped() {
				return
			}
			type job struct {
				p     string
				light int
				trace bool
			}
			var jobs []job
			for _, p := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C14", "C16", "C17", "C18", "C25", "C26"} {
				jobs = append(jobs, job{p, r.N(4, 1), false})
				if p != "C17" { // deep data would be indented
					jobs = append(jobs, job{p, r.N(30, 20), true})
				}
			}
			r.CasesN("debug", len(jobs), 2, func(c *core.Case) {
				j := jobs[c.Idx]
				how, env := "in a debug build", []string{fmt.Sprintf("VERIF_LIGHT=%d", j.light), "PDEBUG_TRACE=0"}
				if j.trace {
					how, env[1] = "in a debug build with tracing", "PDEBUG_TRACE=1"
				}
				c.Beat()
				if otherBuild(c, bin, j.p, "quick", how, false, env) {
					c.Eval(key("debug", j.p, j.trace))
				}
			})
		},
	})
}
