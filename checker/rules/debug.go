package rules

import (
	"fmt"
	"os"
	"runtime/pprof"
	"time"

	"verif/checker/core"
	"verif/checker/load"
	"verif/checker/vn"
)

// "debug" runs the interpreter on the function named in GTV_FN with unknown arguments.
func init() { register("debug", debugRun) }

func debugRun(c *core.Ctx) {
	c.Rule = "debug"
	if p := os.Getenv("GTV_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	for _, f := range repoFuncs(c, load.InRepo) {
		if fnName(f) != os.Getenv("GTV_FN") {
			continue
		}
		t := time.Now()
		e := newVN(c, load.InRepo)
		fmt.Println("init", e.Steps(), time.Since(t), e.Err)
		e.MaxParts = 4
		if os.Getenv("GTV_LIN") != "" {
			e.Linear = true
		}
		n := map[string]int{}
		e.OnReturn = func(fr *vn.Frame, st *vn.State, r []*vn.V) { n[fnName(fr.Fn)]++ }
		e.MaxSteps = 3000000
		outs := e.Run(f, e.Inputs(f), nil)
		fmt.Println(fnName(f), len(outs), e.Err, e.Steps(), time.Since(t))
		for _, o := range outs {
			for i, r := range o.Res {
				fmt.Println("  ", i, r)
			}
		}
		for k, v := range n {
			if v > 100 {
				fmt.Println(v, k)
			}
		}
	}
}
