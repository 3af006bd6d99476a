// Command gtv decides the properties of /verif/properties.jsonl for the
// repository by static analysis.
//
//	gtv check <ID> [-tier quick|thorough]
package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"verif/checker/core"
	"verif/checker/load"
	"verif/checker/rules"
)

func main() {
	if len(os.Args) < 3 || os.Args[1] != "check" {
		fmt.Fprintln(os.Stderr, "usage: gtv check <ID>... | all")
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	ids := os.Args[2:]
	if ids[0] == "all" {
		ids = nil
		for id := range rules.All {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	debug.SetGCPercent(800)
	debug.SetMemoryLimit(12 << 30)
	start := time.Now()
	prog, err := load.Load()
	code := 0
	for _, id := range ids {
		if len(ids) > 1 {
			start = time.Now()
		}
		f := rules.All[id]
		if f == nil {
			fmt.Fprintln(os.Stderr, "no check for", id)
			os.Exit(2)
		}
		if c := run(prog, err, id, tier, f, start); c > code {
			code = c
		}
	}
	os.Exit(code)
}

func run(prog *load.Program, lerr error, id, tier string, f func(*core.Ctx), start time.Time) int {
	c := core.New(prog, id, tier)
	if lerr != nil {
		c.Rule = "the repository could not be loaded"
		c.Fail("load", "repository", "-", lerr.Error())
		return c.Finish(start)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				st := strings.Split(string(debug.Stack()), "\n")
				if os.Getenv("GTV_DEBUG") != "" {
					fmt.Println(string(debug.Stack()))
				}
				_ = st
				c.Fail("analysis", "internal", "-", fmt.Sprintf("the analysis did not finish: %v", r))
			}
		}()
		f(c)
	}()
	return c.Finish(start)
}
