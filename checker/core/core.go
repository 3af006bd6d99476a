// Package core is the frame every check runs in: it collects the obligations a
// check discharges or fails, compares failures with the known-findings file and
// writes the evidence file.
package core

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/checker/load"
)

// Finding is one failed obligation.
type Finding struct {
	Rule string `json:"rule"`
	Key  string `json:"key"` // rule + construct, without line numbers
	Pos  string `json:"pos"`
	Msg  string `json:"message"`
	Path string `json:"path,omitempty"`
}

// Ctx collects what one check did.
type Ctx struct {
	P    *load.Program
	ID   string
	Tier string

	Rule        string   // one-paragraph description of the rule applied
	Level       string   // evidence level
	Assumptions []string // what the verdict rests on
	Trusted     []string // trusted base for level proof

	obligations int
	discharged  int
	byRule      map[string][2]int
	findings    []Finding
	seen        map[string]bool
	samples     []string
	perRule     map[string]int
	counts      map[string]int
}

func New(p *load.Program, id, tier string) *Ctx {
	return &Ctx{P: p, ID: id, Tier: tier, Level: "other",
		byRule: map[string][2]int{}, seen: map[string]bool{}, counts: map[string]int{}, perRule: map[string]int{}}
}

// OK records a discharged obligation.
func (c *Ctx) OK(rule, what string) {
	c.obligations++
	c.discharged++
	v := c.byRule[rule]
	v[0]++
	v[1]++
	c.byRule[rule] = v
	if c.perRule[rule] < 6 {
		c.perRule[rule]++
		c.samples = append(c.samples, rule+": "+what)
	}
}

// Fail records a failed obligation.
func (c *Ctx) Fail(rule, construct, pos, msg string) { c.FailPath(rule, construct, pos, msg, "") }

func (c *Ctx) FailPath(rule, construct, pos, msg, path string) {
	c.obligations++
	v := c.byRule[rule]
	v[0]++
	c.byRule[rule] = v
	key := rule + "@" + construct
	if c.seen[key] {
		return
	}
	c.seen[key] = true
	c.findings = append(c.findings, Finding{rule, key, pos, msg, path})
}

// Check records the obligation either way.
func (c *Ctx) Check(ok bool, rule, construct, pos, msg string) bool {
	if ok {
		c.OK(rule, construct)
	} else {
		c.Fail(rule, construct, pos, msg)
	}
	return ok
}

// Count adds to a named coverage counter.
func (c *Ctx) Count(name string, n int) { c.counts[name] += n }

// Min fails the check when a counter is below what was confirmed by hand.
func (c *Ctx) Min(name string, min int) {
	if c.counts[name] < min {
		c.Fail("coverage", name, "-", fmt.Sprintf("only %d instances of %q were found, at least %d were expected: the rule no longer sees the code it is about", c.counts[name], name, min))
	}
}

func (c *Ctx) Findings() []Finding { return c.findings }

// VerifDir is the root of the verification tree.
func VerifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// known reads the keys listed for a property in known_findings.txt.
func known(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(VerifDir(), "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, line := range strings.Split(string(b), "\n") {
		// finding: property=<id> key=<key> | <what fails>
		rest, ok := strings.CutPrefix(line, "finding: property="+id+" key=")
		if !ok {
			continue
		}
		key, what, _ := strings.Cut(rest, " | ")
		out[strings.TrimSpace(key)] = what
	}
	return out
}

// Finish writes the evidence file, prints the verdict and returns the exit code.
func (c *Ctx) Finish(start time.Time) int {
	sort.SliceStable(c.findings, func(i, j int) bool { return c.findings[i].Key < c.findings[j].Key })
	kn := known(c.ID)
	var bad []Finding
	for _, f := range c.findings {
		if what, ok := kn[f.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s at %s]\n", c.ID, what, f.Key, f.Pos)
			continue
		}
		bad = append(bad, f)
	}
	evDir := filepath.Join(VerifDir(), "evidence")
	os.MkdirAll(evDir, 0o755)

	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rules := map[string]any{}
	for r, v := range c.byRule {
		rules[r] = map[string]int{"obligations": v[0], "discharged": v[1]}
	}
	cov := map[string]any{
		"explanation": c.Rule,
		"obligations": c.obligations,
		"discharged":  c.discharged,
		"rules":       rules,
		"counts":      c.counts,
		"samples":     c.samples,
		"checker_cmd": "./check.sh " + c.ID,
	}
	if len(c.Trusted) > 0 {
		cov["trusted_base"] = c.Trusted
	}
	ev := map[string]any{
		"property":   c.ID,
		"tier":       c.Tier,
		"seed":       seed,
		"level":      c.Level,
		"coverage":   cov,
		"violations": len(bad),
		"wall_s":     time.Since(start).Seconds(),
	}
	if len(c.Assumptions) > 0 {
		ev["assumptions"] = c.Assumptions
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "writing evidence:", err)
	}
	replay := filepath.Join(evDir, c.ID+".violation.json")
	os.Remove(replay)
	fmt.Printf("%s: %d obligations, %d discharged, %d findings (%d known)\n", c.ID, c.obligations, c.discharged, len(c.findings), len(c.findings)-len(bad))
	for _, k := range sortedKeys(c.counts) {
		fmt.Printf("  %s: %d\n", k, c.counts[k])
	}
	if len(bad) == 0 {
		return 0
	}
	rb, _ := json.MarshalIndent(map[string]any{"property": c.ID, "command": "./check.sh " + c.ID, "findings": bad}, "", " ")
	os.WriteFile(replay, append(rb, '\n'), 0o644)
	for i, f := range bad {
		if i >= 40 {
			fmt.Printf("  ... and %d more\n", len(bad)-i)
			break
		}
		fmt.Printf("  %s: %s\n    rule %s, %s\n", f.Pos, f.Msg, f.Rule, f.Key)
		if f.Path != "" {
			fmt.Printf("    path: %s\n", f.Path)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, replay)
	return 1
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
