// ctl builds the simulator from /repo's working tree and runs the checks.
//
//	ctl check C01 quick|thorough
//	ctl replay FILE
//	ctl selftest
//	ctl seeds C01 BASE N     (worker output for some seeds, for development)
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// raceProps are explored with the race detector on (at least in part).
var raceProps = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C05": true, "C13": true}

// secs of exploration per tier.
var tierSecs = map[string]float64{"quick": 28, "thorough": 600}

type ctl struct {
	b     *builder
	lanes int
	t0    time.Time
	tier  string
	seed  uint64
	keep  bool
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vsim: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: ctl check PROP TIER | replay FILE | selftest | seeds PROP BASE N")
	}
	verif := os.Getenv("VSIM_VERIF")
	if verif == "" {
		verif = "/verif"
	}
	repo := os.Getenv("VSIM_REPO")
	if repo == "" {
		repo = "/repo"
	}
	work := os.Getenv("VSIM_WORK")
	if work == "" {
		d, err := os.MkdirTemp("", "vsim-")
		if err != nil {
			fatal("%v", err)
		}
		work = d
	}
	c := &ctl{b: &builder{verif: verif, repo: repo, work: work, took: map[string]float64{}}, lanes: runtime.NumCPU(), t0: time.Now()}
	if c.lanes > 16 {
		c.lanes = 16
	}
	if v, err := strconv.Atoi(os.Getenv("VSIM_LANES")); err == nil && v > 0 {
		c.lanes = v
	}
	c.keep = os.Getenv("VSIM_WORK") != ""
	c.seed = 1
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		c.seed = v
	}
	rc := 2
	func() {
		defer func() {
			if !c.keep {
				os.RemoveAll(work)
			}
		}()
		switch os.Args[1] {
		case "check":
			rc = c.check(os.Args[2], os.Args[3])
		case "replay":
			rc = c.replayFile(os.Args[2])
		case "selftest":
			rc = c.selftest(os.Args[2:])
		case "seeds":
			rc = c.seeds(os.Args[2], os.Args[3], os.Args[4])
		case "sweep":
			rc = c.sweep(os.Args[2], os.Args[3:])
		default:
			fmt.Fprintln(os.Stderr, "unknown command")
		}
	}()
	os.Exit(rc)
}

// check explores one property.
func (c *ctl) check(prop, tier string) int {
	c.tier = tier
	secs := tierSecs[tier]
	if secs == 0 {
		fatal("unknown tier %q", tier)
	}
	if v, err := strconv.ParseFloat(os.Getenv("VSIM_SECS"), 64); err == nil && v > 0 {
		secs = v
	}
	race := raceProps[prop]
	if err := c.b.build(race); err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
		return 2
	}
	fmt.Printf("%s: simulator built from %s in %.1fs (%d yield points, race detector %v)\n", prop, c.b.repo, c.b.took["build"], len(c.b.in.sites), race)
	known := c.knownFindings(prop)
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
	}
	t1 := time.Now()
	sum, cands := c.explore(prop, race, secs)
	expl := time.Since(t1).Seconds()
	if prop == "C12" && len(cands) == 0 {
		n, procs := 400, 4
		if tier == "thorough" {
			n, procs = 3000, 8
		}
		cands = c.crossProcess(prop, race, sum, c.base()+1<<31, n, procs)
	}
	var hit *candidate
	nviol := 0
	for _, cd := range cands {
		cd := cd
		if matchKnown(known, cd) {
			continue
		}
		nviol++
		if hit == nil || rank(&cd) < rank(hit) {
			hit = &cd
		}
	}
	rc := 0
	if sum.trouble != "" && hit == nil {
		fmt.Fprintln(os.Stderr, "vsim: trouble:", sum.trouble)
		rc = 2
	}
	if hit != nil {
		path := c.report(prop, race, hit)
		fmt.Printf("%s: %s: %s\n", prop, hit.class, clip(hit.msg, 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		rc = 1
	}
	c.evidence(prop, race, sum, expl, nviol)
	fmt.Printf("%s: %d runs, %d scheduling steps, %d preemptions, %d distinct interleavings, %.0f s\n", prop, sum.Runs, sum.Steps, sum.Preempts, sum.inter, time.Since(c.t0).Seconds())
	return rc
}

// rank prefers violations with an explicit judgement over process ends.
func rank(c *candidate) int {
	switch c.class {
	case "race":
		return 2
	case "hang":
		return 3
	case "crash":
		return 1
	}
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---- known findings

type finding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func (c *ctl) knownFindings(prop string) []finding {
	var out []finding
	b, err := os.ReadFile(filepath.Join(c.b.verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=C01 key=... what...
		if !strings.HasPrefix(l, "finding: property="+prop+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+prop+" key=")
		key, what, _ := strings.Cut(rest, " ")
		out = append(out, finding{prop, key, what})
	}
	return out
}

func matchKnown(known []finding, c candidate) bool {
	for _, k := range known {
		if c.key != "" && c.key == k.Key {
			return true
		}
	}
	return false
}

// ---- evidence

func (c *ctl) evidence(prop string, race bool, s *summary, expl float64, nviol int) {
	perH := func(n uint64) int { return int(float64(n) / expl * 3600) }
	siteTotal, siteHit := 0, 0
	per := map[string][2]int{}
	for _, st := range c.b.in.sites {
		if st.ID == 0 {
			continue
		}
		f := st.Pos[:strings.LastIndexByte(st.Pos, ':')]
		x := per[f]
		x[1]++
		siteTotal++
		if s.sites[st.ID] > 0 {
			x[0]++
			siteHit++
		}
		per[f] = x
	}
	var files []string
	for f, x := range per {
		if x[0] > 0 {
			files = append(files, fmt.Sprintf("%s %d/%d", f, x[0], x[1]))
		}
	}
	sort.Strings(files)
	seams := map[string]int{}
	for k, v := range c.b.in.stats {
		seams[k] = v
	}
	samples := []any{}
	for _, p := range s.Samples {
		samples = append(samples, p)
		if len(samples) >= 3 {
			break
		}
	}
	cov := map[string]any{
		"evaluations":                  s.Runs,
		"distinct_nontrivial":          s.cases,
		"rule":                         ruleOf(prop),
		"samples":                      samples,
		"runs_per_hour":                perH(s.Runs),
		"seeds_per_hour":               perH(s.Runs),
		"exploration_s":                round(expl),
		"seed_range":                   fmt.Sprintf("base %d, %d lanes, one seed per run", c.seed<<32, c.lanes),
		"simulated_steps":              s.Steps,
		"simulated_time":               fmt.Sprintf("%d scheduler steps (a step is one statement of the code under test; one step is 1 us on the simulated clock: %.1f s)", s.Steps, float64(s.Steps)/1e6),
		"scheduler_switches":           s.Switches,
		"preemptions":                  s.Preempts,
		"distinct_interleavings":       s.inter,
		"distinct_interleaving_rule":   "hash over (code position, task handed to) at every switch of the run",
		"max_concurrent_tasks":         s.MaxTasks,
		"schedulers":                   s.Sched,
		"variants":                     s.Variant,
		"operations":                   s.Ops,
		"checks_evaluated":             s.Counts,
		"faults_injected":              s.Faults,
		"map_iteration_orders_chosen":  s.Maps,
		"race_detector":                race,
		"yield_points_reached":         fmt.Sprintf("%d of %d", siteHit, siteTotal),
		"yield_points_reached_by_file": files,
		"seams_and_rewrites":           seams,
		"real_code":                    "github.com/go-ego/gse (all packages the checks touch) and github.com/vcaesar/cedar, instrumented copies of the current tree; the Go standard library except as below",
		"stubs":                        "os files -> simulated files; net/http listening and registration -> captured mux (real ServeMux, Request and handlers); time, math/rand globals -> seeded; sync primitives and go/chan/select -> simulator; map iteration order -> seeded; gse's own sync.Pool -> simulated pool",
		"build_s":                      c.b.took,
	}
	if s.extra != nil {
		for k, v := range s.extra {
			cov[k] = v
		}
	}
	ev := map[string]any{
		"property": prop, "tier": c.tier, "seed": int64(c.seed), "level": "exploration",
		"coverage": cov, "wall_s": round(time.Since(c.t0).Seconds()), "violations": nviol,
		"assumptions": []string{
			"preemption points are statement boundaries of the code under test; finer interleavings are covered only through the race detector",
			"the instrumented copy behaves as the original (checked by running the repository's own tests semantics only indirectly; see DESIGN.md)",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("evidence: %v", err)
	}
	dir := filepath.Join(c.b.verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}

func round(x float64) float64 { return float64(int(x*10)) / 10 }

func ruleOf(prop string) string {
	r := rules[prop]
	if r == "" {
		r = "a case is one seeded run"
	}
	return r
}
