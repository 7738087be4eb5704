package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Spec describes the check of one property (harness/<dir>/spec.json).
type Spec struct {
	Property    string   `json:"property"`
	Bounds      []string `json:"bounds"`
	Outside     []string `json:"outside"`
	Assumptions []string `json:"assumptions"`
	Harnesses   []HSpec  `json:"harnesses"`
}

type HSpec struct {
	Fn       string `json:"fn"`
	Tier     string `json:"tier"` // "", "quick" or "thorough"
	Rand     int    `json:"rand"`
	Map      int    `json:"map"`
	Quick    int    `json:"quick_s"`
	Thorough int    `json:"thorough_s"`
	Timeout  int    `json:"solver_ms"`
	Solver   string `json:"solver"`
	Steps    int64  `json:"steps"`
	Finding  string `json:"finding"` // id of the known finding this harness demonstrates
	What     string `json:"what"`
	Bound    string `json:"bound"`
}

type HReport struct {
	Fn          string   `json:"harness"`
	What        string   `json:"what,omitempty"`
	Bound       string   `json:"bound,omitempty"`
	Paths       int64    `json:"paths"`
	Completed   int64    `json:"paths_completed"`
	Excluded    int64    `json:"paths_ended_by_assumption"`
	Pruned      int64    `json:"equivalent_schedules_pruned"`
	Incomplete  int64    `json:"paths_not_decided"`
	Pending     int64    `json:"paths_left_at_deadline"`
	Forks       int64    `json:"forks"`
	Decisions   int64    `json:"decisions"`
	Steps       int64    `json:"instructions"`
	Assertions  int64    `json:"assertions_checked"`
	Queries     int64    `json:"queries"`
	Sat         int64    `json:"sat"`
	Unsat       int64    `json:"unsat"`
	Unknown     int64    `json:"unknown"`
	SolverS     float64  `json:"solver_s"`
	WallS       float64  `json:"wall_s"`
	Exhaustive  bool     `json:"all_paths_within_bounds_decided"`
	Witnesses   []string `json:"reached"`
	Reasons     []string `json:"undecided_reasons,omitempty"`
	Notes       []string `json:"notes,omitempty"`
	Validated   int      `json:"paths_replayed_natively_with_equal_observations"`
	Mismatch    []string `json:"observation_mismatches,omitempty"`
	Unconfirmed []string `json:"solver_models_not_reproduced_natively,omitempty"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	}
	os.Exit(2)
}

func fatal(format string, a ...any) int {
	fmt.Fprintf(os.Stderr, "error: "+format+"\n", a...)
	return 2
}

type finding struct {
	property, id, text string
	fixed              bool
}

func readFindings(path string) []finding {
	var out []finding
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		fx := strings.HasPrefix(l, "fixed:")
		if !fx && !strings.HasPrefix(l, "known:") {
			continue
		}
		l = strings.TrimSpace(l[6:])
		fi := finding{fixed: fx}
		for _, w := range strings.Fields(l) {
			if v, ok := strings.CutPrefix(w, "property="); ok {
				fi.property = v
			} else if v, ok := strings.CutPrefix(w, "id="); ok {
				fi.id = v
			} else {
				fi.text = l[strings.Index(l, " "+w)+1:]
				break
			}
		}
		out = append(out, fi)
	}
	return out
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "framework")
	dir := fs.String("p", "", "harness directory, e.g. c01")
	tier := fs.String("tier", "", "quick or thorough")
	only := fs.String("only", "", "run only this harness")
	workers := fs.Int("workers", runtime.NumCPU(), "")
	trace := fs.Bool("trace", false, "")
	maxPaths := fs.Int64("maxpaths", 0, "")
	secs := fs.Int("secs", 0, "override the time limit per harness")
	keepGoing := fs.Bool("k", false, "go on after a violation")
	noEvidence := fs.Bool("noevidence", false, "")
	fs.Parse(args)
	start := time.Now()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var spec Spec
	b, err := os.ReadFile(filepath.Join(*verif, "harness", *dir, "spec.json"))
	if err != nil {
		return fatal("%v", err)
	}
	if err := json.Unmarshal(b, &spec); err != nil {
		return fatal("spec: %v", err)
	}
	known := map[string]finding{}
	for _, f := range readFindings(filepath.Join(*verif, "known_findings.txt")) {
		if f.property == spec.Property && !f.fixed {
			known[f.id] = f
		}
	}
	tmp, err := os.MkdirTemp("", "gosym-")
	if err != nil {
		return fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	P, err := loadProgram(*repo, *verif, *dir, tmp)
	if err != nil {
		return fatal("%v", err)
	}
	loadT := time.Since(start)
	nat := &Native{P: P, repo: *repo, dir: tmp, harness: *dir, tier: *tier}
	natDone := make(chan error, 1)
	go func() { _, err := nat.build(nativeKind{}); natDone <- err }()
	pool := &vmPool{}
	total := 300 * time.Second
	if *tier == "thorough" {
		total = 800 * time.Second
	}
	hard := start.Add(total)
	var reports []HReport
	funcs := map[string]fnCov{}
	violations := 0
	var samples []any
	natErr := error(nil)
	natWaited := false
	type job struct {
		h    HSpec
		x    *Explorer
		lim  time.Duration
		r    HReport
		seen map[string]bool
		conf int // candidates looked at
		ok   bool
		wall time.Duration
		done bool
	}
	var jobs []*job
	for _, h := range spec.Harnesses {
		if *only != "" && h.Fn != *only || *only == "" && h.Tier != "" && h.Tier != *tier {
			continue
		}
		if P.harness.Func(h.Fn) == nil {
			return fatal("no harness %s", h.Fn)
		}
		lim := h.Quick
		if lim == 0 {
			lim = 60
		}
		if *tier == "thorough" {
			lim = h.Thorough
			if lim == 0 {
				lim = 200
			}
		}
		if *secs > 0 {
			lim = *secs
			hard = time.Now().Add(time.Hour)
		}
		x := &Explorer{P: P, harness: *dir, thorough: *tier == "thorough", fnName: h.Fn, workers: *workers, maxSteps: h.Steps, timeout: h.Timeout,
			solver: h.Solver, randB: h.Rand, mapB: h.Map, maxPaths: *maxPaths, trace: *trace, vmPool: pool}
		if x.maxSteps == 0 {
			x.maxSteps = 3000000
		}
		if x.timeout == 0 {
			x.timeout = 10000
		}
		if x.solver == "" {
			x.solver = "z3-new"
		}
		jobs = append(jobs, &job{h: h, x: x, lim: time.Duration(lim) * time.Second, seen: map[string]bool{}})
	}
	// Every harness gets a slice of the time before any gets a second one.
	slice := 12 * time.Second
	if *tier == "thorough" {
		slice = 40 * time.Second
	}
	found := false
	for round := 0; !found; round++ {
		open := 0
		for _, j := range jobs {
			if !j.done {
				open++
			}
		}
		if open == 0 {
			break
		}
		for _, j := range jobs {
			if j.done {
				continue
			}
			h, x := j.h, j.x
			hs := time.Now()
			left := j.lim - x.used
			sl := slice << round
			if share := hard.Sub(hs) / time.Duration(open); sl > share {
				sl = share
			}
			if open == 1 || sl > left {
				sl = left
			}
			open--
			x.deadline = hs.Add(sl)
			if x.deadline.After(hard) {
				x.deadline = hard
			}
			x.cutAt = hs.Add(left)
			if x.cutAt.After(hard) {
				x.cutAt = hard
			}
			x.run()
			if x.initErr != nil {
				return fatal("%v", x.initErr)
			}
			if !natWaited {
				natErr = <-natDone
				natWaited = true
				if natErr != nil {
					return fatal("%v", natErr)
				}
			}
			r := &j.r
			// confirm what the solver found
			confEnd := time.Now().Add(120 * time.Second)
			if e := start.Add(700 * time.Second); confEnd.After(e) {
				confEnd = e
			}
			for ; j.conf < len(x.cands); j.conf++ {
				c := &x.cands[j.conf]
				sig := sigOf(c.Msg)
				if j.seen[sig] || time.Now().After(confEnd) {
					continue
				}
				res, ok, err := nat.confirm(c, 40*time.Second)
				if err != nil {
					r.Unconfirmed = append(r.Unconfirmed, fmt.Sprintf("%s: %v", c.Msg, err))
					continue
				}
				if !ok {
					r.Unconfirmed = append(r.Unconfirmed, fmt.Sprintf("%s: native run: %s %s [%s]", c.Msg, res.kind, res.msg, strings.Join(c.Vals, " ")))
					continue
				}
				j.seen[sig] = true
				if h.Finding != "" {
					if kf, ok := known[h.Finding]; ok {
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", spec.Property, kf.text)
						j.ok = true
						break
					}
				}
				violations++
				path := writeReplay(*verif, spec.Property, *dir, *tier, c, res)
				fmt.Printf("harness %s: %s; native run: %s %s\n", h.Fn, c.Msg, res.kind, res.msg)
				fmt.Printf("VIOLATION property=%s replay=%s\n", spec.Property, path)
				j.ok = true
				if !*keepGoing {
					break
				}
			}
			found = j.ok && violations > 0 && !*keepGoing
			j.done = found || !x.unfinished() || x.used >= j.lim-100*time.Millisecond || time.Now().After(hard)
			if !j.done {
				j.wall += time.Since(hs)
				continue
			}
			unconf := r.Unconfirmed
			*r = HReport{Unconfirmed: unconf, Fn: h.Fn, What: h.What, Bound: h.Bound, Paths: x.paths.Load(), Completed: x.done.Load(), Pruned: x.pruned.Load(), Excluded: x.assumeEnds.Load(), Incomplete: x.incomplete.Load(),
				Pending: x.pending, Forks: x.forks.Load(), Decisions: x.decisions.Load(), Steps: x.steps.Load(), Assertions: x.assertions.Load(),
				Queries: x.stats.Queries, Sat: x.stats.Sat, Unsat: x.stats.Unsat, Unknown: x.stats.Unknown, SolverS: round3(x.stats.Time.Seconds()),
				Reasons: topReasons(x.reasons, 8), Notes: topReasons(x.notes, 8)}
			for w, c := range x.reached {
				r.Witnesses = append(r.Witnesses, fmt.Sprintf("%s (x%d)", w, c))
			}
			sort.Strings(r.Witnesses)
			for f, c := range x.funcs {
				o := funcs[f]
				o.total = c.total
				o.hit = max(o.hit, c.hit)
				funcs[f] = o
			}
			// compare symbolic and native observations on sampled paths
			for _, s := range x.samples {
				res, err := nat.run(h.Fn, s.Vals, s.Rands, true, nativeKind{}, 0, 20*time.Second, 0)
				if err != nil {
					r.Mismatch = append(r.Mismatch, err.Error())
					continue
				}
				bad := ""
				if res.kind != "done" {
					bad = "native run ended with " + res.kind + " " + res.msg
				} else if len(res.obs) != len(s.Obs) {
					bad = fmt.Sprintf("%d observations, predicted %d", len(res.obs), len(s.Obs))
				} else {
					for i := range s.Obs {
						if s.Obs[i] != res.obs[i] {
							bad = fmt.Sprintf("%s: native %q, predicted %q", s.Obs[i][0], res.obs[i][1], s.Obs[i][1])
							break
						}
					}
				}
				if bad != "" {
					r.Mismatch = append(r.Mismatch, bad+" ["+strings.Join(s.Vals, " ")+"]")
				} else {
					r.Validated++
					if len(samples) < 12 {
						samples = append(samples, map[string]any{"harness": h.Fn, "inputs": s.Show, "observed": s.Obs})
					}
				}
			}
			r.WallS = round3((j.wall + time.Since(hs)).Seconds())
			r.Exhaustive = r.Pending == 0 && r.Incomplete == 0 && len(x.cands) == 0 && r.Unknown == 0
			reports = append(reports, *r)
			fmt.Printf("%-28s paths %d (done %d, excluded %d, pruned %d, undecided %d, left %d) queries %d unknown %d solver %.1fs wall %.1fs validated %d\n",
				h.Fn, r.Paths, r.Completed, r.Excluded, r.Pruned, r.Incomplete, r.Pending, r.Queries, r.Unknown, r.SolverS, r.WallS, r.Validated)
			for _, s := range r.Reasons {
				fmt.Println("   undecided:", s)
			}
			for _, s := range r.Mismatch {
				fmt.Println("   MISMATCH:", s)
			}
			for _, s := range r.Unconfirmed {
				fmt.Println("   not reproduced:", s)
			}
			if len(r.Witnesses) == 0 && r.Completed == 0 && !j.ok {
				fmt.Println("   WARNING: no path completed")
			}
			if found {
				break
			}
		}
	}
	for _, vm := range pool.vms {
		vm.S.close()
	}
	if !*noEvidence && *only == "" {
		writeEvidence(*verif, spec, *tier, seed, reports, funcs, samples, violations, nat.runs, loadT, time.Since(start), P)
	}
	if violations > 0 {
		return 1
	}
	return 0
}

func sigOf(m string) string {
	if i := strings.Index(m, " ["); i > 0 {
		return m[:i]
	}
	return m
}

func round3(f float64) float64 { return float64(int64(f*1000)) / 1000 }

type replayFile struct {
	Property  string     `json:"property"`
	Dir       string     `json:"dir"`
	Tier      string     `json:"tier"`
	Candidate *Candidate `json:"candidate"`
	Result    string     `json:"native_result"`
	Output    string     `json:"native_output"`
	Run       string     `json:"run"`
}

func writeReplay(verif, prop, dir, tier string, c *Candidate, res nativeResult) string {
	d := filepath.Join(verif, "replays")
	os.MkdirAll(d, 0o755)
	p := filepath.Join(d, fmt.Sprintf("%s-%s.json", prop, c.Harness))
	out := res.output
	if len(out) > 4000 {
		out = out[:4000]
	}
	b, _ := json.MarshalIndent(replayFile{prop, dir, tier, c, res.kind + " " + res.msg, out, "/verif/bin/gosym replay " + p}, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

func replayMain(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		return fatal("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		return fatal("%v", err)
	}
	tmp, err := os.MkdirTemp("", "gosym-")
	if err != nil {
		return fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	P, err := loadProgram(*repo, *verif, rf.Dir, tmp)
	if err != nil {
		return fatal("%v", err)
	}
	n := &Native{P: P, repo: *repo, dir: tmp, harness: rf.Dir, tier: rf.Tier}
	res, ok, err := n.confirm(rf.Candidate, time.Minute)
	if err != nil {
		return fatal("%v", err)
	}
	fmt.Printf("%s %s\n%s", res.kind, res.msg, res.output)
	if ok {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, fs.Arg(0))
		return 1
	}
	return 0
}

func writeEvidence(verif string, spec Spec, tier string, seed int, reports []HReport, funcs map[string]fnCov, samples []any, violations int, natRuns int64, loadT, wall time.Duration, P *Program) {
	var paths, trans, queries, unknown, unsat, sat int64
	var solver float64
	validated := 0
	exh := len(reports) > 0
	for _, r := range reports {
		paths += r.Paths
		trans += r.Decisions
		queries += r.Queries
		unknown += r.Unknown
		sat += r.Sat
		unsat += r.Unsat
		solver += r.SolverS
		validated += r.Validated
		exh = exh && r.Exhaustive
	}
	var fl []string
	for f, c := range funcs {
		fl = append(fl, fmt.Sprintf("%s blocks %d/%d", strings.TrimPrefix(f, repoModule+"/"), c.hit, c.total))
	}
	sort.Strings(fl)
	if samples == nil {
		samples = []any{}
	}
	ver := func(bin, arg string) string {
		o, err := exec.Command(bin, arg).Output()
		if err != nil {
			return bin
		}
		return strings.TrimSpace(strings.SplitN(string(o), "\n", 2)[0])
	}
	cov := map[string]any{
		"states": paths, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
		"states_meaning":      "execution paths explored; every path stands for all input values satisfying its path condition",
		"transitions_meaning": "branch and scheduling decisions taken on those paths",
		"exhaustive":          exh, "functions_encoded": fl, "harnesses": reports, "bounds": spec.Bounds, "outside_the_bounds": spec.Outside,
		"queries_discharged": queries, "queries_sat": sat, "queries_unsat": unsat, "queries_unknown": unknown, "solver_seconds": round3(solver),
		"solver": ver("z3-new", "--version"), "native_runs": natRuns, "load_seconds": round3(loadT.Seconds()),
		"encoding": "go/ssa of /repo's working tree, translated on this run",
	}
	ev := map[string]any{"property": spec.Property, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": spec.Assumptions, "wall_s": round3(wall.Seconds()), "violations": violations}
	if spec.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	d := filepath.Join(verif, "evidence")
	os.MkdirAll(d, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(d, spec.Property+".json"), b, 0o644)
}
