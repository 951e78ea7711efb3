package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type harnessCfg struct {
	Pkg      string   `json:"pkg"`
	Fn       string   `json:"fn"`
	Reach    []string `json:"reach"`
	QuickS   int      `json:"quick_s"`
	ThorS    int      `json:"thorough_s"`
	MapOrd   *int     `json:"map_order"`
	MaxLoop  int      `json:"max_loop"`
	MaxSteps int64    `json:"max_steps"`
	NoMerge  bool     `json:"no_merge"`
	NoSample bool     `json:"no_sample"`
	Thorough bool     `json:"thorough_only"`
	Outside  string   `json:"outside"` // what the bounds leave out
}

type checkCfg struct {
	Level     string       `json:"level"`
	Explain   string       `json:"explain"`
	Outside   []string     `json:"outside"`
	Harnesses []harnessCfg `json:"harnesses"`
}

func main() {
	debug.SetGCPercent(200)
	p := &paths{repo: "/repo", verif: "/verif"}
	if v := os.Getenv("GOSYM_REPO"); v != "" {
		p.repo = v
	}
	if v := os.Getenv("GOSYM_VERIF"); v != "" {
		p.verif = v
	}
	p.harness = filepath.Join(p.verif, "harness")
	args := os.Args[1:]
	if len(args) < 1 {
		fmt.Println("usage: gosym check ID TIER | run PKG FN [TIER] | replay FILE")
		os.Exit(2)
	}
	tmp, err := os.MkdirTemp("", "gosym-mod")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	code := 2
	func() {
		defer os.RemoveAll(tmp)
		// go.mod is copied so that nothing the go command does can change /repo's
		for _, f := range []string{"go.mod", "go.sum"} {
			b, err := os.ReadFile(filepath.Join(p.repo, f))
			if err == nil {
				os.WriteFile(filepath.Join(tmp, f), b, 0644)
			}
		}
		p.modfile = filepath.Join(tmp, "go.mod")
		switch args[0] {
		case "check":
			tier := "quick"
			if len(args) > 2 {
				tier = args[2]
			}
			code = runCheck(p, args[1], tier)
		case "run":
			tier := "quick"
			if len(args) > 3 {
				tier = args[3]
			}
			code = runOne(p, args[1], args[2], tier)
		case "replay":
			code = runReplay(p, args[1])
		default:
			fmt.Println("unknown command")
		}
	}()
	os.Exit(code)
}

func loadChecks(p *paths) (map[string]*checkCfg, error) {
	b, err := os.ReadFile(filepath.Join(p.verif, "checks.json"))
	if err != nil {
		return nil, err
	}
	m := map[string]*checkCfg{}
	return m, json.Unmarshal(b, &m)
}

func patternsOf(hs []harnessCfg) []string {
	seen := map[string]bool{}
	var l []string
	for _, h := range hs {
		if !seen[h.Pkg] {
			seen[h.Pkg] = true
			l = append(l, "./zzverif/"+h.Pkg)
		}
	}
	return l
}

func (e *Engine) configure(h harnessCfg) {
	if h.MapOrd != nil {
		e.mapOrd = *h.MapOrd
	}
	if h.MaxLoop > 0 {
		e.maxLoop = h.MaxLoop
	}
	if h.MaxSteps > 0 {
		e.maxSteps = h.MaxSteps
	}
	e.noMerge = h.NoMerge
	if n := runtime.NumCPU(); n < e.workers {
		e.workers = n
	}
	if v := os.Getenv("GOSYM_WORKERS"); v != "" {
		e.workers, _ = strconv.Atoi(v)
	}
}

func (h harnessCfg) budget(tier string) time.Duration {
	if tier == "thorough" {
		if h.ThorS > 0 {
			return time.Duration(h.ThorS) * time.Second
		}
		return 20 * time.Minute
	}
	if h.QuickS > 0 {
		return time.Duration(h.QuickS) * time.Second
	}
	return 150 * time.Second
}

func (e *Engine) summary() string {
	return fmt.Sprintf("paths=%d ends=%v asserts=%d queries=%d cached=%d solver=%.1fs unknown=%d fallback=%d steps=%d deadline=%v", e.paths, e.ends, e.asserts, e.queries, e.hits, e.solverTime.Seconds(), e.unknowns, e.fallbacks, e.steps, e.hitDead)
}

func runOne(p *paths, pkg, fn, tier string) int {
	t0 := time.Now()
	h := harnessCfg{Pkg: pkg, Fn: fn}
	if cs, err := loadChecks(p); err == nil {
		for _, c := range cs {
			for _, x := range c.Harnesses {
				if x.Pkg == pkg && x.Fn == fn {
					h = x
				}
			}
		}
	}
	prog, err := loadProgram(p.repo, p.harness, p.modfile, patternsOf([]harnessCfg{h}))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	f := prog.harnessFn(pkg, fn)
	if f == nil {
		fmt.Println("no such harness")
		return 2
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	e := NewEngine(prog, tier)
	e.configure(h)
	e.verbose = true
	b := h.budget(tier)
	if v := os.Getenv("GOSYM_BUDGET"); v != "" {
		n, _ := strconv.Atoi(v)
		b = time.Duration(n) * time.Second
	}
	t1 := time.Now()
	e.Explore(f, b)
	fmt.Printf("%.1fs %s\n", time.Since(t1).Seconds(), e.summary())
	fmt.Println("reached", e.reached, "bounds", e.bounds)
	for _, s := range sortedCounts(e.unsup) {
		fmt.Println("UNSUPPORTED", s)
	}
	for _, s := range sortedCounts(e.notes) {
		fmt.Println("NOTE", s)
	}
	for _, s := range sortedCounts(e.incon) {
		fmt.Println("INCONCLUSIVE", s)
	}
	hr := harnessRef{pkg, fn}
	r, err := newReplayer(p, []harnessRef{hr})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer r.close()
	for _, k := range e.candOrder {
		for i, c := range e.cands[k] {
			if i > 1 {
				break
			}
			ok, why, err := r.confirm(hr, c, tier)
			in, _ := json.Marshal(c.Inputs)
			fmt.Println("CANDIDATE", k, "\n   ", string(in), "\n    where:", c.Where, "\n    confirmed:", ok, why, err)
			if c.Kind == "panic" {
				fmt.Println("    ", c.Msg)
			}
		}
	}
	val, bad := validate(r, hr, e, tier)
	fmt.Println("validated", val, "mismatches", len(bad))
	for i, b := range bad {
		if i < 3 {
			fmt.Println("  MISMATCH", b)
		}
	}
	if os.Getenv("GOSYM_SAMPLES") != "" {
		for _, s := range e.samples {
			b, _ := json.Marshal(s)
			fmt.Println(string(b))
		}
	}
	return 0
}

// validate runs sampled completed paths natively and compares observations.
func validate(r *replayer, h harnessRef, e *Engine, tier string) (int, []string) {
	smp := e.samples
	var mu sync.Mutex
	var bad []string
	n := 0
	if err := r.build(); err != nil {
		return 0, []string{err.Error()}
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i, s := range smp {
		if i >= 40 {
			break
		}
		wg.Add(1)
		go func(s *sample) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			res, err := r.run(&job{Harness: h.key(), Inputs: s.Inputs, Tier: tier, Repeat: 500, WantObs: s.Obs}, 20*time.Second)
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				bad = append(bad, err.Error())
				return
			}
			if !res.Done || res.Panic != "" || res.Assume != "" || len(res.Missing) > 0 || fmt.Sprint(res.Obs) != fmt.Sprint(s.Obs) {
				bad = append(bad, fmt.Sprintf("inputs %v engine %v native %+v", s.Inputs, s.Obs, *res))
				return
			}
			n++
		}(s)
	}
	wg.Wait()
	return n, bad
}

type finding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Kind     string `json:"kind"`
	Label    string `json:"label"`
	What     string `json:"what"`
	Where    string `json:"where"` // required substring of the call site, for panics
}

// known_findings.jsonl: one JSON object per recorded finding; "fixed:" lines are history only.
func loadFindings(p *paths) []finding {
	b, _ := os.ReadFile(filepath.Join(p.verif, "known_findings.txt"))
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var f finding
		if json.Unmarshal([]byte(l), &f) == nil && f.Label != "" {
			out = append(out, f)
		}
	}
	return out
}

func runReplay(p *paths, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var d struct {
		Pkg, Fn, Tier string
		Candidate     candidate
	}
	if err := json.Unmarshal(b, &d); err != nil {
		fmt.Println(err)
		return 2
	}
	h := harnessRef{d.Pkg, d.Fn}
	r, err := newReplayer(p, []harnessRef{h})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer r.close()
	ok, why, err := r.confirm(h, &d.Candidate, d.Tier)
	fmt.Println("reproduced:", ok, why, err)
	if ok {
		return 1
	}
	return 0
}

func runCheck(p *paths, id, tier string) int {
	t0 := time.Now()
	cs, err := loadChecks(p)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	c := cs[id]
	if c == nil {
		fmt.Println("no check", id)
		return 2
	}
	var hs []harnessCfg
	for _, h := range c.Harnesses {
		if h.Thorough && tier != "thorough" {
			continue
		}
		hs = append(hs, h)
	}
	prog, err := loadProgram(p.repo, p.harness, p.modfile, patternsOf(hs))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	loadS := time.Since(t0).Seconds()
	var refs []harnessRef
	for _, h := range hs {
		refs = append(refs, harnessRef{h.Pkg, h.Fn})
	}
	r, err := newReplayer(p, refs)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer r.close()
	// the replay program is built while the solver works
	go r.build()

	known := loadFindings(p)
	os.MkdirAll(filepath.Join(p.verif, "evidence", "replay"), 0777)
	old, _ := filepath.Glob(filepath.Join(p.verif, "evidence", "replay", id+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	cov := map[string]interface{}{}
	var harnessEv []map[string]interface{}
	fns := map[string]int64{}
	probed := 0
	totalPaths, totalAsserts, totalQ, validated, completed := 0, 0, 0, 0, 0
	var totalSteps int64
	var solverT time.Duration
	var samplesOut []interface{}
	var viol []map[string]interface{}
	var knownHit []string
	code := 0
	nviol := 0
	var problems []string
	for _, h := range hs {
		f := prog.harnessFn(h.Pkg, h.Fn)
		if f == nil {
			fmt.Println("no harness", h.Pkg, h.Fn)
			return 2
		}
		e := NewEngine(prog, tier)
		e.configure(h)
		th := time.Now()
		e.Explore(f, h.budget(tier))
		hr := harnessRef{h.Pkg, h.Fn}
		fmt.Printf("%s: %.1fs %s\n", hr.key(), time.Since(th).Seconds(), e.summary())
		unconf := []string{}
		nprobe := 0
		if e.probeSeen > 0 {
			var pc []*candidate
			nprobe, pc = r.probe(hr, e, tier)
			for _, c := range pc {
				k := c.Kind + ": " + c.Msg
				if len(e.cands[k]) == 0 {
					e.candOrder = append(e.candOrder, k)
				}
				e.cands[k] = append(e.cands[k], c)
			}
			probed += nprobe
		}
		for _, k := range e.candOrder {
			confirmed := false
			var lastWhy string
			for _, cand := range e.cands[k] {
				ok, why, err := r.confirm(hr, cand, tier)
				if err != nil {
					fmt.Println(err)
					problems = append(problems, trunc(err.Error(), 300))
					break
				}
				lastWhy = why
				if !ok {
					continue
				}
				confirmed = true
				kf := false
				for _, f := range known {
					if f.Property == id && (f.Harness == "" || f.Harness == h.Fn) && f.Kind == cand.Kind &&
						(cand.Kind == "assert" && f.Label == cand.Msg || cand.Kind != "assert" && f.Where != "" && strings.Contains(cand.Where, f.Where) && strings.Contains(cand.Msg, f.Label)) {
						kf = true
						line := fmt.Sprintf("KNOWN-FINDING: property=%s %s", id, f.What)
						dup := false
						for _, l := range knownHit {
							dup = dup || l == line
						}
						if !dup {
							fmt.Println(line)
							knownHit = append(knownHit, line)
						}
						break
					}
				}
				if kf {
					break
				}
				nviol++
				rp := filepath.Join(p.verif, "evidence", "replay", fmt.Sprintf("%s-%d.json", id, nviol))
				b, _ := json.MarshalIndent(map[string]interface{}{"Pkg": h.Pkg, "Fn": h.Fn, "Tier": tier, "Candidate": cand, "native": why,
					"how": "bash /verif/replay.sh " + rp}, "", " ")
				os.WriteFile(rp, b, 0644)
				in, _ := json.Marshal(cand.Inputs)
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
				fmt.Printf("  %s %s inputs %s\n", h.Fn, k, in)
				viol = append(viol, map[string]interface{}{"property": id, "replay": rp, "detail": k, "inputs": cand.Inputs})
				code = 1
				break
			}
			if !confirmed {
				unconf = append(unconf, k+" | "+trunc(lastWhy, 300))
				fmt.Println("UNCONFIRMED", k, trunc(lastWhy, 300))
			}
		}
		nval, bad := 0, []string(nil)
		if !h.NoSample {
			nval, bad = validate(r, hr, e, tier)
		}
		for i, b := range bad {
			if i < 3 {
				fmt.Println("MISMATCH", hr.key(), trunc(b, 600))
			}
		}
		missing := []string{}
		for _, l := range h.Reach {
			if e.reached[l] == 0 {
				missing = append(missing, l)
			}
		}
		if len(missing) > 0 {
			fmt.Println("NOT REACHED", hr.key(), missing)
			problems = append(problems, "not reached: "+strings.Join(missing, ","))
		}
		for _, s := range sortedCounts(e.unsup) {
			fmt.Println("UNSUPPORTED", hr.key(), trunc(s, 300))
		}
		ev := map[string]interface{}{
			"harness": hr.key(), "paths": e.paths, "path_ends": e.ends, "assertions_checked": e.asserts, "queries": e.queries,
			"solver_seconds": round2(e.solverTime.Seconds()), "solver_unknown": e.unknowns, "fallback_queries": e.fallbacks, "instructions": e.steps,
			"bounds": e.bounds, "reached": e.reached, "exhausted": !e.hitDead && len(e.unsup) == 0 && len(e.incon) == 0,
			"wall_s": round2(time.Since(th).Seconds()), "native_replays_agreeing": nval, "native_replays_disagreeing": len(bad),
		}
		if len(e.unsup) > 0 {
			ev["not_encoded"] = sortedCounts(e.unsup)
			ev["native_runs_of_paths_not_encoded"] = nprobe
		}
		if len(e.notes) > 0 {
			ev["engine_notes"] = sortedCounts(e.notes)
		}
		if len(e.incon) > 0 {
			ev["inconclusive"] = sortedCounts(e.incon)
		}
		if len(unconf) > 0 {
			ev["unconfirmed_counterexamples"] = unconf
		}
		if h.Outside != "" {
			ev["outside_bounds"] = h.Outside
		}
		harnessEv = append(harnessEv, ev)
		for k, n := range e.fns {
			fns[k] += n
		}
		totalPaths += e.paths
		totalAsserts += e.asserts
		totalQ += e.queries
		totalSteps += e.steps
		solverT += e.solverTime
		completed += e.completed
		validated += nval
		for i, s := range e.samples {
			if i < 3 {
				samplesOut = append(samplesOut, map[string]interface{}{"harness": hr.key(), "inputs": s.Inputs, "observed": s.Obs})
			}
		}
	}
	var fl []string
	for k, n := range fns {
		if n > 0 {
			fl = append(fl, k)
		}
	}
	sort.Strings(fl)
	if samplesOut == nil {
		samplesOut = []interface{}{}
	}
	cov["states"] = totalPaths
	cov["transitions"] = totalSteps
	cov["traces_validated_against_impl"] = validated
	cov["samples"] = samplesOut
	cov["explanation"] = c.Explain
	cov["functions_encoded"] = fl
	cov["harnesses"] = harnessEv
	cov["assertions_checked"] = totalAsserts
	cov["solver_queries"] = totalQ
	cov["solver_seconds"] = round2(solverT.Seconds())
	cov["encode_seconds"] = round2(loadS)
	cov["outside_bounds"] = c.Outside
	if len(knownHit) > 0 {
		cov["known_findings_seen"] = knownHit
	}
	if len(problems) > 0 {
		cov["problems"] = problems
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": c.Level, "coverage": cov, "wall_s": round2(time.Since(t0).Seconds())}
	if len(viol) > 0 {
		ev["violations"] = len(viol)
	} else {
		ev["violations"] = 0
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(p.verif, "evidence", id+".json"), b, 0644); err != nil {
		fmt.Println(err)
		return 2
	}
	if code == 0 && completed == 0 && len(knownHit) == 0 && probed == 0 {
		fmt.Println("nothing was explored to completion")
		return 2
	}
	fmt.Printf("%s %s: paths=%d asserts=%d queries=%d validated=%d wall=%.1fs exit=%d\n", id, tier, totalPaths, totalAsserts, totalQ, validated, time.Since(t0).Seconds(), code)
	return code
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }
