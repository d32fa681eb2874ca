package main

// gosym check <property>    decide a property on /repo's current tree
// gosym replay <file>       run a stored counterexample against the real code

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

var verifDir = "/verif"

func main() {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	debug.SetGCPercent(200)
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|replay ARG [harness-regexp]")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		filter := ""
		if len(os.Args) > 3 {
			filter = os.Args[3]
		}
		os.Exit(check(os.Args[2], filter))
	case "replay":
		os.Exit(replay(os.Args[2]))
	}
	os.Exit(2)
}

type known struct {
	property, harness, label, text string
}

var knownRe = regexp.MustCompile(`^known:\s+property=(\S+)\s+harness=(\S+)\s+label=(\S+)\s+(.*)$`)

func loadKnown() []known {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if m := knownRe.FindStringSubmatch(l); m != nil {
			out = append(out, known{m[1], m[2], m[3], m[4]})
		}
	}
	return out
}

type harnessResult struct {
	Harness      string            `json:"harness"`
	Paths        int64             `json:"paths"`
	Steps        int64             `json:"instructions"`
	Assertions   int64             `json:"assertions_decided"`
	Queries      int64             `json:"solver_queries"`
	SolverS      float64           `json:"solver_s"`
	Bounds       map[string]string `json:"bounds"`
	Reach        map[string]int    `json:"reached"`
	Complete     bool              `json:"exhausted_within_bounds"`
	Inconclusive []string          `json:"inconclusive,omitempty"`
	Wall         float64           `json:"wall_s"`
}

func check(prop, filter string) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	budget := 240 * time.Second
	if tier == "thorough" {
		budget = 60 * time.Minute
	}
	if s := os.Getenv("GOSYM_BUDGET"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			budget = d
		}
	}
	deadline := start.Add(budget)
	ev := map[string]interface{}{}
	warn := func(f string, a ...interface{}) { fmt.Printf("WARNING: "+f+"\n", a...) }
	fin := func(code int, viol int, cov map[string]interface{}) int {
		ev["property"], ev["tier"], ev["seed"], ev["level"] = prop, tier, seed, "model_checking"
		ev["coverage"], ev["wall_s"], ev["violations"] = cov, time.Since(start).Seconds(), viol
		ev["assumptions"] = assumptions
		os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), b, 0o644)
		return code
	}
	if old, _ := filepath.Glob(filepath.Join(verifDir, "evidence", "replays", prop+"-*.json")); filter == "" {
		for _, f := range old {
			os.Remove(f)
		}
	}
	ld, err := Load(verifDir, prop)
	if err != nil {
		warn("%s not decided: %v", prop, err)
		return fin(0, 0, map[string]interface{}{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []string{}, "explanation": "not decided: " + err.Error()})
	}
	fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", time.Since(start).Seconds())
	kn := loadKnown()
	var (
		results []harnessResult
		allViol []*Violation
		samples []map[string]interface{}
		funcs   = map[string]bool{}
		states  int64
		trans   int64
		queries int64
		solverS float64
		models  []*Violation
	)
	var fre *regexp.Regexp
	if filter != "" {
		fre = regexp.MustCompile(filter)
	}
	var hs []*Harness
	for _, h := range ld.harnesses {
		if fre == nil || fre.MatchString(h.Name) {
			hs = append(hs, h)
		}
	}
	for i, h := range hs {
		left := time.Until(deadline)
		share := left / time.Duration(len(hs)-i)
		if share < left/2 {
			share = left / 2
		}
		t0 := time.Now()
		e := NewEngine(ld, h, tier == "thorough")
		if s := os.Getenv("GOSYM_WORKERS"); s != "" {
			e.workers, _ = strconv.Atoi(s)
		}
		if e.workers > runtime.NumCPU() {
			e.workers = runtime.NumCPU()
		}
		e.deadline = t0.Add(share)
		atomic.StoreInt64(&queryLimit, e.deadline.Add(3*time.Second).UnixNano())
		e.knownLbl = map[string]bool{}
		for _, k := range kn {
			if k.property == prop && k.harness == h.Name {
				e.knownLbl[k.label] = true
			}
		}
		q0, ns0 := atomic.LoadInt64(&solverStats.Queries), atomic.LoadInt64(&solverStats.Nanos)
		e.Run()
		r := harnessResult{Harness: h.Name, Paths: e.paths, Steps: e.steps, Assertions: e.queriesA,
			Queries: atomic.LoadInt64(&solverStats.Queries) - q0, SolverS: float64(atomic.LoadInt64(&solverStats.Nanos)-ns0) / 1e9,
			Bounds: e.bounds, Reach: e.reach, Inconclusive: e.inconcList(), Wall: time.Since(t0).Seconds()}
		r.Complete = !e.timedOut && len(r.Inconclusive) == 0 && !(e.stop && len(e.viol) > 0)
		if e.timedOut {
			r.Inconclusive = append(r.Inconclusive, fmt.Sprintf("budget exhausted with %d paths pending", len(e.stack)))
		}
		e.mu.Lock()
		if e.short {
			// enough to report; the other harnesses get a moment each
			if d := time.Now().Add(time.Duration(len(hs)-i) * 10 * time.Second); d.Before(deadline) {
				deadline = d
			}
		}
		e.mu.Unlock()
		results = append(results, r)
		states += e.paths
		trans += e.steps
		queries += r.Queries
		solverS += r.SolverS
		e.funcs.Range(func(k, _ interface{}) bool {
			f := k.(*ssa.Function)
			if e.isRepoPkg(f.Pkg) && !strings.Contains(f.String(), "internal/verif") {
				funcs[f.String()] = true
			}
			return true
		})
		for l, vs := range e.viol {
			_ = l
			allViol = append(allViol, vs...)
		}
		models = append(models, e.models...)
		fmt.Fprintf(os.Stderr, "%s: paths=%d steps=%d asserts=%d queries=%d solver=%.1fs wall=%.1fs complete=%v reach=%v\n", h.Name, r.Paths, r.Steps, r.Assertions, r.Queries, r.SolverS, r.Wall, r.Complete, r.Reach)
		for _, m := range r.Inconclusive {
			warn("%s inconclusive: %s", h.Name, m)
		}
		if e.sampleErr != "" {
			fmt.Fprintf(os.Stderr, "engine error: %s\n", e.sampleErr)
		}
	}
	// --- validate a sample of explored paths against the compiled code
	validated, mismatched := 0, 0
	names := map[string]bool{}
	for _, v := range append(append([]*Violation{}, allViol...), models...) {
		for n := range v.Values {
			names[n] = true
		}
	}
	var nb *nativeBuild
	native := func() *nativeBuild {
		if nb == nil {
			nb = ld.buildNative(names, false)
		}
		return nb
	}
	defer func() {
		if nb != nil {
			nb.clean()
		}
	}()
	repDir := filepath.Join(verifDir, "evidence", "replays")
	os.MkdirAll(repDir, 0o755)
	tmp, _ := os.MkdirTemp("", "gosym-models-")
	defer os.RemoveAll(tmp)
	if len(models) > 0 && os.Getenv("GOSYM_NOVALIDATE") == "" {
		b := native()
		if b.err != nil {
			warn("%v", b.err)
		} else {
			var mu sync.Mutex
			var wg sync.WaitGroup
			sem := make(chan struct{}, 8)
			for i, m := range models {
				wg.Add(1)
				sem <- struct{}{}
				go func(i int, m *Violation) {
					defer wg.Done()
					defer func() { <-sem }()
					f := filepath.Join(tmp, fmt.Sprintf("m%d.json", i))
					writeReplay(f, prop, tier, m, "")
					o, txt := b.run(m.Harness, f, 20*time.Second)
					mu.Lock()
					defer mu.Unlock()
					if o == "ok" || strings.HasPrefix(o, "exit:") {
						validated++
					} else if o == "timeout" && m.Multi {
						// waits in real time for what takes no time in the engine
					} else {
						mismatched++
						if mismatched <= 3 {
							warn("engine and compiled code disagree on a path of %s: native outcome %s %s", m.Harness, o, tail(txt, 300))
							writeReplay(filepath.Join(repDir, fmt.Sprintf("%s-mismatch-%d.json", prop, mismatched)), prop, tier, m, o)
						}
					}
				}(i, m)
			}
			wg.Wait()
		}
	}
	for _, m := range models {
		if len(samples) < 4 {
			vals := map[string]uint64{}
			ks := make([]string, 0, len(m.Values))
			for k := range m.Values {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for j, k := range ks {
				if j < 40 {
					vals[k] = m.Values[k]
				}
			}
			samples = append(samples, map[string]interface{}{"harness": m.Harness, "path_model": vals})
		}
	}
	// --- violations
	nviol := 0
	knownSeen := map[string]bool{}
	sort.SliceStable(allViol, func(i, j int) bool {
		return allViol[i].Harness+allViol[i].Label < allViol[j].Harness+allViol[j].Label
	})
	done := map[string]int{} // 1 unconfirmed, 2 confirmed
	cnt := map[string]int{}
	pend := map[string]*Violation{}
	spent := map[string]time.Duration{} // on native runs of schedule-dependent ones
	var spentAll time.Duration
	for _, v := range allViol {
		key := v.Harness + "\x00" + v.Label
		if done[key] == 2 {
			continue
		}
		isKnown := false
		for _, k := range kn {
			if k.property == prop && k.harness == v.Harness && k.label == v.Label {
				isKnown = true
				if !knownSeen[key] {
					knownSeen[key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
				}
			}
		}
		if isKnown {
			continue
		}
		cnt[key]++
		file := filepath.Join(repDir, fmt.Sprintf("%s-%s-%s-%d.json", prop, strings.TrimPrefix(v.Harness, "Verif"+prop+"_"), safe(v.Label), cnt[key]))
		outcome := "not built"
		confirmed := false
		b := native()
		if b.err == nil {
			writeReplay(file, prop, tier, v, "")
			tries := 3
			if v.Multi {
				tries = 10
			}
			for t := 0; t < tries && !confirmed; t++ {
				if v.Multi && (spent[key] > 60*time.Second || spentAll > 180*time.Second) {
					break
				}
				t0 := time.Now()
				outcome, _ = b.run(v.Harness, file, 30*time.Second)
				if v.Multi {
					spent[key] += time.Since(t0)
					spentAll += time.Since(t0)
				}
				confirmed = matches(v, outcome)
				if !v.Multi && t == 0 && !strings.Contains(v.Label, "order") && outcome != "ok" {
					break
				}
			}
		} else {
			outcome = b.err.Error()
		}
		writeReplay(file, prop, tier, v, outcome)
		fmt.Printf("counterexample: harness=%s label=%s: %s at %s; native replay: %s\n", v.Harness, v.Label, v.Msg, v.Pos, outcome)
		if confirmed {
			done[key] = 2
			nviol++
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
			continue
		}
		if v.Multi {
			pend[key] = v
			continue
		}
		done[key] = 1
	}
	for key, v := range pend {
		if done[key] == 2 {
			continue
		}
		done[key] = 2
		nviol++
		file := filepath.Join(repDir, fmt.Sprintf("%s-%s-%s-%d.json", prop, strings.TrimPrefix(v.Harness, "Verif"+prop+"_"), safe(v.Label), cnt[key]))
		fmt.Printf("note: schedule-dependent; the stored schedule is the counterexample (native runs use the system scheduler)\n")
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
	}
	for key, d := range done {
		if d == 1 {
			warn("counterexample %s did not reproduce on the compiled code; not reported", strings.ReplaceAll(key, "\x00", "/"))
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, strings.ReplaceAll(f, modPath+"/", ""))
	}
	sort.Strings(fl)
	complete := true
	for _, r := range results {
		complete = complete && r.Complete
	}
	cov := map[string]interface{}{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
		"trace_mismatches": mismatched, "exhaustive": complete,
		"functions_encoded": fl, "solver_queries": queries, "solver_s": solverS, "harnesses": results,
		"explanation": "states: symbolic paths explored, each standing for all inputs that satisfy its path condition; transitions: SSA instructions executed symbolically; traces_validated_against_impl: path models run through the compiled code with the same outcome",
	}
	code := 0
	if nviol > 0 {
		code = 1
	}
	if code == 0 {
		st := "held on everything explored"
		if !complete {
			st = "no violation found; exploration incomplete (see warnings)"
		}
		fmt.Printf("%s %s: %s; paths=%d queries=%d validated=%d wall=%.1fs\n", prop, tier, st, states, queries, validated, time.Since(start).Seconds())
	}
	return fin(code, nviol, cov)
}

func safe(s string) string {
	return regexp.MustCompile(`[^A-Za-z0-9_.-]+`).ReplaceAllString(s, "_")
}

func writeReplay(file, prop, tier string, v *Violation, native string) {
	r := ReplayFile{Property: prop, Harness: v.Harness, Label: v.Label, Msg: v.Msg, Pos: v.Pos, Tier: tier, Multi: v.Multi, Values: v.Values, Sched: v.Sched, Native: native, Stack: v.Stack}
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(file, b, 0o644)
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r ReplayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ld, err := Load(verifDir, r.Property)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	names := map[string]bool{}
	for n := range r.Values {
		names[n] = true
	}
	nb := ld.buildNative(names, r.Multi)
	defer nb.clean()
	if nb.err != nil {
		fmt.Fprintln(os.Stderr, nb.err)
		return 2
	}
	abs, _ := filepath.Abs(file)
	o, txt := nb.run(r.Harness, abs, 30*time.Second)
	fmt.Printf("outcome: %s\n%s\n", o, txt)
	if o == "ok" {
		return 0
	}
	return 1
}

var assumptions = []string{
	"go/ssa lowering and the engine's model of Go semantics and of the intercepted library functions (DESIGN.md); sampled paths are cross-checked natively",
	"the verdicts of z3 (4.8.12, and 5.3.2 or cvc5 1.1.2 where that gives up)",
	"SHA-1 is collision free on the inputs of a path",
	"logging and terminal output packages have no effect on behaviour",
	"goroutine switches at synchronisation operations only; unsynchronised conflicting accesses are reported as races where race tracking is on",
}
