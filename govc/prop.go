package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var verifDir = func() string {
	if d := os.Getenv("GOVC_VERIF"); d != "" {
		return d
	}
	return "/verif"
}()

var repoDir = func() string {
	if d := os.Getenv("GOVC_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

// Prop says how a property is decided: safety kinds over every function, the
// functional contracts tagged with it and everything those rest on, or both.
type Prop struct {
	safety     string // obligation kinds
	functional bool
	ground     []string // prefixes of the registration facts that belong to it
	native     string   // what the harness looks for
}

var props = map[string]*Prop{
	"C01": {safety: "cast,wf,empty,inv", native: "safety"},
	"C02": {functional: true},
	"C03": {safety: "nil,bounds,div0,panic,typeassert,makelen,shift,chan,pre", native: "safety"},
	"C04": {functional: true},
	"C05": {functional: true},
	"C06": {functional: true, ground: []string{"arity", "special"}},
	"C07": {functional: true, safety: "restr", ground: []string{"restricted"}},
	"C08": {functional: true, safety: "prot", ground: []string{"protected"}},
	"C09": {functional: true},
	"C10": {functional: true},
	"C11": {functional: true},
	"C12": {functional: true},
	"C13": {functional: true},
	"C14": {safety: "frame", native: "frame"},
	"C15": {functional: true},
	"C16": {functional: true},
	"C17": {safety: "lock", native: "lock"},
	"C18": {functional: true},
	"C19": {functional: true},
	"C20": {functional: true},
	"C21": {functional: true},
	"C22": {functional: true},
	"C23": {functional: true},
	"C24": {functional: true},
}

// openKey identifies an undischarged obligation without the helper it sits in.
func openKey(o *Oblig) string {
	k := o.Key
	if i := strings.Index(k, " in "); i > 0 {
		if j := strings.Index(k, ": "); j > i {
			k = k[:i] + k[j:]
		} else if j < 0 {
			k = k[:i]
		}
	}
	return k
}

type Open struct {
	Props map[string]map[string]int `json:"props"` // property -> key -> count
	Roots map[string]bool           `json:"roots"` // functions verified when the list was made
}

func loadOpen() *Open {
	o := &Open{Props: map[string]map[string]int{}, Roots: map[string]bool{}}
	if b, err := os.ReadFile(filepath.Join(verifDir, "open.json")); err == nil {
		json.Unmarshal(b, o)
	}
	return o
}

func (o *Open) save() {
	b, _ := json.MarshalIndent(o, "", " ")
	os.WriteFile(filepath.Join(verifDir, "open.json"), append(b, '\n'), 0644)
}

// known findings: "property=<id> key=<obligation key or function> | text"
type Finding struct {
	prop, key, text string
	hit             bool
}

func loadFindings() []*Finding {
	var out []*Finding
	f, err := os.Open(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		l = l[len("finding: "):]
		parts := strings.SplitN(l, " | ", 3)
		if len(parts) != 3 {
			continue
		}
		out = append(out, &Finding{prop: strings.TrimPrefix(parts[0], "property="), key: strings.TrimPrefix(parts[1], "key="), text: parts[2]})
	}
	return out
}

type checkRun struct {
	w       *World
	id      string
	prop    *Prop
	tier    string
	open    *Open
	results []*RootResult
	fns     map[string]*ssa.Function
	mu      sync.Mutex
}

func kindSet(s string) map[string]bool {
	m := map[string]bool{}
	for _, k := range strings.Split(s, ",") {
		if k != "" {
			m[k] = true
		}
	}
	return m
}

// solveAll verifies the functions, and for functional properties everything
// whose contract they used.
func (c *checkRun) solveAll(start []*ssa.Function, kinds map[string]bool, closure bool, cfg solveCfg) {
	seen := map[*ssa.Function]bool{}
	queue := append([]*ssa.Function{}, start...)
	var wg sync.WaitGroup
	sem := make(chan struct{}, 12)
	for len(queue) > 0 {
		fn := queue[0]
		queue = queue[1:]
		if seen[fn] {
			continue
		}
		seen[fn] = true
		n := c.w.shortFn(fn.String())
		ctr := c.w.contracts[n]
		if ctr != nil && (ctr.skipRoot) {
			continue
		}
		vc := c.w.genRoot(fn, kinds)
		if closure && vc.env != nil {
			for _, u := range sortedKeys(vc.env.usedCtr) {
				if uc := c.w.contracts[u]; uc != nil && uc.fn != nil {
					queue = append(queue, uc.fn)
				}
			}
		}
		if vc.err != "" {
			c.mu.Lock()
			c.results = append(c.results, &RootResult{Func: n, Err: vc.err, env: vc.env})
			c.mu.Unlock()
			continue
		}
		r := render(vc)
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			res := solveRoot(vc, r, cfg)
			res.r = r
			c.mu.Lock()
			c.results = append(c.results, res)
			c.mu.Unlock()
		}()
	}
	wg.Wait()
	sort.Slice(c.results, func(i, j int) bool { return c.results[i].Func < c.results[j].Func })
}

func (c *checkRun) startFns(functional bool) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.w.roots() {
		n := c.w.shortFn(fn.String())
		if functional {
			if k := c.w.contracts[n]; k == nil || !k.props[c.id] {
				continue
			}
		}
		out = append(out, fn)
	}
	return out
}

type failure struct {
	root string
	res  *RootResult
	key  string
	v    *Verdict
	err  string
}

func runCheck(id string, args []string) int {
	t0 := time.Now()
	p := props[id]
	if p == nil {
		fmt.Println("ERROR: unknown property", id)
		return 2
	}
	c := &checkRun{id: id, prop: p, tier: os.Getenv("VERIF_TIER"), open: loadOpen(), fns: map[string]*ssa.Function{}}
	if c.tier == "" {
		c.tier = "quick"
	}
	baseline := false
	for _, a := range args {
		if a == "thorough" || a == "quick" {
			c.tier = a
		}
		if a == "baseline" {
			baseline = true
		}
	}
	var seed int64 = 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	w, err := LoadWorld(repoDir, filepath.Join(verifDir, "contracts"))
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	c.w = w
	for _, fn := range w.allFns {
		c.fns[w.shortFn(fn.String())] = fn
	}
	cfg := solveCfg{rlimit: 3000000, cover: true}
	if c.tier == "thorough" {
		cfg.rlimit *= 4
	}
	if p.functional {
		c.solveAll(c.startFns(true), kindSet("post,pre"), true, cfg)
	}
	if p.safety != "" {
		c.solveAll(c.startFns(false), kindSet(p.safety), false, cfg)
	}

	// what is not discharged
	if len(c.results) == 0 {
		fmt.Println("ERROR: no function under contract was found")
		return 2
	}
	openHere := c.open.Props[id]
	left := map[string]int{}
	for k, n := range openHere {
		left[k] = n
	}
	var fails []*failure
	var openNow []string
	var vacuous []string
	for _, r := range c.results {
		if r.Err != "" {
			k := r.Func + "/ERR"
			if left[k] > 0 {
				left[k]--
				openNow = append(openNow, k+": "+trunc(r.Err, 120))
			} else {
				fails = append(fails, &failure{root: r.Func, res: r, key: k, err: r.Err})
			}
			continue
		}
		if r.Covered == "unsat" {
			vacuous = append(vacuous, r.Func)
		}
		for _, v := range r.Verdicts {
			if v.Status == "proved" {
				continue
			}
			k := openKey(v.Oblig)
			if left[k] > 0 && !baseline {
				left[k]--
				openNow = append(openNow, v.Oblig.Name+" "+v.Oblig.Pos)
				if c.tier == "thorough" {
					if st, by := c.retry(r, v, 60); st == "proved" {
						v.Status, v.By = st, by
						openNow = openNow[:len(openNow)-1]
					}
				}
				continue
			}
			fails = append(fails, &failure{root: r.Func, res: r, key: k, v: v})
		}
	}
	// second opinion of the other solvers before an obligation counts as failed
	secs := 20
	if len(fails) > 24 {
		secs = 6
	}
	retryDeadline := time.Now().Add(200 * time.Second)
	if baseline {
		retryDeadline = time.Now().Add(3000 * time.Second)
	}
	var kept []*failure
	for _, f := range fails {
		if f.v != nil && time.Now().Before(retryDeadline) {
			if st, by := c.retry(f.res, f.v, secs); st == "proved" {
				f.v.Status, f.v.By = st, by
			}
			if f.v.Status == "proved" {
				continue
			}
		}
		kept = append(kept, f)
	}
	fails = kept
	if baseline {
		m := map[string]int{}
		for _, f := range fails {
			m[f.key]++
		}
		c.open.Props[id] = m
		for _, r := range c.results {
			c.open.Roots[r.Func] = true
		}
		c.open.save()
		for _, f := range fails {
			pos := ""
			if f.v != nil {
				pos = f.v.Oblig.Pos
			}
			fmt.Println("OPEN", f.key, pos, f.err)
		}
		fmt.Printf("%d open, %.0fs\n", len(fails), time.Since(t0).Seconds())
		return 0
	}

	// new functions are covered through their callers; only a concrete failure counts
	var alarms, fresh []*failure
	for _, f := range fails {
		if !c.open.Roots[f.root] {
			fresh = append(fresh, f)
		} else {
			alarms = append(alarms, f)
		}
	}

	var h *Harness
	defer func() { h.close() }()
	harness := func() *Harness {
		if h == nil {
			h = w.buildHarness()
		}
		return h
	}
	want := p.native
	if p.functional {
		want = strings.TrimPrefix(want+",post", ",")
	}
	findings := loadFindings()
	known := func(f *failure, o *HOut) *Finding {
		for _, k := range findings {
			if k.prop == id && (f != nil && k.key == f.key || o != nil && k.key == o.Func+": "+o.What) {
				k.hit = true
				return k
			}
		}
		return nil
	}

	type alarm struct {
		f *failure
		o *HOut
	}
	var found []alarm
	searched := map[string]*hJob{}
	search := func(names []string, secs int) {
		var jobs []*hJob
		for _, n := range names {
			if searched[n] == nil && c.fns[n] != nil && w.native(c.fns[n]) && !hNever[n] {
				j := &hJob{target: n, kinds: want, secs: secs}
				jobs = append(jobs, j)
				searched[n] = j
			}
		}
		if len(jobs) > 0 {
			harness().runAll(jobs, seed, 1<<30)
		}
		for _, j := range jobs {
			if j.out != nil && j.out.Kind != "" {
				if known(nil, j.out) == nil {
					found = append(found, alarm{o: j.out})
				}
			}
		}
	}
	// undischarged obligations that are not findings
	var real []*failure
	for _, f := range append(alarms, fresh...) {
		if known(f, nil) == nil {
			real = append(real, f)
		}
	}
	if len(real) > 0 {
		names := map[string]bool{}
		for _, f := range real {
			names[f.root] = true
		}
		secs := 25
		if len(names) > 7 {
			secs = 12
		}
		search(sortedKeys(names), secs)
		if len(found) == 0 {
			// through the functions that rest on the failed one
			more := map[string]bool{}
			for _, r := range c.results {
				if r.env == nil {
					continue
				}
				for n := range names {
					if r.env.usedCtr[n] || r.env.inlined[n] {
						more[r.Func] = true
					}
				}
			}
			for n := range names {
				if i := strings.Index(n, "$"); i > 0 {
					more[n[:i]] = true
				}
			}
			if len(more) <= 60 {
				search(sortedKeys(more), 8)
			}
		}
	}
	// bounded stand-ins for what is outside the verifier's reach
	bounded := map[string]bool{}
	for k := range openHere {
		if id == "C01" {
			break // payload kinds are not observable from outside
		}
		bounded[strings.SplitN(k, "/", 2)[0]] = true
	}
	for _, r := range c.results {
		if ctr := w.contracts[r.Func]; ctr != nil && ctr.trusted != "" && p.functional {
			bounded[r.Func] = true
		}
	}
	for k := range boundedAlso(w, id) {
		bounded[k] = true
	}
	var boundedJobs []*hJob
	if len(found) == 0 && len(bounded) > 0 {
		n0 := len(searched)
		_ = n0
		bs, max := 6, 40000
		if len(bounded) > 40 {
			bs, max = 3, 8000
		}
		if c.tier == "thorough" {
			bs, max = 60, 2000000
		}
		var jobs []*hJob
		for _, n := range sortedKeys(bounded) {
			if c.fns[n] != nil && w.native(c.fns[n]) && !hNever[n] {
				jobs = append(jobs, &hJob{target: n, kinds: want, secs: bs})
			}
		}
		if len(jobs) > 0 {
			harness().runAll(jobs, seed, max)
		}
		for _, j := range jobs {
			if j.out != nil && j.out.Kind != "" && known(nil, j.out) == nil {
				found = append(found, alarm{o: j.out})
			}
		}
		boundedJobs = jobs
	}
	groundN, groundBad := 0, []string{}
	if p.ground != nil {
		groundN, groundBad = c.ground(harness())
	}

	// report
	rdir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(rdir, 0755)
	violations := 0
	for _, k := range findings {
		if k.prop == id {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
		}
	}
	var failNames []string
	for _, f := range real {
		s := f.key
		if f.v != nil {
			s = f.v.Oblig.Name + " at " + f.v.Oblig.Pos + " (" + f.v.Status + ")"
		} else {
			s += ": " + f.err
		}
		failNames = append(failNames, s)
	}
	if len(found) > 0 {
		for i, a := range found {
			path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", id, i))
			writeJSON(path, map[string]interface{}{"property": id, "function": a.o.Func, "kinds": want, "seed": a.o.Seed, "case": a.o.Case, "input": a.o.Input, "observed": a.o.What, "failed_obligations": failNames, "run": "bash /verif/tools/replay.sh " + path})
			fmt.Printf("  %s: %s\n    input: %s\n", a.o.Func, a.o.What, a.o.Input)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			violations++
			if i >= 4 {
				break
			}
		}
	} else if len(groundBad) > 0 {
		path := filepath.Join(rdir, id+"-ground.json")
		writeJSON(path, map[string]interface{}{"property": id, "what": "registered primitives differ from the specified table", "differences": groundBad, "run": "go test overlay harness, target registration"})
		for _, g := range groundBad {
			fmt.Println("  ", g)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		violations++
	} else {
		var nf []*failure
		for _, f := range real {
			if c.open.Roots[f.root] {
				nf = append(nf, f)
			}
		}
		if len(nf) > 0 {
			path := filepath.Join(rdir, id+"-obligations.json")
			out := []map[string]interface{}{}
			for i, f := range nf {
				m := map[string]interface{}{"obligation": f.key, "function": f.root}
				if f.v != nil {
					m["name"], m["position"], m["solver"] = f.v.Oblig.Name, f.v.Oblig.Pos, f.v.Status
					if i < 3 {
						m["solver_output"] = trunc(c.model(f.res, f.v), 6000)
					}
				} else {
					m["error"] = f.err
				}
				if j := searched[f.root]; j != nil {
					m["search"] = j.out
				}
				out = append(out, m)
				if i < 10 {
					fmt.Printf("  not discharged: %v %v\n", f.key, m["position"])
				}
			}
			writeJSON(path, map[string]interface{}{"property": id, "failed_obligations": out, "run": "cd /verif && bash tools/check.sh " + id})
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, path)
			violations++
		}
	}
	c.evidence(t0, seed, openNow, vacuous, boundedJobs, failNames, violations, groundN, fresh)
	if violations > 0 {
		return 1
	}
	return 0
}

// functions that are not run outside the verifier
var hNever = kindSet("Repl,DebugRepl,ReadLine,AddHistory,LoadHistoryFromFile,WriteHistoryToFile,TruncateHistoryFile,ExecImpl,QuitImpl,SleepImpl," +
	"LoadFileImpl,LoadFile,ProcessFile,ProcessFileInEnvironment,OpenOutputFileImpl,OpenInputFileImpl,WriteLineToFileImpl,PanicImpl,StartProfiling,EndProfiling," +
	"DebugImpl,DebugOnErrorImpl,AddDebugOnEntryImpl,DebugTraceImpl,LispTraceImpl,ListDirectoryImpl,ForkImpl,ScheduleImpl,ProcSleepImpl,WakeImpl,JoinImpl,RunOnceImpl")

func boundedAlso(w *World, id string) map[string]bool {
	out := map[string]bool{}
	for n, c := range w.contracts {
		if c.props[id] && c.bounded {
			out[n] = true
		}
	}
	return out
}

func writeJSON(path string, v interface{}) {
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, append(b, '\n'), 0644)
}

func (c *checkRun) retry(r *RootResult, v *Verdict, secs int) (string, string) {
	if r.r == nil {
		return "", ""
	}
	for i := range r.r.segs {
		if r.r.segs[i].ob == v.Oblig {
			return r.r.portfolio(r.live, i, secs, false)
		}
	}
	return "", ""
}

func (c *checkRun) model(r *RootResult, v *Verdict) string {
	if r.r == nil {
		return ""
	}
	for i := range r.r.segs {
		if r.r.segs[i].ob == v.Oblig {
			out, _ := runSolver("z3-new", []string{"-in", "-smt2", "smt.arith.solver=2", "-T:10"}, r.r.single(r.live, i, true), 15*time.Second)
			var keep []string
			for _, l := range strings.Split(out, "\n") {
				keep = append(keep, l)
				if len(keep) > 120 {
					break
				}
			}
			return strings.Join(keep, "\n")
		}
	}
	return ""
}

func (c *checkRun) evidence(t0 time.Time, seed int64, openNow, vacuous []string, bj []*hJob, failNames []string, violations, groundN int, fresh []*failure) {
	proved, total := 0, 0
	by := map[string]int{}
	kinds := map[string]int{}
	var solver float64
	var under []string
	trusted := map[string]bool{}
	notes := map[string]bool{}
	live := 0
	covered := 0
	inl := map[string]bool{}
	for _, r := range c.results {
		n := 0
		for _, v := range r.Verdicts {
			n++
			if v.Status == "proved" {
				proved++
				total++
				by[v.By]++
				kinds[v.Oblig.Kind]++
			}
		}
		solver += r.Time
		live += r.Live
		if n > 0 {
			under = append(under, r.Func)
		}
		if r.Covered == "sat" {
			covered++
		}
		if r.env != nil {
			for k := range r.env.trusted {
				trusted["library call modelled as an uninterpreted operation: "+k] = true
			}
			for k := range r.env.notes {
				notes[k] = true
			}
			for k := range r.env.inlined {
				inl[k] = true
			}
		}
		if ctr := c.w.contracts[r.Func]; ctr != nil && ctr.trusted != "" {
			trusted["assumed contract: "+r.Func+" ("+ctr.trusted+")"] = true
		}
	}
	total += len(failNames)
	var bounded []map[string]interface{}
	for _, j := range bj {
		m := map[string]interface{}{"function": j.target, "looked_for": j.kinds}
		if j.out != nil {
			m["cases"], m["distinct"], m["sample"] = j.out.Cases, j.out.Distinct, j.out.Sample
		} else {
			m["result"] = "no answer"
		}
		bounded = append(bounded, m)
	}
	var fr []string
	for _, f := range fresh {
		fr = append(fr, f.key)
	}
	assumptions := append([]string{}, generalAssumptions...)
	assumptions = append(assumptions, sortedKeys(notes)...)
	cov := map[string]interface{}{
		"obligations": total, "discharged": proved,
		"checker_cmd":              "cd /verif && bash tools/check.sh " + c.id + "  (back ends: z3-new, retried with cvc5 and z3)",
		"trusted_base":             append([]string{"govc (verification condition generator, /verif/govc) and golang.org/x/tools/go/ssa", "z3, cvc5"}, sortedKeys(trusted)...),
		"discharged_by_back_end":   by,
		"discharged_by_kind":       kinds,
		"functions_with_obligations": under,
		"functions_verified":       len(c.results),
		"helpers_verified_inline":  len(inl),
		"loop_invariants_proved":   live,
		"exits_shown_reachable":    covered,
		"exits_not_reachable":      vacuous,
		"solver_s":                 solver,
		"not_discharged_known":     openNow,
		"not_discharged_new":       failNames,
		"new_functions_undecided":  fr,
		"bounded_stand_ins":        bounded,
		"contracts_without_target": c.w.skipped,
	}
	if groundN > 0 {
		cov["ground_facts_evaluated"] = groundN
	}
	ev := map[string]interface{}{"property": c.id, "tier": c.tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": assumptions, "wall_s": time.Since(t0).Seconds(), "violations": violations}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	writeJSON(filepath.Join(verifDir, "evidence", c.id+".json"), ev)
	fmt.Printf("%s: %d of %d obligations discharged, %d functions, %d known undischarged, %d bounded stand-ins, %.0f s\n", c.id, proved, total, len(c.results), len(openNow), len(bounded), time.Since(t0).Seconds())
}

var generalAssumptions = []string{
	"partial correctness: termination, stack depth and memory exhaustion are not verified",
	"lists, strings, slices and maps are finite (shorter than 2^40) and lists reached by the specifications are acyclic",
	"floating point, multiplication, division, bit operations and string operations are uninterpreted: code and specification must apply the same operation to the same operands",
	"evaluated programs do not overwrite the cells of the list a primitive is walking",
	"library functions outside this package do not modify interpreter data",
	"debugging and tracing switches are off",
}

func runReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var m struct {
		Function, Kinds string
		Seed            int64
		Case            int
	}
	if err := json.Unmarshal(b, &m); err != nil || m.Function == "" {
		fmt.Println("this replay file carries verifier output, no input")
		return 2
	}
	w, err := LoadWorld(repoDir, filepath.Join(verifDir, "contracts"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	h := w.buildHarness()
	defer h.close()
	o, note := h.run(m.Function, m.Kinds, m.Seed, 10, m.Case, 1)
	if o == nil {
		fmt.Println(note)
		return 2
	}
	fmt.Printf("%s\n  input: %s\n  %s\n", o.Func, o.Input, o.What)
	if o.Kind != "" {
		return 1
	}
	return 0
}

// runTry executes the harness on the named functions (development aid).
func runTry(args []string) int {
	w, err := LoadWorld(repoDir, filepath.Join(verifDir, "contracts"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	h := w.buildHarness()
	defer h.close()
	if h.err != nil {
		fmt.Println(h.err)
		return 2
	}
	secs := 5
	fmt.Sscan(os.Getenv("GOVC_SECS"), &secs)
	var seed int64 = 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	if args[0] == "registration" {
		if o, note := h.run("registration", "", 1, 10, -1, 1); o != nil {
			fmt.Println(o.What)
		} else {
			fmt.Println(note)
		}
		return 0
	}
	var jobs []*hJob
	for _, fn := range w.allFns {
		n := w.shortFn(fn.String())
		if w.specFns[fn] || !w.native(fn) {
			continue
		}
		c := w.contracts[n]
		for _, a := range args[1:] {
			if a == n || a == "*" && (c != nil || w.isRoot(fn)) || a == "contracts" && c != nil && (len(c.post) > 0 || c.spec != nil) {
				jobs = append(jobs, &hJob{target: n, kinds: args[0], secs: secs})
				break
			}
		}
	}
	h.runAll(jobs, seed, 1<<30)
	for _, j := range jobs {
		if j.out == nil {
			fmt.Printf("NOANSWER %s %s\n", j.target, j.note)
		} else if j.out.Kind != "" {
			fmt.Printf("FOUND %s %s: %s\n    %s\n", j.out.Func, j.out.Kind, j.out.What, j.out.Input)
		} else {
			fmt.Printf("ok %s cases %d distinct %d %s | %s\n", j.out.Func, j.out.Cases, j.out.Distinct, j.out.What, j.out.Sample)
		}
	}
	return 0
}

// ground compares the registered primitives with the committed table.
func (c *checkRun) ground(h *Harness) (int, []string) {
	if h.err != nil {
		return 0, nil
	}
	o, note := h.run("registration", "", 1, 10, -1, 1)
	if o == nil {
		return 0, []string{"registration could not be evaluated: " + note}
	}
	b, err := os.ReadFile(filepath.Join(verifDir, "contracts", "registration.txt"))
	if err != nil {
		return 0, []string{err.Error()}
	}
	return diffRegistration(string(b), o.What, c.prop.ground)
}

// diffRegistration compares the named facts of every builtin both tables list.
func diffRegistration(want, got string, facts []string) (int, []string) {
	parse := func(s string) map[string]map[string]string {
		m := map[string]map[string]string{}
		for _, l := range strings.Split(s, "\n") {
			f := strings.Fields(l)
			if len(f) == 0 || f[0] == "//" {
				continue
			}
			m[f[0]] = map[string]string{}
			for _, x := range f[1:] {
				if i := strings.Index(x, "="); i > 0 {
					m[f[0]][x[:i]] = x[i+1:]
				}
			}
		}
		return m
	}
	a, b := parse(want), parse(got)
	var bad []string
	n := 0
	for k, v := range a {
		if b[k] == nil {
			continue
		}
		for _, x := range facts {
			n++
			if b[k][x] != v[x] {
				bad = append(bad, fmt.Sprintf("%s: specified %s=%s, registered %s=%s", k, x, v[x], x, b[k][x]))
			}
		}
	}
	sort.Strings(bad)
	return n, bad
}
