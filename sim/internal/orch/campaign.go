package orch

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/internal/build"
	"verif/internal/gen"
	"verif/plan"
)

// Finding is a violation of a property.
type Finding struct {
	Class  string `json:"class"` // stays the same while the history is minimised
	Detail string `json:"detail"`
	Noisy  bool   `json:"-"` // a measurement: believed only when repeated executions agree
}

// Prop is a property's check.
type Prop struct {
	ID          string
	Title       string
	Level       string
	Plain, Race bool
	Page        bool // needs the browser module
	Old         bool // needs the released version
	// Judge decides the property on what a history's processes reported. It
	// must depend on nothing else (references are functions of the code).
	Judge func(e *Env, h *History, o *Outs) (*Finding, error)
	// Prepare makes what the runs share.
	Prepare func(c *Campaign) error
	// One makes and executes run i.
	One func(c *Campaign, i int, r *gen.Rand) error
	// Runs per tier.
	Quick, Thorough int
	// Fresh is the percentage of runs with sources of their own, Usable tells
	// which of those can be used (nil: all).
	Fresh  int
	Usable func(*Src) bool
	Rule   string
	Real   []string
	Stubs  []string
	Assume []string
}

// Props are all checks.
var Props = map[string]*Prop{}

func register(p *Prop) { Props[p.ID] = p }

// failure is a run that violated the property.
type failure struct {
	run int
	h   *History
	o   *Outs
	f   *Finding
}

// Campaign is one execution of a check.
type Campaign struct {
	E      *Env
	P      *Prop
	longer []*Src // of C11
	Pool   *Pool

	sharedOnce  sync.Once
	sharedSites [][]int32
	sharedSrcs  [][]*Src // sources that pass them, fewest steps first

	mu       sync.Mutex
	first    *failure
	stop     atomic.Bool
	runs     int
	execs    int
	procs    int
	rounds   int
	ops      map[string]int
	failed   int // operations that returned an error
	steps    int64
	simNs    int64
	injected [16]int64
	diskF    map[string]int
	other    map[string]int
	distinct map[string]bool
	trivial  int
	pairs    int
	sites    map[int]bool
	cut      map[int]bool
	native   int64
	jumps    int64
	crashes  int
	fair     int
	samples  []interface{}
	extra    map[string]int
}

func (c *Campaign) count(k string, n int) {
	c.mu.Lock()
	c.extra[k] += n
	c.mu.Unlock()
}

func (c *Campaign) disk(k string, n int) {
	c.mu.Lock()
	c.diskF[k] += n
	c.mu.Unlock()
}

var faultNames = [...]string{"", "preemption", "stall", "forced GC", "wall clock step", "time zone change", "hash and map-order reseed",
	"process crash", "freeze until all others stop", ""}

// Try executes a history and judges it. It reports whether the run goes on.
func (c *Campaign) Try(run int, h *History) (*Outs, bool, error) {
	hr := gen.Derive(c.E.Seed^0x405, uint64(run))
	for k := range h.Procs {
		if hr.P(65) {
			h.Procs[k].Host = 1 + hr.N(600)
			c.count("processes_on_other_hosts", 1)
		}
	}
	if d := os.Getenv("VERIF_DUMP"); d != "" {
		for k, p := range h.Procs {
			b, _ := json.Marshal(p)
			os.WriteFile(filepath.Join(d, fmt.Sprintf("run%d-%d.json", run, k)), b, 0o644)
		}
	}
	o, err := c.E.Run(h)
	if err != nil {
		return nil, false, err
	}
	f, err := c.P.Judge(c.E, h, o)
	if err != nil {
		return nil, false, err
	}
	c.note(run, h, o)
	for k := 0; k < 2 && f != nil && f.Noisy; k++ {
		o2, err := c.E.Run(h)
		if err != nil {
			return nil, false, err
		}
		f2, err := c.P.Judge(c.E, h, o2)
		if err != nil {
			return nil, false, err
		}
		if f2 == nil || f2.Class != f.Class {
			c.count("measurements_not_confirmed", 1)
			f = nil
		}
	}
	if f != nil {
		c.mu.Lock()
		if c.first == nil || run < c.first.run {
			c.first = &failure{run, h, o, f}
		}
		c.mu.Unlock()
		c.stop.Store(true)
		return o, false, nil
	}
	return o, true, nil
}

func (c *Campaign) note(run int, h *History, o *Outs) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.execs++
	key := ""
	faults := 0
	for pi, out := range o.Out {
		c.procs++
		for i, n := range out.Injected {
			c.injected[i] += n
			if i != 9 {
				faults += int(n)
			}
		}
		for k, n := range out.DiskF {
			c.diskF[k] += n
			faults += n
		}
		for k, n := range out.Other {
			c.other[k] += n
			faults += n
		}
		for _, r := range out.Rounds {
			c.rounds++
			c.steps += r.Steps
			c.simNs += r.SimNs
			c.native += r.Native
			c.jumps += r.TimeJumps
			if r.Crashed {
				c.crashes++
			}
			if r.Fair {
				c.fair++
			}
			key += r.Hash + "."
		}
		for _, op := range out.Ops {
			if op.Done {
				n := 1
				if op.Round < len(h.Procs[pi].Rounds) && op.Task < len(h.Procs[pi].Rounds[op.Round].Tasks) {
					n = h.Procs[pi].Rounds[op.Round].Tasks[op.Task].Times()
				}
				c.ops[op.K] += n
				if op.Err != "" || op.EncErr != "" {
					c.failed++
				}
			}
		}
		c.pairs += out.Pairs
		if h.Procs[pi].Old {
			c.extra["processes_of_the_released_version"]++
			continue
		}
		for _, s := range out.Sites {
			c.sites[s] = true
		}
		for _, s := range out.Cut {
			c.cut[s] = true
		}
		_ = pi
	}
	// The inputs are part of what makes a run different from another.
	hh := fnv.New64a()
	for _, p := range h.Procs {
		for _, s := range p.Sources {
			hh.Write([]byte(s))
			hh.Write([]byte{0})
		}
		for _, s := range p.Records {
			hh.Write([]byte(s))
		}
	}
	key += fmt.Sprintf("%x", hh.Sum64())
	if faults == 0 && len(h.Procs) < 2 && len(h.Procs) > 0 && len(h.Procs[0].Records) == 0 {
		c.trivial++
	} else {
		c.distinct[key] = true
	}
	if len(c.samples) < 3 && (run < 3 || len(c.samples) == 0) {
		c.samples = append(c.samples, sample(run, h, o))
	}
}

func sample(run int, h *History, o *Outs) interface{} {
	m := map[string]interface{}{"run": run, "note": h.Note}
	var ps []interface{}
	for pi, p := range h.Procs {
		pm := map[string]interface{}{"zone": p.Zone}
		var rs []interface{}
		for ri, r := range p.Rounds {
			var ts []string
			for _, t := range r.Tasks {
				s := ""
				for k, op := range t.Ops {
					if k > 5 {
						s += fmt.Sprintf(" … (%d operations)", len(t.Ops))
						break
					}
					s += " " + op.K
					if k == 0 && t.Loop > 1 {
						s = fmt.Sprintf(" %d times:%s", t.Loop, s)
					}
					switch op.K {
					case plan.OpParse, plan.OpStore, plan.OpCall:
						s += fmt.Sprintf("(%q)", cutText(p.Sources[op.S], 70))
					case plan.OpMove:
						s += "(" + op.From + " as " + op.Rec + ")"
					case plan.OpLoad:
						s += "(" + op.Rec + ")"
					}
				}
				ts = append(ts, strings.TrimSpace(s))
				if len(ts) >= 4 {
					break
				}
			}
			rm := map[string]interface{}{"seed": r.Cfg.Seed, "policy": r.Cfg.Policy, "gap": r.Cfg.Gap, "tasks": len(r.Tasks), "first tasks": ts}
			if pi < len(o.Out) && ri < len(o.Out[pi].Rounds) {
				rr := o.Out[pi].Rounds[ri]
				rm["steps"], rm["schedule hash"], rm["decisions"], rm["simulated ns"] = rr.Steps, rr.Hash, len(rr.Decisions), rr.SimNs
			}
			rs = append(rs, rm)
			if len(rs) >= 2 {
				break
			}
		}
		pm["rounds"] = rs
		ps = append(ps, pm)
		if len(ps) >= 3 {
			break
		}
	}
	m["processes"] = ps
	return m
}

func cutText(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// Check runs a property's check; it returns the exit code.
func Check(e *Env, p *Prop) (int, error) {
	start := time.Now()
	c := &Campaign{E: e, P: p, ops: map[string]int{}, diskF: map[string]int{}, other: map[string]int{}, distinct: map[string]bool{},
		sites: map[int]bool{}, cut: map[int]bool{}, extra: map[string]int{}}
	e.Page, e.Old = p.Page, p.Old
	if err := e.Setup(p.Plain, p.Race); err != nil {
		return 2, err
	}
	defer e.Close()
	built := time.Since(start)
	if p.Prepare != nil {
		if err := p.Prepare(c); err != nil {
			return 2, err
		}
	}
	n := p.Quick
	if e.Tier == "thorough" {
		n = p.Thorough
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	errs := make([]error, e.Par)
	for w := 0; w < e.Par; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for !c.stop.Load() && time.Now().Before(e.Deadline) {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				if err := p.One(c, i, gen.Derive(e.Seed*1000003+7, uint64(i)+1)); err != nil {
					errs[w] = fmt.Errorf("run %d: %w", i, err)
					c.stop.Store(true)
					return
				}
				c.mu.Lock()
				c.runs++
				c.mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	// A violation found stands even if another run had trouble.
	if c.first == nil {
		for _, err := range errs {
			if err != nil {
				return 2, err
			}
		}
	}
	search := time.Since(start) - built
	code := 0
	viol := 0
	if c.first != nil {
		path, f, exact, err := e.report(p, c.first)
		if err != nil {
			return 2, err
		}
		viol = 1
		code = 1
		if !exact {
			fmt.Println("note: repeating the recorded history does not give an identical execution")
		}
		fmt.Printf("property %s (%s) is violated: %s\n  class %s, run %d, seed %d\n", p.ID, p.Title, f.Detail, f.Class, c.first.run, e.Seed)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	}
	if err := c.evidence(start, built, search, viol); err != nil {
		return 2, err
	}
	if code == 0 {
		if c.execs == 0 {
			return 2, fmt.Errorf("nothing was executed")
		}
		fmt.Printf("%s: held on %d runs (%d executions, %d distinct non-trivial, %d steps), %.1fs\n", p.ID, c.runs, c.execs, len(c.distinct), c.steps, time.Since(start).Seconds())
	}
	return code, nil
}

func (c *Campaign) evidence(start time.Time, built, search time.Duration, viol int) error {
	e, p := c.E, c.P
	inj := map[string]int64{}
	for i, n := range faultNames {
		if n != "" && n != "process crash" {
			inj[n] = c.injected[i]
		}
	}
	inj["process crash"] = int64(c.crashes)
	for k, n := range c.diskF {
		inj["disk: "+k] = int64(n)
	}
	for k, n := range c.other {
		inj[k] = int64(n)
	}
	for k, n := range inj {
		if n == 0 {
			delete(inj, k)
		}
	}
	hours := search.Hours()
	if hours <= 0 {
		hours = 1e-9
	}
	reached, preempted := map[string]int{}, map[string]int{}
	total := map[string]int{}
	for _, s := range e.W.Sites {
		total[s.Mod]++
	}
	for s := range c.sites {
		reached[e.W.Sites[s].Mod]++
	}
	for s := range c.cut {
		preempted[e.W.Sites[s].Mod]++
	}
	// Functions of the library never entered.
	entered := map[string]bool{}
	all := map[string]bool{}
	for i, s := range e.W.Sites {
		if s.Mod == "repo" && s.Func != "" {
			f := s.Pos[:strings.LastIndex(s.Pos, ":")] + " " + s.Func
			all[f] = true
			if c.sites[i] {
				entered[f] = true
			}
		}
	}
	var missed []string
	for f := range all {
		if !entered[f] {
			missed = append(missed, f)
		}
	}
	sort.Strings(missed)
	if len(missed) > 25 {
		missed = append(missed[:25], fmt.Sprintf("… and %d more", len(missed)-25))
	}
	samples := c.samples
	if len(samples) == 0 {
		samples = []interface{}{"none"}
	}
	cov := map[string]interface{}{
		"evaluations":                         c.execs,
		"distinct_nontrivial":                 len(c.distinct),
		"rule":                                p.Rule,
		"samples":                             samples,
		"exhaustive":                          false,
		"runs":                                c.runs,
		"simulated_processes":                 c.procs,
		"processes_restarted":                 c.E.restarts.Load(),
		"rounds":                              c.rounds,
		"runs_per_hour":                       int64(float64(c.runs) / hours),
		"seeds_per_hour":                      int64(float64(c.rounds) / hours),
		"simulated_time_s":                    float64(c.simNs) / 1e9,
		"steps":                               c.steps,
		"operations_completed":                c.ops,
		"operations_failed":                   c.failed,
		"faults_injected":                     inj,
		"tasks_found_blocked_in_the_runtime":  c.native,
		"clock_jumps_when_all_were_stalled":   c.jumps,
		"rounds_that_reached_the_fair_phase":  c.fair,
		"distinct_schedules_measure":          "hash over all scheduling and fault decisions (task, own step, choice) of an execution together with its inputs",
		"yield_sites_instrumented":            total,
		"yield_sites_reached":                 reached,
		"yield_sites_at_which_a_task_was_cut": preempted,
		"library_functions_never_entered":     missed,
		"components_running_real_code":        p.Real,
		"components_stubbed":                  p.Stubs,
		"build_s":                             built.Seconds(),
	}
	if p.Page { // the module is not instrumented
		for _, k := range []string{"yield_sites_instrumented", "yield_sites_reached", "yield_sites_at_which_a_task_was_cut", "library_functions_never_entered", "tasks_found_blocked_in_the_runtime", "rounds_that_reached_the_fair_phase"} {
			delete(cov, k)
		}
	}
	if c.pairs > 0 {
		cov["result_pairs_checked_for_shared_memory"] = c.pairs
	}
	for k, n := range c.extra {
		cov[k] = n
	}
	if c.Pool != nil {
		cov["sources_in_pool"] = len(c.Pool.All)
		cov["sources_excluded"] = c.Pool.Excluded
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": e.Tier, "seed": e.Seed, "level": p.Level, "coverage": cov,
		"assumptions": p.Assume, "wall_s": time.Since(start).Seconds(), "violations": viol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(e.Verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644)
}

// Replay is a minimised violation on disk.
type Replay struct {
	Property string   `json:"property"`
	Finding  Finding  `json:"finding"`
	Seed     uint64   `json:"seed"`
	Run      int      `json:"run"`
	Tree     string   `json:"tree"` // hash of the code it was found in
	Hashes   []string `json:"hashes"`
	Exact    bool     `json:"exact"` // replaying it twice gave the same schedule and violation
	Trace    []string `json:"trace"` // for the reader
	History  *History `json:"history"`
}

func hashes(o *Outs) []string {
	var l []string
	for _, out := range o.Out {
		for _, r := range out.Rounds {
			l = append(l, r.Hash)
		}
	}
	return l
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// exact reports whether a history replays, twice, as it was first seen.
func (e *Env) exact(p *Prop, h *History, o *Outs, f *Finding) (bool, error) {
	for k := 0; k < 2; k++ {
		o2, err := e.Run(h)
		if err != nil {
			return false, fmt.Errorf("replaying: %w", err)
		}
		f2, err := p.Judge(e, h, o2)
		if err != nil {
			return false, fmt.Errorf("replaying: %w", err)
		}
		if f2 == nil || f2.Class != f.Class || !same(hashes(o2), hashes(o)) {
			return false, nil
		}
	}
	return true, nil
}

// report minimises a failure, writes its replay file and makes sure that
// replaying it reproduces it exactly.
func (e *Env) report(p *Prop, fl *failure) (string, *Finding, bool, error) {
	h, o, f := e.minimise(p, fl)
	exact, err := e.exact(p, h, o, f)
	if err != nil {
		return "", nil, false, err
	}
	if !exact {
		// The minimised history depends on something outside the simulator;
		// the one first found may not.
		exact, err = e.exact(p, fl.h, fl.o, fl.f)
		if err != nil {
			return "", nil, false, err
		}
		h, o, f = fl.h, fl.o, fl.f
		if !exact && (f.Noisy || f.Class == "process-died" || f.Class == "no-return") {
			return "", nil, false, fmt.Errorf("the violation %+v of run %d does not replay", f, fl.run)
		}
		// Whatever a completed execution returned, it did return it.
	}
	rp := Replay{Property: p.ID, Finding: *f, Seed: e.Seed, Run: fl.run, Tree: build.TreeHash(e.Repo), Hashes: hashes(o), Exact: exact, Trace: trace(e, h, o), History: h}
	b, err := json.MarshalIndent(rp, "", " ")
	if err != nil {
		return "", nil, false, err
	}
	dir := filepath.Join(e.Verif, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", nil, false, err
	}
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-seed%d-run%d.json", p.ID, e.Tier, e.Seed, fl.run))
	return path, f, exact, os.WriteFile(path, append(b, '\n'), 0o644)
}

var kindNames = [...]string{"", "switch to task", "stall for ns", "force a GC", "step the wall clock by ns", "change the time zone to", "reseed maps and hashes with",
	"the process dies", "freeze until nobody else can run", "cannot go on; next runs task"}

func trace(e *Env, h *History, o *Outs) []string {
	var l []string
	for pi, p := range h.Procs {
		for ri, r := range p.Rounds {
			for ti, t := range r.Tasks {
				for oi, op := range t.Ops {
					if oi >= 40 {
						l = append(l, fmt.Sprintf("process %d round %d task %d: … %d more operations", pi, ri, ti, len(t.Ops)-oi))
						break
					}
					s := fmt.Sprintf("process %d round %d task %d op %d: %s", pi, ri, ti, oi, op.K)
					if t.Loop > 1 {
						s += fmt.Sprintf(" (%d times)", t.Loop)
					}
					if t.Deep > 0 {
						s += fmt.Sprintf(" (called %d frames deep)", t.Deep)
					}
					switch op.K {
					case plan.OpParse, plan.OpStore, plan.OpCall:
						s += fmt.Sprintf(" %q", cutText(p.Sources[op.S], 200))
					}
					if op.From != "" {
						s += " file " + op.From + " as"
					}
					if op.Rec != "" {
						s += " file " + op.Rec
					}
					if p.Old {
						s += " (released version)"
					}
					if op.Fault != nil {
						s += fmt.Sprintf(" disk fault %+v", *op.Fault)
					}
					l = append(l, s)
				}
			}
			if pi < len(o.Out) && ri < len(o.Out[pi].Rounds) {
				ds := r.Cfg.Decisions
				if !r.Cfg.Explicit {
					ds = o.Out[pi].Rounds[ri].Decisions
				}
				for k, d := range ds {
					if k >= 60 {
						l = append(l, fmt.Sprintf("  … %d more decisions", len(ds)-k))
						break
					}
					l = append(l, fmt.Sprintf("  process %d round %d: task %d at its step %d: %s %d", pi, ri, d.Task, d.Local, kindNames[d.Kind%10], d.Arg))
				}
			}
		}
	}
	return l
}

// DoReplay re-executes a replay file; it returns the exit code.
func DoReplay(e *Env, path string) (int, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return 2, err
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		return 2, err
	}
	p := Props[rp.Property]
	if p == nil {
		return 2, fmt.Errorf("unknown property %q", rp.Property)
	}
	e.Page, e.Old = p.Page, p.Old
	if err := e.Setup(!rp.History.Race || p.Plain, rp.History.Race); err != nil {
		return 2, err
	}
	defer e.Close()
	o, err := e.Run(rp.History)
	if err != nil {
		return 2, err
	}
	f, err := p.Judge(e, rp.History, o)
	if err != nil {
		return 2, err
	}
	if t := build.TreeHash(e.Repo); t != rp.Tree {
		fmt.Printf("note: recorded on tree %s, replayed on %s\n", rp.Tree, t)
	}
	if f == nil {
		fmt.Println("the property holds on this history")
		return 0, nil
	}
	fmt.Printf("reproduced: %s: %s (schedule identical: %v)\n", f.Class, f.Detail, same(hashes(o), rp.Hashes))
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, path)
	return 1, nil
}
