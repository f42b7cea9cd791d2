package orch

import (
	"encoding/base64"
	"fmt"
	"strings"

	"verif/internal/gen"
	"verif/plan"
)

var realAll = []string{
	"all packages of /repo/soql, instrumented with yield points (no other change)",
	"github.com/shellyln/takenoco and go-nameutil, instrumented likewise",
	"the Go standard library; of the runtime, everything but what the stubs replace",
}

var stubAll = []string{
	"goroutine scheduling order, select choice and preemption: the simulator decides at every statement",
	"wall clock, monotonic clock and timers: simulated",
	"runtime random source (map seeds and iteration order, math/rand, sync.Pool): seeded by the plan",
	"garbage collection pacing: off; collections happen where the plan says",
	"host time zone (time.Local): set by the plan",
}

var assumeAll = []string{
	"interleavings are explored at statement granularity under sequential consistency; what weaker memory orderings could add is covered only by the race detector runs of C02",
	"the search samples schedules and faults: a clean run is evidence, not proof",
}

// roundTrouble says whether a round failed to complete.
func roundTrouble(rr plan.RoundResult) string {
	switch {
	case rr.Deadlock != "":
		return rr.Deadlock
	case rr.Livelock != "":
		return rr.Livelock
	}
	return ""
}

func overflowed(o *Outs) error {
	for _, out := range o.Out {
		for _, r := range out.Rounds {
			if r.Overflow {
				return fmt.Errorf("the simulator ran out of task slots")
			}
		}
	}
	return nil
}

// died turns the death of a process by the library's fault into a finding.
func died(o *Outs) *Finding {
	if o.Death == nil {
		return nil
	}
	return &Finding{Class: "process-died", Detail: "the process was killed by " + o.Death.Text}
}

// judgeCalls compares every completed call of a history with its reference.
// Calls that did not complete are findings too unless the process crashed.
func judgeCalls(e *Env, h *History, o *Outs) (*Finding, error) {
	if f := died(o); f != nil {
		return f, nil
	}
	if err := overflowed(o); err != nil {
		return nil, err
	}
	for pi, out := range o.Out {
		p := &h.Procs[pi]
		type key struct{ r, t int }
		last := map[key]*Ref{}
		for i := range out.Ops {
			op := &out.Ops[i]
			if op.Round >= len(out.Rounds) {
				continue // never started: an earlier round failed
			}
			rr := out.Rounds[op.Round]
			where := fmt.Sprintf("process %d round %d task %d op %d (%s)", pi, op.Round, op.Task, op.Op, op.K)
			if op.Iter > 0 {
				where += fmt.Sprintf(", repetition %d", op.Iter)
			}
			if !op.Done {
				if t := roundTrouble(rr); t != "" {
					return &Finding{Class: "no-return", Detail: where + " never returned: " + t}, nil
				}
				if !rr.Crashed {
					return nil, fmt.Errorf("%s has no result", where)
				}
				continue
			}
			k := key{op.Round, op.Task}
			spec := p.Rounds[op.Round].Tasks[op.Task].Ops[op.Op]
			switch op.K {
			case plan.OpParse, plan.OpDecode:
				var ref *Ref
				var err error
				what := ""
				if op.K == plan.OpParse {
					ref, err = e.RefSource(p.Sources[spec.S])
					what = fmt.Sprintf("parsing %q", cutText(p.Sources[spec.S], 120))
				} else {
					ref, err = e.RefRecord(p.Records[spec.S])
					what = "decoding a record"
				}
				if err != nil {
					return nil, err
				}
				if ref.Dead {
					continue
				}
				last[k] = ref
				switch {
				case op.Panic != ref.Panic:
					return &Finding{Class: "panic", Detail: fmt.Sprintf("%s: %s panics (%s), alone: %q", where, what, op.Panic, ref.Panic)}, nil
				case op.Err != ref.Err:
					return &Finding{Class: "error", Detail: fmt.Sprintf("%s: %s gives error %q, alone: %q", where, what, cutText(op.Err, 200), cutText(ref.Err, 200))}, nil
				case op.Digest != ref.Digest:
					return &Finding{Class: "query", Detail: fmt.Sprintf("%s: %s gives a different query than alone", where, what)}, nil
				}
				if ref.Err != "" || ref.Panic != "" {
					last[k] = nil
				}
			case plan.OpScribble, plan.OpDrop, plan.OpHold:
				last[k] = nil
			case plan.OpStore, plan.OpLoad:
				delete(last, k)
			case plan.OpEncode:
				ref := last[k]
				if ref == nil {
					continue
				}
				got, want := op.EncErr, ref.EncErr
				if op.Panic != "" {
					got = "panic: " + op.Panic
				}
				if got != want {
					return &Finding{Class: "encode-error", Detail: fmt.Sprintf("%s: encoding gives error %q, alone: %q", where, got, want)}, nil
				}
				if op.Digest != ref.Enc {
					return &Finding{Class: "json", Detail: where + ": encoding gives a different text than alone"}, nil
				}
			}
		}
	}
	return nil, nil
}

// callsOf appends calls on s to ops: parse and perhaps encode, or decode.
func callsOf(b *procB, r *gen.Rand, s *Src, ops []plan.Op, enc, dec int) ([]plan.Op, int64) {
	if s.Rec != "" && s.RRef.Err == "" && r.P(dec) {
		ops = append(ops, plan.Op{K: plan.OpDecode, S: b.rec(s.Rec)})
		n := s.RRef.Steps
		if r.P(enc) {
			ops = append(ops, plan.Op{K: plan.OpEncode})
			n += s.RRef.EncSteps
		}
		return ops, n + 10
	}
	ops = append(ops, plan.Op{K: plan.OpParse, S: b.source(s)})
	n := s.Steps
	if s.Err == "" && r.P(enc) {
		ops = append(ops, plan.Op{K: plan.OpEncode})
		n += s.EncSteps
	}
	return ops, n + 10
}

// deepen lets some callers make their calls from deep within a recursion of their own.
func deepen(r *gen.Rand, round *plan.Round) {
	if !r.P(15) {
		return
	}
	for t := range round.Tasks {
		round.Tasks[t].Deep = gen.Pick(r, 0, 0, 30, 100, 300, 1000, 3000)
	}
}

// mixed is a process of concurrent callers on one to three rounds, with at most
// budget steps.
func (c *Campaign) mixed(r *gen.Rand, budget int64, enc, dec int, kinds []int) (*procB, string, int64) {
	b := newProc()
	b.Zone = r.N(5)
	pl := c.draw(r)
	style := r.N(14)
	note := ""
	var draw func() *Src
	var cl *Class
	nt := 2 + r.N(5)
	switch style {
	case 0, 1:
		f := pl.Families[r.N(len(pl.Families))]
		note = "sources that resemble each other"
		draw = func() *Src { return f[r.N(len(f))] }
	case 2, 8:
		s := pl.All[r.N(len(pl.All))]
		if style == 8 && len(pl.Deep) > 0 {
			s = pl.Deep[r.N(len(pl.Deep))]
		}
		note = "one source in all tasks"
		draw = func() *Src { return s }
	case 3:
		note = "deep sources"
		draw = func() *Src {
			if r.P(80) && len(pl.Deep) > 0 {
				return pl.Deep[r.N(len(pl.Deep))]
			}
			return pl.All[r.N(len(pl.All))]
		}
	case 4:
		note = "many tasks"
		nt = 8 + r.N(17)
		draw = func() *Src { return pl.Cheap[r.N(len(pl.Cheap))] }
	case 5:
		note = "failing and succeeding calls"
		draw = func() *Src {
			if r.P(60) && len(pl.Bad) > 0 {
				return pl.Bad[r.N(len(pl.Bad))]
			}
			return pl.Good[r.N(len(pl.Good))]
		}
	case 9, 10, 11, 12, 13:
		if cl = pl.class(r); cl == nil {
			cl = &Class{Srcs: pl.All}
		}
		note = "sources that share rarely used code"
		nt = 2 + r.N(3)
		draw = func() *Src {
			if r.P(80) {
				return cl.Srcs[r.N(len(cl.Srcs))]
			}
			return pl.All[r.N(len(pl.All))]
		}
	default:
		note = "mixed sources"
		draw = func() *Src { return pl.All[r.N(len(pl.All))] }
	}
	nr := 1
	if r.P(30) {
		nr += 1 + r.N(2)
	}
	var all int64
	for k := 0; k < nr; k++ {
		var round plan.Round
		var total int64
		per := 1 + r.N(3)
		for t := 0; t < nt; t++ {
			var ops []plan.Op
			for j := 0; j < per; j++ {
				s := draw()
				if total+s.Steps+s.EncSteps > budget/int64(nr) && total > 0 {
					s = pl.Cheap[r.N(len(pl.Cheap))]
				}
				var n int64
				ops, n = callsOf(b, r, s, ops, enc, dec)
				total += n
				if total > budget/int64(nr) {
					break
				}
			}
			round.Tasks = append(round.Tasks, plan.Task{Ops: ops})
			if total > budget/int64(nr) && t >= 1 {
				break
			}
		}
		deepen(r, &round)
		round.Cfg = swarm(r, total+b.first, kinds)
		c.aim(r, &round.Cfg, cl, total+b.first)
		round.Wall = wallTime(r)
		b.Rounds = append(b.Rounds, round)
		all += total
	}
	if r.P(20) {
		b.AutoGC = 1 + r.N(6)
	}
	return b, note, all
}

// crowd is a process in which a large number of callers do the same kind of call
// on a nested source, mostly in step with each other, so that as many as
// possible are at its deepest point at the same time.
func (c *Campaign) crowd(r *gen.Rand, kinds []int) *History {
	b := newProc()
	b.Zone = r.N(5)
	pl := c.Pool
	const most = 40_000 // steps of one call
	enc, dec := gen.Pick(r, 0, 40, 90), gen.Pick(r, 0, 50, 100)
	cost := func(s *Src) int64 {
		if dec == 100 && s.Rec != "" {
			return s.RRef.Steps + s.RRef.EncSteps
		}
		return s.Steps + s.EncSteps
	}
	nested := r.P(40)
	pick := func() *Src {
		for k := 0; k < 50; k++ {
			l := pl.Deep
			if len(l) == 0 || r.P(35) {
				l = pl.All
			}
			s := l[r.N(len(l))]
			if nested && k < 40 && strings.Count(strings.ToUpper(s.Text), "SELECT") < 2 {
				continue
			}
			if cost(s) < most {
				return s
			}
		}
		return pl.Cheap[r.N(len(pl.Cheap))]
	}
	draw := pick
	if r.P(60) { // the larger ones
		draw = func() *Src {
			s := pick()
			for k := 0; k < 8; k++ {
				if t := pick(); cost(t) > cost(s) {
					s = t
				}
			}
			return s
		}
	}
	one := draw()
	same := r.P(60)
	nt := gen.Pick(r, 6, 12, 16, 24, 33, 48, 64)
	var round plan.Round
	var total, longest int64
	for t := 0; t < nt && total < 900_000; t++ {
		s := one
		if !same && t > 0 {
			s = draw()
		}
		ops, n := callsOf(b, r, s, nil, enc, dec)
		if r.P(20) {
			var m int64
			ops, m = callsOf(b, r, s, ops, enc, dec)
			n += m
		}
		total += n
		if n > longest {
			longest = n
		}
		round.Tasks = append(round.Tasks, plan.Task{Ops: ops})
	}
	round.Cfg = swarm(r, total+b.first, kinds)
	if r.P(70) {
		round.Cfg.Policy = 3
		round.Cfg.Gap = 1 + int64(r.N(int(longest/10)+2))
		if total > 200_000 && round.Cfg.Gap < 30 {
			round.Cfg.Gap = 30
		}
	}
	if r.P(45) {
		// They wait for each other whenever they come to one of a few places.
		var sites []int32
		l := one.Sites
		if dec == 100 && one.RRef != nil {
			l = one.RRef.Sites
		}
		for k := 0; k < 200 && len(l) > 0 && len(sites) < 1+r.N(3); k++ {
			if i := l[r.N(len(l))]; c.E.W.Sites[i].Mod == "repo" {
				sites = append(sites, int32(i))
			}
		}
		if len(sites) > 0 {
			round.Cfg.Policy = 4
			round.Cfg.HotMod = 0
			round.Cfg.HotList = sites
			round.Cfg.HotFreeze = gen.Pick(r, int64(1), 1, 1, 2)
			round.Cfg.Gap = 20000
		}
	}
	round.Wall = wallTime(r)
	b.Rounds = append(b.Rounds, round)
	return &History{Procs: []plan.Process{b.Process}, Note: "a crowd of callers in step"}
}

// tangled is a history of many short concurrent calls that meet at the sites of
// one or two package-level variables, or of a rarely used part of the code.
func (c *Campaign) tangled(r *gen.Rand, enc, dec int, kinds []int) *History {
	b := newProc()
	b.Zone = r.N(5)
	note := "many short calls that meet at a few statements"
	var sites []int32
	var srcs []*Src
	add := func(l []*Src) {
		n := 1 + r.N(6)
		for k := 0; k < n && len(l) > 0; k++ {
			j := r.N(len(l))
			if r.P(75) {
				j = r.N((len(l) + 2) / 3)
			}
			if l[j].First <= lightFirst || k == 0 && r.P(15) {
				srcs = append(srcs, l[j])
			}
		}
	}
	groups := c.shared()
	if len(groups) > 0 && r.P(70) {
		for k := gen.Pick(r, 1, 1, 2, 2, 3); k > 0; k-- {
			g := r.N(len(groups))
			sites = append(sites, groups[g]...)
			add(c.sharedSrcs[g])
		}
	} else {
		for k := 1 + r.N(2); k > 0; k-- {
			if cl := c.Pool.class(r); cl != nil {
				sites = append(sites, cl.Sites...)
				add(cl.Srcs)
			}
		}
	}
	if r.P(40) && len(sites) > 1 { // some of them
		gen.Shuffle(r, sites)
		sites = sites[:1+r.N(len(sites))]
	}
	pl := c.Pool.light
	if pl == nil {
		pl = c.Pool
	}
	if len(srcs) == 0 {
		srcs = append(srcs, pl.Cheap[r.N(len(pl.Cheap))])
	}
	nr := gen.Pick(r, 1, 1, 2)
	if r.P(50) { // the grammar is built first
		var ops []plan.Op
		var n int64
		for k := 0; k < 1+r.N(3); k++ {
			var st int64
			ops, st = callsOf(b, r, srcs[r.N(len(srcs))], ops, enc, dec)
			n += st
		}
		cfg := soloCfg(r.U64() >> 1)
		bounds(&cfg, n+b.first)
		b.Rounds = append(b.Rounds, plan.Round{Cfg: cfg, Wall: wallTime(r), Tasks: []plan.Task{{Ops: ops}}})
	}
	for k := 0; k < nr; k++ {
		var round plan.Round
		var total int64
		nt := gen.Pick(r, 2, 2, 3, 4, 6)
		for t := 0; t < nt; t++ {
			var ops []plan.Op
			var mine int64
			for j := 0; j < 30 && mine < 250_000/int64(nt*nr); j++ {
				s := srcs[r.N(len(srcs))]
				if r.P(10) {
					s = pl.Cheap[r.N(len(pl.Cheap))]
				}
				var n int64
				ops, n = callsOf(b, r, s, ops, enc, dec)
				mine += n
			}
			round.Tasks = append(round.Tasks, plan.Task{Ops: ops})
			total += mine
		}
		round.Cfg = swarm(r, total+b.first, kinds)
		if len(sites) > 0 {
			round.Cfg.Policy = 4
			round.Cfg.HotMod = 0
			round.Cfg.HotList = sites
			round.Cfg.HotFreeze = gen.Pick(r, int64(0), 0, 1, 2, 5, 20)
			round.Cfg.Gap = gen.Pick(r, int64(2000), 20000, 200000)
		}
		round.Wall = wallTime(r)
		b.Rounds = append(b.Rounds, round)
	}
	return &History{Procs: []plan.Process{b.Process}, Note: note}
}

// wearing is a history in which a few calls are repeated very often before
// others, alone or among others, are made.
func (c *Campaign) wearing(r *gen.Rand, limit int64, kinds []int) *History {
	b := newProc()
	b.Zone = r.N(5)
	pl := c.draw(r)
	note := "one call repeated very often, then others"
	cl, bad := pl.badClass(r)
	cheap := func(l []*Src) *Src {
		best := l[r.N(len(l))]
		for k := 0; k < 2; k++ {
			if s := l[r.N(len(l))]; s.Steps+s.EncSteps < best.Steps+best.EncSteps {
				best = s
			}
		}
		return best
	}
	var set []*Src
	mode := r.N(8)
	switch {
	case mode < 4 && len(bad) > 0:
		note = "failing call repeated very often, then others"
		set = append(set, cheap(bad))
	case mode == 4:
		set = append(set, cheap(pl.All))
	case mode == 5:
		for k := 0; k < 2+r.N(6); k++ {
			set = append(set, cheap(pl.All))
		}
		note = "few calls repeated very often, then others"
	default:
		if cl = pl.class(r); cl == nil {
			cl = &Class{Srcs: pl.All}
		}
		for k := 0; k < 1+r.N(2); k++ {
			set = append(set, cheap(cl.Srcs))
		}
		note = "calls that share rarely used code repeated very often, then others"
	}
	var ops []plan.Op
	var once int64
	for _, s := range set {
		var n int64
		if r.P(12) && len(s.JSON) > 20 {
			rec := base64.StdEncoding.EncodeToString(s.JSON)
			n = 300
			if r.P(60) {
				rec = cutRecord(r, s)
			}
			ops = append(ops, plan.Op{K: plan.OpDecode, S: b.rec(rec)})
		} else {
			ops, n = callsOf(b, r, s, ops, 15, 8)
		}
		once += n
	}
	for i := range ops {
		ops[i].Drop = true
	}
	times := int(limit / once)
	if times > 70_000 {
		times = 70_000
	}
	if times < 2 {
		times = 2
	}
	worn := plan.Round{Tasks: []plan.Task{{Ops: ops, Loop: times}}, Wall: wallTime(r)}
	total := once * int64(times)
	if r.P(20) && times > 3 {
		// Shared out among several callers.
		nt := 2 + r.N(3)
		worn.Tasks = nil
		for t := 0; t < nt; t++ {
			worn.Tasks = append(worn.Tasks, plan.Task{Ops: append([]plan.Op(nil), ops...), Loop: times / nt})
		}
		worn.Cfg = swarm(r, total+b.first, nil)
	} else {
		worn.Cfg = soloCfg(r.U64() >> 1)
		bounds(&worn.Cfg, total+b.first)
	}
	b.Rounds = append(b.Rounds, worn)
	b.AutoGC = 1 + int(400_000/(once/int64(len(ops))+1))
	// Then others.
	nr := 1 + r.N(2)
	for k := 0; k < nr; k++ {
		var round plan.Round
		total = 0
		nt := gen.Pick(r, 1, 1, 2, 4)
		for t := 0; t < nt; t++ {
			var ops []plan.Op
			for j := 0; j < 16/nt && total < 500_000; j++ {
				s := pl.All[r.N(len(pl.All))]
				switch x := r.N(10); {
				case x < 3:
					s = set[r.N(len(set))]
				case x < 6 && cl != nil:
					s = cl.Srcs[r.N(len(cl.Srcs))]
				}
				var n int64
				ops, n = callsOf(b, r, s, ops, 40, 20)
				total += n
			}
			round.Tasks = append(round.Tasks, plan.Task{Ops: ops})
		}
		round.Cfg = swarm(r, total+b.first, kinds)
		round.Wall = wallTime(r)
		b.Rounds = append(b.Rounds, round)
	}
	return &History{Procs: []plan.Process{b.Process}, Note: note}
}

// recurring is a history in which the same calls are made again after exactly a
// round number of calls, as many as a counter or a ring takes to come around.
func (c *Campaign) recurring(r *gen.Rand, period int, kinds []int) *History {
	b := newProc()
	b.Zone = r.N(5)
	pl := c.Pool.light
	if pl == nil {
		pl = c.Pool
	}
	// The call in between, and those that come again: each is one query.
	simple := func(s *Src) bool {
		return s.Err == "" && s.Panic == "" && strings.Count(strings.ToUpper(s.Text), "SELECT") == 1
	}
	fill := Src{Text: gen.Pick(r, "SELECT Id FROM Contact", "SELECT Id FROM A", "SELECT x FROM Task"), Ref: &Ref{}}
	if ref, err := c.E.RefSource(fill.Text); err == nil {
		fill.Ref = ref
	}
	var again []*Src
	var cost, most int64
	n := 8 + r.N(25)
	if n > period/2 {
		n = period / 2
	}
	for tries := 0; len(again) < n && tries < 4000; tries++ {
		s := pl.All[r.N(len(pl.All))]
		if cl := pl.class(r); cl != nil && r.P(70) {
			s = cl.Srcs[r.N(len(cl.Srcs))]
		}
		if simple(s) && s.Steps < 20_000 {
			again = append(again, s)
			cost += s.Steps
			if s.First > most {
				most = s.First
			}
		}
	}
	round := func(ops []plan.Op, times int, total int64) {
		cfg := soloCfg(r.U64() >> 1)
		if times == 1 {
			cfg = swarm(r, total+most, kinds)
		} else {
			bounds(&cfg, total+most)
		}
		b.Rounds = append(b.Rounds, plan.Round{Cfg: cfg, Wall: wallTime(r), Tasks: []plan.Task{{Ops: ops, Loop: times}}})
	}
	var ops []plan.Op
	for _, s := range again {
		ops = append(ops, plan.Op{K: plan.OpParse, S: b.source(s), Drop: true})
	}
	for k := 0; k < 2; k++ {
		round(append([]plan.Op(nil), ops...), 1, cost)
		if k == 0 {
			times := period - len(again)
			round([]plan.Op{{K: plan.OpParse, S: b.source(&fill), Drop: true}}, times, fill.Steps*int64(times))
		}
	}
	b.AutoGC = 100 + period/50
	return &History{Procs: []plan.Process{b.Process}, Note: fmt.Sprintf("the same calls again after %d calls", period)}
}

// budget draws the steps a run may take: mostly short runs.
func budget(r *gen.Rand) int64 {
	return gen.Pick(r, int64(60_000), 60_000, 120_000, 120_000, 250_000, 600_000)
}

func init() {
	register(&Prop{
		ID: "C01", Title: "Concurrent calls give the same results as calls made alone", Level: "exploration",
		Plain: true, Quick: 8000, Thorough: 400000,
		Fresh: 10,
		Prepare: func(c *Campaign) (err error) {
			n, nf, size := 120, 24, gen.Large
			if c.E.Tier == "thorough" {
				n, nf = 900, 160
			}
			c.Pool, err = c.E.MakePool(gen.Derive(c.E.Seed, 101), n, nf, size, 600_000)
			return err
		},
		Judge: judgeCalls,
		One: func(c *Campaign, i int, r *gen.Rand) error {
			kinds := []int{kStall, kGC, kZone, kReseed, kFreeze, kWall}
			var h *History
			if i%5 == 4 {
				h = c.tangled(r, 40, 15, kinds)
			} else if i%25 == 13 {
				h = c.crowd(r, kinds)
			} else {
				b, note, _ := c.mixed(r, budget(r), 60, 25, kinds)
				h = &History{Procs: []plan.Process{b.Process}, Note: note}
			}
			h.Procs[0].Sweep = i%8 == 0
			_, _, err := c.Try(i, h)
			return err
		},
		Rule: "each run is a fresh process in which 2-24 callers parse, encode and decode under a seeded scheduler (random, PCT, round-robin or hot-site preemption) with a random subset of faults; every result is compared with that of the same call alone in a fresh process; non-trivial: at least one preemption or fault struck inside a call",
		Real: realAll, Stubs: stubAll, Assume: assumeAll,
	})
}
