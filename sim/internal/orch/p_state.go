package orch

import (
	"fmt"

	"verif/internal/gen"
	"verif/plan"
)

// judgeOwner: C03.
func judgeOwner(e *Env, h *History, o *Outs) (*Finding, error) {
	for _, out := range o.Out {
		if len(out.Owner) > 0 {
			return &Finding{Class: "shared-memory", Detail: "two returned queries share mutable memory: " + out.Owner[0]}, nil
		}
		for _, op := range out.Ops {
			if op.After != "" && op.K == plan.OpHold {
				return &Finding{Class: "changed-later", Detail: fmt.Sprintf("the part of a query that round %d task %d op %d kept was changed afterwards", op.Round, op.Task, op.Op)}, nil
			}
			if op.After != "" {
				return &Finding{Class: "changed-later", Detail: fmt.Sprintf("the query returned by round %d task %d op %d was changed after it was returned", op.Round, op.Task, op.Op)}, nil
			}
		}
	}
	return judgeCalls(e, h, o)
}

// scribbleSome makes callers overwrite some of their results.
func scribbleSome(r *gen.Rand, h *History, p int) {
	for ri := range h.Procs[0].Rounds {
		for ti := range h.Procs[0].Rounds[ri].Tasks {
			t := &h.Procs[0].Rounds[ri].Tasks[ti]
			var ops []plan.Op
			for k, op := range t.Ops {
				ops = append(ops, op)
				if (k+1 == len(t.Ops) || t.Ops[k+1].K != plan.OpEncode) && r.P(p) {
					ops = append(ops, plan.Op{K: plan.OpScribble, Arg: 1 + r.N(1000)})
				}
			}
			t.Ops = ops
		}
	}
}

func init() {
	register(&Prop{
		ID: "C03", Title: "A returned query belongs to its caller alone", Level: "exploration",
		Plain: true, Quick: 3500, Thorough: 120000,
		Fresh: 30,
		Prepare: func(c *Campaign) (err error) {
			n, nf := 120, 24
			if c.E.Tier == "thorough" {
				n, nf = 900, 160
			}
			c.Pool, err = c.E.MakePool(gen.Derive(c.E.Seed, 103), n, nf, gen.Large, 250_000)
			return err
		},
		Judge: judgeOwner,
		One: func(c *Campaign, i int, r *gen.Rand) error {
			if i%5 == 4 {
				h := c.tangled(r, 30, 15, []int{kStall, kGC, kReseed, kFreeze})
				h.Procs[0].Owner = true
				scribbleSome(r, h, gen.Pick(r, 10, 30, 60))
				_, _, err := c.Try(i, h)
				return err
			}
			b := newProc()
			b.Zone = r.N(5)
			b.Owner = true
			b.Sweep = i%8 == 0
			pl := c.draw(r)
			f := pl.Families[r.N(len(pl.Families))]
			one := pl.Good[r.N(len(pl.Good))]
			mode := r.N(5)
			_, some := pl.some(r)
			draw := func() *Src {
				switch mode {
				case 3, 4:
					return some()
				case 0:
					return f[r.N(len(f))]
				case 1:
					if r.P(60) {
						return one
					}
				}
				if r.P(8) && len(pl.Bad) > 0 {
					return pl.Bad[r.N(len(pl.Bad))]
				}
				return pl.Good[r.N(len(pl.Good))]
			}
			bud := budget(r)
			nr := 1 + r.N(3)
			nt := gen.Pick(r, 1, 1, 2, 3, 5)
			parts := gen.Pick(r, 0, 0, 10, 60)
			for k := 0; k < nr; k++ {
				var round plan.Round
				var total int64
				for t := 0; t < nt; t++ {
					var ops []plan.Op
					var mine int64
					for j := 0; j < 12 && (mine < bud/int64(nr*nt) || j < 2); j++ {
						s := draw()
						if mine+s.Steps > bud {
							s = pl.Cheap[r.N(len(pl.Cheap))]
						}
						ops = append(ops, plan.Op{K: plan.OpParse, S: b.source(s)})
						mine += s.Steps + 10
						if s.Err != "" {
							continue
						}
						if r.P(parts) { // only a part of it is kept
							ops[len(ops)-1].Drop = true
							ops = append(ops, plan.Op{K: plan.OpHold, Arg: r.N(1000)})
							continue
						}
						// Scribble over the query or encode it, so that whatever it
						// shares with others shows.
						if r.P(55) {
							ops = append(ops, plan.Op{K: plan.OpScribble, Arg: 1 + r.N(1000)})
						} else if r.P(30) {
							ops = append(ops, plan.Op{K: plan.OpEncode})
							mine += s.EncSteps
							if r.P(50) {
								ops = append(ops, plan.Op{K: plan.OpScribble, Arg: 1 + r.N(1000)})
							}
						}
					}
					round.Tasks = append(round.Tasks, plan.Task{Ops: ops})
					total += mine
				}
				round.Cfg = swarm(r, total+b.first, []int{kStall, kGC, kReseed, kFreeze})
				round.Wall = wallTime(r)
				b.Rounds = append(b.Rounds, round)
			}
			if r.P(15) || parts > 0 && r.P(60) {
				b.AutoGC = 1 + r.N(4)
			}
			_, _, err := c.Try(i, &History{Procs: []plan.Process{b.Process}, Note: "callers that overwrite their results"})
			return err
		},
		Rule: "each run is a fresh process in which 1-5 callers parse, overwrite everything reachable from some of the queries they get (elements beyond a slice's length included), encode others, keep all or only parts of them while the rest is collected; checked: no byte of memory reachable from two results, no kept result changed, every later result equal to that of the same call alone; non-trivial: at least one preemption or fault struck inside a call",
		Real: realAll, Stubs: stubAll, Assume: append([]string{"strings are immutable in Go and may be shared; memory reachable only through unexported fields is not examined"}, assumeAll...),
	})

	register(&Prop{
		ID: "C04", Title: "Compilation depends on the source text alone", Level: "exploration",
		Plain: true, Quick: 1600, Thorough: 60000,
		Fresh: 15,
		Prepare: func(c *Campaign) (err error) {
			n, nf := 150, 40
			if c.E.Tier == "thorough" {
				n, nf = 1000, 250
			}
			c.Pool, err = c.E.MakePool(gen.Derive(c.E.Seed, 104), n, nf, gen.Large, 600_000)
			return err
		},
		Judge: judgeCalls,
		One: func(c *Campaign, i int, r *gen.Rand) error {
			if i%400 == 1 || i%32 == 7 {
				period := gen.Pick(r, 64, 100, 128, 256, 256, 256, 500, 512, 1000, 1024, 2048, 4096)
				if i%400 == 1 {
					period = 65536
				}
				_, _, err := c.Try(i, c.recurring(r, period, []int{kStall, kGC, kZone, kReseed}))
				return err
			}
			if i%6 == 5 {
				limit := gen.Pick(r, int64(2_000_000), 2_000_000, 8_000_000, 8_000_000, 30_000_000)
				h := c.wearing(r, limit, []int{kStall, kGC, kZone, kReseed, kWall})
				_, _, err := c.Try(i, h)
				return err
			}
			b := newProc()
			b.Zone = r.N(5)
			b.Sweep = i%8 == 0
			pl := c.draw(r)
			note := ""
			var draw func() *Src
			n := 20 + r.N(60)
			long := false
			switch r.N(10) {
			case 8, 9:
				note = "history of sources that share rarely used code"
				_, draw = pl.some(r)
			case 0, 1:
				f := pl.Families[r.N(len(pl.Families))]
				note = "history of sources that resemble each other"
				draw = func() *Src { return f[r.N(len(f))] }
			case 2:
				note = "history of repeats"
				k := 1 + r.N(4)
				var l []*Src
				for j := 0; j < k; j++ {
					l = append(l, pl.All[r.N(len(pl.All))])
				}
				draw = func() *Src { return l[r.N(len(l))] }
			case 3:
				note = "history of failures"
				draw = func() *Src {
					if r.P(85) && len(pl.Bad) > 0 {
						return pl.Bad[r.N(len(pl.Bad))]
					}
					return pl.All[r.N(len(pl.All))]
				}
			case 4:
				note = "long history of short calls"
				long = true
				n = 300 + r.N(1500)
				draw = func() *Src { return pl.Cheap[r.N(len(pl.Cheap))] }
			case 5:
				note = "deep and shallow sources in turn"
				draw = func() *Src {
					if r.P(50) && len(pl.Deep) > 0 {
						return pl.Deep[r.N(len(pl.Deep))]
					}
					return pl.Cheap[r.N(len(pl.Cheap))]
				}
			default:
				note = "mixed history"
				draw = func() *Src { return pl.All[r.N(len(pl.All))] }
			}
			bud := int64(700_000)
			if long {
				bud = 6_000_000
			}
			nt := gen.Pick(r, 1, 1, 1, 2)
			nr := 1 + r.N(3)
			for k := 0; k < nr; k++ {
				var round plan.Round
				var total int64
				for t := 0; t < nt; t++ {
					var ops []plan.Op
					for j := 0; j < n && total < bud/int64(nr); j++ {
						s := draw()
						var st int64
						ops, st = callsOf(b, r, s, ops, 30, 10)
						total += st
					}
					for j := range ops {
						ops[j].Drop = r.P(50)
					}
					round.Tasks = append(round.Tasks, plan.Task{Ops: ops})
				}
				deepen(r, &round)
				round.Cfg = swarm(r, total+b.first, []int{kStall, kGC, kZone, kReseed, kWall, kReseed, kGC})
				if long && round.Cfg.FaultGap > 0 {
					round.Cfg.FaultGap *= 10
				}
				round.Wall = wallTime(r)
				b.Rounds = append(b.Rounds, round)
			}
			if r.P(25) {
				b.AutoGC = 1 + r.N(8)
				if long {
					b.AutoGC *= 40
				}
			}
			_, _, err := c.Try(i, &History{Procs: []plan.Process{b.Process}, Note: note})
			return err
		},
		Rule: "each run is a process with a history of up to 1800 calls (repeats, near-identical sources, failures at every stage, deep and shallow) under time zone changes, wall-clock steps, garbage collections and reseeding of maps and hashes at arbitrary steps; every result is compared with that of the same call alone in a fresh process with another zone, clock and seed; non-trivial: at least one fault or preemption struck inside a call",
		Real: realAll, Stubs: stubAll, Assume: assumeAll,
	})
}
