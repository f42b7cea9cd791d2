package orch

import (
	"fmt"
	"time"

	"verif/internal/gen"
	"verif/plan"
)

func judgeClock(e *Env, h *History, o *Outs) (*Finding, error) {
	if err := overflowed(o); err != nil {
		return nil, err
	}
	for pi, out := range o.Out {
		for _, op := range out.Ops {
			if op.K != plan.OpParse || !op.Done || op.Err != "" || op.Panic != "" {
				continue
			}
			src := h.Procs[pi].Sources[h.Procs[pi].Rounds[op.Round].Tasks[op.Task].Ops[op.Op].S]
			where := fmt.Sprintf("round %d task %d op %d, parsing %q", op.Round, op.Task, op.Op, cutText(src, 100))
			if op.Date == 0 && op.Loc == "" {
				return &Finding{Class: "date", Detail: where + ": no compile date"}, nil
			}
			if op.Loc != "UTC/0" {
				return &Finding{Class: "date-zone", Detail: fmt.Sprintf("%s: the date is in zone %s, not UTC", where, op.Loc)}, nil
			}
			if op.Elapsed < 0 {
				return &Finding{Class: "elapsed", Detail: fmt.Sprintf("%s: negative elapsed time %v", where, time.Duration(op.Elapsed))}, nil
			}
			if hi := op.T1 - op.T0; op.Elapsed > hi {
				return &Finding{Class: "elapsed", Detail: fmt.Sprintf("%s: elapsed time %v, but the whole call took %v", where, time.Duration(op.Elapsed), time.Duration(hi))}, nil
			}
			if op.FD < 0 {
				continue
			}
			if lo := op.LD - op.FD; op.Elapsed < lo {
				return &Finding{Class: "elapsed", Detail: fmt.Sprintf("%s: elapsed time %v, but compiling took at least %v", where, time.Duration(op.Elapsed), time.Duration(lo))}, nil
			}
			if op.WN == 0 && (op.Date < op.W0 || op.Date > op.FDW) {
				return &Finding{Class: "date", Detail: fmt.Sprintf("%s: date %v, but compilation began between %v and %v", where,
					time.Unix(0, op.Date).UTC().Format(time.RFC3339Nano), time.Unix(0, op.W0).UTC().Format(time.RFC3339Nano), time.Unix(0, op.FDW).UTC().Format(time.RFC3339Nano))}, nil
			}
		}
	}
	return nil, nil
}

func init() {
	register(&Prop{
		ID: "C05", Title: "Compile date and elapsed time survive clock faults", Level: "exploration",
		Plain: true, Quick: 7000, Thorough: 150000,
		Fresh: 6,
		Prepare: func(c *Campaign) (err error) {
			n, nf := 120, 10
			if c.E.Tier == "thorough" {
				n, nf = 700, 60
			}
			c.Pool, err = c.E.MakePool(gen.Derive(c.E.Seed, 105), n, nf, gen.Large, 600_000)
			return err
		},
		Judge: judgeClock,
		One: func(c *Campaign, i int, r *gen.Rand) error {
			b := newProc()
			b.Zone = r.N(5)
			b.Sweep = i%8 == 0
			pl := c.draw(r)
			nr := 1 + r.N(3)
			nt := gen.Pick(r, 1, 1, 1, 2, 4)
			bud := budget(r)
			cl, some := pl.some(r)
			focus := r.P(30)
			for k := 0; k < nr; k++ {
				var round plan.Round
				var total int64
				for t := 0; t < nt; t++ {
					var ops []plan.Op
					for j := 0; j < 1+r.N(6) && total < bud; j++ {
						s := pl.Good[r.N(len(pl.Good))]
						if focus {
							s = some()
						} else if r.P(15) {
							s = pl.All[r.N(len(pl.All))]
						}
						ops = append(ops, plan.Op{K: plan.OpParse, S: b.source(s), Drop: r.P(70)})
						total += s.Steps + 10
					}
					round.Tasks = append(round.Tasks, plan.Task{Ops: ops})
				}
				round.Cfg = swarm(r, total+b.first, nil)
				if focus {
					c.aim(r, &round.Cfg, cl, total+b.first)
				}
				round.Cfg.DepOnly = true
				round.Cfg.Faults = gen.Pick(r, []int{kWall}, []int{kStall}, []int{kWall, kStall}, []int{kWall, kWall, kStall, kZone}, []int{kWall, kStall, kGC, kZone, kReseed})
				round.Cfg.FaultGap = gen.Pick(r, int64(200), 1000, 5000, 20000)
				round.Cfg.MaxStall = gen.Pick(r, int64(1e3), 1e6, 1e9, 3600e9, 100*86400e9)
				round.Wall = wallTime(r)
				b.Rounds = append(b.Rounds, round)
			}
			_, _, err := c.Try(i, &History{Procs: []plan.Process{b.Process}, Note: "compilations under clock faults"})
			return err
		},
		Rule: "each run compiles sources under simulated wall and monotonic clocks, in five time zones and from dates between 1906 and 2100, while the wall clock is stepped back and forth by up to 400 days and callers are stalled for up to 100 days in the middle of parsing and of name resolution; checked against the simulator's own clocks; non-trivial: at least one fault or preemption struck inside a call",
		Real: realAll, Stubs: stubAll,
		Assume: append([]string{"clock faults strike only while the library's dependencies run (they are certainly part of compiling), from their 40th statement on (by then compilation has certainly begun)"}, assumeAll...),
	})
}
