package orch

import (
	"fmt"

	"verif/internal/gen"
	"verif/plan"
)

// judgeReaders: C09.
func judgeReaders(e *Env, h *History, o *Outs) (*Finding, error) {
	if h.Race {
		return judgeRace(e, h, o)
	}
	if f := died(o); f != nil {
		return f, nil
	}
	if err := overflowed(o); err != nil {
		return nil, err
	}
	for pi, out := range o.Out {
		for ri, rr := range out.Rounds {
			if t := roundTrouble(rr); t != "" {
				return &Finding{Class: "no-return", Detail: fmt.Sprintf("readers of round %d never return: %s", ri, t)}, nil
			}
		}
		for _, op := range out.Ops {
			where := fmt.Sprintf("process %d round %d task %d op %d (%s)", pi, op.Round, op.Task, op.Op, op.K)
			if !op.Done {
				return nil, fmt.Errorf("%s has no result", where)
			}
			if op.Panic != "" {
				return &Finding{Class: "panic", Detail: where + " panics: " + op.Panic}, nil
			}
		}
		if len(out.Shared) > 0 {
			return &Finding{Class: "shared", Detail: out.Shared[0]}, nil
		}
	}
	return nil, nil
}

func init() {
	register(&Prop{
		ID: "C09", Title: "A parsed query is safe for concurrent readers", Level: "exploration",
		Plain: true, Race: true, Quick: 3000, Thorough: 80000,
		Fresh: 15, Usable: (*Src).compiles,
		Prepare: func(c *Campaign) (err error) {
			n, nf := 200, 4
			if c.E.Tier == "thorough" {
				n, nf = 1500, 60
			}
			c.Pool, err = c.E.MakePool(gen.Derive(c.E.Seed, 109), n, nf, gen.Large, 600_000)
			if err != nil {
				return err
			}
			var ok []*Src
			for _, s := range c.Pool.All {
				if s.Err == "" && s.Panic == "" {
					ok = append(ok, s)
				}
			}
			c.Pool.All = ok
			c.Pool.classify()
			c.Pool.lighten()
			return nil
		},
		Judge: judgeReaders,
		One: func(c *Campaign, i int, r *gen.Rand) error {
			race := i%3 == 0
			b := newProc()
			b.Zone = r.N(5)
			b.Sweep = i%8 == 0
			b.ShDec = r.P(35)
			b.NoPool = r.P(75)
			pl := c.draw(r)
			cl, some := pl.some(r)
			if r.P(50) {
				cl, some = nil, func() *Src { return pl.All[r.N(len(pl.All))] }
			}
			var sh []*Src
			for k := 0; k < 1+r.N(3); k++ {
				s := some()
				if b.ShDec && (!s.OK() || s.RRef.Err != "" || s.RRef.Panic != "") {
					s = pl.Good[r.N(len(pl.Good))]
				}
				sh = append(sh, s)
				b.Shared = append(b.Shared, b.source(s))
			}
			nr := gen.Pick(r, 1, 1, 2)
			nt := 2 + r.N(7)
			for k := 0; k < nr; k++ {
				var round plan.Round
				var total int64
				for t := 0; t < nt; t++ {
					var ops []plan.Op
					for j := 0; j < 1+r.N(4); j++ {
						s := r.N(len(sh))
						switch r.N(6) {
						case 0, 1:
							ops = append(ops, plan.Op{K: plan.OpRead, S: s})
							total += 5
						case 2:
							ops = append(ops, plan.Op{K: plan.OpCopy, S: s})
							total += sh[s].EncSteps + 5
						default:
							ops = append(ops, plan.Op{K: plan.OpEncSh, S: s, Arg: r.N(3)})
							total += sh[s].EncSteps + 5
						}
						// Somebody else goes on parsing meanwhile.
						if r.P(8) {
							ops = append(ops, plan.Op{K: plan.OpParse, S: b.source(pl.Cheap[r.N(len(pl.Cheap))]), Drop: true})
							total += 20_000
						}
					}
					round.Tasks = append(round.Tasks, plan.Task{Ops: ops})
				}
				round.Cfg = swarm(r, total, []int{kStall, kGC, kReseed, kZone, kFreeze})
				// Encoders take few steps: interleave them finely.
				if round.Cfg.Gap > 40 {
					round.Cfg.Gap = gen.Pick(r, int64(1), 2, 5, 20)
				}
				if r.P(50) {
					c.aim(r, &round.Cfg, cl, total)
					if round.Cfg.Policy == 4 {
						round.Cfg.Gap = gen.Pick(r, int64(5), 20, 100, 1000)
					}
				}
				if round.Cfg.FaultGap > 300 {
					round.Cfg.FaultGap = gen.Pick(r, int64(20), 60, 300)
				}
				round.Wall = wallTime(r)
				b.Rounds = append(b.Rounds, round)
			}
			note := "readers, copiers and encoders of shared queries"
			_, _, err := c.Try(i, &History{Procs: []plan.Process{b.Process}, Race: race, Note: note})
			return err
		},
		Rule: "each run shares 1-3 queries, parsed or decoded, between 2-8 callers that read everything in them, copy them and modify the copies' top level, and encode them in three ways, under a seeded scheduler; every third run is race-instrumented with no happens-before edges but the library's own; each reader must see and produce the same, and the query must be unchanged afterwards; non-trivial: at least one preemption or fault struck inside a call",
		Real: realAll, Stubs: stubAll, Assume: assumeAll,
	})
}
