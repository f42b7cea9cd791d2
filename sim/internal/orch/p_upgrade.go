package orch

import (
	"encoding/base64"
	"fmt"
	"time"

	"verif/internal/gen"
	"verif/plan"
)

// refIn returns the reference of a source in the version of the library that
// the process runs.
func (e *Env) refIn(p *plan.Process, s string) (*Ref, error) {
	return e.ref(fmt.Sprintf("v%v %s", p.Old, s), plan.Process{Old: p.Old, Fixed: true, Sources: []string{s}, Persist: true, Bytes: true,
		Rounds: []plan.Round{{Cfg: soloCfg(1), Wall: refWall, Tasks: []plan.Task{{Ops: []plan.Op{{K: plan.OpParse}, {K: plan.OpEncode}}}}}}})
}

func version(p *plan.Process) string {
	if p.Old {
		return "released"
	}
	return "present"
}

// kept is a record and the query it is to give.
type kept struct {
	src     string
	by      string // who wrote it
	ref     *Ref   // of the version that compiled it
	proc    int
	acked   bool
	date    int64
	elapsed int64
}

// judgeUpgrade: C12. Every record is read as the query it was written for,
// whichever version wrote it, handed it on or reads it.
func judgeUpgrade(e *Env, h *History, o *Outs) (*Finding, error) {
	if f := died(o); f != nil {
		return f, nil
	}
	if err := overflowed(o); err != nil {
		return nil, err
	}
	recs := map[string]*kept{}
	var files map[string]string
	for pi, out := range o.Out {
		p := &h.Procs[pi]
		me := fmt.Sprintf("process %d (%s version)", pi, version(p))
		// read judges the reading of a record.
		read := func(op *plan.OpResult, name string, stream bool) *Finding {
			s := recs[name]
			if s == nil {
				return nil
			}
			where := fmt.Sprintf("%s round %d task %d: reading the record of %q, written by %s", me, op.Round, op.Task, cutText(s.src, 160), s.by)
			if !op.Done {
				if t := roundTrouble(out.Rounds[op.Round]); t != "" {
					return &Finding{Class: "no-return", Detail: where + " never ends: " + t}
				}
				return nil
			}
			if op.Panic != "" {
				return &Finding{Class: "load-panic", Detail: where + " panics: " + op.Panic}
			}
			if op.Err != "" {
				if s.acked {
					return &Finding{Class: "lost", Detail: fmt.Sprintf("%s, fails although it was completely written and synced: %s", where, op.Err)}
				}
				return nil
			}
			switch {
			case op.PDigest != s.ref.PDigest:
				what := ", gives a different query than was written"
				if !s.acked {
					what = ", which was not completely written, gives a different query instead of an error"
				}
				return &Finding{Class: "changed", Detail: where + what}
			case s.date != 0 && (op.Date != s.date || op.Elapsed != s.elapsed):
				return &Finding{Class: "changed-date", Detail: fmt.Sprintf("%s, gives compile date %v and elapsed time %v instead of %v and %v", where,
					time.Unix(0, op.Date).UTC().Format(time.RFC3339Nano), time.Duration(op.Elapsed), time.Unix(0, s.date).UTC().Format(time.RFC3339Nano), time.Duration(s.elapsed))}
			}
			if !s.acked && s.proc < pi {
				b, err := base64.StdEncoding.DecodeString(files[name])
				if err == nil && !validRecord(b, stream) {
					return &Finding{Class: "torn-accepted", Detail: where + ", accepts an incomplete record"}
				}
			}
			return nil
		}
		// Records are read in later rounds, or later in the same task, than they
		// are written.
		for i := range out.Ops {
			op := &out.Ops[i]
			if op.Round >= len(out.Rounds) {
				continue
			}
			spec := p.Rounds[op.Round].Tasks[op.Task].Ops[op.Op]
			switch op.K {
			case plan.OpStore:
				src := p.Sources[spec.S]
				ref, err := e.refIn(p, src)
				if err != nil {
					return nil, err
				}
				if !ref.OK() {
					continue
				}
				if op.Done && op.EncErr != "" {
					return &Finding{Class: "store-error", Detail: fmt.Sprintf("%s: storing the query of %q: %s", me, cutText(src, 120), op.EncErr)}, nil
				}
				s := &kept{src: src, by: me, ref: ref, proc: pi, acked: op.Done && op.Acked}
				if op.Done {
					s.date, s.elapsed = op.Date, op.Elapsed
				}
				recs[op.Rec] = s
			case plan.OpMove:
				if f := read(op, spec.From, spec.Arg == 1); f != nil {
					return f, nil
				}
				s := recs[spec.From]
				if s == nil {
					continue
				}
				if op.Done && op.EncErr != "" {
					return &Finding{Class: "store-error", Detail: fmt.Sprintf("%s: storing again the query of %q, written by %s: %s", me, cutText(s.src, 120), s.by, op.EncErr)}, nil
				}
				n := *s
				n.by, n.proc, n.acked = s.by+", stored again by "+me, pi, op.Done && op.Acked
				recs[op.Rec] = &n
			case plan.OpLoad:
				if f := read(op, op.Rec, spec.Arg == 1); f != nil {
					return f, nil
				}
			}
		}
		files = out.Files
	}
	return nil, nil
}

func upgradeRun(c *Campaign, i int, r *gen.Rand) error {
	pl := c.draw(r)
	h := &History{Chain: true, Note: "processes of two versions in turn on one disk"}
	n := 2 + r.N(4)
	var names []string
	old := r.P(50)
	for k := 0; k < n; k++ {
		b := newProc()
		b.Zone = r.N(5)
		b.Host = r.N(3)
		b.Persist, b.Fixed = true, true
		b.Old = old
		b.Sweep = !old && i%4 == 0
		if k == 0 || r.P(75) || k == n-2 && r.P(60) {
			old = !old
		}
		var total int64 = 2000
		some := append([]string(nil), names...)
		gen.Shuffle(r, some)
		if k < n-1 && len(some) > 12 {
			some = some[:12]
		}
		if len(some) > 0 {
			rd := loadRound(r, some, 20_000)
			b.Rounds = append(b.Rounds, rd)
		}
		if k < n-1 {
			// Writers; some hand on what they find. The process may crash meanwhile.
			rd, ns := storeTasks(b, r, pl, string(rune('a'+k)), 12, &total)
			for t := range rd.Tasks {
				for j := r.N(4); j > 0 && len(some) > 0; j-- {
					name := fmt.Sprintf("%cm%d.%d", 'a'+k, t, j)
					op := plan.Op{K: plan.OpMove, From: some[r.N(len(some))], Rec: name, Arg: r.N(2), Drop: r.P(60)}
					if r.P(8) {
						op.Fault = &plan.Disk{Kind: gen.Pick(r, "short", "enospc", "eio", "lostsync"), At: r.N(3000)}
					}
					ns = append(ns, name)
					rd.Tasks[t].Ops = append(rd.Tasks[t].Ops, op)
					total += 3000
				}
			}
			if r.P(30) {
				rd.Cfg.CrashAt = 1 + total/4 + int64(r.U64()%uint64(total+1))
			}
			b.Rounds = append(b.Rounds, rd)
			names = append(names, ns...)
		}
		h.Procs = append(h.Procs, b.Process)
	}
	_, _, err := c.Try(i, h)
	return err
}

func init() {
	register(&Prop{
		ID: "C12", Title: "Stored queries survive upgrades and rollbacks", Level: "exploration",
		Plain: true, Old: true, Quick: 1500, Thorough: 40000,
		Fresh: 20, Usable: (*Src).OK,
		Prepare: func(c *Campaign) (err error) {
			n, nf := 800, 8
			if c.E.Tier == "thorough" {
				n, nf = 4000, 60
			}
			c.Pool, err = c.E.MakePool(gen.Derive(c.E.Seed, 113), n, nf, gen.Large, 150_000)
			if err != nil {
				return err
			}
			var ok []*Src
			for _, s := range c.Pool.All {
				if s.OK() {
					ok = append(ok, s)
				}
			}
			c.Pool.All = ok
			c.Pool.lighten()
			return nil
		},
		Judge: judgeUpgrade,
		One:   upgradeRun,
		Rule:  "each run is a chain of 2-5 processes over one simulated disk, in turn of the released version of the library (a copy of the pinned source with the repairs) and of the present one: each reads records that earlier ones left, compiles and stores queries, and stores again what it has read, under seeded schedules of 1-4 callers, short and failed writes, lost syncs and crashes at arbitrary steps after which unsynced data survives in part; time zones, clocks, hosts and hash seeds differ; every completely written record must give, in either version, the query that was compiled, with its dates; others that or an error; non-trivial: at least one crash, disk fault or preemption",
		Real:  append([]string{"the released version of the library: /verif/baseline"}, realAll...),
		Stubs: append([]string{"disk: files in memory with synced and unsynced parts, written through an io.Writer and read through an io.Reader that both tear and fail as the plan says", "clients that store, acknowledge, load and hand on records"}, stubAll...),
		Assume: append([]string{"a sync makes everything written before it durable", "the released version is the pinned commit with the repairs in KNOWN_FINDINGS.txt, with the dependencies it names",
			"queries are compared through the list of fields the released version's JSON form carries"}, assumeAll...),
	})
}
