package orch

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"regexp"
	"time"

	"verif/internal/gen"
	"verif/plan"
)

// stored is what the history says about one record.
type stored struct {
	proc  int
	op    *plan.OpResult
	spec  plan.Op
	src   string
	ref   *Ref
	round plan.RoundResult
}

// validRecord says whether a file's content is a complete JSON text, as the
// reader will look at it.
func validRecord(b []byte, stream bool) bool {
	if !stream {
		return json.Valid(b)
	}
	var v json.RawMessage
	return json.NewDecoder(bytes.NewReader(b)).Decode(&v) == nil
}

// judgeStore: C06. It looks at every record of a history and at every attempt
// to read one, in the process that wrote it or a later one.
func judgeStore(e *Env, h *History, o *Outs) (*Finding, error) {
	if f := died(o); f != nil {
		return f, nil
	}
	if err := overflowed(o); err != nil {
		return nil, err
	}
	recs := map[string]*stored{}
	var files map[string]string // durable content at boot
	for pi, out := range o.Out {
		p := &h.Procs[pi]
		for i := range out.Ops {
			op := &out.Ops[i]
			if op.Round >= len(out.Rounds) || op.K != plan.OpStore {
				continue
			}
			spec := p.Rounds[op.Round].Tasks[op.Task].Ops[op.Op]
			s := &stored{proc: pi, op: op, spec: spec, src: p.Sources[spec.S], round: out.Rounds[op.Round]}
			var err error
			if s.ref, err = e.RefSource(s.src); err != nil {
				return nil, err
			}
			recs[op.Rec] = s
			if s.ref.Dead {
				continue
			}
			where := fmt.Sprintf("process %d round %d task %d: storing the query of %q", pi, op.Round, op.Task, cutText(s.src, 120))
			if !op.Done {
				if t := roundTrouble(s.round); t != "" {
					return &Finding{Class: "no-return", Detail: where + " never ends: " + t}, nil
				}
				continue
			}
			if s.ref.Panic == "" && op.Panic != "" {
				return &Finding{Class: "store-panic", Detail: where + " panics: " + op.Panic}, nil
			}
			if op.EncErr != "" && (s.ref.EncErr == "" || s.ref.Err == "" && s.ref.Panic == "" && !notJSON.MatchString(s.src)) {
				return &Finding{Class: "store-error", Detail: where + ": " + op.EncErr}, nil
			}
		}
		for i := range out.Ops {
			op := &out.Ops[i]
			if op.Round >= len(out.Rounds) || op.K != plan.OpLoad {
				continue
			}
			s := recs[op.Rec]
			if s == nil || s.ref.Dead {
				continue
			}
			where := fmt.Sprintf("process %d round %d task %d: reading the record of %q, written by process %d", pi, op.Round, op.Task, cutText(s.src, 160), s.proc)
			if !op.Done {
				if t := roundTrouble(out.Rounds[op.Round]); t != "" {
					return &Finding{Class: "no-return", Detail: where + " never ends: " + t}, nil
				}
				continue
			}
			if op.Panic != "" {
				return &Finding{Class: "load-panic", Detail: where + " panics: " + op.Panic}, nil
			}
			if s.op.Done && s.op.Acked {
				switch {
				case op.Err != "":
					return &Finding{Class: "lost", Detail: fmt.Sprintf("%s, fails although it was completely written and synced: %s", where, op.Err)}, nil
				case op.PDigest != s.ref.PDigest:
					return &Finding{Class: "changed", Detail: where + ", gives a different query than was written"}, nil
				case op.Date != s.op.Date || op.Elapsed != s.op.Elapsed:
					return &Finding{Class: "changed-date", Detail: fmt.Sprintf("%s, gives compile date %v and elapsed time %v instead of %v and %v", where,
						time.Unix(0, op.Date).UTC().Format(time.RFC3339Nano), time.Duration(op.Elapsed),
						time.Unix(0, s.op.Date).UTC().Format(time.RFC3339Nano), time.Duration(s.op.Elapsed))}, nil
				case op.Fix != "":
					return &Finding{Class: "not-same-record", Detail: where + ": " + op.Fix}, nil
				}
				continue
			}
			if op.Err != "" {
				continue
			}
			if op.PDigest != s.ref.PDigest {
				return &Finding{Class: "torn-changed", Detail: where + ", which was not completely written, gives a different query instead of an error"}, nil
			}
			if s.proc < pi {
				b, err := base64.StdEncoding.DecodeString(files[op.Rec])
				if err != nil {
					return nil, err
				}
				if !validRecord(b, p.Rounds[op.Round].Tasks[op.Task].Ops[op.Op].Arg == 1) {
					return &Finding{Class: "torn-accepted", Detail: where + ", accepts an incomplete record"}, nil
				}
			}
		}
		files = out.Files
	}
	return nil, nil
}

var notJSON = regexp.MustCompile(`(?i)nan|infinity`)

// storable: the source compiles, and its query has a JSON form. Only a number
// that JSON does not have is a reason not to.
func storable(s *Src) bool {
	return !s.Dead && s.Err == "" && s.Panic == "" && (s.EncErr == "" || !notJSON.MatchString(s.Text))
}

func init() {
	register(&Prop{
		ID: "C06", Title: "Stored queries survive crashes and torn writes", Level: "exploration",
		Plain: true, Quick: 1500, Thorough: 20000,
		Fresh: 20, Usable: storable,
		Prepare: func(c *Campaign) (err error) {
			n, nf := 420, 6
			if c.E.Tier == "thorough" {
				n, nf = 4000, 60
			}
			c.Pool, err = c.E.MakePool(gen.Derive(c.E.Seed, 106), n, nf, gen.Large, 150_000)
			if err != nil {
				return err
			}
			var ok []*Src
			for _, s := range c.Pool.All {
				if storable(s) {
					ok = append(ok, s)
				}
			}
			c.Pool.All = ok
			c.Pool.lighten()
			return nil
		},
		Judge:  judgeStore,
		One:    storeRun,
		Rule:   "each run is a chain of 2-3 processes over one simulated disk: 1-4 callers compile and store queries (whole or through a stream, under short writes, full disk, I/O errors and lost syncs), the process crashes at an arbitrary step (mostly while a record is being written), unsynced data survives as a prefix with 64-byte sectors missing, and processes with other time zones, clocks and hash seeds read every record; every acknowledged record must give the query that was written (everything the JSON form carries, compared through a view fixed in the check), with its dates, and encode to the same bytes; others must give that query or an error; non-trivial: at least one crash, disk fault or preemption",
		Real:   realAll,
		Stubs:  append([]string{"disk: files in memory with synced and unsynced parts, written through an io.Writer and read through an io.Reader that both tear and fail as the plan says", "clients that store, acknowledge and load records"}, stubAll...),
		Assume: append([]string{"a sync makes everything written before it durable", "the carried view lists what the JSON form is meant to carry as of the pinned commit"}, assumeAll...),
	})
}

// storeTasks adds store operations; every record has its own name. It returns
// the names.
func storeTasks(b *procB, r *gen.Rand, pl *Pool, prefix string, faults int, note *int64) (plan.Round, []string) {
	var round plan.Round
	var names []string
	nt := gen.Pick(r, 1, 1, 2, 4)
	per := 1 + r.N(4)
	for t := 0; t < nt; t++ {
		var ops []plan.Op
		for j := 0; j < per; j++ {
			s := pl.All[r.N(len(pl.All))]
			name := fmt.Sprintf("%s%d", prefix, len(names))
			names = append(names, name)
			op := plan.Op{K: plan.OpStore, S: b.source(s), Rec: name, Arg: r.N(2), Drop: r.P(60)}
			if r.P(faults) {
				op.Fault = &plan.Disk{Kind: gen.Pick(r, "short", "enospc", "eio", "lostsync"), At: r.N(len(s.JSON) + 1)}
				if r.P(20) { // near the end
					op.Fault.At = len(s.JSON) - r.N(4)
				}
			}
			ops = append(ops, op)
			*note += s.Steps + s.EncSteps + 20 + int64(len(s.JSON))/97
			if r.P(15) {
				ops = append(ops, plan.Op{K: plan.OpLoad, Rec: name, Arg: r.N(2), Drop: true})
				*note += s.EncSteps * 3
			}
		}
		round.Tasks = append(round.Tasks, plan.Task{Ops: ops})
	}
	round.Cfg = swarm(r, *note+b.first, []int{kStall, kGC, kReseed, kWall, kZone})
	round.Wall = wallTime(r)
	return round, names
}

// loadRound reads the named records with one to three tasks.
func loadRound(r *gen.Rand, names []string, total int64) plan.Round {
	var round plan.Round
	nt := 1 + r.N(3)
	round.Tasks = make([]plan.Task, nt)
	l := append([]string(nil), names...)
	gen.Shuffle(r, l)
	for i, n := range l {
		op := plan.Op{K: plan.OpLoad, Rec: n, Arg: r.N(2), Drop: r.P(50)}
		if op.Arg == 1 {
			op.Fault = &plan.Disk{Kind: "none", Read: gen.Pick(r, 1, 3, 64, 511, 4096)}
		}
		t := &round.Tasks[i%nt]
		t.Ops = append(t.Ops, op)
	}
	round.Cfg = swarm(r, total, []int{kStall, kGC, kReseed, kZone})
	round.Wall = wallTime(r)
	return round
}

func storeRun(c *Campaign, i int, r *gen.Rand) error {
	pl := c.draw(r)
	b := newProc()
	b.Zone = r.N(5)
	b.Persist = true
	b.Sweep = i%8 == 0
	var total int64
	round, names := storeTasks(b, r, pl, "a", 25, &total)
	b.Rounds = append(b.Rounds, round)
	o1, on, err := c.Try(i, &History{Procs: []plan.Process{b.Process}, Note: "stores without a crash"})
	if err != nil || !on {
		return err
	}
	// Where the records are being written.
	type window struct{ lo, hi int64 }
	var ws []window
	end := o1.Out[0].Rounds[0].Steps
	for _, op := range o1.Out[0].Ops {
		if op.K == plan.OpStore && op.Done && op.WS > 0 {
			ws = append(ws, window{op.WS, op.Ret})
		}
	}
	for k := 0; k < 3 && end > 2; k++ {
		first := b.Process
		first.Rounds = append([]plan.Round(nil), b.Rounds...)
		at := 1 + int64(r.U64()%uint64(end))
		if len(ws) > 0 && r.P(80) {
			w := ws[r.N(len(ws))]
			at = w.lo + int64(r.U64()%uint64(w.hi-w.lo+1))
		}
		note := "crash while storing, then restart"
		if k > 0 || r.P(80) {
			first.Rounds[0].Cfg.CrashAt = at
		} else {
			note = "clean exit, then restart"
		}
		b2 := newProc()
		b2.Zone = r.N(5)
		b2.Persist = true
		b2.Rounds = append(b2.Rounds, loadRound(r, names, total))
		h := &History{Chain: true, Note: note, Procs: []plan.Process{first}}
		if r.P(30) {
			// The second process stores more and crashes too; a third one reads
			// everything.
			var t2 int64
			rd, n2 := storeTasks(b2, r, pl, "b", 15, &t2)
			if r.P(70) {
				rd.Cfg.CrashAt = 1 + int64(r.U64()%uint64(t2+1))
			}
			b2.Rounds = append(b2.Rounds, rd)
			b3 := newProc()
			b3.Zone = r.N(5)
			b3.Persist = true
			b3.Rounds = append(b3.Rounds, loadRound(r, append(append([]string(nil), names...), n2...), total+t2))
			h.Procs = append(h.Procs, b2.Process, b3.Process)
		} else {
			h.Procs = append(h.Procs, b2.Process)
		}
		if _, on, err = c.Try(i, h); err != nil || !on {
			return err
		}
	}
	return nil
}
