package orch

import (
	"encoding/base64"
	"fmt"
	"regexp"
	"strings"

	"verif/internal/gen"
	"verif/plan"
)

// judgeLive: C07.
func judgeLive(e *Env, h *History, o *Outs) (*Finding, error) {
	if f := died(o); f != nil {
		return f, nil
	}
	if err := overflowed(o); err != nil {
		return nil, err
	}
	for pi, out := range o.Out {
		p := &h.Procs[pi]
		for _, op := range out.Ops {
			if op.Round >= len(out.Rounds) {
				continue
			}
			spec := p.Rounds[op.Round].Tasks[op.Task].Ops[op.Op]
			what := op.K
			if op.K == plan.OpParse {
				what = fmt.Sprintf("parsing %q", cutText(p.Sources[spec.S], 120))
			}
			where := fmt.Sprintf("process %d round %d task %d op %d (%s)", pi, op.Round, op.Task, op.Op, what)
			if !op.Done {
				if t := roundTrouble(out.Rounds[op.Round]); t != "" {
					return &Finding{Class: "no-return", Detail: where + " never returned: " + t}, nil
				}
				return nil, fmt.Errorf("%s has no result", where)
			}
			limit := int64(10_000_000)
			if op.K == plan.OpParse {
				ref, err := e.RefSource(p.Sources[spec.S])
				if err != nil {
					return nil, err
				}
				if ref.Dead {
					continue
				}
				limit = 20*(ref.Steps+ref.First) + 1_000_000
			}
			if op.Steps > limit {
				return &Finding{Class: "work", Detail: fmt.Sprintf("%s took %d steps of its own work", where, op.Steps)}, nil
			}
		}
	}
	return nil, nil
}

// cutRecord is a record that fails to decode.
func cutRecord(r *gen.Rand, s *Src) string {
	b := s.JSON
	if r.P(50) {
		return base64.StdEncoding.EncodeToString(b[:r.N(len(b))])
	}
	d, _ := damage(r, b, b)
	return base64.StdEncoding.EncodeToString(d)
}

func init() {
	register(&Prop{
		ID: "C07", Title: "Every concurrent call returns", Level: "exploration",
		Plain: true, Quick: 2500, Thorough: 90000,
		Fresh: 10,
		Prepare: func(c *Campaign) (err error) {
			n, nf := 140, 16
			if c.E.Tier == "thorough" {
				n, nf = 900, 120
			}
			c.Pool, err = c.E.MakePool(gen.Derive(c.E.Seed, 107), n, nf, gen.Large, 600_000)
			return err
		},
		Judge: judgeLive,
		One: func(c *Campaign, i int, r *gen.Rand) error {
			kinds := []int{kStall, kFreeze, kStall, kFreeze, kGC, kReseed, kWall}
			var h *History
			if i%10 == 6 {
				h = c.crowd(r, kinds)
			} else if i%8 == 7 {
				h = c.wearing(r, gen.Pick(r, int64(2_000_000), 8_000_000, 8_000_000), kinds)
			} else if i%8 == 1 || i%8 == 3 || i%8 == 5 {
				h = c.tangled(r, 30, 15, kinds)
				h.Procs[0].Sweep = i%16 == 1
			} else if r.P(60) {
				b, note, _ := c.mixed(r, budget(r), 50, 30, kinds)
				b.Sweep = i%8 == 0
				for k := range b.Rounds {
					b.Rounds[k].Cfg.MaxStall = gen.Pick(r, int64(1e6), 1e9, 3600e9, 30*86400e9)
				}
				h = &History{Procs: []plan.Process{b.Process}, Note: note + ", long stalls"}
			} else {
				h = c.afterFailures(r, kinds)
				h.Procs[0].Sweep = i%8 == 0
			}
			_, _, err := c.Try(i, h)
			return err
		},
		Rule: "each run is a fresh process in which 2-24 callers parse, encode and decode while some are stalled for up to 30 days or frozen until nobody else can run, or in which hundreds of calls that fail at every stage come before and between concurrent ones; every call must return: no deadlock, no endless retry once the stalls are over and scheduling is fair, and at most 20 times the work the call needs alone; non-trivial: at least one preemption or fault struck inside a call",
		Real: realAll, Stubs: stubAll, Assume: assumeAll,
	})
	register(&Prop{
		ID: "C08", Title: "Finished calls leave nothing behind", Level: "exploration",
		Plain: true, Quick: 400, Thorough: 8000,
		Fresh: 15,
		Prepare: func(c *Campaign) (err error) {
			n, nf := 160, 8
			if c.E.Tier == "thorough" {
				n, nf = 900, 60
			}
			c.Pool, err = c.E.MakePool(gen.Derive(c.E.Seed, 108), n, nf, gen.Large, 250_000)
			return err
		},
		Judge: judgeLeak,
		One: func(c *Campaign, i int, r *gen.Rand) error {
			h, err := c.leakRun(r)
			if err != nil {
				return err
			}
			h.Procs[0].Sweep = i%4 == 0
			o, on, err := c.Try(i, h)
			if on {
				c.count("calls_in_memory_windows", leakCalls(h))
				_ = o
			}
			return err
		},
		Rule: "each run is a process that makes up to 4000 successful and failed parses, encodings and decodings, on sources and records that repeat or never repeat, with several callers or one, drops everything and measures live memory after a forced collection, several times over; no goroutine or timer may be left, no query or source that was dropped may stay alive, and memory must not grow from one of the last windows to the next; non-trivial: every run",
		Real: realAll, Stubs: stubAll,
		Assume: append([]string{"memory growth below 12 bytes per call is not seen", "a store that is bounded, but larger than one window of calls fills, would be reported"}, assumeAll...),
	})
}

// afterFailures is a history with many failing calls before and between
// concurrent ones.
func (c *Campaign) afterFailures(r *gen.Rand, kinds []int) *History {
	b := newProc()
	b.Zone = r.N(5)
	pl := c.draw(r)
	if len(pl.Bad) == 0 {
		pl = c.Pool
	}
	var few []*Src
	for k := 0; k < 1+r.N(6) && len(pl.Bad) > 0; k++ {
		few = append(few, pl.Bad[r.N(len(pl.Bad))])
	}
	var cuts []int
	for k := 0; k < 4; k++ {
		cuts = append(cuts, b.rec(cutRecord(r, pl.Good[r.N(len(pl.Good))])))
	}
	mode := r.N(5)
	cl, bad := pl.badClass(r)
	fail := func() (plan.Op, int64) {
		if mode == 4 && r.P(80) && len(bad) > 0 {
			s := bad[r.N(len(bad))]
			return plan.Op{K: plan.OpParse, S: b.source(s), Drop: true}, s.Steps + 10
		}
		if mode == 3 || r.P(15) {
			return plan.Op{K: plan.OpDecode, S: cuts[r.N(len(cuts))], Drop: true}, 200
		}
		s := pl.Bad[r.N(len(pl.Bad))]
		if mode == 0 || mode == 1 {
			s = few[r.N(len(few))]
		}
		return plan.Op{K: plan.OpParse, S: b.source(s), Drop: true}, s.Steps + 10
	}
	// First alone.
	var first plan.Round
	var ops []plan.Op
	var total int64
	for n := 20 + r.N(gen.Pick(r, 100, 400, 1500)); n > 0 && total < 4_000_000; n-- {
		op, st := fail()
		ops = append(ops, op)
		total += st
	}
	first.Tasks = []plan.Task{{Ops: ops}}
	first.Cfg = swarm(r, total+b.first, nil)
	first.Wall = wallTime(r)
	b.Rounds = append(b.Rounds, first)
	// Then together with others.
	for k := 0; k < 1+r.N(2); k++ {
		var round plan.Round
		total = 0
		nt := 2 + r.N(6)
		for t := 0; t < nt; t++ {
			var ops []plan.Op
			for j := 0; j < 2+r.N(12) && total < 400_000; j++ {
				if r.P(50) {
					op, st := fail()
					ops = append(ops, op)
					total += st
					continue
				}
				s := pl.Good[r.N(len(pl.Good))]
				if mode == 4 && cl != nil && r.P(50) {
					s = cl.Srcs[r.N(len(cl.Srcs))]
				} else if r.P(60) {
					s = pl.Cheap[r.N(len(pl.Cheap))]
				}
				var st int64
				ops, st = callsOf(b, r, s, ops, 50, 30)
				total += st
			}
			round.Tasks = append(round.Tasks, plan.Task{Ops: ops})
		}
		round.Cfg = swarm(r, total+b.first, kinds)
		if mode == 4 {
			c.aim(r, &round.Cfg, cl, total+b.first)
		}
		round.Wall = wallTime(r)
		b.Rounds = append(b.Rounds, round)
	}
	return &History{Procs: []plan.Process{b.Process}, Note: "concurrent calls after many failures"}
}

// Words of the language itself.
var reserved = map[string]bool{}

func init() {
	for _, w := range strings.Fields(`select from where order by group having offset limit for view reference update tracking viewstat
		asc desc nulls first last not and or like in includes excludes true false null infinity nan count count_distinct fields
		yesterday today tomorrow`) {
		reserved[w] = true
	}
}

var dateName = regexp.MustCompile(`(?i)^(last|next|this)_`)

// placeholders gives every name, string and comment in a source a part that each
// call replaces by a number of its own.
func placeholders(s string) string {
	var b strings.Builder
	word := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '$'
	}
	until := func(i int, end string) int {
		if k := strings.Index(s[i:], end); k >= 0 {
			return i + k + len(end)
		}
		return len(s)
	}
	for i := 0; i < len(s); {
		j := i + 1
		switch c := s[i]; {
		case c == '\'' || c == '"':
			for j < len(s) && s[j] != c {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			j++
			if j > len(s) {
				j = len(s)
			}
			b.WriteString(s[i:i+1] + "Zq0" + s[i+1:j])
		case strings.HasPrefix(s[i:], "--"):
			j = until(i, "\n")
			b.WriteString("--Zq0" + s[i+2:j])
		case strings.HasPrefix(s[i:], "/*"):
			j = until(i, "*/")
			b.WriteString("/*Zq0" + s[i+2:j])
		case c >= '0' && c <= '9':
			for j < len(s) && (word(s[j]) || s[j] == ':' || s[j] == '.' || s[j] == '-' || s[j] == '+') {
				j++
			}
			b.WriteString(s[i:j])
		case word(c):
			for j < len(s) && word(s[j]) {
				j++
			}
			b.WriteString(s[i:j])
			if w := strings.ToLower(s[i:j]); !reserved[w] && !dateName.MatchString(w) {
				b.WriteString("Zq0")
			}
		default:
			b.WriteByte(c)
		}
		i = j
	}
	return b.String()
}

// markRecord puts a placeholder into one of the texts of a record: a name, a
// value, an opcode, a date, a key.
func markRecord(r *gen.Rand, rec []byte) []byte {
	var at []int
	for i := 0; i < len(rec); i++ {
		if rec[i] != '"' {
			continue
		}
		at = append(at, i+1)
		for i++; i < len(rec) && rec[i] != '"'; i++ {
			if rec[i] == '\\' {
				i++
			}
		}
	}
	if len(at) == 0 {
		return rec
	}
	k := at[r.N(len(at))]
	out := append([]byte(nil), rec[:k]...)
	out = append(out, "Zq0"...)
	return append(out, rec[k:]...)
}

// leakRun makes a history of windows of calls, each followed by a measurement.
func (c *Campaign) leakRun(r *gen.Rand) (*History, error) {
	b := newProc()
	b.Zone = r.N(5)
	b.Leak = true
	pl := c.draw(r)
	uniq := r.P(75)
	nt := gen.Pick(r, 1, 1, 1, 3)
	mode := r.N(6)
	_, some := pl.some(r)
	note := "repeated calls"
	if uniq {
		note = "calls that never repeat"
	}
	var set []*Src
	for k := 0; k < 1+r.N(8); k++ {
		switch {
		case mode == 1 && len(pl.Bad) > 0:
			set = append(set, pl.Bad[r.N(len(pl.Bad))])
		case mode == 2:
			set = append(set, pl.Cheap[r.N(len(pl.Cheap))])
		case mode == 5:
			set = append(set, some())
		case len(pl.Long) > 0 && r.P(5):
			set = append(set, pl.Long[r.N(len(pl.Long))])
		default:
			set = append(set, pl.All[r.N(len(pl.All))])
		}
	}
	if mode == 1 {
		note += " and fail"
	}
	// Sources of a length of their own make calls ever longer: fewer of them.
	long := uniq && mode < 3 && r.P(25)
	if long {
		note += ", each longer than the one before"
	}
	marked := uniq && mode >= 3 && r.P(40)
	var marks [][]byte
	n := 0
	next := 2
	call := func() ([]plan.Op, int64, error) {
		s := set[n%len(set)]
		n++
		arg := 0
		if uniq {
			next++
			arg = next
		}
		rec := s.JSON
		if uniq && s.Rec != "" && mode >= 3 {
			// The record of the source that has the placeholders.
			ref, err := c.E.RefSource(placeholders(s.Text))
			if err != nil {
				return nil, 0, err
			}
			if rec = ref.JSON; !ref.OK() {
				rec = nil
			}
		}
		if marked && len(rec) > 0 && len(rec) < 20_000 {
			// Texts that no record has had, wrong ones among them.
			if len(marks) < 40 {
				marks = append(marks, markRecord(r, rec))
			}
			rec = marks[r.N(len(marks))]
		}
		if len(rec) > 0 && s.RRef.Err == "" && (mode == 3 || mode >= 4 && r.P(30)) {
			ops := []plan.Op{{K: plan.OpDecode, S: b.rec(base64.StdEncoding.EncodeToString(rec)), Arg: arg, Drop: true}}
			if r.P(40) {
				ops = append(ops, plan.Op{K: plan.OpEncode})
			}
			return append(ops, plan.Op{K: plan.OpDrop}), 2000, nil
		}
		text := s.Text
		if uniq {
			text = placeholders(text)
		}
		if long {
			text = gen.Pick(r, "/*Zl0*/", "-- Zl0\n") + text
			if n%2 == 0 {
				text = placeholders(s.Text) + " --Zl0"
			}
		}
		if s.First > b.first {
			b.first = s.First
		}
		ops := []plan.Op{{K: plan.OpParse, S: b.src(text), Arg: arg, Drop: true}}
		st := s.Steps + 20
		if r.P(30) {
			ops = append(ops, plan.Op{K: plan.OpEncode})
			st += s.EncSteps
		}
		return append(ops, plan.Op{K: plan.OpDrop}), st, nil
	}
	// The first window is there to build the grammar and fill what is bounded.
	windows, most, steps := 5, 900, int64(2_500_000)
	if long || r.P(20) {
		windows, most, steps = 16, 130, 700_000
	}
	for w := 0; w < windows; w++ {
		var round plan.Round
		var total int64
		round.Tasks = make([]plan.Task, nt)
		for k := 0; (k < most && total < steps) || k < 2*len(set); k++ {
			ops, st, err := call()
			if err != nil {
				return nil, err
			}
			if long {
				st += 4 * int64(next)
			}
			t := &round.Tasks[k%nt]
			t.Ops = append(t.Ops, ops...)
			total += st
		}
		round.Cfg = swarm(r, total+b.first, nil)
		if nt == 1 {
			round.Cfg.Policy = 0
		}
		round.Wall = wallTime(r)
		b.Rounds = append(b.Rounds, round)
		m := plan.Round{Tasks: []plan.Task{{Ops: []plan.Op{{K: plan.OpMem}}}}, Wall: round.Wall}
		m.Cfg = swarm(r, 100, nil)
		m.Cfg.Policy = 0
		b.Rounds = append(b.Rounds, m)
	}
	return &History{Procs: []plan.Process{b.Process}, Note: note}, nil
}

// leakCalls counts the calls of a history.
func leakCalls(h *History) (n int) {
	for _, p := range h.Procs {
		for _, r := range p.Rounds {
			n += roundCalls(r)
		}
	}
	return
}

func roundCalls(r plan.Round) (n int) {
	for _, t := range r.Tasks {
		for _, op := range t.Ops {
			if op.K != plan.OpDrop && op.K != plan.OpMem {
				n++
			}
		}
	}
	return
}

// Growth of live memory that counts as a leak: bytes per call, and in all.
const (
	leakPerCall = 12
	leakTotal   = 16384
)

// judgeLeak: C08.
func judgeLeak(e *Env, h *History, o *Outs) (*Finding, error) {
	if f := died(o); f != nil {
		return f, nil
	}
	if err := overflowed(o); err != nil {
		return nil, err
	}
	for pi, out := range o.Out {
		p := &h.Procs[pi]
		for ri, rr := range out.Rounds {
			if t := roundTrouble(rr); t != "" {
				return &Finding{Class: "no-return", Detail: fmt.Sprintf("round %d never ends: %s", ri, t)}, nil
			}
			if rr.LeftOver > 0 {
				return &Finding{Class: "goroutine", Detail: fmt.Sprintf("%d goroutines go on after all calls of round %d have returned", rr.LeftOver, ri)}, nil
			}
			if rr.LeftTimer > 0 {
				return &Finding{Class: "timer", Detail: fmt.Sprintf("%d timers are left after all calls of round %d have returned", rr.LeftTimer, ri)}, nil
			}
		}
		if out.EndGor > out.BaseGor {
			return &Finding{Class: "goroutine", Detail: fmt.Sprintf("%d goroutines before the first call, %d after the last", out.BaseGor, out.EndGor)}, nil
		}
		type point struct {
			heap  int64
			calls int // since the measurement before
		}
		var ms []point
		calls := 0
		byRound := map[int]*plan.OpResult{}
		for i := range out.Ops {
			if out.Ops[i].K == plan.OpMem && out.Ops[i].Done {
				byRound[out.Ops[i].Round] = &out.Ops[i]
			}
		}
		for ri := range out.Rounds {
			calls += roundCalls(p.Rounds[ri])
			op := byRound[ri]
			if op == nil {
				continue
			}
			if op.LiveQ > 0 {
				return &Finding{Class: "query-kept", Detail: fmt.Sprintf("%d of the queries dropped before round %d are still alive", op.LiveQ, ri)}, nil
			}
			if op.LiveS > 0 {
				return &Finding{Class: "source-kept", Detail: fmt.Sprintf("%d of the sources dropped before round %d are still alive", op.LiveS, ri)}, nil
			}
			ms = append(ms, point{op.Heap, calls})
			calls = 0
		}
		enough := len(ms) >= 5
		for _, m := range ms {
			enough = enough && m.calls >= 50
		}
		if !enough {
			continue // a minimised history proves nothing about growth
		}
		// Growth in each of the last three windows.
		series := ""
		for _, m := range ms {
			series += fmt.Sprintf(" %d bytes after %d more calls,", m.heap, m.calls)
		}
		least := int64(1) << 60
		var grown int64
		n := 0
		for _, k := range []int{len(ms) - 3, len(ms) - 2, len(ms) - 1} {
			g := ms[k].heap - ms[k-1].heap
			per := g / int64(ms[k].calls)
			if per < least {
				least = per
			}
			grown += g
			n += ms[k].calls
		}
		// Growth by leaps: the same again whenever the calls have doubled.
		if n := len(ms); n >= 12 {
			ok := true
			for k := n; k > n/4+1; k /= 2 {
				g, calls := ms[k-1].heap-ms[k/2-1].heap, 0
				for j := k / 2; j < k; j++ {
					calls += ms[j].calls
				}
				ok = ok && g >= leakPerCall*int64(calls) && g > leakTotal/2
			}
			if ok {
				return &Finding{Class: "growth", Noisy: true, Detail: "memory that nobody can drop grows whenever the number of calls doubles:" + strings.TrimSuffix(series, ",")}, nil
			}
		}
		if least >= leakPerCall && grown > leakTotal {
			return &Finding{Class: "growth", Noisy: true, Detail: fmt.Sprintf("memory that nobody can drop grew by %d bytes over the last %d calls (%d bytes per call):%s", grown, n, grown/int64(n), strings.TrimSuffix(series, ","))}, nil
		}
	}
	return nil, nil
}
