package orch

import (
	"encoding/json"
	"math/bits"
	"time"

	"verif/plan"
)

func clone(h *History) *History {
	b, err := json.Marshal(h)
	if err != nil {
		panic(err)
	}
	n := &History{}
	if err := json.Unmarshal(b, n); err != nil {
		panic(err)
	}
	return n
}

type minimiser struct {
	e    *Env
	p    *Prop
	cls  string
	best *History
	out  *Outs
	f    *Finding
	end  time.Time
	n    int
}

func (m *minimiser) over() bool { return m.n <= 0 || time.Now().After(m.end) }

// try executes a candidate and keeps it if it still violates the property in
// the same way.
func (m *minimiser) try(h *History) bool {
	if m.over() {
		return false
	}
	m.n--
	o, err := m.e.Run(h)
	if err != nil {
		return false
	}
	f, err := m.p.Judge(m.e, h, o)
	if err != nil || f == nil || f.Class != m.cls {
		return false
	}
	m.best, m.out, m.f = h, o, f
	return true
}

// seeded tries a candidate under its own seed and a few others.
func (m *minimiser) seeded(h *History) bool {
	for s := uint64(0); s < 3; s++ {
		if s > 0 {
			h = clone(h)
			for i := range h.Procs {
				for j := range h.Procs[i].Rounds {
					if c := &h.Procs[i].Rounds[j].Cfg; !c.Explicit {
						c.Seed += s * 7919
					}
				}
			}
		}
		if m.try(h) {
			return true
		}
	}
	return false
}

func (e *Env) minimise(p *Prop, fl *failure) (*History, *Outs, *Finding) {
	m := &minimiser{e: e, p: p, cls: fl.f.Class, best: fl.h, out: fl.o, f: fl.f, end: time.Now().Add(40 * time.Second), n: 400}
	if e.Tier == "thorough" {
		m.end = time.Now().Add(120 * time.Second)
		m.n = 2000
	}
	for pass := 0; pass < 3; pass++ {
		before := size(m.best)
		m.dropProcs()
		m.dropRounds()
		m.dropTasks()
		m.dropLoops()
		m.shallow()
		m.dropOps()
		m.calm()
		m.sameHost()
		if size(m.best) >= before || m.over() {
			break
		}
	}
	m.compact()
	m.explicit()
	return m.best, m.out, m.f
}

func size(h *History) int {
	n := 0
	for _, p := range h.Procs {
		n += 100
		for _, r := range p.Rounds {
			n += 10 + len(r.Cfg.Decisions)
			for _, t := range r.Tasks {
				n += 3 + len(t.Ops) + bits.Len(uint(t.Loop))
			}
		}
	}
	return n
}

func (m *minimiser) dropProcs() {
	for i := 0; i < len(m.best.Procs) && len(m.best.Procs) > 1 && !m.over(); {
		h := clone(m.best)
		h.Procs = append(h.Procs[:i], h.Procs[i+1:]...)
		if !m.seeded(h) {
			i++
		}
	}
}

func (m *minimiser) dropRounds() {
	for pi := range m.best.Procs {
		for i := 0; i < len(m.best.Procs[pi].Rounds) && len(m.best.Procs[pi].Rounds) > 1 && !m.over(); {
			h := clone(m.best)
			p := &h.Procs[pi]
			p.Rounds = append(p.Rounds[:i], p.Rounds[i+1:]...)
			if !m.seeded(h) {
				i++
			}
		}
	}
}

func (m *minimiser) dropTasks() {
	for pi := range m.best.Procs {
		for ri := range m.best.Procs[pi].Rounds {
			for i := 0; i < len(m.best.Procs[pi].Rounds[ri].Tasks) && len(m.best.Procs[pi].Rounds[ri].Tasks) > 1 && !m.over(); {
				h := clone(m.best)
				r := &h.Procs[pi].Rounds[ri]
				r.Tasks = append(r.Tasks[:i], r.Tasks[i+1:]...)
				if !m.seeded(h) {
					i++
				}
			}
		}
	}
}

// sameHost moves processes to the plain host.
func (m *minimiser) sameHost() {
	for pi := range m.best.Procs {
		if m.best.Procs[pi].Host != 0 && !m.over() {
			h := clone(m.best)
			h.Procs[pi].Host = 0
			m.seeded(h)
		}
	}
}

// shallow takes the callers out of their recursions.
func (m *minimiser) shallow() {
	for pi := range m.best.Procs {
		for ri := range m.best.Procs[pi].Rounds {
			for ti := range m.best.Procs[pi].Rounds[ri].Tasks {
				if m.best.Procs[pi].Rounds[ri].Tasks[ti].Deep != 0 && !m.over() {
					h := clone(m.best)
					h.Procs[pi].Rounds[ri].Tasks[ti].Deep = 0
					m.try(h)
				}
			}
		}
	}
}

// dropLoops makes tasks repeat their operations less often.
func (m *minimiser) dropLoops() {
	for pi := range m.best.Procs {
		for ri := range m.best.Procs[pi].Rounds {
			for ti := range m.best.Procs[pi].Rounds[ri].Tasks {
				get := func() int { return m.best.Procs[pi].Rounds[ri].Tasks[ti].Loop }
				set := func(n int) bool {
					h := clone(m.best)
					h.Procs[pi].Rounds[ri].Tasks[ti].Loop = n
					return m.try(h)
				}
				if get() < 2 || set(0) {
					continue
				}
				lo := 1 // too few
				for k := 0; k < 12 && get()-lo > 1+lo/20 && !m.over(); k++ {
					if n := (lo + get()) / 2; !set(n) {
						lo = n
					}
				}
			}
		}
	}
}

// dropOps removes operations, first in large chunks.
func (m *minimiser) dropOps() {
	for pi := range m.best.Procs {
		for ri := range m.best.Procs[pi].Rounds {
			for ti := range m.best.Procs[pi].Rounds[ri].Tasks {
				chunk := len(m.best.Procs[pi].Rounds[ri].Tasks[ti].Ops) / 2
				for chunk >= 1 && !m.over() {
					for i := 0; !m.over(); {
						ops := m.best.Procs[pi].Rounds[ri].Tasks[ti].Ops
						if i >= len(ops) || len(ops) <= 1 {
							break
						}
						j := i + chunk
						if j > len(ops) {
							j = len(ops)
						}
						if j-i == len(ops) {
							break
						}
						h := clone(m.best)
						t := &h.Procs[pi].Rounds[ri].Tasks[ti]
						t.Ops = append(t.Ops[:i], t.Ops[j:]...)
						if !m.seeded(h) {
							i = j
						}
					}
					chunk /= 2
				}
			}
		}
	}
}

// calm removes fault kinds and makes preemptions rarer.
func (m *minimiser) calm() {
	for pi := range m.best.Procs {
		for ri := range m.best.Procs[pi].Rounds {
			c := m.best.Procs[pi].Rounds[ri].Cfg
			if c.FaultGap > 0 {
				h := clone(m.best)
				h.Procs[pi].Rounds[ri].Cfg.FaultGap = 0
				h.Procs[pi].Rounds[ri].Cfg.Faults = nil
				if !m.try(h) {
					kinds := map[int]bool{}
					for _, k := range c.Faults {
						kinds[k] = true
					}
					for k := 0; k < 10; k++ {
						if !kinds[k] || m.over() {
							continue
						}
						h := clone(m.best)
						cc := &h.Procs[pi].Rounds[ri].Cfg
						var l []int
						for _, x := range cc.Faults {
							if x != k {
								l = append(l, x)
							}
						}
						cc.Faults = l
						m.try(h)
					}
				}
			}
			if c.Policy != 0 {
				h := clone(m.best)
				h.Procs[pi].Rounds[ri].Cfg.Policy = 0
				m.try(h)
			}
		}
	}
}

// compact removes sources and records nobody uses.
func (m *minimiser) compact() {
	h := clone(m.best)
	for pi := range h.Procs {
		p := &h.Procs[pi]
		src, rec := map[int]int{}, map[int]int{}
		var ss, rr []string
		use := func(m map[int]int, l []string, out *[]string, i int) int {
			if n, ok := m[i]; ok {
				return n
			}
			n := len(*out)
			m[i] = n
			*out = append(*out, l[i])
			return n
		}
		for i := range p.Shared {
			p.Shared[i] = use(src, p.Sources, &ss, p.Shared[i])
		}
		for ri := range p.Rounds {
			for ti := range p.Rounds[ri].Tasks {
				for oi := range p.Rounds[ri].Tasks[ti].Ops {
					op := &p.Rounds[ri].Tasks[ti].Ops[oi]
					switch op.K {
					case plan.OpParse, plan.OpStore, plan.OpCall:
						op.S = use(src, p.Sources, &ss, op.S)
					case plan.OpDecode:
						op.S = use(rec, p.Records, &rr, op.S)
					}
				}
			}
		}
		p.Sources, p.Records = ss, rr
	}
	m.n++
	m.try(h)
}

// explicit replaces the seeds by the decisions they led to and removes as many
// of those as it can.
func (m *minimiser) explicit() {
	h := clone(m.best)
	for pi, out := range m.out.Out {
		for ri, r := range out.Rounds {
			if r.DecLost > 0 {
				return
			}
			c := &h.Procs[pi].Rounds[ri].Cfg
			if !c.Explicit {
				c.Explicit = true
				c.Decisions = r.Decisions
			}
		}
	}
	if len(m.out.Out) < len(h.Procs) {
		return // the last process died and could not report its decisions
	}
	m.n++
	if !m.try(h) {
		return
	}
	for pi := range m.best.Procs {
		for ri := range m.best.Procs[pi].Rounds {
			get := func() []plan.Decision { return m.best.Procs[pi].Rounds[ri].Cfg.Decisions }
			if len(get()) > 0 {
				h := clone(m.best)
				h.Procs[pi].Rounds[ri].Cfg.Decisions = nil
				if m.try(h) {
					continue
				}
			}
			for chunk := (len(get()) + 1) / 2; chunk >= 1 && !m.over(); chunk /= 2 {
				for i := 0; i < len(get()) && !m.over(); {
					ds := get()
					j := i + chunk
					if j > len(ds) {
						j = len(ds)
					}
					h := clone(m.best)
					nd := append([]plan.Decision(nil), ds[:i]...)
					h.Procs[pi].Rounds[ri].Cfg.Decisions = append(nd, ds[j:]...)
					if !m.try(h) {
						i = j
					}
				}
			}
		}
	}
}
