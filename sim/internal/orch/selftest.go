package orch

import (
	"encoding/json"
	"fmt"
	"sync/atomic"

	"verif/internal/gen"
	"verif/plan"
)

// Repeatable shows that one seed is one execution: it plans n histories as the
// checks do, executes each twice, and a third time with its scheduling decisions
// given explicitly instead of drawn from the seed.
func Repeatable(e *Env, n int) (int, error) {
	if err := e.Setup(true, true); err != nil {
		return 2, err
	}
	defer e.Close()
	c := &Campaign{E: e, P: Props["C01"], ops: map[string]int{}, diskF: map[string]int{}, other: map[string]int{}, distinct: map[string]bool{},
		sites: map[int]bool{}, cut: map[int]bool{}, extra: map[string]int{}}
	var err error
	if c.Pool, err = e.MakePool(gen.Derive(e.Seed, 199), 90, 10, gen.Large, 400_000); err != nil {
		return 2, err
	}
	text := func(h *History) (string, *Outs, error) {
		o, err := e.Run(h)
		if err != nil {
			return "", nil, err
		}
		if o.Death != nil {
			return "", nil, fmt.Errorf("the process died: %s", o.Death.Text)
		}
		s := ""
		for _, out := range o.Out {
			cp := *out
			cp.BaseGor, cp.EndGor = 0, 0
			b, err := json.Marshal(&cp)
			if err != nil {
				return "", nil, err
			}
			s += string(b)
		}
		return s, o, nil
	}
	var explicit, decisions atomic.Int64
	err = e.each(n, func(i int) error {
		r := gen.Derive(e.Seed*77, uint64(i)+1)
		b, _, _ := c.mixed(r, budget(r), 60, 40, []int{kStall, kWall, kZone, kGC, kReseed, kFreeze})
		h := &History{Procs: []plan.Process{b.Process}, Race: i%5 == 4}
		s1, o, err := text(h)
		if err != nil {
			return err
		}
		s2, _, err := text(h)
		if err != nil {
			return err
		}
		if s1 != s2 {
			return fmt.Errorf("history %d: two executions differ: %s", i, diffText(s1, s2))
		}
		if len(o.Out) < len(h.Procs) {
			return nil
		}
		x := clone(h)
		for pi, out := range o.Out {
			for ri, rr := range out.Rounds {
				if rr.DecLost > 0 {
					return nil
				}
				decisions.Add(int64(len(rr.Decisions)))
				x.Procs[pi].Rounds[ri].Cfg.Explicit = true
				x.Procs[pi].Rounds[ri].Cfg.Decisions = rr.Decisions
			}
		}
		_, o3, err := text(x)
		if err != nil {
			return err
		}
		if !same(hashes(o), hashes(o3)) {
			for pi := range o.Out {
				for ri, rr := range o.Out[pi].Rounds {
					if pi >= len(o3.Out) || ri >= len(o3.Out[pi].Rounds) {
						return fmt.Errorf("history %d: replaying its decisions stops early", i)
					}
					b, _ := json.Marshal(rr.Decisions)
					b3, _ := json.Marshal(o3.Out[pi].Rounds[ri].Decisions)
					if string(b) != string(b3) {
						return fmt.Errorf("history %d round %d: replaying its decisions gives another schedule: %s", i, ri, diffText(string(b), string(b3)))
					}
				}
			}
			return fmt.Errorf("history %d: replaying its decisions gives another schedule", i)
		}
		for pi := range o.Out {
			for k := range o.Out[pi].Ops {
				a, b := o.Out[pi].Ops[k], o3.Out[pi].Ops[k]
				if a.Digest != b.Digest || a.Err != b.Err || a.Steps != b.Steps {
					return fmt.Errorf("history %d: replaying its decisions gives another result", i)
				}
			}
		}
		explicit.Add(1)
		return nil
	})
	if err != nil {
		return 1, err
	}
	fmt.Printf("%d histories executed twice with identical outcomes; %d of them also from their %d recorded decisions\n", n, explicit.Load(), decisions.Load())
	return 0, nil
}

func diffText(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 80
	if lo < 0 {
		lo = 0
	}
	return fmt.Sprintf("%.160s | %.160s", a[lo:], b[lo:])
}
