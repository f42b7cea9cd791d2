package orch

import (
	"fmt"
	"regexp"
	"strings"

	"verif/internal/gen"
	"verif/plan"
)

var (
	raceHead = regexp.MustCompile(`(?m)^(?:Previous |)(?i:read|write|atomic read|atomic write) at 0x`)
	raceAt   = regexp.MustCompile(`(?m)^  ((?:github\.com/shellyln|encoding/json|main|reflect|strings|sync|runtime|simrt|fmt|sort|strconv|time)\S*)\(`)
)

// raceSites names the library functions at the top of the first report.
func raceSites(text string) (string, bool) {
	first := text
	if i := strings.Index(text, "Goroutine "); i > 0 {
		first = text[:i]
	}
	lib := false
	var l []string
	for _, part := range raceHead.Split(first, -1)[1:] {
		m := raceAt.FindStringSubmatch(part)
		fn := "?"
		if m != nil {
			fn = m[1]
		}
		if strings.Contains(part, "shellyln/") {
			lib = true
			for _, m := range raceAt.FindAllStringSubmatch(part, -1) {
				if strings.Contains(m[1], "go-open-soql-parser") {
					if m[1] != fn {
						fn += " under " + m[1]
					}
					break
				}
			}
		}
		l = append(l, strings.ReplaceAll(fn, "github.com/shellyln/", ""))
	}
	return strings.Join(l, " and "), lib
}

func judgeRace(e *Env, h *History, o *Outs) (*Finding, error) {
	if err := overflowed(o); err != nil {
		return nil, err
	}
	if o.Death != nil && strings.Contains(o.Death.Text, "concurrent map") {
		return &Finding{Class: "race", Detail: "the process was killed by " + o.Death.Text}, nil
	}
	if len(o.Races) > 0 {
		s, lib := raceSites(o.Races[0])
		if !lib {
			return nil, fmt.Errorf("a race outside the library: %.3000s", o.Races[0])
		}
		return &Finding{Class: "race", Detail: "data race between " + s}, nil
	}
	for _, out := range o.Out {
		if out.Races > 0 {
			return nil, fmt.Errorf("%d races without a report", out.Races)
		}
	}
	return nil, nil
}

func init() {
	register(&Prop{
		ID: "C02", Title: "Concurrent calls contain no data race", Level: "exploration",
		Race: true, Quick: 3500, Thorough: 30000,
		Fresh: 10,
		Prepare: func(c *Campaign) (err error) {
			n, nf := 60, 12
			if c.E.Tier == "thorough" {
				n, nf = 500, 80
			}
			c.Pool, err = c.E.MakePool(gen.Derive(c.E.Seed, 102), n, nf, gen.Large, 400_000)
			return err
		},
		Judge: judgeRace,
		One: func(c *Campaign, i int, r *gen.Rand) error {
			kinds := []int{kStall, kGC, kFreeze, kZone}
			var h *History
			if i%5 == 4 {
				h = c.tangled(r, 40, 15, kinds)
			} else {
				b, note, _ := c.mixed(r, gen.Pick(r, int64(30_000), 100_000, 200_000, 400_000), 60, 25, kinds)
				h = &History{Procs: []plan.Process{b.Process}, Note: note}
			}
			h.Race = true
			h.Procs[0].Sweep = i%8 == 0
			h.Procs[0].NoPool = r.P(75)
			_, _, err := c.Try(i, h)
			return err
		},
		Rule: "each run is a fresh race-instrumented process in which 2-24 callers parse, encode and decode under a seeded scheduler that adds no happens-before edge of its own, so that every unsynchronised pair of accesses is a race whichever way the run interleaves it; non-trivial: at least one preemption or fault struck inside a call",
		Real: realAll, Stubs: stubAll,
		Assume: []string{"the race detector's shadow memory keeps a limited number of past accesses per word; the many short runs with different orders make up for that",
			"a clean run is evidence, not proof"},
	})
}
