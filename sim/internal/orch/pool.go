package orch

import (
	"encoding/base64"
	"fmt"
	"os"
	"sort"

	"verif/internal/gen"
	"verif/plan"
)

// Src is a source with its reference.
type Src struct {
	Text string
	*Ref
	Rec  string // its JSON, base64 (if it can be encoded and decoded)
	RRef *Ref   // reference of decoding it
}

// Pool is the set of sources a check draws from.
type Pool struct {
	All      []*Src
	Cheap    []*Src   // few steps
	Good     []*Src   // compile and can be encoded and decoded
	Bad      []*Src   // do not compile
	Families [][]*Src // sources that resemble each other
	Deep     []*Src
	Long     []*Src // more than a thousand bytes
	Classes  []*Class
	Excluded int
	light    *Pool
	Fresh    bool // of one run
}

// Class is a set of yield points that the same few sources pass: a part of the
// code that few sources exercise.
type Class struct {
	Sites []int32
	Srcs  []*Src
}

// classify finds the classes of the pool.
func (p *Pool) classify() {
	by := map[int][]int{}
	for i, s := range p.All {
		seen := map[int]bool{}
		l := s.Sites
		if s.RRef != nil {
			l = append(append([]int(nil), l...), s.RRef.Sites...)
		}
		for _, k := range l {
			if !seen[k] {
				seen[k] = true
				by[k] = append(by[k], i)
			}
		}
	}
	var sites []int
	for k := range by {
		sites = append(sites, k)
	}
	sort.Ints(sites)
	cl := map[string]*Class{}
	p.Classes = nil
	for _, k := range sites {
		if len(by[k]) > len(p.All)*6/10 {
			continue
		}
		key := fmt.Sprint(by[k])
		c := cl[key]
		if c == nil {
			c = &Class{}
			for _, i := range by[k] {
				c.Srcs = append(c.Srcs, p.All[i])
			}
			cl[key] = c
			p.Classes = append(p.Classes, c)
		}
		c.Sites = append(c.Sites, int32(k))
	}
}

// class draws a class, or nil.
func (p *Pool) class(r *gen.Rand) *Class {
	if len(p.Classes) == 0 {
		return nil
	}
	return p.Classes[r.N(len(p.Classes))]
}

// badClass draws a class with sources that fail, and those.
func (p *Pool) badClass(r *gen.Rand) (*Class, []*Src) {
	for k := 0; k < 30; k++ {
		cl := p.class(r)
		if cl == nil {
			break
		}
		var l []*Src
		for _, s := range cl.Srcs {
			if s.Err != "" || s.Panic != "" {
				l = append(l, s)
			}
		}
		if len(l) > 0 {
			return cl, l
		}
	}
	return nil, p.Bad
}

// some draws a way to draw sources: from one class mostly.
func (p *Pool) some(r *gen.Rand) (*Class, func() *Src) {
	cl := p.class(r)
	if cl == nil {
		return nil, func() *Src { return p.All[r.N(len(p.All))] }
	}
	return cl, func() *Src {
		if r.P(80) {
			return cl.Srcs[r.N(len(cl.Srcs))]
		}
		return p.All[r.N(len(p.All))]
	}
}

// aim makes a configuration preempt at the sites of a class, or at sites that
// touch package-level variables.
func (c *Campaign) aim(r *gen.Rand, cfg *plan.Cfg, cl *Class, total int64) {
	var l []int32
	groups := c.shared()
	switch {
	case cl != nil && r.P(45):
		l = cl.Sites
	case len(groups) > 0 && r.P(50):
		for k := gen.Pick(r, 1, 1, 1, 2, 4); k > 0; k-- {
			l = append(l, groups[r.N(len(groups))]...)
		}
	case len(groups) > 0 && r.P(30):
		for _, g := range groups {
			l = append(l, g...)
		}
	}
	if len(l) == 0 {
		return
	}
	cfg.Policy = 4
	cfg.HotMod = 0
	cfg.HotList = l
	cfg.HotFreeze = gen.Pick(r, int64(0), 0, 3, 10, 40)
	cfg.Gap = gen.Pick(r, int64(200), 2000, 20000)
	if total > 400_000 && cfg.Gap < 1000 {
		cfg.Gap = 2000
	}
}

// shared are the sites that touch package-level variables of the library and
// that sources of the pool pass, by variable.
func (c *Campaign) shared() [][]int32 {
	c.sharedOnce.Do(func() {
		hit := map[int]bool{}
		for _, s := range c.Pool.All {
			for _, k := range s.Sites {
				hit[k] = true
			}
			if s.RRef != nil {
				for _, k := range s.RRef.Sites {
					hit[k] = true
				}
			}
		}
		by := map[string][]int32{}
		for i, s := range c.E.W.Sites {
			if s.Mod != "repo" || !hit[i] {
				continue
			}
			for _, v := range s.Vars {
				if l := by[v]; len(l) == 0 || l[len(l)-1] != int32(i) {
					by[v] = append(by[v], int32(i))
				}
			}
		}
		var names []string
		for v := range by {
			names = append(names, v)
		}
		sort.Strings(names)
		for _, v := range names {
			c.sharedSites = append(c.sharedSites, by[v])
			on := map[int]bool{}
			for _, k := range by[v] {
				on[int(k)] = true
			}
			var l []*Src
			for _, s := range c.Pool.All {
				if s.touches(on) {
					l = append(l, s)
				}
			}
			sort.SliceStable(l, func(i, j int) bool { return l[i].Steps+l[i].EncSteps < l[j].Steps+l[j].EncSteps })
			c.sharedSrcs = append(c.sharedSrcs, l)
		}
		if os.Getenv("VERIF_DEBUG") != "" {
			for _, v := range names {
				fmt.Fprintln(os.Stderr, v, len(by[v]))
			}
		}
	})
	return c.sharedSites
}

func (s *Src) touches(on map[int]bool) bool {
	for _, k := range s.Sites {
		if on[k] {
			return true
		}
	}
	if s.RRef != nil {
		for _, k := range s.RRef.Sites {
			if on[k] {
				return true
			}
		}
	}
	return false
}

// draw gives most runs only the sources that need little grammar, because
// building much of it takes most of a run's steps.
func (p *Pool) draw(r *gen.Rand) *Pool {
	if p.light == nil || r.P(22) {
		return p
	}
	return p.light
}

func (p *Pool) lighten() {
	keep := func(l []*Src) (out []*Src) {
		for _, s := range l {
			if s.First <= lightFirst {
				out = append(out, s)
			}
		}
		return
	}
	q := &Pool{All: keep(p.All), Cheap: keep(p.Cheap), Good: keep(p.Good), Bad: keep(p.Bad), Deep: keep(p.Deep), Long: keep(p.Long)}
	for _, f := range p.Families {
		if g := keep(f); len(g) > 1 {
			q.Families = append(q.Families, g)
		}
	}
	q.classify()
	if len(q.All) > 0 && len(q.Cheap) > 0 && len(q.Good) > 0 && len(q.Families) > 0 {
		p.light = q
	}
}

// First calls that need more grammar than this are left to fewer runs.
const lightFirst = 430_000
const maxFirst = 5_000_000

// MakePool generates nf families and n other sources and computes their
// references. Sources that need more than maxSteps steps, or more than maxFirst
// when they come first, are left out.
func (e *Env) MakePool(r *gen.Rand, n, nf, maxSize int, maxSteps int64) (*Pool, error) {
	p := &Pool{}
	var texts []string
	fam := map[int]int{}
	deep := map[int]bool{}
	for f := 0; f < nf; f++ {
		for _, s := range gen.Family(r, 3+r.N(6)) {
			fam[len(texts)] = f + 1
			texts = append(texts, s)
		}
	}
	for d := 0; d < 8; d++ {
		for k := 0; k < 2+n/100; k++ {
			deep[len(texts)] = true
			texts = append(texts, gen.Deep(r, d, 2+r.N(9)))
		}
	}
	for i := 0; i < n; i++ {
		texts = append(texts, gen.Source(r, maxSize))
	}
	texts = append(texts, gen.Features(r, 1+(n+99)/150)...)
	for k := 0; k < 6+n/40; k++ {
		texts = append(texts, gen.Long(r, gen.Pick(r, 300, 1100, 1100, 2100, 4200, 4200, 9000)))
	}
	for d := 0; d < 8; d++ { // deeper than most limits and buffers
		for k := 0; k < 1+n/400; k++ {
			deep[len(texts)] = true
			n := 33 + r.N(70)
			if d == 3 {
				n = 9 + r.N(16) // the JSON form grows with the square
			}
			texts = append(texts, gen.Deep(r, d, n))
		}
	}
	srcs := make([]*Src, len(texts))
	err := e.each(len(texts), func(i int) (err error) {
		srcs[i], err = e.src(texts[i])
		return err
	})
	if err != nil {
		return nil, err
	}
	p.Families = make([][]*Src, nf)
	seen := map[string]bool{}
	for i, s := range srcs {
		if s.Dead || s.Steps+s.EncSteps > maxSteps || s.First > maxFirst || (s.RRef != nil && s.RRef.Dead) {
			p.Excluded++
			continue
		}
		if f := fam[i]; f > 0 {
			p.Families[f-1] = append(p.Families[f-1], s)
		}
		if seen[s.Text] {
			continue
		}
		seen[s.Text] = true
		p.All = append(p.All, s)
		if len(s.Text) > 1000 {
			p.Long = append(p.Long, s)
		}
		if deep[i] {
			p.Deep = append(p.Deep, s)
		}
		if s.OK() && s.RRef.Err == "" && s.RRef.Panic == "" {
			p.Good = append(p.Good, s)
		}
		if s.Err != "" || s.Panic != "" {
			p.Bad = append(p.Bad, s)
		}
	}
	var fs [][]*Src
	for _, f := range p.Families {
		if len(f) > 1 {
			fs = append(fs, f)
		}
	}
	p.Families = fs
	by := append([]*Src(nil), p.All...)
	sort.SliceStable(by, func(i, j int) bool { return by[i].Steps < by[j].Steps })
	p.Cheap = by[:(len(by)+2)/3]
	p.classify()
	p.lighten()
	return p, nil
}

// src computes the references of a source.
func (e *Env) src(text string) (*Src, error) {
	ref, err := e.RefSource(text)
	if err != nil {
		return nil, err
	}
	s := &Src{Text: text, Ref: ref}
	if ref.OK() {
		s.Rec = base64.StdEncoding.EncodeToString(ref.JSON)
		s.RRef, err = e.RefRecord(s.Rec)
	}
	return s, err
}

// draw gives the sources of a run: those of the pool mostly, or a few that no
// other run has, so that what is explored grows with the number of runs.
func (c *Campaign) draw(r *gen.Rand) *Pool {
	if !r.P(c.P.Fresh) {
		return c.Pool.draw(r)
	}
	p := &Pool{Fresh: true}
	var texts []string
	n := 3 + r.N(3)
	for k := 0; k < n; k++ {
		texts = append(texts, gen.Feature(r))
	}
	if r.P(30) {
		texts = append(texts, gen.Source(r, gen.Small))
	}
	if r.P(40) {
		texts = append(texts, gen.Edges(r))
	}
	if r.P(30) {
		texts = append(texts, gen.Family(r, gen.Pick(r, 2, 2, 4))...)
	}
	if r.P(10) {
		texts = append(texts, gen.Deep(r, gen.Pick(r, 0, 1, 4, 6, 7), 10+r.N(70)))
	}
	seen := map[string]bool{}
	for _, t := range texts {
		if seen[t] {
			continue
		}
		seen[t] = true
		s, err := c.E.src(t)
		if err != nil {
			return c.Pool.draw(r) // what is wrong shows in the run itself
		}
		if s.Dead || s.Steps+s.EncSteps > freshSteps || s.First > lightFirst || s.RRef != nil && s.RRef.Dead {
			continue
		}
		if c.P.Usable != nil && !c.P.Usable(s) {
			continue
		}
		p.All = append(p.All, s)
		if s.OK() && s.RRef.Err == "" && s.RRef.Panic == "" {
			p.Good = append(p.Good, s)
		}
		if s.Err != "" || s.Panic != "" {
			p.Bad = append(p.Bad, s)
		}
	}
	if len(p.Good) == 0 {
		return c.Pool.draw(r)
	}
	p.Cheap = p.All
	p.Families = [][]*Src{p.All}
	return p
}

// compiles: the source gives a query.
func (s *Src) compiles() bool { return s.Err == "" && s.Panic == "" }

// small: so is its record.
func (s *Src) small() bool { return len(s.JSON) < 60_000 }

// freshSteps bounds the sources of a run of its own.
const freshSteps = 60_000

// procB builds a process.
type procB struct {
	plan.Process
	si, ri map[string]int
	first  int64 // steps for building the grammar that the sources need
}

func newProc() *procB { return &procB{si: map[string]int{}, ri: map[string]int{}} }

func (b *procB) src(s string) int {
	if i, ok := b.si[s]; ok {
		return i
	}
	i := len(b.Sources)
	b.si[s] = i
	b.Sources = append(b.Sources, s)
	return i
}

func (b *procB) source(s *Src) int {
	if s.First > b.first {
		b.first = s.First
	}
	return b.src(s.Text)
}

func (b *procB) rec(s string) int {
	if i, ok := b.ri[s]; ok {
		return i
	}
	i := len(b.Records)
	b.ri[s] = i
	b.Records = append(b.Records, s)
	return i
}

// Decision kinds the generator enables.
const (
	kStall  = 2
	kGC     = 3
	kWall   = 4
	kZone   = 5
	kReseed = 6
	kFreeze = 8
)

// swarm draws a configuration: policy, rates and the enabled subset of faults.
// total is the number of steps the tasks need alone.
func swarm(r *gen.Rand, total int64, kinds []int) plan.Cfg {
	c := plan.Cfg{Seed: r.U64() >> 1, StepCost: gen.Pick(r, int64(1), 50, 50, 1000), DrainSteps: 200_000}
	switch r.N(10) {
	case 0, 1, 2, 3:
		c.Policy = 1
		c.Gap = gen.Pick(r, int64(2), 7, 30, 150, 700, 3000, 15000)
	case 4, 5:
		c.Policy = 2
		c.ChangePts = 1 + r.N(20)
		c.EstSteps = total
	case 6:
		c.Policy = 3
		c.Gap = gen.Pick(r, int64(1), 3, 20, 200, 2000)
	default:
		c.Policy = 4
		c.HotMod = uint64(gen.Pick(r, 3, 10, 40, 150, 500))
		c.Gap = gen.Pick(r, int64(200), 2000, 20000)
	}
	// Switching at every other step makes a run of millions of decisions;
	// spend those on short runs only.
	if total > 400_000 && (c.Gap < 30 && (c.Policy == 1 || c.Policy == 3)) {
		c.Gap = 60
	}
	if len(kinds) > 0 && r.P(70) {
		n := 1 + r.N(len(kinds))
		l := append([]int(nil), kinds...)
		gen.Shuffle(r, l)
		c.Faults = l[:n]
		c.FaultGap = gen.Pick(r, int64(300), 2000, 10000, 50000)
		if c.FaultGap*200 < total {
			c.FaultGap = total / 200
		}
		c.MaxStall = gen.Pick(r, int64(1e6), 1e9, 3600e9)
	}
	bounds(&c, total)
	return c
}

// bounds sets the step bounds from the steps the tasks need alone.
func bounds(c *plan.Cfg, total int64) {
	c.StepBound = total*3 + 6_000_000
	c.FairBound = total*20 + 20_000_000
}

// wallTime draws a wall-clock reading.
func wallTime(r *gen.Rand) int64 {
	switch r.N(6) {
	case 0:
		return int64(r.N(4_000_000_000)) * 1_000_000_000
	case 1: // around midnight, month and year ends, in every zone
		base := gen.Pick(r, int64(1704067200), 1709251200, 951782400, 4102444800, 2147483648, 1735689600)
		return (base+int64(r.N(100000))-50000)*1_000_000_000 + int64(r.N(1_000_000_000))
	case 2:
		return -int64(r.N(2_000_000_000)) * 1_000_000_000
	}
	return (1_600_000_000+int64(r.N(300_000_000)))*1_000_000_000 + int64(r.N(1_000_000_000))
}
