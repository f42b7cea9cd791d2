package orch

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/internal/gen"
	"verif/plan"
)

// A call on a page takes milliseconds; this long without any sign of life is
// a call that does not return.
const pageStall = 60 * time.Second

const pagesPerHost = 60

// pageHost runs pages, one after the other.
type pageHost struct {
	cmd    *exec.Cmd
	cancel context.CancelFunc
	in     io.WriteCloser
	out    *bufio.Reader
	last   atomic.Int64
	mu     sync.Mutex
	text   bytes.Buffer
	pages  int
}

func (a *pageHost) Write(p []byte) (int, error) {
	a.last.Store(time.Now().UnixNano())
	a.mu.Lock()
	if a.text.Len() < 1<<16 {
		a.text.Write(bytes.ReplaceAll(p, []byte("."), nil))
	}
	a.mu.Unlock()
	return len(p), nil
}

func (e *Env) newPageHost() (*pageHost, error) {
	a := &pageHost{}
	ctx, cancel := context.WithCancel(context.Background())
	c := exec.CommandContext(ctx, "node", filepath.Join(e.Verif, "page", "page.mjs"), e.W.Wasm, e.glue)
	c.WaitDelay = 5 * time.Second
	c.Env = []string{"HOME=/nonexistent", "PATH=/usr/local/bin:/usr/bin:/bin"}
	c.Stderr = a
	a.cmd, a.cancel = c, cancel
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	a.in, a.out = in, bufio.NewReaderSize(out, 1<<16)
	return a, c.Start()
}

func (a *pageHost) stop() {
	a.cancel()
	a.cmd.Wait()
}

// run returns the outcome of the plan, or whether the page hung.
func (a *pageHost) run(in []byte) (line []byte, hung bool, err error) {
	done := make(chan struct{})
	defer close(done)
	var stuck atomic.Bool
	a.last.Store(time.Now().UnixNano())
	go func() {
		t := time.NewTicker(time.Second)
		defer t.Stop()
		for {
			select {
			case <-done:
				return
			case <-t.C:
				if time.Now().UnixNano()-a.last.Load() > int64(pageStall) {
					stuck.Store(true)
					a.cancel()
					return
				}
			}
		}
	}()
	if _, err = a.in.Write(append(in, '\n')); err == nil {
		line, err = a.out.ReadBytes('\n')
	}
	return line, stuck.Load(), err
}

// execPage runs a page.
func (e *Env) execPage(p *plan.Process) (*plan.Outcome, *Death, error) {
	in, err := json.Marshal(p)
	if err != nil {
		return nil, nil, err
	}
	for try := 0; ; try++ {
		e.processes.Add(1)
		var a *pageHost
		e.mu.Lock()
		if n := len(e.pages); n > 0 && try == 0 {
			a, e.pages = e.pages[n-1], e.pages[:n-1]
		}
		e.mu.Unlock()
		if a == nil {
			if a, err = e.newPageHost(); err != nil {
				return nil, nil, err
			}
		}
		line, hung, err := a.run(in)
		if err == nil {
			o := &plan.Outcome{}
			if err := json.Unmarshal(line, o); err != nil {
				return nil, nil, fmt.Errorf("page output: %v: %.300s", err, line)
			}
			if a.pages++; a.pages >= pagesPerHost {
				a.stop()
			} else {
				e.mu.Lock()
				e.pages = append(e.pages, a)
				e.mu.Unlock()
			}
			return o, nil, nil
		}
		a.stop()
		if try == 0 {
			e.restarts.Add(1)
			continue
		}
		if hung {
			return nil, &Death{Text: fmt.Sprintf("a call does not return: no event completes within %v", pageStall), Lib: true}, nil
		}
		return nil, nil, fmt.Errorf("simulated page failed: %v: %.2000s", err, a.text.String())
	}
}

// Argument kinds that pass the source as text.
func plainArg(k int) bool { return k == 0 || k == 1 || k == 13 || k == 24 }

// pageText is what the module must answer for a source, and whether the
// library's reference tells.
func pageText(ref *Ref) (string, bool) {
	switch {
	case ref.Dead || ref.Panic != "":
		return "", false
	case ref.Err != "":
		return ref.Err, true
	case ref.EncErr != "":
		return ref.EncErr, !strings.HasPrefix(ref.EncErr, "panic: ")
	}
	var b bytes.Buffer
	if json.Indent(&b, ref.JSON, "", "  ") != nil {
		return "", false
	}
	s := b.String()
	at := strings.LastIndex(s, "\n  \"meta\": {\n")
	if at < 0 {
		return s, true
	}
	var l []string
	for _, x := range strings.Split(s[at:], "\n") {
		if !strings.HasPrefix(x, "    \"date\": \"") && !strings.HasPrefix(x, "    \"elapsedTime\": ") {
			l = append(l, x)
		}
	}
	return s[:at] + strings.Join(l, "\n"), true
}

func pageDigest(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:])[:24]
}

// pageRef is what one call gives in a page of its own.
func (e *Env) pageRef(k string, arg int, src string) (*Ref, error) {
	key := fmt.Sprintf("p%s %d %s", k, arg, src)
	e.mu.Lock()
	r := e.refs[key]
	e.mu.Unlock()
	if r != nil {
		return r, nil
	}
	p := &plan.Process{Page: true, Sources: []string{src}, Rounds: []plan.Round{{Cfg: plan.Cfg{Seed: 99, StepCost: 7000},
		Wall: refWall, Tasks: []plan.Task{{Ops: []plan.Op{{K: k, Arg: arg}}}}}}}
	o, d, err := e.execPage(p)
	if err != nil {
		return nil, err
	}
	r = &Ref{}
	if d != nil {
		r.Dead, r.Death = true, d.Text
	} else {
		op := o.Ops[0]
		r.Digest, r.Err, r.Panic, r.Dump = op.Digest, op.Err, op.Panic, op.Dump
	}
	e.mu.Lock()
	e.refs[key] = r
	e.mu.Unlock()
	return r, nil
}

func judgePage(e *Env, h *History, o *Outs) (*Finding, error) {
	if o.Death != nil {
		return &Finding{Class: "no-return", Detail: o.Death.Text}, nil
	}
	for pi, out := range o.Out {
		p := &h.Procs[pi]
		var mem []plan.OpResult
		for i := range out.Ops {
			op := &out.Ops[i]
			if op.K == plan.OpMem {
				mem = append(mem, *op)
				continue
			}
			if op.K == plan.OpBoot {
				continue
			}
			spec := p.Rounds[op.Round].Tasks[op.Task].Ops[op.Op]
			src := ""
			if op.K == plan.OpCall {
				src = p.Sources[spec.S]
			}
			where := fmt.Sprintf("page %d round %d event source %d, %s %q with arguments of kind %d", pi, op.Round, op.Task, op.K, cutText(src, 100), spec.Arg)
			if op.Iter > 0 {
				where += fmt.Sprintf(", repetition %d", op.Iter)
			}
			if op.Panic != "" {
				return &Finding{Class: "module-died", Detail: where + ": " + op.Panic}, nil
			}
			if op.Err != "" {
				return &Finding{Class: "no-answer", Detail: where + " gives " + op.Err}, nil
			}
			want, told := "", false
			if op.K == plan.OpCall && plainArg(spec.Arg) {
				ref, err := e.RefSource(src)
				if err != nil {
					return nil, err
				}
				want, told = pageText(ref)
			}
			wd := pageDigest(want)
			if !told {
				ref, err := e.pageRef(op.K, spec.Arg, src)
				if err != nil {
					return nil, err
				}
				if ref.Dead || ref.Panic != "" || ref.Err != "" {
					return &Finding{Class: "module-died", Detail: where + ", alone in a page: " + ref.Panic + ref.Err + ref.Death}, nil
				}
				wd, want = ref.Digest, ref.Dump
			}
			if op.Digest != wd {
				return &Finding{Class: "answer", Detail: fmt.Sprintf("%s answers %q, expected %q", where, cutText(op.Dump, 150), cutText(want, 150))}, nil
			}
			if op.Loc != "" {
				t, err := time.Parse(time.RFC3339Nano, op.Loc)
				if err != nil || !strings.HasSuffix(op.Loc, "Z") {
					return &Finding{Class: "date", Detail: where + " is dated " + op.Loc}, nil
				}
				if ms := t.UnixMilli(); ms < op.W0 || ms > op.FDW {
					return &Finding{Class: "date", Detail: fmt.Sprintf("%s is dated %s; the page's clock went from %d to %d ms, not %d", where, op.Loc, op.W0, op.FDW, ms)}, nil
				}
				if op.Elapsed < 0 || op.Elapsed > op.T0+5000 {
					return &Finding{Class: "elapsed", Detail: fmt.Sprintf("%s took %v, but the page's clock says at most %v", where, time.Duration(op.Elapsed), time.Duration(op.T0))}, nil
				}
			}
		}
		for ri, r := range out.Rounds {
			if r.Livelock != "" {
				return &Finding{Class: "event", Detail: fmt.Sprintf("page %d round %d: %s", pi, ri, r.Livelock)}, nil
			}
		}
		// What the page holds must not grow with the calls.
		if n := len(mem); n >= 6 {
			least := func(of func(*plan.OpResult) int64, windows int) int64 {
				m := int64(1) << 60
				for k := n - windows; k < n; k++ {
					m = min(m, of(&mem[k])-of(&mem[k-1]))
				}
				return m
			}
			of := func(f func(*plan.OpResult) int64) string {
				s := ""
				for k := range mem {
					s += fmt.Sprintf(" %d after %d events,", f(&mem[k]), mem[k].Inv)
				}
				return strings.TrimSuffix(s, ",")
			}
			objs := func(m *plan.OpResult) int64 { return m.Objs }
			heap := func(m *plan.OpResult) int64 { return m.Heap }
			timers := func(m *plan.OpResult) int64 { return int64(m.Gor) }
			if least(objs, 3) > 40 {
				return &Finding{Class: "references", Detail: fmt.Sprintf("page %d: references the module holds to objects of the page:%s", pi, of(objs)), Noisy: true}, nil
			}
			if least(heap, 4) >= 1<<19 {
				return &Finding{Class: "memory", Detail: fmt.Sprintf("page %d: bytes of memory the module has:%s", pi, of(heap)), Noisy: true}, nil
			}
			if least(timers, 3) > 5 {
				return &Finding{Class: "timers", Detail: fmt.Sprintf("page %d: timers pending:%s", pi, of(timers)), Noisy: true}, nil
			}
		}
	}
	return nil, nil
}

var oddArgs = []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23}

func init() {
	register(&Prop{
		ID: "C11", Title: "The browser module goes on answering", Level: "exploration",
		Plain: true, Page: true, Quick: 430, Thorough: 20000,
		Prepare: func(c *Campaign) (err error) {
			n, nf := 120, 12
			if c.E.Tier == "thorough" {
				n, nf = 700, 60
			}
			c.Pool, err = c.E.MakePool(gen.Derive(c.E.Seed, 111), n, nf, gen.Large, 300_000)
			if err != nil {
				return err
			}
			r := gen.Derive(c.E.Seed, 112)
			texts := make([]string, n/5)
			for i := range texts {
				texts[i] = gen.Longer(r, gen.Pick(r, 5, 9, 18, 33, 33, 66, 66, 140)<<10)
			}
			c.longer = make([]*Src, len(texts))
			return c.E.each(len(texts), func(i int) error {
				ref, err := c.E.RefSource(texts[i])
				c.longer[i] = &Src{Text: texts[i], Ref: ref}
				return err
			})
		},
		Judge: judgePage,
		One: func(c *Campaign, i int, r *gen.Rand) error {
			b := newProc()
			b.Page = true
			b.AutoGC = gen.Pick(r, 0, 0, 0, 0, 0, 30, 400)
			all, bad := c.Pool.All, c.Pool.Bad
			fam := c.Pool.Families[r.N(len(c.Pool.Families))]
			_, some := c.Pool.some(r)
			oddSrc := []string{"SELECT Id FROM A", "SELECT Id, Name FROM Contact WHERE x = 'a\u00e9'", "SELECT FROM", "x"}
			style := r.N(8)
			lasting := i%36 == 7 // a page that is used for long
			long := i%8 == 3 && !lasting
			odd := oddArgs
			share := 12
			if lasting { // mostly calls of few kinds, so that what one of them leaves shows
				style = gen.Pick(r, 1, 1, 2, 3, 4, 5)
				if style == 1 {
					odd = append([]int(nil), odd...)
					gen.Shuffle(r, odd)
					odd = odd[:4]
					share = 75
				}
			}
			op := func() plan.Op {
				if r.P(4) {
					return plan.Op{K: plan.OpVersion}
				}
				if style != 0 && r.P(share) || style == 1 && r.P(50) {
					return plan.Op{K: plan.OpCall, S: b.src(oddSrc[r.N(len(oddSrc))]), Arg: odd[r.N(len(odd))]}
				}
				var s *Src
				switch {
				case long && r.P(10):
					s = c.longer[r.N(len(c.longer))]
				case style == 2:
					s = fam[r.N(len(fam))]
				case style == 3:
					s = some()
				case style == 4 && r.P(60) && len(bad) > 0:
					s = bad[r.N(len(bad))]
				default:
					s = all[r.N(len(all))]
				}
				return plan.Op{K: plan.OpCall, S: b.source(s), Arg: gen.Pick(r, 0, 0, 0, 1, 13, 24)}
			}
			for k := gen.Pick(r, 1, 1, 2, 3); k > 0; k-- {
				round := plan.Round{Wall: (100_000 + int64(r.N(4_000_000_000))) * 1_000_000_000}
				for t := gen.Pick(r, 1, 2, 3, 6); t > 0; t-- {
					var ops []plan.Op
					for j := 1 + r.N(14); j > 0; j-- {
						ops = append(ops, op())
					}
					task := plan.Task{Ops: ops}
					if r.P(15) {
						task.Loop = 2 + r.N(12)
					}
					round.Tasks = append(round.Tasks, task)
				}
				round.Cfg = plan.Cfg{Seed: r.U64() >> 1, Policy: gen.Pick(r, 0, 1, 1, 1), StepCost: gen.Pick(r, int64(100), 5000, 100000, 3000000),
					Gap: gen.Pick(r, int64(0), 0, 0, 1, 100)}
				if r.P(75) {
					round.Cfg.FaultGap = gen.Pick(r, int64(2), 4, 12)
					round.Cfg.Faults = gen.Pick(r, []int{kStall}, []int{kWall}, []int{kStall, kWall}, []int{kStall, kStall, kWall, kWall, 7})
					round.Cfg.MaxStall = gen.Pick(r, int64(1e7), 1e9, 600e9, 30*86400e9)
				}
				b.Rounds = append(b.Rounds, round)
			}
			if lasting {
				var ops []plan.Op
				for j := 20 + r.N(20); j > 0; j-- {
					ops = append(ops, op())
				}
				b.Rounds = nil
				b.AutoGC = 0
				// Days go by, or the page's clock hardly moves.
				day, hour, cost, grain := int64(86400e9), int64(3600e9), int64(5000), int64(0)
				if i/36%2 == 1 {
					day, hour, cost, grain = 0, 0, 10, gen.Pick(r, int64(0), 1000, 86400_000)
				}
				for k := int64(0); k < 7; k++ {
					b.Rounds = append(b.Rounds, plan.Round{Wall: refWall + k*day, Cfg: plan.Cfg{Seed: r.U64() >> 1, StepCost: cost, Gap: grain},
						Tasks: []plan.Task{{Ops: ops, Loop: 1 + 260/len(ops)}}},
						plan.Round{Wall: refWall + k*day + hour, Cfg: plan.Cfg{Seed: 1, StepCost: cost, Gap: grain}, Tasks: []plan.Task{{Ops: []plan.Op{{K: plan.OpMem}}}}})
				}
			}
			_, _, err := c.Try(i, &History{Procs: []plan.Process{b.Process}, Note: "events on a page"})
			return err
		},
		Rule: "each run is the life of a page: events from several sources call the module in a seeded order, with texts the library accepts and rejects and with arguments that are missing, superfluous or not text, while time passes, timers strike late, the page's clock is stepped or coarse and the module is started again; every answer is compared with the native library's for that text alone, or with a page that makes this call only; non-trivial: at least one fault, odd argument or timer event",
		Real: []string{"the browser module, built from /repo/wasm for js/wasm without any change, with the Go runtime and libraries for that platform", "Go's wasm_exec.js", "V8's WebAssembly and JavaScript engine"},
		Stubs: []string{
			"the page's event loop: the simulator decides which event comes next",
			"Date, performance.now, setTimeout: simulated clocks and timers",
			"crypto.getRandomValues: seeded",
			"console: recorded",
		},
		Assume: []string{"sources nested so deeply that the page's stack overflows (hundreds of levels) are left out", "the search samples histories and faults: a clean run is evidence, not proof",
			"a page's call that takes more than 60 s of real time counts as one that does not return"},
	})
}
