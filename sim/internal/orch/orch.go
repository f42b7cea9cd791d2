// Package orch plans simulated runs, executes them in worker processes, judges
// them, minimises what fails and writes evidence.
package orch

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/internal/build"
	"verif/plan"
)

// Env is one invocation of a check.
type Env struct {
	Verif, Repo, Tier, Prop string
	Seed                    uint64
	Work                    string
	W                       *build.Workers
	Page                    bool // the browser module is needed
	Old                     bool // the released version is needed
	glue                    string
	Par                     int
	Deadline                time.Time

	mu        sync.Mutex
	refs      map[string]*Ref
	pages     []*pageHost
	processes atomic.Int64
	restarts  atomic.Int64 // processes that failed for reasons of the host and were run again
}

// History is one simulated execution: the lives of one or several processes.
// With Chain, the durable files of each process are the next one's.
type History struct {
	Procs []plan.Process `json:"procs"`
	Chain bool           `json:"chain,omitempty"`
	Race  bool           `json:"race,omitempty"`
	Note  string         `json:"note,omitempty"`
}

// Death describes a process that died otherwise than by the simulator's will.
type Death struct {
	Text string // first line
	Full string
	Lib  bool // the library is to blame
}

// Outs is what a history's processes reported.
type Outs struct {
	Out   []*plan.Outcome
	Death *Death // of the last process run
	Races []string
}

var errWatchdog = errors.New("a simulated process exceeded its real-time limit")

func (e *Env) bin(p *plan.Process, race bool) string {
	if p.Old {
		return e.W.Old
	}
	if race {
		return e.W.Race
	}
	return e.W.Plain
}

// exec runs one process.
func (e *Env) exec(p *plan.Process, race bool) (*plan.Outcome, *Death, string, error) {
	if p.Page {
		o, d, err := e.execPage(p)
		return o, d, "", err
	}
	in, err := json.Marshal(p)
	if err != nil {
		return nil, nil, "", err
	}
	limits := []time.Duration{90 * time.Second, 240 * time.Second}
	if Selftest {
		limits = []time.Duration{600 * time.Second}
	}
	for try, lim := range limits {
		e.processes.Add(1)
		ctx, cancel := context.WithTimeout(context.Background(), lim)
		c := exec.CommandContext(ctx, e.bin(p, race))
		c.Stdin = bytes.NewReader(in)
		var out, serr bytes.Buffer
		c.Stdout = &out
		c.Stderr = &limited{b: &serr, n: 1 << 20}
		c.WaitDelay = 5 * time.Second
		var rdir string
		c.Env = []string{"HOME=/nonexistent", "GOTRACEBACK=all", "PATH=/usr/bin:/bin"}
		if p.Host > 0 {
			c.Env = append(c.Env, "VERIF_HOST="+strconv.Itoa(p.Host))
		}
		if race {
			rdir, err = os.MkdirTemp(e.Work, "race")
			if err != nil {
				cancel()
				return nil, nil, "", err
			}
			c.Env = append(c.Env, "GORACE=atexit_sleep_ms=0 exitcode=0 history_size=300 log_path="+rdir+"/r")
		}
		err = c.Run()
		timedOut := ctx.Err() != nil
		cancel()
		races := ""
		if rdir != "" {
			l, _ := filepath.Glob(rdir + "/r.*")
			for _, f := range l {
				b, _ := os.ReadFile(f)
				races += string(b)
			}
			os.RemoveAll(rdir)
		}
		if timedOut {
			if try+1 < len(limits) {
				continue
			}
			return nil, nil, "", fmt.Errorf("%w (%v)", errWatchdog, lim)
		}
		if err == nil {
			o := &plan.Outcome{}
			if err := json.Unmarshal(out.Bytes(), o); err != nil {
				return nil, nil, "", fmt.Errorf("worker output: %v: %.300s", err, out.String())
			}
			return o, nil, races, nil
		}
		text := serr.String()
		d := &Death{Full: text}
		for _, l := range strings.Split(text, "\n") {
			if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
				d.Text = strings.TrimSpace(l)
				break
			}
		}
		if d.Text != "" && !strings.Contains(d.Text, "out of memory") && strings.Contains(text, "shellyln/") {
			d.Lib = true
			return nil, d, races, nil
		}
		// Not the library: the host (memory, a signal). The run is repeatable, so it
		// is simply made again.
		if try+1 < len(limits) {
			e.restarts.Add(1)
			continue
		}
		return nil, nil, "", fmt.Errorf("simulated process failed: %v: %.2000s", err, text)
	}
	panic("unreachable")
}

type limited struct {
	b *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if k := l.n - l.b.Len(); k > 0 {
		if len(p) < k {
			k = len(p)
		}
		l.b.Write(p[:k])
	}
	return len(p), nil
}

// Selftest relaxes the watchdog.
var Selftest bool

// Run executes a history.
func (e *Env) Run(h *History) (*Outs, error) {
	o := &Outs{}
	var files map[string]string
	for i := range h.Procs {
		p := h.Procs[i]
		if h.Chain && i > 0 {
			p.Files = files
		}
		out, death, races, err := e.exec(&p, h.Race)
		if err != nil {
			return nil, err
		}
		if races != "" {
			o.Races = append(o.Races, races)
		}
		if death != nil {
			o.Death = death
			return o, nil
		}
		o.Out = append(o.Out, out)
		files = out.Files
	}
	return o, nil
}

// each calls f(0..n-1) on all CPUs until it fails.
func (e *Env) each(n int, f func(i int) error) error {
	var next atomic.Int64
	var stop atomic.Bool
	var wg sync.WaitGroup
	errs := make([]error, e.Par)
	for w := 0; w < e.Par; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for !stop.Load() {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				if err := f(i); err != nil {
					errs[w] = err
					stop.Store(true)
				}
			}
		}(w)
	}
	wg.Wait()
	return errors.Join(errs...)
}

// Setup builds the workers.
func (e *Env) Setup(plainB, raceB bool) error {
	e.refs = map[string]*Ref{}
	if e.Par == 0 {
		e.Par = runtime.NumCPU()
		if e.Par > 8 {
			e.Par = 8
		}
	}
	if err := os.MkdirAll(filepath.Join(e.Verif, ".work"), 0o755); err != nil {
		return err
	}
	d, err := os.MkdirTemp(filepath.Join(e.Verif, ".work"), "b")
	if err != nil {
		return err
	}
	e.Work = d
	perr, oerr := make(chan error, 1), make(chan error, 1)
	var wasm string
	old := &build.Workers{}
	go func() {
		var err error
		if e.Page {
			wasm, e.glue, err = build.BuildPage(e.Repo, filepath.Join(d, "page"))
		}
		perr <- err
	}()
	go func() {
		var err error
		if e.Old {
			old, err = build.Build(e.Verif, filepath.Join(e.Verif, "baseline"), filepath.Join(d, "old"), true, false)
		}
		oerr <- err
	}()
	e.W, err = build.Build(e.Verif, e.Repo, filepath.Join(d, "build"), plainB, raceB)
	if err := <-perr; err != nil {
		return err
	}
	if err := <-oerr; err != nil {
		return err
	}
	if e.W != nil {
		e.W.Wasm, e.W.Old = wasm, old.Plain
	}
	return err
}

// Close removes everything the invocation created outside evidence.
func (e *Env) Close() {
	for _, a := range e.pages {
		a.stop()
	}
	if e.Work != "" {
		os.RemoveAll(e.Work)
		os.Remove(filepath.Join(e.Verif, ".work"))
	}
}
