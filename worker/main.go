// The simulated process: it runs the library's real code under simrt as told
// by the plan on standard input and reports on standard output.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"io"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"simrt"
	"verif/plan"

	"github.com/shellyln/go-open-soql-parser/soql/parser"
	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

var zones = []*time.Location{
	time.UTC,
	time.FixedZone("JST", 9*3600),
	time.FixedZone("SST", -11*3600),
	time.FixedZone("NPT", 5*3600+45*60),
	time.FixedZone("LINT", 14*3600),
}

type held struct {
	q      *types.SoqlQuery
	part   interface{} // or only a part of the query
	digest string
	res    *plan.OpResult
}

type taskState struct {
	last *held
	held []*held
}

type simFile struct {
	data   []byte
	synced int
}

var (
	proc     plan.Process
	out      plan.Outcome
	records  [][]byte
	shared   []*types.SoqlQuery
	shDigest []string
	shJSON   []string
	disk     = map[string]*simFile{}
	results  [][][]plan.OpResult
	states   [][]taskState
	opCount  int
	liveQ    atomic.Int64
	liveS    atomic.Int64
	recorded int64 // bytes the worker itself keeps of the rounds so far
)

func fatal(err error) {
	if err != nil {
		os.Stderr.WriteString("worker: " + err.Error() + "\n")
		os.Exit(3)
	}
}

func unb64(s string) []byte {
	b, err := base64.StdEncoding.DecodeString(s)
	fatal(err)
	return b
}

func main() {
	debug.SetGCPercent(400)
	in, err := io.ReadAll(os.Stdin)
	fatal(err)
	fatal(json.Unmarshal(in, &proc))
	in = nil
	dep := make([]bool, len(depSites))
	for i := range dep {
		dep[i] = depSites[i] == '1'
	}
	simrt.Sites(dep)
	simrt.Zones = zones
	time.Local = zones[proc.Zone%len(zones)]
	for _, r := range proc.Records {
		records = append(records, unb64(r))
	}
	for n, c := range proc.Files {
		b := unb64(c)
		disk[n] = &simFile{data: b, synced: len(b)}
	}
	noPool(proc.NoPool)
	simrt.KeepTasks = raceBuild
	out.DiskF = map[string]int{}
	shDigest = make([]string, len(proc.Shared))
	shJSON = make([]string, len(proc.Shared))
	for _, s := range proc.Shared {
		q, err := parser.Parse(proc.Sources[s])
		if err != nil || q == nil {
			shared = append(shared, nil)
			continue
		}
		if proc.ShDec {
			b, err := json.Marshal(q)
			fatal(err)
			q2 := &types.SoqlQuery{}
			fatal(json.Unmarshal(b, q2))
			q = q2
		}
		shared = append(shared, q)
	}
	warm()
	for i, q := range shared {
		if q == nil {
			continue
		}
		shDigest[i] = digest(sharedDump(q))
		if !raceBuild {
			// In the race build the readers' encodings must be the first.
			q2, err := parser.Parse(proc.Sources[proc.Shared[i]])
			fatal(err)
			if proc.ShDec {
				b, err := json.Marshal(q2)
				fatal(err)
				q3 := &types.SoqlQuery{}
				fatal(json.Unmarshal(b, q3))
				q2 = q3
			}
			b, err := json.Marshal(q2)
			if err == nil {
				shJSON[i] = maskJSON(string(b))
			} else {
				shJSON[i] = "error"
			}
		}
	}
	for ri := range proc.Rounds {
		prepare(ri)
	}
	out.BaseGor = runtime.NumGoroutine()
	for ri := range proc.Rounds {
		if !round(ri) {
			break
		}
	}
	finishProcess()
	enc := json.NewEncoder(os.Stdout)
	fatal(enc.Encode(&out))
	os.Stdout.Close()
	os.Exit(0)
}

// warm touches what the harness itself initialises lazily.
func warm() {
	b, _ := json.Marshal(map[string]int{"a": 1})
	_ = maskJSON(string(b))
	_ = dump(struct{ A int }{1}, false)
}

func conv(c plan.Cfg) simrt.Config {
	o := simrt.Config{Seed: c.Seed, Policy: c.Policy, Gap: c.Gap, ChangePts: c.ChangePts, EstSteps: c.EstSteps,
		HotMod: c.HotMod, HotList: c.HotList, HotFreeze: c.HotFreeze, FaultGap: c.FaultGap, Faults: c.Faults, MaxStall: c.MaxStall, DepOnly: c.DepOnly,
		CrashAt: c.CrashAt, Explicit: c.Explicit, StepBound: c.StepBound, FairBound: c.FairBound, StepCost: c.StepCost,
		DrainSteps: c.DrainSteps}
	for _, d := range c.Decisions {
		o.Decisions = append(o.Decisions, simrt.Decision{Task: d.Task, Kind: d.Kind, Local: d.Local, Arg: d.Arg})
	}
	return o
}

// prepare makes what a round records into, before anything is measured.
func prepare(ri int) {
	r := &proc.Rounds[ri]
	res := make([][]plan.OpResult, len(r.Tasks))
	st := make([]taskState, len(r.Tasks))
	for t := range r.Tasks {
		res[t] = make([]plan.OpResult, len(r.Tasks[t].Ops))
		n := 0
		for o := range res[t] {
			op := r.Tasks[t].Ops[o]
			res[t][o] = plan.OpResult{Round: ri, Task: t, Op: o, K: op.K, S: op.S, Rec: op.Rec}
			if !op.Drop {
				n++
			}
		}
		st[t].held = make([]*held, 0, n)
	}
	results = append(results, res)
	states = append(states, st)
}

// round runs one round; it reports whether the process is still alive.
func round(ri int) bool {
	r := &proc.Rounds[ri]
	res := results[ri]
	var wg sync.WaitGroup
	wg.Add(len(r.Tasks))
	before := raceErrors()
	inj := simrt.Injected
	rr := simrt.Run(conv(r.Cfg), r.Wall, len(r.Tasks), func(t int) {
		below(r.Tasks[t].Deep, func() {
			for o := range r.Tasks[t].Ops {
				do(ri, t, o)
			}
			repeat(ri, t)
		})
	}, wg.Done)
	out.Races += raceErrors() - before
	alive := !rr.Crashed && rr.Deadlock == "" && rr.Livelock == "" && !rr.Overflow
	if alive {
		wg.Wait()
		for t := range r.Tasks {
			for o := range r.Tasks[t].Ops {
				if r.Tasks[t].Ops[o].K == plan.OpMem {
					measure(&res[t][o])
				}
			}
		}
	}
	for i := range inj {
		out.Injected[i] += simrt.Injected[i] - inj[i]
	}
	pr := plan.RoundResult{Steps: rr.Steps, Crashed: rr.Crashed, Deadlock: rr.Deadlock, Livelock: rr.Livelock, Overflow: rr.Overflow,
		Fair: rr.Fair, Hash: strconv.FormatUint(rr.Hash, 16), DecLost: rr.DecLost, Native: rr.Native, TimeJumps: rr.TimeJumps,
		SimNs: rr.SimNs, Children: rr.Children, LeftOver: rr.LeftOver, LeftTimer: rr.LeftTimer, Locals: rr.Locals}
	for _, d := range rr.Decisions {
		pr.Decisions = append(pr.Decisions, plan.Decision{Task: d.Task, Kind: d.Kind, Local: d.Local, Arg: d.Arg})
	}
	out.Rounds = append(out.Rounds, pr)
	recorded += int64(cap(pr.Decisions))*int64(unsafe.Sizeof(plan.Decision{})) + int64(cap(pr.Locals))*8
	return alive
}

// below calls f from within a recursion of n frames.
//
//go:noinline
func below(n int, f func()) int {
	if n == 0 {
		f()
		return 0
	}
	return 1 + below(n-1, f)
}

// repeat goes through the task's operations again, until a result differs from
// the first.
func repeat(ri, t int) {
	task := &proc.Rounds[ri].Tasks[t]
	if task.Loop < 2 {
		return
	}
	res := results[ri][t]
	first := append([]plan.OpResult(nil), res...)
	for n := 1; n < task.Loop; n++ {
		for o := range task.Ops {
			f := &first[o]
			res[o] = plan.OpResult{Round: ri, Task: t, Op: o, K: f.K, S: f.S, Rec: f.Rec}
			do(ri, t, o)
			r := &res[o]
			if r.Err != f.Err || r.Panic != f.Panic || r.Digest != f.Digest || r.EncErr != f.EncErr || r.Fix != f.Fix {
				r.Iter = n
				return
			}
			if f.Steps > r.Steps {
				r.Steps = f.Steps
			} else {
				f.Steps = r.Steps
			}
		}
	}
}

func do(ri, t, o int) {
	op := &proc.Rounds[ri].Tasks[t].Ops[o]
	res := &results[ri][t][o]
	ts := &states[ri][t]
	simrt.YHarness()
	res.Inv = simrt.Seq()
	l0 := simrt.Local()
	res.T0, res.W0 = simrt.CallBegin()
	var q *types.SoqlQuery
	func() {
		defer func() {
			if r := recover(); r != nil {
				simrt.YHarness()
				res.Panic = panicText(r)
			}
		}()
		q = exec(op, res, ts)
		simrt.YHarness()
	}()
	t1, ws, fd, fdw, ld, l1 := simrt.CallEnd()
	res.T1, res.FD, res.FDW, res.LD, res.WN = t1, fd, fdw, ld, ws
	res.Ret = simrt.Seq()
	res.Steps = l1 - l0
	res.Done = true
	if q != nil {
		if q.Meta != nil && !proc.Leak {
			res.Date = q.Meta.Date.UnixNano()
			res.Elapsed = int64(q.Meta.ElapsedTime)
			if op.K == plan.OpParse || op.K == plan.OpStore {
				_, off := q.Meta.Date.Zone()
				res.Loc = q.Meta.Date.Location().String() + "/" + strconv.Itoa(off)
			}
		}
		h := &held{q: q, res: res}
		if !raceBuild && !proc.Leak {
			note(h, res)
		}
		ts.last = h
		if !op.Drop {
			ts.held = append(ts.held, h)
		}
	}
	if proc.AutoGC > 0 {
		autoGC()
	}
}

// autoGC is shared by the tasks without synchronisation: only one runs at a time.
//
//go:norace
func autoGC() {
	opCount++
	if opCount%proc.AutoGC == 0 {
		simrt.ForceGC()
	}
}

func note(h *held, res *plan.OpResult) {
	d := dump(h.q, false)
	h.digest = digest(d)
	res.Digest = h.digest
	if proc.Dumps {
		res.Dump = d
	}
	if proc.Persist {
		p := persistent(h.q)
		res.PDigest = digest(p)
		if proc.Dumps {
			res.PDump = p
		}
	}
}

func panicText(r interface{}) string {
	var s string
	switch v := r.(type) {
	case error:
		s = v.Error()
	case string:
		s = v
	default:
		s = "panic of type " + reflect.TypeOf(r).String()
	}
	// The innermost library frame identifies the place.
	pc := make([]uintptr, 40)
	fr := runtime.CallersFrames(pc[:runtime.Callers(3, pc)])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "shellyln/") {
			s += " in " + f.Function[strings.LastIndex(f.Function, "/")+1:]
			break
		}
		if !more {
			break
		}
	}
	return s
}

func exec(op *plan.Op, res *plan.OpResult, ts *taskState) *types.SoqlQuery {
	switch op.K {
	case plan.OpParse:
		src := proc.Sources[op.S]
		if proc.Leak {
			src = trackedSource(src, op.Arg)
		}
		q, err := parser.Parse(src)
		if err != nil {
			simrt.YHarness()
			if proc.Leak {
				res.Err = "error"
				return nil
			}
			res.Err = err.Error()
			if q != nil {
				res.Err += " (and a query)"
			}
			return nil
		}
		if proc.Leak && q != nil {
			trackQuery(q)
		}
		return q
	case plan.OpEncode:
		if ts.last == nil || ts.last.q == nil {
			return nil
		}
		b, err := json.Marshal(ts.last.q)
		simrt.YHarness()
		if err != nil {
			res.EncErr = "error"
			if !proc.Leak {
				res.EncErr = err.Error()
			}
			return nil
		}
		if !raceBuild && !proc.Leak {
			res.Digest = digest(maskJSON(string(b)))
		}
		if proc.Bytes {
			res.Bytes = base64.StdEncoding.EncodeToString(b)
		}
	case plan.OpDecode:
		q := &types.SoqlQuery{}
		rec := records[op.S]
		if proc.Leak {
			trackQuery(q)
			if op.Arg > 1 {
				rec = []byte(unique(string(rec), op.Arg))
			}
		}
		if err := json.Unmarshal(rec, q); err != nil {
			simrt.YHarness()
			if proc.Leak {
				res.Err = "error"
				return nil
			}
			res.Err = err.Error()
			return nil
		}
		simrt.YHarness()
		if op.Arg == 1 {
			res.Fix = fixpoint(q)
		}
		return q
	case plan.OpScribble:
		if h := ts.last; h != nil && h.q != nil {
			scribble(h.q, op.Arg)
			if !raceBuild {
				h.digest = digest(dump(h.q, false))
			}
			h.res.Digest += "" // the digest at return stays in the result
		}
	case plan.OpDrop:
		ts.last = nil
	case plan.OpHold:
		if ts.last == nil || ts.last.q == nil {
			return nil
		}
		l := parts(ts.last.q)
		ts.last = nil
		if len(l) == 0 {
			return nil
		}
		h := &held{part: l[op.Arg%len(l)], res: res}
		if !raceBuild {
			h.digest = digest(dump(h.part, false))
			res.Digest = h.digest
		}
		ts.held = append(ts.held, h)
	case plan.OpStore:
		return store(op, res)
	case plan.OpMove:
		return move(op, res)
	case plan.OpLoad:
		return load(op, res)
	case plan.OpRead:
		if q := shared[op.S]; q != nil {
			if raceBuild {
				touch(q)
			} else {
				res.Digest = digest(sharedDump(q))
			}
		}
	case plan.OpCopy:
		if q := shared[op.S]; q != nil {
			c := *q
			simrt.YHarness()
			c.Fields = append([]types.SoqlFieldInfo(nil), c.Fields...)
			c.OffsetAndLimit.Limit++
			for i := range c.Fields {
				c.Fields[i].AliasName = "copy"
				_ = c.Fields[i].Type.String()
			}
			for i := range q.Where {
				_ = q.Where[i].Opcode.String()
			}
			b, err := json.Marshal(c.Fields)
			_ = b
			if err != nil {
				res.EncErr = err.Error()
			}
		}
	case plan.OpEncSh:
		q := shared[op.S]
		if q == nil {
			return nil
		}
		var b []byte
		var err error
		switch op.Arg {
		case 1:
			b, err = json.Marshal(*q)
		case 2:
			var buf bytes.Buffer
			err = json.NewEncoder(&buf).Encode(q)
			b = bytes.TrimSuffix(buf.Bytes(), []byte("\n"))
		default:
			b, err = json.Marshal(q)
		}
		simrt.YHarness()
		if err != nil {
			res.EncErr = err.Error()
			res.Digest = "error"
			return nil
		}
		if !raceBuild {
			res.Digest = digest(maskJSON(string(b)))
		}
	case plan.OpGC:
		simrt.ForceGC()
	case plan.OpMem:
		// Measured when the round is over.
	default:
		fatal(errors.New("unknown op " + op.K))
	}
	return nil
}

// sharedDump is everything in a shared query, its times included.
func sharedDump(q *types.SoqlQuery) string {
	s := dump(q, false)
	if q.Meta != nil {
		s += strconv.FormatInt(q.Meta.Date.UnixNano(), 10) + " " + strconv.FormatInt(int64(q.Meta.ElapsedTime), 10)
	}
	return s
}

// fixpoint says why encoding a decoded query and decoding it again loses
// something, or "".
func fixpoint(q *types.SoqlQuery) string {
	e1, err := json.Marshal(q)
	if err != nil {
		return "accepted record cannot be encoded: " + err.Error()
	}
	q2 := &types.SoqlQuery{}
	if err := json.Unmarshal(e1, q2); err != nil {
		return "accepted record is rejected after encoding it again: " + err.Error()
	}
	e2, err := json.Marshal(q2)
	if err != nil {
		return "second encoding fails: " + err.Error()
	}
	if !bytes.Equal(e1, e2) {
		return "second encoding differs"
	}
	if a, b := dump(q, true), dump(q2, true); a != b {
		return "the query decoded again differs: " + diffAt(a, b)
	}
	return ""
}

func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 60
		if hi > len(s) {
			hi = len(s)
		}
		return s[lo:hi]
	}
	return cut(a) + " | " + cut(b)
}

// maskJSON blanks the compile date and the elapsed time.
func maskJSON(s string) string {
	var b strings.Builder
	for {
		i := strings.Index(s, `"date":"`)
		if i < 0 {
			b.WriteString(s)
			return b.String()
		}
		b.WriteString(s[:i])
		s = s[i+8:]
		if j := strings.IndexByte(s, '"'); j >= 0 {
			s = s[j+1:]
		}
		if strings.HasPrefix(s, `,"elapsedTime":`) {
			s = s[15:]
			for s != "" && (s[0] == '-' || s[0] >= '0' && s[0] <= '9') {
				s = s[1:]
			}
		}
	}
}

// touch reads everything reachable, without any synchronisation.
func touch(v interface{}) (n int) {
	seen := map[unsafe.Pointer]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Bool:
			if v.Bool() {
				n++
			}
		case reflect.Int, reflect.Int64:
			n += int(v.Int())
		case reflect.String:
			n += len(v.String())
		case reflect.Float64:
			n += int(v.Float())
		case reflect.Interface:
			walk(v.Elem())
		case reflect.Pointer:
			if !v.IsNil() && !seen[v.UnsafePointer()] {
				seen[v.UnsafePointer()] = true
				walk(v.Elem())
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			it := v.MapRange()
			for it.Next() {
				walk(it.Value())
			}
		case reflect.Struct:
			if v.Type() == timeType {
				n++
				return
			}
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					walk(v.Field(i))
				}
			}
		}
	}
	walk(reflect.ValueOf(v))
	return
}

// ---- simulated disk ----

type simWriter struct {
	f     *simFile
	fault *plan.Disk
	n     int
	used  *bool
}

var errNoSpace = errors.New("no space left on simulated device")
var errIO = errors.New("simulated I/O error")

func (w *simWriter) Write(b []byte) (int, error) {
	done := 0
	for done < len(b) {
		c := len(b) - done
		if c > 97 {
			c = 97
		}
		if w.fault != nil && w.n+c > w.fault.At && w.fault.Kind != "none" {
			c = w.fault.At - w.n
			if c > 0 {
				w.f.data = append(w.f.data, b[done:done+c]...)
				done += c
				w.n += c
			}
			*w.used = true
			switch w.fault.Kind {
			case "short":
				return done, io.ErrShortWrite
			case "enospc":
				return done, errNoSpace
			default:
				return done, errIO
			}
		}
		w.f.data = append(w.f.data, b[done:done+c]...)
		done += c
		w.n += c
		simrt.YHarness()
	}
	return done, nil
}

func store(op *plan.Op, res *plan.OpResult) *types.SoqlQuery {
	q, err := parser.Parse(proc.Sources[op.S])
	if err != nil {
		res.Err = err.Error()
		return nil
	}
	return write(q, op, res)
}

func move(op *plan.Op, res *plan.OpResult) *types.SoqlQuery {
	q := load(&plan.Op{Rec: op.From, Arg: op.Arg}, res)
	if q == nil {
		return nil
	}
	return write(q, op, res)
}

// write stores a query.
func write(q *types.SoqlQuery, op *plan.Op, res *plan.OpResult) *types.SoqlQuery {
	var err error
	simrt.YHarness()
	f := &simFile{}
	disk[op.Rec] = f
	used := false
	w := &simWriter{f: f, fault: op.Fault, used: &used}
	res.WS = simrt.Seq()
	if op.Arg == 1 {
		err = json.NewEncoder(w).Encode(q)
	} else {
		var b []byte
		if b, err = json.Marshal(q); err == nil {
			simrt.YHarness()
			_, err = w.Write(b)
		}
	}
	simrt.YHarness()
	if used {
		out.DiskF[op.Fault.Kind]++
		if err == nil {
			res.EncErr = "a failed write was reported as success"
		}
	}
	if err != nil {
		if !used {
			res.EncErr = err.Error()
		}
		return q
	}
	if op.Fault != nil && op.Fault.Kind == "lostsync" {
		out.DiskF["lostsync"]++
		return q // the sync never happens, so the record is never acknowledged
	}
	simrt.YHarness()
	f.synced = len(f.data)
	simrt.YHarness()
	res.Acked = true
	return q
}

type simReader struct {
	b []byte
	n int
}

func (r *simReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := r.n
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.b) {
		n = len(r.b)
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	simrt.YHarness()
	return n, nil
}

func load(op *plan.Op, res *plan.OpResult) *types.SoqlQuery {
	f := disk[op.Rec]
	if f == nil {
		res.Err = "no such file"
		return nil
	}
	q := &types.SoqlQuery{}
	var err error
	if op.Arg == 1 {
		n := 13
		if op.Fault != nil && op.Fault.Read > 0 {
			n = op.Fault.Read
		}
		err = json.NewDecoder(&simReader{b: f.data, n: n}).Decode(q)
	} else {
		err = json.Unmarshal(f.data, q)
	}
	simrt.YHarness()
	if err != nil {
		res.Err = err.Error()
		return nil
	}
	b, err := json.Marshal(q)
	if err != nil {
		res.Fix = "loaded query cannot be encoded: " + err.Error()
	} else if want := bytes.TrimSuffix(f.data, []byte("\n")); !bytes.Equal(b, want) {
		res.Fix = "encoding the loaded query gives a different record: " + diffAt(string(want), string(b))
	}
	return q
}

// durable is what the disk holds after the process has died: everything
// synced, and of the rest a prefix in which each 64-byte sector may be missing.
func durable(name string, f *simFile, seed uint64, crashed bool) []byte {
	if f.synced == len(f.data) {
		return f.data
	}
	if !crashed {
		// A clean exit: the page cache survives.
		return f.data
	}
	for i := 0; i < len(name); i++ {
		seed = seed*1099511628211 ^ uint64(name[i])
	}
	rnd := func(n int) int {
		seed += 0x9e3779b97f4a7c15
		z := (seed ^ (seed >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return int((z ^ (z >> 31)) >> 1 % uint64(n))
	}
	cut := f.synced + rnd(len(f.data)-f.synced+1)
	if rnd(3) == 0 {
		cut = len(f.data)
	}
	b := append([]byte(nil), f.data[:cut]...)
	torn := 0
	if rnd(2) == 0 {
		for s := f.synced / 64 * 64; s < len(b); s += 64 {
			if rnd(3) == 0 {
				for i := s; i < s+64 && i < len(b); i++ {
					if i >= f.synced {
						b[i] = 0
						torn++
					}
				}
			}
		}
	}
	if torn > 0 {
		out.DiskF["torn"]++
	} else if cut < len(f.data) {
		out.DiskF["cut"]++
	}
	return b
}

// ---- memory ----

// unique puts a number in place of every placeholder Zq0, and so many letters in
// place of Zl0.
func unique(s string, uniq int) string {
	n := strconv.Itoa(1000000 + uniq)
	if strings.Contains(s, "Zl0") {
		s = strings.ReplaceAll(s, "Zl0", strings.Repeat("l", uniq))
	}
	return strings.NewReplacer("Zq0", "Zq"+n[1:], "zq0", "zq"+n[1:], "ZQ0", "ZQ"+n[1:]).Replace(s)
}

func trackedSource(s string, uniq int) string {
	if uniq > 0 {
		s = unique(s, uniq)
	}
	if len(s) < 32 {
		return s
	}
	b := []byte(s)
	liveS.Add(1)
	runtime.AddCleanup(&b[0], func(int) { liveS.Add(-1) }, 0)
	return unsafe.String(&b[0], len(b))
}

func trackQuery(q *types.SoqlQuery) {
	liveQ.Add(1)
	runtime.AddCleanup(q, func(int) { liveQ.Add(-1) }, 0)
}

func measure(res *plan.OpResult) {
	// Cleanups run on goroutines of the runtime's own: give them real time, and
	// the pools of the standard library the two collections that empty them.
	for i := 0; i < 40; i++ {
		runtime.GC()
		for k := 0; k < 50; k++ {
			runtime.Gosched()
		}
		if i >= 2 && liveQ.Load() == 0 && liveS.Load() == 0 {
			break
		}
		if i >= 2 {
			ts := syscall.NsecToTimespec(1e6) // real time, whatever the simulated clock does
			_ = syscall.Nanosleep(&ts, nil)
		}
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	res.Heap = int64(m.HeapAlloc) - recorded
	res.Objs = int64(m.HeapObjects)
	res.Gor = runtime.NumGoroutine()
	res.LiveQ = liveQ.Load()
	res.LiveS = liveS.Load()
}

// finishProcess re-examines everything the process still holds.
func finishProcess() {
	last := out.Rounds[len(out.Rounds)-1]
	dead := last.Crashed || last.Deadlock != "" || last.Livelock != "" || last.Overflow
	var rs []region
	owner := 0
	if !dead {
		for ri := range states {
			for t := range states[ri] {
				for _, h := range states[ri][t].held {
					if raceBuild {
						continue
					}
					var v interface{} = h.q
					if h.q == nil {
						v = h.part
					}
					if d := digest(dump(v, false)); d != h.digest {
						h.res.After = d
						if proc.Dumps {
							h.res.PDump = dump(v, false)
						}
					}
					if proc.Owner {
						owner++
						rs = append(rs, regions(v, owner)...)
					}
				}
			}
		}
		out.Pairs = owner * (owner - 1) / 2
		if proc.Owner {
			out.Owner = overlaps(rs)
		}
		for i, q := range shared {
			if q == nil {
				continue
			}
			if d := digest(sharedDump(q)); d != shDigest[i] {
				out.Shared = append(out.Shared, "shared query "+strconv.Itoa(i)+" was changed by its readers")
			}
		}
	}
	for i := range shared {
		for ri := range results[:len(out.Rounds)] {
			for t := range results[ri] {
				for o := range results[ri][t] {
					r := &results[ri][t][o]
					if raceBuild || !r.Done || r.S != i || shared[i] == nil {
						continue
					}
					if r.K == plan.OpRead && r.Digest != shDigest[i] {
						out.Shared = append(out.Shared, "a reader saw a different query")
					}
					want := shJSON[i]
					if want != "error" {
						want = digest(want)
					}
					if r.K == plan.OpEncSh && r.Digest != want {
						out.Shared = append(out.Shared, "an encoder of a shared query wrote a different text")
					}
				}
			}
		}
	}
	for n, f := range disk {
		if out.Files == nil {
			out.Files = map[string]string{}
		}
		out.Files[n] = base64.StdEncoding.EncodeToString(durable(n, f, proc.Rounds[len(out.Rounds)-1].Cfg.Seed, last.Crashed))
	}
	for ri := range results[:len(out.Rounds)] {
		for t := range results[ri] {
			for o := range results[ri][t] {
				if r := results[ri][t][o]; r.Done || !proc.Leak {
					out.Ops = append(out.Ops, r)
				}
			}
		}
	}
	if proc.Sweep {
		out.Sites = simrt.Hit()
		out.Cut = simrt.Cut()
	}
	out.EndGor = runtime.NumGoroutine()
}
