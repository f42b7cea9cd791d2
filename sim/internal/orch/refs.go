package orch

import (
	"encoding/base64"

	"verif/plan"
)

// Ref is what one source (or record) gives when it is the only thing a fresh
// process ever does.
type Ref struct {
	Err, Panic string
	Digest     string // of the query
	PDigest    string // of what the JSON form carries
	Enc        string // digest of the JSON, times masked
	EncErr     string
	JSON       []byte
	Steps      int64 // own steps of the parse or decode
	First      int64 // more steps as the first call of its process
	EncSteps   int64
	Dump       string
	Sites      []int // yield points passed
	// Dead: the process died, or never came to an end.
	Dead  bool
	Death string
}

// OK reports whether the source compiles and its query can be encoded.
func (r *Ref) OK() bool {
	return !r.Dead && r.Err == "" && r.Panic == "" && r.EncErr == ""
}

// maxRefs bounds the references kept.
const maxRefs = 20_000

// refWall is the wall clock in reference runs.
const refWall = 1700000000_000000000

func soloCfg(seed uint64) plan.Cfg {
	return plan.Cfg{Seed: seed, Policy: 0, StepBound: 40_000_000, FairBound: 40_000_000, StepCost: 50, DrainSteps: 200_000}
}

// RefSource returns the reference of a source.
func (e *Env) RefSource(s string) (*Ref, error) {
	return e.ref("s"+s, plan.Process{Sources: []string{s}, Persist: true, Bytes: true, Sweep: true,
		Rounds: []plan.Round{{Cfg: soloCfg(1), Wall: refWall, Tasks: []plan.Task{{Ops: []plan.Op{{K: plan.OpParse}, {K: plan.OpEncode}, {K: plan.OpParse, Drop: true}}}}}}})
}

// RefRecord returns the reference of a record.
func (e *Env) RefRecord(b64 string) (*Ref, error) {
	return e.ref("r"+b64, plan.Process{Records: []string{b64}, Persist: true, Bytes: true, Sweep: true,
		Rounds: []plan.Round{{Cfg: soloCfg(1), Wall: refWall, Tasks: []plan.Task{{Ops: []plan.Op{{K: plan.OpDecode}, {K: plan.OpEncode}}}}}}})
}

func (e *Env) ref(key string, p plan.Process) (*Ref, error) {
	e.mu.Lock()
	r := e.refs[key]
	e.mu.Unlock()
	if r != nil {
		return r, nil
	}
	out, death, _, err := e.exec(&p, e.W.Plain == "")
	if err != nil {
		return nil, err
	}
	r = &Ref{}
	if death != nil {
		r.Dead, r.Death = true, death.Text
	} else {
		a, b := out.Ops[0], out.Ops[1]
		r.Sites = out.Sites
		r.Err, r.Panic, r.Digest, r.PDigest, r.Steps, r.Dump = a.Err, a.Panic, a.Digest, a.PDigest, a.Steps, a.Dump
		r.Enc, r.EncErr, r.EncSteps = b.Digest, b.EncErr, b.Steps
		if b.Panic != "" {
			r.EncErr = "panic: " + b.Panic
		}
		r.JSON, _ = base64.StdEncoding.DecodeString(b.Bytes)
		if len(out.Ops) > 2 && out.Ops[2].Done && out.Ops[2].Steps < r.Steps {
			r.First = r.Steps - out.Ops[2].Steps
			r.Steps = out.Ops[2].Steps
		}
		if !a.Done || !b.Done {
			r.Dead = true
			r.Death = out.Rounds[0].Deadlock + out.Rounds[0].Livelock
		}
	}
	e.mu.Lock()
	if len(e.refs) > maxRefs {
		e.refs = map[string]*Ref{} // those needed again are computed again
	}
	e.refs[key] = r
	e.mu.Unlock()
	return r, nil
}
