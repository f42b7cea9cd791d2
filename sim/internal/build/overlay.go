// Package build makes the simulated build of the code under test: an
// instrumented copy of /repo and of its two dependencies, linked with a
// standard library whose scheduler, clock and random source obey the
// simulator.
package build

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

type patch struct {
	file, old, new string
}

// The patches to the Go runtime. Each one must match exactly once, so that a
// different toolchain is an error and never a silently weaker simulation.
var patches = []patch{
	// Random numbers: map seeds, map iteration, math/rand, sync.Pool.
	{"runtime/rand.go", "func rand() uint64 {\n", "func rand() uint64 {\n\tif simOn {\n\t\treturn simRand()\n\t}\n"},
	{"runtime/rand.go", "		if readRandom(seed[:]) != len(seed) || allZero(seed[:]) {\n", "		for i := range seed {\n\t\t\tseed[i] = byte(i*37 + 11 + simHost*(i*2+3))\n\t\t}\n\t\tif false {\n"},
	{"runtime/rand.go", "	if len(startupRand) >= 16 &&\n", "	simHostInit()\n	if false && len(startupRand) >= 16 &&\n"},
	// The host: environment, processors, name.
	{"runtime/debug.go", "	return int(numCPUStartup)\n", "	if simHost > 0 {\n\t\treturn simCPUs()\n\t}\n	return int(numCPUStartup)\n"},
	{"runtime/debug.go", "	if GOARCH == \"wasm\" && n > 1 {\n		n = 1 // WebAssembly", "	if simHost > 0 && simOn && n <= 0 {\n\t\treturn simCPUs()\n\t}\n	if GOARCH == \"wasm\" && n > 1 {\n		n = 1 // WebAssembly"},
	{"os/env.go", "	testlog.Getenv(key)\n	v, _ := syscall.Getenv(key)\n	return v\n", "	testlog.Getenv(key)\n	if v, ok, sim := simGetenv(key); sim && ok {\n\t\treturn v\n\t}\n	v, _ := syscall.Getenv(key)\n	return v\n"},
	{"os/env.go", "	testlog.Getenv(key)\n	return syscall.Getenv(key)\n}\n", "	testlog.Getenv(key)\n	if v, ok, sim := simGetenv(key); sim {\n\t\treturn v, ok\n\t}\n	return syscall.Getenv(key)\n}\n"},
	{"os/sys.go", "	return hostname()\n", "	return runtime_simHostName(), nil\n"},
	{"os/exec.go", "func Getpid() int { return syscall.Getpid() }", "func Getpid() int { return 1000 + 37*runtime_simHostNo() }"},
	// select picks among ready cases.
	{"runtime/select.go", "j := cheaprandn(uint32(norder + 1))", "j := simSelRand(uint32(norder + 1))"},
	// Preemption: only at the simulator's yield points.
	{"runtime/proc.go", "	gp.preempt = true\n\n	// Every call in a goroutine checks", "	if simOn {\n\t\treturn false\n\t}\n\tgp.preempt = true\n\n	// Every call in a goroutine checks"},
	// The race build shuffles run queues at random; the simulator decides instead.
	{"runtime/proc.go", "const randomizeScheduler = raceenabled", "const randomizeScheduler = false"},
	// Clocks.
	{"runtime/time.go", "	return time_now()\n}\n\n//go:linkname crypto_internal", "	if simOn {\n\t\treturn simNow()\n\t}\n\treturn time_now()\n}\n\n//go:linkname crypto_internal"},
	{"runtime/time.go", "		return gp.bubble.now\n	}\n	return nanotime()\n}", "		return gp.bubble.now\n	}\n	if simOn {\n\t\treturn simMono()\n\t}\n	return nanotime()\n}"},
	{"runtime/time.go", "	} else {\n		now = nanotime()\n	}\n	when := now + ns", "	} else if simOn {\n\t\tnow = simMono()\n\t} else {\n		now = nanotime()\n	}\n	when := now + ns"},
	{"runtime/time.go", "	if now == 0 {\n		now = nanotime()\n	}\n", "	if simOn {\n\t\tnow = simMono()\n\t}\n	if now == 0 {\n		now = nanotime()\n	}\n"},
	{"runtime/time.go", "	t.lock()\n	now := nanotime()\n	if t.isFake {", "	t.lock()\n	now := nanotime()\n	if simOn {\n\t\tnow = simMono()\n\t}\n	if t.isFake {"},
	// The race build may drop everything put in a sync.Pool, so that pools inside
	// fmt and encoding/json do not order the callers by accident.
	{"sync/pool.go", "		if runtime_randn(4) == 0 {\n", "		if runtime_simNoPool() || runtime_randn(4) == 0 {\n"},
	{"sync/pool.go", "func runtime_procPin() int\n", "func runtime_procPin() int\n\n//go:linkname runtime_simNoPool runtime.simNoPool\nfunc runtime_simNoPool() bool\n"},
	{"runtime/sema.go", "func internal_sync_nanotime() int64 {\n", "func internal_sync_nanotime() int64 {\n\tif simOn {\n\t\treturn simMono()\n\t}\n"},
}

const simOS = `package os

import _ "unsafe"

//go:linkname runtime_simHostNo runtime.simHostNo
func runtime_simHostNo() int

//go:linkname runtime_simHostName runtime.simHostName
func runtime_simHostName() string

// simGetenv makes up variables on hosts other than 0.
func simGetenv(key string) (v string, ok, sim bool) {
	host := runtime_simHostNo()
	if host == 0 || key == "HOME" || key == "PATH" || key == "TMPDIR" || len(key) >= 2 && key[:2] == "GO" {
		return "", false, false
	}
	switch key {
	case "LANG", "LANGUAGE", "LC_ALL", "LC_CTYPE", "LC_COLLATE", "LC_TIME", "LC_NUMERIC":
		switch host / 3 % 8 {
		case 0:
			return "", false, true
		case 1:
			return "C", true, true
		case 2:
			return "en_US.UTF-8", true, true
		case 3:
			return "tr_TR.UTF-8", true, true
		case 4:
			return "de_DE.UTF-8", true, true
		case 5:
			return "ja_JP.UTF-8", true, true
		case 6:
			return "az_AZ.UTF-8", true, true
		}
		return "C.UTF-8", true, true
	case "TZ":
		switch host / 5 % 4 {
		case 0:
			return "", false, true
		case 1:
			return "Asia/Tokyo", true, true
		case 2:
			return "America/New_York", true, true
		}
		return "UTC", true, true
	}
	h := uint64(host) * 0x9e3779b97f4a7c15
	for i := 0; i < len(key); i++ {
		h = (h ^ uint64(key[i])) * 0x100000001b3
	}
	h ^= h >> 29
	switch h % 12 {
	case 0, 1:
		return "1", true, true
	case 2:
		return "0", true, true
	case 3:
		return "true", true, true
	case 4:
		return "", true, true
	case 5:
		return "on", true, true
	case 6:
		return "C.UTF-8", true, true
	case 7:
		return "tr_TR.UTF-8", true, true
	case 8:
		return "64", true, true
	case 9:
		return "debug", true, true
	}
	return "", false, true
}
`

const simRuntime = `package runtime

import (
	"internal/runtime/atomic"
	"unsafe"
)

// simOn is true while a simulated round is running (GOMAXPROCS is 1 then).
var simOn bool

var (
	simRandState uint64
	simSelState  uint64
	simTick      int64  // simulated ns since the round began
	simMonoBase  int64  // real nanotime at the time the simulation began
	simWallBase  int64  // simulated wall clock, unix ns, at tick 0; wall steps change it
	simClockRead uint64
	simWaiting   guintptr
)

// simHost is the number of the simulated host; 0 is the plain one.
var simHost int

func simHostInit() {
	for i := argc + 1; argv_index(argv, i) != nil; i++ {
		s := gostringnocopy(argv_index(argv, i))
		if len(s) > 11 && s[:11] == "VERIF_HOST=" {
			for _, c := range []byte(s[11:]) {
				simHost = simHost*10 + int(c-'0')
			}
		}
	}
}

func simCPUs() int { return [...]int{1, 2, 3, 4, 6, 8, 16, 64, 96, 256}[simHost%10] }

//go:linkname simHostNo
func simHostNo() int { return simHost }

//go:linkname simHostName
func simHostName() string { return "host" + string([]byte{byte('a' + simHost%26), byte('a' + simHost/26%26)}) }

//go:nosplit
func simMix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simRand() uint64 { return simMix(&simRandState) }

func simSelRand(n uint32) uint32 {
	if simOn {
		return uint32((simMix(&simSelState) >> 32) * uint64(n) >> 32)
	}
	return cheaprandn(n)
}

//go:nosplit
func simMono() int64 { return simMonoBase + simTick }

func simNow() (sec int64, nsec int32, mono int64) {
	simClockRead++
	w := simWallBase + simTick
	sec = w / 1000000000
	nsec = int32(w % 1000000000)
	if nsec < 0 {
		sec--
		nsec += 1000000000
	}
	return sec, nsec, simMonoBase + simTick
}

// SimInit turns the simulation on.
func SimInit(seed uint64, wall int64) {
	if simMonoBase == 0 {
		simMonoBase = nanotime()
	}
	simRandState = seed
	simSelState = seed ^ 0xabcdef
	simWallBase = wall - simTick
	simOn = true
}

var simDropPools bool

//go:linkname simNoPool
func simNoPool() bool { return simOn && simDropPools }

// SimNoPool makes sync.Pool forget everything while the simulation is on.
func SimNoPool(b bool) { simDropPools = b }

func SimSeed(seed uint64)  { simRandState = seed }
func SimOff()              { simOn = false }
func SimTick() int64       { return simTick }
func SimAdvance(d int64)   { simTick += d }
func SimWall() int64       { return simWallBase + simTick }
func SimWallStep(d int64)  { simWallBase += d }
func SimClockReads() uint64 { return simClockRead }

// SimGoid returns the id of the calling goroutine.
func SimGoid() uint64 { return getg().goid }

// SimG returns an opaque handle for the calling goroutine.
func SimG() unsafe.Pointer { return unsafe.Pointer(getg()) }

// SimRunnable is the number of goroutines waiting to run.
func SimRunnable() int {
	pp := getg().m.p.ptr()
	n := int(atomic.Load(&pp.runqtail)-atomic.Load(&pp.runqhead)) + int(sched.runq.size)
	if pp.runnext != 0 {
		n++
	}
	return n
}

// SimStatus: 0 dead or reused, 1 runnable or running, 2 waiting, 3 in a
// system call, 4 other; why is the wait reason.
func SimStatus(h unsafe.Pointer, goid uint64) (st int, why string) {
	gp := (*g)(h)
	if gp.goid != goid {
		return 0, ""
	}
	switch readgstatus(gp) &^ _Gscan {
	case _Gdead, _Gidle:
		return 0, ""
	case _Grunnable, _Grunning, _Gcopystack, _Gpreempted:
		return 1, ""
	case _Gwaiting:
		return 2, gp.waitreason.String()
	case _Gsyscall:
		return 3, ""
	}
	return 4, ""
}

func simParkCommit(gp *g, arg unsafe.Pointer) bool {
	if arg != nil {
		goready((*g)(arg), 1)
	}
	return true
}

// SimSwitch parks the calling goroutine and makes the goroutine to (parked in
// SimSwitch) run next, in one step and without any synchronisation that the
// race detector could see. With to == nil it only parks.
func SimSwitch(to unsafe.Pointer) {
	gopark(simParkCommit, to, waitReasonZero, traceBlockGeneric, 1)
}

// SimReady makes a goroutine parked in SimSwitch runnable.
func SimReady(to unsafe.Pointer) { goready((*g)(to), 1) }

// SimTimers returns the number of timers pending, other than the runtime's
// own, and the simulated time, as a tick, of the first to fire.
func SimTimers() (n int, tick int64) {
	tick = -1
	for _, pp := range allp {
		for _, tw := range pp.timers.heap {
			t := tw.timer
			if t == scavenger.timer || t.state&timerZombie != 0 {
				continue
			}
			n++
			w := tw.when
			if t.state&timerModified != 0 {
				w = t.when
			}
			if tick < 0 || w-simMonoBase < tick {
				tick = w - simMonoBase
			}
		}
	}
	return
}
`

// WriteOverlay writes the patched runtime files and the overlay description
// into dir and returns the overlay's path.
func WriteOverlay(goroot, dir string) (string, error) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	text := map[string]string{}
	for _, p := range patches {
		s, ok := text[p.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(goroot, "src", p.file))
			if err != nil {
				return "", err
			}
			s = string(b)
		}
		if n := strings.Count(s, p.old); n != 1 {
			return "", fmt.Errorf("runtime patch for %s matches %d times: %q", p.file, n, p.old)
		}
		text[p.file] = strings.Replace(s, p.old, p.new, 1)
	}
	text["runtime/sim_verif.go"] = simRuntime
	text["os/sim_verif.go"] = simOS
	repl := map[string]string{}
	for f, s := range text {
		out := filepath.Join(dir, strings.ReplaceAll(f, "/", "_"))
		if err := os.WriteFile(out, []byte(s), 0o644); err != nil {
			return "", err
		}
		repl[filepath.Join(goroot, "src", f)] = out
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	out := filepath.Join(dir, "overlay.json")
	return out, os.WriteFile(out, b, 0o644)
}
