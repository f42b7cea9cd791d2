// Package plan holds what the orchestrator tells a simulated process to do and
// what the process reports back.
package plan

// Op kinds.
const (
	OpParse    = "parse"    // parse Sources[S]
	OpEncode   = "encode"   // encode the task's last query as JSON
	OpDecode   = "decode"   // decode Records[S]
	OpScribble = "scribble" // overwrite everything reachable from the task's last query
	OpDrop     = "drop"     // forget the task's last query
	OpHold     = "hold"     // keep only a part of the task's last query
	OpStore    = "store"    // parse Sources[S] and store it on the simulated disk as file Rec
	OpMove     = "move"     // load file From and store what was read as file Rec
	OpLoad     = "load"     // read file Rec from the simulated disk and decode it
	OpRead     = "read"     // read all of shared query S
	OpCopy     = "copy"     // copy shared query S and modify the copy's top level
	OpEncSh    = "encsh"    // encode shared query S, variant Arg
	OpGC       = "gc"       // force a garbage collection
	OpMem      = "mem"      // measure live memory
)

// Op kinds of pages.
const (
	OpCall    = "call"    // parseSoql(Sources[S]), arguments as Arg says
	OpVersion = "version" // getVersion()
	OpBoot    = "boot"    // start the module again
)

type Op struct {
	K     string `json:"k"`
	S     int    `json:"s,omitempty"`
	Rec   string `json:"rec,omitempty"`
	From  string `json:"from,omitempty"`
	Arg   int    `json:"arg,omitempty"`
	Fault *Disk  `json:"fault,omitempty"`
	// Keep the result until the end of the process.
	Drop bool `json:"drop,omitempty"`
}

// Disk fault during a store.
type Disk struct {
	Kind string `json:"kind"` // short, enospc, eio, nosync (crash before sync is decided by the crash point)
	At   int    `json:"at"`   // byte at which it strikes
	Read int    `json:"read"` // loads: bytes per read call
}

type Decision struct {
	Task  int32 `json:"t"`
	Kind  int32 `json:"k"`
	Local int64 `json:"l"`
	Arg   int64 `json:"a"`
}

// Cfg mirrors simrt.Config.
type Cfg struct {
	Seed       uint64     `json:"seed"`
	Policy     int        `json:"policy"`
	Gap        int64      `json:"gap,omitempty"`
	ChangePts  int        `json:"changePts,omitempty"`
	EstSteps   int64      `json:"estSteps,omitempty"`
	HotMod     uint64     `json:"hotMod,omitempty"`
	HotList    []int32    `json:"hotList,omitempty"`
	HotFreeze  int64      `json:"hotFreeze,omitempty"`
	FaultGap   int64      `json:"faultGap,omitempty"`
	Faults     []int      `json:"faults,omitempty"`
	MaxStall   int64      `json:"maxStall,omitempty"`
	DepOnly    bool       `json:"depOnly,omitempty"`
	CrashAt    int64      `json:"crashAt,omitempty"`
	Explicit   bool       `json:"explicit,omitempty"`
	Decisions  []Decision `json:"decisions,omitempty"`
	StepBound  int64      `json:"stepBound,omitempty"`
	FairBound  int64      `json:"fairBound,omitempty"`
	StepCost   int64      `json:"stepCost,omitempty"`
	DrainSteps int64      `json:"drainSteps,omitempty"`
}

// Task is a caller. With Loop it repeats its operations so many times; results
// report the first round through them, or the first repetition that differs.
type Task struct {
	Ops  []Op `json:"ops"`
	Loop int  `json:"loop,omitempty"`
	Deep int  `json:"deep,omitempty"` // frames of the caller's own recursion below the calls
}

// Times is how often the task goes through its operations.
func (t *Task) Times() int {
	if t.Loop > 1 {
		return t.Loop
	}
	return 1
}

type Round struct {
	Cfg   Cfg    `json:"cfg"`
	Wall  int64  `json:"wall"` // unix ns at the start of the round
	Tasks []Task `json:"tasks"`
}

// Process is the life of one simulated process.
type Process struct {
	Sources []string          `json:"sources,omitempty"`
	Records []string          `json:"records,omitempty"` // base64
	Files   map[string]string `json:"files,omitempty"`   // base64, durable content at boot
	Zone    int               `json:"zone,omitempty"`
	Host    int               `json:"host,omitempty"`   // environment variables, processors, process id, host name, startup hash seed
	Shared  []int             `json:"shared,omitempty"` // sources parsed before round 0 and shared by all tasks
	ShDec   bool              `json:"shDec,omitempty"`  // shared queries are decoded copies
	Rounds  []Round           `json:"rounds"`
	Owner   bool              `json:"owner,omitempty"`   // check ownership at the end
	Bytes   bool              `json:"bytes,omitempty"`   // report encoded bytes
	Dumps   bool              `json:"dumps,omitempty"`   // report dumps
	Persist bool              `json:"persist,omitempty"` // compute persistent-view digests
	Leak    bool              `json:"leak,omitempty"`    // track sources and queries with cleanups
	NoPool  bool              `json:"noPool,omitempty"`  // race build: sync.Pool keeps nothing
	AutoGC  int               `json:"autoGC,omitempty"`  // collect after every n operations
	Sweep   bool              `json:"sweep,omitempty"`   // report sites reached
	Old     bool              `json:"old,omitempty"`     // runs the released version
	Fixed   bool              `json:"fixed,omitempty"`   // persistent views contain nothing but what the released version carries
	// Page: a web page that uses the browser module, instead of a process. Its
	// tasks are event sources; their operations are the following kinds.
	Page bool `json:"page,omitempty"`
}

// OpResult is what one operation did.
type OpResult struct {
	Round   int    `json:"r"`
	Task    int    `json:"t"`
	Op      int    `json:"o"`
	K       string `json:"k"`
	S       int    `json:"s"`
	Rec     string `json:"rec,omitempty"`
	Done    bool   `json:"done"`
	Iter    int    `json:"iter,omitempty"` // repetition the result is from
	Err     string `json:"err,omitempty"`
	Panic   string `json:"panic,omitempty"`
	Digest  string `json:"d,omitempty"` // digest of the result
	After   string `json:"a,omitempty"` // digest at the end of the process, if it changed
	PDigest string `json:"p,omitempty"` // digest of the persistent view
	EncErr  string `json:"encErr,omitempty"`
	Bytes   string `json:"b,omitempty"` // base64
	Dump    string `json:"dump,omitempty"`
	PDump   string `json:"pdump,omitempty"`
	Fix     string `json:"fix,omitempty"` // why re-encoding is not a fixpoint
	Acked   bool   `json:"acked,omitempty"`
	WS      int64  `json:"ws,omitempty"` // stores: global step at the first write
	Inv     int64  `json:"inv"`          // global step at invocation and return
	Ret     int64  `json:"ret"`
	Steps   int64  `json:"steps"` // own steps
	// Clock readings (C05); WN is the number of wall-clock steps between W0 and FDW
	WN                      int64  `json:"wn,omitempty"`
	T0, W0, T1, FD, FDW, LD int64  `json:",omitempty"`
	Date                    int64  `json:"date,omitempty"`
	Elapsed                 int64  `json:"el,omitempty"`
	Loc                     string `json:"loc,omitempty"`
	Heap                    int64  `json:"heap,omitempty"`
	Objs                    int64  `json:"objs,omitempty"`
	Gor                     int    `json:"gor,omitempty"`
	LiveQ                   int64  `json:"liveQ,omitempty"`
	LiveS                   int64  `json:"liveS,omitempty"`
}

type RoundResult struct {
	Steps     int64      `json:"steps"`
	Crashed   bool       `json:"crashed,omitempty"`
	Deadlock  string     `json:"deadlock,omitempty"`
	Livelock  string     `json:"livelock,omitempty"`
	Overflow  bool       `json:"overflow,omitempty"`
	Fair      bool       `json:"fair,omitempty"`
	Hash      string     `json:"hash"`
	Decisions []Decision `json:"decisions,omitempty"`
	DecLost   int        `json:"decLost,omitempty"`
	Native    int64      `json:"native,omitempty"`
	TimeJumps int64      `json:"timeJumps,omitempty"`
	SimNs     int64      `json:"simNs"`
	Children  int        `json:"children,omitempty"`
	LeftOver  int        `json:"leftOver,omitempty"`
	LeftTimer int        `json:"leftTimer,omitempty"`
	Locals    []int64    `json:"locals,omitempty"`
}

type Outcome struct {
	Ops      []OpResult        `json:"ops"`
	Rounds   []RoundResult     `json:"rounds"`
	Injected [16]int64         `json:"injected"`
	DiskF    map[string]int    `json:"diskF,omitempty"`
	Races    int               `json:"races,omitempty"`
	Owner    []string          `json:"owner,omitempty"` // ownership violations
	Pairs    int               `json:"pairs,omitempty"` // result pairs compared
	Files    map[string]string `json:"files,omitempty"` // durable files after the process died
	Shared   []string          `json:"shared,omitempty"`
	Sites    []int             `json:"sites,omitempty"`
	Cut      []int             `json:"cut,omitempty"`   // sites at which a task was preempted
	Reads    int64             `json:"reads,omitempty"` // clock reads
	Other    map[string]int    `json:"other,omitempty"` // faults of other kinds
	// BaseGor is the number of goroutines before the first call.
	BaseGor int `json:"baseGor"`
	EndGor  int `json:"endGor"`
}
