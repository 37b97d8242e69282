// Package core holds what every simulation shares: the explicit case (the only input of a run), the
// result, seeded randomness, and crashable nodes.
package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/zzverif/simfs"
)

type Sched struct {
	Mode    uint32 `json:"mode"`
	Preempt uint32 `json:"preempt"`
	Yield   uint32 `json:"yield"`
	TickNs  int64  `json:"tick"`
	Epoch   uint64 `json:"epoch"`
	Seed    uint64 `json:"seed"`
	FsYield uint64 `json:"fsyield"`
	FsSleep uint64 `json:"fssleep"`
	FsUs    int64  `json:"fsus"`
}

type Op struct {
	K string `json:"k"`
	A int64  `json:"a,omitempty"`
	B int64  `json:"b,omitempty"`
	C int64  `json:"c,omitempty"`
	R uint64 `json:"r,omitempty"`
}

// Case is a complete run: replaying it is a pure function of the case and the code.
type Case struct {
	Sim     string           `json:"sim"`
	Profile string           `json:"profile"`
	Seed    uint64           `json:"seed"`
	Sched   Sched            `json:"sched"`
	Params  map[string]int64 `json:"params,omitempty"`
	Ops     []Op             `json:"ops"`
	Faults  []Op             `json:"faults,omitempty"`
	Expect  *Violation       `json:"expect,omitempty"`
}

type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type Result struct {
	Violation *Violation       `json:"violation,omitempty"`
	Error     string           `json:"error,omitempty"`
	Stats     map[string]int64 `json:"stats"`
	Faults    map[string]int64 `json:"faults"`
	States    []uint64         `json:"states,omitempty"` // signatures of the states reached
	Hash      uint64           `json:"hash"`             // schedule trace hash
	Log       uint64           `json:"log"`              // event log hash
	SimNs     int64            `json:"sim_ns"`
	Ticks     uint64           `json:"ticks"`
	Trace     []string         `json:"trace,omitempty"`
	Case      *Case            `json:"case,omitempty"`
}

var (
	Res      = &Result{Stats: map[string]int64{}, Faults: map[string]int64{}}
	TheCase  *Case
	Scratch  string
	outFile  string
	Verbose  bool
	startNs  int64
	logHash  = fnv.New64a()
	statesMu = map[uint64]bool{}
	keepCase bool
)

// Logf appends to the event log.
func Logf(f string, a ...interface{}) {
	runtime.SimNoPreempt(true)
	defer runtime.SimNoPreempt(false)
	s := fmt.Sprintf(f, a...)
	io.WriteString(logHash, s)
	logHash.Write([]byte{10})
	s = fmt.Sprintf("[%.6f] %s\n", float64(runtime.SimGetStats().Now-startNs)/1e9, s)
	if len(Res.Trace) < 4000 {
		Res.Trace = append(Res.Trace, s[:len(s)-1])
	}
	if Verbose {
		runtime.SimWrite(s)
	}
}

var (
	simLog   log15.Lvl
	simTrace bool
	simBreak uint64
)

// logHandler prints the log of the nodes when asked to. Asking has no influence on the run up to level
// 3 (info): the line is built in any case, and with it the layout of the heap is the same.
type logHandler struct{}

func (logHandler) Log(r *log15.Record) error {
	if r.Lvl <= 3 || r.Lvl <= simLog {
		defer noPreempt()()
		s := fmt.Sprintf("[%.6f] # %d %v %s %v\n", float64(runtime.SimGetStats().Now-startNs)/1e9, runtime.SimTag(), r.Lvl, r.Msg, r.Ctx)
		if r.Lvl <= simLog {
			runtime.SimWrite(s)
		}
	}
	return nil
}

// Debugf prints in verbose mode and has no influence on the run.
func Debugf(f string, a ...interface{}) {
	defer noPreempt()()
	s := fmt.Sprintf("[%.6f] # %s\n", float64(runtime.SimGetStats().Now-startNs)/1e9, fmt.Sprintf(f, a...))
	if Verbose {
		runtime.SimWrite(s)
	}
}

// Count adds to a statistic of the run.
func Count(k string, n int64) {
	defer noPreempt()()
	Res.Stats[k] += n
}

// Injected records that a fault of this kind fired.
func Injected(k string, n int64) {
	defer noPreempt()()
	Res.Faults[k] += n
}

func noPreempt() func() {
	runtime.SimNoPreempt(true)
	return func() { runtime.SimNoPreempt(false) }
}

func State(sig uint64) {
	defer noPreempt()()
	if !statesMu[sig] && len(statesMu) < 20000 {
		statesMu[sig] = true
	}
}

func Sig(a ...interface{}) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, a...)
	return h.Sum64()
}

func Finish() {
	if h := simDetach; h != nil {
		h()
	}
	st := runtime.SimGetStats()
	Res.Hash, Res.Ticks, Res.SimNs = st.Hash, st.Ticks, st.Now-startNs
	Res.Log = logHash.Sum64()
	Res.Stats["work"] += int64(runtime.SimWork())
	Res.Stats["yields"] += int64(st.Yields)
	Res.Stats["preempts"] += int64(st.Preempts)
	for k, v := range simfs.Stats {
		Res.Faults[k] += int64(v)
	}
	for s := range statesMu {
		Res.States = append(Res.States, s)
	}
	sort.Slice(Res.States, func(i, j int) bool { return Res.States[i] < Res.States[j] })
	if Res.Violation != nil || keepCase {
		Res.Case = TheCase
	} else if !Verbose {
		Res.Trace = nil
	}
	b, _ := json.Marshal(Res)
	os.SimExit = nil
	if simTrace {
		w, _ := os.Create("trace.txt")
		for i := uint64(0); i < Res.Ticks && i < uint64(len(runtime.SimTrace)); i++ {
			fmt.Fprintf(w, "%d %x\n", i, runtime.SimTrace[i])
		}
		w.Close()
	}
	if err := os.WriteFile(outFile+".tmp", b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	os.Rename(outFile+".tmp", outFile)
	os.Exit(0)
}

var simDetach func()

// Fail records the violation and ends the run.
func Fail(class, f string, a ...interface{}) {
	runtime.SimNoPreempt(true)
	if Res.Violation == nil {
		Res.Violation = &Violation{Class: class, Msg: fmt.Sprintf(f, a...)}
		Logf("VIOLATION %s: %s", class, Res.Violation.Msg)
	}
	Finish()
}

// Bug ends the run with a harness error (never a violation).
func Bug(f string, a ...interface{}) {
	Res.Error = fmt.Sprintf(f, a...) + "\n" + string(debug.Stack())
	Finish()
}

// ---------------------------------------------------------------- randomness

type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed*0x9e3779b97f4a7c15 + 0x1234567} }
func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) Range(lo, hi int) int { return lo + r.N(hi-lo+1) }
func (r *Rand) P(num, den int) bool  { return r.N(den) < num }
func (r *Rand) Pick(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.N(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

// RandSched draws a scheduling policy.
func RandSched(r *Rand) Sched {
	s := Sched{Seed: r.U64(), TickNs: []int64{50, 100, 1000}[r.N(3)], Epoch: []uint64{20, 200, 2000}[r.N(3)]}
	s.Mode = []uint32{1, 1, 2, 2, 3}[r.N(5)]
	s.Preempt = []uint32{0, 0, 2000, 300, 60}[r.N(5)]
	s.Yield = []uint32{0, 50, 10, 4}[r.N(4)]
	s.FsYield = []uint64{0, 1, 2, 4}[r.N(4)]
	s.FsSleep = []uint64{0, 0, 3, 10}[r.N(4)]
	s.FsUs = []int64{100, 2000, 50000}[r.N(3)]
	return s
}

// ---------------------------------------------------------------- nodes

type Node struct {
	Name    string
	Tag     uint32
	Disk    *simfs.Disk
	Dir     string
	Dead    chan struct{}
	IsDead  bool
	Why     string
	OnPanic func(n *Node, msg string)
}

var nodes = map[uint32]*Node{}
var nextTag uint32 = 1
var dirSeq int

// NewDir returns a fresh directory name under the scratch directory.
func NewDir(name string) string {
	dirSeq++
	return fmt.Sprintf("%s-%d", name, dirSeq) // relative to the scratch directory: paths must not depend on the process
}

// Boot creates an incarnation of a node on the given directory.
func Boot(name, dir string) *Node {
	n := &Node{Name: name, Tag: nextTag, Dir: dir, Dead: make(chan struct{})}
	nextTag++
	if nextTag > 4000 {
		Bug("too many incarnations")
	}
	n.Disk = simfs.NewDisk(dir, n.Tag)
	nodes[n.Tag] = n
	return n
}

// Go runs f as a goroutine of the node.
func (n *Node) Go(f func()) {
	go func() {
		runtime.SimSetTag(n.Tag)
		f()
	}()
}

// Crash kills the node now; the disk image after the crash is in the returned directory. It may be
// called from the node's own goroutine (then it does not return).
func (n *Node) Crash(model int, rnd func() uint64, why string) string {
	if n.IsDead {
		return ""
	}
	runtime.SimNoPreempt(true)
	defer runtime.SimNoPreempt(false)
	dir := NewDir(n.Name)
	lost := n.Disk.Image(dir, model, rnd)
	Logf("crash %s model=%d lost=%d why=%s", n.Name, model, lost, why)
	n.Dir = dir
	n.kill(why)
	return dir
}

func (n *Node) kill(why string) {
	n.IsDead = true
	n.Why = why
	n.Disk.Detach()
	runtime.SimKill(n.Tag)
	close(n.Dead)
}

// Park: the calling goroutine of a dead node never runs again.
func Park() {
	for {
		runtime.Gosched()
	}
}

// ---------------------------------------------------------------- entry point

type Sim struct {
	Gen func(profile string, seed uint64, thorough bool) *Case
	Run func(c *Case)
}

var Sims = map[string]Sim{}

func Main() {
	debug.SetGCPercent(-1)
	args := os.Args[1:]
	var sim, profile, caseFile string
	var seed uint64
	thorough := false
	genOnly := false
	for i := 0; i < len(args); i++ {
		v := func() string { i++; return args[i] }
		switch args[i] {
		case "-sim":
			sim = v()
		case "-profile":
			profile = v()
		case "-seed":
			fmt.Sscan(v(), &seed)
		case "-case":
			caseFile = v()
		case "-out":
			outFile = v()
		case "-scratch":
			Scratch = v()
		case "-thorough":
			thorough = true
		case "-v":
			Verbose = true
		case "-gen":
			genOnly = true
		case "-keep":
			keepCase = true
		default:
			if d := args[i]; len(d) == 19 && d[:5] == "-dbg=" {
				Verbose, keepCase, simTrace = d[5] == 'v', d[6] == 'k', d[8] == 't'
				if d[7] != '.' {
					simLog = log15.Lvl(d[7] - '0')
				}
				for _, x := range d[9:] {
					simBreak = simBreak*10 + uint64(x-'0')
				}
				break
			}
			fmt.Fprintln(os.Stderr, "bad argument", args[i])
			os.Exit(4)
		}
	}
	if caseFile != "" {
		b, err := os.ReadFile(caseFile)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
		TheCase = &Case{}
		if err := json.Unmarshal(b, TheCase); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
	} else {
		s, ok := Sims[sim]
		if !ok {
			fmt.Fprintln(os.Stderr, "no sim", sim)
			os.Exit(4)
		}
		TheCase = s.Gen(profile, seed, thorough)
		TheCase.Sim, TheCase.Profile, TheCase.Seed = sim, profile, seed
	}
	if Scratch == "" {
		fmt.Fprintln(os.Stderr, "no scratch directory")
		os.Exit(4)
	}
	if Scratch != "." {
		// First stage: write the case down and start over in the scratch directory with fixed
		// arguments and environment, so that nothing but the case reaches the simulation (not even
		// through the layout of the heap).
		TheCase.Expect = nil
		b, _ := json.Marshal(TheCase)
		if genOnly {
			os.WriteFile(outFile, b, 0644)
			os.Exit(0)
		}
		os.RemoveAll(Scratch)
		os.MkdirAll(Scratch, 0755)
		self, err := os.Readlink("/proc/self/exe") // os.Executable is stubbed
		if err == nil {
			err = os.Chdir(Scratch)
		}
		if err == nil {
			err = os.WriteFile("case.json", b, 0644)
		}
		if err == nil {
			a := []string{"vsim", "-case", "case.json", "-scratch", ".", "-out", "out.json"}
			// what to print has a fixed length too
			d := []byte("-dbg=....0000000000")
			if Verbose {
				d[5] = 'v'
			}
			if keepCase {
				d[6] = 'k'
			}
			if v := os.Getenv("SIMLOG"); v != "" {
				d[7] = v[0]
			}
			if os.Getenv("SIMTRACE") != "" {
				d[8] = 't'
			}
			brk := 0
			fmt.Sscan(os.Getenv("SIMBREAK"), &brk)
			copy(d[9:], fmt.Sprintf("%010d", brk))
			a = append(a, string(d))
			env := []string{"GOGC=off", "GOTRACEBACK=all", "HOME=/nonexistent", "USER=sim", "TZ=UTC"}
			err = syscall.Exec(self, a, env)
		}
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	c := TheCase
	start := int64(1600000000e9)
	if v := c.Params["start"]; v != 0 {
		start = v
	}
	log15.Root().SetHandler(logHandler{})
	runtime.SimInit(runtime.SimConfig{Seed: c.Sched.Seed, Mode: c.Sched.Mode, PreemptEvery: c.Sched.Preempt, YieldOneIn: c.Sched.Yield, TickNs: c.Sched.TickNs, EpochLen: c.Sched.Epoch, StartTime: start})
	startNs = runtime.SimGetStats().Now
	work, simNs := uint64(100e6), int64(40*24*time.Hour)
	if v := c.Params["maxwork"]; v != 0 {
		work = uint64(v)
	}
	if v := c.Params["maxsim_s"]; v != 0 {
		simNs = v * 1e9
	}
	runtime.SimBudget(work, simNs)
	fr := NewRand(c.Sched.Seed ^ 0xf5)
	simfs.Rnd = fr.U64
	simfs.YieldN, simfs.SleepN, simfs.SleepD = c.Sched.FsYield, c.Sched.FsSleep, time.Duration(c.Sched.FsUs)*time.Microsecond
	simfs.Install()
	runtime.SimPanicHook = func(tag uint32, arg interface{}) {
		n := nodes[tag]
		msg := fmt.Sprint(arg)
		if len(msg) > 600 {
			msg = msg[:600]
		}
		st := string(debug.Stack())
		if n == nil {
			Bug("panic in untagged goroutine: %s\n%s", msg, st)
		}
		onNodeDeath(n, "panic: "+msg+"\n"+trimStack(st))
	}
	os.SimExit = func(code int) {
		tag := runtime.SimTag()
		if tag == 0 {
			return
		}
		onNodeDeath(nodes[tag], fmt.Sprintf("os.Exit(%d)\n%s", code, trimStack(string(debug.Stack()))))
	}
	s, ok := Sims[c.Sim]
	if !ok {
		fmt.Fprintln(os.Stderr, "no sim", c.Sim)
		os.Exit(4)
	}
	if simTrace {
		runtime.SimTrace = make([]uint64, 2000000)
	}
	runtime.SimBreak = simBreak
	s.Run(c)
	Finish()
}

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	var out []string
	for _, x := range l {
		if strings.Contains(x, "go-vite") && !strings.Contains(x, "zzverif") {
			out = append(out, strings.TrimSpace(x))
		}
		if len(out) >= 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func onNodeDeath(n *Node, msg string) {
	if n == nil {
		Bug("death of unknown node: %s", msg)
	}
	if !n.IsDead {
		if n.OnPanic != nil {
			n.OnPanic(n, msg)
		} else {
			Fail("panic", "%s died: %s", n.Name, msg)
		}
	}
	Park()
}
