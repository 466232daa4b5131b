//go:build go1.22

// Package rt is the deterministic simulation runtime.
//
// Every goroutine of the program under test, every simulated process and the
// simulated user are Tasks. Exactly one Task runs at a time; who runs next,
// when a running Task is preempted, and every environment decision (faults,
// signal timing) is decided here, from one seed or from a recorded replay.
package rt

import (
	"container/heap"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// ---------------------------------------------------------------- PRNG.

// RNG is splitmix64.
type RNG struct{ s uint64 }

// NewRNG derives an independent stream from a seed and a label.
func NewRNG(seed uint64, label string) *RNG {
	h := uint64(14695981039346656037)
	for i := 0; i < len(label); i++ {
		h = (h ^ uint64(label[i])) * 1099511628211
	}

	r := &RNG{s: seed*0x9E3779B97F4A7C15 ^ h}
	r.U64()
	r.U64()

	return r
}

// U64 returns the next value.
func (r *RNG) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB

	return z ^ (z >> 31)
}

// N returns a value in [0,n).
func (r *RNG) N(n int) int {
	if n <= 1 {
		return 0
	}

	return int(r.U64() % uint64(n))
}

// F returns a float in [0,1).
func (r *RNG) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

// ---------------------------------------------------------------- Configuration.

// Dev is one recorded deviation from the default schedule/environment.
// K: 'p' preempt at statement step, 'q' preempt at sync point, 's' pick of the
// next task, 'c' environment choice.
type Dev struct {
	K string `json:"k"`
	A int64  `json:"a"`
	V int    `json:"v"`
}

// Config is what decides a run.
type Config struct {
	Seed     uint64
	Replay   bool
	Devs     []Dev
	MaxSteps int64 // Hard budget.
	FairAt   int64 // From this step on: fair FIFO scheduling, no faults.
	Race     bool  // Track happens-before for map accesses.
}

// Policy is the per-run (swarm) scheduling policy.
type Policy struct {
	Kind      string  `json:"kind"`
	Slice     int     `json:"slice"`
	PointProb float64 `json:"point"`
	NsPerPick int64   `json:"ns"`
	PCTDepth  int     `json:"depth"`
}

var (
	Cfg Config
	Pol Policy

	schedRNG *RNG
	envRNG   *RNG

	// Steps counts executed statements of the program under test.
	Steps   int64
	nextPre int64 = 1 << 62

	points  int64
	picks   int64
	choices int64

	Now int64 // Simulated nanoseconds.

	DevLog []Dev

	repP, repQ []int64
	repS, repC map[int64]int

	quiet bool // No faults, no random schedule (boot or fair phase).

	Hash     uint64 = 14695981039346656037
	Switches int64

	Fired  = map[string]int{} // Fault kind -> times injected.
	Probes = map[string]int{} // Rare condition -> times hit.

	// Tracing.
	TraceOn  bool
	TraceBuf []string

	EndFn func(kind, detail string) // Called once, when the run ends.
	// QuietFn is called when nothing can run before time passes.
	QuietFn func() bool

	sliceEnd int64
	stepAt   int64
	stepFn   func()

	IdleFn  func() bool // Called when nothing can run; true if it made progress.
	ended   bool
	pctNext []int64
)

// Setup initialises scheduling; must be called once before the program starts.
func Setup(c Config, p Policy) {
	Cfg = c
	Pol = p
	schedRNG = NewRNG(c.Seed, "sched")
	envRNG = NewRNG(c.Seed, "env")

	if c.Replay {
		repS, repC = map[int64]int{}, map[int64]int{}
		for _, d := range c.Devs {
			switch d.K {
			case "p":
				repP = append(repP, d.A)
			case "q":
				repQ = append(repQ, d.A)
			case "s":
				repS[d.A] = d.V
			case "c":
				repC[d.A] = d.V
			}
		}
		sort.Slice(repP, func(i, j int) bool { return repP[i] < repP[j] })
		sort.Slice(repQ, func(i, j int) bool { return repQ[i] < repQ[j] })
	}

	if p.Kind == "pct" {
		for i := 0; i < p.PCTDepth; i++ {
			pctNext = append(pctNext, int64(schedRNG.N(400)))
		}
		sort.Slice(pctNext, func(i, j int) bool { return pctNext[i] < pctNext[j] })
	}

	quiet = true
	newSlice()
}

// Live starts the adversarial phase (after boot).
func Live() {
	quiet = false

	for i := range pctNext {
		pctNext[i] += picks
	}

	newSlice()
}

// IsLive reports whether the adversarial phase is on.
func IsLive() bool { return !quiet }

func newSlice() {
	limit := Cfg.MaxSteps
	if Cfg.FairAt > Steps && Cfg.FairAt < limit {
		limit = Cfg.FairAt
	}

	var n int64 = 1 << 40

	switch {
	case quiet:
		n = 1 << 40
		if Steps >= Cfg.FairAt {
			n = 3000
		}
	case Cfg.Replay:
		for len(repP) > 0 && repP[0] < Steps {
			repP = repP[1:]
		}
		if len(repP) > 0 {
			n = repP[0] - Steps
		}
	case Pol.Slice < 0: // Mixed.
		n = 1 + int64(schedRNG.U64()%(1<<uint(1+schedRNG.N(13))))
	case Pol.Slice > 0:
		n = 1 + int64(schedRNG.N(2*Pol.Slice))
	}

	sliceEnd = Steps + n
	if sliceEnd > limit {
		sliceEnd = limit
	}

	nextPre = sliceEnd
	if stepFn != nil && stepAt < nextPre {
		nextPre = stepAt
	}
}

// AtStep runs f (which must not block) after n steps, or once nothing can run.
func AtStep(n int64, f func()) {
	stepAt, stepFn = Steps+n, f
	if stepAt < nextPre {
		nextPre = stepAt
	}
}

func fireStep() {
	f := stepFn
	stepFn = nil
	f()
}

// Y is inserted before every statement of the program under test.
func Y() {
	Steps++
	if Steps >= nextPre {
		slow()
	}
}

// Prof counts sampled functions (for experiments).
var Prof map[string]int

func slow() {
	if Prof != nil {
		pc := make([]uintptr, 6)
		runtime.Callers(3, pc)
		fr := runtime.CallersFrames(pc)
		s := ""
		for {
			f, more := fr.Next()
			s += " < " + f.Function[strings.LastIndex(f.Function, "/")+1:]
			if !more {
				break
			}
		}
		Prof[s]++
	}

	if ended {
		park()
	}

	if cur == nil {
		nextPre = 1 << 62

		return
	}

	if stepFn != nil && Steps >= stepAt {
		fireStep()
		if Steps < sliceEnd {
			nextPre = sliceEnd
			if stepFn != nil && stepAt < nextPre {
				nextPre = stepAt
			}

			return
		}
	}

	if Steps >= Cfg.MaxSteps {
		End("budget", "no end after the step budget although scheduling was fair and no faults were injected")
	}

	if Steps >= Cfg.FairAt {
		if !quiet {
			quiet = true
			Probes["fair-phase"]++
		}

		newSlice()
		reschedule(true)

		return
	}

	if quiet {
		newSlice()

		return
	}

	if Cfg.Replay {
		for len(repP) > 0 && repP[0] < Steps {
			repP = repP[1:]
		}
		if len(repP) == 0 || repP[0] != Steps {
			newSlice()

			return
		}
		repP = repP[1:]
	}

	DevLog = append(DevLog, Dev{"p", Steps, 0})

	newSlice()
	reschedule(true)
}

// Point is a synchronisation/system call point: a likely place to preempt.
func Point() {
	if cur == nil || ended {
		if ended {
			park()
		}

		return
	}

	Steps += 3 // So that loops without statements of their own end, too.

	points++

	if quiet {
		return
	}

	pre := false

	if Cfg.Replay {
		for len(repQ) > 0 && repQ[0] < points {
			repQ = repQ[1:]
		}
		pre = len(repQ) > 0 && repQ[0] == points
	} else {
		pre = Pol.PointProb > 0 && schedRNG.F() < Pol.PointProb
	}

	if pre {
		DevLog = append(DevLog, Dev{"q", points, 0})

		reschedule(true)
	}
}

// Choose makes an environment decision: 0 is the default.
// With probability prob one of 1..n-1 is chosen.
func Choose(kind string, n int, prob float64) int {
	choices++

	if n <= 1 {
		return 0
	}

	if quiet && cur != nil {
		return 0
	}

	v := 0

	if Cfg.Replay {
		v = repC[choices] % n
	} else if prob > 0 && envRNG.F() < prob {
		v = 1 + envRNG.N(n-1)
	}

	if v != 0 {
		DevLog = append(DevLog, Dev{"c", choices, v})
		Fired[kind]++
		Trace("choice %s=%d", kind, v)
	}

	return v
}

// ---------------------------------------------------------------- Tasks.

// Task states.
const (
	Runnable = iota
	Running
	Blocked
	Done
)

// Task is one simulated thread of control.
type Task struct {
	ID     int
	Name   string
	Proc   interface{}
	State  int
	Why    string
	Frozen bool // Its process is stopped or gone.
	Killed bool // Unwind at the next scheduling point.
	Daemon bool
	wake   chan struct{}
	prio   uint64
	VC     []int32
	Data   interface{}
}

var (
	cur    *Task
	Tasks  []*Task
	runq   []*Task
	parked = make(chan struct{})
)

// Vanish ends the running task of a killed simulated process: nothing of it,
// deferred functions included, runs again.
func Vanish() {
	t := cur
	t.State = Done
	Trace("end")
	dispatch(pick())
	park()
}

// Cur returns the running task.
func Cur() *Task { return cur }

// NewTask creates a task record.
func NewTask(name string, proc interface{}) *Task {
	t := &Task{ID: len(Tasks), Name: name, Proc: proc, wake: make(chan struct{}, 1), State: Blocked}
	t.prio = 1 << 32

	if schedRNG != nil {
		t.prio = 1<<32 + schedRNG.U64()>>32
	}

	Tasks = append(Tasks, t)

	if Cfg.Race {
		if cur != nil {
			t.VC = append([]int32(nil), cur.VC...)
			vcTick(cur)
		}
		vcTick(t)
	}

	return t
}

// Adopt makes the calling goroutine the (running) first task.
func Adopt(name string, proc interface{}) *Task {
	t := NewTask(name, proc)
	t.State = Running
	cur = t

	return t
}

// CrashFn is told about panics that escape a goroutine of the program under test.
var CrashFn func(v interface{}, stack string)

// Start creates a runnable task executing fn.
func Start(name string, proc interface{}, fn func()) *Task {
	t := NewTask(name, proc)

	go func() {
		<-t.wake

		defer func() {
			r := recover()
			if r != nil {
				if CrashFn != nil {
					CrashFn(r, string(debug.Stack()))
				} else {
					fmt.Fprintf(os.Stderr, "panic: %v\n%s", r, debug.Stack())
					os.Exit(3)
				}
			}

			t.State = Done
			Trace("end")
			dispatch(pick())
		}()

		if t.Killed {
			Vanish()
		}

		fn()
	}()

	Ready(t)

	return t
}

// Go implements the go statement.
func Go(fn func()) {
	name := "g"
	var proc interface{}

	if cur != nil {
		proc = cur.Proc
	}

	Start(name, proc, fn)
	Point()
}

// Ready makes t runnable.
func Ready(t *Task) {
	if t.State != Blocked {
		return
	}

	t.State = Runnable
	t.Why = ""
	runq = append(runq, t)
}

// Block suspends the current task until Ready is called on it.
func Block(why string) {
	t := cur
	if t == nil {
		panic("zsim: block outside of a task: " + why)
	}

	t.State = Blocked
	t.Why = why

	switchTo(pick(), t)
}

// reschedule gives up the processor but stays runnable.
func reschedule(preempted bool) {
	t := cur
	t.State = Runnable
	runq = append(runq, t)

	n := pick()
	if preempted && n == t {
		t.State = Running
		return
	}

	switchTo(n, t)
}

// Yield lets other tasks run.
func Yield() {
	if cur != nil {
		reschedule(false)
	}
}

func dispatch(n *Task) {
	n.State = Running
	cur = n

	n.wake <- struct{}{}
}

func switchTo(n, self *Task) {
	if n == self {
		n.State = Running
		cur = n
	} else {
		Switches++
		Hash = (Hash ^ uint64(n.ID) ^ uint64(len(self.Why))<<8) * 1099511628211

		dispatch(n)
		<-self.wake
	}

	if ended {
		park()
	}

	if self.Killed {
		Vanish()
	}

	if TraceOn && n != self {
		Trace("run")
	}
}

// park stops the calling goroutine for good; the run is over.
func park() {
	<-parked
}

// pick removes and returns the next task to run from the run queue.
func pick() *Task {
	for {
		Now += Pol.NsPerPick
		if Pol.NsPerPick < 20000 && Steps >= Cfg.FairAt {
			// Time passes, too.
			Now += 20000
		}
		fireTimers(false)

		var idx [64]int

		c := idx[:0]
		for i, t := range runq {
			if !t.Frozen || t.Killed {
				c = append(c, i)
			}
		}

		if len(c) == 0 {
			if stepFn != nil {
				fireStep()

				continue
			}

			if QuietFn != nil && QuietFn() {
				continue
			}

			if fireTimers(true) {
				continue
			}

			if IdleFn != nil && IdleFn() {
				continue
			}

			End("hang", BlockedSummary())
		}

		k := choosePick(c)
		i := c[k]
		t := runq[i]

		copy(runq[i:], runq[i+1:])
		runq[len(runq)-1] = nil
		runq = runq[:len(runq)-1]

		return t
	}
}

func choosePick(c []int) int {
	picks++

	if len(c) == 1 || quiet {
		if quiet && Steps >= Cfg.MaxSteps {
			End("budget", "no end after the step budget although scheduling was fair and no faults were injected")
		}

		return 0
	}

	if Steps >= Cfg.FairAt {
		quiet = true
		Probes["fair-phase"]++

		return 0
	}

	k := 0

	if Cfg.Replay {
		k = repS[picks] % len(c)
	} else {
		switch Pol.Kind {
		case "fifo":
			if schedRNG.F() < 0.02 {
				k = schedRNG.N(len(c))
			}
		case "lifo":
			k = len(c) - 1
			if schedRNG.F() < 0.05 {
				k = schedRNG.N(len(c))
			}
		case "pct":
			best := -1
			for i, x := range c {
				if best < 0 || runq[x].prio > runq[c[best]].prio {
					best = i
				}
			}
			k = best

			if len(pctNext) > 0 && picks >= pctNext[0] {
				runq[c[k]].prio = uint64(len(pctNext))
				pctNext = pctNext[1:]
			}
		default:
			k = schedRNG.N(len(c))
		}
	}

	if k != 0 {
		DevLog = append(DevLog, Dev{"s", picks, k})
	}

	return k
}

// BlockedSummary describes what every blocked task waits for.
func BlockedSummary() string {
	var b strings.Builder

	for _, t := range Tasks {
		if t.State == Blocked || t.Frozen && t.State != Done {
			f := ""
			if t.Frozen {
				f = " (stopped)"
			}

			fmt.Fprintf(&b, "task %d %s: %s%s; ", t.ID, t.Name, t.Why, f)
		}
	}

	return b.String()
}

// End finishes the run. It never returns.
func End(kind, detail string) {
	if ended {
		park()
	}

	ended = true
	EndFn(kind, detail)
	os.Exit(4)
}

// ---------------------------------------------------------------- Timers.

type timer struct {
	at  int64
	seq int64
	f   func()
	off bool
	idx int
}

type timerHeap []*timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) {
	h[i], h[j] = h[j], h[i]
	h[i].idx, h[j].idx = i, j
}
func (h *timerHeap) Push(x interface{}) {
	t := x.(*timer)
	t.idx = len(*h)
	*h = append(*h, t)
}
func (h *timerHeap) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]

	return x
}

var (
	timers   timerHeap
	timerSeq int64
)

// After runs f (which must not block) once d simulated nanoseconds have passed.
// The returned function cancels the timer and reports whether it did.
func After(d int64, f func()) func() bool {
	timerSeq++

	t := &timer{at: Now + d, seq: timerSeq, f: f}
	heap.Push(&timers, t)

	return func() bool {
		if t.off {
			return false
		}

		t.off = true

		return true
	}
}

// Pending is true if there are timers.
func Pending() bool {
	for _, t := range timers {
		if !t.off {
			return true
		}
	}

	return false
}

func fireTimers(jump bool) bool {
	fired := false

	for len(timers) > 0 {
		t := timers[0]
		if t.off {
			heap.Pop(&timers)
			continue
		}

		if t.at > Now {
			if !jump || fired {
				break
			}
			Now = t.at
		}

		heap.Pop(&timers)

		t.off = true
		fired = true
		t.f()
	}

	return fired
}

// Sleep blocks the current task.
func Sleep(d int64) {
	t := cur
	After(d, func() { Ready(t) })
	Block("sleep")
}

// ---------------------------------------------------------------- Trace.

// Trace records a line of the execution trace (never draws randomness).
func Trace(format string, args ...interface{}) {
	if !TraceOn {
		return
	}

	id, name := -1, ""
	if cur != nil {
		id, name = cur.ID, cur.Name
	}

	TraceBuf = append(TraceBuf, fmt.Sprintf("%d t%d/%s %s", Steps, id, name, fmt.Sprintf(format, args...)))
	if len(TraceBuf) > 60000 {
		TraceBuf = append([]string{"..."}, TraceBuf[30000:]...)
	}
}

// Mix folds a value into the interleaving hash.
func Mix(v uint64) { Hash = (Hash ^ v) * 1099511628211 }

// ---------------------------------------------------------------- Finalizers.

// Finalizers never run by themselves (the garbage collector's timing is not
// part of the simulation); Collect runs those of unreachable objects.

type collectable struct {
	seq int
	run func()
}

var (
	collectSeq int
	collectMu  = make(chan struct{}, 1)
	collected  []collectable
)

// OnCollect arranges for fn to run in Collect when p has become unreachable.
func OnCollect[T any](p *T, fn func(*T)) {
	seq := CollectSeq()

	runtime.SetFinalizer(p, func(x *T) { AddCollected(seq, func() { fn(x) }) })
}

// CollectSeq numbers finalizers.
func CollectSeq() int {
	collectSeq++

	return collectSeq
}

// AddCollected queues the finalizer of an object found unreachable.
func AddCollected(seq int, fn func()) {
	collectMu <- struct{}{}
	collected = append(collected, collectable{seq, fn})
	<-collectMu
}

// Uncollect cancels OnCollect.
func Uncollect[T any](p *T) { runtime.SetFinalizer(p, nil) }

// Collect runs the finalizers of unreachable objects.
func Collect() int {
	total := 0

	for round := 0; round < 4; round++ {
		for i := 0; i < 2; i++ {
			done := make(chan struct{})
			s := &struct{ x [64]byte }{}
			runtime.SetFinalizer(s, func(*struct{ x [64]byte }) { close(done) })
			s = nil
			runtime.GC()
			<-done
		}

		// The finalizer goroutine runs one at a time, in an arbitrary order.
		time.Sleep(2 * time.Millisecond)

		collectMu <- struct{}{}
		l := collected
		collected = nil
		<-collectMu

		if len(l) == 0 {
			break
		}

		sort.Slice(l, func(i, j int) bool { return l[i].seq < l[j].seq })
		for _, c := range l {
			c.run()
			total++
		}
	}

	return total
}
