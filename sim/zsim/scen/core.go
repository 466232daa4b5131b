//go:build go1.22

// Package scen generates the scenarios, provides the simulated environment's
// programs and judges the runs.
package scen

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"

	"zsim/kern"
	"zsim/rt"
)

// Input is everything that decides a run.
type Input struct {
	Prop    string     `json:"prop"`
	Seed    uint64     `json:"seed"`
	Tape    []int      `json:"tape,omitempty"`
	UseTape bool       `json:"use_tape,omitempty"`
	Replay  bool       `json:"replay,omitempty"` // Follow Devs instead of drawing.
	Devs    []rt.Dev   `json:"devs,omitempty"`
	Policy  *rt.Policy `json:"policy,omitempty"`
	Trace   bool       `json:"trace,omitempty"`
	Tier    string     `json:"tier,omitempty"`
}

// Output is what a run produced.
type Output struct {
	Prop     string         `json:"prop"`
	Seed     uint64         `json:"seed"`
	Family   string         `json:"family"`
	End      string         `json:"end"`
	Detail   string         `json:"detail,omitempty"`
	Viol     string         `json:"viol,omitempty"` // Signature class.
	Msg      string         `json:"msg,omitempty"`
	Tape     []int          `json:"tape,omitempty"`
	Devs     []rt.Dev       `json:"devs,omitempty"`
	Policy   rt.Policy      `json:"policy"`
	Hash     uint64         `json:"hash"`
	Steps    int64          `json:"steps"`
	BootEnd  int64          `json:"boot"`
	Switches int64          `json:"switches"`
	SimNs    int64          `json:"sim_ns"`
	Tasks    int            `json:"tasks"`
	Procs    int            `json:"procs"`
	Fired    map[string]int `json:"fired,omitempty"`
	Probes   map[string]int `json:"probes,omitempty"`
	Status   int            `json:"status"`
	Desc     string         `json:"desc,omitempty"`
	Trace    []string       `json:"trace,omitempty"`
	Events   []string       `json:"events,omitempty"`
}

// Gen draws the scenario's choices from a tape.
type Gen struct {
	rng *rt.RNG
	in  []int
	use bool
	pos int
	out []int
}

// N draws from [0,n).
func (g *Gen) N(n int) int {
	if n < 1 {
		n = 1
	}

	v := 0

	switch {
	case g.use && g.pos < len(g.in):
		v = g.in[g.pos] % n
		if v < 0 {
			v = 0
		}
	case g.use:
	default:
		v = g.rng.N(n)
	}

	g.pos++
	g.out = append(g.out, v)

	return v
}

// R draws from [a,b].
func (g *Gen) R(a, b int) int { return a + g.N(b-a+1) }

// P is true with probability pct/100; false is the simplest value.
func (g *Gen) P(pct int) bool { return g.N(100) >= 100-pct }

// Pick draws one of the strings.
func (g *Gen) Pick(s ...string) string { return s[g.N(len(s))] }

// Scenario is one generated test.
type Scenario struct {
	Family   string
	Setup    func()
	Script   []string      // Script mode (joined with newlines).
	Command  string        // -c mode.
	Keys     []Key         // Interactive mode, if Tty.
	Next     func() *Key   // What the user does after Keys.
	Desc     func() string // Describes what Next does.
	Tty      bool
	RC       string   // The user's rc file.
	Opts     []string // Extra options, before the script.
	Args     []string
	Env      []string
	Stdin    *kern.Inode
	Fault    map[string]float64
	FaultMax int
	MaxSteps int64 // After boot.
	FairAt   int64
	Race     bool
	Check    func(r *Run) // Calls r.Fail.
	NoHang   bool         // A hang is judged by Check, too.
	Sched    *rt.Policy   // Overrides the swarm policy.
	StubSlow bool
	Inv      func() string // Checked at system calls.
	FaultGo  string        // The event that starts the faults, and
	FaultEnd string        // the one that ends them.
}

// Run is a finished run.
type Run struct {
	S      *Scenario
	End    string
	Detail string
	Status int // Exit status of the shell, -1 if it did not exit.
	Signal int
	Viol   string
	Msg    string
	K      *kern.Kern
}

// Fail records a violation (the first one counts).
func (r *Run) Fail(class, format string, args ...any) {
	if r.Viol == "" {
		r.Viol = class
		r.Msg = fmt.Sprintf(format, args...)
	}
}

var (
	In     Input
	S      *Scenario
	G      *Gen
	inited bool
	bootAt int64 = -1
	crash  string
	race   string

	// Registry maps properties to generators.
	Registry = map[string]func(g *Gen) *Scenario{}

	rands = map[string]*rt.RNG{}
)

// Rand draws environment randomness (not part of the tape).
func Rand(label string) uint64 {
	r := rands[label]
	if r == nil {
		r = rt.NewRNG(In.Seed, "rand/"+label)
		rands[label] = r
	}

	return r.U64()
}

func swarm(seed uint64) rt.Policy {
	r := rt.NewRNG(seed, "policy")
	p := rt.Policy{}
	p.Kind = []string{"random", "random", "random", "pct", "pct", "lifo", "fifo"}[r.N(7)]
	p.Slice = []int{-1, -1, 6, 30, 150, 600, 3000, 20000}[r.N(8)]
	p.PointProb = []float64{0, 0.02, 0.1, 0.3, 0.6}[r.N(5)]
	p.NsPerPick = []int64{100, 1000, 20000, 200000}[r.N(4)]
	p.PCTDepth = 1 + r.N(6)

	return p
}

const rcPath = "/home/u/.oh-rc-none"

// Init builds the simulated world.
func Init() {
	if inited {
		return
	}
	inited = true

	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1500 << 20)
	debug.SetMaxStack(256 << 20)

	input := []byte(os.Getenv("ZSIM_INPUT"))
	if os.Getenv("ZSIM_STDIN") != "" {
		input, _ = io.ReadAll(os.Stdin)
	}

	if err := json.Unmarshal(input, &In); err != nil {
		fmt.Fprintln(os.Stderr, "zsim: bad ZSIM_INPUT:", err)
		os.Exit(97)
	}

	pol := swarm(In.Seed)
	if In.Policy != nil {
		pol = *In.Policy
	}

	rt.TraceOn = In.Trace

	k := kern.New()
	world(k)

	G = &Gen{rng: rt.NewRNG(In.Seed, "gen"), in: In.Tape, use: In.UseTape}

	build := Registry[In.Prop]
	if build == nil {
		fmt.Fprintln(os.Stderr, "zsim: unknown property", In.Prop)
		os.Exit(97)
	}

	// The generators may register files and programs directly.
	S = build(G)

	if S.Sched != nil && In.Policy == nil {
		pol = *S.Sched
	}

	if S.MaxSteps == 0 {
		S.MaxSteps = 60000000
	}
	if S.FairAt == 0 {
		S.FairAt = 30000000
	}

	cfg := rt.Config{Seed: In.Seed, Replay: In.Replay, Devs: In.Devs, MaxSteps: 1 << 40, FairAt: 1 << 40, Race: S.Race}
	rt.Setup(cfg, pol)

	sh := k.NewProc(nil, "oh")
	sh.IsShell = true
	sh.Cwd = "/home/u"
	sh.MaxFds = 1 << 20
	k.Shell = sh
	sh.Env = append([]string{
		"HOME=/home/u", "PATH=/bin", "USER=u", "OH_RC=" + rcPath, "TMPDIR=/tmp", "TERM=xterm",
	}, S.Env...)

	args := []string{"/bin/oh"}
	args = append(args, S.Opts...)

	var in *kern.OFD

	if S.Tty {
		t := k.NewTTY()
		t.Fg = sh.PGID
		t.SID = sh.SID
		in = &kern.OFD{Ino: t.Ino, Path: "/dev/tty", Rd: true, Wr: true}
		sh.Fds[0], sh.Fds[1], sh.Fds[2] = in, in.Get(), in.Get()
		in.Get()
	} else {
		ino := S.Stdin
		if ino == nil {
			ino = k.Root.Ents["dev"].Ents["null"]
		}
		in = &kern.OFD{Ino: ino, Path: "stdin", Rd: true, Pipe: ino.Pipe}
		sh.Fds[0] = in.Get()
		Out = k.NewSink()
		Err = k.NewSink()
		sh.Fds[1] = (&kern.OFD{Ino: Out, Path: "stdout", Wr: true}).Get()
		sh.Fds[2] = (&kern.OFD{Ino: Err, Path: "stderr", Wr: true}).Get()

		if S.Command != "" {
			args = append(args, "-c", S.Command)
		} else {
			k.Put("/home/u/script.oh", kern.Reg, 0o644, strings.Join(S.Script, "\n")+"\n")
			args = append(args, "/home/u/script.oh")
		}
	}

	sh.Argv = append(args, S.Args...)
	os.Args = sh.Argv

	k.FaultMax = 1 << 30
	if S.FaultMax > 0 {
		k.FaultMax = S.FaultMax
	}
	for n, p := range S.Fault {
		k.Fault[n] = p
	}

	k.LookHook = func(p *kern.Proc, path string) {
		if bootAt < 0 && p.IsShell && path == rcPath {
			live()
		}
	}

	rt.EndFn = end
	rt.IdleFn = idle
	rt.CrashFn = func(v any, stack string) {
		crash = fmt.Sprintf("panic: %v\n%s", v, trimStack(stack))
		k.Log("crash", sh.PID, fmt.Sprint(v))
		rt.End("crash", crash)
	}
	rt.RaceFn = func(what string) {
		k.Log("crash", sh.PID, "fatal error: "+what)
		rt.End("crash", "fatal error: "+what+"\n"+trimStack(string(debug.Stack())))
	}
	rt.Stderr = func(s string) {
		t := strings.TrimSpace(s)
		if strings.HasPrefix(t, "ev ") {
			k.Log("ev", sh.PID, strings.TrimPrefix(t, "ev "))
			switch e := strings.TrimPrefix(t, "ev "); {
			case S.FaultGo != "" && e == S.FaultGo:
				k.FaultsOn = true
			case S.FaultEnd != "" && e == S.FaultEnd:
				k.FaultsOn = false
			}
			if OnEv != nil {
				OnEv(strings.TrimPrefix(t, "ev "))
			}

			return
		}

		k.Log("println", sh.PID, t)

		if o := sh.Fds[2]; o != nil {
			if o.Ino.Kind == kern.Sink {
				o.Ino.Log = append(o.Ino.Log, kern.Chunk{Step: rt.Steps, Time: rt.Now, PID: sh.PID, Data: s})
			} else if o.Ino.Kind == kern.Tty {
				k.Tty.Out.Log = append(k.Tty.Out.Log, kern.Chunk{Step: rt.Steps, Time: rt.Now, PID: sh.PID, Data: s})
			}
		}
	}

	rt.Adopt("main", sh)

	if S.RC != "" {
		k.Put(rcPath, kern.Reg, 0o644, S.RC)
	}

	if S.Setup != nil {
		S.Setup()
	}
}

// Out and Err are the shell's standard output and error in script mode.
var Out, Err *kern.Inode

func live() {
	bootAt = rt.Steps
	rt.Cfg.MaxSteps = rt.Steps + S.MaxSteps
	rt.Cfg.FairAt = rt.Steps + S.FairAt
	kern.K.FaultsOn = S.FaultGo == ""

	base := []string{}
	for _, e := range kern.K.Events {
		base = append(base, e.Kind)
	}
	kern.K.Events = nil

	for _, f := range OnLive {
		f()
	}

	if S.Tty {
		startUser()
	}

	rt.Live()
}

// OnEv is called with every event of the script.
var OnEv func(text string)

// OnLive runs when the shell has booted.
var OnLive []func()

func trimStack(s string) string {
	l := []string{}
	for _, x := range strings.Split(s, "\n") {
		if strings.Contains(x, "/zsim/") || strings.Contains(x, "zsim/") || strings.Contains(x, "runtime/") {
			continue
		}
		l = append(l, x)
		if len(l) > 30 {
			break
		}
	}

	return strings.Join(l, "\n")
}

// idle is called when nothing can run and no timer is pending.
func idle() bool {
	k := kern.K

	if k.Shell.State == 'Z' || k.Shell.State == 'X' {
		// Let the orphans finish: close what the shell's stopped children hold.
		for _, p := range k.Order {
			if p.State == 'T' && !p.IsShell {
				k.Log("drain", p.PID, "kill stopped "+p.Name)
				p.Signal(syscall.SIGKILL)

				return true
			}
		}

		rt.End("exit", "")
	}

	if UserIdle != nil && UserIdle() {
		return true
	}

	return false
}

// UserIdle lets the simulated user act when everything is quiet.
var UserIdle func() bool

func end(kind, detail string) {
	k := kern.K
	r := &Run{S: S, End: kind, Detail: detail, Status: -1, K: k}

	if k.Shell.State == 'Z' || k.Shell.State == 'X' {
		if k.Shell.Status&0x7f != 0 {
			r.Signal = int(k.Shell.Status & 0x7f)
		} else {
			r.Status = int(k.Shell.Status >> 8)
		}
	}

	if bootAt < 0 && kind != "harness" {
		r.Fail("boot", "the shell ended (%s) before it had started: %s", kind, detail)
	}

	switch kind {
	case "crash":
		r.Fail("crash", "the shell crashed: %s", detail)
	case "budget":
		r.Fail("budget", "%s; %s", detail, rt.BlockedSummary())
	case "hang":
		if !S.NoHang {
			r.Fail("hang", "nothing can run any more: %s", detail)
		}
	case "stuck":
		if !S.NoHang {
			r.Fail("stuck", "%s; %s", detail, rt.BlockedSummary())
		}
	case "inv":
		r.Fail("invariant", "%s", detail)
	}

	if r.Viol == "" && S.Check != nil {
		func() {
			defer func() {
				if v := recover(); v != nil {
					kind = "harness"
					detail = fmt.Sprintf("check panicked: %v\n%s", v, debug.Stack())
				}
			}()

			S.Check(r)
		}()
	}

	o := Output{
		Prop: In.Prop, Seed: In.Seed, Family: S.Family, End: kind, Detail: detail, Viol: r.Viol, Msg: r.Msg,
		Policy: rt.Pol, Hash: rt.Hash, Steps: rt.Steps, BootEnd: bootAt, Switches: rt.Switches, SimNs: rt.Now,
		Tasks: len(rt.Tasks), Procs: len(k.Order), Fired: rt.Fired, Probes: rt.Probes, Status: r.Status,
	}

	if r.Viol != "" || In.Trace || kind == "harness" {
		o.Tape = G.out
		o.Devs = rt.DevLog
		o.Desc = describe()

		for _, e := range k.Events {
			o.Events = append(o.Events, fmt.Sprintf("%d %dns pid=%d t%d %s: %s", e.Step, e.Time, e.PID, e.Task, e.Kind, clip(e.Text, 200)))
		}

		if len(o.Events) > 4000 {
			o.Events = append(o.Events[:2000], o.Events[len(o.Events)-2000:]...)
		}

		o.Trace = rt.TraceBuf
	}

	b, err := json.Marshal(o)
	if err != nil {
		fmt.Fprintln(os.Stderr, "zsim:", err)
		os.Exit(98)
	}

	os.Stdout.Write(append(b, '\n'))
	os.Exit(0)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}

	return s
}

func describe() string {
	var b strings.Builder

	fmt.Fprintf(&b, "family: %s\nargv: %q\n", S.Family, kern.K.Shell.Argv)
	for _, e := range S.Env {
		fmt.Fprintf(&b, "env: %s\n", e)
	}

	if len(S.Fault) > 0 {
		ks := []string{}
		for f, p := range S.Fault {
			ks = append(ks, fmt.Sprintf("%s=%g", f, p))
		}
		sort.Strings(ks)
		fmt.Fprintf(&b, "fault kinds enabled: %s (at most %d)\n", strings.Join(ks, " "), S.FaultMax)
	}

	if S.Script != nil {
		fmt.Fprintf(&b, "script:\n%s\n", clip(strings.Join(S.Script, "\n"), 6000))
	}

	for _, x := range S.Keys {
		fmt.Fprintf(&b, "user: %s\n", x)
	}

	if S.Desc != nil {
		b.WriteString(S.Desc())
	}

	if Out != nil {
		fmt.Fprintf(&b, "stdout:\n%s\n", clip(Out.Text(), 3000))
		fmt.Fprintf(&b, "stderr:\n%s\n", clip(Err.Text(), 3000))
	} else if kern.K.Tty != nil {
		fmt.Fprintf(&b, "terminal:\n%s\n", clip(kern.K.Tty.Out.Text(), 4000))
	}

	return b.String()
}

// ---------------------------------------------------------------- Helpers for checks.

// Evs returns the events of a kind.
func (r *Run) Evs(kind string) []kern.Ev {
	l := []kern.Ev{}

	for _, e := range r.K.Events {
		if e.Kind == kind {
			l = append(l, e)
		}
	}

	return l
}

// Ev returns the script's own events ("debug ev ...") that start with prefix.
func (r *Run) Ev(prefix string) []kern.Ev {
	l := []kern.Ev{}

	for _, e := range r.K.Events {
		if e.Kind == "ev" && (e.Text == prefix || strings.HasPrefix(e.Text, prefix+" ")) {
			l = append(l, e)
		}
	}

	return l
}

// Order returns the index of the first event "text", or -1.
func (r *Run) Index(text string) int {
	for i, e := range r.K.Events {
		if e.Kind == "ev" && e.Text == text {
			return i
		}
	}

	return -1
}

// Count counts the events "text".
func (r *Run) Count(text string) int {
	n := 0

	for _, e := range r.K.Events {
		if e.Kind == "ev" && e.Text == text {
			n++
		}
	}

	return n
}

// WantExit checks that the shell ended with the status.
func (r *Run) WantExit(status int) {
	if r.End != "exit" {
		r.Fail("no-exit", "the shell did not end: %s %s", r.End, r.Detail)
	} else if r.Signal != 0 {
		r.Fail("killed", "the shell was killed by signal %d", r.Signal)
	} else if r.Status != status {
		r.Fail("status", "the shell ended with status %d, not %d; stderr: %s", r.Status, status, clip(Err.Text(), 600))
	}
}

// Ended checks that the shell ended by itself.
func (r *Run) Ended() {
	if r.End != "exit" {
		r.Fail("no-exit", "the shell did not end: %s %s", r.End, r.Detail)
	} else if r.Signal != 0 {
		r.Fail("killed", "the shell was killed by signal %d", r.Signal)
	}
}

// Hooks of the line editor.
var (
	OnPrompt   func(p string)
	OnComplete func(line, head string, cs []string, tail string)
	// OnCompleting is called before.
	OnCompleting func(line string, pos int)
)
