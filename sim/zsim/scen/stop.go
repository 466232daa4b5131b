//go:build go1.22

package scen

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"syscall"

	"zsim/kern"
)

// A job of the simulated user.
type stopJob struct {
	k       int
	lines   []string
	threads [][]string // The events it must cause, in order, by task.
	ticks   []string   // The steps of its processes.
	state   string     // "", "fg", "bg", "stopped", "done"
	num     int        // The job number it was listed with.
	killed  bool
	stops   int
}

func (j *stopJob) ev(f string, a ...any) string {
	return "debug ev j" + fmt.Sprint(j.k) + "-" + fmt.Sprintf(f, a...)
}

func (j *stopJob) want(f string, a ...any) string {
	return "j" + fmt.Sprint(j.k) + "-" + fmt.Sprintf(f, a...)
}

func (j *stopJob) tick(g *Gen, n int) string {
	t := fmt.Sprintf("j%d.%d", j.k, len(j.ticks))
	j.ticks = append(j.ticks, fmt.Sprintf("%s %d", t, n))

	return fmt.Sprintf("tick %s %d %d", t, n, g.R(1, 3))
}

// step makes a step of a task which takes a while.
func (j *stopJob) step(g *Gen) string {
	switch g.N(5) {
	case 0:
		return "ret 0"
	case 1:
		return j.tick(g, g.R(1, 4))
	case 2:
		return "define v: capture (echo a)"
	case 3:
		return "echo b | cat >| /dev/null"
	default:
		return "sleep 2"
	}
}

// seq makes the steps of a task, each of which causes an event.
func (j *stopJob) seq(g *Gen, name string) []string {
	l := []string{}
	th := []string{}
	for i := 0; i < g.R(1, 4); i++ {
		l = append(l, j.ev("%s-%d", name, i))
		th = append(th, j.want("%s-%d", name, i))
		if g.P(70) {
			l = append(l, j.step(g))
		}
	}
	l = append(l, j.ev("%s-end", name))
	j.threads = append(j.threads, append(th, j.want("%s-end", name)))

	return l
}

func (j *stopJob) wrap(ls ...[]string) []string {
	l := []string{"block {"}
	for _, x := range ls {
		l = append(l, x...)
	}

	return append(l, "}")
}

func counter(j *stopJob, name string, n int) []string {
	th := []string{}
	for i := 1; i <= n; i++ {
		th = append(th, j.want("%s (|number %d|)", name, i))
	}
	j.threads = append(j.threads, th)

	return []string{"define i 0", fmt.Sprintf("while (lt? $i %d) {", n), "set i: add $i 1", j.ev("%s $i", name), "}"}
}

func newStopJob(g *Gen, k int, several bool) *stopJob {
	j := &stopJob{k: k}
	kids := 0
	// With several jobs a task waits for its own children only: the others may
	// be stopped.
	wait := func() string {
		if !several {
			return "wait"
		}
		l := "wait"
		for i := 1; i <= kids; i++ {
			l += fmt.Sprintf(" $k%d", i)
		}

		return l
	}
	sp := func(l ...[]string) []string {
		kids++
		r := []string{fmt.Sprintf("define k%d: spawn {", kids)}
		for _, x := range l {
			r = append(r, x...)
		}

		return append(r, "}")
	}
	sub := func(l []string) []string { return append(append([]string{"spawn {"}, l...), "}") }
	switch g.N(14) {
	case 0:
		j.lines = j.wrap(j.seq(g, "m"))
	case 1:
		j.lines = j.wrap(counter(j, "c", g.R(5, 60)))
	case 2:
		j.lines = []string{j.tick(g, g.R(1, 6))}
	case 3:
		j.lines = []string{j.tick(g, g.R(1, 6)) + " | " + j.tick(g, g.R(1, 6))}
	case 4:
		a, b := j.seq(g, "l"), j.seq(g, "r")
		j.lines = append(append(append([]string{"block {"}, a...), "} | block {"), append(b, "}")...)
	case 5:
		j.lines = j.wrap(sp(j.seq(g, "a")), sp(j.seq(g, "b")), j.seq(g, "m"), []string{wait(), j.ev("waited")})
		j.threads = append(j.threads, []string{j.want("a-end"), j.want("waited")}, []string{j.want("b-end"), j.want("waited")})
	case 6:
		j.lines = j.wrap(sp(sub(j.seq(g, "a")), j.seq(g, "b"), []string{"wait", j.ev("inner")}), []string{wait(), j.ev("waited")})
		j.threads = append(j.threads, []string{j.want("a-end"), j.want("inner"), j.want("waited")})
	case 7:
		// Producer and consumer.
		n := g.R(2, 10)
		kind := g.Pick("chan", "chan 2", "pipe")
		th := []string{}
		for i := 0; i < n; i++ {
			th = append(th, j.want("got %d", i))
		}
		j.threads = append(j.threads, append(th, j.want("over")))
		prod := []string{}
		for i := 0; i < n; i++ {
			prod = append(prod, fmt.Sprintf("c write %d", i))
			if g.P(20) {
				prod = append(prod, j.step(g))
			}
		}
		cons := []string{}
		for i := 0; i < n; i++ {
			cons = append(cons, j.ev("got (c read)"))
			if g.P(20) {
				cons = append(cons, j.step(g))
			}
		}
		j.lines = j.wrap([]string{"define c: " + kind}, sp(prod), cons, []string{wait(), j.ev("over")})
	case 8:
		// Captured lines.
		n := g.R(1, 3)
		th := []string{}
		l := []string{}
		for i := 0; i < n; i++ {
			l = append(l, j.ev("cap-%d (capture (block {", i), j.tick(g, g.R(1, 3)), "echo x", "echo y", "}))")
			th = append(th, j.want("cap-%d ($'x' $'y')", i))
		}
		j.threads = append(j.threads, th)
		j.lines = j.wrap(l)
	case 9:
		f := fmt.Sprintf("f%d", j.k)
		j.lines = j.wrap([]string{"block {", "echo one", j.tick(g, g.R(1, 3)), "echo two", j.step(g), "echo three", "} >| " + f,
			j.ev("file (capture (cat %s))", f)})
		j.threads = append(j.threads, []string{j.want("file ($'one' $'two' $'three')")})
	case 10:
		// Exceptions.
		j.lines = j.wrap([]string{"define m: method () {", "catch ex {", j.ev("caught $ex"), "return ()", "}", j.ev("try"), "ret 0", "throw oops", j.ev("never"), "}"},
			[]string{"m", j.step(g), "m", j.ev("after")})
		j.threads = append(j.threads, []string{j.want("try"), j.want("caught oops"), j.want("try"), j.want("caught oops"), j.want("after")})
	case 11:
		// A pipeline through which lines go.
		n := g.R(1, 6)
		th := []string{}
		l := []string{"block {"}
		for i := 0; i < n; i++ {
			l = append(l, fmt.Sprintf("echo l%d", i))
			th = append(th, j.want("line $'l%d'", i))
			if g.P(40) {
				l = append(l, j.step(g))
			}
		}
		mid := ""
		if g.P(50) {
			mid = "cat | "
		}
		l = append(l, "} | "+mid+"block {", "while (define l: read-line) {", j.ev("line $l"), "}", j.ev("eof"), "}")
		j.threads = append(j.threads, append(th, j.want("eof")))
		j.lines = l
	case 12:
		// A task is opening a file and can't be told to stop until it is open.
		f := fmt.Sprintf("/home/u/fifo%d", j.k)
		kern.K.Put(f, kern.Fifo, 0o644, "")
		cp := sp([]string{"define f: open r " + f, j.ev("opened"), j.ev("read (f read-line)"), j.ev("eof (f read-line)"), "f close"}, j.seq(g, "a"))
		j.threads = append(j.threads, []string{j.want("opened"), j.want("read $'hi'"), j.want("eof ()"), j.want("a-end"), j.want("waited")})
		j.lines = j.wrap(cp, j.seq(g, "m"), []string{j.tick(g, g.R(1, 4)), "echo hi >| " + f, wait(), j.ev("waited")})
	default:
		j.lines = j.wrap(j.seq(g, "m"), sp(counter(j, "c", g.R(2, 20))), j.seq(g, "n"), []string{wait(), j.ev("waited")})
		j.threads = append(j.threads, []string{j.want("m-end"), j.want("n-end"), j.want("waited")})
	}

	return j
}

var quoted = regexp.MustCompile(`\$'((?:[^'\\]|\\.)*)'`)

// listing parses what capturing the output of jobs gives.
func listing(text string) map[int][]string {
	m := map[int][]string{}
	n := 0
	for _, q := range quoted.FindAllStringSubmatch(text, -1) {
		s := strings.ReplaceAll(strings.ReplaceAll(q[1], `\t`, "\t"), `\\`, `\`)
		s = strings.ReplaceAll(s, `\'`, `'`)
		h, t, _ := strings.Cut(s, "\t")
		if h != "    " {
			n = -1
			fmt.Sscanf(strings.TrimSuffix(h, "+"), "[%d]", &n)
		}
		m[n] = append(m[n], t)
	}

	return m
}

func stops(g *Gen) *Scenario {
	s := &Scenario{Family: "stop", Tty: true, FairAt: 20000000, MaxSteps: 100000000, RC: userRC(g)}
	n := g.R(1, 3)
	if s.RC == "" {
		n = 1
	}
	jobs := []*stopJob{}
	for k := 0; k < n; k++ {
		jobs = append(jobs, newStopJob(g, k, n > 1))
	}
	plan := []int{}
	for i := 0; i < 200; i++ {
		plan = append(plan, g.N(1000))
	}
	draw := func(n int) int {
		if len(plan) == 0 {
			return 0
		}
		v := plan[0]
		plan = plan[1:]

		return v % n
	}
	maxStops := g.R(1, 5)
	entered, acts, stopsDone, asked := 0, 0, 0, 0
	fails := []string{}
	fail := func(class, f string, a ...any) { fails = append(fails, class+"\x00"+fmt.Sprintf(f, a...)) }
	var pend []*Key
	known := true // Whether the jobs are known since the last change.
	done := func(j *stopJob) bool {
		for _, th := range j.threads {
			last := th[len(th)-1]
			if Count(last) == 0 {
				return false
			}
		}
		for _, t := range j.ticks {
			if EvCount("tick-end", strings.Fields(t)[0]) == 0 && !j.killed {
				return false
			}
		}

		return true
	}
	procs := func(j *stopJob) []*kern.Proc {
		r := []*kern.Proc{}
		for _, p := range kern.K.Order {
			if !p.IsShell && p.State != 'Z' && p.State != 'X' && len(p.Argv) > 1 && strings.HasPrefix(p.Argv[1], fmt.Sprintf("j%d.", j.k)) {
				r = append(r, p)
			}
		}

		return r
	}
	maybeStop := func(j *stopJob, wait, arg string) {
		if j.stops >= 4 || stopsDone >= maxStops || draw(100) < 15 {
			return
		}
		j.stops++
		stopsDone++
		d := []int{0, 100, 1000, 3000, 10000, 30000, 60000, 120000}[draw(8)]
		d += draw(d + 1)
		// A job with a process that is neither stopped nor ends is not stopped.
		if draw(6) == 5 && !strings.Contains(strings.Join(j.lines, "\n"), "cat | ") {
			// The processes are stopped.
			pend = append(pend, &Key{Wait: wait, Arg: arg, N: d, Label: fmt.Sprintf("stop processes of %d", j.k), Do: func() {
				for _, p := range procs(j) {
					kern.K.Kill(p.PID, syscall.SIGSTOP)
				}
			}})

			return
		}
		pend = append(pend, &Key{Wait: wait, Arg: arg, N: d, Type: "\x1a", Label: fmt.Sprintf("stop %d", j.k)})
	}
	// update asks for the list of jobs.
	OnEv = func(t string) {
		if !strings.HasPrefix(t, "jobs-") {
			return
		}
		_, l, _ := strings.Cut(t, " ")
		list := listing(l)
		known = true
		for num, lines := range list {
			found := false
			for _, j := range jobs {
				if strings.Join(lines, "\n") != strings.Join(j.lines, "\n") {
					continue
				}
				found = true
				if j.state == "stopped" && j.num != 0 && j.num != num {
					fail("number", "job %d was listed as [%d] and, without having been resumed, as [%d]", j.k, j.num, num)
				}
				if j.state == "bg" || j.state == "" || j.state == "done" {
					fail("listed", "job %d is listed but is not stopped: %s", j.k, l)
				}
				j.state, j.num = "stopped", num
			}
			if !found {
				fail("listed", "jobs lists [%d] %q", num, lines)
			}
		}
		for _, j := range jobs {
			_, found := list[j.num]
			switch {
			case j.state == "stopped" && (j.num == 0 || !found):
				fail("lost", "job %d is stopped but jobs does not list it: %s", j.k, l)
			case j.state == "fg":
				if !done(j) {
					fail("lost", "job %d was in the foreground, is not done and not listed: %s", j.k, l)
				}
				j.state = "done"
			}
		}
	}
	enter := func(k *Key) { pend = append(pend, k) }
	s.Next = func() *Key {
		if len(pend) > 0 {
			k := pend[0]
			pend = pend[1:]

			return k
		}

		return &Key{Wait: "quiet", N: draw(3) * 2000, Label: "next", Make: func() (string, string) {
			acts++
			if !known {
				asked++
				if acts > 3 && draw(3) == 0 && false {
					return "\n", "nothing"
				}

				return fmt.Sprintf("debug ev jobs-%d (capture (jobs))\n", asked), "jobs"
			}
			stopped := []*stopJob{}
			for _, j := range jobs {
				if j.state == "stopped" {
					stopped = append(stopped, j)
				}
			}
			sort.Slice(stopped, func(a, b int) bool { return stopped[a].num < stopped[b].num })
			if entered < n && (len(stopped) == 0 || draw(2) == 0) {
				j := jobs[entered]
				entered++
				j.state, known = "fg", false
				maybeStop(j, "begun", "")

				return strings.Join(j.lines, "\n") + "\n", fmt.Sprintf("enter %d", j.k)
			}
			if len(stopped) > 0 {
				i := draw(len(stopped))
				j := stopped[i]
				if ps := procs(j); len(ps) > 0 && draw(8) == 7 {
					// One of the stopped processes is killed.
					kern.K.Kill(ps[draw(len(ps))].PID, syscall.SIGKILL)
					j.killed = true

					return "debug ev alive\n", fmt.Sprintf("kill a process of %d", j.k)
				}
				cmd := "fg"
				if draw(3) == 0 {
					cmd = "bg"
				}
				arg := fmt.Sprintf(" %d", j.num)
				if i == len(stopped)-1 && draw(2) == 0 {
					arg = ""
				}
				j.num = 0
				if cmd == "bg" {
					j.state = "bg"
					known = true
					if draw(2) == 0 {
						// Let it end.
						enter(&Key{Wait: "ev", Arg: "never", Type: "debug ev alive\n", Label: "after the background job"})
					}

					return cmd + arg + "\n", fmt.Sprintf("bg %d", j.k)
				}
				j.state, known = "fg", false
				maybeStop(j, "out", j.lines[len(j.lines)-1]+"\n")

				return cmd + arg + "\n", fmt.Sprintf("fg %d", j.k)
			}
			if len(plan) > 0 {
				// Wait for the background jobs.
				plan = nil
				enter(&Key{Wait: "ev", Arg: "never", Type: fmt.Sprintf("debug ev jobs-%d (capture (jobs))\n", asked+1), Label: "jobs at the end"})
				enter(&Key{Wait: "quiet", Type: "\x04", Label: "end"})

				return "debug ev alive\n", "alive"
			}

			return "\x04", "end"
		}}
	}
	s.Desc = func() string {
		b := ""
		for _, j := range jobs {
			b += fmt.Sprintf("job %d:\n%s\n", j.k, strings.Join(j.lines, "\n"))
		}

		return b
	}
	s.Check = func(r *Run) {
		r.WantExit(0)
		for _, f := range fails {
			c, m, _ := strings.Cut(f, "\x00")
			r.Fail(c, "%s", m)
		}
		for _, j := range jobs {
			for _, th := range j.threads {
				checkThread(r, j, th)
			}
			for _, t := range j.ticks {
				f := strings.Fields(t)
				c := 0
				for _, e := range r.K.Events {
					if e.Kind == "tick" && strings.HasPrefix(e.Text, f[0]+" ") {
						c++
					}
				}
				if fmt.Sprint(c) != f[1] && !j.killed {
					r.Fail("steps", "process %s of job %d made %d of %s steps", f[0], j.k, c, f[1])
				}
			}
			frozen(r, j)
		}
		if l := listing(lastEv(r, "jobs-")); len(l) != 0 {
			r.Fail("listed", "at the end jobs lists %v", l)
		}
	}

	return s
}

func lastEv(r *Run, prefix string) string {
	for i := len(r.K.Events) - 1; i >= 0; i-- {
		e := r.K.Events[i]
		if e.Kind == "ev" && strings.HasPrefix(e.Text, prefix) {
			return e.Text
		}
	}

	return ""
}

// checkThread checks that the events of a task happened once each, in order.
func checkThread(r *Run, j *stopJob, th []string) {
	// An event may occur in a task several times.
	want := map[string]int{}
	for _, t := range th {
		want[t]++
	}
	got := []string{}
	for _, e := range r.K.Events {
		if e.Kind == "ev" && want[e.Text] > 0 {
			got = append(got, e.Text)
		}
	}
	if strings.Join(got, "\n") != strings.Join(th, "\n") {
		r.Fail("effects", "job %d, suspended %d times, had the effects\n%s\nan undisturbed one has\n%s", j.k, j.stops, strings.Join(got, "\n"), strings.Join(th, "\n"))
	}
	if c := r.Count(j.want("never")); c > 0 {
		r.Fail("effects", "job %d went on after an exception", j.k)
	}
}

// frozen checks that the job did nothing while it was stopped.
func frozen(r *Run, j *stopJob) {
	stopped := false
	settled := false
	for _, e := range r.K.Events {
		switch {
		case e.Kind == "ev" && strings.HasPrefix(e.Text, "jobs-"):
			_, l, _ := strings.Cut(e.Text, " ")
			stopped = false
			for _, lines := range listing(l) {
				if strings.Join(lines, "\n") == strings.Join(j.lines, "\n") {
					stopped = true
				}
			}
			settled = stopped
		case e.Kind == "user" && (strings.HasPrefix(e.Text, fmt.Sprintf("fg %d ", j.k)) || strings.HasPrefix(e.Text, fmt.Sprintf("bg %d ", j.k))):
			stopped, settled = false, false
		case settled && e.Kind == "ev" && strings.HasPrefix(e.Text, fmt.Sprintf("j%d-", j.k)):
			r.Fail("not-stopped", "job %d was stopped but went on: %s", j.k, e.Text)
		case settled && e.Kind == "tick" && strings.HasPrefix(e.Text, fmt.Sprintf("j%d.", j.k)):
			r.Fail("not-stopped", "a process of the stopped job %d went on: %s", j.k, e.Text)
		}
	}
}

// Count is how often there has been the event.
func Count(text string) int { return EvCount("ev", text) }

// EvCount is how often there has been the event.
func EvCount(kind, text string) int {
	n := 0
	for _, e := range kern.K.Events {
		if e.Kind == kind && e.Text == text {
			n++
		}
	}

	return n
}

func init() {
	Registry["C14"] = func(g *Gen) *Scenario { return stops(g) }
}
