//go:build go1.22

package scen

import (
	"fmt"
	"sort"
	"strings"

	"zsim/kern"
	"zsim/rt"
)

// duty is a command with known effects.
type duty struct {
	name string
	def  []string
	text []string
	file map[string]string // Contents of files it writes.
	ev   string            // Event it logs, and
	got  string            // the rest of it.
	ex   string            // The exception it raises, if any.
	soft bool              // Hides its failures.
	loud bool              // May raise "broken pipe".
}

type leakGen struct {
	pipeGen
	mods int
}

func (x *leakGen) duty(n string, k int) *duty {
	g := x.g
	t := x.tag()
	d := &duty{name: n, file: map[string]string{}}
	f := "/home/u/out-" + n
	b := g.R(1, 3)
	s, w := builtinWriter(t, b, "stdout")
	size := x.size() % 9000

	switch k {
	case 0:
		d.text = []string{fmt.Sprintf("emit %s %d >| %s", t, size, f)}
		d.file[f] = Pattern(t, size)
	case 1:
		d.text = []string{"block {", s, "} >| " + f}
		d.file[f] = w
	case 2:
		d.text = []string{"block {", s, "} | cat | cat >| " + f}
		d.file[f] = w
		d.loud = true
	case 3:
		d.text = []string{fmt.Sprintf("emit %s %d | block {\ncp\n} >| %s", t, size, f)}
		d.file[f] = terminated(Pattern(t, size))
	case 4:
		d.text = []string{"debug ev cap-" + n + " `(block {\necho " + t + "a\nwrite-line " + t + "b\n})"}
		d.ev, d.got = "cap-"+n, t+"a "+t+"b"
	case 5:
		d.text = []string{"cat |<(block {", s, "}) |<(echo " + t + ") >| " + f}
		d.file[f] = w + t + "\n"
		d.loud = true
	case 6:
		d.text = []string{fmt.Sprintf("emit %s %d | dup |>(cat >| %s) |>(cat >| %s)", t, size, f, f+"b")}
		d.file[f] = Pattern(t, size)
		d.file[f+"b"] = Pattern(t, size)
	case 7:
		d.text = []string{"block {", s, "} >| " + f, "block {\necho " + t + "\n} >> " + f, "cat < " + f + " >| " + f + "b"}
		d.file[f] = w + t + "\n"
		d.file[f+"b"] = w + t + "\n"
	case 8:
		kern.K.Put("/home/u/in-"+n, kern.Reg, 0o644, w)
		d.text = []string{"define a", "block {\nset a: read-line\nread-line\n} < /home/u/in-" + n, "debug ev in-" + n + " $a"}
		d.text = []string{"block {\ndebug ev in-" + n + " (read-line)\n} < /home/u/in-" + n}
		d.ev, d.got = "in-"+n, strings.SplitN(w, "\n", 2)[0]
	case 9:
		// A task.
		d.text = []string{"define tk: spawn {", "emit " + t + " 100 >| " + f, "}", "wait $tk"}
		d.file[f] = Pattern(t, 100)
		d.loud = true
	case 10:
		d.text = []string{"block {\n" + s + "\nthrow boom" + t + "\n} | cat >| " + f}
		d.file[f] = w
		d.ex = "boom" + t
		d.loud = true
	case 11:
		d.text = []string{"block {\n" + s + "\nthrow boom" + t + "\n} >| " + f}
		d.file[f] = w
		d.ex = "boom" + t
	case 12:
		d.text = []string{"echo x | nosuchcommand" + t}
		d.ex = "nosuchcommand" + t
	case 13:
		x.mods++
		m := fmt.Sprintf("/home/u/mod%d.oh", x.mods)
		kern.K.Put(m, kern.Reg, 0o644, "export val "+t+"\n")
		d.text = []string{"define m: import " + m, "debug ev mod-" + n + " (m val)"}
		d.text = []string{"source " + m, "debug ev mod-" + n + " $val"}
		d.ev, d.got = "mod-"+n, t
	case 14:
		d.text = []string{"define f: open w " + f, "f write-line " + t, "f close"}
		d.file[f] = t + "\n"
	case 15:
		d.text = []string{"define f: open rw " + f, "f write-line " + t, "f reader-close", "f write-line " + t, "f writer-close"}
		d.file[f] = t + "\n" + t + "\n"
	case 16:
		d.text = []string{"define p: pipe", "define w: method () {", "catch e {", "return", "}", "p write-line " + t, "}",
			"define tk: spawn {", "w", "p writer-close", "}", "debug ev pipe-" + n + " (p read-line) (p read-line)", "wait $tk", "p close"}
		d.ev, d.got = "pipe-"+n, t+" ()"
		d.soft = true
	case 17:
		d.text = []string{"define c: chan 1", "define tk: spawn {", "c write " + t, "}", "debug ev chan-" + n + " (c read)", "wait $tk"}
		d.ev, d.got = "chan-"+n, t
	case 18:
		// A reader that never gets its message is not awaited, but read from a
		// malformed source.
		kern.K.Put("/home/u/bad-"+n, kern.Reg, 0o644, ")\n"+t+"\n")
		d.text = []string{"define f: open r- /home/u/bad-" + n, "define r: method () {", "catch e {", "return failed", "}", "f read", "}",
			"r", "debug ev bad-" + n + " (f read-line)", "f close"}
		d.ev, d.got = "bad-"+n, t
		d.soft = true
	case 19:
		// A partial value, abandoned.
		kern.K.Put("/home/u/part-"+n, kern.Reg, 0o644, "'a b\n")
		d.text = []string{"define f: open r- /home/u/part-" + n, "debug ev part-" + n + " (f read) end", "f close"}
		d.ev, d.got = "part-"+n, "() end"
	case 20:
		d.text = []string{"source /home/u/nosuchfile" + t}
		d.ex = "nosuchfile" + t
	case 21:
		kern.K.Put("/home/u/bad2-"+n, kern.Reg, 0o644, "define a b\n)\n")
		d.text = []string{"source /home/u/bad2-" + n}
		d.ex = "unexpected"
	default:
		d.text = []string{"spew " + t + " | head 10 >| " + f}
		d.file[f] = Pattern(t, 64)[:10]
	}

	return d
}

const duties = 23

// holdings is what the shell holds.
type holdings struct {
	fds   map[int]string
	kids  []string
	tasks map[int]string
}

func hold(settle bool) holdings {
	k := kern.K
	h := holdings{fds: map[int]string{}, tasks: map[int]string{}}
	if settle {
		rt.Collect()
	}
	for n, o := range k.Shell.Fds {
		h.fds[n] = o.Path
	}
	for _, p := range k.Shell.Children {
		if !p.Reaped {
			h.kids = append(h.kids, fmt.Sprintf("%s(%c)", p.Name, p.State))
		}
	}
	for _, t := range rt.Tasks {
		if t.State != rt.Done && t.Proc == interface{}(k.Shell) && !t.Daemon {
			h.tasks[t.ID] = fmt.Sprintf("%s (%s)", t.Name, t.Why)
		}
	}

	return h
}

// grown returns the goroutines that are there after but were not before. One
// may have taken the place of another.
func grown(before, after map[int]string) []string {
	l := []string{}
	for id, s := range after {
		if _, ok := before[id]; !ok {
			l = append(l, s)
		}
	}
	sort.Strings(l)
	for id := range before {
		if _, ok := after[id]; !ok && len(l) > 0 {
			l = l[1:]
		}
	}

	return l
}

func leaks(g *Gen) *Scenario {
	x := &leakGen{pipeGen: pipeGen{g: g, cap: pipeCap(g)}}
	s := &Scenario{Family: "leaks", Race: true, Fault: benign(g), Script: preamble()}

	if g.P(75) {
		s.Family = "errors"
		kinds := []string{"open-emfile", "open-eio", "open-eacces", "open-enospc", "pipe-emfile", "close-eio", "read-eio", "write-eio",
			"write-enospc", "stat-eio", "mknod-enospc", "fork-eagain", "exec-enomem"}
		for _, f := range kinds {
			if g.P(35) {
				s.Fault[f] = []float64{0.01, 0.05, 0.3}[g.N(3)]
			}
		}
		s.FaultGo, s.FaultEnd = "faults-on", "faults-off"
		s.FaultMax = g.R(1, 4)
	}

	ds := []*duty{}
	names := []string{}
	for i := g.R(1, 5); i > 0; i-- {
		n := fmt.Sprintf("d%d", i)
		d := x.duty(n, g.N(duties))
		ds = append(ds, d)
		names = append(names, n)
		body := []string{"block {"}
		body = append(body, d.text...)
		body = append(body, "}", "debug ev value-"+n)
		s.Script = append(s.Script, caught(n, body...)...)
	}

	conc := []int{0, 60}[g.N(2)]
	if conc > 0 {
		s.Family += "-concurrent"
	}

	var base, after holdings
	left := []string{}
	at := map[string]int{}
	files := map[string]string{}
	snap := func() {
		for _, d := range ds {
			for f := range d.file {
				files[f], _ = kern.K.Read(f)
			}
		}
	}
	second := false
	OnEv = func(t string) {
		w := strings.Fields(t)
		switch {
		case t == "base":
			base = hold(true)
		case t == "settled":
			after = hold(true)
			left = fifos()
		case t == "again":
			snap()
			for _, d := range ds {
				for f := range d.file {
					kern.K.Remove(f)
				}
			}
			second = true
		case len(w) > 0 && (strings.HasPrefix(w[0], "start-") || strings.HasPrefix(w[0], "after-")) && !second:
			at[w[0]] = kern.K.FaultN
		}
	}

	// The first time everything that is created on demand is created.
	s.Script = append(s.Script, "true | cat", "wait (spawn true)", "sleep 50", "debug ev base", "debug ev faults-on")
	if conc > 0 {
		s.Script = append(s.Script, callAll(g, names, conc)...)
	} else {
		for _, n := range names {
			s.Script = append(s.Script, "debug ev start-"+n, "debug ev after-"+n+" ("+n+")")
		}
	}
	s.Script = append(s.Script, "debug ev faults-off", "sleep 50", "debug ev settled", "debug ev again")
	// Once more, without faults.
	for _, n := range names {
		s.Script = append(s.Script, "debug ev again-"+n+" ("+n+")")
	}
	s.Script = append(s.Script, "debug ev done", "exit 7")

	s.Check = func(r *Run) {
		r.WantExit(7)

		errs := map[string]bool{}
		for _, e := range r.Evs("stub-error") {
			errs[e.Text] = true
		}

		for _, d := range ds {
			d.check(r, at, files, conc > 0, len(errs) > 0)
		}

		// A command that fails leaves what it opened itself to the collector.
		mine := false
		for _, d := range ds {
			ex, nex, _ := evText(r, "caught-"+d.name)
			text := strings.Join(d.text, "\n")
			if nex > 0 && (d.ex == "" || !strings.Contains(ex, d.ex)) && (strings.Contains(text, "f: open ") || strings.Contains(text, "p: pipe")) {
				mine = true
			}
		}
		for n, p := range after.fds {
			if base.fds[n] != p && !mine {
				r.Fail("descriptor", "descriptor %d (%s) was open after the commands had ended", n, p)
			}
		}
		if len(after.kids) > 0 {
			r.Fail("children", "children %v were left after the commands had ended", after.kids)
		}
		if l := grown(base.tasks, after.tasks); len(l) > 0 && !mine {
			r.Fail("tasks", "there were %d goroutines more after the commands had ended: %v", len(after.tasks)-len(base.tasks), l)
		}
		if len(left) > 0 {
			r.Fail("fifo-left", "after the commands there was %v in the temporary directory", left)
		}
	}

	return s
}

func (d *duty) check(r *Run, at map[string]int, files map[string]string, conc, stubErrors bool) {
	// Two rounds: with and without faults.
	round := func(name string, from, to int, faulty bool, read func(string) (string, bool)) {
		nex, nv, got := 0, 0, ""
		ngot := 0
		ex := ""
		for _, e := range r.K.Events[from:to] {
			if e.Kind != "ev" {
				continue
			}
			w := strings.SplitN(e.Text, " ", 2)
			rest := ""
			if len(w) > 1 {
				rest = w[1]
			}
			switch w[0] {
			case "caught-" + d.name:
				nex++
				ex = rest
			case "value-" + d.name:
				nv++
			case d.ev:
				ngot++
				got = strings.NewReplacer("$'", "", "'", "").Replace(rest)
			}
		}

		what := strings.Join(d.text, "; ")
		if nex+nv != 1 {
			r.Fail("once", "%s: %q returned %d times and raised %d exceptions", name, what, nv, nex)

			return
		}
		if nex == 1 && !faulty && (d.ex == "" || !strings.Contains(ex, d.ex)) {
			r.Fail("exception", "%s: %q raised %s although nothing failed", name, what, ex)
		}
		if nex == 0 && d.ex != "" {
			r.Fail("no-exception", "%s: %q raised no exception", name, what)
		}
		if faulty && (nex == 1 || stubErrors || d.loud && Err.Text() != "" || d.soft) {
			return // Reported.
		}
		for _, f := range sortedKeys(d.file) {
			data, _ := read(f)
			if data != d.file[f] {
				r.Fail("data", "%s: %q left %s in %s", name, what, diffAt(data, d.file[f]), f)
			}
		}
		if d.ev != "" && (ngot != 1 || got != d.got) {
			r.Fail("value", "%s: %q had the result %q (%d times), not %q", name, what, got, ngot, d.got)
		}
	}

	on, off, again, done := r.Index("base"), r.Index("faults-off"), r.Index("again"), r.Index("done")
	if on < 0 || off < 0 || again < 0 || done < 0 {
		r.Fail("end", "the script did not run to its end")

		return
	}

	faulty := r.K.FaultN > 0
	if !conc {
		faulty = at["after-"+d.name] > at["start-"+d.name]
	}
	round("with faults", on, off, faulty, func(f string) (string, bool) { v, ok := files[f]; return v, ok })
	round("without faults", again, done, false, r.K.Read)
}

func init() {
	Registry["C20"] = func(g *Gen) *Scenario {
		psubProgs()

		return leaks(g)
	}
}
