//go:build go1.22

package scen

import (
	"fmt"
	"strings"

	"zsim/kern"
)

func init() {
	Registry["C15"] = func(g *Gen) *Scenario {
		var s *Scenario
		switch g.N(7) {
		case 3:
			s = interrupts(g)
		case 4:
			s = stops(g)
		case 5, 6:
			s = resumed(g)
		default:
			s = terminal(g)
		}

		return ttyWatch(s)
	}
}

// ttyWatch adds the checks of the terminal at every prompt and at the end.
func ttyWatch(s *Scenario) *Scenario {
	bad := ""
	note := func(f string, a ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	prompts := 0
	look := func(when string) {
		k := kern.K
		if k.Tty.Fg != k.Shell.PGID {
			note("%s the terminal belonged to process group %d, not to the shell's, %d", when, k.Tty.Fg, k.Shell.PGID)
		}
		if k.Tty.Mode.Cooked || k.Tty.Mode.Isig {
			note("%s the terminal was not in line-editing mode", when)
		}
	}
	OnPrompt = func(string) {
		prompts++
		look(fmt.Sprintf("at prompt %d", prompts))
	}
	ExecHook = func(p *kern.Proc) {
		if AtPrompt() {
			look(fmt.Sprintf("at prompt %d, after the start of a process in the background (%s),", prompts, strings.Join(p.Argv, " ")))
		}
	}
	act := OnAct
	OnAct = func(k Key) {
		if act != nil {
			act(k)
		}
		if AtPrompt() {
			look(fmt.Sprintf("when the user typed at prompt %d", prompts))
		}
	}
	check := s.Check
	s.Check = func(r *Run) {
		if bad != "" {
			r.Fail("terminal", "%s", bad)
		}
		if s.Family == "terminal" || s.Family == "resumed" {
			check(r)
		}
		if r.End == "exit" && (!kern.K.Tty.Mode.Cooked || !kern.K.Tty.Mode.Isig) {
			r.Fail("mode", "when the shell ended the terminal was left in line-editing mode")
		}
	}

	return s
}

// terminal makes foreground commands, some of which read the terminal, among
// background commands.
func terminal(g *Gen) *Scenario {
	s := &Scenario{Family: "terminal", Tty: true, FairAt: 20000000, MaxSteps: 60000000, RC: userRC(g), Fault: benign(g)}
	s.Fault["short-read"] = 0
	n := g.R(1, 5)
	if s.RC == "" {
		n = g.R(1, 2)
	}
	fgs := 0
	type in struct{ ev, want string }
	type typed struct{ tag, line string }
	ins := []in{}
	bgs := 0
	fgp := func() string {
		fgs++
		t := fmt.Sprintf("F%d", fgs)

		return g.Pick(fmt.Sprintf("tick %s %d %d", t, g.R(1, 3), g.R(1, 3)), fmt.Sprintf("args %s", t), fmt.Sprintf("tick %s 1 0 3", t))
	}
	reader := func() (string, typed) {
		fgs++
		t := fmt.Sprintf("F%d", fgs)
		l := fmt.Sprintf("typed %d", fgs)
		ins = append(ins, in{t, fmt.Sprintf("%s %q true", t, l+"\n")})

		return "tread " + t, typed{t, l + "\n"}
	}
	blk := func(l ...string) string { return "block {\n" + strings.Join(l, "\n") + "\n}" }
	for i := 0; i < n; i++ {
		line := ""
		types := []typed{}
		read := func() string {
			c, l := reader()
			types = append(types, l)

			return c
		}
		switch g.N(16) {
		case 0:
			line = fgp()
		case 1:
			line = fgp() + " | " + fgp()
		case 2, 3:
			line = read()
		case 4:
			line = read() + " | cat"
		case 5:
			line = blk(fgp(), read(), fgp())
		case 6:
			line = "debug ev cap (capture (" + read() + "))"
		case 7, 8:
			bgs++
			line = fmt.Sprintf("tick B%d %d %d &", bgs, g.R(1, 5), g.R(1, 5))
		case 9, 10:
			bgs++
			l := []string{}
			for j := 0; j < g.R(2, 6); j++ {
				l = append(l, fmt.Sprintf("tick B%d.%d %d %d", bgs, j, g.R(1, 3), g.R(1, 3)))
			}
			line = blk(l...) + " &"
		case 11:
			line = g.Pick("nosuch", "die 9", "ret 3", "block {\nthrow oops\n}", "/etc", "die 2")
		case 12:
			bgs++
			line = fmt.Sprintf("tick B%d 2 1 | tick B%d 3 1 &", bgs, bgs)
		case 13:
			line = blk("spawn {", fgp(), "}", fgp(), "wait")
		case 14:
			line = blk(read(), read())
		default:
			line = blk("ret 0", "echo a | cat >| /dev/null", fgp())
		}
		k := Key{Wait: "quiet", N: g.N(3) * 5000, Type: line + "\n", Label: fmt.Sprintf("line %d", i)}
		if g.P(20) {
			k.Wait = "prompt"
		}
		s.Keys = append(s.Keys, k)
		for _, t := range types {
			s.Keys = append(s.Keys, Key{Wait: "tread", Arg: t.tag, N: g.N(4) * 3000, Type: t.line, Input: true, Label: "to the command"})
		}
	}
	s.Keys = append(s.Keys, Key{Wait: "quiet", Type: "debug ev alive\n", Label: "alive"})
	code := 0
	if g.P(30) {
		code = g.R(0, 5)
		s.Keys = append(s.Keys, Key{Wait: "quiet", Type: fmt.Sprintf("exit %d\n", code), Label: "exit"})
	} else {
		s.Keys = append(s.Keys, Key{Wait: "quiet", Type: "\x04", Label: "end"})
	}
	s.Check = func(r *Run) {
		r.WantExit(code)
		for _, p := range r.K.Order {
			if p.IsShell || len(p.Argv) < 2 {
				continue
			}
			switch p.Argv[1][0] {
			case 'F':
				if !p.FgAtStart {
					r.Fail("foreground", "the foreground command %q was started while the terminal belonged to another process group", p.Argv)
				}
				if !p.TtyModeAtStart.Cooked || !p.TtyModeAtStart.Isig {
					r.Fail("mode", "the foreground command %q was started with the terminal in line-editing mode", p.Argv)
				}
			}
		}
		for _, x := range ins {
			n := 0
			for _, e := range r.K.Events {
				if e.Kind == "tread" && strings.HasPrefix(e.Text, x.ev+" ") {
					n++
					if e.Text != x.want {
						r.Fail("input", "a foreground command that read the terminal got %s, not %s", e.Text, x.want)
					}
				}
			}
			if n != 1 {
				r.Fail("input", "a foreground command that reads the terminal ended %d times", n)
			}
		}
		for _, e := range r.K.Events {
			if e.Kind == "signal" && (strings.Contains(e.Text, "tty input") || strings.Contains(e.Text, "tty output")) {
				r.Fail("foreground", "process %d used the terminal in the background", e.PID)
			}
		}
	}

	return s
}

// resumed makes commands that read the terminal and are stopped, once or more,
// and then go on in the foreground.
func resumed(g *Gen) *Scenario {
	s := &Scenario{Family: "resumed", Tty: true, FairAt: 20000000, MaxSteps: 80000000, RC: userRC(g), Fault: benign(g)}
	s.Fault["short-read"] = 0
	type job struct {
		num   int
		left  []string // The commands that read the terminal, still.
		procs int
	}
	type in struct{ ev, want string }
	ins := []in{}
	stopped := []*job{}
	progs := 0
	bad := ""
	prog := func() string {
		progs++

		return fmt.Sprintf("tick F%d %d %d", progs, g.R(1, 3), g.R(1, 3))
	}
	key := func(k Key) { s.Keys = append(s.Keys, k) }
	line := func(l, label string) {
		k := Key{Wait: "quiet", N: g.N(3) * 5000, Type: l + "\n", Label: label}
		key(k)
	}
	alone := func() {
		line(g.Pick(prog(), prog()+" | "+prog(), "ret 1", "debug ev between", "capture ("+prog()+")"), "another command")
	}
	// feed types for the job in the foreground, or stops it. Whatever the job
	// that was stopped has been given is in the terminal's queue no more.
	feed := func(j *job, stops int) {
		first := true
		for {
			wait := Key{Wait: "still", N: g.N(3) * 3000, Input: true}
			if !first {
				wait.Wait, wait.Arg = "tread", j.left[0]
			}
			first = false
			if g.N(10) < stops {
				stops--
				wait.Input = false
				wait.Type, wait.Label = "\x1a", "stop"
				num := 0
				for _, o := range stopped {
					num = max(num, o.num)
				}
				j.num = num + 1
				stopped = append(stopped, j)
				key(wait)

				return
			}
			t := j.left[0]
			l := fmt.Sprintf("typed for %s\n", t)
			ins = append(ins, in{t, fmt.Sprintf("%s %q true", t, l)})
			wait.Type, wait.Label = l, "to the command "+t
			key(wait)
			j.left = j.left[1:]
			if len(j.left) == 0 {
				return
			}
		}
	}
	n := g.R(1, 3)
	if s.RC == "" {
		n = 1
	}
	readers := 0
	reader := func(j *job) string {
		readers++
		t := fmt.Sprintf("F.r%d", readers)
		j.left = append(j.left, t)

		return "tread " + t
	}
	starts, acts := 0, 0
	for starts < n || len(stopped) > 0 {
		acts++
		if g.N(6) == 5 {
			alone()
		}
		if starts < n && (len(stopped) == 0 || g.N(2) == 1) {
			starts++
			j := &job{}
			l := ""
			switch g.N(6) {
			case 0, 1:
				l = reader(j)
			case 2:
				l = "block {\n" + reader(j) + "\n" + reader(j) + "\n}"
			case 3:
				l = "block {\n" + prog() + "\n" + reader(j) + "\n" + prog() + "\n" + reader(j) + "\n}"
			case 4:
				l = "debug ev cap (capture (" + reader(j) + "))"
			default:
				l = reader(j) + " | cat"
			}
			line(l, "line")
			first := j.left[0]
			i := len(s.Keys)
			feed(j, 8)
			s.Keys[i].Wait, s.Keys[i].Arg = "tread", first
			continue
		}
		i := g.N(len(stopped))
		j := stopped[i]
		last := i == len(stopped)-1
		for _, o := range stopped {
			if o.num > j.num {
				last = false
			}
		}
		stopped = append(append([]*job{}, stopped[:i]...), stopped[i+1:]...)
		arg := fmt.Sprintf(" %d", j.num)
		if last && g.P(50) {
			arg = ""
		}
		line("fg"+arg, fmt.Sprintf("fg of what reads %s", j.left[0]))
		stops := 6
		if acts > 8 {
			stops = 0
		}
		feed(j, stops)
	}
	line("debug ev alive", "alive")
	key(Key{Wait: "quiet", Type: "\x04", Label: "end"})
	OnAct = func(k Key) {
		if !k.Input || AtPrompt() || bad != "" {
			return
		}
		if m := kern.K.Tty.Mode; !m.Cooked || !m.Isig {
			bad = "the terminal was in line-editing mode while a command read it"
		}
		if fg := kern.K.Tty.Fg; fg == kern.K.Shell.PGID {
			bad = fmt.Sprintf("the terminal belonged to the shell when the user typed for %s", k.Label)
		}
	}
	s.Check = func(r *Run) {
		r.WantExit(0)
		if bad != "" {
			r.Fail("foreground", "%s", bad)
		}
		for _, x := range ins {
			n := 0
			for _, e := range r.K.Events {
				if e.Kind == "tread" && strings.HasPrefix(e.Text, x.ev+" ") {
					n++
					if e.Text != x.want {
						r.Fail("input", "a foreground command that read the terminal got %s, not %s", e.Text, x.want)
					}
				}
			}
			if n != 1 {
				r.Fail("input", "the foreground command %s, that reads the terminal, ended %d times", x.ev, n)
			}
		}
		for _, e := range r.K.Events {
			if e.Kind == "signal" && (strings.Contains(e.Text, "tty input") || strings.Contains(e.Text, "tty output")) {
				r.Fail("foreground", "process %d used the terminal in the background", e.PID)
			}
		}
		if r.Count("alive") != 1 {
			r.Fail("alive", "the last line was not evaluated")
		}
	}

	return s
}
