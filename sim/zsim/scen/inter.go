//go:build go1.22

package scen

import (
	"fmt"
	"strings"

	"zsim/kern"
)

func init() {
	Registry["C13"] = func(g *Gen) *Scenario { return interrupts(g) }
}

// intCmd makes command number k, which ends only if interrupted unless short.
func intCmd(g *Gen, k int) (line string, short bool) {
	ev := fmt.Sprintf("debug ev w-%d", k)
	loop := "while true {\n" + ev + "\n}\n"
	hold := fmt.Sprintf("hold h%d", k)
	blk := func(l ...string) string { return "block {\n" + strings.Join(l, "\n") + "\n}" }
	switch g.N(23) {
	case 0:
		return loop, false
	case 1:
		return hold, false
	case 2:
		return blk(hold, ev), false
	case 3:
		return blk("ret 0", ev, loop), false
	case 4:
		return "while true {\nret 0\n" + ev + "\n}", false
	case 5:
		return hold + " | cat", false
	case 6:
		return hold + " | true", false
	case 7:
		return blk(loop) + " | cat", false
	case 8:
		return "ret 0 | " + blk(loop), false
	case 9:
		return blk("define c: chan", ev, "c read", ev), false
	case 10:
		return blk("define c: pipe", ev, "c read", ev), false
	case 11:
		return blk("spawn {", loop, "}", "wait", ev), false
	case 12:
		return "echo (" + hold + ")", false
	case 13:
		return blk("define m: method () {", hold+" >| f", ev, "m", "}", "m"), false
	case 14:
		return blk("spawn {", hold, ev, "}", "wait", ev), false
	case 15:
		return blk(ev, "ret 0", ev, "echo a | cat >| /dev/null", ev), true
	case 16:
		return blk("spawn {", "while true {", "spawn {", ev, "ret 0", "}", "wait", "}", "}", "wait"), false
	case 17:
		return "while true {\n" + ev + "\ndefine v (capture (echo a))\n" + "echo b | cat >| /dev/null\n}", false
	case 18:
		return blk("define c: chan", "spawn {", "while true {", "c write a", ev, "}", "}", "while true {", "c read", "}"), false
	case 19:
		return blk("define m: method () {", "catch ex {", ev, "return ()", "}", hold, "throw oops", "}", "while true {", "m", "}"), false
	case 20:
		return blk(fmt.Sprintf("deaf h%d 3", k), ev), true
	case 21: // Until the file is open the task can't be told anything.
		f := fmt.Sprintf("/home/u/fifo%d", k)
		kern.K.Put(f, kern.Fifo, 0o644, "")

		return blk("spawn {", "define f: open r "+f, ev, "f read-line", ev, "}", ev, "wait", ev), false
	default:
		return blk(ev, ev), true
	}
}

// userRC usually makes the prompt cheap to compute.
func userRC(g *Gen) string {
	if g.P(10) {
		return ""
	}

	return cheapPrompt
}

const cheapPrompt = "replace-make-prompt (method (suffix) {\n    return $suffix\n})\n"

func interrupts(g *Gen) *Scenario {
	s := &Scenario{Family: "interrupt", Tty: true, FairAt: 12000000, MaxSteps: 40000000, RC: userRC(g)}
	n := g.R(1, 4)
	type cmd struct {
		line  string
		short bool
	}
	cmds := []cmd{}
	s.Keys = append(s.Keys, Key{Wait: "prompt", Type: "define x: list a b\n", Label: "define"})
	for k := 0; k < n; k++ {
		c := cmd{}
		c.line, c.short = intCmd(g, k)
		cmds = append(cmds, c)
		s.Keys = append(s.Keys, Key{Wait: "quiet", N: g.N(3) * 10000, Type: c.line + "\n", Label: fmt.Sprintf("line %d", k)})
		d := []int{0, 1000, 5000, 10000, 20000, 50000, 100000, 200000, 400000}[g.N(9)]
		s.Keys = append(s.Keys, Key{Wait: "begun", N: d + g.N(d+1), Type: "\x03", Label: fmt.Sprintf("interrupt %d", k)})
		alive := fmt.Sprintf("debug ev alive-%d\n", k)
		if strings.Contains(c.line, "open r /home/u/fifo") {
			alive = fmt.Sprintf("block {\ndefine w: open rw /home/u/fifo%d\nw write-line hi\nret 0\nw close\n%s}\n", k, alive)
		}
		s.Keys = append(s.Keys, Key{Wait: "quiet", Type: alive, Label: fmt.Sprintf("after interrupt %d", k)})
	}
	s.Keys = append(s.Keys,
		Key{Wait: "quiet", Type: "debug ev x $x\n", Label: "print"},
		Key{Wait: "quiet", Type: "debug ev jobs (capture (jobs))\n", Label: "jobs"},
		Key{Wait: "quiet", Type: "\x04", Label: "end"})
	OnAct = func(k Key) {
		if strings.HasPrefix(k.Label, "after interrupt") {
			for _, p := range kern.K.Order {
				if !p.IsShell && p.State != 'Z' && p.State != 'X' {
					kern.K.Log("survivor", p.PID, p.Name+" "+strings.Join(p.Argv, " "))
				}
			}
		}
	}
	s.Check = func(r *Run) {
		r.WantExit(0)
		for k := range cmds {
			after := false
			for _, e := range r.K.Events {
				switch {
				case e.Kind == "user" && strings.HasPrefix(e.Text, fmt.Sprintf("after interrupt %d ", k)):
					after = true
				case e.Kind == "ev" && e.Text == fmt.Sprintf("w-%d", k) && after:
					r.Fail("goes-on", "command %d (%s) took further steps after it had been interrupted and the shell had prompted", k, cmds[k].line)
				}
			}
			if c := r.Count(fmt.Sprintf("alive-%d", k)); c != 1 {
				r.Fail("later", "the command entered after interrupt %d (%s) was executed %d times", k, cmds[k].line, c)
			}
		}
		for _, e := range r.K.Events {
			if e.Kind == "survivor" {
				r.Fail("survivor", "a process of the interrupted command is left: %s", e.Text)
			}
		}
		if v, c, _ := evText(r, "x"); c != 1 || v != "(a b)" {
			r.Fail("state", "after the interrupts x was %s (%d)", v, c)
		}
		if v, c, _ := evText(r, "jobs"); c != 1 || v != "()" {
			r.Fail("jobs", "after the interrupts jobs printed %s (%d)", v, c)
		}
	}

	return s
}
