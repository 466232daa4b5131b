//go:build go1.22

package scen

import (
	"fmt"
	"strings"

	"zsim/kern"
)

func init() {
	Registry["C17"] = func(g *Gen) *Scenario { return ends(g) }
}

type endGen struct {
	g    *Gen
	n    int
	want []string // The events of the foreground commands, in order.
	out  string   // What they write.
	errs string
	bgs  int
}

func (x *endGen) ev() string {
	x.n++
	t := fmt.Sprintf("m-%d", x.n)
	x.want = append(x.want, t)

	return "debug ev " + t
}

func (x *endGen) write() string {
	x.n++
	t := fmt.Sprintf("out-%d", x.n)
	x.out += t + "\n"

	return x.g.Pick("echo ", "write-line ") + t
}

func block(l ...string) string { return "block {\n" + strings.Join(l, "\n") + "\n}" }

// step makes a foreground command that ends.
func (x *endGen) step(depth int) string {
	g := x.g
	sub := func() string {
		if depth > 0 {
			return x.step(depth - 1)
		}

		return x.ev()
	}
	switch g.N(18) {
	case 0, 1:
		return x.ev()
	case 2, 3:
		return x.write()
	case 4:
		return "ret " + fmt.Sprint(g.N(4))
	case 5:
		return block(sub(), sub())
	case 6:
		a := x.ev()
		x.n++
		t := fmt.Sprintf("out-%d", x.n)
		x.out += t + "\n"

		return block("echo "+t, a) + " | cat"
	case 7:
		return block("define v: capture (block {\necho a\n"+x.ev()+"\n})", x.ev())
	case 8:
		x.n++
		m := fmt.Sprintf("f%d", x.n)

		return block("define "+m+": method () {", sub(), "return 1", x.never(), "}", m, x.ev())
	case 9:
		x.n++
		m := fmt.Sprintf("f%d", x.n)
		raise, ex := "throw oops", "oops"
		if g.P(40) { // What exit raises is raised before anything ends.
			raise, ex = g.Pick("exit 3 4", "ret 0 | exit 4 5", "capture (exit 3 4)"), "$'expected 1 argument, passed 2'"
		}
		l := caught(m, raise)
		x.want = append(x.want, "caught-"+m+" "+ex)

		return block(append(l, m, x.ev())...)
	case 10:
		return block("if (ret 0) {", sub(), "} else {", x.never(), "}")
	case 11:
		return block("define t: spawn {", x.ev(), g.Pick("ret 3", "nosuch", "throw boom", "exit 9", "block {\nexit 9\n}", "exit 9 | cat", "capture (exit 9)"), "}", "wait $t", x.ev())
	case 12:
		return block("define i 0", "while (lt? $i 2) {", "set i: add $i 1", "ret 0", "}", x.ev())
	case 13:
		x.n++
		f := fmt.Sprintf("/home/u/src-%d.oh", x.n)
		a, b := sub(), x.ev()
		kern.K.Put(f, kern.Reg, 0o644, a+"\n"+b+"\n")

		return "source " + f
	case 14:
		return "for (list 1 2) (method (v) {\nret $v\n})"
	case 15:
		return fmt.Sprintf("sleep %d", g.N(3))
	default:
		return x.bg()
	}
}

func (x *endGen) never() string { return "debug ev never" }

// bg makes a background task, which may still run when the shell ends.
func (x *endGen) bg() string {
	g := x.g
	x.bgs++
	t := fmt.Sprintf("bg%d", x.bgs)
	l := []string{"spawn {"}
	switch g.N(10) {
	case 0:
		l = append(l, "while true {", "ret 0", "}")
	case 1:
		l = append(l, "while true {", "}")
	case 2:
		l = append(l, fmt.Sprintf("tick %s 30 1", t))
	case 3:
		l = append(l, "define c: chan", "c read")
	case 4:
		l = append(l, "define p: pipe", "p read")
	case 5:
		l = append(l, "while true {", "define v: capture (echo a)", "echo b | cat >| /dev/null", "}")
	case 6:
		l = append(l, "spawn {", "ret 0 2", "ret 1", "}", "wait")
	case 7:
		l = append(l, "ret 1", "throw boom")
	case 8:
		l = append(l, "ret 0", "exit 9")
	default:
		l = append(l, fmt.Sprintf("tick %s 10 1 | cat >| /dev/null", t))
	}

	return strings.Join(append(l, "}"), "\n")
}

// exit makes a command that ends the shell and the status it ends with.
func (x *endGen) exit(depth int) (string, int) {
	g := x.g
	if depth <= 0 {
		n := g.R(0, 255)
		switch g.N(9) {
		case 0:
			return "exit", 0
		case 1:
			return "exit true", 0
		case 2:
			return "exit ()", 1
		case 3:
			return fmt.Sprintf("exit (ret %d)", n), n
		case 4:
			return fmt.Sprintf("exit (add %d %d)", n/2, n-n/2), n
		case 5:
			return block(fmt.Sprintf("define n %d", n), "exit $n"), n
		default:
			return fmt.Sprintf("exit %d", n), n
		}
	}
	at := len(x.want)
	c, n := x.exit(depth - 1)
	switch g.N(21) {
	case 0:
		c = block(c, x.never())
	case 1:
		x.n++
		m := fmt.Sprintf("f%d", x.n)
		c = block("define "+m+": method () {", c, x.never(), "}", m, x.never())
	case 2:
		c = block("while true {", c, x.never(), "}", x.never())
	case 3:
		c = block("for (list 1 2) (method (v) {", c, x.never(), "})")
	case 4:
		c = block("if (ret 0) {", c, "} else {", x.never(), "}", x.never())
	case 5:
		c = block("define v: capture ("+block(c)+")", x.never())
	case 6:
		c = block(block(c, x.never())+" | cat", x.never())
	case 7:
		c = block("echo a | "+block(c, x.never()), x.never())
	case 8:
		c = block("echo a | "+block(c, x.never())+" | cat", x.never())
	case 9:
		c = block(block(c, x.never())+" >| /home/u/exit.out", x.never())
	case 10:
		c = block("cat <("+block(c)+")", x.never())
	case 11:
		x.n++
		m := fmt.Sprintf("f%d", x.n)
		c = block(append(caught(m, c, x.never()), m, x.never())...)
	case 12:
		x.n++
		m := fmt.Sprintf("f%d", x.n)
		c = block("define "+m+": method () {", "catch ex {", c, x.never(), "}", "throw oops", "}", m, x.never())
	case 13:
		x.n++
		f := fmt.Sprintf("/home/u/exit-%d.oh", x.n)
		kern.K.Put(f, kern.Reg, 0o644, c+"\n"+x.never()+"\n")
		c = block("source "+f, x.never())
	case 14:
		c = block("define o: object {", "export m: method () {", c, x.never(), "}", "}", "o m", x.never())
	case 15:
		c = block("echo (capture ("+block(c)+"))", x.never())
	case 16:
		c = block("true && "+block(c, x.never()), x.never())
	case 17:
		c = block("false || "+block(c, x.never()), x.never())
	case 18:
		c = block("define l: list a `("+block(c)+")", x.never())
	case 19:
		e := x.ev()
		copy(x.want[at+1:], x.want[at:])
		x.want[at] = strings.TrimPrefix(e, "debug ev ")
		c = block(e, c, x.never())
	default:
		c = block(block(c, x.never())+" | cp | cat", x.never())
	}

	return c, n
}

func ends(g *Gen) *Scenario {
	s := &Scenario{Family: "end", Fault: benign(g), FairAt: 8000000, MaxSteps: 40000000}
	x := &endGen{g: g}
	steps := []string{}
	tty := g.P(35)
	n := g.R(0, 5)
	if tty {
		n = g.R(0, 3)
	}
	for i := 0; i < n; i++ {
		steps = append(steps, x.step(1))
	}
	code := 0
	byExit := g.P(70)
	last := ""
	fg := false
	if byExit {
		depth := g.R(0, 3)
		if tty && g.P(25) {
			// It is stopped, and continues in the foreground.
			fg = true
			c, k := x.exit(depth)
			last, code = block("tick J 5 2", "ret 0", c, x.never()), k
		} else {
			last, code = x.exit(depth)
			if g.P(25) {
				x.n++
				x.out += fmt.Sprintf("out-%d\n", x.n)
				last = block(block(fmt.Sprintf("write-line out-%d", x.n), last, x.never())+g.Pick(" | cat", " | cp", " | cp | cat"), x.never())
			}
		}
	}

	wait := "quiet"
	if x.bgs > 0 {
		wait = "prompt"
	}
	cp := "define cp: method () {\nwhile (define l: read-line) {\nwrite-line $l\n}\n}"

	switch {
	case tty:
		s.Family = "end-interactive"
		s.Tty, s.FairAt, s.MaxSteps, s.RC = true, 12000000, 40000000, userRC(g)
		for i, l := range append([]string{cp}, steps...) {
			s.Keys = append(s.Keys, Key{Wait: wait, Type: l + "\n", Label: fmt.Sprintf("line %d", i)})
		}
		if s.RC == "" && strings.Count(strings.Join(steps, "\n")+last, "\n") > 10 {
			s.RC = cheapPrompt
		}
		if byExit {
			s.Keys = append(s.Keys, Key{Wait: wait, Type: last + "\n", Label: "exit"})
			if fg {
				s.Family = "end-stopped"
				s.Keys = append(s.Keys, Key{Wait: "begun", N: g.N(6) * 4000, Type: "\x1a", Label: "stop"},
					Key{Wait: wait, Type: "fg\n", Label: "fg"})
			}
		} else {
			s.Keys = append(s.Keys, Key{Wait: wait, Type: "\x04", Label: "end"})
		}
	case g.P(30):
		s.Family = "end-command"
		l := append([]string{cp}, steps...)
		if byExit {
			l = append(l, last, x.never())
		}
		s.Command = strings.Join(l, "\n")
	default:
		s.Script = append([]string{cp}, steps...)
		if byExit {
			s.Script = append(s.Script, last, x.never())
		}
	}

	s.Check = func(r *Run) {
		r.WantExit(code)
		got := []string{}
		for _, e := range r.Evs("ev") {
			if e.Text == "never" {
				r.Fail("ran-on", "a command after the one that ended the shell was executed")
			}
			if strings.HasPrefix(e.Text, "m-") || strings.HasPrefix(e.Text, "caught-") {
				got = append(got, e.Text)
			}
		}
		// Events of one task waited for are in order, too.
		if a, b := strings.Join(got, " "), strings.Join(x.want, " "); a != b {
			r.Fail("commands", "the commands executed are %s, not %s", clip(a, 400), clip(b, 400))
		}
		if !tty {
			if got := Out.Text(); got != x.out {
				r.Fail("output", "standard output got %s", diffAt(got, x.out))
			}
		} else {
			t := strings.ReplaceAll(r.K.Tty.Out.Text(), "\r\n", "\n")
			at := 0
			for _, l := range splitLines(x.out) {
				i := strings.Index(t[at:], l+"\n")
				if i < 0 {
					r.Fail("output", "the output %q is not on the terminal, or out of order", l)

					break
				}
				at += i
			}
		}
	}

	return s
}
