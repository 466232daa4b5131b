//go:build go1.22

package scen

import (
	"fmt"
	"strings"
	"syscall"

	"zsim/kern"
)

// alive counts the external processes that were running at event idx.
func alive(r *Run, idx int) []string {
	names := map[int]string{}
	order := []int{}

	for i, e := range r.K.Events {
		if i >= idx {
			break
		}
		switch e.Kind {
		case "exec":
			names[e.PID] = e.Text
			order = append(order, e.PID)
		case "exit":
			delete(names, e.PID)
		}
	}

	l := []string{}
	for _, p := range order {
		if names[p] != "" {
			l = append(l, names[p])
		}
	}

	return l
}

// outStage is a stage of a pipeline whose outcome is known.
type outStage struct {
	text   string
	val    string   // Its value, as debug prints it.
	throws []string // Substrings of the exception it raises, or nil.
	done   string   // Event at its end.
	loud   bool     // Writes until it is told to stop.
	early  bool     // Does not read all its input.
}

func status(n int) string { return fmt.Sprintf("(|status %d|)", n) }

var fatalSignals = []int{9, 15, 1, 2, 6, 11, 13, 3, 10}

func coreSignal(n int) bool {
	switch syscall.Signal(n) {
	case syscall.SIGQUIT, syscall.SIGILL, syscall.SIGABRT, syscall.SIGBUS, syscall.SIGFPE, syscall.SIGSEGV, syscall.SIGSYS, syscall.SIGTRAP:
		return true
	}

	return false
}

type outGen struct {
	g *Gen
	n int
}

func (x *outGen) stage(first, last, mayThrow bool) outStage {
	g := x.g
	x.n++
	t := fmt.Sprintf("s%d", x.n)
	delay := []int{0, 0, 1, 5, 30}[g.N(5)]
	pre := ""
	if delay > 0 {
		pre = fmt.Sprintf("sleep %d\n", delay)
	}
	in := ""
	if !first {
		in = []string{"", "cat\n", "read-line\n"}[g.N(3)]
	}

	if mayThrow && g.P(30) {
		switch g.N(4) {
		case 0:
			return outStage{text: "nosuchcommand" + t, throws: []string{"nosuchcommand" + t}, early: true}
		case 1:
			return outStage{text: fmt.Sprintf("block {\n%s%sthrow boom%s\n}", in, pre, t), throws: []string{"boom" + t}, early: in != "cat\n"}
		case 2:
			return outStage{text: fmt.Sprintf("block {\n%s%secho some\nblock {\nthrow $undefined%s\n}\n}", in, pre, t), throws: []string{"undefined" + t}, early: in != "cat\n"}
		default:
			return outStage{text: fmt.Sprintf("block {\n%sdebug ev going-%s\nthrow boom%s\ndebug ev never-%s\n}", in, t, t, t), throws: []string{"boom" + t}, early: in != "cat\n"}
		}
	}

	switch g.N(7) {
	case 0:
		n := g.N(256)

		return outStage{text: fmt.Sprintf("ret %d %d", n, delay), val: status(n), early: true}
	case 1:
		n := fatalSignals[g.N(len(fatalSignals))]

		return outStage{text: fmt.Sprintf("die %d %d", n, delay), val: status(128 + n), early: true}
	case 2:
		n := g.N(1000)

		return outStage{text: fmt.Sprintf("block {\n%s%sdebug ev done-%s\nnumber %d\n}", in, pre, t, n), val: fmt.Sprintf("(|number %d|)", n), done: "done-" + t, early: in != "cat\n"}
	case 3:
		return outStage{text: fmt.Sprintf("block {\n%s%secho out-%s\ndebug ev done-%s\nlist %s 1 ()\n}", in, pre, t, t, t), val: "(" + t + " 1 ())", done: "done-" + t, early: in != "cat\n"}
	case 4:
		n := g.N(256)

		return outStage{text: fmt.Sprintf("block {\n%sdebug ev done-%s\nret %d %d\n}", in, t, n, delay), val: status(n), done: "done-" + t, early: in != "cat\n"}
	case 5:
		if first {
			return outStage{text: "emit " + t + " " + fmt.Sprint(g.N(300)), val: status(0)}
		}
		n := g.N(256)

		return outStage{text: fmt.Sprintf("sink %s %d", t, n), val: status(n)}
	default:
		if first {
			return outStage{text: "lines " + t + " 5", val: status(0)}
		}

		return outStage{text: "cat", val: status(0)}
	}
}

// caught runs body in a method that catches and reports exceptions.
func caught(name string, body ...string) []string {
	l := []string{
		"define " + name + ": method () {",
		"catch ex {",
		"debug ev caught-" + name + " $ex",
		"return " + name + "-failed",
		"}",
	}
	l = append(l, body...)

	return append(l, "return "+name+"-ok", "}")
}

// callAll calls methods, some of them in tasks.
func callAll(g *Gen, names []string, conc int) []string {
	l := []string{}
	w := []string{}

	for i, n := range names {
		if g.P(conc) {
			t := fmt.Sprintf("tk%d", i)
			l = append(l, "define "+t+": spawn {", "debug ev after-"+n+" ("+n+")", "}")
			w = append(w, "$"+t)
		} else {
			l = append(l, "debug ev after-"+n+" ("+n+")")
		}
	}

	if len(w) > 0 {
		l = append(l, "wait "+strings.Join(w, " "))
	}

	return l
}

func evText(r *Run, prefix string) (string, int, int) {
	n, at := 0, -1
	s := ""

	for i, e := range r.K.Events {
		if e.Kind == "ev" && (e.Text == prefix || strings.HasPrefix(e.Text, prefix+" ")) {
			n++
			if at < 0 {
				at = i
				s = strings.TrimSpace(strings.TrimPrefix(e.Text, prefix))
			}
		}
	}

	return s, n, at
}

func init() {
	Registry["C02"] = func(g *Gen) *Scenario {
		switch g.N(3) {
		case 2:
			return earlyExit(g)
		}

		return outcomes(g)
	}
}

func outcomes(g *Gen) *Scenario {
	kern.K.PipeCap = 4096
	kern.K.CoreDump = g.P(50)
	x := &outGen{g: g}
	s := &Scenario{Family: "outcome", Race: true, Fault: benign(g)}

	type pl struct {
		name   string
		stages []outStage
		text   string
	}

	pls := []*pl{}
	names := []string{}

	for i := 1 + g.N(3); i > 0; i-- {
		p := &pl{name: fmt.Sprintf("p%d", i)}
		n := g.R(2, 4)
		throwing := g.P(50)

		for j := 0; j < n; j++ {
			st := x.stage(j == 0, j == n-1, throwing)
			p.stages = append(p.stages, st)
			if j > 0 {
				p.text += []string{" | ", " |& "}[g.N(2)]
			}
			p.text += st.text
		}

		pls = append(pls, p)
		names = append(names, p.name)
		s.Script = append(s.Script, caught(p.name, "define r ("+p.text+")", "debug ev value-"+p.name+" $r")...)
	}

	conc := []int{0, 60}[g.N(2)]
	if conc > 0 {
		s.Family = "outcome-concurrent"
	}
	s.Script = append(s.Script, callAll(g, names, conc)...)
	s.Script = append(s.Script, "exit 7")
	s.Check = func(r *Run) {
		r.WantExit(7)

		for _, p := range pls {
			ex, nex, atEx := evText(r, "caught-"+p.name)
			v, nv, atV := evText(r, "value-"+p.name)
			if nex+nv != 1 {
				r.Fail("once", "pipeline %s returned %d times and raised %d exceptions", p.text, nv, nex)

				return
			}

			possible := []string{}
			certain := false
			for i, st := range p.stages {
				possible = append(possible, st.throws...)
				if st.throws != nil {
					certain = true
				}
				// A stage that writes to a reader that has gone may raise a write error.
				if st.throws == nil && i+1 < len(p.stages) && strings.Contains(st.text, "block {") {
					possible = append(possible, "broken pipe", "write to closed")
				}
			}

			at := atV
			if nex == 1 {
				at = atEx
				ok := false
				for _, t := range possible {
					if strings.Contains(ex, t) {
						ok = true
					}
				}
				if !ok {
					r.Fail("wrong-exception", "pipeline %s raised %s", p.text, ex)
				}
			} else {
				if certain {
					r.Fail("lost-exception", "pipeline %s returned %s although a stage raised an exception", p.text, v)
				}
				if want := p.stages[len(p.stages)-1].val; v != want {
					r.Fail("value", "pipeline %s returned %s, but its last stage %s", p.text, v, want)
				}
			}

			for i, st := range p.stages {
				if st.done == "" || st.throws != nil {
					continue
				}
				d := r.Index(st.done)
				if nex == 0 && r.Count(st.done) != 1 {
					r.Fail("stage", "stage %d of %s ended %d times", i+1, p.text, r.Count(st.done))
				}
				if d > at {
					r.Fail("early-return", "pipeline %s returned before stage %d had ended", p.text, i+1)
				}
			}

			if conc == 0 {
				if l := alive(r, at); len(l) > 0 {
					r.Fail("early-return", "pipeline %s returned while %q ran", p.text, l)
				}
			}
		}

		for _, e := range r.Evs("ev") {
			if strings.HasPrefix(e.Text, "never-") {
				r.Fail("ran-on", "a stage went on after throwing: %s", e.Text)
			}
		}
	}

	return s
}

// earlyExit: the consumer goes away before the producer has finished.
func earlyExit(g *Gen) *Scenario {
	kern.K.PipeCap = 4096
	s := &Scenario{Family: "early-exit", Race: true, Fault: benign(g)}

	prod := ""
	loud := false

	switch g.N(4) {
	case 0:
		prod = "spew a"
	case 1:
		prod = "block {\nwhile true {\nwrite-line " + big() + "\n}\ndebug ev never-1\n}"
		loud = true
	case 2:
		prod = "block {\necho x\nspew b\ndebug ev spewed\n}"
	default:
		prod = "block {\nspew a\nwhile true {\nwrite-line " + big() + "\n}\ndebug ev never-1\n}"
		loud = true
	}

	mid := []string{"", "cat | ", "block {\ncat\ndebug ev mid\n} | ", "cat | cat | "}[g.N(4)]
	cons := ""
	want := ""
	throws := ""

	switch g.N(5) {
	case 0:
		cons, want = "head 10", status(0)
	case 1:
		cons, want = "block {\nread-line\ndebug ev read\nret 3 5\n}", status(3)
	case 2:
		cons, want = "ret 4", status(4)
	case 3:
		cons, throws = "block {\nread-line\nthrow boom\n}", "boom"
	default:
		cons, want = "block {\nhead 10 > /dev/null\nsleep 20\nnumber 5\n}", "(|number 5|)"
	}

	s.Script = caught("p", "define r ("+prod+" | "+mid+cons+")", "debug ev value-p $r")
	s.Script = append(s.Script, "debug ev after (p)", "define c (capture (echo still here))", "debug ev c (c head)", "exit 9")
	s.Check = func(r *Run) {
		r.WantExit(9)
		ex, nex, at := evText(r, "caught-p")
		v, nv, atV := evText(r, "value-p")
		if nex+nv != 1 {
			r.Fail("once", "the pipeline returned %d times and raised %d exceptions", nv, nex)

			return
		}
		if nv == 1 {
			at = atV
			if throws != "" {
				r.Fail("lost-exception", "the pipeline returned %s although its last stage raised an exception", v)
			}
			if loud && mid == "" {
				r.Fail("lost-exception", "the pipeline returned %s although its writer failed", v)
			}
			if v != want {
				r.Fail("value", "the pipeline returned %s, not %s", v, want)
			}
		} else if !(throws != "" && strings.Contains(ex, throws)) && !(loud && strings.Contains(ex, "broken pipe")) {
			r.Fail("wrong-exception", "the pipeline raised %s", ex)
		}
		if l := alive(r, at); len(l) > 0 {
			r.Fail("early-return", "the pipeline returned while %q ran", l)
		}
		if r.Count("never-1") > 0 {
			r.Fail("ran-on", "the writer never noticed that its reader had gone")
		}
		if c, _, _ := evText(r, "c"); unq(c) != "still here" {
			r.Fail("after", "the command after the pipeline captured %q", c)
		}
	}

	return s
}
