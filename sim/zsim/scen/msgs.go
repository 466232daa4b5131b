//go:build go1.22

package scen

import (
	"fmt"
	"sort"
	"strings"

	"zsim/kern"
)

func init() {
	Registry["C07"] = func(g *Gen) *Scenario {
		switch g.N(8) {
		case 4:
			return msgFile(g)
		case 5:
			return msgClose(g)
		case 6:
			return msgExternal(g)
		case 7:
			return msgEcho(g)
		}

		return msgQueue(g)
	}
}

// msg is a message: the words passed to write, what read-list shows for them
// and what read-line shows for them.
type msg struct {
	id, expr, shown, line string
}

// oddWord is a string, as the debug meta command shows it, that starts with id.
func oddWord(g *Gen, id string) string {
	l := []string{}
	for k := g.R(1, 4); k > 0; k-- {
		l = append(l, g.Pick(`\t`, " ", `\r`, `\'`, `\\`, `"`, `#`, `;`, `&`, `|`, `(`, `)`, `{`, `}`, `$x`, `<>`, `\u00e9`, `\u65e5`, "~", "*", ":", "``", `\a`, `\x00`, `\u007f`, "x"))
	}

	return "$'" + id + strings.Join(l, "") + "'"
}

func newMsg(g *Gen, id string, huge bool) msg {
	switch g.N(9) {
	case 7: // Strings with all sorts of characters.
		w := oddWord(g, id)

		return msg{id, w, "(" + w + ")", ""}
	case 8: // Symbols, pairs and the like inside the message.
		w := g.Pick("()", "true", "5", "''", "(status 3)", "(cons 1 2)", "(cons (list 1 2) 3)", "(symbol 'a b')")
		v := map[string]string{"''": "$''", "(status 3)": "(|status 3|)", "(cons 1 2)": "(|cons 1 2|)", "(cons (list 1 2) 3)": "(|cons (1 2) 3|)", "(symbol 'a b')": "(|symbol $'a b'|)"}[w]
		if v == "" {
			v = w
		}

		return msg{id, id + " " + w, "(" + id + " " + v + ")", ""}
	case 0, 1:
		return msg{id, id, "(" + id + ")", "$'" + id + "'"}
	case 2:
		return msg{id, id + " b 'c d'", "(" + id + " b $'c d')", "$'" + id + ` b $\'c d\''`}
	case 3:
		return msg{id, "(list " + id + " (list 1 ()) x)", "((" + id + " (1 ()) x))", "$'(" + id + " (1 ()) x)'"}
	case 4:
		return msg{id, id + " $'a\\nb'", "(" + id + " $'a\\nb')", ""}
	case 5:
		return msg{id, id + " (number 5)", "(" + id + " (|number 5|))", "$'" + id + " (|number 5|)'"}
	default:
		n := g.R(100, 700)
		if huge {
			n = g.R(3000, 12000)
		}
		w := strings.Repeat(id, n/len(id)+1)

		return msg{id, id + " " + w, "(" + id + " " + w + ")", "$'" + id + " " + w + "'"}
	}
}

// seen is what one task received.
type seen struct {
	task string
	vals []string
	end  bool
}

// received collects the events "got TASK value"; "()" is end-of-file.
func received(r *Run) map[string]*seen {
	m := map[string]*seen{}
	for _, e := range r.Ev("got") {
		f := strings.SplitN(e.Text, " ", 3)
		s := m[f[1]]
		if s == nil {
			s = &seen{task: f[1]}
			m[f[1]] = s
		}
		if f[2] == "()" {
			s.end = true
		} else {
			s.vals = append(s.vals, f[2])
		}
	}

	return m
}

// checkDelivery checks that each message was received once and that every
// reader saw the messages of each writer in order. The keys of want are
// writers; the elements are the shown forms.
func checkDelivery(r *Run, want map[string][]string, got map[string]*seen) {
	where := map[string][2]any{}
	all := []string{}
	for w, l := range want {
		for i, v := range l {
			where[v] = [2]any{w, i}
			all = append(all, v)
		}
	}
	have := []string{}
	tasks := []string{}
	for t := range got {
		tasks = append(tasks, t)
	}
	sort.Strings(tasks)
	for _, t := range tasks {
		last := map[string]int{}
		for _, v := range got[t].vals {
			have = append(have, v)
			p, ok := where[v]
			if !ok {
				r.Fail("damaged", "reader %s received %q, which nobody wrote", t, clip(v, 300))

				return
			}
			w, i := p[0].(string), p[1].(int)
			if i+1 <= last[w] {
				r.Fail("order", "reader %s received message %d of writer %s after its message %d", t, i+1, w, last[w])

				return
			}
			last[w] = i + 1
		}
	}
	sort.Strings(all)
	sort.Strings(have)
	if strings.Join(all, "\n") != strings.Join(have, "\n") {
		r.Fail("delivery", "%d messages were written, %d received; written %s received %s", len(all), len(have), clip(strings.Join(all, "\n"), 400), clip(strings.Join(have, "\n"), 400))
	}
}

func msgQueue(g *Gen) *Scenario {
	s := &Scenario{Family: "queue", Race: true, Fault: benign(g)}
	s.Setup = func() { pipeCap(g) }
	huge := g.P(40)
	writers := g.R(1, 4)
	readers := g.R(1, 3)
	lines := g.P(30)
	s.Script = append(s.Script, "define p: pipe")
	want := map[string][]string{}
	ws, rs := []string{}, []string{}

	for i := 0; i < writers; i++ {
		w := fmt.Sprintf("w%d", i)
		l := []string{}
		for k := g.R(1, 5); k > 0; k-- {
			m := newMsg(g, fmt.Sprintf("%sm%d", w, k), huge)
			if lines && m.line == "" {
				m = msg{m.id, m.id, "(" + m.id + ")", "$'" + m.id + "'"}
			}
			if g.P(15) {
				l = append(l, "sleep 1")
			}
			if g.P(25) && !strings.ContainsAny(m.expr, " '$(") {
				l = append(l, "p write-line "+m.expr)
			} else if lines && g.P(40) {
				w := oddWord(g, m.id)
				l = append(l, "p write-line "+w)
				m.line = w
			} else {
				l = append(l, "p write "+m.expr)
			}
			if lines {
				want[w] = append(want[w], m.line)
			} else {
				want[w] = append(want[w], m.shown)
			}
		}
		s.Script = append(s.Script, "define "+w+": spawn {")
		s.Script = append(s.Script, l...)
		s.Script = append(s.Script, "}")
		ws = append(ws, "$"+w)
	}
	op := "read-list"
	if lines {
		op = "read-line"
	}
	for i := 0; i < readers; i++ {
		rd := fmt.Sprintf("r%d", i)
		s.Script = append(s.Script, "define "+rd+": spawn {", "define go true", "while $go {", "define l: p "+op, "debug ev got "+rd+" $l")
		if g.P(20) {
			s.Script = append(s.Script, "sleep 1")
		}
		s.Script = append(s.Script, "if (null? $l) {", "set go ()", "}", "}", "}")
		rs = append(rs, "$"+rd)
	}
	s.Script = append(s.Script, "wait "+strings.Join(ws, " "), "p writer-close", "wait "+strings.Join(rs, " "), "exit 7")
	s.Check = func(r *Run) {
		r.WantExit(7)
		got := received(r)
		checkDelivery(r, want, got)
		for i := 0; i < readers; i++ {
			if x := got[fmt.Sprintf("r%d", i)]; x == nil || !x.end {
				r.Fail("eof", "reader %d never saw the end-of-file", i)
			}
		}
	}

	return s
}

// msgEcho: messages go through a second task and come back.
func msgEcho(g *Gen) *Scenario {
	s := &Scenario{Family: "echo", Race: true, Fault: benign(g)}
	s.Setup = func() { pipeCap(g) }
	huge := g.P(40)
	n := g.R(1, 3)
	s.Script = append(s.Script, "define there: pipe", "define back: pipe")
	for i := 0; i < n; i++ {
		s.Script = append(s.Script, fmt.Sprintf("define e%d: spawn {", i), "while (define v: there read-list) {", "back write $v", "}", "}")
	}
	want := map[string][]string{}
	ws := []string{}
	total := 0
	for i := g.R(1, 3); i > 0; i-- {
		w := fmt.Sprintf("w%d", i)
		l := []string{}
		for k := g.R(1, 4); k > 0; k-- {
			m := newMsg(g, fmt.Sprintf("%sm%d", w, k), huge)
			l = append(l, "there write "+m.expr)
			want[fmt.Sprintf("%s-%d", w, k)] = []string{"(" + m.shown + ")"} // No order through several echoing tasks.
			total++
		}
		s.Script = append(s.Script, "define "+w+": spawn {")
		s.Script = append(s.Script, l...)
		s.Script = append(s.Script, "}")
		ws = append(ws, "$"+w)
	}
	s.Script = append(s.Script, "define r: spawn {", "while (define l: back read-list) {", "debug ev got r $l", "}", "debug ev got r ()", "}",
		"wait "+strings.Join(ws, " "), "there writer-close")
	es := []string{}
	for i := 0; i < n; i++ {
		es = append(es, fmt.Sprintf("$e%d", i))
	}
	s.Script = append(s.Script, "wait "+strings.Join(es, " "), "back writer-close", "wait $r", "exit 7")
	s.Check = func(r *Run) {
		r.WantExit(7)
		checkDelivery(r, want, received(r))
	}

	return s
}

// msgFile: tasks write lines to the same file conduit.
func msgFile(g *Gen) *Scenario {
	s := &Scenario{Family: "file", Race: true, Fault: benign(g)}
	mode := g.Pick("w", "a", "w")
	redir := g.P(30)
	huge := g.P(30)
	before := ""
	if g.P(40) {
		before = "before\n"
	}
	s.Setup = func() {
		if before != "" {
			kern.K.Put("/home/u/f", kern.Reg, 0o644, before)
		}
	}
	s.Script = append(s.Script, "define f: open "+mode+" f")
	want := map[string][]string{}
	ws := []string{}
	for i := g.R(2, 4); i > 0; i-- {
		w := fmt.Sprintf("w%d", i)
		s.Script = append(s.Script, "define "+w+": spawn {")
		for k := g.R(1, 5); k > 0; k-- {
			id := fmt.Sprintf("%sm%d", w, k)
			text := id
			if g.P(30) {
				n := g.R(100, 700)
				if huge {
					n = g.R(3000, 12000)
				}
				text = strings.Repeat(id, n/len(id)+1)
			}
			pre := "f "
			if redir {
				pre = "block {\nwrite-line " + text + "\n} > $f"
				s.Script = append(s.Script, pre)
			} else {
				s.Script = append(s.Script, pre+"write-line "+text)
			}
			want[w] = append(want[w], text)
		}
		s.Script = append(s.Script, "}")
		ws = append(ws, "$"+w)
	}
	s.Script = append(s.Script, "wait "+strings.Join(ws, " "), "f close", "exit 7")
	s.Check = func(r *Run) {
		r.WantExit(7)
		data := ""
		data, _ = r.K.Read("/home/u/f")
		rest := data
		if mode == "a" {
			if !strings.HasPrefix(data, before) {
				r.Fail("lost", "what the file held is gone: %q", clip(data, 300))

				return
			}
			rest = data[len(before):]
		}
		if !strings.HasSuffix(rest, "\n") {
			r.Fail("damaged", "the file ends in a partial message: %q", clip(rest, 300))

			return
		}
		sn := &seen{task: "file", vals: strings.Split(strings.TrimSuffix(rest, "\n"), "\n")}
		checkDelivery(r, want, map[string]*seen{"file": sn})
	}

	return s
}

// msgExternal: external programs and tasks write to the same pipe. The
// messages of programs are short enough to be atomic.
func msgExternal(g *Gen) *Scenario {
	s := &Scenario{Family: "external"}
	s.Script = append(s.Script, "define p: pipe")
	want := map[string][]string{}
	ws := []string{}
	for i := g.R(1, 3); i > 0; i-- {
		w := fmt.Sprintf("x%d", i)
		n := g.R(1, 6)
		s.Script = append(s.Script, "define "+w+": spawn {", fmt.Sprintf("msgs %s %d %d > $p", w, n, g.N(2)), "}")
		for k := 0; k < n; k++ {
			want[w] = append(want[w], "$'"+stubLine(w, k)+"'")
		}
		ws = append(ws, "$"+w)
	}
	for i := g.R(1, 2); i > 0; i-- {
		w := fmt.Sprintf("w%d", i)
		s.Script = append(s.Script, "define "+w+": spawn {")
		for k := g.R(1, 5); k > 0; k-- {
			id := fmt.Sprintf("%sm%d", w, k)
			s.Script = append(s.Script, "p write-line "+id)
			want[w] = append(want[w], "$'"+id+"'")
		}
		s.Script = append(s.Script, "}")
		ws = append(ws, "$"+w)
	}
	readers := g.R(1, 2)
	rs := []string{}
	for i := 0; i < readers; i++ {
		rd := fmt.Sprintf("r%d", i)
		s.Script = append(s.Script, "define "+rd+": spawn {", "while (define l: p read-line) {", "debug ev got "+rd+" $l", "}", "debug ev got "+rd+" ()", "}")
		rs = append(rs, "$"+rd)
	}
	s.Script = append(s.Script, "wait "+strings.Join(ws, " "), "p writer-close", "wait "+strings.Join(rs, " "), "exit 7")
	s.Check = func(r *Run) {
		r.WantExit(7)
		checkDelivery(r, want, received(r))
	}

	return s
}

// msgClose: ends are closed while the other end is in use.
func msgClose(g *Gen) *Scenario {
	s := &Scenario{Family: "close", Race: true, Fault: benign(g), MaxSteps: 20000000, FairAt: 3000000}
	s.Setup = func() { pipeCap(g) }
	s.Script = append(s.Script, "define p: pipe")
	kind := g.N(4)
	n := g.R(1, 3)
	delay := ""
	if g.P(50) {
		delay = "sleep 2"
	}
	ts := []string{}
	switch kind {
	case 0: // The reading end goes away: every writer is told.
		s.Script = append(s.Script, "define big '"+big()+"'")
		for i := 0; i < n; i++ {
			body := []string{"while true {", "p write-line $big", "}"}
			s.Script = append(s.Script, fmt.Sprintf("define t%d: spawn {", i))
			s.Script = append(s.Script, fmt.Sprintf("define m%d: method () {", i), "catch ex {", fmt.Sprintf("debug ev told-%d $ex", i), "return ()", "}")
			s.Script = append(s.Script, body...)
			s.Script = append(s.Script, "}", fmt.Sprintf("m%d", i), fmt.Sprintf("debug ev after-%d", i), "}")
			ts = append(ts, fmt.Sprintf("$t%d", i))
		}
		s.Script = append(s.Script, "p read-line", "p reader-close")
	case 1: // The writing end goes away: every reader is told.
		for i := 0; i < n; i++ {
			s.Script = append(s.Script, fmt.Sprintf("define t%d: spawn {", i), "while (define l: p read-line) {", "debug ev got x $l", "}", fmt.Sprintf("debug ev told-%d", i), "}")
			ts = append(ts, fmt.Sprintf("$t%d", i))
		}
		s.Script = append(s.Script, "p write-line one", delay, "p writer-close")
	case 2: // The reading end is closed while tasks are blocked reading.
		for i := 0; i < n; i++ {
			s.Script = append(s.Script, fmt.Sprintf("define t%d: spawn {", i))
			s.Script = append(s.Script, fmt.Sprintf("define m%d: method () {", i), "catch ex {", fmt.Sprintf("debug ev told-%d $ex", i), "return ()", "}",
				"while (define l: p "+g.Pick("read-line", "read", "read-list")+") {", "debug ev got x $l", "}", fmt.Sprintf("debug ev told-%d", i), "}", fmt.Sprintf("m%d", i), fmt.Sprintf("debug ev after-%d", i), "}")
			ts = append(ts, fmt.Sprintf("$t%d", i))
		}
		s.Script = append(s.Script, "p write-line one", delay, "p "+g.Pick("reader-close", "close"))
	case 3: // The writing end is closed while tasks write.
		s.Script = append(s.Script, "define big '"+big()+"'")
		for i := 0; i < n; i++ {
			s.Script = append(s.Script, fmt.Sprintf("define t%d: spawn {", i))
			s.Script = append(s.Script, fmt.Sprintf("define m%d: method () {", i), "catch ex {", fmt.Sprintf("debug ev told-%d $ex", i), "return ()", "}",
				"while true {", "p write-line $big", "}", "}", fmt.Sprintf("m%d", i), fmt.Sprintf("debug ev after-%d", i), "}")
			ts = append(ts, fmt.Sprintf("$t%d", i))
		}
		s.Script = append(s.Script, "define r: spawn {", "while (define l: p read-line) {", "if (not: equal? $l $big) {", "debug ev bad $l", "}", "}", "debug ev read-end", "}")
		ts = append(ts, "$r")
		s.Script = append(s.Script, "p write-line $big", "p writer-close")
	}
	s.Script = append(s.Script, "wait "+strings.Join(ts, " "), "debug ev waited", "exit 7")
	s.Check = func(r *Run) {
		r.WantExit(7)
		for i := 0; i < n; i++ {
			if c := len(r.Ev(fmt.Sprintf("told-%d", i))); c != 1 {
				r.Fail("told", "task %d was told %d times that the other end is closed", i, c)
			}
		}
		if e := r.Ev("bad"); len(e) > 0 && kind == 3 {
			// The last message may be cut off by the close itself.
			if len(e) > 1 {
				r.Fail("damaged", "more than the last message is damaged: %s", clip(e[0].Text, 200))
			}
		}
	}

	return s
}

// stubLine is the k-th line the program msgs writes.
func stubLine(tag string, k int) string { return fmt.Sprintf("%s-%d", tag, k) }
