//go:build go1.22

package scen

import (
	"fmt"
	"strings"
)

func init() {
	Registry["C08"] = func(g *Gen) *Scenario {
		switch g.N(7) {
		case 6:
			return spawnOrphan(g)
		case 4:
			return spawnMany(g)
		case 5:
			return spawnShared(g)
		}

		return spawnTree(g)
	}
}

// spawnTask is one task of a generated tree.
type spawnTask struct {
	id     int
	parent *spawnTask
	kids   []*spawnTask
	val    string // Result as debug prints it, "" if unknown.
	throws bool
	bg     bool // Started with &.
	waits  int
}

type spawnGen struct {
	g      *Gen
	n      int
	max    int
	all    []*spawnTask
	checks []func(r *Run)
}

func (t *spawnTask) name() string { return fmt.Sprintf("t%d", t.id) }

func (x *spawnGen) pause() []string {
	switch x.g.N(6) {
	case 0:
		return []string{fmt.Sprintf("sleep %d", x.g.R(1, 6))}
	case 1:
		return []string{"true"}
	case 2:
		return []string{"define i 0", "while (lt? $i 3) {", "set i: add $i 1", "}"}
	}

	return nil
}

// task writes the body of a task.
func (x *spawnGen) body(t *spawnTask, depth int) []string {
	g := x.g
	l := []string{fmt.Sprintf("debug ev start-%d $mark", t.id), fmt.Sprintf("define mark m%d", t.id)}
	l = append(l, x.pause()...)
	open := []*spawnTask{} // Children not known to have ended.

	for i := g.N(4); i > 0 && depth < 3; i-- {
		switch {
		case x.n < x.max && g.P(70):
			k := x.spawn(t, depth+1, &l)
			open = append(open, k)
		case len(t.kids) > 0:
			open = x.wait(t, open, &l)
		}
		l = append(l, x.pause()...)
	}
	if g.P(70) {
		open = x.wait(t, open, &l)
	}
	if t.parent != nil {
		if g.P(12) {
			t.throws = true
			l = append(l, fmt.Sprintf("debug ev end-%d", t.id), "fin write x", fmt.Sprintf("throw oops%d", t.id), fmt.Sprintf("debug ev never-%d", t.id))

			return l
		}
	}
	l = append(l, fmt.Sprintf("debug ev end-%d", t.id), "fin write x")
	switch g.N(4) {
	case 0:
		t.val = fmt.Sprintf("(v %d)", t.id)
		l = append(l, fmt.Sprintf("list v %d", t.id))
	case 1:
		n := g.N(200)
		t.val = status(n)
		l = append(l, fmt.Sprintf("ret %d %d", n, g.N(3)))
	case 2:
		t.val = fmt.Sprintf("(|number %d|)", t.id)
		l = append(l, fmt.Sprintf("number %d", t.id))
	default:
		t.val = "()"
		l = append(l, "list")
	}

	return l
}

func (x *spawnGen) spawn(t *spawnTask, depth int, l *[]string) *spawnTask {
	x.n++
	k := &spawnTask{id: x.n, parent: t}
	x.all = append(x.all, k)
	t.kids = append(t.kids, k)
	b := x.body(k, depth)
	k.bg = x.g.P(15)
	if k.bg {
		*l = append(*l, "block {")
		*l = append(*l, b...)
		*l = append(*l, "} &")
	} else {
		*l = append(*l, "define "+k.name()+": spawn {")
		*l = append(*l, b...)
		*l = append(*l, "}")
	}

	return k
}

func (x *spawnGen) wait(t *spawnTask, open []*spawnTask, l *[]string) []*spawnTask {
	g := x.g
	t.waits++
	ev := fmt.Sprintf("waited-%d-%d", t.id, t.waits)
	if g.P(40) || len(t.kids) == 0 {
		// All unfinished children.
		*l = append(*l, "wait", "debug ev "+ev)
		kids := append([]*spawnTask{}, t.kids...)
		x.checks = append(x.checks, func(r *Run) { x.after(r, ev, kids) })

		return nil
	}

	names := []string{}
	on := []*spawnTask{}
	for i := g.R(1, 3); i > 0; i-- {
		k := t.kids[g.N(len(t.kids))]
		if k.bg {
			continue
		}
		names = append(names, "$"+k.name())
		on = append(on, k)
	}
	if len(on) == 0 {
		t.waits--

		return open
	}
	*l = append(*l, fmt.Sprintf("debug ev %s (wait %s)", ev, strings.Join(names, " ")))
	last := on[len(on)-1]
	x.checks = append(x.checks, func(r *Run) {
		x.after(r, ev, on)
		if e := r.Ev(ev); len(e) == 1 && last.val != "" && !last.throws {
			if got := strings.TrimPrefix(e[0].Text, ev+" "); got != last.val {
				r.Fail("wait-value", "%s: the result of task %d is %s but wait gave %s", ev, last.id, last.val, got)
			}
		}
	})

	return open
}

// after checks that the event ev, if it happened, came after the end of the
// tasks and everything they run at their end.
func (x *spawnGen) after(r *Run, ev string, on []*spawnTask) {
	at := -1
	for i, e := range r.K.Events {
		if e.Kind == "ev" && (e.Text == ev || strings.HasPrefix(e.Text, ev+" ")) {
			at = i
		}
	}
	if at < 0 {
		return
	}
	for _, k := range on {
		if i := r.Index(fmt.Sprintf("end-%d", k.id)); i < 0 || i > at {
			r.Fail("wait-early", "%s: wait returned before task %d had ended", ev, k.id)
		}
	}
}

func spawnTree(g *Gen) *Scenario {
	s := &Scenario{Family: "tree", Race: true, Fault: benign(g)}
	x := &spawnGen{g: g, max: g.R(2, 9)}
	root := &spawnTask{}
	x.all = append(x.all, root)
	b := x.body(root, 0)
	s.Script = append([]string{"define mark m0", "define fin: chan 20"}, b[:len(b)-1]...) // Drop the value.
	root.val = ""
	// Nothing may keep running when the shell ends.
	for range x.all {
		s.Script = append(s.Script, "fin read")
	}
	s.Script = append(s.Script, "exit 7")
	s.Check = func(r *Run) {
		r.WantExit(7)
		for _, t := range x.all {
			if t.id == 0 {
				continue
			}
			want := fmt.Sprintf("m%d", t.parent.id)
			ev := r.Ev(fmt.Sprintf("start-%d", t.id))
			if len(ev) != 1 {
				r.Fail("once", "task %d was started %d times", t.id, len(ev))

				continue
			}
			if got := strings.TrimPrefix(ev[0].Text, fmt.Sprintf("start-%d ", t.id)); got != want {
				r.Fail("scope", "task %d sees mark %s, its scope has %s", t.id, got, want)
			}
			if c := r.Count(fmt.Sprintf("end-%d", t.id)); c != 1 {
				r.Fail("once", "task %d ended %d times", t.id, c)
			}
			if c := r.Count(fmt.Sprintf("never-%d", t.id)); c != 0 {
				r.Fail("after-throw", "task %d went on after throwing", t.id)
			}
		}
		for _, t := range x.all {
			for i := 1; i <= t.waits; i++ {
				if c := len(r.Ev(fmt.Sprintf("waited-%d-%d", t.id, i))); c != 1 {
					r.Fail("wait-lost", "wait %d of task %d returned %d times", i, t.id, c)
				}
			}
		}
		for _, f := range x.checks {
			f(r)
		}
	}

	return s
}

// spawnShared: several tasks wait for the same tasks, some of them finished.
func spawnShared(g *Gen) *Scenario {
	s := &Scenario{Family: "shared", Race: true}
	n := g.R(1, 4)
	w := g.R(2, 4)
	vals := []string{}
	for i := 0; i < n; i++ {
		s.Script = append(s.Script, fmt.Sprintf("define t%d: spawn {", i))
		if g.P(60) {
			s.Script = append(s.Script, fmt.Sprintf("sleep %d", g.N(6)))
		}
		if g.P(50) {
			s.Script = append(s.Script, fmt.Sprintf("debug ev end-%d", i), fmt.Sprintf("ret %d %d", i, g.N(3)), "}")
			vals = append(vals, status(i))
		} else {
			s.Script = append(s.Script, fmt.Sprintf("debug ev end-%d", i), fmt.Sprintf("list v%d", i), "}")
			vals = append(vals, fmt.Sprintf("(v%d)", i))
		}
	}
	if g.P(30) {
		s.Script = append(s.Script, "sleep 20")
	}
	type wt struct {
		id   int
		on   []int
		last int
	}
	ws := []wt{}
	names := []string{}
	for i := 0; i < w; i++ {
		x := wt{id: i}
		l := []string{}
		for k := g.R(1, 4); k > 0; k-- {
			t := g.N(n)
			x.on = append(x.on, t)
			x.last = t
			l = append(l, fmt.Sprintf("$t%d", t))
		}
		ws = append(ws, x)
		s.Script = append(s.Script, fmt.Sprintf("define w%d: spawn {", i))
		if g.P(40) {
			s.Script = append(s.Script, fmt.Sprintf("sleep %d", g.N(6)))
		}
		s.Script = append(s.Script, fmt.Sprintf("debug ev waited-%d (wait %s)", i, strings.Join(l, " ")), "}")
		names = append(names, fmt.Sprintf("$w%d", i))
	}
	s.Script = append(s.Script, "wait "+strings.Join(names, " "), "exit 7")
	s.Check = func(r *Run) {
		r.WantExit(7)
		for _, x := range ws {
			ev := fmt.Sprintf("waited-%d", x.id)
			at := -1
			got := ""
			c := 0
			for i, e := range r.K.Events {
				if e.Kind == "ev" && strings.HasPrefix(e.Text, ev+" ") {
					at, got = i, strings.TrimPrefix(e.Text, ev+" ")
					c++
				}
			}
			if c != 1 {
				r.Fail("wait-lost", "waiter %d returned %d times", x.id, c)

				continue
			}
			for _, t := range x.on {
				if i := r.Index(fmt.Sprintf("end-%d", t)); i < 0 || i > at {
					r.Fail("wait-early", "waiter %d returned before task %d had ended", x.id, t)
				}
			}
			if got != vals[x.last] {
				r.Fail("wait-value", "waiter %d got %s, the result of task %d is %s", x.id, got, x.last, vals[x.last])
			}
		}
	}

	return s
}

// spawnMany: many short tasks and a counting channel.
func spawnMany(g *Gen) *Scenario {
	s := &Scenario{Family: "many", Race: true}
	n := g.R(5, 30)
	end := []string{"ret 0", "true", "list"}[g.N(3)]
	named := g.P(50)
	s.Script = append(s.Script, "define ts ()", "define i 0", "define start: method (k) {", "define t: spawn {", "debug ev run-$k", end, "}", "return $t", "}",
		fmt.Sprintf("while (lt? $i %d) {", n), "set ts: cons (start $i) $ts", "set i: add $i 1", "}")
	if named {
		s.Script = append(s.Script, "for $ts (method (t) {", "wait $t", "})", "debug ev waited")
	} else {
		s.Script = append(s.Script, "wait", "debug ev waited")
	}
	s.Script = append(s.Script, "exit 7")
	s.Check = func(r *Run) {
		r.WantExit(7)
		at := r.Index("waited")
		for i := 0; i < n; i++ {
			e := fmt.Sprintf("run-%d", i)
			k, c := -1, 0
			for j, ev := range r.K.Events {
				if ev.Kind == "ev" && (ev.Text == e || ev.Text == "$'"+e+"'") {
					k, c = j, c+1
				}
			}
			if c != 1 {
				r.Fail("once", "task %d ran %d times", i, c)
			} else if k > at {
				r.Fail("wait-early", "wait returned before task %d had run", i)
			}
		}
		if x := alive(r, at); len(x) > 0 {
			r.Fail("wait-early", "wait returned while %v were running", x)
		}
	}

	return s
}

// spawnOrphan: children end, but not the tasks they have spawned. A wait for
// the children returns.
func spawnOrphan(g *Gen) *Scenario {
	s := &Scenario{Family: "orphan", Race: true}
	n := g.R(1, 3)
	l := []string{}
	names := []string{}
	late := 0
	orphan := func() []string {
		late++
		kind := g.Pick("hold read", "ticks read-line", "hold read-list")

		return []string{"spawn {", kind, fmt.Sprintf("debug ev late-%d", late), "fin write x", "}"}
	}
	for i := 0; i < n; i++ {
		names = append(names, fmt.Sprintf("$t%d", i))
		b := []string{}
		for k := g.N(3); k > 0; k-- {
			b = append(b, orphan()...)
			if g.P(30) {
				b = append(b, "ret 0 1")
			}
		}
		if g.P(30) { // In a part of a pipeline.
			b = append(b, "block {")
			b = append(b, orphan()...)
			b = append(b, "echo a", "} | cat >| /dev/null")
		}
		if g.P(20) {
			b = append(b, "define in: spawn {")
			b = append(b, orphan()...)
			b = append(b, "}", "wait $in")
		}
		l = append(l, fmt.Sprintf("define t%d: spawn {", i))
		l = append(l, b...)
		l = append(l, fmt.Sprintf("debug ev end-%d", i), "}")
	}
	w := "wait"
	if g.P(30) {
		w = "wait " + strings.Join(names, " ")
	}
	l = append(l, w, "debug ev waited")
	if g.P(40) { // Not by the main task.
		l = append(append([]string{"define o: spawn {"}, l...), "}", "wait $o")
	}
	s.Script = append([]string{"define fin: chan", "define hold: chan", "define ticks: pipe"}, l...)
	s.Script = append(s.Script, "debug ev all", "hold close", "ticks writer-close")
	for i := 0; i < late; i++ {
		s.Script = append(s.Script, "fin read")
	}
	s.Script = append(s.Script, "exit 7")
	s.Check = func(r *Run) {
		r.WantExit(7)
		at := r.Index("waited")
		for i := 0; i < n; i++ {
			if k := r.Index(fmt.Sprintf("end-%d", i)); k < 0 || k > at {
				r.Fail("wait-early", "wait returned before task %d had ended", i)
			}
		}
		for i := 1; i <= late; i++ {
			if c := r.Count(fmt.Sprintf("late-%d", i)); c != 1 {
				r.Fail("once", "task %d of the children went on %d times", i, c)
			}
		}
	}

	return s
}
