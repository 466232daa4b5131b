//go:build go1.22

package scen

import (
	"fmt"
	"strings"

	"zsim/kern"
)

// xstmt is a statement of a generated program and its meaning.
type xstmt struct {
	text []string
	kind byte // e event, t throw, f fails or (with faults) fails perhaps, c call, s sequence.
	ev   string
	msg  string // What is thrown ("" if unknown).
	may  bool   // May succeed as well as fail.
	body []xstmt
	fn   *xfn
}

// xfn is a method.
type xfn struct {
	name    string
	handler []xstmt // Nil if it has none.
	rethrow bool
	body    []xstmt
	n       int
}

type excGen struct {
	g      *Gen
	n      int
	faults bool
	defs   []string
	fns    []*xfn
}

func (x *excGen) id() int { x.n++; return x.n }

func (x *excGen) event(t string) xstmt {
	e := fmt.Sprintf("x %s s%d", t, x.id())

	return xstmt{text: []string{"debug ev " + e}, kind: 'e', ev: e}
}

// stmts generates a sequence in task t.
func (x *excGen) stmts(t string, depth int, mayThrow bool) []xstmt {
	g := x.g
	l := []xstmt{}
	for i := g.R(1, 4); i > 0; i-- {
		l = append(l, x.event(t))
		l = append(l, x.stmt(t, depth, mayThrow))
	}
	l = append(l, x.event(t))

	return l
}

func flat(l []xstmt) []string {
	o := []string{}
	for _, s := range l {
		o = append(o, s.text...)
	}

	return o
}

func (x *excGen) stmt(t string, depth int, mayThrow bool) xstmt {
	g := x.g
	k := g.N(16)
	if depth > 2 && k >= 6 {
		k = k % 6
	}
	if !mayThrow && k >= 2 && k <= 5 {
		k = 0
	}
	switch k {
	case 0:
		return xstmt{text: []string{fmt.Sprintf("ret %d %d", g.N(256), g.N(2))}, kind: 'f', may: true, msg: "-"}
	case 1:
		return xstmt{text: []string{fmt.Sprintf("echo o%d >| f%d", x.id(), x.id())}, kind: 'f', may: true, msg: "-"}
	case 2, 3:
		m := fmt.Sprintf("oops%d", x.id())

		return xstmt{text: []string{"throw " + m}, kind: 't', msg: m}
	case 4:
		switch g.N(5) {
		case 0:
			n := x.id()

			return xstmt{text: []string{fmt.Sprintf("nosuch%d", n)}, kind: 'f', msg: fmt.Sprintf("$'nosuch%d: command not found'", n)}
		case 1:
			n := x.id()

			return xstmt{text: []string{fmt.Sprintf("echo $undef%d", n)}, kind: 'f', msg: fmt.Sprintf(`$'\'undef%d\' not defined'`, n)}
		case 2:
			return xstmt{text: []string{"add one 1"}, kind: 'f'}
		case 3:
			return xstmt{text: []string{"div 1 0"}, kind: 'f'}
		default:
			return xstmt{text: []string{"wait 5"}, kind: 'f'}
		}
	case 5:
		return xstmt{text: []string{fmt.Sprintf("echo x > /nosuchdir/f%d", x.id())}, kind: 'f'}
	case 6, 7, 8, 9:
		f := x.fn(t, depth+1, mayThrow)

		return xstmt{text: []string{f.name}, kind: 'c', fn: f}
	case 10:
		b := x.stmts(t, depth+1, mayThrow)

		return xstmt{text: append(append([]string{"block {"}, flat(b)...), "}"), kind: 's', body: b}
	case 11:
		b := x.stmts(t, depth+1, mayThrow)

		return xstmt{text: append(append([]string{"if true {"}, flat(b)...), "}"), kind: 's', body: b}
	case 12:
		f := x.fn(t, depth+1, mayThrow)
		s := xstmt{text: []string{f.name + " | sink p" + fmt.Sprint(x.id())}, kind: 'c', fn: f}

		return x.maybe(s)
	case 13:
		f := x.fn(t, depth+1, mayThrow)
		s := xstmt{text: []string{"define v (capture (" + f.name + "))"}, kind: 'c', fn: f}

		return x.maybe(s)
	case 14:
		f := x.fn(t, depth+1, mayThrow)
		s := xstmt{text: []string{f.name + fmt.Sprintf(" >| g%d", x.id())}, kind: 'c', fn: f}

		return x.maybe(s)
	default:
		f := x.fn(t, depth+1, mayThrow)
		s := xstmt{text: []string{"ret 0 | " + f.name}, kind: 'c', fn: f}

		return x.maybe(s)
	}
}

// maybe: with faults the construct around s may fail before or after.
func (x *excGen) maybe(s xstmt) xstmt {
	if !x.faults {
		return s
	}
	f := xstmt{kind: 'f', may: true, msg: "-"}

	return xstmt{text: s.text, kind: 's', body: []xstmt{f, {kind: 'o', body: []xstmt{s}}, f}}
}

func (x *excGen) fn(t string, depth int, mayThrow bool) *xfn {
	g := x.g
	f := &xfn{name: fmt.Sprintf("m%d", x.id())}
	d := []string{"define " + f.name + ": method () {"}
	if g.P(60) {
		f.n = x.id()
		ev := fmt.Sprintf("x %s h%d", t, f.n)
		f.handler = []xstmt{{kind: 'h', ev: ev}}
		d = append(d, "catch ex {", "debug ev "+ev+" $ex")
		if mayThrow && g.P(15) {
			h := x.stmts(t, depth+2, mayThrow)
			f.handler = append(f.handler, h...)
			d = append(d, flat(h)...)
		}
		if mayThrow && g.P(20) {
			f.rethrow = true
		} else {
			d = append(d, "return ()")
		}
		d = append(d, "}")
	}
	f.body = x.stmts(t, depth, mayThrow)
	d = append(d, flat(f.body)...)
	d = append(d, "}")
	x.defs = append(x.defs, d...)
	x.fns = append(x.fns, f)

	return f
}

// xstate is a state of the acceptor: how many events are consumed and what is
// being thrown. The message is "?" if any will do.
type xstate struct {
	pos int
	exc string
}

type excAccept struct {
	evs    []string
	faults bool
	far    int
}

func (a *excAccept) seq(l []xstmt, in map[xstate]bool) map[xstate]bool {
	cur := in
	out := map[xstate]bool{}
	for _, s := range l {
		next := map[xstate]bool{}
		for st := range cur {
			for o := range a.one(s, st.pos) {
				if o.exc != "" {
					out[o] = true
				} else {
					next[o] = true
				}
			}
		}
		cur = next
	}
	for st := range cur {
		out[st] = true
	}

	return out
}

func (a *excAccept) at(pos int) string {
	if pos > a.far {
		a.far = pos
	}
	if pos < len(a.evs) {
		return a.evs[pos]
	}

	return ""
}

func (a *excAccept) one(s xstmt, pos int) map[xstate]bool {
	o := map[xstate]bool{}
	switch s.kind {
	case 'e':
		if a.at(pos) == s.ev {
			o[xstate{pos + 1, ""}] = true
		}
	case 't':
		o[xstate{pos, s.msg}] = true
	case 'f':
		if s.may {
			o[xstate{pos, ""}] = true
			if a.faults {
				o[xstate{pos, "?"}] = true
			}
		} else {
			m := s.msg
			if m == "" || m == "-" || a.faults {
				m = "?"
			}
			o[xstate{pos, m}] = true
		}
	case 's':
		return a.seq(s.body, map[xstate]bool{{pos, ""}: true})
	case 'o':
		// The other stage may have failed, too; one of the exceptions is
		// that of the whole.
		for st := range a.seq(s.body, map[xstate]bool{{pos, ""}: true}) {
			o[st] = true
			o[xstate{st.pos, "?"}] = true
		}
	case 'c':
		f := s.fn
		for st := range a.seq(f.body, map[xstate]bool{{pos, ""}: true}) {
			if st.exc == "" || f.handler == nil {
				o[st] = true

				continue
			}
			ev := a.at(st.pos)
			h := f.handler[0].ev
			if ev != h+" "+st.exc && !(st.exc == "?" && strings.HasPrefix(ev, h+" ")) {
				continue
			}
			exc := st.exc
			if exc == "?" {
				exc = strings.TrimPrefix(ev, h+" ")
			}
			for hs := range a.seq(f.handler[1:], map[xstate]bool{{st.pos + 1, ""}: true}) {
				switch {
				case hs.exc != "":
					o[hs] = true
				case f.rethrow:
					o[xstate{hs.pos, exc}] = true
				default:
					o[xstate{hs.pos, ""}] = true
				}
			}
		}
	}

	return o
}

func init() {
	Registry["C11"] = func(g *Gen) *Scenario {
		if g.N(40) == 39 {
			return excForeign(g)
		}

		return excTasks(g)
	}
}

func excTasks(g *Gen) *Scenario {
	s := &Scenario{Family: "tasks", Race: true}
	x := &excGen{g: g, faults: g.P(50)}
	if x.faults {
		s.FaultMax = g.R(1, 4)
		s.Fault = map[string]float64{}
		all := []string{"fork-eagain", "exec-enomem", "open-emfile", "open-eio", "open-eacces", "pipe-emfile", "write-eio", "read-eio", "write-enospc", "open-enospc", "stat-eio", "close-eio"}
		for i := g.R(1, 4); i > 0; i-- {
			s.Fault[all[g.N(len(all))]] = []float64{0.02, 0.1, 0.3}[g.N(3)]
		}
	}
	type tk struct {
		name string
		body []xstmt
		root string
	}
	tasks := []tk{}
	script := []string{"define main: method () {", "debug ev go"}
	names := []string{}
	n := g.R(1, 4)
	for i := 0; i < n; i++ {
		t := tk{name: fmt.Sprintf("t%d", i)}
		t.body = x.stmts(t.name, 0, true)
		script = append(script, "define "+t.name+": spawn {")
		script = append(script, flat(t.body)...)
		script = append(script, "}")
		names = append(names, "$"+t.name)
		tasks = append(tasks, t)
	}
	s.Script = append(append([]string{}, x.defs...), script...)
	s.Script = append(s.Script, "wait "+strings.Join(names, " "), "debug ev all-done", "}", "main", "exit 7")
	s.FaultGo, s.FaultEnd = "go", "all-done"
	s.Check = func(r *Run) {
		r.WantExit(7)
		if r.Count("all-done") != 1 {
			r.Fail("main", "the main task went on %d times", r.Count("all-done"))
		}
		for _, t := range tasks {
			evs := []string{}
			for _, e := range r.K.Events {
				if e.Kind == "ev" && strings.HasPrefix(e.Text, "x "+t.name+" ") {
					evs = append(evs, e.Text)
				}
			}
			a := &excAccept{evs: evs, faults: x.faults}
			ok := false
			for st := range a.seq(t.body, map[xstate]bool{{0, ""}: true}) {
				if st.pos == len(evs) {
					ok = true
				}
			}
			if !ok {
				r.Fail("path", "task %s took a path its exceptions do not allow; it goes wrong after %d of: %s", t.name, a.far, strings.Join(evs, ", "))
			}
		}
	}

	return s
}

// excForeign: a method that is defined where a handler is in force is called by
// another task.
func excForeign(g *Gen) *Scenario {
	s := &Scenario{Family: "foreign"}
	s.Script = []string{"define m: method () {", "catch ex {", "debug ev handled $ex", "return ()", "}", "define thrower: method () {", "throw oops", "}", "spawn {", "thrower", "}", "wait", "debug ev waited", "}", "m", "debug ev after", "exit 7"}
	s.Check = func(r *Run) {
		r.WantExit(7)
		if c := r.Count("after"); c != 1 {
			r.Fail("foreign-handler", "the code after the call ran %d times", c)
		}
	}

	return s
}

var _ = kern.K
