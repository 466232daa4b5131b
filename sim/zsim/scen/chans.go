//go:build go1.22

package scen

import (
	"fmt"
	"sort"
	"strings"
)

// cop is an operation on a channel.
type cop struct {
	task string
	op   byte // w, r, c.
	val  string
	res  string
	inv  int
	ret  int
}

// history collects the operations on each channel from the events
// "I task op chan [value]" and "R task op chan [value]".
func history(r *Run) (map[string][]cop, string) {
	open := map[string]*cop{}
	h := map[string][]*cop{}

	for i, e := range r.K.Events {
		if e.Kind != "ev" {
			continue
		}
		f := strings.SplitN(e.Text, " ", 5)
		if len(f) < 4 || (f[0] != "I" && f[0] != "R") {
			continue
		}
		v := ""
		if len(f) == 5 {
			v = f[4]
		}
		if f[0] == "I" {
			if open[f[1]] != nil {
				return nil, "task " + f[1] + " began an operation while in another"
			}
			o := &cop{task: f[1], op: f[2][0], val: v, inv: i, ret: 1 << 30}
			open[f[1]] = o
			h[f[3]] = append(h[f[3]], o)
		} else {
			o := open[f[1]]
			if o == nil {
				return nil, "task " + f[1] + " ended an operation it had not begun"
			}
			o.ret = i
			if o.op == 'r' {
				o.val = v
			}
			open[f[1]] = nil
		}
	}

	m := map[string][]cop{}
	for c, l := range h {
		for _, o := range l {
			m[c] = append(m[c], *o)
		}
	}

	return m, ""
}

// linearizable decides if the history is one of a FIFO queue that holds at
// most n values; a read of "()" is only possible once the queue is closed and
// empty. Complete histories with unique values.
func linearizable(ops []cop, n int) bool {
	sort.Slice(ops, func(i, j int) bool { return ops[i].inv < ops[j].inv })

	seen := map[string]bool{}
	done := make([]bool, len(ops))
	steps := 0

	var rec func(left int, q []string, closed bool) bool

	rec = func(left int, q []string, closed bool) bool {
		if left == 0 {
			return true
		}
		steps++
		if steps > 2000000 {
			return true // Give up: do not accuse.
		}

		var b strings.Builder
		for _, d := range done {
			if d {
				b.WriteByte('1')
			} else {
				b.WriteByte('0')
			}
		}
		b.WriteString(strings.Join(q, "|"))
		if seen[b.String()] {
			return false
		}
		seen[b.String()] = true

		min := 1 << 30
		for i, o := range ops {
			if !done[i] && o.ret < min {
				min = o.ret
			}
		}

		for i, o := range ops {
			if done[i] || o.inv > min {
				continue
			}

			switch o.op {
			case 'c':
				done[i] = true
				if rec(left-1, q, true) {
					return true
				}
				done[i] = false
			case 'w':
				if closed {
					continue
				}
				if len(q) < n {
					done[i] = true
					if rec(left-1, append(append([]string{}, q...), o.val), closed) {
						return true
					}
					done[i] = false
				} else if n == 0 {
					for j, x := range ops {
						if !done[j] && x.op == 'r' && x.val == o.val && x.inv <= min {
							done[i], done[j] = true, true
							if rec(left-2, q, closed) {
								return true
							}
							done[i], done[j] = false, false
						}
					}
				}
			case 'r':
				if o.val == "()" {
					if !closed || len(q) > 0 {
						continue
					}
					done[i] = true
					if rec(left-1, q, closed) {
						return true
					}
					done[i] = false
				} else if len(q) > 0 && q[0] == o.val {
					done[i] = true
					if rec(left-1, q[1:], closed) {
						return true
					}
					done[i] = false
				}
			}
		}

		return false
	}

	return rec(len(ops), nil, false)
}

func dumpOps(ops []cop) string {
	l := []string{}
	for _, o := range ops {
		l = append(l, fmt.Sprintf("%s:%c(%s)[%d,%d]", o.task, o.op, clip(o.val, 30), o.inv, o.ret))
	}

	return strings.Join(l, " ")
}

// mkChan is the command for a channel with capacity n.
func mkChan(g *Gen, n int) string {
	if n == 0 && g.P(50) {
		return "chan"
	}
	return fmt.Sprintf("chan %d", n)
}

// chanVal makes a value and the way debug prints the arguments list (value).
func chanVal(g *Gen, id string) (expr, shown string) {
	switch g.N(5) {
	case 0:
		return id, "(" + id + ")"
	case 1:
		return "(list " + id + " 1 (list a))", "((" + id + " 1 (a)))"
	case 2:
		return "'" + id + " x'", "($'" + id + " x')"
	case 3:
		return id + " b", "(" + id + " b)"
	default:
		return "(cons " + id + " 2)", "((|cons " + id + " 2|))"
	}
}

func init() {
	Registry["C06"] = func(g *Gen) *Scenario {
		switch g.N(5) {
		case 3:
			return chanServer(g)
		case 4:
			return chanRing(g)
		}

		return chanQueue(g)
	}
}

func chanQueue(g *Gen) *Scenario {
	s := &Scenario{Family: "queue", Race: true}
	type ch struct {
		name string
		cap  int
	}

	chans := []ch{}
	for i := 1 + g.N(2); i > 0; i-- {
		c := ch{fmt.Sprintf("c%d", i), g.N(4)}
		chans = append(chans, c)
		s.Script = append(s.Script, "define "+c.name+": "+mkChan(g, c.cap))
	}

	sent := map[string][]string{}
	text := map[string]string{}
	all := []string{}
	id := 0
	for _, c := range chans {
		ws := []string{}
		for w := g.R(1, 3); w > 0; w-- {
			id++
			l := []string{}
			n := g.R(1, 4)
			for k := 0; k < n; k++ {
				e, shown := chanVal(g, fmt.Sprintf("v%dx%d", id, k))
				if g.P(15) {
					l = append(l, "sleep 1")
				}
				vid := fmt.Sprintf("v%dx%d", id, k)
				text[vid] = shown
				l = append(l, fmt.Sprintf("debug ev I %d w %s %s", id, c.name, vid), fmt.Sprintf("%s write %s", c.name, e), fmt.Sprintf("debug ev R %d w %s", id, c.name))
				sent[c.name] = append(sent[c.name], shown)
			}
			s.Script = append(s.Script, fmt.Sprintf("define t%d: spawn {", id))
			s.Script = append(s.Script, l...)
			s.Script = append(s.Script, "}")
			ws = append(ws, fmt.Sprintf("$t%d", id))
		}
		for rd := g.R(1, 3); rd > 0; rd-- {
			id++
			s.Script = append(s.Script, fmt.Sprintf("define t%d: spawn {", id), "define go true", "while $go {")
			s.Script = append(s.Script, fmt.Sprintf("debug ev I %d r %s", id, c.name), "define l ("+c.name+" read-list)", fmt.Sprintf("debug ev R %d r %s $l", id, c.name))
			if g.P(20) {
				s.Script = append(s.Script, "sleep 1")
			}
			s.Script = append(s.Script, "if (null? $l) {", "set go ()", "}", "}", "}")
			all = append(all, fmt.Sprintf("$t%d", id))
		}
		id++
		s.Script = append(s.Script, fmt.Sprintf("define t%d: spawn {", id), "wait "+strings.Join(ws, " "), fmt.Sprintf("debug ev I %d c %s", id, c.name),
			c.name+" writer-close", fmt.Sprintf("debug ev R %d c %s", id, c.name), "}")
		all = append(all, fmt.Sprintf("$t%d", id))
	}

	s.Script = append(s.Script, "wait "+strings.Join(all, " "), "exit 7")
	s.Check = func(r *Run) {
		r.WantExit(7)
		h, bad := history(r)
		if bad != "" {
			r.Fail("history", "%s", bad)
		}
		for _, c := range chans {
			ops := h[c.name]
			got := []string{}
			for i, o := range ops {
				if o.op == 'w' {
					ops[i].val = text[o.val]
				}
				if o.op == 'r' && o.val != "()" {
					got = append(got, o.val)
				}
			}
			want := append([]string{}, sent[c.name]...)
			sort.Strings(want)
			sort.Strings(got)
			if strings.Join(got, "\n") != strings.Join(want, "\n") {
				r.Fail("delivery", "written to %s: %q; read: %q", c.name, want, got)
			}
			if !linearizable(ops, c.cap) {
				r.Fail("not-linearizable", "the history of %s (capacity %d) is not one of a queue: %s", c.name, c.cap, dumpOps(ops))
			}
		}
	}

	return s
}

// chanServer: a server task answers the requests of concurrent clients.
func chanServer(g *Gen) *Scenario {
	s := &Scenario{Family: "server", Race: true}
	n := g.R(2, 4)
	servers := g.R(1, 2)
	s.Script = append(s.Script, "define request: "+mkChan(g, g.N(3)))
	for i := 0; i < servers; i++ {
		s.Script = append(s.Script, "spawn {", "while (define q: request read-list) {", "define resp (q get 0)", "resp write (q get 1) answer", "}", "debug ev server-end", "}")
	}
	ts := []string{}
	reqs := g.R(1, 3)
	for i := 0; i < n; i++ {
		l := []string{fmt.Sprintf("define t%d: spawn {", i)}
		for k := 0; k < reqs; k++ {
			l = append(l, "define resp: "+mkChan(g, g.N(2)), fmt.Sprintf("request write $resp q%dx%d", i, k), fmt.Sprintf("debug ev got-%d-%d (resp read-list)", i, k))
		}
		s.Script = append(s.Script, append(l, "}")...)
		ts = append(ts, fmt.Sprintf("$t%d", i))
	}
	s.Script = append(s.Script, "wait "+strings.Join(ts, " "), "request writer-close", "exit 7")
	s.Check = func(r *Run) {
		r.WantExit(7)
		for i := 0; i < n; i++ {
			for k := 0; k < reqs; k++ {
				v, c, _ := evText(r, fmt.Sprintf("got-%d-%d", i, k))
				if want := fmt.Sprintf("(q%dx%d answer)", i, k); c != 1 || v != want {
					r.Fail("answer", "client %d got %d answers to request %d: %s, wanted %s", i, c, k, v, want)
				}
			}
		}
	}

	return s
}

// chanRing: tokens go around a ring of tasks.
func chanRing(g *Gen) *Scenario {
	s := &Scenario{Family: "ring", Race: true}
	n := g.R(2, 4)
	rounds := g.R(1, 4)
	for i := 0; i < n; i++ {
		s.Script = append(s.Script, fmt.Sprintf("define c%d: %s", i, mkChan(g, g.N(3))))
	}
	ts := []string{}
	for i := 1; i < n; i++ {
		s.Script = append(s.Script, fmt.Sprintf("define t%d: spawn {", i), fmt.Sprintf("while (define v: c%d read) {", i),
			fmt.Sprintf("c%d write (cons s%d $v)", (i+1)%n, i), "}", fmt.Sprintf("c%d writer-close", (i+1)%n), "}")
		ts = append(ts, fmt.Sprintf("$t%d", i))
	}
	s.Script = append(s.Script, "define v (list 0)")
	for k := 0; k < rounds; k++ {
		s.Script = append(s.Script, fmt.Sprintf("c%d write $v", 1%n), "set v (c0 read)")
	}
	s.Script = append(s.Script, fmt.Sprintf("c%d writer-close", 1%n), "debug ev final $v", "debug ev last (c0 read)", "wait "+strings.Join(ts, " "), "exit 7")
	s.Check = func(r *Run) {
		r.WantExit(7)
		l := []string{}
		for k := 0; k < rounds; k++ {
			for i := n - 1; i > 0; i-- {
				l = append(l, fmt.Sprintf("s%d", i))
			}
		}
		want := "(" + strings.Join(append(l, "0"), " ") + ")"
		if v, _, _ := evText(r, "final"); v != want {
			r.Fail("token", "after %d rounds the token was %s, wanted %s", rounds, v, want)
		}
		if v, _, _ := evText(r, "last"); v != "()" {
			r.Fail("eof", "the closed channel gave %s", v)
		}
	}

	return s
}
