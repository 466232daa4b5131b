//go:build go1.22

package scen

import (
	"fmt"
	"sort"
	"strings"
)

// regLinear decides if the history is one of a variable: s sets it (result ok,
// or absent if it does not exist), p puts it whether or not it exists, g gets
// it, d deletes it and h asks if it exists.
func regLinear(ops []cop, init string) bool {
	sort.Slice(ops, func(i, j int) bool { return ops[i].inv < ops[j].inv })

	seen := map[string]bool{}
	done := make([]bool, len(ops))
	steps := 0

	var rec func(left int, v string) bool

	rec = func(left int, v string) bool {
		if left == 0 {
			return true
		}
		steps++
		if steps > 2000000 {
			return true // Give up: do not accuse.
		}
		b := make([]byte, len(done), len(done)+len(v))
		for i, d := range done {
			b[i] = '0'
			if d {
				b[i] = '1'
			}
		}
		k := string(append(b, v...))
		if seen[k] {
			return false
		}
		seen[k] = true

		min := 1 << 30
		for i, o := range ops {
			if !done[i] && o.ret < min {
				min = o.ret
			}
		}
		for i, o := range ops {
			if done[i] || o.inv > min {
				continue
			}
			n := v
			ok := true
			exists := v != "absent"
			yes := o.res == "true" || o.res == "ok"
			switch o.op {
			case 'g':
				ok = o.res == v
			case 'p':
				n = o.val
			case 's':
				ok = exists == yes
				if exists {
					n = o.val
				}
			case 'd':
				ok = exists == yes
				n = "absent"
			case 'h':
				ok = exists == yes
			}
			if !ok {
				continue
			}
			done[i] = true
			if rec(left-1, n) {
				return true
			}
			done[i] = false
		}

		return false
	}

	return rec(len(ops), init)
}

func dumpReg(ops []cop) string {
	l := []string{}
	for _, o := range ops {
		l = append(l, fmt.Sprintf("%s:%c(%s)=%s[%d,%d]", o.task, o.op, o.val, o.res, o.inv, o.ret))
	}

	return strings.Join(l, " ")
}

// regHistory collects the operations from the events "I task op var value" and
// "R task op var result".
func regHistory(r *Run, text map[string]string) (map[string][]cop, string) {
	open := map[string]*cop{}
	h := map[string][]*cop{}
	for i, e := range r.K.Events {
		if e.Kind != "ev" {
			continue
		}
		f := strings.SplitN(e.Text, " ", 5)
		if len(f) < 5 || (f[0] != "I" && f[0] != "R") {
			continue
		}
		if f[0] == "I" {
			o := &cop{task: f[1], op: f[2][0], val: f[4], inv: i, ret: 1 << 30}
			if v := text[o.val]; v != "" {
				o.val = v
			}
			if open[f[1]] != nil {
				return nil, "task " + f[1] + " began an operation while in another"
			}
			open[f[1]] = o
			h[f[3]] = append(h[f[3]], o)
		} else {
			o := open[f[1]]
			if o == nil {
				return nil, "task " + f[1] + " ended an operation it had not begun"
			}
			o.ret = i
			o.res = f[4]
			open[f[1]] = nil
		}
	}
	for t, o := range open {
		if o != nil {
			return nil, "task " + t + " did not end operation " + string(o.op) + " " + o.val
		}
	}
	m := map[string][]cop{}
	for c, l := range h {
		for _, o := range l {
			m[c] = append(m[c], *o)
		}
	}

	return m, ""
}

func init() {
	Registry["C12"] = func(g *Gen) *Scenario {
		switch g.N(10) {
		case 8, 9:
			return scopes(g)
		case 0, 1, 2:
			return varRegs(g)
		case 3, 4:
			return varMap(g)
		case 5, 6:
			return varOwn(g)
		default:
			return varLock(g)
		}
	}
}

// varVal makes a value and the way debug prints it.
func varVal(g *Gen, id string) (expr, shown string) {
	switch g.N(4) {
	case 0:
		return "(list " + id + " b)", "(" + id + " b)"
	case 1:
		return "'" + id + " x'", "$'" + id + " x'"
	default:
		return id, id
	}
}

// actor wraps a task's statements: how they are made to run concurrently.
func actor(g *Gen, i int, body []string) (lines []string, wait string) {
	t := fmt.Sprintf("t%d", i)
	switch g.N(4) {
	case 0:
		l := append([]string{"define " + t + ": spawn {", "define inner: spawn {"}, body...)

		return append(l, "}", "wait $inner", "}"), "$" + t
	case 1:
		l := append([]string{"define " + t + ": spawn {", "block {"}, body...)

		return append(l, "} | sink "+t, "}"), "$" + t
	default:
		return append(append([]string{"define " + t + ": spawn {"}, body...), "}"), "$" + t
	}
}

// varRegs: variables of the script's scope.
func varRegs(g *Gen) *Scenario {
	s := &Scenario{Family: "regs", Race: true}
	type vr struct {
		name   string
		def    string
		unset  bool
		init   string
		envRds bool
	}
	vars := []vr{}
	for i := g.R(1, 2); i > 0; i-- {
		v := vr{name: fmt.Sprintf("V%d", i), def: g.Pick("define", "export"), unset: g.P(30)}
		v.init = "init" + v.name
		vars = append(vars, v)
		s.Script = append(s.Script, v.def+" "+v.name+" "+v.init,
			"define get"+v.name+": method () {", "catch ex {", "return absent", "}", "return $"+v.name, "}",
			"define set"+v.name+": method (v) {", "catch ex {", "return absent", "}", "set "+v.name+" $v", "return ok", "}")
	}
	id := 0
	text := map[string]string{}
	ops := func(t string, n int, main bool) []string {
		l := []string{}
		for ; n > 0; n-- {
			v := vars[g.N(len(vars))]
			id++
			vid := fmt.Sprintf("v%d", id)
			e, shown := varVal(g, vid)
			text[vid] = shown
			if g.P(15) {
				l = append(l, g.Pick("sleep 1", "ret 0", "yield"))
				if l[len(l)-1] == "yield" {
					l[len(l)-1] = "capture (echo a)"
				}
			}
			switch g.N(6) {
			case 0, 1:
				l = append(l, fmt.Sprintf("debug ev I %s s %s %s", t, v.name, vid), fmt.Sprintf("define res (set%s %s)", v.name, e), fmt.Sprintf("debug ev R %s s %s $res", t, v.name))
			case 2:
				if main {
					l = append(l, fmt.Sprintf("debug ev I %s p %s %s", t, v.name, vid), v.def+" "+v.name+" "+e, fmt.Sprintf("debug ev R %s p %s ok", t, v.name))

					break
				}
				if v.unset && g.P(40) {
					l = append(l, fmt.Sprintf("debug ev I %s d %s -", t, v.name), "define res (unset "+v.name+")", fmt.Sprintf("debug ev R %s d %s $res", t, v.name))

					break
				}

				fallthrough
			default:
				if !v.unset && g.P(40) {
					l = append(l, fmt.Sprintf("debug ev I %s g %s -", t, v.name), fmt.Sprintf("debug ev R %s g %s $%s", t, v.name, v.name))

					break
				}
				l = append(l, fmt.Sprintf("debug ev I %s g %s -", t, v.name), fmt.Sprintf("define res (get%s)", v.name), fmt.Sprintf("debug ev R %s g %s $res", t, v.name))
			}
		}

		return l
	}
	waits := []string{}
	for i := g.R(2, 4); i > 0; i-- {
		l, w := actor(g, i, ops(fmt.Sprint(i), g.R(1, 6), false))
		s.Script = append(s.Script, l...)
		waits = append(waits, w)
	}
	s.Script = append(s.Script, ops("m", g.N(5), true)...)
	s.Script = append(s.Script, "wait "+strings.Join(waits, " "))
	for _, v := range vars {
		s.Script = append(s.Script, fmt.Sprintf("debug ev I m g %s -", v.name), fmt.Sprintf("define res (get%s)", v.name), fmt.Sprintf("debug ev R m g %s $res", v.name))
	}
	s.Script = append(s.Script, "exit 7")
	s.Check = func(r *Run) {
		r.WantExit(7)
		h, bad := regHistory(r, text)
		if bad != "" {
			r.Fail("history", "%s", bad)
		}
		for _, v := range vars {
			if !regLinear(h[v.name], v.init) {
				r.Fail("not-linearizable", "the history of %s is not one of a variable that is %s at first: %s", v.name, v.init, dumpReg(h[v.name]))
			}
		}
	}

	return s
}

// varMap: the names of a shared object come and go.
func varMap(g *Gen) *Scenario {
	s := &Scenario{Family: "map", Race: true}
	s.Script = []string{"define m: map", "define mget: method (k) {", "catch ex {", "return absent", "}", "m get $k", "}"}
	keys := []string{"a", "b", "c"}[:g.R(1, 3)]
	id := 0
	text := map[string]string{}
	ops := func(t string, n int) []string {
		l := []string{}
		for ; n > 0; n-- {
			k := keys[g.N(len(keys))]
			id++
			vid := fmt.Sprintf("v%d", id)
			e, shown := varVal(g, vid)
			text[vid] = shown
			if g.P(10) {
				l = append(l, g.Pick("sleep 1", "ret 0"))
			}
			switch g.N(5) {
			case 0, 1:
				l = append(l, fmt.Sprintf("debug ev I %s p %s %s", t, k, vid), "m set "+k+" "+e, fmt.Sprintf("debug ev R %s p %s ok", t, k))
			case 2:
				l = append(l, fmt.Sprintf("debug ev I %s d %s -", t, k), "define res (m del "+k+")", fmt.Sprintf("debug ev R %s d %s $res", t, k))
			case 3:
				l = append(l, fmt.Sprintf("debug ev I %s h %s -", t, k), "define res (m has "+k+")", fmt.Sprintf("debug ev R %s h %s $res", t, k))
			default:
				l = append(l, fmt.Sprintf("debug ev I %s g %s -", t, k), "define res (mget "+k+")", fmt.Sprintf("debug ev R %s g %s $res", t, k))
			}
		}

		return l
	}
	waits := []string{}
	for i := g.R(2, 4); i > 0; i-- {
		l, w := actor(g, i, ops(fmt.Sprint(i), g.R(1, 6)))
		s.Script = append(s.Script, l...)
		waits = append(waits, w)
	}
	s.Script = append(s.Script, ops("m", g.N(4))...)
	s.Script = append(s.Script, "wait "+strings.Join(waits, " "))
	for _, k := range keys {
		s.Script = append(s.Script, fmt.Sprintf("debug ev I m g %s -", k), "define res (mget "+k+")", fmt.Sprintf("debug ev R m g %s $res", k))
	}
	s.Script = append(s.Script, "exit 7")
	s.Check = func(r *Run) {
		r.WantExit(7)
		h, bad := regHistory(r, text)
		if bad != "" {
			r.Fail("history", "%s", bad)
		}
		for _, k := range keys {
			if !regLinear(h[k], "absent") {
				r.Fail("not-linearizable", "the history of key %s is not one of a variable: %s", k, dumpReg(h[k]))
			}
		}
	}

	return s
}

// varOwn: every task has its own variables of the same names, in its own
// scope, in the scopes of the methods it calls and in what it exports.
func varOwn(g *Gen) *Scenario {
	s := &Scenario{Family: "own", Race: true}
	def := g.Pick("define", "export")
	s.Script = append(s.Script, def+" v outer", "export E outer",
		"define m: method (a n) {",
		"define b (list $a $n)",
		"define w $v",
		"debug ev in-$a $b $w",
	)
	switch g.N(4) {
	case 0:
		s.Script = append(s.Script, "sleep 1")
	case 1:
		s.Script = append(s.Script, "echo x | cat >| /dev/null")
	case 2:
		s.Script = append(s.Script, "ret 0")
	}
	s.Script = append(s.Script,
		"if (gt? $n 0) {", "m $a (sub $n 1)", "}",
		"debug ev out-$a $b $w $n",
		"return $b", "}")
	type tk struct {
		name, exp  string
		n          int
		second     string
		pipe, fork bool
	}
	tasks := []tk{}
	waits := []string{}
	for i := 0; i < g.R(2, 4); i++ {
		t := tk{name: fmt.Sprintf("t%d", i), exp: fmt.Sprintf("e%d", i), n: g.N(3), pipe: g.P(30), fork: g.P(40)}
		own := g.Pick("define", "export")
		l := []string{own + " v own" + t.name, "export E " + t.exp, "export E" + t.name + " only"}
		l = append(l, fmt.Sprintf("define res (m %s %d)", t.name, t.n))
		if t.fork {
			l = append(l, "args "+t.name)
		}
		l = append(l, fmt.Sprintf("debug ev v-%s $v", t.name))
		if g.P(50) {
			t.second = "second" + t.name
			l = append(l, "set v "+t.second, "ret 0")
		} else {
			t.second = "own" + t.name
		}
		l = append(l, fmt.Sprintf("debug ev w-%s $v $E $res", t.name))
		if t.pipe {
			s.Script = append(append(append(s.Script, "define "+t.name+": spawn {", "block {"), l...), "} | sink "+t.name, "}")
		} else {
			s.Script = append(append(append(s.Script, "define "+t.name+": spawn {"), l...), "}")
		}
		waits = append(waits, "$"+t.name)
		tasks = append(tasks, t)
	}
	s.Script = append(s.Script, "debug ev mid $v $E", "args main", "wait "+strings.Join(waits, " "), "debug ev end $v $E", "args main2", "exit 7")
	s.Check = func(r *Run) {
		r.WantExit(7)
		for _, e := range []string{"mid", "end"} {
			if v, n, _ := evText(r, e); n != 1 || v != "outer outer" {
				r.Fail("leak", "in the script's scope (%s) v and E are %s, not outer outer", e, v)
			}
		}
		env := map[string]map[string]string{}
		for _, d := range Dumps {
			m := map[string]string{}
			for _, kv := range d.Env {
				k, v, _ := strings.Cut(kv, "=")
				m[k] = v
			}
			env[d.Name] = m
		}
		for _, n := range []string{"main", "main2"} {
			m := env[n]
			if m == nil {
				r.Fail("command", "args %s did not run", n)
			} else if m["E"] != "outer" {
				r.Fail("environment", "the environment of the script's command has E=%s", m["E"])
			}
			for k := range m {
				if strings.HasPrefix(k, "Et") {
					r.Fail("environment", "the environment of the script's command has a task's %s", k)
				}
			}
		}
		for _, t := range tasks {
			want := "own" + t.name
			if v, n, _ := evText(r, "v-"+t.name); n != 1 || v != want {
				r.Fail("own", "task %s has v %s, not %s", t.name, v, want)
			}
			res := fmt.Sprintf("%s %s (%s %d)", t.second, t.exp, t.name, t.n)
			if def := fmt.Sprintf("%s %s (%s |number %d|)", t.second, t.exp, t.name, t.n); true {
				_ = def
			}
			if v, n, _ := evText(r, "w-"+t.name); n != 1 || v != res {
				r.Fail("own", "task %s ends with %s, not %s", t.name, v, res)
			}
			if t.fork {
				m := env[t.name]
				if m == nil {
					r.Fail("command", "args %s did not run", t.name)

					continue
				}
				if m["E"] != t.exp || m["E"+t.name] != "only" {
					r.Fail("environment", "the environment of task %s's command has E=%s E%s=%s", t.name, m["E"], t.name, m["E"+t.name])
				}
				for k := range m {
					if strings.HasPrefix(k, "Et") && k != "E"+t.name {
						r.Fail("environment", "the environment of task %s's command has %s of another task", t.name, k)
					}
				}
			}
			ins, outs := 0, 0
			for _, e := range r.K.Events {
				if e.Kind != "ev" {
					continue
				}
				if strings.HasPrefix(e.Text, "in-"+t.name+" ") {
					ins++
				}
				if strings.HasPrefix(e.Text, "out-"+t.name+" ") {
					outs++
					f := strings.Fields(e.Text)
					// out-t (t n) w n.
					if len(f) < 5 || f[1] != "("+t.name {
						r.Fail("locals", "a call by %s has %s", t.name, e.Text)
					}
				}
				if strings.HasPrefix(e.Text, "in-"+t.name+" ") || strings.HasPrefix(e.Text, "out-"+t.name+" ") {
					if !strings.Contains(e.Text, " outer") {
						r.Fail("locals", "the method's v is not that of the scope it was defined in: %s", e.Text)
					}
				}
			}
			if ins != t.n+1 || outs != t.n+1 {
				r.Fail("locals", "%d calls by %s began and %d ended, not %d", ins, t.name, outs, t.n+1)
			}
		}
	}

	return s
}

// varLock: a channel used as a lock makes increments atomic.
func varLock(g *Gen) *Scenario {
	s := &Scenario{Family: "lock", Race: true}
	def := g.Pick("define", "export")
	s.Script = append(s.Script, def+" n 0", "define lock: chan 1", "define m: map", "m set n 0")
	total := 0
	waits := []string{}
	for i := g.R(2, 5); i > 0; i-- {
		k := g.R(1, 4)
		total += k
		l := []string{}
		for ; k > 0; k-- {
			l = append(l, "lock write l", "set n: add $n 1", "m set n (add (m get n) 1)", "lock read")
		}
		a, w := actor(g, i, l)
		s.Script = append(s.Script, a...)
		waits = append(waits, w)
	}
	s.Script = append(s.Script, "wait "+strings.Join(waits, " "), "debug ev total $n (m get n)", "exit 7")
	s.Check = func(r *Run) {
		r.WantExit(7)
		v, n, _ := evText(r, "total")
		if want := fmt.Sprintf("(|number %d|) (|number %d|)", total, total); n != 1 || v != want {
			r.Fail("lost-update", "after %d increments under a lock the variables are %s", total, v)
		}
	}

	return s
}
