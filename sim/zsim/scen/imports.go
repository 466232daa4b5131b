//go:build go1.22

package scen

import (
	"fmt"
	"strings"

	"zsim/kern"
)

func init() {
	Registry["C16"] = func(g *Gen) *Scenario { return imports(g) }
}

type mod struct {
	k     int
	name  string
	file  string
	deps  []*mod
	fail  string // "", "always" fails, "until" fails until there is a file.
	late  *mod   // What its method late imports.
	exits bool
}

// bad is true if importing the module raises an exception (until is not there).
func (m *mod) bad() string {
	for _, d := range m.deps {
		if b := d.bad(); b != "" {
			return b
		}
	}
	if m.fail != "" {
		return "boom-" + m.name
	}

	return ""
}

func (m *mod) uses(o *mod) bool {
	if m == o || m.late != nil && m.late.uses(o) {
		return true
	}
	for _, d := range m.deps {
		if d.uses(o) {
			return true
		}
	}

	return false
}

func (m *mod) put(g *Gen) {
	l := []string{"module " + m.name, "debug ev body-" + m.name}
	slow := func() {
		switch g.N(6) {
		case 0:
			l = append(l, "ret 0")
		case 1:
			l = append(l, fmt.Sprintf("sleep %d", g.N(4)))
		case 2:
			l = append(l, "define v: capture (echo a)")
		}
	}
	for i, d := range m.deps {
		slow()
		l = append(l, fmt.Sprintf("define d%d: import %s", i, d.file), fmt.Sprintf("d%d put %s-dep true", i, m.name))
	}
	slow()
	l = append(l, "define state: map",
		"export put: method (k v) {", "state set $k $v", "}",
		"export has: method (k) {", "return (state has $k)", "}")
	if m.late != nil {
		l = append(l, "export late: method () {", "define x: import "+m.late.file, "return $x", "}")
	}
	l = append(l, "export boom: method () {", "throw late-boom-"+m.name, "}")
	switch m.fail {
	case "always":
		l = append(l, "throw boom-"+m.name)
	case "until":
		l = append(l, "if (not: exists /home/u/ok-"+m.name+") {", "throw boom-"+m.name, "}")
	}
	if m.exits {
		l = append(l, "exit 9")
	}
	slow()
	l = append(l, "debug ev loaded-"+m.name)
	kern.K.Put(m.file, kern.Reg, 0o644, strings.Join(l, "\n")+"\n")
}

func imports(g *Gen) *Scenario {
	s := &Scenario{Family: "import", Fault: benign(g), Race: true, FairAt: 15000000, MaxSteps: 80000000}
	mods := []*mod{}
	n := g.R(1, 4)
	for i := 0; i < n; i++ {
		m := &mod{k: i, name: fmt.Sprintf("mod%d", i)}
		m.file = fmt.Sprintf("/home/u/%s.oh", m.name)
		for _, d := range mods {
			if g.P(40) {
				m.deps = append(m.deps, d)
			}
		}
		if len(mods) > 0 && g.P(25) {
			m.late = mods[g.N(len(mods))]
		}
		if g.P(15) {
			m.fail = g.Pick("always", "until")
		}
		mods = append(mods, m)
	}
	for _, m := range mods {
		m.put(g)
	}

	type imp struct {
		id   string
		m    *mod // nil: there is no such file.
		late bool
		boom bool // Calls a method that raises an exception.
	}
	all := []*imp{}
	one := func() []string {
		i := &imp{id: fmt.Sprintf("i%d", len(all)), m: mods[g.N(len(mods))]}
		f := i.m.file
		if g.P(8) {
			i.m, f = nil, "/home/u/none.oh"
		}
		all = append(all, i)
		if i.m != nil && g.P(20) {
			f = strings.TrimPrefix(f, "/home/u/")
		}
		l := []string{"define m: import " + f, "m put " + i.id + " true", "debug ev got-" + i.id}
		if i.m != nil && i.m.late != nil && g.P(50) {
			i.late = true
			l = append(l, "define l: m late", "l put "+i.id+"-late true", "debug ev late-"+i.id)
		}
		if i.m != nil && g.P(25) {
			i.boom = true
			l = append(l, "m boom", "debug ev past-boom-"+i.id)
		}
		l = caught("f"+i.id, l...)

		return append(l, "f"+i.id, "debug ev end-"+i.id)
	}
	script := []string{}
	wait := "wait"
	for t := g.R(1, 4); t > 1; t-- {
		k := fmt.Sprintf("t%d", t)
		script = append(script, "define "+k+": spawn {")
		for i := g.R(1, 3); i > 0; i-- {
			script = append(script, one()...)
		}
		script = append(script, "}")
		wait += " $" + k
	}
	for i := g.R(0, 3); i > 0; i-- {
		script = append(script, one()...)
	}
	if wait != "wait" {
		script = append(script, wait)
	}
	// The modules that failed may be there now.
	for _, m := range mods {
		if m.fail == "until" {
			script = append(script, "touch /home/u/ok-"+m.name)
		}
	}
	conc := len(all)
	for _, m := range mods {
		i := &imp{id: fmt.Sprintf("i%d", len(all)), m: m}
		all = append(all, i)
		script = append(script, caught("f"+i.id, "define m: import "+m.file, "debug ev obj-"+m.name+" (object? $m)", "for (quote (none "+strings.Join(func() (l []string) {
			for _, j := range all[:conc] {
				l = append(l, j.id, j.id+"-late")
			}
			for _, o := range mods {
				l = append(l, o.name+"-dep")
			}

			return l
		}(), " ")+")) (method (k) {", "if (m has $k) {", "debug ev has-"+m.name+" $k", "}", "})")...)
		script = append(script, "f"+i.id)
	}
	code := 7
	if g.P(15) {
		// A module ends the shell.
		q := &mod{name: "quit", file: "/home/u/quit.oh", exits: true}
		for _, d := range mods {
			if d.always() == "" && g.P(20) {
				q.deps = append(q.deps, d)
			}
		}
		q.put(g)
		if g.P(30) {
			q2 := &mod{name: "quit2", file: "/home/u/quit2.oh", deps: []*mod{q}}
			q2.put(g)
			q = q2
		}
		code = 9
		script = append(script, "import "+q.file, "debug ev never")
	}
	s.Script = append(script, "exit 7")
	s.Check = func(r *Run) {
		r.WantExit(code)
		if r.Count("never") > 0 {
			r.Fail("ran-on", "a command after the exit of a module ran")
		}
		want := map[string]map[string]bool{}
		put := func(m *mod, k string) {
			if want[m.name] == nil {
				want[m.name] = map[string]bool{}
			}
			want[m.name][k] = true
		}
		for n, i := range all {
			bad := "does not exist"
			if i.m != nil {
				bad = i.m.bad()
			} else {
				bad = "none.oh"
			}
			ex, c, _ := evText(r, "caught-f"+i.id)
			if n >= conc {
				// The last imports.
				bad = i.m.always()
				if bad == "" && c > 0 {
					r.Fail("import-failed", "a later import of %s raised %s", i.m.name, ex)
				}
			} else if bad == "" {
				late := ""
				if i.late {
					late = i.m.late.bad()
				}
				if late != "" {
					if r.Count("got-"+i.id) != 1 || c != 1 || !strings.Contains(ex, late) {
						r.Fail("late-import", "the import done by a method of module %s (import %s) raised %d exceptions (%s), not %s", i.m.name, i.id, c, ex, late)
					}
				} else if i.boom {
					if c != 1 || !strings.Contains(ex, "late-boom-"+i.m.name) || r.Count("past-boom-"+i.id) > 0 {
						r.Fail("method-exception", "a method of module %s (import %s) raised an exception, the caller got %q %d times", i.m.name, i.id, ex, c)
					}
				} else if c > 0 || r.Count("got-"+i.id) != 1 {
					r.Fail("import-failed", "import %s of %s raised %q", i.id, i.m.name, ex)
				}
			}
			if bad != "" && (c != 1 || !strings.Contains(ex, bad)) {
				r.Fail("no-exception", "import %s raised %q %d times, not %s", i.id, ex, c, bad)
			}
			if n >= conc || bad != "" {
				continue
			}
			put(i.m, i.id)
			if i.late {
				if i.m.late.bad() == "" {
					put(i.m.late, i.id+"-late")
				}
			}
			if r.Count("end-"+i.id) != 1 {
				r.Fail("end", "the task that did import %s did not go on", i.id)
			}
		}
		for _, m := range mods {
			loaded, body := r.Count("loaded-"+m.name), r.Count("body-"+m.name)
			if m.bad() == "" && (body > 1 || loaded > 1) {
				r.Fail("twice", "module %s was evaluated %d times", m.name, body)
			}
			if m.always() != "" {
				continue
			}
			if m.bad() != "" && loaded != 1 && m.fail == "until" {
				r.Fail("twice", "module %s was loaded %d times", m.name, loaded)
			}
			has := map[string]bool{}
			for _, e := range r.Ev("has-" + m.name) {
				has[strings.TrimPrefix(e.Text, "has-"+m.name+" ")] = true
			}
			for _, k := range sortedKeys(want[m.name]) {
				if !has[k] {
					r.Fail("state", "what %s put into module %s is not there", k, m.name)
				}
			}
		}
	}

	return s
}

// always is what importing the module raises in any case.
func (m *mod) always() string {
	for _, d := range m.deps {
		if b := d.always(); b != "" {
			return b
		}
	}
	if m.fail == "always" {
		return "boom-" + m.name
	}

	return ""
}
