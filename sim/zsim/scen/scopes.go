//go:build go1.22

package scen

import (
	"fmt"
	"strings"
)

// varNames are names that what runs a command could use itself.
var varNames = []string{
	"r", "c", "e", "s", "p", "f", "n", "d", "t", "ex", "cmd", "rex", "cell", "fn", "args", "name", "mode", "fifo", "finish", "override",
	"left", "right", "opened", "started", "needed", "closer", "check", "end", "ecex", "rval", "len", "path", "paths", "request", "response",
	"result", "module", "status1", "service", "next", "count", "l", "lst", "body", "v", "arg", "k", "i", "self1", "term", "suffix", "base", "msg",
}

// scopes decides if commands see the variables of the scope they are written
// in and no others wherever they run: every context has variables of its own,
// some shadowing those of the scope around it.
func scopes(g *Gen) *Scenario {
	s := &Scenario{Family: "scopes", Race: true, Fault: benign(g)}

	type want struct{ ev, val string }
	wants := []want{}
	exact := map[string]string{}
	id := 0

	var body func(depth int, vars map[string]string) []string

	see := func(vars map[string]string) []string {
		l := []string{}
		for _, k := range sortedKeys(vars) {
			if g.P(60) {
				id++
				ev := fmt.Sprintf("see-%d", id)
				l = append(l, fmt.Sprintf("debug ev %s $%s", ev, k))
				exact[ev] = k
				wants = append(wants, want{ev, vars[k]})
			}
		}

		return l
	}

	// A block in a context; what it sets is seen after it, what it defines is not.
	body = func(depth int, vars map[string]string) []string {
		l := see(vars)
		if depth == 0 {
			return l
		}

		for i := g.R(1, 3); i > 0; i-- {
			id++
			inner := map[string]string{}
			for k, v := range vars {
				inner[k] = v
			}
			b := []string{}
			own := []string{}
			kind := g.N(13)
			for j := g.N(3); j > 0; j-- {
				k := varNames[g.N(len(varNames))]
				v := fmt.Sprintf("v%d", id*10+j)
				if _, ok := vars[k]; ok && g.P(50) {
					// Set in place, if the context runs here and now.
					b = append(b, "set "+k+" "+v)
					inner[k] = v
					if !contains(own, k) {
						vars[k] = v
					}

					continue
				}
				b = append(b, "define "+k+" "+v)
				inner[k] = v
				own = append(own, k)
			}
			b = append(b, body(depth-1, inner)...)
			for k, v := range inner {
				if !contains(own, k) {
					vars[k] = v
				}
			}
			blk := "block {\n" + strings.Join(b, "\n") + "\n}"
			f := fmt.Sprintf("/home/u/f%d", id)

			switch kind {
			case 0:
				l = append(l, blk+" | cat")
			case 1:
				l = append(l, "echo x | "+blk)
			case 2:
				l = append(l, "echo x | "+blk+" | cat")
			case 3:
				l = append(l, blk+" > "+f)
			case 4:
				l = append(l, blk+" >> "+f, blk[:0]+"true < /dev/null")
			case 5:
				l = append(l, blk+" < /dev/null")
			case 6:
				l = append(l, "true `("+blk+")")
			case 7:
				l = append(l, "cat |<("+blk+")")
			case 8:
				l = append(l, fmt.Sprintf("define tk%d: spawn {", id), strings.Join(b, "\n"), "}", fmt.Sprintf("wait $tk%d", id))
			case 9:
				m := fmt.Sprintf("mt%d", id)
				l = append(l, "define "+m+": method () {", strings.Join(b, "\n"), "}", m)
			case 10:
				m := fmt.Sprintf("mt%d", id)
				l = append(l, "define "+m+": method () {", "catch caughtx {", "return", "}", blk, "throw x", "}", m)
			case 11:
				l = append(l, fmt.Sprintf("for (list once) (method (_) {\n%s\n})", strings.Join(b, "\n")))
			default:
				l = append(l, "if true {", strings.Join(b, "\n"), "}")
			}
			l = append(l, see(vars)...)
		}

		return l
	}

	vars := map[string]string{}
	for i := g.R(1, 4); i > 0; i-- {
		k := varNames[g.N(len(varNames))]
		vars[k] = "top" + k
	}
	for _, k := range sortedKeys(vars) {
		s.Script = append(s.Script, "define "+k+" "+vars[k])
	}
	s.Script = append(s.Script, body(g.R(1, 2), vars)...)
	s.Script = append(s.Script, "exit 7")
	s.Check = func(r *Run) {
		r.WantExit(7)
		for _, w := range wants {
			v, n, _ := evText(r, w.ev)
			if n != 1 {
				r.Fail("scope-count", "%s was reached %d times", w.ev, n)
			}
			if v != w.val {
				r.Fail("scope", "%s: $%s was %s, not %s", w.ev, exact[w.ev], v, w.val)
			}
		}
		if e := Err.Text(); e != "" {
			r.Fail("stderr", "unexpected output on standard error: %s", clip(e, 400))
		}
	}

	return s
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}

	return false
}
