//go:build go1.22

package scen

import (
	"fmt"
	"strings"

	"zsim/kern"
)

func init() {
	Registry["C09"] = func(g *Gen) *Scenario { return statusMany(g) }
}

// statusCmd is an external command, how it ends and what its value must be.
func statusCmd(g *Gen, allowStop bool) (text, val string) {
	delay := []int{0, 0, 1, 2, 5}[g.N(5)]
	switch g.N(6) {
	case 0:
		n := fatalSignals[g.N(len(fatalSignals))]

		return fmt.Sprintf("die %d %d", n, delay), status(128 + n)
	case 1:
		return "true", status(0)
	case 2:
		return "false", status(1)
	case 3:
		if allowStop {
			n := g.N(256)

			return fmt.Sprintf("nap %d %d", n, g.R(1, 4)), status(n)
		}
	}
	n := g.N(256)

	return fmt.Sprintf("ret %d %d", n, delay), status(n)
}

// statusMany: concurrent tasks run commands; each must get its own status.
func statusMany(g *Gen) *Scenario {
	s := &Scenario{Family: "concurrent", Race: true}
	tasks := g.R(1, 8)
	stop := g.P(30)
	reuse := g.P(50)
	core := g.P(50)
	s.Setup = func() {
		kern.K.PidReuse = reuse
		kern.K.CoreDump = core
	}
	want := map[string]string{}
	order := []string{}
	ts := []string{}
	pids := map[string]bool{}
	_ = pids
	for i := 0; i < tasks; i++ {
		s.Script = append(s.Script, fmt.Sprintf("define t%d: spawn {", i))
		for k := g.R(1, 5); k > 0; k-- {
			c, v := statusCmd(g, stop)
			ev := fmt.Sprintf("st-%d-%d", i, k)
			order = append(order, ev)
			want[ev] = v
			switch g.N(8) {
			case 0:
				// In a pipeline.
				s.Script = append(s.Script, fmt.Sprintf("define p (echo x | %s)", c), "debug ev "+ev+" $p")
			case 1:
				s.Script = append(s.Script, fmt.Sprintf("define p (ret 3 | %s)", c), "debug ev "+ev+" $p")
			case 2:
				// Waited for in another task.
				s.Script = append(s.Script, "define u: spawn {", c, "}", "debug ev "+ev+" (wait $u)")
			case 3:
				// In a condition.
				switch v {
				case status(0):
					s.Script = append(s.Script, "if ("+c+") {", "debug ev "+ev+" yes", "} else {", "debug ev "+ev+" no", "}")
					want[ev] = "yes"
				default:
					s.Script = append(s.Script, "if ("+c+") {", "debug ev "+ev+" yes", "} else {", "debug ev "+ev+" no", "}")
					want[ev] = "no"
				}
			default:
				s.Script = append(s.Script, "debug ev "+ev+" ("+c+")")
			}
		}
		s.Script = append(s.Script, "}")
		ts = append(ts, fmt.Sprintf("$t%d", i))
	}
	s.Script = append(s.Script, "wait "+strings.Join(ts, " "), "exit 7")
	s.Check = func(r *Run) {
		r.WantExit(7)
		for _, ev := range order {
			v, c, at := evText(r, ev)
			if c != 1 {
				r.Fail("once", "%s: %d statuses", ev, c)
			} else if v != want[ev] {
				r.Fail("wrong", "%s: status %s, the command ended with %s", ev, v, want[ev])
			}
			_ = at
		}
		// Every process was reaped.
		left := map[int]string{}
		for _, e := range r.K.Events {
			switch e.Kind {
			case "exec":
				left[e.PID] = e.Text
			case "reap":
				if strings.HasPrefix(e.Text, "status=") {
					delete(left, e.PID)
				}
			}
		}
		for _, e := range r.Evs("exec") {
			if left[e.PID] != "" {
				r.Fail("zombie", "process %d (%s) was never reaped", e.PID, left[e.PID])
			}
		}
	}

	return s
}
