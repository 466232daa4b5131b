//go:build go1.22

package scen

import (
	"fmt"
	"strings"
)

// capPiece writes known bytes to standard output.
func (x *pipeGen) capPiece(depth int) piece {
	g := x.g
	t := x.tag()

	switch g.N(11) {
	case 8, 9:
		return x.odd()
	case 0:
		return piece{text: "echo " + t + " a b", out: konst(t + " a b\n")}
	case 1:
		return piece{text: "write-line " + t, out: konst(t + "\n")}
	case 2:
		return piece{text: "printf " + t, out: konst(t)}
	case 3:
		return piece{text: "printf '" + t + `\n\n` + t + "x'", out: konst(t + "\n\n" + t + "x")}
	case 4:
		n := x.size()

		return piece{text: fmt.Sprintf("emit %s %d", t, n), out: konst(Pattern(t, n))}
	case 5:
		s, w := builtinWriter(t, x.bulk(), "stdout")

		return piece{text: s, out: konst(w)}
	case 6:
		return piece{text: "echo", out: konst("\n")}
	case 7:
		if depth > 0 {
			a, b := x.capPiece(depth-1), x.capPiece(depth-1)

			return piece{text: "block {\n" + a.text + "\n" + b.text + "\n} | cat", out: konst(a.out("") + b.out(""))}
		}
	default:
		if depth > 0 {
			// A nested substitution.
			a := x.capPiece(depth - 1)

			return piece{text: "for (capture (block {\n" + a.text + "\n})) (method (l) = (write-line $l))", out: konst(terminated(a.out("")))}
		}
	}

	return piece{text: "lines " + t + " 3", out: konst(ln(t+"-0", t+"-1", t+"-2"))}
}

func splitLines(s string) []string {
	if s == "" {
		return nil
	}
	l := strings.Split(s, "\n")
	if l[len(l)-1] == "" {
		l = l[:len(l)-1]
	}

	return l
}

func init() {
	Registry["C03"] = func(g *Gen) *Scenario {
		x := &pipeGen{g: g, cap: pipeCap(g)}
		s := &Scenario{Family: "capture", Race: true, Fault: benign(g)}
		s.Script = preamble()

		type sub struct {
			name  string
			want  []string
			throw bool
			args  bool
			task  bool
		}

		subs := []*sub{}
		names := []string{}

		for i := 1 + g.N(3); i > 0; i-- {
			c := &sub{name: fmt.Sprintf("c%d", i)}
			body := []string{}
			data := ""
			n := g.R(1, 4)
			at := -1
			if g.P(20) {
				at = g.N(n + 1)
			}

			for j := 0; j < n; j++ {
				if j == at {
					body = append(body, "throw boom-"+c.name)
					c.throw = true
				}
				p := x.capPiece(2)
				body = append(body, p.text)
				data += p.out("")
			}
			if at == n {
				body = append(body, "throw boom-"+c.name)
				c.throw = true
			}
			body = append(body, "debug ev done-"+c.name)
			c.want = splitLines(data)

			if len(data) < 3000 && g.P(25) && !c.throw {
				c.args = true
				s.Script = append(s.Script, caught(c.name, append(append([]string{"args " + c.name + " `(block {"}, body...), "})", "debug ev ret-"+c.name)...)...)
			} else {
				l := append([]string{"define r (capture (block {"}, body...)
				l = append(l, "}))", "debug ev ret-"+c.name, "for $r (method (l) = (debug ev line-"+c.name+" $l))", "debug ev end-"+c.name)
				s.Script = append(s.Script, caught(c.name, l...)...)
			}

			subs = append(subs, c)
			names = append(names, c.name)
		}

		conc := []int{0, 70}[g.N(2)]
		if conc > 0 {
			s.Family = "capture-concurrent"
		}
		s.Script = append(s.Script, callAll(g, names, conc)...)
		s.Script = append(s.Script, "exit 7")
		s.Check = func(r *Run) {
			r.WantExit(7)

			for _, c := range subs {
				ex, nex, _ := evText(r, "caught-"+c.name)
				if c.throw {
					if nex != 1 || !strings.Contains(ex, "boom-"+c.name) {
						r.Fail("exception", "%d exceptions were raised from substitution %s (%s), not the one its command raised", nex, c.name, ex)
					}
					if n := r.Count("done-"+c.name) + r.Count("ret-"+c.name); n > 0 {
						r.Fail("ran-on", "%s went on after an exception", c.name)
					}

					continue
				}

				if nex > 0 {
					r.Fail("exception", "an exception was raised from %s: %s", c.name, ex)
				}

				d, ret := r.Index("done-"+c.name), r.Index("ret-"+c.name)
				if r.Count("done-"+c.name) != 1 || r.Count("ret-"+c.name) != 1 || ret < d {
					r.Fail("early-return", "the substitution %s returned before its command had ended", c.name)
				}

				got := []string{}
				if c.args {
					for _, d := range Dumps {
						if d.Name == c.name {
							got = append(got, d.Argv[2:]...)
						}
					}
				} else {
					for _, e := range r.Ev("line-" + c.name) {
						got = append(got, unq(strings.TrimPrefix(e.Text, "line-"+c.name)))
					}
				}

				if a, b := strings.Join(got, "\n"), strings.Join(c.want, "\n"); a != b || len(got) != len(c.want) {
					r.Fail("lines", "the substitution %s returned %d lines, wanted %d: %s", c.name, len(got), len(c.want), diffAt(a, b))
				}
			}
		}

		return s
	}
}
