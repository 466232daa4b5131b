//go:build go1.22

package scen

import (
	"fmt"
	"strconv"
	"strings"

	"zsim/kern"
	"zsim/rt"
)

// node is a value.
type node struct {
	kind byte // s(ymbol), t(ext), l(ist), c(ons), n(umber), x (status).
	text string
	kids []*node
}

// canon is how the shell shows a string.
func canon(s string) string {
	var b strings.Builder
	b.WriteString("$'")
	for i := 0; i < len(s); {
		r, w := rune(s[i]), 1
		if r >= 0x80 {
			for _, v := range s[i:] {
				r = v

				break
			}
			w = len(string(r))
			if r == 0xfffd {
				w = 1
				fmt.Fprintf(&b, `\x%02x`, s[i])
				i += w

				continue
			}
		}
		i += w
		switch {
		case r == '\'' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t':
			b.WriteString(`\t`)
		case r == '\r':
			b.WriteString(`\r`)
		case r < 0x20 || r == 0x7f:
			fmt.Fprintf(&b, `\x%02x`, r)
		case r < 0x7f:
			b.WriteRune(r)
		case r < 0x10000:
			fmt.Fprintf(&b, `\u%04x`, r)
		default:
			fmt.Fprintf(&b, `\U%08x`, r)
		}
	}

	return b.String() + "'"
}

// shown is how the shell shows a value.
func (n *node) shown() string {
	switch n.kind {
	case 't':
		return canon(n.text)
	case 'l':
		return "(" + shownAll(n.kids) + ")"
	case 'c':
		return "(|cons " + n.kids[0].shown() + " " + n.kids[1].shown() + "|)"
	case 'n':
		return "(|number " + n.text + "|)"
	case 'x':
		return "(|status " + n.text + "|)"
	case 'e': // A symbol that needs quotes.
		return "(|symbol " + canon(n.text) + "|)"
	default:
		return n.text
	}
}

func shownAll(l []*node) string {
	s := []string{}
	for _, n := range l {
		s = append(s, n.shown())
	}

	return strings.Join(s, " ")
}

func sy(s string) *node      { return &node{kind: 's', text: s} }
func tx(s string) *node      { return &node{kind: 't', text: s} }
func li(kids ...*node) *node { return &node{kind: 'l', kids: kids} }
func pre(s string, l *node) *node {
	return li(append([]*node{sy(s)}, l.kids...)...)
}

type arriveGen struct {
	pipeGen
	n int
}

func (x *arriveGen) str() string {
	g := x.g
	x.n++
	id := fmt.Sprintf("t%d", x.n)
	switch g.N(12) {
	case 0:
		return id
	case 1:
		return id + " two words"
	case 2:
		return id + "\nsecond line"
	case 3:
		return id + "\n\n# no comment\n\n"
	case 4:
		return "{\n" + id + "\n}"
	case 5:
		return ")" + id + "\n(" + "\n;"
	case 6:
		return id + "\ttab 'quote' \"double\" back\\slash $ `"
	case 7:
		return "\n" + id
	case 8:
		return id + " \u00e9\u4e2d\U0001f600"
	case 9:
		return id + strings.Repeat("0123456789abcdef", g.R(200, 600)) + "\nend"
	case 10:
		return ""
	default:
		return id + "\\\n\\"
	}
}

// spell writes a string in one of the ways there are.
func (x *arriveGen) spell(s string) string {
	g := x.g
	if !strings.Contains(s, "'") && g.P(60) {
		return "'" + s + "'"
	}
	t := canon(s)
	if g.P(50) {
		t = strings.ReplaceAll(t, `\n`, "\n")
		// A backslash before that n was one that had been escaped.
		if strings.Contains(s, `\n`) || strings.Contains(t, "\\\n") {
			t = canon(s)
		}
	}

	return t
}

// value makes a value and writes it.
func (x *arriveGen) value(depth int) (*node, string) {
	g := x.g
	x.n++
	k := g.N(10)
	if depth > 2 && k > 5 {
		k = g.N(6)
	}
	switch k {
	case 0, 1:
		s := fmt.Sprintf("w%d-%s", x.n, g.Pick("a", "bc", "d1-e", "x_y", "plus+", "q?", "[z]", "%"))

		return sy(s), s
	case 2:
		s := g.Pick("0", "17", "-3", "true", "false", "()")
		if s == "()" {
			return li(), s
		}

		return sy(s), s
	case 3, 4:
		s := x.str()

		return tx(s), x.spell(s)
	case 5:
		n := strconv.Itoa(g.N(1000))
		if g.P(50) {
			return &node{kind: 'x', text: n}, "(|status " + n + "|)"
		}

		return &node{kind: 'n', text: n}, "(|number " + n + "|)"
	case 6, 7, 8:
		l := []*node{}
		t := []string{}
		for i := g.R(1, 3); i > 0; i-- {
			v, s := x.value(depth + 1)
			l = append(l, v)
			t = append(t, s)
		}
		sp := g.Pick(" ", "  ", "\t")

		return li(l...), "(" + strings.Join(t, sp) + ")"
	default:
		a, s := x.value(depth + 1)
		b := sy(fmt.Sprintf("w%d", x.n))

		return &node{kind: 'c', kids: []*node{a, b}}, "(|cons " + s + " " + b.text + "|)"
	}
}

// words makes a simple command.
func (x *arriveGen) words() (*node, string) {
	g := x.g
	l := []*node{}
	t := ""
	for i := g.R(1, 4); i > 0; i-- {
		v, s := x.value(0)
		l = append(l, v)
		if t != "" {
			t += g.Pick(" ", " ", "  ", "\t", " \\\n")
		}
		t += s
	}

	return li(l...), t
}

// item is a part of the input.
type item struct {
	text  string // Whole lines.
	list  string // What is read from it.
	first string
	blank bool
	bad   bool
}

// block makes a command with a block.
func (x *arriveGen) block(depth int) (*node, string) {
	g := x.g
	x.n++
	name := fmt.Sprintf("b%d", x.n)
	l := []*node{sy(name)}
	t := name
	if g.P(30) {
		t += " arg"
		l = append(l, sy("arg"))
	}
	t += " {" + g.Pick("\n", "\n", "\n\n", " # comment }\n")
	for i := g.R(0, 3); i > 0; i-- {
		var v *node
		var s string
		if depth < 2 && g.P(25) {
			v, s = x.block(depth + 1)
		} else {
			v, s = x.words()
		}
		l = append(l, v)
		t += g.Pick("", "  ", "\t") + s + "\n"
		if g.P(15) {
			t += g.Pick("\n", "# {\n", "  \n")
		}
	}
	t += "}"
	if g.P(20) {
		t += " tail"
		l = append(l, sy("tail"))
	}

	return li(l...), t
}

func (x *arriveGen) item(k int) *item {
	g := x.g
	var v *node
	var t string
	switch k {
	case 0, 1, 2, 3:
		v, t = x.words()
	case 4, 5:
		v, t = x.block(0)
	case 6:
		a, s := x.words()
		b, u := x.words()
		v, t = li(sy("block"), a, b), s+g.Pick("; ", ";", " ; ")+u
	case 7:
		a, s := x.words()
		b, u := x.words()
		switch g.N(3) {
		case 0:
			v, t = li(sy("and"), a, b), s+" && "+u
		case 1:
			v, t = li(sy("or"), a, b), s+" ||\n"+u
		default:
			v, t = li(append([]*node{sy("pipe-output-to"), b}, a.kids...)...), s+g.Pick(" | ", "|", " |\n")+u
		}
	case 8:
		a, s := x.words()
		switch g.N(4) {
		case 0:
			v, t = li(sy("spawn"), a), s+" &"
		case 1:
			v, t = li(sy("output-to"), sy("f"), a), s+" > f"
		case 2:
			v, t = li(append(a.kids, li(sy("resolve"), sy("x")))...), s+" $x"
		default:
			v, t = li(append(a.kids, li(sy("splice"), li(sy("capture"), li(sy("c"), sy("d")))))...), s+" `(c d)"
		}
	case 9:
		s := x.str()
		q := strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s)
		v, t = li(sy("i"), li(sy("interpolate"), tx(s))), `i "`+q+`"`
	case 10:
		v, t = li(li(sy("mend"), &node{kind: 'e'}, sy("a"), sy("."), sy("b")), sy("c")), "a.b c"
	case 11:
		return &item{text: g.Pick("\n", "  \n", "# a comment (\n", "\t# '\n"), blank: true}
	default:
		return &item{text: g.Pick(")", "a ) b", "}", "(a b", `'x' "\q"`, "(|nosuch 1|)", "a {b", "$)", "`)") + "\n", bad: true}
	}
	if g.P(15) {
		t += g.Pick(" # comment '", "  ", "\t", " #")
	}
	t = g.Pick("", "", "", " ", "\t") + t + "\n"

	return &item{text: t, list: v.shown(), first: v.kids[0].shown()}
}

// plan is what is read, and what is to be seen.
type plan struct {
	ops  []string
	want []string // "!" for an exception.
}

func (x *arriveGen) plan(items []*item, eofs int) *plan {
	g := x.g
	p := &plan{}
	add := func(op, want string) { p.ops = append(p.ops, op); p.want = append(p.want, want) }
	mode := g.N(4)
	blanks := ""
	for _, it := range items {
		k := mode
		if mode == 3 {
			k = g.N(3)
		}
		if k == 2 && (strings.Count(it.text, "\n") < 8 || g.P(20)) {
			// Lines that would have been skipped are read, too.
			for _, l := range strings.Split(strings.TrimSuffix(blanks+it.text, "\n"), "\n") {
				add("read-line", canon(l))
			}
			blanks = ""

			continue
		}
		switch {
		case it.blank:
			blanks += it.text

			continue
		case it.bad:
			add(g.Pick("read", "read-list"), "!")
		case k == 0:
			add("read", it.first)
		default:
			add("read-list", it.list)
		}
		blanks = ""
	}
	for i := 0; i < eofs; i++ {
		op := g.Pick("read", "read-list", "read-line")
		if blanks != "" {
			op = "read"
		}
		add(op, "()")
	}

	return p
}

func (x *arriveGen) items(n int, bad bool) []*item {
	g := x.g
	l := []*item{}
	for i := 0; i < n; i++ {
		k := g.N(12)
		if bad && g.P(15) {
			k = 12
		}
		l = append(l, x.item(k))
	}

	return l
}

func textOf(items []*item) string {
	t := ""
	for _, it := range items {
		t += it.text
	}

	return t
}

// feeder returns a command that writes the file in one or more goes.
func (x *arriveGen) feeder(file string, size int) string {
	g := x.g
	cuts := []int{0}
	for i := g.N(4); i > 0 && size > 1; i-- {
		c := g.N(size)
		if c > cuts[len(cuts)-1] {
			cuts = append(cuts, c)
		}
	}
	l := []string{"block {"}
	for i, c := range cuts {
		end := size
		if i+1 < len(cuts) {
			end = cuts[i+1]
		}
		l = append(l, fmt.Sprintf("feed %s %d %d %s", file, c, end-c, g.Pick("0", "1", "2", "3")))
	}

	return strings.Join(append(l, "}"), "\n")
}

func arriveProgs() {
	// feed FILE OFFSET LENGTH HOW.
	Prog("feed", func(s sh) int {
		d, _ := kern.K.Read(s.arg(1))
		d = d[s.num(2, 0):]
		d = d[:s.num(3, len(d))]
		for len(d) > 0 {
			n := len(d)
			switch s.num(4, 0) {
			case 1: // Line by line.
				n = strings.IndexByte(d, '\n') + 1
				if n == 0 {
					n = len(d)
				}
				rt.Sleep(int64(rt.Choose("stub-pause", 4, 0.3)) * 300000)
			case 2: // Byte by byte.
				n = 1
				if len(d) > 600 {
					n = len(d) / 300
				}
			case 3: // Anything.
				n = 1 + rt.Choose("stub-chunk", len(d), 0.8)
				rt.Sleep(int64(rt.Choose("stub-pause", 4, 0.2)) * 300000)
			}
			if e := s.frag(1, d[:n]); e != 0 {
				return s.wfail(e)
			}
			d = d[n:]
		}

		return 0
	})
}

// reads returns commands that carry out a plan.
func (p *plan) reads(id, from string) []string {
	l := []string{}
	for i, op := range p.ops {
		if from != "" {
			l = append(l, fmt.Sprintf("try-c%s %s-%d $%s", op, id, i, from))
		} else {
			l = append(l, fmt.Sprintf("try-%s %s-%d", op, id, i))
		}
	}

	return append(l, "debug ev end-"+id)
}

func (p *plan) check(r *Run, id string) {
	for i, w := range p.want {
		ev := fmt.Sprintf("%s-%d", id, i)
		got, n, _ := evText(r, "got-"+ev)
		ex, nx, _ := evText(r, "raised-"+ev)
		switch {
		case n+nx != 1:
			r.Fail("once", "%s %d of %s was carried out %d times", p.ops[i], i, id, n+nx)
		case w == "!" && n == 1:
			r.Fail("no-exception", "%s %d of %s read %s from malformed input", p.ops[i], i, id, clip(got, 200))
		case w != "!" && nx == 1:
			r.Fail("exception", "%s %d of %s raised %s, not %s", p.ops[i], i, id, clip(ex, 200), clip(w, 200))
		case w != "!" && got != w:
			r.Fail("value", "%s %d of %s read %s (%s)", p.ops[i], i, id, clip(got, 400), diffAt(got, w))
		}
	}
	if r.Count("end-"+id) != 1 {
		r.Fail("end", "the reader %s did not end", id)
	}
}

// tryDef defines the commands that read. A method defined where the input is
// redirected would raise its exceptions there.
func tryDef() []string {
	l := []string{}
	for _, op := range []string{"read", "read-list", "read-line"} {
		for _, c := range []string{"", "c "} {
			l = append(l,
				"define try-"+strings.TrimSpace(c)+op+": method (id "+c+") {",
				"catch ex {",
				"debug ev raised-$id $ex",
				"return ()",
				"}",
				"define v: "+c+op,
				"debug ev got-$id $v",
				"return ()",
				"}")
		}
	}

	return l
}

// source returns commands that carry out the plan on a source of the given
// text.
func (x *arriveGen) source(id string, text string, p *plan) []string {
	g := x.g
	f := "/home/u/data-" + id
	kern.K.Put(f, kern.Reg, 0o644, text)
	feed := x.feeder(f, len(text))
	in := strings.Join(p.reads(id, ""), "\n")
	switch g.N(7) {
	case 0:
		return []string{feed + " | block {\n" + in + "\n}"}
	case 1:
		return []string{"block {\n" + in + "\n} < " + f}
	case 2:
		l := []string{"define f: open r- " + f}

		return append(append(l, p.reads(id, "f")...), "f close")
	case 3:
		ff := "/home/u/fifo-" + id
		kern.K.Put(ff, kern.Fifo, 0o644, "")

		return []string{"define feeder: spawn {\n" + feed + " >> " + ff + "\n}", "block {\n" + in + "\n} < " + ff, "wait $feeder"}
	case 4:
		// A pipe of the shell, and other tasks.
		return append(append([]string{"define p: pipe", "define feeder: spawn {\n" + feed + " > $p\np writer-close\n}"}, p.reads(id, "p")...), "wait $feeder", "p reader-close")
	case 5:
		return []string{feed + " | cat | block {\n" + in + "\n}"}
	default:
		// Lines written by the shell.
		l := []string{"define p: pipe", "define feeder: spawn {"}
		for _, s := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
			if text == "" {
				break
			}
			l = append(l, "p write-line "+canon(s))
		}
		l = append(l, "p writer-close", "}")

		return append(append(l, p.reads(id, "p")...), "wait $feeder", "p reader-close")
	}
}

func arrive(g *Gen) *Scenario {
	x := &arriveGen{pipeGen: pipeGen{g: g, cap: pipeCap(g)}}
	s := &Scenario{Family: "arrive", Fault: benign(g), Race: true}
	s.Script = append(preamble(), tryDef()...)
	plans := map[string]*plan{}
	names := []string{}
	for i := g.R(1, 3); i > 0; i-- {
		id := fmt.Sprintf("s%d", i)
		items := x.items(g.R(0, 5), g.P(50))
		text := textOf(items)
		p := x.plan(items, g.R(1, 2))
		switch {
		case text == "" || p.ops[0] == "read-line" && strings.HasSuffix(text, "\n\n"):
		case g.P(25):
			// The last line may not be terminated.
			text = strings.TrimSuffix(text, "\n")
			if strings.HasSuffix(text, "\n") || text == "" {
				text += "\n"
			}
		case g.P(25):
			// The end of a value may be missing.
			text += g.Pick("'unterminated\nstring\n", "a {\n b\n", "a |\n", "\"x\n", "$'a\\'\n", "a \\\n", "b && c ||\n")
		}
		if !strings.HasSuffix(text, textOf(items)) || len(text) > len(textOf(items)) {
			// What is left when the end is missing can be read as lines.
			for k, op := range p.ops {
				if p.want[k] == "()" && op == "read-line" && k >= len(p.ops)-2 {
					p.ops[k] = "read"
				}
			}
		}
		plans[id] = p
		names = append(names, id)
		s.Script = append(s.Script, "define "+id+": method () {")
		s.Script = append(s.Script, x.source(id, text, p)...)
		s.Script = append(s.Script, "}")
	}
	s.Script = append(s.Script, callAll(g, names, []int{0, 70}[g.N(2)])...)
	s.Script = append(s.Script, "exit 7")
	s.Desc = func() string {
		d := ""
		for _, n := range names {
			t, _ := kern.K.Read("/home/u/data-" + n)
			d += fmt.Sprintf("input %s: %q\nto be read: %q\n", n, t, plans[n].want)
		}

		return d
	}
	s.Check = func(r *Run) {
		r.WantExit(7)
		for _, n := range names {
			plans[n].check(r, n)
		}
	}

	return s
}

// expr writes an expression for the value.
func (x *arriveGen) expr(n *node) string {
	l := []string{}
	for _, k := range n.kids {
		l = append(l, x.expr(k))
	}
	switch n.kind {
	case 't':
		return x.spell(n.text)
	case 'l':
		return "(list " + strings.Join(l, " ") + ")"
	case 'c':
		return "(cons " + strings.Join(l, " ") + ")"
	case 'n':
		return "(number " + n.text + ")"
	case 'x':
		return "(status " + n.text + ")"
	case 'e':
		return "(symbol " + canon(n.text) + ")"
	default:
		return n.text
	}
}

// some makes values to be written.
func (x *arriveGen) some() []*node {
	g := x.g
	l := []*node{}
	for i := g.R(1, 4); i > 0; i-- {
		if g.P(15) {
			l = append(l, &node{kind: 'e', text: g.Pick("two words", "", "new\nline", `back\slash`, "q'uote", "\u00e9", "tab\tbed")})

			continue
		}
		v, _ := x.value(0)
		l = append(l, v)
	}

	return l
}

// odd symbols, and how they are read back.
var oddSymbols = [][]string{{"a.b", "a", ".", "b"}, {"d/e", "d", "/", "e"}, {"x,", "x", ","}, {"k:v", "k", ":", "v"}, {"u@h", "u", "@", "h"}, {"~u", "~", "u"}, {"1.5", "1", ".", "5"}}

func isOdd(s string) []string {
	for _, o := range oddSymbols {
		if o[0] == s {
			return o
		}
	}

	return nil
}

// values are written by one task and read by another.
func values(g *Gen) *Scenario {
	x := &arriveGen{pipeGen: pipeGen{g: g, cap: pipeCap(g)}}
	s := &Scenario{Family: "values", Fault: benign(g), Race: true}
	s.Script = append(preamble(), tryDef()...)

	odd := g.P(15)
	if odd {
		s.Family = "words"
	}

	ps := [][]*node{}
	write := []string{}
	p := &plan{}
	to := []string{"p ", ""}[g.N(2)]
	for i := g.R(1, 5); i > 0; i-- {
		l := x.some()
		if odd {
			l = append(l, sy(oddSymbols[g.N(len(oddSymbols))][0]))
			p.ops = append(p.ops, "read-list")
		} else {
			p.ops = append(p.ops, g.Pick("read", "read-list", "read-line"))
		}
		ps = append(ps, l)
		e := []string{}
		for _, v := range l {
			e = append(e, x.expr(v))
		}
		write = append(write, to+"write "+strings.Join(e, " "))
		w := "(" + shownAll(l) + ")"
		switch p.ops[len(p.ops)-1] {
		case "read":
			w = l[0].shown()
		case "read-line":
			w = canon(shownAll(l))
		}
		p.want = append(p.want, w)
	}
	p.ops = append(p.ops, "read")
	p.want = append(p.want, "()")
	w := strings.Join(write, "\n")
	fifo := "/home/u/fifo"
	kern.K.Put(fifo, kern.Fifo, 0o644, "")

	if to != "" {
		s.Script = append(s.Script, "define p: pipe", "define writer: spawn {", w, "p writer-close", "}")
		switch g.N(3) {
		case 0:
			s.Script = append(s.Script, p.reads("v", "p")...)
		case 1:
			s.Script = append(s.Script, "define f: open r- "+fifo, "define copier: spawn {\ncat < $p >> "+fifo+"\n}")
			s.Script = s.Script[:len(s.Script)-2]
			s.Script = append(s.Script, "define copier: spawn {\ncat < $p >> "+fifo+"\n}", "define f: open r- "+fifo)
			s.Script = append(s.Script, p.reads("v", "f")...)
			s.Script = append(s.Script, "wait $copier", "f close")
		default:
			s.Script = append(s.Script, "block {", strings.Join(p.reads("v", ""), "\n"), "} < $p")
		}
		s.Script = append(s.Script, "wait $writer", "p reader-close")
	} else {
		in := strings.Join(p.reads("v", ""), "\n")
		switch g.N(5) {
		case 0:
			s.Script = append(s.Script, "block {", w, "} | block {", in, "}")
		case 1:
			s.Script = append(s.Script, "block {", w, "} | cat | block {", in, "}")
		case 2:
			s.Script = append(s.Script, "block {", w, "} >| f", "block {", in, "} < f")
		case 3:
			s.Script = append(s.Script, "define writer: spawn {", "block {", w, "} >> "+fifo, "}", "block {", in, "} < "+fifo, "wait $writer")
		default:
			s.Script = append(s.Script, "define rd: method () {", in, "}", "block {", w, "} | rd")
		}
	}
	s.Script = append(s.Script, "exit 7")
	s.Check = func(r *Run) {
		r.WantExit(7)
		if odd {
			for i, l := range ps {
				last := l[len(l)-1].text
				q := []string{}
				for _, c := range isOdd(last)[1:] {
					q = append(q, c)
				}
				back := "(mend (|symbol $''|) " + strings.Join(q, " ") + ")"
				got, _, _ := evText(r, fmt.Sprintf("got-v-%d", i))
				if got == "("+strings.TrimPrefix(shownAll(l[:len(l)-1])+" "+back, " ")+")" {
					r.Fail("odd-symbol", "the symbol %s was written and read back as %s", last, back)
				}
			}
		}
		p.check(r, "v")
	}

	return s
}

// turns has several tasks read from one pipe.
func turns(g *Gen) *Scenario {
	x := &arriveGen{pipeGen: pipeGen{g: g, cap: pipeCap(g)}}
	s := &Scenario{Family: "turns", Fault: benign(g), Race: true, NoHang: false}
	s.Script = append(preamble(), tryDef()...)
	items := []*item{}
	want := map[string]int{}
	for _, it := range x.items(g.R(1, 8), false) {
		items = append(items, it)
		if !it.blank {
			want[it.list]++
		}
	}
	text := textOf(items)
	f := "/home/u/data-t"
	kern.K.Put(f, kern.Reg, 0o644, text)
	n := g.R(2, 3)
	s.Script = append(s.Script, "define rd: method (id c) {", "while (define l: c read-list) {", "debug ev turn $id $l", "}", "debug ev end-$id", "}")
	s.Script = append(s.Script, "define rdin: method (id) {", "while (define l: read-list) {", "debug ev turn $id $l", "}", "debug ev end-$id", "}")
	spawns := func(cmd string) []string {
		l := []string{}
		w := "wait"
		for i := 0; i < n; i++ {
			c := fmt.Sprintf(cmd, i)
			l = append(l, fmt.Sprintf("define t%d: spawn {", i), c, "}")
			w += fmt.Sprintf(" $t%d", i)
		}

		return append(l, w)
	}
	feed := x.feeder(f, len(text))
	switch g.N(3) {
	case 0:
		s.Script = append(append(s.Script, "define p: pipe", "define feeder: spawn {", feed+" > $p", "p writer-close", "}"), spawns("rd r%d $p")...)
		s.Script = append(s.Script, "wait $feeder", "p reader-close")
	case 1:
		s.Script = append(append(s.Script, feed+" | block {"), spawns("rdin r%d")...)
		s.Script = append(s.Script, "}")
	default:
		s.Script = append(append(s.Script, "define p: open r- "+f), spawns("rd r%d $p")...)
		s.Script = append(s.Script, "p close")
	}
	s.Script = append(s.Script, "exit 7")
	s.Check = func(r *Run) {
		r.WantExit(7)
		got := map[string]int{}
		for _, e := range r.Evs("ev") {
			if v := strings.SplitN(e.Text, " ", 3); v[0] == "turn" && len(v) == 3 {
				got[v[2]]++
				if got[v[2]] > want[v[2]] {
					r.Fail("turn", "reader %s read %s, %d times in all, instead of %d", v[1], clip(v[2], 300), got[v[2]], want[v[2]])
				}
			}
		}
		for _, k := range sortedKeys(want) {
			if got[k] != want[k] {
				r.Fail("lost", "%s was read %d times, not %d, by %d readers", clip(k, 300), got[k], want[k], n)
			}
		}
		for i := 0; i < n; i++ {
			if r.Count(fmt.Sprintf("end-r%d", i)) != 1 {
				r.Fail("end", "reader %d did not end", i)
			}
		}
	}

	return s
}

// commands of a script, which arrive somehow.
func commands(g *Gen) *Scenario {
	x := &arriveGen{pipeGen: pipeGen{g: g, cap: pipeCap(g)}}
	s := &Scenario{Family: "commands", Fault: benign(g)}
	want := []string{}
	n := 0
	cmd := func() string {
		n++
		l := x.some()
		e := []string{"debug", "ev", fmt.Sprintf("c-%d", n)}
		for _, v := range l {
			e = append(e, x.expr(v))
		}
		want = append(want, fmt.Sprintf("c-%d %s", n, shownAll(l)))

		return strings.Join(e, g.Pick(" ", " ", "  ", " \\\n  "))
	}
	text := ""
	for i := g.R(1, 6); i > 0; i-- {
		switch g.N(9) {
		case 0, 1, 2:
			text += cmd()
		case 3:
			text += "block {\n" + cmd() + "\n\n" + cmd() + " # }\n}"
		case 4:
			text += "if true {\n" + cmd() + "\n} else {\ndebug ev never\n}"
		case 5:
			text += cmd() + g.Pick("; ", ";") + cmd()
		case 6:
			text += "true &&\n" + cmd()
		case 7:
			text += "# debug ev comment '\n\n" + cmd()
		default:
			x.n++
			text += fmt.Sprintf("define m%d: method () {\n    %s\n}\nm%d", x.n, cmd(), x.n)
		}
		text += "\n"
	}
	tail := g.Pick("", "", "", "debug ev never {\n", "debug ev never 'a\nb\n", "debug ev never &&\n")
	incomplete := tail != ""
	done := want
	if !incomplete && g.P(30) {
		text = strings.TrimSuffix(text, "\n")
	}
	text += tail
	rc := 7
	f := "/home/u/data-c"
	kern.K.Put(f, kern.Reg, 0o644, text)
	switch k := g.N(4); {
	case k == 0 && !incomplete:
		s.Command = text
		rc = 0
	case k == 1:
		ff := "/home/u/fifo"
		kern.K.Put(ff, kern.Fifo, 0o644, "")
		s.Script = []string{"define feeder: spawn {", x.feeder(f, len(text)) + " >> " + ff, "}", "define src: method () {", "catch ex {", "debug ev raised $ex", "return ()", "}",
			"source " + ff, "return ()", "}", "src", "wait $feeder", "exit 7"}
	case k == 2:
		s.Script = []string{"define src: method () {", "catch ex {", "debug ev raised $ex", "return ()", "}", "source " + f, "return ()", "}", "src", "exit 7"}
	default:
		s.Script = []string{strings.TrimSuffix(text, "\n")}
		rc = 0
	}
	s.Check = func(r *Run) {
		r.WantExit(rc)
		i := 0
		for _, e := range r.Evs("ev") {
			switch {
			case strings.HasPrefix(e.Text, "raised"):
				r.Fail("exception", "the commands raised %s", clip(e.Text, 300))
			case e.Text == "never" || strings.HasPrefix(e.Text, "never ") || strings.HasPrefix(e.Text, "comment"):
				r.Fail("extra", "%s was evaluated", e.Text)
			case i >= len(done):
				r.Fail("extra", "there was one command too many: %s", clip(e.Text, 300))
			case e.Text != done[i]:
				r.Fail("value", "command %d was %s (%s)", i, clip(e.Text, 300), diffAt(e.Text, done[i]))
			}
			i++
		}
		if i < len(done) {
			r.Fail("lost", "%d of %d commands were evaluated; stderr: %s", i, len(done), clip(Err.Text(), 300))
		}
	}

	return s
}

// typedIn has a user type what is read.
func typedIn(g *Gen) *Scenario {
	x := &arriveGen{pipeGen: pipeGen{g: g, cap: pipeCap(g)}}
	s := &Scenario{Family: "typed", Tty: true, RC: cheapPrompt + "\n" + strings.Join(tryDef(), "\n"), Fault: benign(g)}
	s.Fault["short-read"] = 0
	plans := map[string]*plan{}
	ids := []string{}
	for i := g.R(1, 3); i > 0; i-- {
		id := fmt.Sprintf("s%d", i)
		items := x.items(g.R(1, 4), g.P(30))
		text := textOf(items)
		if len(text) > 2000 {
			continue
		}
		eofs := g.N(3)
		p := x.plan(items, eofs)
		if len(p.ops) == 0 {
			continue
		}
		if eofs == 0 && items[len(items)-1].blank && !strings.HasPrefix(p.ops[len(p.ops)-1], "read-line") {
			// No one would read it.
			continue
		}
		plans[id] = p
		ids = append(ids, id)
		s.Keys = append(s.Keys, Key{Wait: "quiet", Type: "block {; debug ev begin-" + id + "; " + strings.Join(p.reads(id, ""), "; ") + "; }\n", Label: id})
		s.Keys[len(s.Keys)-1].Type = "block {\ndebug ev begin-" + id + "\n" + strings.Join(p.reads(id, ""), "\n") + "\n}\n"
		if eofs > 0 && strings.HasSuffix(text, "\n") && g.P(30) && !strings.HasSuffix(text, "\n\n") && len(text) > 1 && p.ops[len(p.ops)-1] != "read-line" {
			text = strings.TrimSuffix(text, "\n") + "\x04\x04"
		}
		for j := 0; j < eofs; j++ {
			text += "\x04"
		}
		first := true
		for text != "" {
			n := len(text)
			if g.P(60) {
				n = 1 + g.N(n)
			}
			k := Key{Wait: "steps", N: g.N(4) * 20000, Type: text[:n], Input: true, Label: "to the command"}
			if first {
				k.Wait, k.Arg = "ev", "begin-"+id
				first = false
			}
			s.Keys = append(s.Keys, k)
			text = text[n:]
		}
	}
	s.Keys = append(s.Keys, Key{Wait: "quiet", Type: "debug ev alive\n", Label: "alive"}, Key{Wait: "quiet", Type: "\x04", Label: "end"})
	s.Check = func(r *Run) {
		r.WantExit(0)
		for _, id := range ids {
			plans[id].check(r, id)
		}
		if r.Count("alive") != 1 {
			r.Fail("alive", "the shell did not go on")
		}
	}

	return s
}

// anything must be the same however it arrives.
func anything(g *Gen) *Scenario {
	x := &arriveGen{pipeGen: pipeGen{g: g, cap: pipeCap(g)}}
	s := &Scenario{Family: "soup", Fault: benign(g), Race: true}
	s.Script = append(preamble(), tryDef()...)
	parts := []string{"a", "b1", " ", "\n", "\n", "\n", "(", ")", " {\n", "\n}", "'", "\"", "$'", "$", "\\", "\\\n", " && ", " || ", " | ", "|", "; ", " > ", " >> ", " |<(", "#", "`", "(|", "|)",
		"(|number 5|)", "(|cons a b|)", "\u00e9", "\xff", "\x01", "=", ".", "/", "~", "&", "&\n", "{", "}", "$a", "a=b", "0123456789abcdef", "\t", ":"}
	text := ""
	for i := g.R(1, 30); i > 0; i-- {
		text += parts[g.N(len(parts))]
	}
	p := &plan{}
	for i := strings.Count(text, "\n") + 3; i > 0; i-- {
		p.ops = append(p.ops, []string{"read-list", "read", "read-line"}[g.N(12)/5])
	}
	ids := []string{}
	for i := g.R(2, 3); i > 0; i-- {
		id := fmt.Sprintf("s%d", i)
		ids = append(ids, id)
		s.Script = append(s.Script, "define "+id+": method () {")
		if i == 1 {
			kern.K.Put("/home/u/data-"+id, kern.Reg, 0o644, text)
			s.Script = append(s.Script, "define f: open r- /home/u/data-"+id)
			s.Script = append(append(s.Script, p.reads(id, "f")...), "f close")
		} else {
			s.Script = append(s.Script, x.source(id, text, p)...)
		}
		s.Script = append(s.Script, "}")
	}
	s.Script = append(s.Script, callAll(g, ids, []int{0, 60}[g.N(2)])...)
	s.Script = append(s.Script, "exit 7")
	s.Desc = func() string { return fmt.Sprintf("input: %q\n", text) }
	s.Check = func(r *Run) {
		r.WantExit(7)
		seen := map[string][]string{}
		for _, id := range ids {
			for i, op := range p.ops {
				ev := fmt.Sprintf("%s-%d", id, i)
				got, n, _ := evText(r, "got-"+ev)
				ex, nx, _ := evText(r, "raised-"+ev)
				if n+nx != 1 {
					r.Fail("once", "%s %d of %s was carried out %d times", op, i, id, n+nx)

					return
				}
				if nx == 1 {
					// Without the name of the source.
					if j := strings.Index(ex, ":"); j >= 0 {
						ex = ex[j:]
					}
					got = "raised " + ex
				}
				seen[id] = append(seen[id], got)
			}
		}
		a := ids[len(ids)-1]
		for _, b := range ids[:len(ids)-1] {
			for i := range p.ops {
				if seen[a][i] != seen[b][i] {
					r.Fail("differs", "%s %d of the same input, %q, gave %s from one source and %s from another", p.ops[i], i, clip(text, 300), clip(seen[a][i], 200), clip(seen[b][i], 200))

					return
				}
			}
		}
	}

	return s
}

func init() {
	Registry["C21"] = func(g *Gen) *Scenario {
		arriveProgs()

		switch g.N(12) {
		case 10, 11:
			return anything(g)
		case 9:
			return typedIn(g)
		case 6, 7:
			return values(g)
		case 5:
			return turns(g)
		case 8:
			return commands(g)
		default:
			return arrive(g)
		}
	}
}
