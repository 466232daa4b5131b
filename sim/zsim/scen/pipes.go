//go:build go1.22

package scen

import (
	"fmt"
	"strconv"
	"strings"
	"syscall"

	"zsim/kern"
	"zsim/rt"
)

// big is a variable defined by scripts that need long lines.
const bigLen = 480

func big() string { return strings.Repeat("0123456789abcdef", bigLen/16) }

// preamble defines the helpers the scripts use.
func preamble() []string {
	return []string{
		"define big " + big(),
		"define cp: method () {",
		"    while (define l: read-line) {",
		"        write-line $l",
		"    }",
		"}",
	}
}

// piece is a command together with what it does to its streams.
type piece struct {
	text string
	out  func(in string) string // What arrives at standard output.
	errs string                 // What it writes to standard error.
	done string                 // Event logged at its end ("" if external).
	prog string                 // Name of the external program.
	size int
}

func ln(lines ...string) string {
	if len(lines) == 0 {
		return ""
	}

	return strings.Join(lines, "\n") + "\n"
}

// terminated is what a line-by-line copier makes of data.
func terminated(s string) string {
	if s != "" && !strings.HasSuffix(s, "\n") {
		s += "\n"
	}

	return s
}

type pipeGen struct {
	g     *Gen
	n     int
	cap   int
	long  bool
	loops int
}

func (x *pipeGen) tag() string {
	x.n++

	return fmt.Sprintf("t%d", x.n)
}

func (x *pipeGen) size() int {
	g := x.g

	switch g.N(7) {
	case 0:
		return g.R(1, 40)
	case 1:
		return 0
	case 2:
		return 1
	case 3:
		return 4096 + g.R(-2, 2)
	case 4:
		return x.cap + g.R(-1, 1)
	case 5:
		return 2*x.cap + g.R(0, 500)
	}

	return g.R(40, 3000)
}

// bulk is a number of long lines: sometimes more than a pipe holds.
func (x *pipeGen) bulk() int {
	if x.g.P(35) && x.cap <= 8192 {
		return x.cap/bigLen + x.g.R(1, 12)
	}

	return x.g.R(1, 4)
}

// builtinWriter writes n long lines from a loop.
func builtinWriter(tag string, n int, where string) (string, string) {
	l := []string{}
	want := []string{}

	for i := 0; i < n; i++ {
		l = append(l, fmt.Sprintf("%d", i))
		want = append(want, fmt.Sprintf("%s-%d-%s", tag, i, big()))
	}

	return fmt.Sprintf("for (list %s) (method (i) = (%s write-line \"%s-${i}-${big}\"))", strings.Join(l, " "), where, tag), ln(want...)
}

// odd writes lines with all sorts of bytes.
func (x *pipeGen) odd() piece {
	a, d := "odd", ""
	g := x.g
	for i := g.R(1, 4); i > 0; i-- {
		k := g.N(len(OddLines))
		a += fmt.Sprintf(" %d", k)
		d += OddLines[k] + "\n"
	}
	if g.P(30) {
		k := g.R(1, len(OddLines)-1)
		a += fmt.Sprintf(" -%d", k)
		d += OddLines[k]
	}

	return piece{text: a, out: konst(d), prog: "odd"}
}

// quoteOdd returns text as a string in the language.
func quoteOdd(s string) string {
	b := []byte("$'")
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '\'' || c == '\\':
			b = append(b, '\\', c)
		case c < ' ' || c > '~':
			b = append(b, fmt.Sprintf("\\x%02x", c)...)
		default:
			b = append(b, c)
		}
	}

	return string(append(b, '\''))
}

func (x *pipeGen) producer(errs bool) piece {
	g := x.g
	t := x.tag()

	switch g.N(9) {
	case 6, 7:
		return x.odd()
	case 8:
		l, d := []string{}, ""
		for i := g.R(1, 4); i > 0; i-- {
			k := g.N(len(OddLines))
			l = append(l, "write-line "+quoteOdd(OddLines[k]))
			d += OddLines[k] + "\n"
		}

		return piece{text: fmt.Sprintf("block {\n%s\ndebug ev done-%s\n}", strings.Join(l, "\n"), t), out: konst(d), done: "done-" + t}
	case 0:
		n := g.R(0, 30)
		l := []string{}
		for i := 0; i < n; i++ {
			l = append(l, fmt.Sprintf("%s-%d", t, i))
		}

		return piece{text: fmt.Sprintf("lines %s %d", t, n), out: konst(ln(l...)), prog: "lines"}
	case 1:
		n := x.size()

		return piece{text: fmt.Sprintf("emit %s %d", t, n), out: konst(Pattern(t, n)), prog: "emit"}
	case 2:
		return piece{text: fmt.Sprintf("write-line %s", t), out: konst(t + "\n")}
	case 3:
		n := x.bulk()
		s, w := builtinWriter(t, n, "stdout")

		return piece{text: fmt.Sprintf("block {\n%s\ndebug ev done-%s\n}", s, t), out: konst(w), done: "done-" + t}
	case 4:
		// A mixture.
		s, w := builtinWriter(t, g.R(1, 3), "stdout")
		n := x.size() % 6000

		return piece{
			text: fmt.Sprintf("block {\necho %sA\nwrite-line %sB\n%s\nemit %sC %d\ndebug ev done-%s\n}", t, t, s, t, n, t),
			out:  konst(ln(t+"A", t+"B") + w + Pattern(t+"C", n)),
			done: "done-" + t,
		}
	default:
		if errs {
			return piece{
				text: fmt.Sprintf("block {\necho %sA\neecho %sE\nerror %sF\nwrite-line %sB\ndebug ev done-%s\n}", t, t, t, t, t),
				out:  konst(ln(t+"A", t+"E", t+"F", t+"B")), done: "done-" + t,
			}
		}

		return piece{text: fmt.Sprintf("echo %s x y", t), out: konst(t + " x y\n"), prog: "echo"}
	}
}

func (x *pipeGen) middle() piece {
	g := x.g
	t := x.tag()
	same := func(in string) string { return in }

	switch g.N(5) {
	case 0:
		return piece{text: "cat", out: same, prog: "cat"}
	case 1:
		return piece{text: fmt.Sprintf("block {\ncp\ndebug ev done-%s\n}", t), out: terminated, done: "done-" + t}
	case 2:
		return piece{text: fmt.Sprintf("block {\ncat\ndebug ev done-%s\n}", t), out: same, done: "done-" + t}
	case 3:
		// A nested pipeline.
		return piece{text: fmt.Sprintf("block {\ncat | cp\ndebug ev done-%s\n}", t), out: terminated, done: "done-" + t}
	default:
		return piece{text: fmt.Sprintf("block {\nwrite-line %s\ncat\necho %s\ndebug ev done-%s\n}", t, t, t), done: "done-" + t,
			out: func(in string) string { return t + "\n" + in + t + "\n" }}
	}
}

func konst(s string) func(string) string { return func(string) string { return s } }

// pipeline is a generated pipeline.
type pipeline struct {
	text   string
	want   string
	kind   string // sink, file, ev
	name   string
	stages []piece
	ops    []string
}

func (x *pipeGen) pipeline() *pipeline {
	g := x.g
	p := &pipeline{name: "k" + x.tag()}
	op := func() string {
		if g.P(20) {
			return "|&"
		}

		return "|"
	}

	first := op()
	d := x.producer(first == "|&")
	p.stages = append(p.stages, d)
	p.ops = append(p.ops, first)
	data := d.out("")

	for i := g.N(3); i > 0; i-- {
		m := x.middle()
		data = m.out(data)
		p.stages = append(p.stages, m)
		p.ops = append(p.ops, op())
	}

	p.want = data

	var last piece

	switch g.N(5) {
	case 0, 1:
		p.kind = "sink"
		last = piece{text: "sink " + p.name, prog: "sink"}
	case 2:
		p.kind = "file"
		last = piece{text: "cat > /home/u/" + p.name, prog: "cat"}
	case 3:
		p.kind = "sink"
		p.want = terminated(data)
		last = piece{text: "block {\ncp\ndebug ev done-" + p.name + "\n} | sink " + p.name}
	default:
		p.kind = "ev"
		last = piece{text: "block {\nwhile (define l: read-line) {\ndebug ev got " + p.name + " $l\n}\ndebug ev eof " + p.name + "\n}"}
	}

	p.stages = append(p.stages, last)

	for i, s := range p.stages {
		p.text += s.text
		if i < len(p.ops) {
			p.text += " " + p.ops[i] + " "
		}
	}

	return p
}

func unq(s string) string {
	s = strings.TrimSpace(s)
	if len(s) > 2 && strings.HasPrefix(s, "$'") && s[len(s)-1] == '\'' {
		return unesc(s[2 : len(s)-1])
	}
	if strings.HasPrefix(s, "$'") {
		s = s[1:]
	}
	if len(s) >= 2 && (s[0] == '\'' || s[0] == '"') && s[len(s)-1] == s[0] {
		s = s[1 : len(s)-1]
	}

	return s
}

// unesc undoes the escapes of a printed string.
func unesc(s string) string {
	if !strings.Contains(s, "\\") {
		return s
	}
	b := []byte{}
	for len(s) > 0 {
		if s[0] != '\\' || len(s) == 1 {
			b = append(b, s[0])
			s = s[1:]

			continue
		}
		n := 0
		switch s[1] {
		case 'x':
			n = 2
		case 'u':
			n = 4
		case 'U':
			n = 8
		default:
			if i := strings.IndexByte("abfnrtv", s[1]); i >= 0 {
				b = append(b, "\a\b\f\n\r\t\v"[i])
			} else {
				b = append(b, s[1])
			}
			s = s[2:]

			continue
		}
		if len(s) < 2+n {
			return string(b) + s
		}
		v, err := strconv.ParseUint(s[2:2+n], 16, 32)
		if err != nil {
			return string(b) + s
		}
		if n == 2 {
			b = append(b, byte(v))
		} else {
			b = append(b, string(rune(v))...)
		}
		s = s[2+n:]
	}

	return string(b)
}

// OddLines are lines with bytes that something might take for special.
var OddLines = []string{
	"trailing cr\r", "\r", "two\r\r", " leading and trailing ", "\ttab\t", "", "  ", "quote ' \" `", "$x ${y} $(z)", "a (b) {c} [d]",
	"a; b | c & d", "# not a comment", "* ? ~ ~/x", "back\\slash\\", "caf\u00e9 \u65e5\u672c \U0001F600", "bad \xff\xfe utf8", "nb\u00a0sp\u2028x", "\x01\x1b[0m\x7f",
	"a\vb\fc", "()", "true", "0x10 017 1/2", "-n", "ends with backslash \\", "\ufeffbom", "\u0085next",
}

func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}

	return fmt.Sprintf("%d bytes, wanted %d; first difference at byte %d: %q, wanted %q", len(a), len(b), i, clip(a[i:], 60), clip(b[i:], 60))
}

// exited returns the index in the event log of the end of the idx-th process named prog.
func eventIndex(r *Run, kind, text string) int {
	for i, e := range r.K.Events {
		if e.Kind == kind && e.Text == text {
			return i
		}
	}

	return -1
}

func (p *pipeline) check(r *Run) {
	eof := -1

	switch p.kind {
	case "sink":
		s := Sinks[p.name]
		if s == nil {
			r.Fail("no-sink", "the last stage of pipeline %s never ran", p.name)

			return
		}
		if s.Err != "" {
			r.Fail("read-error", "the last stage of pipeline %s got %s", p.name, s.Err)
		}
		if s.Data != p.want {
			r.Fail("data", "pipeline %s delivered %s", p.name, diffAt(s.Data, p.want))
		}
		if !s.EOF {
			r.Fail("eof", "the last stage of pipeline %s saw no end-of-file", p.name)
		}

		eof = eventIndex(r, "sink-eof", p.name)
	case "file":
		d, ok := r.K.Read("/home/u/" + p.name)
		if !ok {
			r.Fail("no-file", "the last stage of pipeline %s never ran", p.name)
		} else if d != p.want {
			r.Fail("data", "pipeline %s delivered %s", p.name, diffAt(d, p.want))
		}
	case "ev":
		var b strings.Builder
		for _, e := range r.Ev("got " + p.name) {
			b.WriteString(unq(strings.TrimPrefix(e.Text, "got "+p.name)) + "\n")
		}
		if b.String() != terminated(p.want) {
			r.Fail("data", "pipeline %s delivered %s", p.name, diffAt(b.String(), terminated(p.want)))
		}
		eof = r.Index("eof " + p.name)
		if n := r.Count("eof " + p.name); n != 1 {
			r.Fail("eof", "the last stage of pipeline %s saw %d ends of file", p.name, n)
		}
	}

	// The last stage's end-of-file comes after the end of the stages.
	for i, s := range p.stages[:len(p.stages)-1] {
		if s.done == "" {
			continue
		}
		n := r.Count(s.done)
		if n != 1 {
			r.Fail("stage", "stage %d of pipeline %s ended %d times", i+1, p.name, n)
		}
		if d := r.Index(s.done); eof >= 0 && d > eof {
			r.Fail("eof-order", "stage %d of pipeline %s ended after the last stage saw end-of-file", i+1, p.name)
		}
	}

	// The pipeline returns after its last stage.
	if ret := r.Index("ret " + p.name); ret < 0 {
		r.Fail("no-return", "pipeline %s did not return", p.name)
	} else {
		if eof > ret {
			r.Fail("early-return", "pipeline %s returned before its last stage had ended", p.name)
		}
		for i, s := range p.stages {
			if s.done != "" && r.Index(s.done) > ret {
				r.Fail("early-return", "pipeline %s returned before stage %d had ended", p.name, i+1)
			}
		}
	}
}

func pipeCap(g *Gen) int {
	c := []int{65536, 4096, 8192, 16384}[g.N(4)]
	kern.K.PipeCap = c

	return c
}

// io is the benign part of the environment: short transfers and merged signals.
func benign(g *Gen) map[string]float64 {
	f := map[string]float64{}
	if g.P(50) {
		f["short-read"] = 0.3
	}
	if g.P(40) {
		f["short-write"] = 0.2
	}

	return f
}

func init() {
	Registry["C01"] = func(g *Gen) *Scenario {
		x := &pipeGen{g: g, cap: pipeCap(g)}
		s := &Scenario{Family: "pipeline", Race: true, Fault: benign(g)}
		s.Script = preamble()

		ps := []*pipeline{}
		conc := []string{}
		n := 1 + g.N(3)
		if x.cap > 16384 {
			n = 1 + g.N(2)
		}

		for i := 0; i < n; i++ {
			p := x.pipeline()
			ps = append(ps, p)

			switch mode := g.N(4); mode {
			case 1:
				t := fmt.Sprintf("task%d", i)
				s.Script = append(s.Script, "define "+t+": spawn {", p.text, "debug ev ret "+p.name, "}")
				conc = append(conc, "$"+t)
			case 2:
				s.Script = append(s.Script, "block {", p.text, "debug ev ret "+p.name, "}")
			case 3:
				s.Script = append(s.Script, "define m"+p.name+": method () {", p.text, "}", "m"+p.name, "debug ev ret "+p.name)
			default:
				s.Script = append(s.Script, p.text, "debug ev ret "+p.name)
			}
		}

		if len(conc) > 0 {
			s.Script = append(s.Script, "wait "+strings.Join(conc, " "))
			s.Family = "pipelines-concurrent"
		}

		s.Script = append(s.Script, "exit 7")
		s.Check = func(r *Run) {
			r.WantExit(7)
			for _, p := range ps {
				p.check(r)
			}
			if e := Err.Text(); e != "" {
				r.Fail("stderr", "unexpected output on standard error: %s", clip(e, 400))
			}
		}

		return s
	}
}

var (
	_ = syscall.SIGPIPE
	_ = rt.Now
)
