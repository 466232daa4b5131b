//go:build go1.22

package scen

import (
	"fmt"
	"strings"
	"syscall"

	"zsim/kern"
	"zsim/rt"
)

// part is an inner command of a process substitution.
type part struct {
	text   string
	out    string   // What it writes (|<).
	from   string   // The name of what it reads (|>), judged by kind.
	kind   string   // sink, file, none
	throws []string // Substrings of the exception it raises, or nil.
	done   string   // Event at its end.
	raw    bool     // A builtin writes: writing to nobody raises an exception.
	may    []string // Exceptions it may raise.
}

// psub is a command with process substitutions.
type psub struct {
	name   string
	text   string
	def    []string
	ins    []part
	outs   []part
	want   string // On the command's output.
	data   string // What every |> part reads.
	early  bool   // The command does not use every FIFO to the end.
	throws []string
	val    string // The command's value, "" if unknown.
	file   string
}

type psubGen struct {
	pipeGen
	faulty bool
}

func init() {
	Registry["C19"] = func(g *Gen) *Scenario {
		psubProgs()

		return psubs(g)
	}
}

func psubProgs() {
	// peek FILE N: reads the first N bytes of a file.
	Prog("peek", func(s sh) int {
		fd := s.open(s.arg(1), syscall.O_RDONLY)
		if fd < 0 {
			return 1
		}
		for n := s.num(2, 1); n > 0; {
			d, e := s.read(fd, n)
			if e != 0 || d == "" {
				break
			}
			n -= len(d)
		}

		return 0
	})

	// rcat FILE ...: opens the files in reverse order, then writes all of them to its output.
	Prog("rcat", func(s sh) int {
		fds := make([]int, len(s.p.Argv))
		for i := len(fds) - 1; i > 0; i-- {
			fds[i] = s.open(s.arg(i), syscall.O_RDONLY)
			if fds[i] < 0 {
				return 1
			}
		}
		for _, fd := range fds[1:] {
			for {
				d, e := s.read(fd, 1000)
				if e != 0 {
					s.log("stub-error", "rcat: read: %v", e)

					return 1
				}
				if d == "" {
					break
				}
				if e := s.frag(1, d); e != 0 {
					return s.wfail(e)
				}
			}
		}

		return 0
	})

	// dup FILE ...: copies its input to all the files.
	Prog("dup", func(s sh) int {
		fds := []int{}
		for i := 1; i < len(s.p.Argv); i++ {
			fd := s.open(s.arg(i), syscall.O_WRONLY|syscall.O_CREAT|syscall.O_TRUNC)
			if fd < 0 {
				return 1
			}
			fds = append(fds, fd)
		}
		for {
			d, e := s.read(0, 4096)
			if e != 0 {
				s.log("stub-error", "dup: read: %v", e)

				return 1
			}
			if d == "" {
				return 0
			}
			for _, fd := range fds {
				if e := s.frag(fd, d); e != 0 {
					return s.wfail(e)
				}
			}
		}
	})

	// put TAG N FILE ...: writes a pattern to each of the files, one after the other.
	Prog("put", func(s sh) int {
		for i := 3; i < len(s.p.Argv); i++ {
			fd := s.open(s.arg(i), syscall.O_WRONLY|syscall.O_CREAT|syscall.O_TRUNC)
			if fd < 0 {
				return 1
			}
			if e := s.frag(fd, Pattern(s.arg(1), s.num(2, 0))); e != 0 {
				return s.wfail(e)
			}
			s.p.Close(fd)
		}

		return 0
	})
}

// producer is the inner command of |<.
func (x *psubGen) inner(depth int) part {
	g := x.g
	t := x.tag()
	p := part{kind: "none"}

	switch g.N(8) {
	case 0:
		p.text, p.out = "echo "+t, t+"\n"
	case 1:
		n := x.size() % 20000
		p.text, p.out = fmt.Sprintf("emit %s %d", t, n), Pattern(t, n)
	case 2:
		s, w := builtinWriter(t, g.R(1, 3), "stdout")
		p.text, p.out, p.done, p.raw = fmt.Sprintf("block {\n%s\ndebug ev done-%s\n}", s, t), w, "done-"+t, true
	case 3:
		p.text, p.out, p.done = fmt.Sprintf("block {\nemit %s 300 | cat\nsleep %d\necho %sz\ndebug ev done-%s\n}", t, g.N(20), t, t), Pattern(t, 300)+t+"z\n", "done-"+t
	case 4:
		if depth > 0 {
			a := x.inner(depth - 1)
			b := x.inner(depth - 1)
			p.text, p.out = "cat |<("+a.text+") |<("+b.text+")", a.out+b.out
			p.raw = a.raw || b.raw
			p.throws = append(append(p.throws, a.throws...), b.throws...)

			break
		}
		p.text, p.done = fmt.Sprintf("block {\ntrue\ndebug ev done-%s\n}", t), "done-"+t
	case 5:
		p.text, p.out, p.throws = fmt.Sprintf("block {\necho %sa\nthrow boom%s\ndebug ev never-%s\n}", t, t, t), t+"a\n", []string{"boom" + t}
	case 6:
		p.text, p.throws = "nosuchcommand"+t, []string{"nosuchcommand" + t}
	default:
		n := g.N(256)
		p.text, p.out, p.done = fmt.Sprintf("block {\nlines %s 4 %d\ndebug ev done-%s\nret %d %d\n}", t, g.N(3), t, n, g.N(9)), fmt.Sprintf("%s-0\n%s-1\n%s-2\n%s-3\n", t, t, t, t), "done-"+t
	}

	return p
}

// consumer is the inner command of |>.
func (x *psubGen) consumer() part {
	g := x.g
	t := x.tag()
	p := part{kind: "none", from: t}

	switch g.N(7) {
	case 0:
		p.text, p.kind = "sink "+t, "sink"
	case 1:
		p.text, p.kind, p.done = fmt.Sprintf("block {\ncat | sink %s\nsleep %d\ndebug ev done-%s\n}", t, g.N(20), t), "sink", "done-"+t
	case 2:
		p.text, p.kind = "cat > /home/u/"+t, "file"
	case 3:
		p.text, p.kind, p.done = fmt.Sprintf("block {\nwhile (define l: read-line) {\ndebug ev got-%s $l\n}\ndebug ev done-%s\n}", t, t), "ev", "done-"+t
	case 4:
		p.text, p.kind, p.throws = fmt.Sprintf("block {\nsink %s\nthrow boom%s\ndebug ev never-%s\n}", t, t, t), "sink", []string{"boom" + t}
	case 5:
		p.text, p.kind = "cat |>(sink "+t+") > /dev/null", "skip"
		p.text, p.kind = "dup |>(sink "+t+")", "sink"
	default:
		// Reads until the end, with a status.
		p.text, p.kind = fmt.Sprintf("sink %s %d", t, g.N(256)), "sink"
	}

	return p
}

func (x *psubGen) psub(name string) *psub {
	g := x.g
	p := &psub{name: name}

	arg := func(i part) string { return "|<(" + i.text + ")" }
	oarg := func(i part) string { return "|>(" + i.text + ")" }

	switch g.N(10) {
	case 0, 1, 2:
		// All of the inputs, in order.
		p.text = g.Pick("cat", "rcat")
		for i := g.R(1, 3); i > 0; i-- {
			a := x.inner(1)
			p.ins = append(p.ins, a)
			p.want += a.out
			p.text += " " + arg(a)
			if p.text[0] == 'c' && g.P(20) {
				kern.K.Put("/home/u/plain", kern.Reg, 0o644, "plain\n")
				p.text += " plain"
				p.want += "plain\n"
			}
		}
		p.val = status(0)
	case 3, 4:
		// One stream for several consumers.
		n := x.size() % 20000
		p.data = Pattern(name, n)
		p.text = fmt.Sprintf("emit %s %d | dup", name, n)
		for i := g.R(1, 3); i > 0; i-- {
			a := x.consumer()
			p.outs = append(p.outs, a)
			p.text += " " + oarg(a)
		}
		p.val = status(0)
	case 5:
		n := x.size() % 20000
		p.data = Pattern(name, n)
		p.text = fmt.Sprintf("put %s %d", name, n)
		for i := g.R(1, 2); i > 0; i-- {
			a := x.consumer()
			p.outs = append(p.outs, a)
			p.text += " " + oarg(a)
		}
		p.val = status(0)
	case 6:
		// Both directions.
		a := x.inner(0)
		b := x.consumer()
		p.text = "dup " + oarg(b) + " < " + arg(a)
		// The redirection is not a substitution: use a method.
		p.def = []string{"define m" + name + ": method (i o) {", "cat $i | dup $o", "}"}
		p.text = "m" + name + " " + arg(a) + " " + oarg(b)
		p.ins, p.outs, p.data = []part{a}, []part{b}, a.out
		p.val = status(0)
	case 7:
		// A builtin reads.
		a := x.inner(1)
		p.def = []string{"define m" + name + ": method (i) {", "cp < $i", "number 7", "}"}
		p.text = "m" + name + " " + arg(a)
		p.ins, p.want, p.val = []part{a}, terminated(a.out), "(|number 7|)"
	case 8:
		// Not everything is used.
		p.early = true
		n := g.R(1, 3)
		switch g.N(4) {
		case 0:
			p.text = fmt.Sprintf("ret %d", n)
			p.val = status(n)
		case 1:
			p.text = "peek"
			p.val = status(0)
		case 2:
			p.text = "nosuchcommand" + name
			p.throws = []string{"nosuchcommand" + name}
		default:
			p.def = []string{"define m" + name + ": method (_ (_)) {", "throw boom" + name, "}"}
			p.def = []string{"define m" + name + ": method ((_)) {", "throw boom" + name, "}"}
			p.text = "m" + name
			p.throws = []string{"boom" + name}
		}
		for i := g.R(1, 2); i > 0; i-- {
			if g.P(50) && p.text != "peek" {
				b := x.consumer()
				b.kind = "none"
				p.outs = append(p.outs, b)
				p.text += " " + oarg(b)
			} else {
				a := x.inner(1)
				p.ins = append(p.ins, a)
				p.text += " " + arg(a)
				if strings.HasPrefix(p.text, "peek") {
					p.text += fmt.Sprintf(" %d", g.R(1, 200))

					break
				}
			}
		}
	default:
		// The command fails after it has used its input.
		a := x.inner(1)
		p.def = []string{"define m" + name + ": method (i) {", "cat $i", "throw boom" + name, "}"}
		p.text = "m" + name + " " + arg(a)
		p.ins, p.want, p.throws = []part{a}, a.out, []string{"boom" + name}
	}

	p.file = "/home/u/out-" + name

	return p
}

// fifos lists what is left in the temporary directory.
func fifos() []string { return kern.K.List("/tmp") }

func psubs(g *Gen) *Scenario {
	x := &psubGen{pipeGen: pipeGen{g: g, cap: pipeCap(g)}}
	s := &Scenario{Family: "substitution", Race: true, Fault: benign(g), Script: preamble()}

	kinds := []string{}
	if g.P(35) {
		s.Family = "substitution-faults"
		x.faulty = true
		for _, f := range []string{"open-emfile", "mknod-enospc", "fork-eagain", "pipe-emfile", "exec-enomem", "write-eio", "read-eio"} {
			if g.P(40) {
				kinds = append(kinds, f)
				s.Fault[f] = []float64{0.02, 0.1, 0.3}[g.N(3)]
			}
		}
		s.FaultGo, s.FaultEnd = "faults-on", "faults-off"
		s.FaultMax = g.R(1, 6)
	}

	ps := []*psub{}
	names := []string{}
	for i := g.R(1, 3); i > 0; i-- {
		p := x.psub(fmt.Sprintf("p%d", i))
		ps = append(ps, p)
		names = append(names, p.name)
		s.Script = append(s.Script, p.def...)
		s.Script = append(s.Script, caught(p.name, "define val ()", "block {\nset val ("+p.text+")\n} > "+p.file, "debug ev value-"+p.name+" $val")...)
	}

	conc := []int{0, 60}[g.N(2)]
	if conc > 0 {
		s.Family += "-concurrent"
	}

	left := map[string][]string{}
	OnEv = func(t string) {
		if strings.HasPrefix(t, "after-") {
			left[strings.Fields(t)[0]] = fifos()
		}
		if t == "faults-off" {
			left["end"] = fifos()
		}
	}

	s.Script = append(s.Script, "debug ev faults-on")
	s.Script = append(s.Script, callAll(g, names, conc)...)
	s.Script = append(s.Script, "debug ev faults-off", "cat |<(echo last) > /home/u/last", "exit 7")
	s.Check = func(r *Run) {
		r.WantExit(7)

		errors := len(r.Evs("stub-error")) > 0

		for _, p := range ps {
			p.check(r, x.faulty, errors, conc > 0)

			if conc == 0 {
				if l := left["after-"+p.name]; len(l) > 0 {
					r.Fail("fifo-left", "after %q there was %v in the temporary directory", p.text, l)
				}
			}
		}

		if l := left["end"]; len(l) > 0 {
			r.Fail("fifo-left", "at the end there was %v in the temporary directory", l)
		}
		if l := fifos(); len(l) > 0 {
			r.Fail("fifo-left", "when the shell exited there was %v in the temporary directory", l)
		}
		if d, _ := r.K.Read("/home/u/last"); d != "last\n" {
			r.Fail("after", "a substitution after the others delivered %q", d)
		}

		for _, e := range r.Evs("ev") {
			if strings.HasPrefix(e.Text, "never-") {
				r.Fail("ran-on", "a command went on after throwing: %s", e.Text)
			}
		}
		if e := Err.Text(); e != "" && !errors && !x.faulty {
			r.Fail("stderr", "unexpected output on standard error: %s", clip(e, 400))
		}
	}

	return s
}

func (p *psub) check(r *Run, faulty, errors, conc bool) {
	ex, nex, atEx := evText(r, "caught-"+p.name)
	v, nv, atV := evText(r, "value-"+p.name)
	if nex+nv != 1 {
		r.Fail("once", "%q returned %d times and raised %d exceptions", p.text, nv, nex)

		return
	}

	at := atV
	all := append(append([]part{}, p.ins...), p.outs...)
	possible := append([]string{}, p.throws...)
	certain := p.throws != nil
	for _, i := range all {
		possible = append(possible, i.throws...)
		if i.throws != nil && !p.early {
			certain = true
		}
		if i.throws != nil && p.early && !i.raw && strings.HasPrefix(i.throws[0], "nosuch") && !strings.HasPrefix(i.text, "cat ") {
			certain = true
		}
		if i.raw && p.early {
			possible = append(possible, "broken pipe")
		}
	}

	if nex == 1 {
		at = atEx
		ok := faulty
		for _, t := range possible {
			if strings.Contains(ex, t) {
				ok = true
			}
		}
		if !ok {
			r.Fail("wrong-exception", "%q raised %s", p.text, ex)
		}
	} else {
		if certain {
			r.Fail("lost-exception", "%q returned %s although a part of it raised an exception", p.text, v)
		}
		if p.val != "" && v != p.val && !errors {
			r.Fail("value", "%q returned %s, not %s", p.text, v, p.val)
		}
	}

	for _, i := range all {
		if i.done == "" {
			continue
		}
		n := r.Count(i.done)
		if n > 1 || n == 0 && nex == 0 && !faulty {
			r.Fail("part", "%q of %q ended %d times", i.text, p.text, n)
		}
		if r.Index(i.done) > at {
			r.Fail("early-return", "%q returned before %q had ended", p.text, i.text)
		}
	}

	if !conc {
		if l := alive(r, at); len(l) > 0 {
			r.Fail("early-return", "%q returned while %q ran", p.text, l)
		}
	}

	if p.early {
		return
	}

	// An exception or a failed program explains what is missing, but only in
	// the presence of faults.
	if faulty && (nex == 1 || errors) {
		return
	}

	if d, _ := r.K.Read(p.file); d != p.want {
		r.Fail("data", "%q wrote %s", p.text, diffAt(d, p.want))
	}

	for _, o := range p.outs {
		got := ""
		want := p.data
		switch o.kind {
		case "sink":
			rec := Sinks[o.from]
			if rec == nil {
				r.Fail("data", "%q of %q never ran", o.text, p.text)

				return
			}
			if !rec.EOF || rec.Err != "" {
				r.Fail("eof", "%q of %q saw no end-of-file (%s)", o.text, p.text, rec.Err)
			}
			got = rec.Data
		case "file":
			got, _ = r.K.Read("/home/u/" + o.from)
		case "ev":
			for _, e := range r.Ev("got-" + o.from) {
				got += unq(strings.TrimPrefix(e.Text, "got-"+o.from)) + "\n"
			}
			want = terminated(want)
		default:
			continue
		}
		if got != want {
			r.Fail("data", "%q of %q got %s", o.text, p.text, diffAt(got, want))
		}
	}
}

var _ = rt.Now
