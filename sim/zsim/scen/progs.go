//go:build go1.22

package scen

import (
	"fmt"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"zsim/kern"
	"zsim/rt"
)

// Sinks records what the sink program received, by name.
var Sinks = map[string]*SinkRec{}

// SinkRec is what one sink received.
type SinkRec struct {
	Data  string
	EOF   bool
	Err   string
	EOFAt int // Index in the event log.
}

// Dump is what the args program saw.
type Dump struct {
	Name string
	Argv []string
	Env  []string
	Cwd  string
	Fds  map[int]string
	PID  int
	PGID int
	Proc *kern.Proc
}

// Dumps records invocations of the args program.
var Dumps []*Dump

// Pattern returns n bytes that identify their position.
func Pattern(tag string, n int) string {
	var b strings.Builder
	per := 1 + n/300
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, "%s%06d", tag, i)
		if i%per == per-1 {
			b.WriteByte('\n')
		}
	}

	return b.String()[:n]
}

type sh struct {
	p *kern.Proc
}

func (s sh) arg(i int) string {
	if i < len(s.p.Argv) {
		return s.p.Argv[i]
	}

	return ""
}

func (s sh) num(i, def int) int {
	n, err := strconv.Atoi(s.arg(i))
	if err != nil {
		return def
	}

	return n
}

// read returns "" at end-of-file.
func (s sh) read(fd, max int) (string, syscall.Errno) {
	o := s.p.Fds[fd]
	if o == nil {
		return "", syscall.EBADF
	}

	if max > 1 {
		if v := rt.Choose("stub-short-read", 8, 0.2); v != 0 {
			max = (max*v + 7) / 8
			if v < 4 && max > v {
				max = v
			}
		}
	}

	b := make([]byte, max)
	n, e := s.p.ReadOFD(o, b)
	if e != 0 {
		return "", e
	}

	return string(b[:n]), 0
}

func (s sh) write(fd int, data string) syscall.Errno {
	o := s.p.Fds[fd]
	if o == nil {
		return syscall.EBADF
	}

	for len(data) > 0 {
		n, e := s.p.WriteOFD(o, []byte(data))
		if n > 0 {
			data = data[n:]
		}
		if e != 0 {
			return e
		}
	}

	return 0
}

// frag writes data in fragments chosen by the environment.
func (s sh) frag(fd int, data string) syscall.Errno {
	for len(data) > 0 {
		n := len(data)
		if n > 1 {
			switch rt.Choose("stub-fragment", 5, 0.25) {
			case 1:
				n = 1
			case 2:
				n = (n + 1) / 2
			case 3:
				n = 1 + n/7
			case 4:
				rt.Sleep(1000)
			}
		}

		if e := s.write(fd, data[:n]); e != 0 {
			return e
		}

		data = data[n:]
	}

	return 0
}

func (s sh) all(fd int) (string, syscall.Errno) {
	var b strings.Builder

	for {
		d, e := s.read(fd, 4096)
		if e != 0 {
			return b.String(), e
		}
		if d == "" {
			return b.String(), 0
		}
		b.WriteString(d)
	}
}

func (s sh) log(kind, format string, a ...any) {
	kern.K.Log(kind, s.p.PID, fmt.Sprintf(format, a...))
}

func (s sh) wfail(e syscall.Errno) int {
	if e != 0 {
		s.log("stub-error", "%s: write: %v", s.p.Argv[0], e)

		return 1
	}

	return 0
}

func (s sh) open(name string, flags int) int {
	fd, e := s.p.Open(name, flags, 0o666)
	if e != 0 {
		s.log("stub-error", "%s: open %s: %v", s.p.Argv[0], name, e)

		return -1
	}

	return fd
}

// Prog registers a program as /bin/name.
func Prog(name string, fn func(s sh) int) {
	kern.K.Progs[name] = func(p *kern.Proc) int { return fn(sh{p}) }
	i := kern.K.Put("/bin/"+name, kern.Reg, 0o755, "")
	i.Prog = name
}

func world(k *kern.Kern) {
	k.Mkdirs("/bin")
	k.Mkdirs("/tmp")
	k.Mkdirs("/home/u")
	k.Put("/dev/null", kern.Null, 0o666, "")
	k.Put("/dev/zero", kern.Zero, 0o666, "")
	k.Put("/dev/tty", kern.Tty, 0o666, "")
	k.Put("/bin/oh", kern.Reg, 0o755, "")
	k.Put("/dev/stdin", kern.Null, 0o666, "")

	Prog("true", func(s sh) int { return 0 })
	Prog("false", func(s sh) int { return 1 })

	// ret CODE [MS]: exit with a status, after a while.
	Prog("ret", func(s sh) int {
		if ms := s.num(2, 0); ms > 0 {
			rt.Sleep(int64(ms) * 1000000)
		}

		return s.num(1, 0)
	})

	// die SIGNAL [MS]: killed by a signal.
	Prog("die", func(s sh) int {
		if ms := s.num(2, 0); ms > 0 {
			rt.Sleep(int64(ms) * 1000000)
		}

		s.p.Disp[s.num(1, 15)] = kern.SigDfl
		s.p.Kill(s.p.PID, syscall.Signal(s.num(1, 15)))
		s.check()

		return 0
	})

	Prog("echo", func(s sh) int { return s.wfail(s.frag(1, strings.Join(s.p.Argv[1:], " ")+"\n")) })
	Prog("printf", func(s sh) int {
		t := strings.NewReplacer(`\n`, "\n", `\t`, "\t").Replace(s.arg(1))

		return s.wfail(s.frag(1, t))
	})

	// odd K ...: writes some of OddLines; a negative number without a line end.
	Prog("odd", func(s sh) int {
		d := ""
		for i := 1; i < len(s.p.Argv); i++ {
			if k := s.num(i, 0); k < 0 {
				d += OddLines[-k]
			} else {
				d += OddLines[k] + "\n"
			}
		}

		return s.wfail(s.frag(1, d))
	})

	// echo1: like echo, in one write.
	Prog("echo1", func(s sh) int { return s.wfail(s.write(1, strings.Join(s.p.Argv[1:], " ")+"\n")) })

	// append-line FILE LINE: appends to a file.
	Prog("append-line", func(s sh) int {
		fd := s.open(s.arg(1), syscall.O_WRONLY|syscall.O_APPEND|syscall.O_CREAT)
		if fd < 0 {
			return 1
		}

		return s.wfail(s.write(fd, s.arg(2)+"\n"))
	})

	// eecho: to standard error.
	Prog("eecho", func(s sh) int { return s.wfail(s.frag(2, strings.Join(s.p.Argv[1:], " ")+"\n")) })

	Prog("cat", func(s sh) int {
		copyAll := func(fd int) int {
			for {
				d, e := s.read(fd, 4096)
				if e != 0 {
					s.log("stub-error", "cat: read: %v", e)

					return 1
				}
				if d == "" {
					return 0
				}
				if e := s.frag(1, d); e != 0 {
					return s.wfail(e)
				}
			}
		}

		if len(s.p.Argv) < 2 {
			return copyAll(0)
		}

		rc := 0
		for _, f := range s.p.Argv[1:] {
			fd := s.open(f, syscall.O_RDONLY)
			if fd < 0 {
				rc = 1
				continue
			}
			if copyAll(fd) != 0 {
				rc = 1
			}
			s.p.Close(fd)
		}

		return rc
	})

	// emit TAG BYTES [FD]: pattern bytes.
	Prog("emit", func(s sh) int { return s.wfail(s.frag(s.num(3, 1), Pattern(s.arg(1), s.num(2, 0)))) })

	// lines TAG N [MS]: N lines.
	Prog("lines", func(s sh) int {
		for i := 0; i < s.num(2, 0); i++ {
			if ms := s.num(3, 0); ms > 0 {
				rt.Sleep(int64(ms) * 1000000)
			}
			if e := s.frag(1, fmt.Sprintf("%s-%d\n", s.arg(1), i)); e != 0 {
				return s.wfail(e)
			}
		}

		return 0
	})

	// msgs TAG N [MS]: writes each line with a single write.
	Prog("msgs", func(s sh) int {
		for i := 0; i < s.num(2, 0); i++ {
			if ms := s.num(3, 0); ms > 0 {
				rt.Sleep(int64(ms) * 1000000)
			}
			if e := s.write(1, fmt.Sprintf("%s-%d\n", s.arg(1), i)); e != 0 {
				return s.wfail(e)
			}
		}

		return 0
	})

	// sink NAME [CODE]: consumes everything.
	Prog("sink", func(s sh) int {
		r := &SinkRec{}
		Sinks[s.arg(1)] = r

		for {
			d, e := s.read(0, 4096)
			if e != 0 {
				r.Err = e.Error()

				break
			}
			if d == "" {
				r.EOF = true
				s.log("sink-eof", "%s", s.arg(1))

				break
			}
			r.Data += d
			if rt.Choose("stub-slow", 2, 0.05) == 1 {
				rt.Sleep(1000000)
			}
		}

		return s.num(2, 0)
	})

	// head N: the first N bytes, then exits.
	Prog("head", func(s sh) int {
		n := s.num(1, 1)
		for n > 0 {
			d, e := s.read(0, n)
			if e != 0 || d == "" {
				break
			}
			n -= len(d)
			if e := s.write(1, d); e != 0 {
				return s.wfail(e)
			}
		}

		return s.num(2, 0)
	})

	// spew TAG: writes until told to stop (write error or SIGPIPE).
	Prog("spew", func(s sh) int {
		for i := 0; i < 1<<20; i++ {
			if e := s.write(1, Pattern(s.arg(1), 64)); e != 0 {
				return s.num(2, 1)
			}
		}

		return 99
	})

	// sleep MS.
	Prog("sleep", func(s sh) int {
		rt.Sleep(int64(s.num(1, 1)) * 1000000)

		return s.num(2, 0)
	})

	// nap CODE MS: is stopped, and continued by somebody else after MS.
	Prog("nap", func(s sh) int {
		p := s.p
		rt.After(int64(s.num(2, 1))*1000000, func() { p.Signal(syscall.SIGCONT) })
		p.Signal(syscall.SIGSTOP)
		s.check()

		return s.num(1, 0)
	})

	// deaf TAG MS [CODE]: ignores the interrupt.
	Prog("deaf", func(s sh) int {
		s.p.Disp[int(syscall.SIGINT)] = kern.SigIgn
		s.log("deaf-start", "%s", s.arg(1))
		rt.Sleep(int64(s.num(2, 1)) * 1000000)
		s.check()
		s.log("deaf-end", "%s", s.arg(1))

		return s.num(3, 0)
	})

	// tick TAG N MS [CODE]: N logged steps.
	Prog("tick", func(s sh) int {
		s.log("tick-start", "%s", s.arg(1))
		for i := 0; i < s.num(2, 1); i++ {
			rt.Sleep(int64(s.num(3, 1)) * 1000000)
			s.check()
			s.log("tick", "%s %d", s.arg(1), i)
		}
		s.log("tick-end", "%s", s.arg(1))

		return s.num(4, 0)
	})

	// hold TAG: runs until killed.
	Prog("hold", func(s sh) int {
		s.log("hold", "%s", s.arg(1))
		for i := 0; ; i++ {
			rt.Sleep(50000000)
			s.check()
			if i > 100000 {
				return 0
			}
		}
	})

	// tread TAG: reads a line from the terminal and logs it.
	Prog("tread", func(s sh) int {
		Treads(s.arg(1))
		d, e := "", syscall.Errno(0)
		for !strings.HasSuffix(d, "\n") {
			c := ""
			c, e = s.read(0, 1)
			if c == "" {
				break
			}
			d += c
		}
		s.log("tread", "%s %q %v", s.arg(1), d, e == 0)

		return 0
	})

	// args NAME ...: records everything it was given.
	Prog("args", func(s sh) int {
		d := &Dump{Name: s.arg(1), Argv: append([]string{}, s.p.Argv...), Env: append([]string{}, s.p.Env...),
			Cwd: s.p.Cwd, PID: s.p.PID, PGID: s.p.PGID, Fds: map[int]string{}, Proc: s.p}
		for fd, o := range s.p.Fds {
			d.Fds[fd] = o.Path
		}
		Dumps = append(Dumps, d)
		s.log("args", "%q", s.p.Argv)

		if e := s.write(1, "out:"+s.arg(1)+"\n"); e != 0 {
			return 1
		}
		if e := s.write(2, "err:"+s.arg(1)+"\n"); e != 0 {
			return 1
		}

		return 0
	})

	Prog("hostname", func(s sh) int { return s.wfail(s.write(1, "simhost\n")) })

	Prog("ls", func(s sh) int {
		dir := "."
		for _, a := range s.p.Argv[1:] {
			if strings.HasPrefix(a, "--color") {
				return 1 // Not supported: keeps the default definition of ls.
			}
			dir = a
		}

		i, e := s.p.Stat(dir, true)
		if e != 0 {
			return 2
		}
		for _, n := range i.Names() {
			if !strings.HasPrefix(n, ".") {
				s.write(1, n+"\n")
			}
		}

		return 0
	})

	Prog("rm", func(s sh) int {
		rc := 0
		for _, a := range s.p.Argv[1:] {
			if strings.HasPrefix(a, "-") {
				continue
			}
			if e := s.p.Unlink(a, false); e != 0 {
				s.log("stub-error", "rm %s: %v", a, e)
				rc = 1
			}
		}

		return rc
	})

	Prog("touch", func(s sh) int {
		for _, a := range s.p.Argv[1:] {
			if fd := s.open(a, syscall.O_WRONLY|syscall.O_CREAT); fd >= 0 {
				s.p.Close(fd)
			}
		}

		return 0
	})

	Prog("mkdir", func(s sh) int {
		for _, a := range s.p.Argv[1:] {
			s.p.Mkdir(a, 0o755)
		}

		return 0
	})

	Prog("mv", func(s sh) int { return b2i(s.p.Rename(s.arg(1), s.arg(2)) != 0) })

	// excl FILE TEXT: creates a file exclusively (another program racing with the shell).
	Prog("excl", func(s sh) int {
		fd := s.open(s.arg(1), syscall.O_WRONLY|syscall.O_CREAT|syscall.O_EXCL)
		if fd < 0 {
			return 1
		}
		s.log("excl-won", "%s", s.arg(1))
		e := s.frag(fd, s.arg(2)+"\n")
		s.p.Close(fd)

		return s.wfail(e)
	})

	Prog("bc", func(s sh) int {
		in, _ := s.all(0)
		l := strings.Split(strings.TrimSpace(in), "\n")
		x := strings.Fields(strings.ReplaceAll(l[len(l)-1], "+", " + "))
		if len(x) == 3 && x[1] == "+" {
			a, _ := strconv.Atoi(x[0])
			b, _ := strconv.Atoi(x[2])

			return s.wfail(s.write(1, fmt.Sprintln(a+b)))
		}

		return s.wfail(s.write(1, "0\n"))
	})

	// bash: the completion helper. Offers the programs and a few words.
	Prog("bash", func(s sh) int {
		if BashHook != nil {
			return BashHook(s)
		}

		s.write(1, "_minimal\n")

		return 0
	})
}

// BashHook replaces the completion helper.
var BashHook func(s sh) int

func b2i(b bool) int {
	if b {
		return 1
	}

	return 0
}

// check lets a signal take effect.
func (s sh) check() { s.p.Enter(); s.p.CheckAlive() }

// SortedEnv sorts a copy.
func SortedEnv(e []string) []string {
	c := append([]string{}, e...)
	sort.Strings(c)

	return c
}

var _ = path.Base
