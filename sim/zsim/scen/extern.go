//go:build go1.22

package scen

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"zsim/kern"
)

// mscope models a scope and the names exported from it.
type mscope struct {
	vars map[string]string
	up   *mscope
	task int // The task it belongs to.
}

func newScope(up *mscope, task int) *mscope {
	return &mscope{vars: map[string]string{}, up: up, task: task}
}

// mframe is a chain of scopes and the frame of the caller.
type mframe struct {
	s    *mscope
	prev *mframe
}

func (f *mframe) find(n string) *mscope {
	for ; f != nil; f = f.prev {
		for s := f.s; s != nil; s = s.up {
			if _, ok := s.vars[n]; ok {
				return s
			}
		}
	}

	return nil
}

func (f *mframe) get(n string) (string, bool) {
	s := f.find(n)
	if s == nil {
		return "", false
	}

	return s.vars[n], true
}

// call is one expected invocation of the args program.
type call struct {
	name   string
	argv   []string
	env    map[string]string
	cwd    string
	in     string // Path of standard input.
	out    string // Path of standard output, "" if the shell's.
	errOut bool   // Standard error, too.
	piped  bool
}

type externGen struct {
	g     *Gen
	n     int
	calls []call
	files map[string]bool
	base  *mscope // What the shell inherited.
	left  int
}

var (
	externVars = []string{"EA", "EB", "EC", "ED"}
	externDirs = []string{"/home/u", "/home/u/d1", "/home/u/d2", "/home/u/d1/sub", "/tmp"}
)

// word makes an argument and its value.
func (x *externGen) word(f *mframe) (string, []string) {
	g := x.g
	switch g.N(11) {
	case 0, 1:
		w := g.Pick("a", "b-c", "-x", "5", "0.5", "foo/bar", "a.b", "@x", "%", "+1")

		return w, []string{w}
	case 2:
		s := g.Pick("", "a b", "  lead", "trail ", "$EA", "*", "~", "[x]", "a\"b", "`cmd`", "(x)", "#", "é漢", "a\\nb", "&|;<>", "{}", ":")

		return "'" + s + "'", []string{s}
	case 3:
		p := [][2]string{{"a\\nb", "a\nb"}, {"\\t", "\t"}, {"q\\'q", "q'q"}, {"b\\\\s", "b\\s"}}[g.N(4)]

		return "$'" + p[0] + "'", []string{p[1]}
	case 4, 5:
		v := externVars[g.N(len(externVars))]
		if s, ok := f.get(v); ok {
			if g.P(50) {
				return "$" + v, []string{s}
			}

			return "\"<${" + v + "}>\"", []string{"<" + s + ">"}
		}

		return "plain", []string{"plain"}
	case 6:
		return "(splice (list s1 's 2' 3))", []string{"s1", "s 2", "3"}
	case 7:
		return "(number 7)", []string{"7"}
	case 8:
		d, _ := f.get("PWD")
		if d == "/home/u/d2" {
			return "*.g", []string{"one.g", "three.g", "two.g"}
		}

		return "/home/u/d2/*.g", []string{"/home/u/d2/one.g", "/home/u/d2/three.g", "/home/u/d2/two.g"}
	case 9:
		return "~/x", []string{"/home/u/x"}
	default:
		return "(add 1 2)", []string{"3"}
	}
}

func (x *externGen) value() (string, string) {
	g := x.g
	x.n++
	switch g.N(5) {
	case 0:
		return fmt.Sprintf("'v %d'", x.n), fmt.Sprintf("v %d", x.n)
	case 1:
		return fmt.Sprintf("'=%d='", x.n), fmt.Sprintf("=%d=", x.n)
	case 2:
		if g.P(30) {
			return "''", ""
		}
	case 3:
		return fmt.Sprintf("'é%d'", x.n), fmt.Sprintf("é%d", x.n)
	}

	return fmt.Sprintf("v%d", x.n), fmt.Sprintf("v%d", x.n)
}

func (x *externGen) env(f *mframe) map[string]string {
	m := map[string]string{}
	for _, v := range externVars {
		if s, ok := f.get(v); ok {
			m[v] = s
		}
	}

	return m
}

// run is a command line running the args program.
func (x *externGen) run(f *mframe, in, out string, errOut bool, l *[]string, ind string) {
	g := x.g
	x.n++
	c := call{name: fmt.Sprintf("r%d", x.n), in: in, out: out, errOut: errOut}
	pre := ""
	if g.P(15) {
		e, v := x.value()
		n := externVars[g.N(len(externVars))]
		pre = n + "=" + e + " "
		s := newScope(f.s, f.s.task)
		s.vars[n] = v
		f = &mframe{s, f.prev}
	}
	text := pre + "args " + c.name
	c.argv = []string{"args", c.name}
	for i := g.N(5); i > 0; i-- {
		e, v := x.word(f)
		text += " " + e
		c.argv = append(c.argv, v...)
	}
	pwd, _ := f.get("PWD")
	c.cwd = path.Clean(pwd)
	c.env = x.env(f)

	switch g.N(8) {
	case 0:
		file := fmt.Sprintf("o%d", x.n)
		text += " >| " + file
		c.out = path.Join(c.cwd, file)
	case 1:
		file := fmt.Sprintf("o%d", x.n)
		text += " >&| " + file
		c.out = path.Join(c.cwd, file)
		c.errOut = true
	case 2:
		text += " < in"
		c.in = path.Join(c.cwd, "in")
	case 3:
		text += " | cat"
		c.piped = true
	}
	x.calls = append(x.calls, c)
	*l = append(*l, ind+text)
}

// stmts writes statements and evaluates them in the model.
func (x *externGen) stmts(f *mframe, in, out string, errOut bool, depth int, l *[]string, ind string) {
	g := x.g
	for i := g.R(1, 5); i > 0; i-- {
		switch g.N(9) {
		case 0, 1:
			e, v := x.value()
			n := externVars[g.N(len(externVars))]
			*l = append(*l, ind+"export "+n+" "+e)
			f.s.vars[n] = v
		case 2:
			n := externVars[g.N(len(externVars))]
			s := f.find(n)
			if s != nil && s.task == f.s.task {
				e, v := x.value()
				*l = append(*l, ind+"set "+n+" "+e)
				s.vars[n] = v
			}
		case 3:
			d := externDirs[g.N(len(externDirs))]
			pwd, _ := f.get("PWD")
			text := d
			if g.P(40) && strings.HasPrefix(d, pwd+"/") {
				text = d[len(pwd)+1:]
			} else if g.P(20) {
				text = ".."
				d = path.Dir(pwd)
				if d == "/" {
					text, d = "/home/u", "/home/u"
				} else if d == "/home" {
					text, d = "/home/u/d1", "/home/u/d1"
				}
			}
			*l = append(*l, ind+"cd "+text)
			f.s.vars["OLDPWD"] = pwd
			f.s.vars["PWD"] = d
		case 4:
			if depth < 2 {
				*l = append(*l, ind+"block {")
				x.stmts(&mframe{newScope(f.s, f.s.task), f.prev}, in, out, errOut, depth+1, l, ind+"  ")
				*l = append(*l, ind+"}")
			}
		case 5:
			if depth < 2 && !errOut && out == "" {
				x.n++
				pwd, _ := f.get("PWD")
				file := fmt.Sprintf("b%d", x.n)
				*l = append(*l, ind+"block {")
				x.stmts(&mframe{newScope(f.s, f.s.task), f.prev}, in, path.Join(pwd, file), false, depth+1, l, ind+"  ")
				*l = append(*l, ind+"} >| "+file)
			}
		case 6:
			if depth < 2 {
				// A method: its own scope and frame.
				x.n++
				m := fmt.Sprintf("m%d", x.n)
				body := []string{}
				x.stmts(&mframe{newScope(f.s, f.s.task), f}, in, out, errOut, depth+1, &body, ind+"  ")
				*l = append(*l, ind+"define "+m+": method () {")
				*l = append(*l, body...)
				*l = append(*l, ind+"}", ind+m)
			}
		default:
			x.run(f, in, out, errOut, l, ind)
		}
	}
}

func init() {
	Registry["C10"] = func(g *Gen) *Scenario { return externMany(g) }
}

func externMany(g *Gen) *Scenario {
	s := &Scenario{Family: "commands", Race: true, Fault: benign(g)}
	x := &externGen{g: g, base: newScope(nil, -1)}
	x.base.vars["PWD"] = "/home/u"
	x.base.vars["HOME"] = "/home/u"
	s.Env = []string{"EA=inherited a", "EB=b=c"}
	x.base.vars["EA"] = "inherited a"
	x.base.vars["EB"] = "b=c"
	s.Setup = func() {
		for _, d := range append([]string{"/home"}, externDirs...) {
			kern.K.Mkdirs(d)
			kern.K.Put(d+"/in", kern.Reg, 0o644, d)
		}
		for _, n := range []string{"one.g", "two.g", "three.g", "x.h"} {
			kern.K.Put("/home/u/d2/"+n, kern.Reg, 0o644, "")
		}
	}
	root := newScope(nil, -1)
	rf := &mframe{root, &mframe{s: x.base}}
	for i := g.N(3); i > 0; i-- {
		e, v := x.value()
		n := externVars[g.N(len(externVars))]
		s.Script = append(s.Script, "export "+n+" "+e)
		root.vars[n] = v
	}
	if g.P(30) {
		s.Script = append(s.Script, "cd d1")
		root.vars["OLDPWD"] = "/home/u"
		root.vars["PWD"] = "/home/u/d1"
	}
	ts := []string{}
	tasks := g.R(1, 4)
	for i := 1; i <= tasks; i++ {
		l := []string{}
		x.stmts(&mframe{newScope(root, i), rf.prev}, "", "", false, 0, &l, "  ")
		s.Script = append(s.Script, fmt.Sprintf("define t%d: spawn {", i))
		s.Script = append(s.Script, l...)
		s.Script = append(s.Script, "}")
		ts = append(ts, fmt.Sprintf("$t%d", i))
	}
	if g.P(50) {
		// The root goes on in a scope of its own.
		s.Script = append(s.Script, "block {")
		x.stmts(&mframe{newScope(root, 0), rf.prev}, "", "", false, 0, &s.Script, "  ")
		s.Script = append(s.Script, "}")
	}
	s.Script = append(s.Script, "wait "+strings.Join(ts, " "), "exit 7")
	s.Check = func(r *Run) {
		r.WantExit(7)
		out, errs := Out.Text(), Err.Text()
		byName := map[string][]*Dump{}
		for _, d := range Dumps {
			byName[d.Name] = append(byName[d.Name], d)
		}
		for _, c := range x.calls {
			d := byName[c.name]
			if len(d) != 1 {
				r.Fail("once", "%s ran %d times; stderr: %s", c.name, len(d), clip(errs, 500))

				return
			}
			x.check(r, c, d[0], out, errs)
		}
	}

	return s
}

func (x *externGen) check(r *Run, c call, d *Dump, out, errs string) {
	if fmt.Sprintf("%q", d.Argv) != fmt.Sprintf("%q", c.argv) {
		r.Fail("argv", "%s got the arguments %q, wanted %q", c.name, d.Argv, c.argv)
	}
	if d.Cwd != c.cwd {
		r.Fail("cwd", "%s ran in %s, not in %s", c.name, d.Cwd, c.cwd)
	}
	env := map[string]string{}
	for _, kv := range d.Env {
		p := strings.SplitN(kv, "=", 2)
		if _, dup := env[p[0]]; dup {
			r.Fail("env", "%s: %s is twice in the environment", c.name, p[0])
		}
		env[p[0]] = p[1]
	}
	for _, n := range externVars {
		v, ok := c.env[n]
		got, has := env[n]
		if ok != has || v != got {
			r.Fail("env", "%s: %s is %q (present %v), wanted %q (%v)", c.name, n, got, has, v, ok)
		}
	}
	if env["PWD"] != c.cwd || env["HOME"] != "/home/u" || env["PATH"] != "/bin" || env["USER"] != "u" {
		r.Fail("env", "%s: PWD=%q HOME=%q PATH=%q USER=%q", c.name, env["PWD"], env["HOME"], env["PATH"], env["USER"])
	}
	fds := []int{}
	for fd := range d.Fds {
		fds = append(fds, fd)
	}
	sort.Ints(fds)
	if fmt.Sprint(fds) != "[0 1 2]" {
		r.Fail("fds", "%s was given the descriptors %v", c.name, fds)
	}
	if in := d.Fds[0]; c.in != "" && in != c.in || c.in == "" && in != "stdin" {
		r.Fail("stdin", "%s read from %s, wanted %q", c.name, in, c.in)
	}
	o, e := "out:"+c.name+"\n", "err:"+c.name+"\n"
	data, _ := r.K.Read(c.out)
	if c.out == "" {
		if strings.Count(out, o) != 1 {
			r.Fail("stdout", "the output of %s is %d times in standard output", c.name, strings.Count(out, o))
		}
	} else {
		if strings.Count(data, o) != 1 {
			r.Fail("stdout", "the output of %s is %d times in %s", c.name, strings.Count(data, o), c.out)
		}
		if strings.Count(out, o) != 0 {
			r.Fail("stdout", "the output of %s is also in standard output", c.name)
		}
	}
	if c.errOut {
		if strings.Count(data, e) != 1 || strings.Count(errs, e) != 0 {
			r.Fail("stderr", "the errors of %s are not only in %s", c.name, c.out)
		}
	} else if strings.Count(errs, e) != 1 {
		r.Fail("stderr", "the errors of %s are %d times in standard error", c.name, strings.Count(errs, e))
	}
}
