//go:build go1.22

package scen

import (
	"fmt"
	"path"
	"regexp"
	"strings"
	"syscall"

	"zsim/kern"
	"zsim/rt"
)

func init() {
	Registry["C22"] = func(g *Gen) *Scenario { return completion(g) }
}

type comp struct {
	key     int
	word    string
	arg     bool // The word is an argument of a simple command.
	steady  bool // No faults, and nothing changes.
	helper  int
	from    int64 // When it began, and
	to      int64 // when it ended.
	line    string
	head    string
	cs      []string
	tail    string
	helped  map[string]bool
	argv    []string
	matches map[string]bool // What has to be offered.
	faults  int
}

// where the word is looked up.
func wordPath(cwd, word string) string {
	switch {
	case strings.HasPrefix(word, "~/"):
		return "/home/u" + word[1:]
	case strings.HasPrefix(word, "/"):
		return word
	default:
		return cwd + "/" + word
	}
}

func completion(g *Gen) *Scenario {
	s := &Scenario{Family: "completion", Tty: true, FairAt: 30000000, MaxSteps: 90000000, RC: userRC(g)}
	ever := map[string]bool{} // Every path there has been.
	cwd := "/home/u"
	s.Setup = func() {
		for _, f := range []string{"file1", "file2", "fun/a", "fun/b", "fun/deep/x/y", "solo", ".hidden", "dir/file3", "dir/sub/file4", "dir/.dot", "x=y", "with-dash", "a.b"} {
			kern.K.Put("/home/u/"+f, kern.Reg, 0o644, "")
		}
		for _, f := range []string{"/data/one", "/data/a/two", "/data/a/b/three", "/data/a/b/c/four"} {
			kern.K.Put(f, kern.Reg, 0o755, "")
		}
		kern.K.Put("/home/u/lshallow", kern.Link, 0o777, "/data")
		kern.K.Put("/home/u/ldeep", kern.Link, 0o777, "/data/a/b/c")
		kern.K.Put("/home/u/lnone", kern.Link, 0o777, "/nosuch")
		kern.K.Put("/home/u/lloop", kern.Link, 0o777, "/home/u/lloop")
	}

	comps := []*comp{}
	cur := -1
	prefixes := []string{
		"", "", "debug ev W ", "debug ev W ", "debug ev W ", "debug ev W a ", "debug ev W $x ", "debug ev W (debug ev side) ", "debug ev W `(debug ev side) ",
		"debug ev W $(debug ev side) ", "debug ev W 'a b' ", "debug ev W 'a ", "debug ev W \"a $x\" ", "debug ev W \"a ", "nosuch | ", "true && ", "(", "debug ev (", "debug ev W # ",
		"y = ", "y=5 ", "debug ev W > ", "debug ev W >", "ls ", "ls * ", "ls -", "debug ev W {", "debug ev W (list a b) ", ")", "debug ev )", "debug ev W $", "debug ev W &", "debug ev W |", "debug ev W $nosuch ",
		"define z 5; ", "debug ev W; ", "debug ev W \\", "debug ev W a: ", "debug ev W (| 5 |) ", "nosuch-command ", "cat <", "throw (debug ev side) ", "debug ev W (block { debug ev side }) ", "exit ", "debug ev W (exit 3) ", "define q: debug ev side ",
	}
	words := []string{"", "", "f", "fi", "file1", "fu", "fun/", "fun/d", "dir", "dir/", "dir/s", "dir/sub/", "so", "solo", "./f", "../u/f", "~/f", "/home/u/f", "/home/u/", "/da", "/", "nosuch/", "nosuch", "lsh", "lshallow/", "ldeep/", "ldeep/f", "lnone/", "lloop/", ".h", ".", "..", "c", "ch", "w", "x=", "a.", "dir//", "//", "~", "*", "'f", "\"f", "fun/../f", "a:", "tr", "-"}
	line := 0
	key := func(wait, text string, do func()) {
		s.Keys = append(s.Keys, Key{Wait: wait, Type: text, Label: fmt.Sprintf("key %d", len(s.Keys)), Do: do})
	}
	entered := []string{}
	key("quiet", "define x hello\n", nil)
	if d := g.Pick("", "", "", "", "/data", "/home/u/dir", "/", "/home/u/ldeep"); d != "" {
		key("quiet", "cd "+d+"\n", nil)
		cwd = d
	}
	key("quiet", "false\n", nil)
	n := g.R(1, 7)
	fault := g.P(45)
	for k := 0; k < n; k++ {
		p := strings.ReplaceAll(prefixes[g.N(len(prefixes))], "W", fmt.Sprintf("u-%d", k))
		w := words[g.N(len(words))]
		if g.P(8) {
			p, w = "", soup(g)
		}
		open := g.P(30)
		simple := strings.HasPrefix(p, "debug ev u") && (strings.HasSuffix(p, fmt.Sprintf("-%d ", k)) || strings.HasSuffix(p, " a "))
		ins := open && simple && g.P(25)
		if ins {
			// Within a string of several lines.
			key("quiet", fmt.Sprintf("debug ev str-%d 'one\n", k), nil)
		} else if open {
			// Within a command of several lines.
			key("quiet", "block {\n", nil)
			if g.P(50) {
				key("quiet", fmt.Sprintf("debug ev pre-%d\n", k), nil)
			}
		}
		tabs := g.R(1, 3)
		text := p + w
		key("quiet", text, nil)
		for t := 0; t < tabs; t++ {
			c := &comp{key: len(s.Keys), word: w, steady: true, helper: g.N(16), helped: map[string]bool{}}
			if t == 0 && !ins {
				c.arg = strings.HasPrefix(p, "debug ev u") && strings.HasSuffix(p, " ") && !strings.ContainsAny(p, "#>|&{:\\;'\"")
			}
			comps = append(comps, c)
			muts := []func(){}
			if g.P(40) {
				c.steady = false
				for i := g.R(1, 6); i > 0; i-- {
					at := g.R(0, 15)
					at = 1<<at + g.N(1<<at)
					f := g.Pick("/home/u/churn1", "/home/u/churn2", "/home/u/dir/churn3", "/home/u/churnd/f", "/home/u/file2", "/home/u/fun/a", "/data/one", "/bin/newcmd", "/data/a/b/c/churn4")
					rm := g.P(50)
					muts = append(muts, func() {
						rt.AtStep(int64(at), func() {
							if _, e := kern.K.Lookup("/", path.Dir(f), true); e != 0 && !rm {
								kern.K.Mkdirs(path.Dir(f))
								ever[path.Dir(f)] = true
							}
							if rm {
								kern.K.Remove(f)
								kern.K.Log("world", 0, "remove "+f)
							} else {
								kern.K.Put(f, kern.Reg, 0o755, "")
								ever[f] = true
								kern.K.Log("world", 0, "create "+f)
							}
						})
					})
				}
			}
			key(g.Pick("quiet", "quiet", "steps"), "\t", func() {
				for _, m := range muts {
					m()
				}
			})
		}
		ev := fmt.Sprintf("debug ev alive-%d $x $?", k)
		if g.P(40) || !strings.HasPrefix(p, "debug ev") || strings.ContainsAny(p, "|&;<") || strings.Contains(p, "(exit 3)") {
			key("quiet", "\x03", nil)
		} else {
			// Enter it, whatever it is.
			key("quiet", "\n", nil)
			if ins {
				key("quiet", "'\n", nil)
			} else if open && simple {
				key("quiet", g.Pick("", "\n", fmt.Sprintf("debug ev post-%d\n", k))+"}\n", nil)
			}
			key("quiet", "\x03", nil)
			key("quiet", "false\n", nil)
		}
		key("quiet", ev+"\n", nil)
		entered = append(entered, fmt.Sprintf("alive-%d", k))
		key("quiet", "false\n", nil)
		line++
	}
	key("quiet", "\x04", nil)

	if fault {
		s.Fault = map[string]float64{}
		for _, f := range []string{"open-emfile", "open-eio", "read-eio", "stat-eio", "pipe-emfile", "fork-eagain", "exec-enomem", "close-eio", "short-read"} {
			if g.P(40) {
				s.Fault[f] = []float64{0.01, 0.05, 0.3}[g.N(3)]
			}
		}
	} else {
		s.Fault = map[string]float64{}
	}
	s.FaultGo = "never"

	fs := func() map[string]bool {
		m := map[string]bool{}
		var walk func(dir string, depth int)
		walk = func(dir string, depth int) {
			for _, f := range kern.K.List(dir) {
				p := path.Join(dir, f)
				m[p] = true
				if depth < 6 {
					walk(p, depth+1)
				}
			}
		}
		walk("/", 0)

		return m
	}
	BashHook = func(s sh) int {
		var c *comp
		if cur >= 0 && comps[cur].to == 0 {
			c = comps[cur]
		} else {
			return 1
		}
		c.argv = append([]string(nil), s.p.Argv...)
		w := s.p.Argv[len(s.p.Argv)-1]
		out := func(l string) {
			c.helped[l] = true
			s.frag(1, l+"\n")
		}
		switch c.helper {
		case 0:
			return 1
		case 1:
			s.p.Signal(syscall.SIGKILL)
			s.check()
		case 2:
			s.write(1, "\xff\xfe((")
			return 0
		case 3:
			// Not what is expected of it.
			s.write(1, "some warning\nand\n")
			for _, l := range []string{"and", "_command", "_filedir_xspec"} {
				c.helped[l] = true
			}
		case 4:
			rt.Sleep(int64(3e9))
		case 5:
			s.write(1, "_many\n")
			for i := 0; i < 300; i++ {
				out(fmt.Sprintf("%s-%d", w, i))
			}
			return 0
		case 6:
			s.write(1, "_foo\n")
			out(w + "opt1")
			rt.Sleep(1000000)
			out(w + "opt2")
			s.p.Signal(syscall.SIGTERM)
			s.check()
		case 7:
			for i := range s.p.Fds {
				s.p.Close(i)
			}
			rt.Sleep(2000)
			return 0
		case 8:
			s.write(1, "_foo\n")
			out(w + "opt")
			return 3
		case 9:
			s.write(1, "_minimal\n"+w+"zzz\n")
			c.helped[w+"zzz"] = true
			return 0
		}
		if len(s.p.Argv) == 5 {
			s.write(1, "_command\n")
			for _, n := range kern.K.List("/bin") {
				if strings.HasPrefix(n, w) {
					out(n)
				}
			}

			return 0
		}
		s.write(1, "_filedir_xspec\n")

		return 0
	}
	OnCompleting = func(l string, pos int) {
		cur++
		c := comps[cur]
		c.from = rt.Steps
		c.line = l
		c.faults = kern.K.FaultN
		for f := range fs() {
			ever[f] = true
		}
		kern.K.FaultsOn = fault
	}
	viol := ""
	OnComplete = func(l, h string, cs []string, t string) {
		kern.K.FaultsOn = false
		c := comps[cur]
		c.to = rt.Steps
		c.head, c.cs, c.tail = h, cs, t
		c.faults = kern.K.FaultN - c.faults
		for f := range fs() {
			ever[f] = true
		}
		bad := func(format string, a ...any) {
			if viol == "" {
				viol = fmt.Sprintf("completing %q: ", l) + fmt.Sprintf(format, a...)
			}
		}
		if !strings.HasPrefix(l, h) || !strings.HasSuffix(l, t) || len(h)+len(t) > len(l) {
			bad("the line became head %q and tail %q", h, t)

			return
		}
		word := l[len(h) : len(l)-len(t)]
		exist := map[string]bool{}
		for _, cand := range cs {
			if !strings.HasPrefix(cand, word) {
				bad("%q does not extend %q", cand, word)
			}
			exist[cand] = true
			if cand == word || word == "" && (strings.TrimLeft(cand, " &<>(|") == "" || cand == "'") || c.helped[cand] {
				continue
			}
			p := path.Clean(wordPath(cwd, cand))
			ok := ever[p]
			if i, e := kern.K.Lookup("/", p, true); e == 0 {
				ok = true
				if strings.HasSuffix(cand, "/") && i.Kind != kern.Dir && c.steady {
					ok = false
				}
			} else if _, e := kern.K.Lookup("/", p, false); e == 0 {
				ok = true
			} else if d, e := realDir(path.Dir(p)); e {
				ok = ok || ever[path.Join(d, path.Base(p))]
			}
			if !ok {
				bad("the candidate %q does not exist", cand)
			}
		}
		if !c.arg || !c.steady || c.faults > 0 || word != c.word || len(comps) > cur+1 && false {
			return
		}
		if strings.ContainsAny(word, "'\"*~") || strings.HasSuffix(word, ".") || strings.Contains(word, "//") || word == "-" {
			return
		}
		dir, base := path.Split(wordPath(cwd, word))
		i, e := kern.K.Lookup("/", path.Clean(dir), true)
		if e != 0 || i.Kind != kern.Dir {
			return
		}
		for _, name := range i.Names() {
			if !strings.HasPrefix(name, base) || base == "" && name[0] == '.' {
				continue
			}
			if cand := word + name[len(base):]; !exist[cand] && !exist[cand+"/"] {
				bad("%q is not offered (%q)", cand, clip(fmt.Sprintf("%q", cs), 300))
			}
		}
	}
	s.Check = func(r *Run) {
		r.WantExit(0)
		if viol != "" {
			r.Fail("candidates", "%s", viol)
		}
		for _, c := range comps {
			if c.from == 0 {
				r.Fail("completed", "the key %d did not ask for completion", c.key)

				return
			}
			if c.to == 0 {
				continue
			}
			for _, e := range r.K.Events {
				if e.Step < c.from || e.Step > c.to {
					continue
				}
				if e.Kind == "ev" || e.Kind == "exec" && !strings.HasPrefix(e.Text, "bash") {
					r.Fail("side-effect", "completing %q executed %s %s", c.line, e.Kind, e.Text)
				}
			}
			if len(c.argv) > 0 && c.to > 0 {
				word := c.line[len(c.head) : len(c.line)-len(c.tail)]
				if last := c.argv[len(c.argv)-1]; last != word {
					r.Fail("helper", "completing %q the helper was asked about %q, not %q", c.line, last, word)
				}
			}
		}
		checkLines(r)
		for _, e := range entered {
			t, c, _ := evText(r, e)
			if c != 1 || t != "hello (|status 1|)" {
				r.Fail("after", "the command after completion printed %q (%d times)", t, c)
			}
		}
	}

	return s
}

func realDir(d string) (string, bool) {
	for i := 0; i < 8; i++ {
		n, e := kern.K.Lookup("/", d, false)
		if e != 0 {
			return d, false
		}
		if n.Kind != kern.Link {
			return d, true
		}
		d = n.Text()
	}

	return d, false
}

var plainLine = regexp.MustCompile(`^debug ev (u-[0-9]+( [A-Za-z0-9/.-]+)*) *$`)

// checkLines checks that the lines the shell was given, once words of them had
// been completed, were evaluated as what they say.
func checkLines(r *Run) {
	var block []string
	str, in := "", false
	want := []string{}
	for _, e := range r.K.Events {
		m := plainLine.FindStringSubmatch(e.Text)
		switch {
		case e.Kind == "line-abort":
			block, in = nil, false
		case e.Kind != "line":
		case in && e.Text == "'":
			h, t, _ := strings.Cut(str, " '")
			want = append(want, h+" $'"+strings.ReplaceAll(t, "\n", "\\n")+"\\n'")
			in = false
		case in:
			if strings.ContainsAny(e.Text, "'\\") {
				in = false
			}
			str += "\n" + e.Text
		case strings.HasPrefix(e.Text, "debug ev str-"):
			str, in = strings.TrimPrefix(e.Text, "debug ev "), true
		case e.Text == "block {":
			block = []string{}
		case block != nil && e.Text == "}":
			want = append(want, block...)
			block = nil
		case block != nil && e.Text == "":
		case block != nil && (strings.HasPrefix(e.Text, "debug ev pre-") || strings.HasPrefix(e.Text, "debug ev post-")):
			block = append(block, strings.TrimPrefix(e.Text, "debug ev "))
		case block != nil && m != nil:
			block = append(block, strings.Join(strings.Fields(m[1]), " "))
		case block != nil:
			block = nil
		case m != nil:
			want = append(want, strings.Join(strings.Fields(m[1]), " "))
		}
	}
	got := []string{}
	for _, e := range r.K.Events {
		if e.Kind == "ev" {
			got = append(got, e.Text)
		}
	}
	i := 0
	for _, w := range want {
		for i < len(got) && got[i] != w {
			i++
		}
		if i == len(got) {
			r.Fail("line", "a line with a completed word should have printed %q, printed was %q", w, got)

			return
		}
		i++
	}
}
