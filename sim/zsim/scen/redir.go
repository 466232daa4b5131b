//go:build go1.22

package scen

import (
	"fmt"
	"strings"

	"zsim/kern"
)

// redirTask is a sequence of redirected commands and what it should do.
type redirTask struct {
	name   string
	script []string
	out    string            // Expected on the surrounding standard output.
	err    string            // Expected on the surrounding standard error.
	files  map[string]string // Current contents of its files.
	snaps  map[string][2]string
	exs    map[string]string // Method -> substring of the exception it raises ("" none).
	never  []string
	reads  map[string]string // Event prefix -> lines expected.
	log    string            // File its surrounding output goes to, or "".
}

// rbody is a command: what it writes to both streams.
func (x *pipeGen) rbody(depth int, f *redirTask, dir string) (text, out, errs, both string) {
	g := x.g
	t := x.tag()

	switch g.N(8) {
	case 0:
		return "echo " + t, t + "\n", "", t + "\n"
	case 1:
		return "write-line " + t, t + "\n", "", t + "\n"
	case 2:
		return "eecho " + t + "e", "", t + "e\n", t + "e\n"
	case 3:
		return "error " + t + "e", "", t + "e\n", t + "e\n"
	case 4:
		s, w := builtinWriter(t, g.R(1, 3), "stdout")

		return s, w, "", w
	case 5:
		n := g.R(0, 9000)

		return fmt.Sprintf("emit %s %d", t, n), Pattern(t, n), "", Pattern(t, n)
	case 6:
		return "block {\necho " + t + "a\n} | cat", t + "a\n", "", t + "a\n"
	default:
		if depth > 0 {
			// A nested redirection to another file.
			a, ao, ae, _ := x.rbody(depth-1, f, dir)
			file := dir + "/nest-" + t
			f.files[file] = ao

			return "echo " + t + "1\n" + a + " > " + file + "\necho " + t + "2", t + "1\n" + t + "2\n", ae, t + "1\n" + ae + t + "2\n"
		}

		return "block {\nwrite-line " + t + "\n}", t + "\n", "", t + "\n"
	}
}

func (x *pipeGen) redirTask(name string, n int, faulty bool) *redirTask {
	g := x.g
	f := &redirTask{name: name, files: map[string]string{}, snaps: map[string][2]string{}, exs: map[string]string{}, reads: map[string]string{}}
	dir := "/home/u/" + name
	kern.K.Mkdirs(dir)

	emit := func(l ...string) { f.script = append(f.script, l...) }
	known := []string{}

	for i := 0; i < n; i++ {
		id := fmt.Sprintf("%s-%d", name, i)
		m := "m" + strings.ReplaceAll(id, "-", "x")
		file := ""
		if len(known) > 0 && g.P(60) {
			file = known[g.N(len(known))]
		} else {
			file = fmt.Sprintf("%s/f%d", dir, i)
			if g.P(30) {
				kern.K.Put(file, kern.Reg, 0o644, "old-"+id+"\n")
				f.files[file] = "old-" + id + "\n"
			}
			known = append(known, file)
		}

		old, exists := f.files[file]
		op := []string{">", ">|", ">>", ">&", ">&|", ">>&", "<", "<"}[g.N(8)]
		arg := file
		if g.P(30) && strings.HasPrefix(file, "/home/u/") {
			arg = strings.TrimPrefix(file, "/home/u/")
		}
		if g.P(10) {
			arg = "~/" + strings.TrimPrefix(file, "/home/u/")
		}

		if g.P(20) {
			x.special(f, id, file, emit)
			continue
		}

		// An impossible redirection.
		if g.P(10) {
			arg = dir + "/none/x"
			emit(caught(m, "block {\ndebug ev never-"+id+"\n} "+op+" "+arg)...)
			emit("debug ev res-" + id + " (" + m + ")")
			f.exs[m] = "none"
			f.never = append(f.never, "never-"+id)

			continue
		}

		if op == "<" {
			if !exists {
				emit(caught(m, "block {\ndebug ev never-"+id+"\n} "+op+" "+arg)...)
				emit("debug ev res-" + id + " (" + m + ")")
				f.exs[m] = "does not exist"
				f.never = append(f.never, "never-"+id)

				continue
			}

			switch g.N(3) {
			case 0:
				emit("cat < " + arg)
				f.out += old
			case 1:
				emit("cp < " + arg)
				f.out += terminated(old)
			default:
				emit("block {\nwhile (define l: read-line) {\ndebug ev rd-" + id + " $l\n}\n} < " + arg)
				f.reads["rd-"+id] = terminated(old)
			}
			emit("debug ev ret-" + id)

			continue
		}

		body, out, errs, both := x.rbody(1, f, dir)
		if strings.HasSuffix(op, "&") || strings.HasSuffix(op, "&|") {
			out, errs = both, ""
		}

		end := ""
		want := ""
		tail := 0

		switch g.N(8) {
		case 0:
			end = "\nthrow boom-" + id
			want = "boom-" + id
		case 1:
			end = "\ndie 9"
		case 2:
			end = "\nblock {\nnosuch" + id + "\n}"
			want = "nosuch" + id
		}

		if (op == ">" || op == ">&") && exists {
			// The nested files are not created, either.
			for k := range f.files {
				if strings.Contains(body, k) && strings.Contains(k, "/nest-") {
					delete(f.files, k)
				}
			}
			emit(caught(m, "block {\ndebug ev never-"+id+"\n"+body+end+"\n} "+op+" "+arg)...)
			emit("debug ev res-"+id+" ("+m+")", "debug ev ret-"+id)
			f.exs[m] = "exists"
			f.never = append(f.never, "never-"+id)
			f.snaps["ret-"+id] = [2]string{file, old}

			continue
		}

		if strings.HasPrefix(op, ">>") {
			out = old + out
		}
		f.files[file] = out
		f.err += errs

		emit(caught(m, "block {\n"+body+end+"\n} "+op+" "+arg)...)
		emit("debug ev res-"+id+" ("+m+")", "debug ev ret-"+id)
		f.exs[m] = want
		f.snaps["ret-"+id] = [2]string{file, out}

		// The streams in effect before are in effect again.
		if g.P(70) {
			tail++
			emit("write-line after-" + id)
			f.out += "after-" + id + "\n"
		}
		if g.P(30) {
			emit("echo also-" + id)
			f.out += "also-" + id + "\n"
		}
		if g.P(20) {
			emit("eecho err-" + id)
			f.err += "err-" + id + "\n"
		}
	}

	emit("debug ev end-" + name)

	return f
}

// special redirects to and from what is not a file and opens files directly.
func (x *pipeGen) special(f *redirTask, id, file string, emit func(...string)) {
	g := x.g
	t := x.tag()
	v := "v" + strings.ReplaceAll(id, "-", "x")

	switch g.N(6) {
	case 0:
		emit("block {\nwhile (define l: read-line) {\ndebug ev rd-" + id + " $l\n}\ndebug ev got-" + id + "\n} < /dev/null")
		f.reads["rd-"+id] = ""
		f.reads["got-"+id] = "\n"
	case 1:
		emit("cat < /dev/null")
	case 2:
		emit("block {\necho "+t+"\nwrite-line "+t+"\neecho "+t+"e\n} "+g.Pick(">", ">|", ">>")+" /dev/null", "debug ev got-"+id+" null")
		f.err += t + "e\n"
		f.reads["got-"+id] = "null\n"
	case 3:
		// A channel.
		n := g.R(1, 4)
		b := []string{}
		w := ""
		for i := 0; i < n; i++ {
			b = append(b, fmt.Sprintf("write-line %s-%d", t, i))
			w += fmt.Sprintf("%s-%d\n", t, i)
		}
		emit(fmt.Sprintf("define %s: chan %d", v, n), "block {", strings.Join(b, "\n"), "} > $"+v, "write-line out-"+t)
		f.out += "out-" + t + "\n"
		for i := 0; i < n; i++ {
			if g.P(50) {
				emit("debug ev rd-" + id + " (" + v + " read-line)")
			} else {
				emit("block {\ndebug ev rd-" + id + " (read-line)\n} < $" + v)
			}
		}
		f.reads["rd-"+id] = w
	case 4:
		// A pipe, and a program on either side.
		emit("define "+v+": pipe", "block {\necho "+t+"-1\nwrite-line "+t+"-2\n} > $"+v, v+" writer-close", "write-line out-"+t,
			"block {\ncat\n} < $"+v, v+" reader-close")
		f.out += "out-" + t + "\n" + t + "-1\n" + t + "-2\n"
	default:
		// Opened to read and write.
		nf := file + "-rw"
		emit("define "+v+": open rw "+nf, v+" write-line "+t, "echo x"+t+" > $"+v, v+" "+g.Pick("close", "writer-close")+"", "debug ev ret-"+id)
		f.files[nf] = t + "\nx" + t + "\n"
		f.snaps["ret-"+id] = [2]string{nf, f.files[nf]}
	}
}

func (f *redirTask) check(r *Run, snap map[string]string) {
	if r.Count("end-"+f.name) != 1 {
		r.Fail("end", "the commands of %s did not all run", f.name)
	}

	for _, m := range sortedKeys(f.exs) {
		want := f.exs[m]
		ex, n, _ := evText(r, "caught-"+m)
		if want == "" && n != 0 {
			r.Fail("exception", "command %s raised %s", m, ex)
		} else if want != "" && (n != 1 || !strings.Contains(ex, want)) {
			r.Fail("no-exception", "command %s raised %d exceptions (%s), not %q", m, n, ex, want)
		}
	}

	for _, n := range f.never {
		if r.Count(n) > 0 {
			r.Fail("ran", "a command was run although its redirection failed: %s", n)
		}
	}

	for _, ev := range sortedKeys(f.snaps) {
		s := f.snaps[ev]
		got, ok := snap[ev]
		if !ok {
			r.Fail("no-return", "no %s", ev)
		} else if got != s[1] {
			r.Fail("contents", "at %s file %s holds %s", ev, s[0], diffAt(got, s[1]))
		}
	}

	for _, file := range sortedKeys(f.files) {
		got, _ := r.K.Read(file)
		if got != f.files[file] {
			r.Fail("contents", "in the end file %s holds %s", file, diffAt(got, f.files[file]))
		}
	}

	for _, p := range sortedKeys(f.reads) {
		var b strings.Builder
		for _, e := range r.Ev(p) {
			b.WriteString(unq(strings.TrimPrefix(e.Text, p)) + "\n")
		}
		if b.String() != f.reads[p] {
			r.Fail("input", "%s read %s", p, diffAt(b.String(), f.reads[p]))
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	l := []string{}
	for k := range m {
		l = append(l, k)
	}

	return SortedEnv(l)
}

func init() {
	Registry["C04"] = func(g *Gen) *Scenario {
		if g.P(20) {
			return appends(g)
		}
		x := &pipeGen{g: g, cap: pipeCap(g)}
		s := &Scenario{Family: "redirect", Race: true, Fault: benign(g)}
		s.Script = preamble()
		snap := map[string]string{}
		fs := []*redirTask{}
		tasks := 1
		if g.P(50) {
			tasks = g.R(2, 3)
			s.Family = "redirect-concurrent"
		}

		stdin := []string{}
		for i := 0; i < 6; i++ {
			stdin = append(stdin, fmt.Sprintf("input-%d", i))
		}
		kern.K.Put("/home/u/stdin.txt", kern.Reg, 0o644, ln(stdin...))
		s.Stdin, _ = kern.K.Lookup("/", "/home/u/stdin.txt", true)

		for i := 0; i < tasks; i++ {
			n := g.R(2, 6)
			if tasks > 1 {
				n = g.R(1, 4)
			}
			f := x.redirTask(fmt.Sprintf("k%d", i), n, false)
			fs = append(fs, f)

			if tasks > 1 {
				f.log = "/home/u/log-" + f.name
				elog := "/home/u/elog-" + f.name
				s.Script = append(s.Script, "define t"+f.name+": spawn {", "block {", "block {", "export stderr: open w "+elog)
				s.Script = append(s.Script, f.script...)
				s.Script = append(s.Script, "}", "} > "+f.log, "}")
				f.files[f.log] = f.out
				f.files[elog] = f.err
			} else {
				s.Script = append(s.Script, "define in1: read-line")
				s.Script = append(s.Script, f.script...)
				s.Script = append(s.Script, "define in2: read-line", "debug ev in $in1 $in2")
			}
		}

		out := ""
		if tasks > 1 {
			for _, f := range fs {
				s.Script = append(s.Script, "write-line main-"+f.name)
				out += "main-" + f.name + "\n"
			}
			for _, f := range fs {
				s.Script = append(s.Script, "wait $t"+f.name)
			}
		} else {
			out = fs[0].out
		}

		s.Script = append(s.Script, "exit 7")

		OnEv = func(text string) {
			for _, f := range fs {
				if v, ok := f.snaps[text]; ok {
					d, _ := kern.K.Read(v[0])
					snap[text] = d
				}
			}
		}

		s.Check = func(r *Run) {
			r.WantExit(7)
			for _, f := range fs {
				f.check(r, snap)
			}
			if got := Out.Text(); got != out {
				r.Fail("stdout", "standard output got %s", diffAt(got, out))
			}
			want := ""
			if tasks == 1 {
				want = fs[0].err
				if in, _, _ := evText(r, "in"); in != "$'input-0' $'input-1'" && in != "input-0 input-1" {
					r.Fail("stdin", "standard input after the redirections gave %s", in)
				}
			}
			if got := Err.Text(); got != want {
				r.Fail("stderr", "standard error got %s", diffAt(got, want))
			}
		}

		return s
	}

	Registry["C05"] = func(g *Gen) *Scenario {
		s := &Scenario{Family: "no-clobber", Race: true, Fault: benign(g)}
		file := "/home/u/target"
		pre := g.P(25)
		if pre {
			kern.K.Put(file, kern.Reg, 0o644, "precious\n")
			s.Family = "no-clobber-existing"
		}
		other := g.P(40)
		n := g.R(1, 4)
		if !other && n < 2 {
			n = 2
		}

		tasks := []string{}
		want := map[string]string{}

		for i := 0; i < n; i++ {
			m := fmt.Sprintf("w%d", i)
			op := []string{">", ">", ">&"}[g.N(3)]
			arg := []string{file, "target", "~/target", "./target"}[g.N(4)]
			body := []string{}
			data := ""
			for j := g.R(1, 3); j > 0; j-- {
				switch g.N(3) {
				case 0:
					body = append(body, fmt.Sprintf("write-line %s-%d", m, j))
					data += fmt.Sprintf("%s-%d\n", m, j)
				case 1:
					body = append(body, fmt.Sprintf("echo %s-%d", m, j))
					data += fmt.Sprintf("%s-%d\n", m, j)
				default:
					body = append(body, fmt.Sprintf("emit %s 300", m))
					data += Pattern(m, 300)
				}
			}
			want[m] = data
			l := []string{}
			if g.P(30) {
				l = append(l, fmt.Sprintf("sleep %d", g.R(0, 3)))
			}
			l = append(l, "block {\ndebug ev ran-"+m+"\n"+strings.Join(body, "\n")+"\n} "+op+" "+arg, "debug ev wrote-"+m)
			s.Script = append(s.Script, caught(m, l...)...)
			s.Script = append(s.Script, "define t"+m+": spawn {", "debug ev res-"+m+" ("+m+")", "}")
			tasks = append(tasks, "$t"+m)
		}
		if other {
			s.Family += "-other-process"
			s.Script = append(s.Script, "define tx: spawn {", fmt.Sprintf("sleep %d", g.R(0, 3)), "excl "+file+" other-data", "}")
			tasks = append(tasks, "$tx")
		}
		devnull := g.P(30)
		if devnull {
			s.Script = append(s.Script, "echo gone > /dev/null", "debug ev null-ok")
		}
		s.Script = append(s.Script, "wait "+strings.Join(tasks, " "), "exit 7")
		s.Check = func(r *Run) {
			r.WantExit(7)

			won := []string{}
			for _, m := range sortedKeys(want) {
				ran, wrote := r.Count("ran-"+m), r.Count("wrote-"+m)
				ex, c, _ := evText(r, "caught-"+m)
				if ran+c != 1 || wrote != ran {
					r.Fail("outcome", "redirection %s ran its command %d times, completed %d times and raised %d exceptions (%s)", m, ran, wrote, c, ex)
				}
				if c == 1 && !strings.Contains(ex, "exists") {
					r.Fail("wrong-exception", "redirection %s raised %s", m, ex)
				}
				if ran > 0 {
					won = append(won, m)
				}
			}

			data, ok := r.K.Read(file)
			creator := ""
			content := ""
			switch {
			case pre:
				creator, content = "nobody", "precious\n"
			case len(r.Evs("excl-won")) > 0:
				creator, content = "the other process", "other-data\n"
			case len(won) > 0:
				creator, content = won[0], want[won[0]]
			default:
				r.Fail("nobody", "no redirection created the file")
			}
			if len(won) > 1 || len(won) == 1 && creator != won[0] {
				r.Fail("overwritten", "redirections %v succeeded although the file was created by %s", won, creator)
			}
			if !ok || data != content {
				r.Fail("contents", "created by %s, the file holds %s", creator, diffAt(data, content))
			}
			if devnull && r.Count("null-ok") != 1 {
				r.Fail("device", "a redirection to /dev/null failed")
			}
		}

		return s
	}
}

// appends makes tasks and processes that append to the same files.
func appends(g *Gen) *Scenario {
	s := &Scenario{Family: "append-shared", Race: true, Fault: benign(g)}
	// A line is written at once.
	delete(s.Fault, "short-write")
	s.Script = preamble()
	type line struct{ task, text string }
	files := []string{}
	want := map[string][]line{}
	initial := map[string]string{}
	for i := g.R(1, 2); i > 0; i-- {
		f := fmt.Sprintf("/home/u/shared%d", i)
		files = append(files, f)
		if g.P(60) {
			initial[f] = fmt.Sprintf("old %d\n", i)
			kern.K.Put(f, kern.Reg, 0o644, initial[f])
		}
	}
	n := 0
	var body func(task, cur string, depth int) []string
	body = func(task, cur string, depth int) []string {
		l := []string{}
		for i := g.R(1, 4); i > 0; i-- {
			f := g.Pick(files...)
			n++
			t := fmt.Sprintf("%s-%d", task, n)
			arg := g.Pick(f, strings.TrimPrefix(f, "/home/u/"))
			switch g.N(7) {
			case 0, 1:
				l = append(l, g.Pick("write-line "+t, "echo1 "+t)+" >> "+arg)
				want[f] = append(want[f], line{task, t})
			case 2:
				l = append(l, "append-line "+f+" "+t)
				want[f] = append(want[f], line{task, t})
			case 3:
				if depth > 0 {
					l = append(l, "block {")
					l = append(l, body(task, f, depth-1)...)
					l = append(l, "} >> "+arg)
				}
			case 4:
				l = append(l, fmt.Sprintf("sleep %d", g.N(3)))
			default:
				if cur != "" {
					l = append(l, g.Pick("write-line ", "echo1 ")+t)
					want[cur] = append(want[cur], line{task, t})
				}
			}
		}
		if len(l) == 0 {
			l = append(l, "ret 0")
		}

		return l
	}
	wait := "wait"
	for i := g.R(1, 3); i > 0; i-- {
		t := fmt.Sprintf("t%d", i)
		s.Script = append(s.Script, "define "+t+": spawn {")
		s.Script = append(s.Script, body(t, "", 2)...)
		s.Script = append(s.Script, "}")
		wait += " $" + t
	}
	s.Script = append(s.Script, body("main", "", 2)...)
	s.Script = append(s.Script, wait, "exit 7")
	s.Check = func(r *Run) {
		r.WantExit(7)
		for _, f := range files {
			got, _ := r.K.Read(f)
			if !strings.HasPrefix(got, initial[f]) {
				r.Fail("lost", "appending changed what was in %s: %q", f, clip(got, 200))

				continue
			}
			rest := splitLines(strings.TrimPrefix(got, initial[f]))
			next := map[string]int{}
			exp := map[string][]string{}
			for _, w := range want[f] {
				exp[w.task] = append(exp[w.task], w.text)
			}
			total := 0
			for _, t := range rest {
				k, _, _ := strings.Cut(t, "-")
				if i := next[k]; i < len(exp[k]) && exp[k][i] == t {
					next[k]++
					total++
				} else {
					r.Fail("contents", "%s holds %q where %q is expected from task %s: %q", f, t, exp[k][min(i, len(exp[k])):], k, clip(got, 300))
				}
			}
			if total != len(want[f]) {
				r.Fail("lost", "%d of the %d lines appended to %s are there: %q", total, len(want[f]), f, clip(got, 300))
			}
		}
	}

	return s
}
