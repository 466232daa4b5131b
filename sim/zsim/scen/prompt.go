//go:build go1.22

package scen

import (
	"fmt"
	"strings"
	"syscall"

	"zsim/kern"
	"zsim/rt"
)

func init() {
	Registry["C18"] = func(g *Gen) *Scenario { return typed(g) }
}

// soup is a line of arbitrary tokens. It may be anything but it can't wait.
func soup(g *Gen) string {
	words := []string{
		"x", "y", "nosuch", "5", "echo", "(", ")", "{", "}", ";", "|", "&", "&&", "||", "<", ">", ">>", ">&", ">|", "|&",
		"`", "$", "'", "\"", "#", "=", ":", "~", "\\", "@", ",", ".", "/", "(|", "|)", "$'", "${", "$$", "''", "()", "symbol", "cons",
		"*", "?", "[", "]", "!", "%", "^", "_", "é",
	}
	l := ""
	for n := g.R(1, 8); n > 0; n-- {
		l += words[g.N(len(words))]
		if g.P(50) {
			l += " "
		}
	}

	return l
}

func typed(g *Gen) *Scenario {
	s := &Scenario{Family: "prompt", Tty: true, FairAt: 12000000, MaxSteps: 60000000, RC: userRC(g)}
	cheap := s.RC != ""
	histFile := "/home/u/.oh-history"

	// What earlier sessions have saved.
	old := []string{}
	switch g.N(6) {
	case 0:
	case 1:
		for i := 0; i < 997; i++ {
			old = append(old, fmt.Sprintf("old %d", i))
		}
	default:
		for i := g.R(1, 6); i > 0; i-- {
			old = append(old, fmt.Sprintf("old line %d", i))
		}
		if g.P(10) {
			old = append(old, "long "+strings.Repeat("x", 5000), "last")
		}
		if g.P(10) {
			old = append(old, "bad \xff\xfe bytes", "after")
		}
	}
	had := len(old) > 0 || g.P(20)
	oldText := strings.Join(old, "\n")
	if len(old) > 0 && !g.P(15) {
		oldText += "\n"
	}
	target := histFile
	switch g.N(6) {
	case 0:
		histFile = "/home/u/h/hist"
		s.Env = append(s.Env, "OH_HISTORY="+histFile)
		target = histFile
	case 1:
		if had {
			target = "/home/u/h/real"
		}
	}
	s.Setup = func() {
		kern.K.Mkdirs("/home/u/h")
		if had {
			kern.K.Put(target, kern.Reg, 0o600, oldText)
		}
		if target != histFile {
			kern.K.Put(histFile, kern.Link, 0o777, target)
		}
	}

	hist := append([]string(nil), old...)
	enter := func(l string) {
		if l != "" && (len(hist) == 0 || hist[len(hist)-1] != l) {
			hist = append(hist, l)
			if len(hist) > 1000 {
				hist = hist[1:]
			}
		}
	}

	want := []string{}    // The events of the commands.
	prompts := []string{} // After each line, or "" if it is not known.
	lastLine := 0
	line := func(l, prompt string, typeAhead bool) {
		wait := "quiet"
		n := 0
		if lastLine > 0 && typeAhead {
			switch g.N(6) {
			case 0:
				wait, n = "steps", g.N(3000)
			case 1:
				wait = "prompt"
			}
		}
		k := Key{Wait: wait, N: n, Type: l, Label: fmt.Sprintf("line %d", lastLine)}
		if !strings.HasSuffix(l, "\x03") {
			enter(l)
			k.Type += "\n"
		}
		s.Keys = append(s.Keys, k)
		prompts = append(prompts, prompt)
		lastLine++
	}
	const more, done = "  ", ": "
	// all enters the lines of one complete command.
	all := func(lines ...string) {
		ahead := g.P(50)
		for i, l := range lines {
			p := more
			if i == len(lines)-1 {
				p = done
			}
			line(l, p, ahead)
		}
	}
	long := func(k int) []string {
		never := fmt.Sprintf("debug ev never-%d", k)
		return [][]string{
			{"block {", never},
			{"block {", "", never, ""},
			{"while true {", "block {", never, "}"},
			{never + " |"},
			{never + " && \\"},
			{"define m: method () {", never},
			{"debug ev never 'a", "", "b"},
			{"debug ev never \"a", "b"},
			{"block {", "catch ex {", never},
			{"# comment", "block {", never},
		}[g.N(10)]
	}
	n := g.R(1, 9)
	for k := 0; k < n; k++ {
		ev := fmt.Sprintf("debug ev u-%d", k)
		w := fmt.Sprintf("u-%d", k)
		switch g.N(18) {
		case 0, 1:
			all(ev)
			want = append(want, w)
		case 2:
			all("block {", ev, "}")
			want = append(want, w)
		case 3:
			all("block {", "", ev, "", "}")
			want = append(want, w)
		case 4:
			all("define m: method () {", ev, "}")
			all("m")
			all("m")
			want = append(want, w, w)
		case 5:
			all(ev+" 'a", "b'")
			want = append(want, w+" $'a\\nb'")
		case 6:
			all(ev+" 'a", "", "b'")
			want = append(want, w+" $'a\\n\\nb'")
		case 7:
			all("true &&", ev)
			want = append(want, w)
		case 8:
			all(ev+" \\", "b")
			want = append(want, w+" b")
		case 9:
			all(ev + "; " + ev)
			want = append(want, w, w)
		case 10:
			all("block {", ev, "echo a | block {", "cat", "}", ev+" b # comment", "} # end")
			want = append(want, w, w+" b")
		case 11:
			// A syntax error, perhaps in a command that was not complete.
			bad := g.Pick(")", "}", "debug ev never )", "debug (a", "$'\\q'", "debug ev never; }}", "|) x", "x `", "x >", "(|y|)", "x = ")
			if g.P(50) {
				l := []string{}
				for l = long(k); strings.Contains(strings.Join(l, ""), "'a") || strings.Contains(strings.Join(l, ""), "\"a") || strings.Contains(strings.Join(l, ""), "\\"); {
					l = long(k)
				}
				for _, p := range l {
					if strings.HasPrefix(p, "#") {
						line(p, "", true)
					} else {
						line(p, more, true)
					}
				}
				bad = g.Pick(")", "debug ev never )", "debug (a", "$'\\q'", "|) x", "x `", "x >", "(|y|)")
			}
			line(bad, done, true)
		case 12, 13:
			for _, p := range long(k) {
				if strings.HasPrefix(p, "#") {
					line(p, "", false)
				} else {
					line(p, more, false)
				}
			}
			line(g.Pick("", "debug ev never", "'", "}")+"\x03", done, false)
		case 14:
			line(g.Pick("", "debug ev never", "block {", "'", ")")+"\x03", done, false)
		case 15:
			all(g.Pick("throw boom", "nosuch a b", "nosuch | nosuch", "block { }x", "echo $nosuch", "cd /nosuch", "fg", "wait x", "(throw (list a b))", "false"))
		case 16:
			for i := g.R(1, 3); i > 0; i-- {
				line(soup(g), "", false)
			}
			line("\x03", done, false)
		case 17:
			line(g.Pick("   ", "# nothing", " # x"), "", false)
			all(ev)
			want = append(want, w)
		}
		if g.P(10) {
			l := fmt.Sprintf("debug ev twice-%d", k)
			all(l)
			all(l)
			want = append(want, l[9:], l[9:])
		}
		if g.P(10) {
			line("", done, false)
		}
	}
	if g.P(20) {
		line("block {", more, false)
		line("debug ev never", more, false)
	}

	load, save, killed := false, false, false
	switch g.N(5) {
	case 0:
		save = true
	case 1:
		killed = true
		save = g.P(30)
	case 2:
		load = g.P(50)
	}
	if load || save {
		s.Fault = map[string]float64{"short-write": 0.2, "short-read": 0.2}
		for _, f := range []string{"open-emfile", "open-eio", "open-enospc", "read-eio", "write-enospc", "write-eio", "stat-eio", "close-eio", "rename-eio", "fsync-eio"} {
			if g.P(40) {
				s.Fault[f] = []float64{0.02, 0.1, 0.3, 0.7}[g.N(4)]
			}
		}
		s.FaultGo = "save-it"
		if load {
			s.FaultGo = "load-it"
			s.RC += "debug ev load-it\n"
		}
	} else {
		s.Fault = benign(g)
	}
	at := g.R(0, 12)
	at = 1<<at + g.N(1<<at)
	s.Keys = append(s.Keys, Key{Wait: "quiet", Type: "\x04", Label: "end of file", Do: func() {
		if save {
			kern.K.FaultsOn = true
		}
		if killed {
			rt.AtStep(int64(at), func() {
				sh := kern.K.Shell
				if sh.State != 'Z' && sh.State != 'X' {
					kern.K.Log("fault", sh.PID, "kill the shell")
					sh.Signal(syscall.SIGKILL)
				}
			})
		}
	}})
	op := OnPrompt
	OnPrompt = func(p string) {
		if op != nil {
			op(p)
		}
		if load {
			kern.K.FaultsOn = false
		}
	}
	s.Check = func(r *Run) {
		if !killed {
			r.WantExit(0)
		}
		got := []string{}
		for _, e := range r.K.Events {
			if e.Kind == "ev" && e.Text != "load-it" {
				if strings.HasPrefix(e.Text, "never") {
					r.Fail("discarded", "a discarded command was evaluated: %s", e.Text)
				}
				got = append(got, e.Text)
			}
		}
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			r.Fail("evaluated", "the commands evaluated were %q, not %q", got, want)
		}
		if cheap {
			seen := []string{}
			for _, e := range r.Evs("prompt") {
				seen = append(seen, e.Text)
			}
			if len(seen) != len(prompts)+1 {
				r.Fail("prompts", "there were %d prompts for %d lines", len(seen), len(prompts))
			}
			for i, p := range prompts {
				if i+1 < len(seen) && p != "" && seen[i+1] != p {
					r.Fail("prompt", "the prompt after line %d (%q) was %q, not %q", i, s.Keys[i].Type, seen[i+1], p)
				}
			}
		}
		// The history.
		text, ok := r.K.Read(target)
		if !ok {
			text = ""
		}
		now := lines(text)
		isOld := strings.Join(now, "\n") == strings.Join(old, "\n")
		isNew := strings.Join(now, "\n") == strings.Join(hist, "\n")
		if isNew && (len(hist) == 0 || strings.HasSuffix(text, "\n")) {
			isOld = true
		} else if isOld && !load && !save && !killed {
			r.Fail("history", "the lines entered are not in the history")
		}
		if !isOld {
			what := "history"
			if load || save || killed {
				what = "history-lost"
			}
			r.Fail(what, "the history file has %d lines, %s, there were %d, and %d with those entered, %s", len(now), clip(fmt.Sprintf("%q", tail(now, 6)), 600), len(old), len(hist), clip(fmt.Sprintf("%q", tail(hist, 6)), 600))
		}
		if target != histFile {
			if i, e := r.K.Lookup("/", histFile, false); e != 0 || i.Kind != kern.Link {
				r.Fail("history-link", "the link to the history file was replaced")
			}
		}
		if !killed {
			for _, f := range append(r.K.List("/home/u"), r.K.List("/home/u/h")...) {
				if strings.Contains(f, "hist") && f != ".oh-history" && f != "hist" || strings.HasPrefix(f, "real") && f != "real" {
					r.Fail("litter", "saving the history left %s", f)
				}
			}
		}
	}

	return s
}

func tail(l []string, n int) []string {
	if len(l) > n {
		return l[len(l)-n:]
	}

	return l
}

func lines(text string) []string {
	if text == "" {
		return nil
	}

	return strings.Split(strings.TrimSuffix(text, "\n"), "\n")
}
