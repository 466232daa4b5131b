//go:build go1.22

package scen

import (
	"fmt"
	"strings"

	"zsim/kern"
	"zsim/rt"
)

// The simulated user types what Scenario.Keys says.

// Key is one act of the simulated user.
type Key struct {
	// Wait says when: "prompt" once there is a prompt since the last line,
	// "quiet" once there is one and nothing can run, "ev" once there is the
	// event Arg, "begun" once the line entered last has executed a process or has
	// caused an event, "cooked" once the terminal is no longer in line-editing mode,
	// "out" once Arg was written to the terminal since the last line, "tread" once
	// the command tread Arg reads the terminal, "still" once nothing can run, "steps"
	// at once; and then after N
	// more steps.
	Wait  string
	Arg   string
	N     int
	Type  string
	Label string
	Input bool                        // It is for a command: it is no line for the shell.
	Make  func() (text, label string) // Decides what to type.
	Do    func()                      // Is done, too.
}

func (k Key) String() string {
	return fmt.Sprintf("wait %s %s %d, type %q", k.Wait, k.Arg, k.N, k.Type)
}

var user struct {
	on       bool
	i        int             // The next key.
	prompts  int             // Seen so far.
	mark     int             // Prompts seen when a line was entered.
	atPrompt bool            // The line editor waits.
	cooked   int             // How often the terminal left line-editing mode.
	lines    int             // What cooked is once the lines entered are taken.
	out      string          // Written to the terminal since the line entered last.
	next     *Key            // What Scenario.Next said.
	begun    bool            // The line entered last.
	tread    map[string]bool // What reads the terminal.
	armed    bool            // The delay runs.
	again    bool            // The key had no effect.
}

// OnAct is called before the user types.
var OnAct func(k Key)

// ExecHook is called when the shell has started a process.
var ExecHook func(p *kern.Proc)

// AtPrompt is true while the line editor waits for a line.
func AtPrompt() bool { return user.atPrompt }

// Line is called by the line editor at the end of a line.
func Line() { user.atPrompt = false }

// Treads is called when the command tread begins to read.
func Treads(tag string) {
	if user.tread == nil {
		user.tread = map[string]bool{}
	}
	user.tread[tag] = true
	userTry("tread", tag)
}

func startUser() {
	user.on = true
	op := OnPrompt
	OnPrompt = func(p string) {
		if op != nil {
			op(p)
		}
		user.prompts++
		user.atPrompt = true
		userTry("prompt", "")
	}
	oe := OnEv
	OnEv = func(t string) {
		if oe != nil {
			oe(t)
		}
		user.begun = !user.atPrompt
		userTry("ev", t)
	}
	kern.OnExec = func(p *kern.Proc) {
		if ExecHook != nil {
			ExecHook(p)
		}
		if !user.atPrompt && user.cooked >= user.lines {
			user.begun = true
			userTry("begun", "")
		}
	}
	kern.OnTtyOut = func(t string) {
		if !user.atPrompt {
			user.out += t
			userTry("out", "")
		}
	}
	kern.OnMode = func(m kern.TtyMode) {
		if m.Cooked {
			user.cooked++
			userTry("cooked", "")
		}
	}
	rt.QuietFn = func() bool {
		if kern.K.Shell.State == 'Z' || kern.K.Shell.State == 'X' || user.armed {
			return user.armed
		}
		k, ok := userKey()
		if !ok {
			return false
		}
		n := user.i
		switch k.Wait {
		case "ev":
			// It did not happen.
			if !rt.Pending() {
				userArm(k)
			}
		case "begun", "out", "tread":
			if user.atPrompt && kern.K.Tty.Waiting() == 0 {
				userArm(k)
			}
		case "still":
			userArm(k)
		case "quiet":
			if user.atPrompt && user.prompts > user.mark {
				userArm(k)
			} else if k.Arg != "patient" && !user.armed && !rt.Pending() {
				rt.End("stuck", fmt.Sprintf("%s: the user waits for the prompt in vain", k.Label))
			}
		}

		return user.armed || user.i != n
	}
	userTry("start", "")
}

// userKey returns the next key.
func userKey() (Key, bool) {
	if user.i < len(S.Keys) {
		return S.Keys[user.i], true
	}
	if S.Next == nil {
		return Key{}, false
	}
	if user.next == nil {
		user.next = S.Next()
	}
	if user.next == nil {
		return Key{}, false
	}

	return *user.next, true
}

func userDone() {
	user.armed, user.again = false, false
	user.i++
	user.next = nil
}

func userTry(what, arg string) {
	if user.armed {
		return
	}

	k, ok := userKey()
	if !ok {
		return
	}

	switch k.Wait {
	case "steps":
		userArm(k)
	case "prompt":
		if user.prompts > user.mark {
			userArm(k)
		}
	case "cooked":
		if user.cooked >= user.lines {
			userArm(k)
		}
	case "begun":
		if user.begun {
			userArm(k)
		}
	case "out":
		if strings.Contains(user.out, k.Arg) {
			userArm(k)
		}
	case "tread":
		if user.tread[k.Arg] {
			userArm(k)
		}
	case "ev":
		if what == "ev" && arg == k.Arg {
			userArm(k)
		}
	}
}

func userArm(k Key) {
	user.armed = true
	userAfter(k, k.N)
}

func userAfter(k Key, n int) {
	rt.AtStep(int64(n), func() {
		if user.again && user.atPrompt && kern.K.Tty.Waiting() == 0 {
			// Not necessary any more.
			userDone()
			userTry("next", "")

			return
		}

		if OnAct != nil {
			OnAct(k)
		}
		if k.Make != nil {
			k.Type, k.Label = k.Make()
		}
		kern.K.Log("user", 0, fmt.Sprintf("%s %q", k.Label, k.Type))
		if k.Do != nil {
			k.Do()
		}
		for i := 0; i < len(k.Type); i++ {
			c := k.Type[i]
			if (c == '\n' || c == 3) && !k.Input {
				if c == '\n' && user.mark >= user.prompts {
					// Each line is followed by a prompt.
					user.mark++
				} else {
					user.mark = user.prompts
				}
				user.begun = false
				user.out = ""
			}
			if c == '\n' && !k.Input {
				if i == strings.IndexByte(k.Type, c) {
					user.lines = user.cooked
				}
				user.lines++
			}
			kern.K.Tty.Hit = -1
			kern.K.Tty.Type(c)
			if kern.K.Tty.Hit == 0 {
				// There was only what is left of a process.
				user.again = true
				userAfter(k, 5000)

				return
			}
		}
		userDone()
		userTry("next", "")
	})
}
