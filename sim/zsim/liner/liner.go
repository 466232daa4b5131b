//go:build go1.22

// Package liner replaces the line editor: it reads characters from the
// simulated terminal.
package liner

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"strings"
	"syscall"
	"unicode/utf8"

	"zsim/kern"
	"zsim/os"
	"zsim/rt"
	"zsim/scen"
)

var (
	ErrPromptAborted     = errors.New("prompt aborted")
	ErrNotTerminalOutput = errors.New("standard output is not a terminal")
	ErrInvalidPrompt     = errors.New("invalid prompt")
	ErrInternal          = errors.New("liner: internal error")
	KillRingMax          = 60
)

// HistoryLimit is the number of lines kept.
const HistoryLimit = 1000

type (
	Completer     func(line string) []string
	WordCompleter func(line string, pos int) (head string, completions []string, tail string)
	TabStyle      int
)

const (
	TabCircular TabStyle = iota
	TabPrints
)

// ModeApplier restores a terminal mode.
type ModeApplier interface{ ApplyMode() error }

type mode struct{ m kern.TtyMode }

func (m mode) ApplyMode() error {
	rt.Point()

	if kern.K.Inject(kern.K.Shell, "tcsetattr-eio") {
		return syscall.EIO
	}

	if kern.K.Tty == nil {
		return syscall.ENOTTY
	}

	kern.K.Tty.SetMode(m.m)

	return nil
}

// TerminalMode returns the current mode.
func TerminalMode() (ModeApplier, error) {
	scen.Init()
	rt.Point()

	o := kern.K.Shell.Fds[0]
	if o == nil || o.Ino.Kind != kern.Tty {
		return nil, syscall.ENOTTY
	}

	return mode{kern.K.Tty.Mode}, nil
}

// State is a line editor.
type State struct {
	hist     []string
	wc       WordCompleter
	abort    bool
	orig     ModeApplier
	tabStyle TabStyle
}

// NewLiner puts the terminal into line-editing mode.
func NewLiner() *State {
	s := &State{}
	s.orig, _ = TerminalMode()

	if kern.K.Tty != nil {
		kern.K.Tty.SetMode(kern.TtyMode{Cooked: false, Isig: false})
	}

	return s
}

func (s *State) SetCtrlCAborts(a bool)            { s.abort = a }
func (s *State) SetWordCompleter(f WordCompleter) { s.wc = f }
func (s *State) SetCompleter(f Completer)         {}
func (s *State) SetTabCompletionStyle(t TabStyle) { s.tabStyle = t }
func (s *State) SetMultiLineMode(bool)            {}
func (s *State) SetBeep(bool)                     {}

// Close restores the terminal.
func (s *State) Close() error {
	if s.orig != nil {
		return s.orig.ApplyMode()
	}

	return nil
}

// AppendHistory appends a line.
func (s *State) AppendHistory(line string) {
	if n := len(s.hist); n > 0 && s.hist[n-1] == line {
		return
	}

	s.hist = append(s.hist, line)
	if len(s.hist) > HistoryLimit {
		s.hist = s.hist[1:]
	}
}

// ClearHistory forgets.
func (s *State) ClearHistory() { s.hist = nil }

// ReadHistory reads saved lines.
func (s *State) ReadHistory(r io.Reader) (num int, err error) {
	in := bufio.NewReader(r)

	for {
		line, part, err := in.ReadLine()
		if err == io.EOF {
			break
		}
		if err != nil {
			return num, err
		}
		if part {
			return num, fmt.Errorf("line %d is too long", num+1)
		}
		if !utf8.Valid(line) {
			return num, fmt.Errorf("invalid string at line %d", num+1)
		}
		num++
		s.hist = append(s.hist, string(line))
		if len(s.hist) > HistoryLimit {
			s.hist = s.hist[1:]
		}
	}

	return num, nil
}

// WriteHistory saves the lines.
func (s *State) WriteHistory(w io.Writer) (num int, err error) {
	for _, item := range s.hist {
		if _, err := fmt.Fprintln(w, item); err != nil {
			return num, err
		}
		num++
	}

	return num, nil
}

// PromptWithSuggestion is Prompt.
func (s *State) PromptWithSuggestion(p, text string, pos int) (string, error) { return s.Prompt(p) }

// Prompt reads a line.
func (s *State) Prompt(p string) (string, error) {
	for _, r := range p {
		if r < 32 {
			return "", ErrInvalidPrompt
		}
	}

	k := kern.K

	if _, err := os.Stdout.WriteString(p); err != nil {
		return "", err
	}

	k.Log("prompt", k.Shell.PID, p)
	if k.Tty.Mode.Cooked {
		k.Log("prompt-cooked", k.Shell.PID, "")
	}

	if scen.OnPrompt != nil {
		scen.OnPrompt(p)
	}

	line := []byte{}

	for {
		c, e := k.Shell.ReadChar()
		if e != 0 {
			return "", e
		}

		switch c {
		case '\r', '\n':
			k.Log("line", k.Shell.PID, string(line))
			scen.Line()

			return string(line), nil
		case 3:
			if s.abort {
				k.Log("line-abort", k.Shell.PID, string(line))
				scen.Line()

				return "", ErrPromptAborted
			}
		case 4:
			if len(line) == 0 {
				k.Log("line-eof", k.Shell.PID, "")
				scen.Line()

				return "", io.EOF
			}
		case 26, 28:
		case '\t':
			if s.wc != nil {
				l := string(line)
				k.Log("complete-start", k.Shell.PID, l)
				if scen.OnCompleting != nil {
					scen.OnCompleting(l, len(l))
				}
				h, cs, t := s.wc(l, len(l))
				k.Log("complete-end", k.Shell.PID, fmt.Sprintf("%q %q %q", h, cs, t))
				if scen.OnComplete != nil {
					scen.OnComplete(l, h, cs, t)
				}
				if len(cs) == 1 {
					line = []byte(h + cs[0] + t)
				} else if len(cs) > 1 {
					pre := cs[0]
					for _, c := range cs {
						for !strings.HasPrefix(c, pre) {
							pre = pre[:len(pre)-1]
						}
					}
					if len(h+pre) > len(l) {
						line = []byte(h + pre + t)
					}
				}
			}
		case 127, 8:
			if len(line) > 0 {
				line = line[:len(line)-1]
			}
		default:
			line = append(line, c)
		}
	}
}
