//go:build go1.22

// Package isatty replaces go-isatty.
package isatty

import (
	"zsim/kern"
	"zsim/scen"
)

// IsTerminal reports whether fd is the simulated terminal.
func IsTerminal(fd uintptr) bool {
	scen.Init()
	o := kern.K.Shell.Fds[int(fd)]

	return o != nil && o.Ino.Kind == kern.Tty
}

// IsCygwinTerminal is false.
func IsCygwinTerminal(uintptr) bool { return false }
