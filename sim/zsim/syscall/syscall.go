//go:build go1.22

// Package syscall replaces syscall.
package syscall

import (
	syscall "syscall"

	"zsim/os"

	"zsim/kern"
	"zsim/scen"
)

func sh() *kern.Proc {
	scen.Init()

	return kern.K.Shell
}

func er(e syscall.Errno) error {
	if e == 0 {
		return nil
	}

	return e
}

// Kill sends a signal.
func Kill(pid int, sig syscall.Signal) error {
	if pid == -1 || pid == 0 {
		pid = -sh().PGID
	}

	return er(sh().Kill(pid, sig))
}

func Getpid() int  { return sh().PID }
func Getppid() int { return sh().PPID }
func Getpgrp() int { return sh().PGID }
func Getuid() int  { return 1000 }
func Geteuid() int { return 1000 }
func Getgid() int  { return 1000 }
func Getegid() int { return 1000 }

// Getpgid returns a group.
func Getpgid(pid int) (int, error) {
	if pid == 0 {
		return sh().PGID, nil
	}

	p := kern.K.Procs[pid]
	if p == nil {
		return -1, syscall.ESRCH
	}

	return p.PGID, nil
}

// Setpgid sets a group.
func Setpgid(pid, pgid int) error { return er(sh().Setpgid(pid, pgid)) }

// Wait4 waits for a child.
func Wait4(pid int, ws *WaitStatus, options int, ru *Rusage) (int, error) {
	n, st, e := sh().Wait4(pid, options&syscall.WNOHANG != 0, options&syscall.WUNTRACED != 0, options&syscall.WCONTINUED != 0)
	if ws != nil && n > 0 {
		*ws = WaitStatus(st)
	}

	return n, er(e)
}

// Umask sets the mask.
func Umask(m int) int {
	o := sh().Umask
	sh().Umask = uint32(m) & 0o777

	return int(o)
}

// Mkfifo creates a FIFO.
func Mkfifo(path string, mode uint32) error { return er(sh().Mkfifo(path, mode)) }

// Unlink removes a file.
func Unlink(path string) error { return er(sh().Unlink(path, false)) }

// Rename renames.
func Rename(a, b string) error { return er(sh().Rename(a, b)) }

// Chdir changes the directory.
func Chdir(dir string) error { return er(sh().Chdir(dir)) }

// Open opens a descriptor.
func Open(path string, mode int, perm uint32) (int, error) {
	fd, e := sh().Open(path, mode, perm)

	return fd, er(e)
}

// Close closes a descriptor.
func Close(fd int) error { return er(sh().Close(fd)) }

// SetNonblock changes the mode of a descriptor.
func SetNonblock(fd int, nb bool) error {
	o := sh().Fds[fd]
	if o == nil {
		return syscall.EBADF
	}
	o.Nonblock = nb

	return nil
}

// Exit ends the process.
func Exit(code int) { os.Exit(code) }
