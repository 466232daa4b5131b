//go:build go1.22

// Package os replaces os for the program under test. Everything it does, it
// does to the simulated kernel.
package os

import (
	"errors"
	"io"
	"io/fs"
	ros "os"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	"zsim/kern"
	"zsim/rt"
	"zsim/scen"
	_ "zsim/scen" // The world must exist first.
)

type (
	FileMode     = ros.FileMode
	FileInfo     = ros.FileInfo
	DirEntry     = ros.DirEntry
	PathError    = ros.PathError
	LinkError    = ros.LinkError
	SyscallError = ros.SyscallError
	Signal       = ros.Signal
)

const (
	O_RDONLY = ros.O_RDONLY
	O_WRONLY = ros.O_WRONLY
	O_RDWR   = ros.O_RDWR
	O_APPEND = ros.O_APPEND
	O_CREATE = ros.O_CREATE
	O_EXCL   = ros.O_EXCL
	O_SYNC   = ros.O_SYNC
	O_TRUNC  = ros.O_TRUNC

	ModeDir        = ros.ModeDir
	ModeAppend     = ros.ModeAppend
	ModeExclusive  = ros.ModeExclusive
	ModeTemporary  = ros.ModeTemporary
	ModeSymlink    = ros.ModeSymlink
	ModeDevice     = ros.ModeDevice
	ModeNamedPipe  = ros.ModeNamedPipe
	ModeSocket     = ros.ModeSocket
	ModeSetuid     = ros.ModeSetuid
	ModeSetgid     = ros.ModeSetgid
	ModeCharDevice = ros.ModeCharDevice
	ModeSticky     = ros.ModeSticky
	ModeIrregular  = ros.ModeIrregular
	ModeType       = ros.ModeType
	ModePerm       = ros.ModePerm

	PathSeparator     = ros.PathSeparator
	PathListSeparator = ros.PathListSeparator
	DevNull           = ros.DevNull

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2
)

var (
	ErrInvalid          = ros.ErrInvalid
	ErrPermission       = ros.ErrPermission
	ErrExist            = ros.ErrExist
	ErrNotExist         = ros.ErrNotExist
	ErrClosed           = ros.ErrClosed
	ErrNoDeadline       = ros.ErrNoDeadline
	ErrDeadlineExceeded = ros.ErrDeadlineExceeded
	ErrProcessDone      = ros.ErrProcessDone

	Interrupt Signal = syscall.SIGINT
	Kill      Signal = syscall.SIGKILL

	Args = ros.Args

	Stdin  = stdFile(0, "/dev/stdin")
	Stdout = stdFile(1, "/dev/stdout")
	Stderr = stdFile(2, "/dev/stderr")
)

var (
	IsExist         = ros.IsExist
	IsNotExist      = ros.IsNotExist
	IsPermission    = ros.IsPermission
	IsTimeout       = ros.IsTimeout
	IsPathSeparator = ros.IsPathSeparator
	NewSyscallError = ros.NewSyscallError
	Expand          = ros.Expand
)

func shell() *kern.Proc {
	scen.Init()

	return kern.K.Shell
}

// ---------------------------------------------------------------- File.

// File is a simulated *os.File.
type File struct{ *file }

type file struct {
	fd       int
	name     string
	ofd      *kern.OFD
	own      bool // We put it into non-blocking mode.
	blocking bool // poll.FD.isBlocking.
	closed   bool
	refs     int
	gone     bool
	rheld    bool
	wheld    bool
	q        []*rt.Task // Waiters for the lock, for I/O, or for destruction.
	dirpos   int
	std      bool
	sync     rt.Clock
}

func stdFile(fd int, name string) *File { return NewFile(uintptr(fd), name) }

// NewFile wraps a descriptor.
func NewFile(fd uintptr, name string) *File {
	o := shell().Fds[int(fd)]
	if o == nil {
		return &File{&file{fd: int(fd), name: name, blocking: true, refs: 1, std: fd == 1 || fd == 2}}
	}

	f := &file{fd: int(fd), name: name, ofd: o, refs: 1, blocking: !o.Nonblock, std: fd == 1 || fd == 2}

	return &File{f}
}

func newFile(fd int, name string, pollable bool) *File {
	o := shell().Fds[fd]
	f := &file{fd: fd, name: name, ofd: o, refs: 1, blocking: true, std: fd == 1 || fd == 2}

	if pollable {
		o.Nonblock = true
		f.own = true
		f.blocking = false
	}

	rt.OnCollect(f, func(f *file) { _ = f.close() })

	return &File{f}
}

func (f *file) wake() {
	for _, t := range append([]*rt.Task(nil), f.q...) {
		rt.Ready(t)
	}
}

func (f *file) wait(why string, qs ...*[]*rt.Task) {
	kern.Wait(why, append(qs, &f.q)...)
}

// lock takes the read or write lock of the descriptor.
func (f *file) lock(held *bool) bool {
	for {
		if f.closed {
			return false
		}

		if !*held {
			*held = true
			f.refs++
			f.sync.Acquire()

			return true
		}

		rt.Probes["file-lock-contended"]++
		f.wait("file lock " + f.name)
	}
}

func (f *file) unlock(held *bool) {
	*held = false
	f.sync.Release()
	f.unref()
	f.wake()
}

func (f *file) unref() error {
	f.refs--
	if f.refs == 0 {
		e := shell().Close(f.fd)
		f.gone = true
		f.wake()

		if e != 0 {
			return e
		}
	}

	return nil
}

func (f *file) close() error {
	if f == nil {
		return syscall.EINVAL
	}

	rt.Point()

	if f.closed {
		return &PathError{Op: "close", Path: f.name, Err: ErrClosed}
	}

	f.closed = true
	rt.Uncollect(f)
	f.wake()

	err := f.unref()

	if !f.blocking {
		for !f.gone {
			f.wait("close " + f.name)
		}
	}

	if err != nil {
		return &PathError{Op: "close", Path: f.name, Err: err}
	}

	return nil
}

// Close closes the file.
func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}

	return f.file.close()
}

// Name returns the name given to Open.
func (f *File) Name() string { return f.name }

// Fd returns the descriptor, which it puts into blocking mode.
func (f *File) Fd() uintptr {
	if f == nil {
		return ^(uintptr(0))
	}

	if f.closed {
		return ^(uintptr(0))
	}

	if f.own {
		f.blocking = true
		f.ofd.Nonblock = false
	}

	return uintptr(f.fd)
}

func (f *File) err(op string, e error) error {
	if e == nil || e == io.EOF {
		return e
	}

	return &PathError{Op: op, Path: f.name, Err: e}
}

// Read reads.
func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}

	rt.Point()

	if !f.lock(&f.rheld) {
		return 0, f.err("read", ErrClosed)
	}

	defer f.unlock(&f.rheld)

	if len(b) == 0 {
		return 0, nil
	}

	if f.ofd == nil {
		return 0, f.err("read", syscall.EBADF)
	}

	for {
		n, e := shell().ReadOFD(f.ofd, b)
		if e == syscall.EAGAIN && !f.blocking {
			if f.closed {
				return 0, f.err("read", ErrClosed)
			}

			f.wait("poll read "+f.name+f.ofd.Path, f.ofd.Queue())

			if f.closed {
				return 0, f.err("read", ErrClosed)
			}

			continue
		}

		if e != 0 {
			return 0, f.err("read", e)
		}

		if n == 0 {
			return 0, io.EOF
		}

		return n, nil
	}
}

// Write writes everything or fails.
func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}

	rt.Point()

	if !f.lock(&f.wheld) {
		return 0, f.err("write", ErrClosed)
	}

	defer f.unlock(&f.wheld)

	if f.ofd == nil {
		return 0, f.err("write", syscall.EBADF)
	}

	done := 0

	for {
		n, e := shell().WriteOFD(f.ofd, b[done:])
		if n > 0 {
			done += n
		}

		if done == len(b) {
			return done, nil
		}

		if e == syscall.EAGAIN && !f.blocking {
			if f.closed {
				return done, f.err("write", ErrClosed)
			}

			f.wait("poll write "+f.name+f.ofd.Path, f.ofd.Queue())

			if f.closed {
				return done, f.err("write", ErrClosed)
			}

			continue
		}

		if e != 0 {
			if e == syscall.EPIPE && f.std {
				kern.K.Log("sigpipe", shell().PID, "write to fd "+strconv.Itoa(f.fd))
				shell().Disp[int(syscall.SIGPIPE)] = kern.SigDfl
				shell().Signal(syscall.SIGPIPE)
				park()
			}

			return done, f.err("write", e)
		}

		if n == 0 {
			return done, f.err("write", io.ErrUnexpectedEOF)
		}
	}
}

// WriteString writes a string.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// ReadAt reads at an offset.
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f.closed || f.ofd == nil {
		return 0, f.err("read", ErrClosed)
	}

	old := f.ofd.Pos
	f.ofd.Pos = off
	n, e := shell().ReadOFD(f.ofd, b)
	f.ofd.Pos = old

	if e != 0 {
		return 0, f.err("read", e)
	}

	if n < len(b) {
		return n, io.EOF
	}

	return n, nil
}

// Seek sets the offset.
func (f *File) Seek(off int64, whence int) (int64, error) {
	if f.closed || f.ofd == nil {
		return 0, f.err("seek", ErrClosed)
	}

	rt.Point()

	if f.ofd.Ino.Kind != kern.Reg {
		return 0, f.err("seek", syscall.ESPIPE)
	}

	switch whence {
	case 1:
		off += f.ofd.Pos
	case 2:
		off += f.ofd.Ino.Size()
	}

	if off < 0 {
		return 0, f.err("seek", syscall.EINVAL)
	}

	f.ofd.Pos = off

	return off, nil
}

// Sync flushes to stable storage.
func (f *File) Sync() error {
	if f.closed {
		return f.err("sync", ErrClosed)
	}

	rt.Point()

	if kern.K.Inject(shell(), "fsync-eio") {
		return f.err("sync", syscall.EIO)
	}

	f.ofd.Ino.Sync()

	return nil
}

// Truncate changes the size.
func (f *File) Truncate(n int64) error {
	if f.closed || f.ofd == nil {
		return f.err("truncate", ErrClosed)
	}

	rt.Point()

	if e := f.ofd.Ino.Truncate(n); e != 0 {
		return f.err("truncate", e)
	}

	return nil
}

// Chmod changes the mode.
func (f *File) Chmod(m FileMode) error {
	f.ofd.Ino.Mode = uint32(m.Perm())

	return nil
}

// Stat describes the file.
func (f *File) Stat() (FileInfo, error) {
	if f.closed || f.ofd == nil {
		return nil, f.err("stat", ErrClosed)
	}

	rt.Point()

	return &info{base(f.name), f.ofd.Ino, snap(f.ofd.Ino)}, nil
}

// SetDeadline is not supported.
func (f *File) SetDeadline(time.Time) error      { return ErrNoDeadline }
func (f *File) SetReadDeadline(time.Time) error  { return ErrNoDeadline }
func (f *File) SetWriteDeadline(time.Time) error { return ErrNoDeadline }

// Readdirnames lists a directory.
func (f *File) Readdirnames(n int) ([]string, error) {
	if f.closed || f.ofd == nil {
		return nil, f.err("readdir", ErrClosed)
	}

	rt.Point()

	if f.ofd.Ino.Kind != kern.Dir {
		return nil, f.err("readdirent", syscall.ENOTDIR)
	}

	names := f.ofd.Ino.Names()

	if f.dirpos > len(names) {
		f.dirpos = len(names)
	}

	names = names[f.dirpos:]

	// Directory order is arbitrary.
	if len(names) > 1 {
		r := rt.Choose("readdir-order", len(names), kern.K.Fault["readdir-order"])
		names = append(append([]string{}, names[r:]...), names[:r]...)
	}

	if n > 0 {
		if len(names) == 0 {
			return nil, io.EOF
		}
		if len(names) > n {
			names = names[:n]
		}
	}

	f.dirpos += len(names)

	return names, nil
}

// Readdir lists a directory.
func (f *File) Readdir(n int) ([]FileInfo, error) {
	names, err := f.Readdirnames(n)
	l := []FileInfo{}

	for _, name := range names {
		i, e := Lstat(f.ofd.Path + "/" + name)
		if IsNotExist(e) {
			continue
		}
		if e != nil {
			return l, e
		}
		l = append(l, i)
	}

	return l, err
}

// ReadDir lists a directory.
func (f *File) ReadDir(n int) ([]DirEntry, error) {
	names, err := f.Readdirnames(n)
	l := []DirEntry{}

	for _, name := range names {
		if i := f.ofd.Ino.Ents[name]; i != nil {
			l = append(l, &dirent{f.ofd.Path + "/" + name, &info{name, i, snap(i)}})
		}
	}

	return l, err
}

type dirent struct {
	path string
	i    *info
}

func (d *dirent) Name() string            { return d.i.name }
func (d *dirent) IsDir() bool             { return d.i.IsDir() }
func (d *dirent) Type() FileMode          { return d.i.Mode().Type() }
func (d *dirent) Info() (FileInfo, error) { return Lstat(d.path) }

type stat struct {
	mode  uint32
	size  int64
	mtime int64
}

func snap(i *kern.Inode) stat { return stat{i.StatMode(), i.Size(), i.MTime} }

type info struct {
	name string
	ino  *kern.Inode
	s    stat
}

func (i *info) Name() string { return i.name }
func (i *info) Size() int64  { return i.s.size }
func (i *info) IsDir() bool  { return i.Mode().IsDir() }
func (i *info) Sys() any {
	return &syscall.Stat_t{Ino: uint64(i.ino.Ino), Mode: i.s.mode, Size: i.s.size, Nlink: 1}
}
func (i *info) ModTime() time.Time {
	return time.Unix(1700000000, i.s.mtime)
}

func (i *info) Mode() FileMode {
	m := FileMode(i.s.mode & 0o777)

	switch i.s.mode & syscall.S_IFMT {
	case syscall.S_IFDIR:
		m |= ModeDir
	case syscall.S_IFIFO:
		m |= ModeNamedPipe
	case syscall.S_IFCHR:
		m |= ModeDevice | ModeCharDevice
	case syscall.S_IFLNK:
		m |= ModeSymlink
	}

	return m
}

func base(s string) string {
	s = strings.TrimRight(s, "/")
	if s == "" {
		return "/"
	}

	return s[strings.LastIndex(s, "/")+1:]
}

// SameFile compares identities.
func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(*info)
	y, ok2 := b.(*info)

	return ok1 && ok2 && x.ino == y.ino
}

func perr(op, name string, e syscall.Errno) error { return &PathError{Op: op, Path: name, Err: e} }

// Stat follows links.
func Stat(name string) (FileInfo, error) {
	i, e := shell().Stat(name, true)
	if e != 0 {
		return nil, perr("stat", name, e)
	}

	return &info{base(name), i, snap(i)}, nil
}

// Lstat does not follow a last link.
func Lstat(name string) (FileInfo, error) {
	i, e := shell().Stat(name, false)
	if e != 0 {
		return nil, perr("lstat", name, e)
	}

	return &info{base(name), i, snap(i)}, nil
}

// OpenFile opens.
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	fd, e := shell().Open(name, flag, uint32(perm.Perm()))
	if e != 0 {
		return nil, perr("open", name, e)
	}

	k := shell().Fds[fd].Ino.Kind

	return newFile(fd, name, k == kern.Fifo || k == kern.Tty), nil
}

// Open opens for reading.
func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }

// Create opens for writing, truncating.
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

// Pipe creates a pipe.
func Pipe() (*File, *File, error) {
	r, w, e := shell().MakePipe()
	if e != 0 {
		return nil, nil, NewSyscallError("pipe2", e)
	}

	return newFile(r, "|0", true), newFile(w, "|1", true), nil
}

// ReadFile reads a whole file.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()

	return io.ReadAll(f)
}

// WriteFile writes a whole file.
func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}

	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}

	return err
}

// ReadDir lists a directory, sorted.
func ReadDir(name string) ([]DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()

	rt.Point()

	if f.ofd.Ino.Kind != kern.Dir {
		return nil, f.err("readdirent", syscall.ENOTDIR)
	}

	l := []DirEntry{}
	for _, n := range f.ofd.Ino.Names() {
		i := f.ofd.Ino.Ents[n]
		l = append(l, &dirent{f.ofd.Path + "/" + n, &info{n, i, snap(i)}})
	}

	return l, nil
}

// CreateTemp creates a temporary file.
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}

	pre, suf, _ := strings.Cut(pattern, "*")

	for i := 0; i < 10000; i++ {
		name := dir + "/" + pre + strconv.Itoa(int(scen.Rand("tmp")%1e9)) + suf
		f, err := OpenFile(name, O_RDWR|O_CREATE|O_EXCL, 0o600)
		if IsExist(err) {
			continue
		}

		return f, err
	}

	return nil, perr("createtemp", pattern, syscall.EEXIST)
}

// MkdirTemp creates a temporary directory.
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}

	pre, suf, _ := strings.Cut(pattern, "*")
	name := dir + "/" + pre + strconv.Itoa(int(scen.Rand("tmp")%1e9)) + suf

	return name, Mkdir(name, 0o700)
}

// Mkdir creates a directory.
func Mkdir(name string, perm FileMode) error {
	if e := shell().Mkdir(name, uint32(perm.Perm())); e != 0 {
		return perr("mkdir", name, e)
	}

	return nil
}

// MkdirAll creates a directory and its parents.
func MkdirAll(name string, perm FileMode) error {
	if i, err := Stat(name); err == nil {
		if i.IsDir() {
			return nil
		}

		return perr("mkdir", name, syscall.ENOTDIR)
	}

	if j := strings.LastIndex(strings.TrimRight(name, "/"), "/"); j > 0 {
		if err := MkdirAll(name[:j], perm); err != nil {
			return err
		}
	}

	err := Mkdir(name, perm)
	if errors.Is(err, fs.ErrExist) {
		return nil
	}

	return err
}

// Remove removes a file or empty directory.
func Remove(name string) error {
	e := shell().Unlink(name, false)
	if e == 0 {
		return nil
	}

	e1 := shell().Unlink(name, true)
	if e1 == 0 {
		return nil
	}

	if e1 != syscall.ENOTDIR {
		e = e1
	}

	return perr("remove", name, e)
}

// RemoveAll removes a tree.
func RemoveAll(name string) error {
	if i, err := Lstat(name); err == nil && i.IsDir() {
		l, _ := ReadDir(name)
		for _, d := range l {
			_ = RemoveAll(name + "/" + d.Name())
		}
	}

	err := Remove(name)
	if IsNotExist(err) {
		return nil
	}

	return err
}

// Rename renames.
func Rename(from, to string) error {
	if e := shell().Rename(from, to); e != 0 {
		return &LinkError{"rename", from, to, e}
	}

	return nil
}

// Link makes a hard link.
func Link(from, to string) error {
	if e := shell().Link(from, to); e != 0 {
		return &LinkError{"link", from, to, e}
	}

	return nil
}

// Symlink makes a symbolic link.
func Symlink(from, to string) error {
	if e := shell().Symlink(from, to); e != 0 {
		return &LinkError{"symlink", from, to, e}
	}

	return nil
}

// Readlink reads a symbolic link.
func Readlink(name string) (string, error) {
	i, e := shell().Stat(name, false)
	if e != 0 {
		return "", perr("readlink", name, e)
	}

	if i.Kind != kern.Link {
		return "", perr("readlink", name, syscall.EINVAL)
	}

	return i.Target, nil
}

// Chmod changes a mode.
func Chmod(name string, m FileMode) error {
	i, e := shell().Stat(name, true)
	if e != 0 {
		return perr("chmod", name, e)
	}
	i.Mode = uint32(m.Perm())

	return nil
}

// Truncate changes a file's size.
func Truncate(name string, n int64) error {
	i, e := shell().Stat(name, true)
	if e != 0 {
		return perr("truncate", name, e)
	}

	if e := i.Truncate(n); e != 0 {
		return perr("truncate", name, e)
	}

	return nil
}

// Chdir changes the working directory of the process.
func Chdir(dir string) error {
	if e := shell().Chdir(dir); e != 0 {
		return perr("chdir", dir, e)
	}

	return nil
}

// Getwd returns the working directory.
func Getwd() (string, error) {
	rt.Point()

	return shell().Cwd, nil
}

// TempDir is the directory for temporary files.
func TempDir() string {
	if d := Getenv("TMPDIR"); d != "" {
		return d
	}

	return "/tmp"
}

// UserHomeDir is $HOME.
func UserHomeDir() (string, error) {
	if d := Getenv("HOME"); d != "" {
		return d, nil
	}

	return "", errors.New("$HOME is not defined")
}

// Hostname is the host's name.
func Hostname() (string, error) { return "simhost", nil }

// Executable is the path of the shell.
func Executable() (string, error) { return "/bin/oh", nil }

// ---------------------------------------------------------------- Environment.

// Environ lists the environment.
func Environ() []string { return append([]string(nil), shell().Env...) }

// LookupEnv looks up a variable.
func LookupEnv(k string) (string, bool) {
	for _, e := range shell().Env {
		if strings.HasPrefix(e, k+"=") {
			return e[len(k)+1:], true
		}
	}

	return "", false
}

// Getenv looks up a variable.
func Getenv(k string) string {
	v, _ := LookupEnv(k)

	return v
}

// Setenv sets a variable.
func Setenv(k, v string) error {
	_ = Unsetenv(k)
	p := shell()
	p.Env = append(p.Env, k+"="+v)

	return nil
}

// Unsetenv removes a variable.
func Unsetenv(k string) error {
	p := shell()
	n := []string{}

	for _, e := range p.Env {
		if !strings.HasPrefix(e, k+"=") {
			n = append(n, e)
		}
	}

	p.Env = n

	return nil
}

// Clearenv clears the environment.
func Clearenv() { shell().Env = nil }

// ExpandEnv expands variables.
func ExpandEnv(s string) string { return Expand(s, Getenv) }

func Getpid() int      { return shell().PID }
func Getppid() int     { return shell().PPID }
func Getuid() int      { return 1000 }
func Geteuid() int     { return 1000 }
func Getgid() int      { return 1000 }
func Getegid() int     { return 1000 }
func Getpagesize() int { return 4096 }

// ---------------------------------------------------------------- Processes.

// ProcAttr describes a new process.
type ProcAttr struct {
	Dir   string
	Env   []string
	Files []*File
	Sys   *syscall.SysProcAttr
}

// Process is a child.
type Process struct {
	Pid int
	p   *kern.Proc
}

// ProcessState is how a child ended.
type ProcessState struct {
	pid int
	ws  syscall.WaitStatus
}

func (s *ProcessState) Pid() int      { return s.pid }
func (s *ProcessState) ExitCode() int { return s.ws.ExitStatus() }
func (s *ProcessState) Exited() bool  { return s.ws.Exited() }
func (s *ProcessState) Success() bool { return s.ws.ExitStatus() == 0 }
func (s *ProcessState) Sys() any      { return s.ws }

// StartProcess starts a program.
func StartProcess(name string, argv []string, attr *ProcAttr) (*Process, error) {
	if attr != nil && attr.Sys == nil && attr.Dir != "" {
		if _, err := Stat(attr.Dir); err != nil {
			pe := err.(*PathError)
			pe.Op = "chdir"

			return nil, pe
		}
	}

	s := &kern.Spawn{Path: name, Argv: append([]string(nil), argv...)}

	if attr != nil {
		s.Dir = attr.Dir
		s.Env = attr.Env

		if s.Env == nil {
			s.Env = Environ()
		}

		s.Env = dedup(s.Env)

		for _, f := range attr.Files {
			fd := f.Fd()
			s.Files = append(s.Files, shell().Fds[int(fd)])
			s.Fdn = append(s.Fdn, int(fd))
		}

		if a := attr.Sys; a != nil {
			s.Setpgid, s.Pgid, s.Fg, s.Ctty, s.Setsid = a.Setpgid, a.Pgid, a.Foreground, a.Ctty, a.Setsid
			if s.Fg {
				s.Setpgid = true
			}
		}
	}

	p, e := shell().ForkExec(s)

	runtime.KeepAlive(attr)

	if e != 0 {
		return nil, &PathError{Op: "fork/exec", Path: name, Err: e}
	}

	return &Process{Pid: p.PID, p: p}, nil
}

func dedup(env []string) []string { return env }

// FindProcess finds a process.
func FindProcess(pid int) (*Process, error) { return &Process{Pid: pid}, nil }

// Signal sends a signal.
func (p *Process) Signal(s Signal) error {
	if e := shell().Kill(p.Pid, s.(syscall.Signal)); e != 0 {
		return ErrProcessDone
	}

	return nil
}

// Kill kills.
func (p *Process) Kill() error { return p.Signal(syscall.SIGKILL) }

// Release forgets.
func (p *Process) Release() error { return nil }

// Wait waits.
func (p *Process) Wait() (*ProcessState, error) {
	pid, st, e := shell().Wait4(p.Pid, false, false, false)
	if e != 0 {
		return nil, NewSyscallError("wait", e)
	}

	return &ProcessState{pid, syscall.WaitStatus(st)}, nil
}

// Exit ends the shell.
func Exit(code int) {
	rt.Point()
	shell().Exit(code)
	park()
}

func park() {
	t := rt.Cur()
	t.Frozen = true

	for {
		rt.Block("process has exited")
	}
}
