//go:build go1.22

// Package kern is a small simulated POSIX kernel: processes, signals, process
// groups, a terminal, descriptors, pipes, FIFOs and a file system.
package kern

import (
	"fmt"
	"path"
	"sort"
	"strings"
	"syscall"

	"zsim/rt"
)

// Errno is syscall.Errno.
type Errno = syscall.Errno

// Inode kinds.
const (
	Reg  = 'f'
	Dir  = 'd'
	Fifo = 'p'
	Null = 'n'
	Zero = 'z'
	Tty  = 't'
	Link = 'l'
	Sink = 's' // Recording output stream.
)

// Chunk is one recorded write.
type Chunk struct {
	Step int64
	Time int64
	PID  int
	Data string
}

// Inode is a file.
type Inode struct {
	Ino    int
	Kind   byte
	Mode   uint32
	Data   []byte
	Ents   map[string]*Inode
	Pipe   *Pipe
	Prog   string
	Target string
	MTime  int64
	Nlink  int
	Log    []Chunk
	Writes int // Writes accepted.
}

// Pipe is a pipe or FIFO buffer.
type Pipe struct {
	ID      int
	buf     []byte
	Cap     int
	readers int
	writers int
	rgen    int
	wgen    int
	q       []*rt.Task // Everybody waiting for a change.
}

// OFD is an open file description.
type OFD struct {
	Ino      *Inode
	Pipe     *Pipe
	Path     string
	Pos      int64
	Rd, Wr   bool
	App      bool
	Nonblock bool
	refs     int
	clock    rt.Clock
}

// Signal dispositions.
const (
	SigDfl = iota
	SigIgn
	SigNotify
)

// Proc is a simulated process.
type Proc struct {
	PID, PPID, PGID, SID int
	Name                 string
	Argv                 []string
	Env                  []string
	Cwd                  string
	Umask                uint32
	Fds                  map[int]*OFD
	MaxFds               int
	State                byte // R, T (stopped), Z, X (gone).
	Status               uint32
	Children             []*Proc
	Disp                 map[int]int
	Pending              uint64
	Tasks                []*rt.Task
	StopPending          bool
	ContPending          bool
	waitq                []*rt.Task
	sigq                 []*rt.Task
	IsShell              bool
	Parent               *Proc
	StartStep            int64
	EndStep              int64
	StopSig              int
	Faultable            bool
	ByStub               bool
	Reaped               bool
	FgAtStart            bool // Its group was the terminal's foreground group at exec.
	TtyModeAtStart       TtyMode
	Files0               [3]*OFD // Initial standard descriptors.
}

// Ev is an event of the run's history.
type Ev struct {
	Step int64
	Time int64
	Kind string
	PID  int
	Task int
	Text string
}

// Kern is the kernel's state.
type Kern struct {
	Root   *Inode
	Procs  map[int]*Proc
	Order  []*Proc
	Shell  *Proc
	Tty    *TTY
	nino   int
	npid   int
	npipe  int
	Progs  map[string]func(p *Proc) int
	Events []Ev

	PipeCap   int
	CoreDump  bool
	DiskLeft  int64 // -1: unlimited.
	PidReuse  bool
	MaxProcs  int
	Fault     map[string]float64
	FaultsOn  bool
	FaultN    int
	FaultMax  int
	LastFault int64

	LookHook func(p *Proc, path string) // Called with every path the shell stats or opens.

	ExitFn func(p *Proc)
	ForkFn func(p *Proc)
	ZFree  []int
}

// K is the kernel.
var K *Kern

// New creates a kernel with an empty file system.
func New() *Kern {
	k := &Kern{
		Procs:    map[int]*Proc{},
		Progs:    map[string]func(p *Proc) int{},
		PipeCap:  65536,
		DiskLeft: -1,
		Fault:    map[string]float64{},
		npid:     100,
		FaultMax: 1 << 30,
		MaxProcs: 1 << 30,
	}

	K = k
	k.Root = k.newInode(Dir, 0o755)

	return k
}

func (k *Kern) newInode(kind byte, mode uint32) *Inode {
	k.nino++
	i := &Inode{Ino: k.nino, Kind: kind, Mode: mode, Nlink: 1, MTime: rt.Now}

	if kind == Dir {
		i.Ents = map[string]*Inode{}
	}

	return i
}

// Log records an event.
func (k *Kern) Log(kind string, pid int, text string) {
	id := -1
	if t := rt.Cur(); t != nil {
		id = t.ID
	}

	k.Events = append(k.Events, Ev{rt.Steps, rt.Now, kind, pid, id, text})
	if rt.TraceOn {
		rt.Trace("%s pid=%d %s", kind, pid, text)
	}
}

// Inject decides whether to inject a fault of the given kind.
func (k *Kern) Inject(p *Proc, kind string) bool {
	pr := k.Fault[kind]
	if pr <= 0 || !k.FaultsOn || !p.IsShell || k.FaultN >= k.FaultMax {
		return false
	}

	if rt.Choose("fault:"+kind, 2, pr) == 1 {
		k.FaultN++
		k.LastFault = rt.Steps
		k.Log("fault", p.PID, kind)

		return true
	}

	return false
}

// ---------------------------------------------------------------- Paths.

// Clean makes an absolute cleaned path relative to cwd.
func Clean(cwd, p string) string {
	if !strings.HasPrefix(p, "/") {
		p = cwd + "/" + p
	}

	return path.Clean(p)
}

// Lookup resolves an absolute or cwd-relative path.
func (k *Kern) Lookup(cwd, p string, follow bool) (*Inode, Errno) {
	return k.lookup(cwd, p, follow, 0)
}

func (k *Kern) lookup(cwd, p string, follow bool, depth int) (*Inode, Errno) {
	if p == "" {
		return nil, syscall.ENOENT
	}

	if len(p) > 4095 || strings.IndexByte(p, 0) >= 0 {
		if strings.IndexByte(p, 0) >= 0 {
			return nil, syscall.EINVAL
		}

		return nil, syscall.ENAMETOOLONG
	}

	if depth > 10 {
		return nil, syscall.ELOOP
	}

	slash := strings.HasSuffix(p, "/") || strings.HasSuffix(p, "/.")

	if !strings.HasPrefix(p, "/") {
		p = cwd + "/" + p
	}

	n := k.Root
	parts := strings.Split(p, "/")
	stack := []*Inode{}
	at := ""
	ats := []string{}

	for i, c := range parts {
		if c == "" || c == "." {
			continue
		}

		if n.Kind != Dir {
			return nil, syscall.ENOTDIR
		}

		if c == ".." {
			if len(stack) > 0 {
				n = stack[len(stack)-1]
				at = ats[len(ats)-1]
				stack, ats = stack[:len(stack)-1], ats[:len(ats)-1]
			}

			continue
		}

		if len(c) > 255 {
			return nil, syscall.ENAMETOOLONG
		}

		m := n.Ents[c]
		if m == nil {
			return nil, syscall.ENOENT
		}

		last := true
		for _, r := range parts[i+1:] {
			if r != "" && r != "." {
				last = false
			}
		}

		if m.Kind == Link && (!last || follow || slash) {
			t := m.Target
			if !strings.HasPrefix(t, "/") {
				t = at + "/" + t
			}

			rest := strings.Join(parts[i+1:], "/")
			if rest != "" {
				t += "/" + rest
			}

			return k.lookup("/", t, follow, depth+1)
		}

		stack, ats = append(stack, n), append(ats, at)
		at += "/" + c
		n = m
	}

	if slash && n.Kind != Dir {
		return nil, syscall.ENOTDIR
	}

	return n, 0
}

// Mkdirs creates a directory and its parents.
func (k *Kern) Mkdirs(p string) *Inode {
	n := k.Root

	for _, c := range strings.Split(path.Clean(p), "/") {
		if c == "" {
			continue
		}

		m := n.Ents[c]
		if m == nil {
			m = k.newInode(Dir, 0o755)
			n.Ents[c] = m
		}

		n = m
	}

	return n
}

// Put creates a node.
func (k *Kern) Put(p string, kind byte, mode uint32, data string) *Inode {
	d := k.Mkdirs(path.Dir(p))
	i := k.newInode(kind, mode)
	i.Data = []byte(data)

	if kind == Link {
		i.Target = data
	}

	if kind == Fifo {
		i.Pipe = k.newPipe()
	}

	d.Ents[path.Base(p)] = i

	return i
}

// Remove removes a node.
func (k *Kern) Remove(p string) {
	d, e := k.Lookup("/", path.Dir(p), true)
	if e == 0 && d.Kind == Dir {
		delete(d.Ents, path.Base(p))
	}
}

// Read returns a regular file's contents.
func (k *Kern) Read(p string) (string, bool) {
	i, e := k.Lookup("/", p, true)
	if e != 0 || i.Kind != Reg {
		return "", false
	}

	return string(i.Data), true
}

// List lists a directory.
func (k *Kern) List(p string) []string {
	i, e := k.Lookup("/", p, true)
	if e != 0 || i.Kind != Dir {
		return nil
	}

	return i.Names()
}

// Names returns the sorted names in a directory.
func (i *Inode) Names() []string {
	n := make([]string, 0, len(i.Ents))
	for x := range i.Ents {
		n = append(n, x)
	}

	sort.Strings(n)

	return n
}

// Size is the size reported by stat.
func (i *Inode) Size() int64 { return int64(len(i.Data)) }

// StatMode returns the Unix mode.
func (i *Inode) StatMode() uint32 {
	m := i.Mode & 0o7777

	switch i.Kind {
	case Reg, Sink:
		m |= syscall.S_IFREG
	case Dir:
		m |= syscall.S_IFDIR
	case Fifo:
		m |= syscall.S_IFIFO
	case Null, Zero, Tty:
		m |= syscall.S_IFCHR
	case Link:
		m |= syscall.S_IFLNK
	}

	return m
}

func (p *Proc) parent(name string) (*Inode, string, Errno) {
	if name == "" {
		return nil, "", syscall.ENOENT
	}

	trimmed := strings.TrimRight(name, "/")
	if trimmed == "" {
		return nil, "", syscall.EEXIST
	}

	d, b := path.Split(trimmed)
	if d == "" {
		d = "."
	}

	i, e := K.Lookup(p.Cwd, d, true)
	if e != 0 {
		return nil, "", e
	}

	if i.Kind != Dir {
		return nil, "", syscall.ENOTDIR
	}

	return i, b, 0
}

// ---------------------------------------------------------------- System calls on files.

// Wait blocks the current task until one of the queues is woken.
func Wait(why string, qs ...*[]*rt.Task) { wait(why, qs...) }

func wait(why string, qs ...*[]*rt.Task) {
	t := rt.Cur()

	for _, q := range qs {
		*q = append(*q, t)
	}

	defer func() { // Also when the task is killed.
		for _, q := range qs {
			for i, x := range *q {
				if x == t {
					*q = append(append([]*rt.Task{}, (*q)[:i]...), (*q)[i+1:]...)

					break
				}
			}
		}
	}()

	rt.Block(why)
}

func wakeAll(q []*rt.Task) {
	for _, t := range append([]*rt.Task{}, q...) {
		rt.Ready(t)
	}
}

func (k *Kern) newPipe() *Pipe {
	k.npipe++

	return &Pipe{ID: k.npipe, Cap: k.PipeCap}
}

// Enter marks the start of a system call.
func (p *Proc) Enter() {
	rt.Point()
}

func (p *Proc) lowest() int {
	for fd := 0; ; fd++ {
		if _, ok := p.Fds[fd]; !ok {
			return fd
		}
	}
}

func (p *Proc) install(o *OFD) int {
	fd := p.lowest()
	p.Fds[fd] = o
	o.get()

	return fd
}

func (o *OFD) get() {
	o.refs++

	if o.refs == 1 && o.Pipe != nil {
		if o.Rd {
			o.Pipe.readers++
			o.Pipe.rgen++
		}
		if o.Wr {
			o.Pipe.writers++
			o.Pipe.wgen++
		}
		wakeAll(o.Pipe.q)
	}
}

func (o *OFD) put() {
	o.refs--

	if o.refs == 0 && o.Pipe != nil {
		if o.Rd {
			o.Pipe.readers--
		}
		if o.Wr {
			o.Pipe.writers--
		}
		if o.Pipe.readers == 0 && o.Pipe.writers == 0 {
			o.Pipe.buf = nil
		}
		wakeAll(o.Pipe.q)
	}
}

// Get duplicates the reference to an OFD.
func (o *OFD) Get() *OFD { o.get(); return o }

// Put drops a reference.
func (o *OFD) Put() { o.put() }

// Open opens a file.
func (p *Proc) Open(name string, flags int, mode uint32) (int, Errno) {
	p.Enter()

	if K.LookHook != nil {
		K.LookHook(p, name)
	}

	if K.Inject(p, "open-emfile") || len(p.Fds) >= p.MaxFds {
		return -1, syscall.EMFILE
	}

	if K.Inject(p, "open-eio") {
		return -1, syscall.EIO
	}

	if K.Inject(p, "open-eacces") {
		return -1, syscall.EACCES
	}

	acc := flags & syscall.O_ACCMODE
	rd := acc == syscall.O_RDONLY || acc == syscall.O_RDWR
	wr := acc == syscall.O_WRONLY || acc == syscall.O_RDWR

	i, e := K.Lookup(p.Cwd, name, flags&syscall.O_NOFOLLOW == 0)

	switch {
	case e == 0 && flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0:
		return -1, syscall.EEXIST

	case e == syscall.ENOENT && flags&syscall.O_CREAT != 0:
		d, b, e2 := p.parent(name)
		if e2 != 0 {
			return -1, e2
		}

		if strings.HasSuffix(name, "/") {
			return -1, syscall.EISDIR
		}

		if old := d.Ents[b]; old != nil { // Dangling link.
			return -1, syscall.ENOENT
		}

		if K.Inject(p, "open-enospc") || K.DiskLeft == 0 {
			return -1, syscall.ENOSPC
		}

		i = K.newInode(Reg, mode&^p.Umask&0o7777)
		d.Ents[b] = i
		e = 0

		K.Log("create", p.PID, Clean(p.Cwd, name))

	case e != 0:
		return -1, e

	default:
		if i.Kind == Dir && wr {
			return -1, syscall.EISDIR
		}

		if flags&syscall.O_DIRECTORY != 0 && i.Kind != Dir {
			return -1, syscall.ENOTDIR
		}

		if rd && i.Mode&0o400 == 0 || wr && i.Mode&0o200 == 0 {
			return -1, syscall.EACCES
		}

		if flags&syscall.O_TRUNC != 0 && i.Kind == Reg && wr {
			K.Log("trunc", p.PID, Clean(p.Cwd, name))

			if K.DiskLeft >= 0 {
				K.DiskLeft += int64(len(i.Data))
			}
			i.Data = nil
			i.MTime = rt.Now
		}
	}

	o := &OFD{Ino: i, Path: Clean(p.Cwd, name), Rd: rd, Wr: wr, App: flags&syscall.O_APPEND != 0,
		Nonblock: flags&syscall.O_NONBLOCK != 0}

	if i.Kind == Fifo {
		o.Pipe = i.Pipe
		pi := i.Pipe

		if pi.readers == 0 && pi.writers == 0 {
			pi.buf = nil
		}

		if acc == syscall.O_WRONLY && o.Nonblock && pi.readers == 0 {
			return -1, syscall.ENXIO
		}

		o.get() // Counts as open while waiting for the other side.

		ok := false

		defer func() {
			if !ok { // Killed while waiting.
				o.put()
			}
		}()

		if !o.Nonblock {
			if acc == syscall.O_RDONLY && pi.writers == 0 {
				g := pi.wgen
				for pi.wgen == g {
					wait("open fifo for reading", &pi.q)
				}
			} else if acc == syscall.O_WRONLY && pi.readers == 0 {
				g := pi.rgen
				for pi.rgen == g {
					wait("open fifo for writing", &pi.q)
				}
			}
		}

		fd := p.lowest()
		p.Fds[fd] = o
		ok = true

		return fd, 0
	}

	return p.install(o), 0
}

// MakePipe creates a pipe.
func (p *Proc) MakePipe() (r, w int, e Errno) {
	p.Enter()

	if K.Inject(p, "pipe-emfile") || len(p.Fds)+2 > p.MaxFds {
		return -1, -1, syscall.EMFILE
	}

	pi := K.newPipe()
	i := K.newInode(Fifo, 0o600)
	i.Pipe = pi

	r = p.install(&OFD{Ino: i, Pipe: pi, Rd: true, Path: fmt.Sprintf("pipe:[%d]r", pi.ID)})
	w = p.install(&OFD{Ino: i, Pipe: pi, Wr: true, Path: fmt.Sprintf("pipe:[%d]w", pi.ID)})

	return r, w, 0
}

// Close closes a descriptor.
func (p *Proc) Close(fd int) Errno {
	rt.Point()

	o := p.Fds[fd]
	if o == nil {
		return syscall.EBADF
	}

	delete(p.Fds, fd)
	o.put()

	if K.Inject(p, "close-eio") && o.Ino.Kind == Reg {
		return syscall.EIO
	}

	return 0
}

// Dup2 duplicates a descriptor.
func (p *Proc) Dup2(o *OFD, fd int) {
	if x := p.Fds[fd]; x != nil {
		x.put()
	}

	p.Fds[fd] = o
	o.get()
}

// ReadOFD reads.
func (p *Proc) ReadOFD(o *OFD, b []byte) (int, Errno) {
	p.Enter()

	if !o.Rd {
		return -1, syscall.EBADF
	}

	if len(b) == 0 {
		return 0, 0
	}

	switch o.Ino.Kind {
	case Null:
		return 0, 0

	case Zero:
		for i := range b {
			b[i] = 0
		}

		return len(b), 0

	case Dir:
		return -1, syscall.EISDIR

	case Sink:
		return 0, 0

	case Tty:
		return p.ttyRead(o, b)

	case Reg:
		if K.Inject(p, "read-eio") {
			return -1, syscall.EIO
		}

		if o.Pos >= int64(len(o.Ino.Data)) {
			return 0, 0
		}

		n := copy(b, o.Ino.Data[o.Pos:])
		if n > 1 && p.IsShell {
			if v := rt.Choose("short-read", n, K.Fault["short-read"]); v != 0 {
				n = v
			}
		}

		o.Pos += int64(n)

		return n, 0
	}

	pi := o.Pipe

	for {
		if len(pi.buf) > 0 {
			n := copy(b, pi.buf)
			if n > 1 && p.IsShell {
				if v := rt.Choose("short-read", n, K.Fault["short-read"]); v != 0 {
					n = v
				}
			}
			pi.buf = pi.buf[n:]
			if rt.TraceOn {
				rt.Trace("pipe %d pid=%d read %q", pi.ID, p.PID, b[:n])
			}

			wakeAll(pi.q)
			o.clock.Acquire()

			return n, 0
		}

		if pi.writers == 0 {
			if rt.TraceOn {
				rt.Trace("pipe %d pid=%d end of file", pi.ID, p.PID)
			}

			return 0, 0
		}

		if o.Nonblock {
			return -1, syscall.EAGAIN
		}

		wait(fmt.Sprintf("read pipe %d", pi.ID), &pi.q)
	}
}

// WriteOFD writes.
func (p *Proc) WriteOFD(o *OFD, b []byte) (int, Errno) {
	p.Enter()

	if !o.Wr {
		return -1, syscall.EBADF
	}

	switch o.Ino.Kind {
	case Null, Zero:
		return len(b), 0

	case Tty:
		K.Tty.Out.Log = append(K.Tty.Out.Log, Chunk{rt.Steps, rt.Now, p.PID, string(b)})
		if OnTtyOut != nil {
			OnTtyOut(string(b))
		}

		return len(b), 0

	case Sink:
		o.Ino.Log = append(o.Ino.Log, Chunk{rt.Steps, rt.Now, p.PID, string(b)})
		o.Ino.Data = append(o.Ino.Data, b...)

		if rt.TraceOn {
			rt.Trace("out pid=%d %q", p.PID, b)
		}

		return len(b), 0

	case Dir:
		return -1, syscall.EBADF

	case Reg:
		if K.Inject(p, "write-eio") {
			return -1, syscall.EIO
		}

		if K.Inject(p, "write-enospc") {
			return -1, syscall.ENOSPC
		}

		if K.DiskLeft >= 0 && int64(len(b)) > K.DiskLeft {
			if K.DiskLeft == 0 {
				rt.Fired["disk-full"]++

				return -1, syscall.ENOSPC
			}

			b = b[:K.DiskLeft]
		}

		if o.App {
			o.Pos = int64(len(o.Ino.Data))
		}

		n := len(b)
		if n > 1 && p.IsShell {
			if v := rt.Choose("short-write", n, K.Fault["short-write"]); v != 0 {
				n = v
			}
		}

		b = b[:n]

		end := o.Pos + int64(n)
		old := int64(len(o.Ino.Data))

		if end > old {
			d := make([]byte, end)
			copy(d, o.Ino.Data)
			o.Ino.Data = d

			if K.DiskLeft >= 0 {
				K.DiskLeft -= end - old
			}
		}

		copy(o.Ino.Data[o.Pos:], b)
		o.Pos = end
		o.Ino.MTime = rt.Now
		o.Ino.Writes++

		return n, 0
	}

	pi := o.Pipe
	done := 0
	if rt.TraceOn {
		rt.Trace("pipe %d pid=%d write %q", pi.ID, p.PID, b)
	}

	for {
		if pi.readers == 0 {
			if done > 0 {
				return done, 0
			}

			if !p.IsShell {
				p.Signal(syscall.SIGPIPE)
				p.checkAlive()
			}

			return -1, syscall.EPIPE
		}

		space := pi.Cap - len(pi.buf)
		rest := b[done:]
		n := 0

		if len(b) <= 4096 {
			if space >= len(rest) {
				n = len(rest)
			}
		} else if space > 0 {
			n = len(rest)
			if n > space {
				n = space
			}
		}

		if n > 0 {
			pi.buf = append(append([]byte{}, pi.buf...), rest[:n]...)
			done += n

			wakeAll(pi.q)
			o.clock.Release()
		}

		if done == len(b) {
			return done, 0
		}

		rt.Probes["pipe-full"]++

		if o.Nonblock {
			if done > 0 {
				return done, 0
			}

			return -1, syscall.EAGAIN
		}

		wait(fmt.Sprintf("write pipe %d", pi.ID), &pi.q)
	}
}

// checkAlive unwinds a killed process and waits while it is stopped.
func (p *Proc) checkAlive() {
	t := rt.Cur()
	if t.Killed {
		rt.Vanish()
	}

	if t.Frozen {
		rt.Yield()
	}
}

// Stat stats a path.
func (p *Proc) Stat(name string, follow bool) (*Inode, Errno) {
	p.Enter()

	if K.LookHook != nil {
		K.LookHook(p, name)
	}

	if K.Inject(p, "stat-eio") {
		return nil, syscall.EIO
	}

	return K.Lookup(p.Cwd, name, follow)
}

// Unlink removes a file or, with dir set, an empty directory.
func (p *Proc) Unlink(name string, dir bool) Errno {
	p.Enter()

	d, b, e := p.parent(name)
	if e != 0 {
		return e
	}

	i := d.Ents[b]
	if i == nil {
		return syscall.ENOENT
	}

	if i.Kind == Dir {
		if !dir {
			return syscall.EISDIR
		}
		if len(i.Ents) > 0 {
			return syscall.ENOTEMPTY
		}
	} else if dir {
		return syscall.ENOTDIR
	}

	delete(d.Ents, b)
	K.Log("unlink", p.PID, Clean(p.Cwd, name))

	return 0
}

// Rename renames.
func (p *Proc) Rename(from, to string) Errno {
	p.Enter()

	if K.Inject(p, "rename-eio") {
		return syscall.EIO
	}

	d, b, e := p.parent(from)
	if e != 0 {
		return e
	}

	i := d.Ents[b]
	if i == nil {
		return syscall.ENOENT
	}

	d2, b2, e := p.parent(to)
	if e != 0 {
		return e
	}

	if o := d2.Ents[b2]; o != nil && o.Kind == Dir {
		return syscall.EEXIST
	}

	delete(d.Ents, b)
	d2.Ents[b2] = i

	K.Log("rename", p.PID, Clean(p.Cwd, from)+" "+Clean(p.Cwd, to))

	return 0
}

// Mkdir creates a directory.
func (p *Proc) Mkdir(name string, mode uint32) Errno { return p.mknod(name, Dir, mode, "") }

// Mkfifo creates a FIFO.
func (p *Proc) Mkfifo(name string, mode uint32) Errno { return p.mknod(name, Fifo, mode, "") }

// Symlink creates a symbolic link.
func (p *Proc) Symlink(target, name string) Errno { return p.mknod(name, Link, 0o777, target) }

func (p *Proc) mknod(name string, kind byte, mode uint32, target string) Errno {
	p.Enter()

	if K.Inject(p, "mknod-enospc") {
		return syscall.ENOSPC
	}

	d, b, e := p.parent(name)
	if e != 0 {
		return e
	}

	if d.Ents[b] != nil {
		return syscall.EEXIST
	}

	i := K.newInode(kind, mode&^p.Umask)
	i.Target = target

	if kind == Fifo {
		i.Pipe = K.newPipe()
	}

	d.Ents[b] = i
	K.Log("mknod", p.PID, string(kind)+" "+Clean(p.Cwd, name))

	return 0
}

// Chdir changes the working directory.
func (p *Proc) Chdir(name string) Errno {
	p.Enter()

	i, e := K.Lookup(p.Cwd, name, true)
	if e != 0 {
		return e
	}

	if i.Kind != Dir {
		return syscall.ENOTDIR
	}

	if i.Mode&0o100 == 0 {
		return syscall.EACCES
	}

	p.Cwd = Clean(p.Cwd, name)

	return 0
}

// ---------------------------------------------------------------- Processes.

// NewProc creates a process record.
func (k *Kern) NewProc(parent *Proc, name string) *Proc {
	var pid int

	if k.PidReuse && len(k.ZFree) > 0 {
		pid = k.ZFree[0]
		k.ZFree = k.ZFree[1:]
		rt.Probes["pid-reused"]++
	} else {
		k.npid++
		pid = k.npid
	}

	p := &Proc{
		PID: pid, PGID: pid, SID: pid, Name: name, State: 'R', Cwd: "/", Umask: 0o22,
		Fds: map[int]*OFD{}, MaxFds: 1 << 20, Disp: map[int]int{}, Parent: parent,
		StartStep: rt.Steps,
	}

	if parent != nil {
		p.PPID, p.PGID, p.SID = parent.PID, parent.PGID, parent.SID
		p.Cwd, p.Umask = parent.Cwd, parent.Umask
		parent.Children = append(parent.Children, p)
	}

	k.Procs[pid] = p
	k.Order = append(k.Order, p)

	return p
}

// Spawn describes a new process.
type Spawn struct {
	Path     string
	Argv     []string
	Env      []string
	Dir      string
	Files    []*OFD // nil: closed.
	Fdn      []int  // Descriptors in the parent, resolved at fork.
	Setpgid  bool
	Pgid     int
	Fg       bool
	Ctty     int
	Setsid   bool
	Unticked bool
}

// ForkExec starts a program.
func (p *Proc) ForkExec(s *Spawn) (*Proc, Errno) {
	p.Enter()

	if K.Inject(p, "fork-eagain") {
		return nil, syscall.EAGAIN
	}

	n := 0
	for _, c := range p.Children {
		if c.State != 'X' {
			n++
		}
	}

	if n >= K.MaxProcs {
		return nil, syscall.EAGAIN
	}

	if s.Fdn != nil {
		s.Files = nil

		for _, fd := range s.Fdn {
			o := p.Fds[fd]
			if o == nil && fd >= 0 {
				return nil, syscall.EBADF
			}

			s.Files = append(s.Files, o)
		}
	}

	// What the forked child does before exec. Any failure is reported to the
	// parent, which reaps the child.
	if s.Setpgid && s.Pgid != 0 {
		ok := false
		for _, q := range K.Order {
			if q.State != 'X' && q.PGID == s.Pgid && q.SID == p.SID {
				ok = true
			}
		}

		if !ok {
			return nil, syscall.EPERM
		}
	}

	if s.Fg {
		o := p.Fds[s.Ctty]
		if o == nil || o.Ino.Kind != Tty {
			return nil, syscall.ENOTTY
		}
	}

	cwd := p.Cwd
	if s.Dir != "" {
		i, e := K.Lookup(p.Cwd, s.Dir, true)
		if e != 0 {
			return nil, e
		}
		if i.Kind != Dir {
			return nil, syscall.ENOTDIR
		}
		cwd = Clean(p.Cwd, s.Dir)
	}

	i, e := K.Lookup(cwd, s.Path, true)
	if e != 0 {
		return nil, e
	}

	if i.Kind != Reg || i.Mode&0o111 == 0 {
		return nil, syscall.EACCES
	}

	prog := K.Progs[i.Prog]
	if prog == nil {
		return nil, syscall.ENOEXEC
	}

	if K.Inject(p, "exec-enomem") {
		return nil, syscall.ENOMEM
	}

	c := K.NewProc(p, i.Prog)
	c.Argv, c.Env, c.Cwd = s.Argv, s.Env, cwd
	c.ByStub = !p.IsShell

	for sig, d := range p.Disp {
		if d == SigIgn {
			c.Disp[sig] = SigIgn
		}
	}

	if s.Setpgid {
		c.PGID = s.Pgid
		if s.Pgid == 0 {
			c.PGID = c.PID
		}
	}

	if s.Fg {
		K.Tty.SetFg(c.PGID, p)
	}

	for fd, o := range s.Files {
		if o != nil {
			c.Fds[fd] = o
			o.get()

			if fd < 3 {
				c.Files0[fd] = o
			}
		}
	}

	if K.Tty != nil {
		c.FgAtStart = K.Tty.Fg == c.PGID
		c.TtyModeAtStart = K.Tty.Mode
	}

	K.Log("exec", c.PID, strings.Join(s.Argv, " "))
	if OnExec != nil {
		OnExec(c)
	}

	if K.ForkFn != nil {
		K.ForkFn(c)
	}

	t := rt.Start(i.Prog, c, func() {
		c.Exit(prog(c))
	})
	c.Tasks = append(c.Tasks, t)

	return c, 0
}

// Exit terminates the calling process.
func (p *Proc) Exit(code int) {
	p.die(uint32(code&0xff) << 8)
}

func (p *Proc) die(status uint32) {
	if p.State == 'Z' || p.State == 'X' {
		return
	}

	p.State = 'Z'
	p.Status = status
	p.EndStep = rt.Steps

	K.Log("exit", p.PID, fmt.Sprintf("%s status=%#x", p.Name, status))

	fds := []int{}
	for fd := range p.Fds {
		fds = append(fds, fd)
	}
	sort.Ints(fds)

	for _, fd := range fds {
		o := p.Fds[fd]
		delete(p.Fds, fd)
		o.put()
	}

	for _, t := range p.tasks() {
		if t.State != rt.Done && t != rt.Cur() {
			t.Killed = true
			rt.Ready(t)
		} else if t == rt.Cur() {
			t.Killed = true
		}
	}

	for _, c := range p.Children {
		c.PPID, c.Parent = 1, nil
		if c.State == 'Z' {
			c.State = 'X'
		}
	}

	if K.ExitFn != nil {
		K.ExitFn(p)
	}

	p.tellParent()
}

func (p *Proc) tellParent() {
	q := p.Parent
	if q == nil || q.State == 'X' || q.State == 'Z' {
		if p.State == 'Z' {
			p.State = 'X'
		}

		return
	}

	q.Signal(syscall.SIGCHLD)
	wakeAll(q.waitq)
}

// WaitStatus encodings.
const (
	wContinued = 0xffff
)

// Wait4 implements wait4(-1 or pid).
func (p *Proc) Wait4(pid int, nohang, untraced, continued bool) (int, uint32, Errno) {
	p.Enter()

	for {
		any := false

		for _, c := range p.Children {
			if c.State == 'X' || pid > 0 && c.PID != pid || pid < -1 && c.PGID != -pid || pid == 0 && c.PGID != p.PGID {
				continue
			}

			any = true

			switch {
			case c.State == 'Z':
				c.State = 'X'
				c.Reaped = true
				delete(K.Procs, c.PID)

				for i, x := range p.Children {
					if x == c {
						p.Children = append(append([]*Proc{}, p.Children[:i]...), p.Children[i+1:]...)

						break
					}
				}

				if K.PidReuse && !K.groupAlive(c.PID) {
					K.ZFree = append(K.ZFree, c.PID)
				}

				K.Log("reap", c.PID, fmt.Sprintf("status=%#x", c.Status))

				return c.PID, c.Status, 0

			case c.State == 'T' && c.StopPending && untraced:
				c.StopPending = false

				return c.PID, uint32(c.StopSig)<<8 | 0x7f, 0

			case c.ContPending && continued:
				c.ContPending = false

				return c.PID, wContinued, 0
			}
		}

		if !any {
			return -1, 0, syscall.ECHILD
		}

		if nohang {
			return 0, 0, 0
		}

		wait("wait4", &p.waitq)
	}
}

func (k *Kern) groupAlive(g int) bool {
	for _, q := range k.Order {
		if q.State != 'X' && q.PGID == g {
			return true
		}
	}

	return false
}

// Setpgid sets a process's group.
func (p *Proc) Setpgid(pid, pgid int) Errno {
	p.Enter()

	q := p
	if pid != 0 {
		q = K.Procs[pid]
	}

	if q == nil {
		return syscall.ESRCH
	}

	if pgid == 0 {
		pgid = q.PID
	}

	if pgid != q.PID && !K.groupAlive(pgid) {
		return syscall.EPERM
	}

	q.PGID = pgid

	return 0
}

// ---------------------------------------------------------------- Signals.

func defaultAction(sig syscall.Signal) byte {
	switch sig {
	case syscall.SIGCHLD, syscall.SIGURG, syscall.SIGWINCH, syscall.SIGCONT:
		return 'i'
	case syscall.SIGSTOP, syscall.SIGTSTP, syscall.SIGTTIN, syscall.SIGTTOU:
		return 's'
	case syscall.SIGQUIT, syscall.SIGILL, syscall.SIGTRAP, syscall.SIGABRT, syscall.SIGBUS, syscall.SIGFPE,
		syscall.SIGSEGV, syscall.SIGXCPU, syscall.SIGXFSZ, syscall.SIGSYS:
		return 'c'
	}

	return 't'
}

// Kill implements kill(2).
func (p *Proc) Kill(pid int, sig syscall.Signal) Errno {
	p.Enter()

	return K.Kill(pid, sig)
}

// Kill sends a signal to a process or, if negative, a group.
func (k *Kern) Kill(pid int, sig syscall.Signal) Errno {
	if pid > 0 {
		q := k.Procs[pid]
		if q == nil || q.State == 'X' {
			return syscall.ESRCH
		}

		if q.State != 'Z' && sig != 0 {
			q.Signal(sig)
		}

		return 0
	}

	found := false

	for _, q := range append([]*Proc{}, k.Order...) {
		if q.State != 'X' && q.PGID == -pid {
			found = true

			if q.State != 'Z' && sig != 0 {
				q.Signal(sig)
			}
		}
	}

	if !found {
		return syscall.ESRCH
	}

	return 0
}

// Signal delivers a signal to p.
func (p *Proc) Signal(sig syscall.Signal) {
	if p.State == 'Z' || p.State == 'X' {
		return
	}

	if sig != syscall.SIGCHLD {
		K.Log("signal", p.PID, sig.String())
	}

	switch sig {
	case syscall.SIGKILL:
		p.terminate(sig)

		return

	case syscall.SIGCONT:
		p.cont()

		if p.Disp[int(sig)] == SigNotify {
			p.notify(sig)
		}

		return

	case syscall.SIGSTOP:
		p.stop(sig)

		return
	}

	d := p.Disp[int(sig)]
	if d == SigIgn {
		return
	}

	if d == SigNotify {
		p.notify(sig)

		return
	}

	switch defaultAction(sig) {
	case 'i':
	case 's':
		p.stop(sig)
	default:
		if p.State == 'T' {
			p.Pending |= 1 << uint(sig)

			return
		}

		p.terminate(sig)
	}
}

func (p *Proc) notify(sig syscall.Signal) {
	p.Pending |= 1 << uint(sig)
	wakeAll(p.sigq)
}

// NextSignal blocks until a signal to be notified is pending.
func (p *Proc) NextSignal() syscall.Signal {
	for {
		for s := 1; s < 64; s++ {
			if p.Pending&(1<<uint(s)) != 0 && p.Disp[s] == SigNotify {
				p.Pending &^= 1 << uint(s)

				return syscall.Signal(s)
			}
		}

		wait("signal", &p.sigq)
	}
}

func (p *Proc) terminate(sig syscall.Signal) {
	st := uint32(sig)
	if defaultAction(sig) == 'c' && K.CoreDump {
		st |= 0x80
	}

	for _, t := range p.tasks() {
		t.Frozen = false
	}

	p.die(st)
}

func (p *Proc) stop(sig syscall.Signal) {
	if p.State == 'T' {
		return
	}

	p.State = 'T'
	p.StopSig = int(sig)
	p.StopPending = true
	p.ContPending = false

	for _, t := range p.tasks() {
		t.Frozen = true
	}

	K.Log("stopped", p.PID, p.Name)
	p.tellParent()
}

func (p *Proc) cont() {
	if p.State != 'T' {
		return
	}

	p.State = 'R'
	p.StopPending = false
	p.ContPending = true

	for _, t := range p.tasks() {
		t.Frozen = false
	}

	K.Log("continued", p.PID, p.Name)
	p.tellParent()

	pend := p.Pending
	p.Pending = 0

	for s := 1; s < 64; s++ {
		if pend&(1<<uint(s)) != 0 {
			p.Signal(syscall.Signal(s))
		}
	}
}

// ---------------------------------------------------------------- Terminal.

// TtyMode is a terminal mode.
type TtyMode struct {
	Cooked bool // Canonical, with echo.
	Isig   bool
}

// TTY is a terminal.
type TTY struct {
	Hit int // How many processes got the last signal.
	Ino  *Inode
	Out  *Inode
	Fg   int
	SID  int
	Mode TtyMode
	in   []byte
	q    []*rt.Task
	// FgLog records foreground changes.
	FgLog []Chunk
}

// NewTTY creates the terminal.
func (k *Kern) NewTTY() *TTY {
	k.Tty = &TTY{
		Ino: k.newInode(Tty, 0o620), Out: k.newInode(Sink, 0o600),
		Mode: TtyMode{Cooked: true, Isig: true},
	}

	return k.Tty
}

// SetFg sets the foreground group.
func (t *TTY) SetFg(g int, by *Proc) {
	t.Fg = g
	pid := 0

	if by != nil {
		pid = by.PID
	}

	K.Log("tty-fg", pid, fmt.Sprint(g))
}

// Waiting is how much was typed but not read.
func (t *TTY) Waiting() int { return len(t.in) }

// Type puts a character into the terminal.
func (t *TTY) Type(c byte) {
	if t.Mode.Isig {
		sig := syscall.Signal(0)

		switch c {
		case 3:
			sig = syscall.SIGINT
		case 26:
			sig = syscall.SIGTSTP
		case 28:
			sig = syscall.SIGQUIT
		}

		if sig != 0 {
			K.Log("tty-signal", 0, sig.String())
			t.Hit = 0
			for _, q := range K.Order {
				if q.PGID == t.Fg && q.State != 'X' && q.State != 'Z' {
					t.Hit++
				}
			}
			K.Kill(-t.Fg, sig)

			return
		}
	}

	t.in = append(t.in, c)
	wakeAll(t.q)
}

func (p *Proc) ttyRead(o *OFD, b []byte) (int, Errno) {
	t := K.Tty

	for {
		if p.PGID != t.Fg {
			if p.Disp[int(syscall.SIGTTIN)] == SigIgn {
				return -1, syscall.EIO
			}

			K.Kill(-p.PGID, syscall.SIGTTIN)
			p.checkAlive()

			continue
		}

		if len(t.in) > 0 {
			if !t.Mode.Cooked {
				n := copy(b, t.in)
				t.in = t.in[n:]

				return n, 0
			}

			for i, c := range t.in {
				if c == 4 {
					if i == 0 {
						t.in = t.in[1:]

						return 0, 0
					}

					// It is gone with what it ends.
					n := copy(b, t.in[:i])
					t.in = t.in[n:]
					if n == i {
						t.in = t.in[1:]
					}

					return n, 0
				}

				if c == '\n' || c == '\r' {
					t.in[i] = '\n'
					n := copy(b, t.in[:i+1])
					t.in = t.in[n:]

					return n, 0
				}
			}
		}

		if o != nil && o.Nonblock {
			return -1, syscall.EAGAIN
		}

		wait("read tty", &t.q)
	}
}

// ReadChar reads one character in raw mode.
func (p *Proc) ReadChar() (byte, Errno) {
	var b [1]byte

	n, e := p.ttyRead(nil, b[:])
	if e != 0 {
		return 0, e
	}

	if n == 0 {
		return 4, 0
	}

	return b[0], 0
}

// FdCount returns the number of open descriptors of p.
func (p *Proc) FdCount() int { return len(p.Fds) }

// FdList describes the open descriptors of p.
func (p *Proc) FdList() string {
	fds := []int{}
	for fd := range p.Fds {
		fds = append(fds, fd)
	}
	sort.Ints(fds)

	s := ""
	for _, fd := range fds {
		s += fmt.Sprintf("%d=%s ", fd, p.Fds[fd].Path)
	}

	return s
}

// Queue is where to wait for the description to become ready.
func (o *OFD) Queue() *[]*rt.Task {
	if o.Pipe != nil {
		return &o.Pipe.q
	}

	return &K.Tty.q
}

// Sync makes the contents durable.
func (i *Inode) Sync() {}

// Truncate changes the size.
func (i *Inode) Truncate(n int64) Errno {
	if i.Kind != Reg {
		return syscall.EINVAL
	}

	for int64(len(i.Data)) < n {
		i.Data = append(i.Data, 0)
	}

	i.Data = append([]byte(nil), i.Data[:n]...)

	return 0
}

// Link makes a hard link.
func (p *Proc) Link(from, to string) Errno {
	p.Enter()

	i, e := K.Lookup(p.Cwd, from, false)
	if e != 0 {
		return e
	}

	d, b, e := p.parent(to)
	if e != 0 {
		return e
	}

	if d.Ents[b] != nil {
		return syscall.EEXIST
	}

	if i.Kind == Dir {
		return syscall.EPERM
	}

	d.Ents[b] = i
	i.Nlink++

	return 0
}

// NewSink creates a recording output stream.
func (k *Kern) NewSink() *Inode { return k.newInode(Sink, 0o600) }

// NewFifoInode creates an anonymous pipe inode.
func (k *Kern) NewFifoInode() *Inode {
	i := k.newInode(Fifo, 0o600)
	i.Pipe = k.newPipe()

	return i
}

// Text is what was written to a recording stream.
func (i *Inode) Text() string {
	var b strings.Builder
	for _, c := range i.Log {
		b.WriteString(c.Data)
	}

	return b.String()
}

// CheckAlive unwinds a killed process and waits while it is stopped.
func (p *Proc) CheckAlive() { p.checkAlive() }

// Tcsetpgrp changes the foreground group.
func (t *TTY) Tcsetpgrp(p *Proc, g int) Errno {
	if !K.groupAlive(g) {
		return syscall.ESRCH
	}

	if p.PGID != t.Fg && p.Disp[int(syscall.SIGTTOU)] != SigIgn {
		K.Kill(-p.PGID, syscall.SIGTTOU)
		p.checkAlive()
	}

	t.SetFg(g, p)

	return 0
}

// SetMode changes the terminal's mode.
func (t *TTY) SetMode(m TtyMode) {
	if t.Mode != m {
		K.Log("tty-mode", 0, fmt.Sprintf("cooked=%v isig=%v", m.Cooked, m.Isig))
	}

	changed := t.Mode != m
	t.Mode = m
	wakeAll(t.q)
	if changed && OnMode != nil {
		OnMode(m)
	}
}

// OnTtyOut is called when something was written to the terminal.
var OnTtyOut func(s string)

// OnExec is called when the shell has started a process.
var OnExec func(c *Proc)

// OnMode is called when the terminal's mode changes.
var OnMode func(m TtyMode)

// tasks returns the threads of the process.
func (p *Proc) tasks() []*rt.Task {
	l := []*rt.Task{}

	for _, t := range rt.Tasks {
		if q, ok := t.Proc.(*Proc); ok && q == p && t.State != rt.Done {
			l = append(l, t)
		}
	}

	return l
}
