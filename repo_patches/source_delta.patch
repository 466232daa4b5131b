From 553793860bf77d8fd9df8c11811117a9a908b294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:29 +0000
Subject: [PATCH 01/35] fix: don't hold the pipe's lock while reading or
 writing it

A task blocked writing to a full pipe held the lock that the reader on the
other end needed, so a pipeline of built-in stages hung once the data was
larger than the pipe. Readers and writers now take turns using their own
locks and a message is written whole so that concurrent writers can't
interleave.
---
 internal/common/type/pipe/pipe.go | 77 +++++++++++++++----------------
 1 file changed, 37 insertions(+), 40 deletions(-)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index 19303b6..57ddb18 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -24,12 +24,18 @@ import (
 const name = "pipe"
 
 // T (pipe) is oh's pipe conduit type.
+//
+// The embedded RWMutex protects the fields. It must not be held while reading
+// or writing as either can block until another task uses the same pipe.
 type T struct {
 	sync.RWMutex
 	b *bufio.Reader
 	p *reader.T
 	r *os.File
 	w *os.File
+
+	reading sync.Mutex // Readers take turns, they share b and p.
+	writing sync.Mutex // Writers take turns, so messages stay whole.
 }
 
 type pipe = T
@@ -78,6 +84,9 @@ func (p *pipe) Name() string {
 
 // Read reads a cell from the pipe.
 func (p *pipe) Read() cell.I {
+	p.reading.Lock()
+	defer p.reading.Unlock()
+
 	b := p.buffer()
 	if b == nil {
 		return pair.Null
@@ -88,9 +97,6 @@ func (p *pipe) Read() cell.I {
 		return pair.Null
 	}
 
-	p.RLock()
-	defer p.RUnlock()
-
 	var (
 		c   cell.I
 		err error
@@ -119,14 +125,14 @@ func (p *pipe) Read() cell.I {
 
 // ReadLine reads a line from the pipe.
 func (p *pipe) ReadLine() cell.I {
+	p.reading.Lock()
+	defer p.reading.Unlock()
+
 	b := p.buffer()
 	if b == nil {
 		return pair.Null
 	}
 
-	p.RLock()
-	defer p.RUnlock()
-
 	s, ok := line(b)
 	if !ok {
 		return pair.Null
@@ -143,44 +149,12 @@ func (p *pipe) ReaderClose() {
 
 // Write writes a cell to the pipe.
 func (p *pipe) Write(c cell.I) {
-	// Yes, RLock. This is a write but doesn't change the pipe itself.
-	p.RLock()
-	defer p.RUnlock()
-
-	if p.w == nil {
-		panic("write to closed pipe")
-	}
-
-	_, err := p.w.WriteString(literal.String(c))
-	if err != nil {
-		panic(err.Error())
-	}
-
-	_, err = p.w.WriteString("\n")
-	if err != nil {
-		panic(err.Error())
-	}
+	p.write(literal.String(c) + "\n")
 }
 
 // WriteLine writes the string value of a cell to the pipe.
 func (p *pipe) WriteLine(c cell.I) {
-	// Yes, RLock. This is a write but doesn't change the pipe itself.
-	p.RLock()
-	defer p.RUnlock()
-
-	if p.w == nil {
-		panic("write to closed pipe")
-	}
-
-	_, err := p.w.WriteString(common.String(c))
-	if err != nil {
-		panic(err.Error())
-	}
-
-	_, err = p.w.WriteString("\n")
-	if err != nil {
-		panic(err.Error())
-	}
+	p.write(common.String(c) + "\n")
 }
 
 // WriterClose closes the write end of the pipe.
@@ -260,6 +234,29 @@ func (p *pipe) readerPipeNil() {
 	p.r = nil
 }
 
+// write writes the message s to the pipe.
+func (p *pipe) write(s string) {
+	p.writing.Lock()
+	defer p.writing.Unlock()
+
+	w := p.writer()
+	if w == nil {
+		panic("write to closed pipe")
+	}
+
+	_, err := w.WriteString(s)
+	if err != nil {
+		panic(err.Error())
+	}
+}
+
+func (p *pipe) writer() *os.File {
+	p.RLock()
+	defer p.RUnlock()
+
+	return p.w
+}
+
 // writerClosePipe closes the write end of the pipe.
 func (p *pipe) writerClosePipe() {
 	p.RLock()
-- 
2.43.0


From 38337d77547479f1be26fd88de6aeab66d999710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:23 +0000
Subject: [PATCH 02/35] fix: don't count the core dump flag in the status of a
 killed command

The status of a command killed by a signal is 128 plus the signal number,
whether or not a core file was written.
---
 internal/system/job/job_unix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index 23c6e34..f439c54 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -427,7 +427,7 @@ func (j *job) notify(pid int, ws unix.WaitStatus) {
 		code = ws.ExitStatus()
 
 	case ws.Signaled():
-		code += 128
+		code = 128 + int(ws.Signal())
 
 	default:
 		return
-- 
2.43.0


From 277163599169673ae3cf6f904ed2f418211331eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:59 +0000
Subject: [PATCH 03/35] fix: make a pipeline's outcome independent of which
 stage ends first

The result of a pipeline was the result of whichever side happened to
report last and an exception was raised before the other side had ended.
---
 internal/engine/boot/boot.oh | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index 5b61670..e3f4841 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -189,23 +189,29 @@ block {
 
     define collect-unwrap-r-ex: method (c n) {
         define r ()
+        define ex ()
 
+        # Wait for everything to finish, even if there is an exception.
         set n: number $n
         while $n {
             define rex: c read
 
-            set r: rex head
-
-            define ex: rex tail
+            if (not (null? (rex head))) {
+                set r: rex head
+            }
 
             # TODO: Handle cases where we want to throw ().
-            if (not (null? $ex)) {
-                throw $ex
+            if (null? $ex) {
+                set ex: rex tail
             }
 
             set n: sub $n 1
         }
 
+        if (not (null? $ex)) {
+            throw $ex
+        }
+
         return $r
     }
 
@@ -233,8 +239,10 @@ block {
             define c: chan 2
             define p: pipe
 
+            # The left side's result is discarded, only its exception matters.
             spawn {
-                c write (override $e $p $left)
+                define rex: override $e $p $left
+                c write (cons () (rex tail))
                 p writer-close
             } 
 
-- 
2.43.0


From b3067476c66b4967c1889f57fea703cc408c9a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:09 +0000
Subject: [PATCH 04/35] fix: never overwrite a file created just before a >
 redirection opens it

The check that the file does not exist and the open that truncates it were
separate steps, so two commands racing to create the same file could both
succeed. Open the file with O_EXCL.
---
 internal/engine/boot/boot.oh     |  6 +++---
 internal/engine/commands/file.go | 10 ++++++++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index e3f4841..2e14b37 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -267,7 +267,7 @@ block {
             define f ()
             if (not (or (chan? $c) (pipe? $c))) {
                 if (and $check (exists -i $c)) {
-                    if (eq? w $mode) {
+                    if (eq? wx $mode) {
                         throw "${c} exists"
                     }
                 } else {
@@ -324,9 +324,9 @@ block {
 
     set input-from: make-redirect true reader-close r $override-stdin
     set output-clobbers: make-redirect () writer-close w $override-stdout
-    set output-to: make-redirect true writer-close w $override-stdout
+    set output-to: make-redirect true writer-close wx $override-stdout
     set output-errors-clobbers: make-redirect () writer-close w $override-stdout-stderr
-    set output-errors-to: make-redirect true writer-close w $override-stdout-stderr
+    set output-errors-to: make-redirect true writer-close wx $override-stdout-stderr
     set pipe-output-to: make-pipe $override-stdout
     set pipe-output-errors-to: make-pipe $override-stdout-stderr
 
diff --git a/internal/engine/commands/file.go b/internal/engine/commands/file.go
index b7be7e3..006d872 100644
--- a/internal/engine/commands/file.go
+++ b/internal/engine/commands/file.go
@@ -15,6 +15,12 @@ import (
 	"github.com/michaelmacinnis/oh/internal/common/validate"
 )
 
+func device(path string) bool {
+	s, err := os.Stat(path)
+
+	return err == nil && s.Mode()&(os.ModeDevice|os.ModeCharDevice) > 0
+}
+
 func open(args cell.I) cell.I {
 	mode := common.String(pair.Car(args))
 	path := common.String(pair.Cadr(args))
@@ -43,6 +49,10 @@ func open(args cell.I) cell.I {
 		flags |= os.O_APPEND
 	}
 
+	if strings.ContainsAny(mode, "x") && !device(path) {
+		flags |= os.O_EXCL
+	}
+
 	if read == write {
 		read = true
 		write = true
-- 
2.43.0


From 57ccdbe373ece690b8030b83930201e7846bb51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:09 +0000
Subject: [PATCH 05/35] fix: don't drop all but the last of the commands
 completed by one line

---
 internal/reader/reader.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/reader/reader.go b/internal/reader/reader.go
index c1bfab7..f5260f4 100644
--- a/internal/reader/reader.go
+++ b/internal/reader/reader.go
@@ -3,6 +3,8 @@ package reader
 import (
 	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
 	"github.com/michaelmacinnis/oh/internal/common/struct/token"
+	"github.com/michaelmacinnis/oh/internal/common/type/list"
+	"github.com/michaelmacinnis/oh/internal/common/type/sym"
 	"github.com/michaelmacinnis/oh/internal/reader/lexer"
 	"github.com/michaelmacinnis/oh/internal/reader/parser"
 )
@@ -30,6 +32,11 @@ func New(name string) *T {
 	var v cell.I
 
 	r.p = parser.New(func(c cell.I) {
+		if v != nil {
+			// There is more than one command in the text scanned.
+			c = list.New(sym.New("block"), v, c)
+		}
+
 		v = c
 	}, func() *token.T {
 		t := r.s.Token()
-- 
2.43.0


From b146871243200a092a5eec67321458ae01460997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:18 +0000
Subject: [PATCH 06/35] fix: don't ignore a last line that isn't terminated by
 a newline

---
 internal/common/type/pipe/pipe.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index 57ddb18..d2366bf 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -296,7 +296,8 @@ func line(b *bufio.Reader) (string, bool) {
 
 	if errors.Is(err, io.EOF) {
 		if len(s) > 0 {
-			return s, true
+			// A final line may not be terminated.
+			return s + "\n", true
 		}
 
 		return "", false
-- 
2.43.0


From 1dbbef54fd74c1c2fd559149780ae8aa084469c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:43 +0000
Subject: [PATCH 07/35] fix: return the result of the last task waited for

---
 internal/engine/task/action.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 3a6f1ee..9e9ab61 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -1245,6 +1245,8 @@ func wait(t *T) Op {
 			panic("can't wait on " + c.Name())
 		}
 
+		last = t
+
 		v = append(v, t)
 	}
 
-- 
2.43.0


From 764e7af9deee4f29621512e9d714e8ae7d1fa1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:13 +0000
Subject: [PATCH 08/35] fix: don't suspend a script when one of its children is
 stopped

---
 internal/system/job/job_unix.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index f439c54..e86fb69 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -535,10 +535,15 @@ func reap() {
 		status unix.WaitStatus
 	)
 
-	options := unix.WNOHANG | unix.WUNTRACED | unix.WCONTINUED
+	flags := unix.WNOHANG
+
+	// Without job control nothing would continue a stopped job.
+	if options.Monitor() {
+		flags |= unix.WUNTRACED | unix.WCONTINUED
+	}
 
 	for {
-		pid, _ := unix.Wait4(-1, &status, options, &rusage)
+		pid, _ := unix.Wait4(-1, &status, flags, &rusage)
 		if pid <= 0 {
 			break
 		}
-- 
2.43.0


From ed1d129061bb06d332aa5e9575344981e494a9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:59 +0000
Subject: [PATCH 09/35] fix: let exists, and redirections, find files named by
 strings

---
 internal/engine/task/action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 9e9ab61..29b56e5 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -1023,7 +1023,7 @@ func exists(t *T) Op {
 	ignore := false
 
 	for ; args != pair.Null; args = pair.Cdr(args) {
-		path := literal.String(pair.Car(args))
+		path := common.String(pair.Car(args))
 		if path == "-i" {
 			ignore = true
 
-- 
2.43.0


From 456b02353fe9f71f857014dae4eafea908d3f932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:40 +0000
Subject: [PATCH 10/35] fix: resolve relative paths against the PWD in effect,
 not the last directory any task changed to

---
 internal/engine/boot/boot.oh         |  6 +++---
 internal/engine/commands/commands.go |  1 -
 internal/engine/commands/file.go     |  7 ++-----
 internal/engine/task/action.go       | 17 +++++++++++++++--
 internal/engine/task/task.go         | 10 ++++++++++
 5 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index 2e14b37..0d3b404 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -257,7 +257,7 @@ block {
         syntax (c cmd) e {
             define c: e eval $c
             if (symbol? $c) {
-                define l: glob $c
+                define l: e eval (list $glob $c)
                 if (lt? 1 (l length)) {
                     throw "can't redirect to/from multiple files"
                 }
@@ -266,7 +266,7 @@ block {
 
             define f ()
             if (not (or (chan? $c) (pipe? $c))) {
-                if (and $check (exists -i $c)) {
+                if (and $check (e eval (list $exists -i $c))) {
                     if (eq? wx $mode) {
                         throw "${c} exists"
                     }
@@ -275,7 +275,7 @@ block {
                         throw "${c} does not exist"
                     }
                 }
-                set f: open $mode $c
+                set f: e eval (list $open $mode $c)
                 set c $f
             }
 
diff --git a/internal/engine/commands/commands.go b/internal/engine/commands/commands.go
index 263d42a..dee4d7b 100644
--- a/internal/engine/commands/commands.go
+++ b/internal/engine/commands/commands.go
@@ -31,7 +31,6 @@ func Functions() map[string]func(cell.I) cell.I {
 		"number":    number,
 		"number?":   isNumber,
 		"object?":   isObject,
-		"open":      open,
 		"pipe":      makePipe,
 		"pipe?":     isPipe,
 		"random":    random,
diff --git a/internal/engine/commands/file.go b/internal/engine/commands/file.go
index 006d872..2356a56 100644
--- a/internal/engine/commands/file.go
+++ b/internal/engine/commands/file.go
@@ -7,9 +7,7 @@ import (
 	"strings"
 
 	"github.com/michaelmacinnis/adapted"
-	"github.com/michaelmacinnis/oh/internal/common"
 	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
-	"github.com/michaelmacinnis/oh/internal/common/type/pair"
 	"github.com/michaelmacinnis/oh/internal/common/type/pipe"
 	"github.com/michaelmacinnis/oh/internal/common/type/sym"
 	"github.com/michaelmacinnis/oh/internal/common/validate"
@@ -21,9 +19,8 @@ func device(path string) bool {
 	return err == nil && s.Mode()&(os.ModeDevice|os.ModeCharDevice) > 0
 }
 
-func open(args cell.I) cell.I {
-	mode := common.String(pair.Car(args))
-	path := common.String(pair.Cadr(args))
+// Open opens the file at path and returns a pipe for it.
+func Open(mode, path string) cell.I {
 	flags := 0
 
 	if !strings.ContainsAny(mode, "-") {
diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 29b56e5..2d670de 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -59,6 +59,7 @@ func Actions(s scope.I) {
 	s.Define("command", &Method{Op: Action(cmd)})
 	s.Define("exists", &Method{Op: Action(exists)})
 	s.Define("glob", &Method{Op: Action(glob)})
+	s.Define("open", &Method{Op: Action(open)})
 
 	// Functions.
 	for k, v := range commands.Functions() {
@@ -804,7 +805,12 @@ func external(t *T) Op {
 
 	name := common.String(pair.Car(args))
 
-	arg0, executable, err := adapted.LookPath(name, t.stringValue("PATH"))
+	path := name
+	if strings.HasPrefix(path, "./") || strings.HasPrefix(path, "../") {
+		path = t.absolute(path)
+	}
+
+	arg0, executable, err := adapted.LookPath(path, t.stringValue("PATH"))
 	if err != nil {
 		panic(err.Error())
 	}
@@ -1032,7 +1038,7 @@ func exists(t *T) Op {
 
 		count++
 
-		s, err := os.Stat(path)
+		s, err := os.Stat(t.absolute(path))
 		if err != nil {
 			return t.Return(pair.Null)
 		}
@@ -1051,6 +1057,13 @@ func glob(t *T) Op {
 	return t.Return(t.expand(t.code))
 }
 
+func open(t *T) Op {
+	mode := common.String(pair.Car(t.code))
+	path := common.String(pair.Cadr(t.code))
+
+	return t.Return(commands.Open(mode, t.absolute(path)))
+}
+
 // Methods.
 
 func exit(t *T) Op {
diff --git a/internal/engine/task/task.go b/internal/engine/task/task.go
index 1819c54..e816813 100644
--- a/internal/engine/task/task.go
+++ b/internal/engine/task/task.go
@@ -223,6 +223,16 @@ func (t *T) Stop() {
 	t.state.Stop(nil)
 }
 
+// absolute returns the path a relative path refers to. The working directory
+// of the process is the one set last, by any task. Each task has its own PWD.
+func (t *T) absolute(path string) string {
+	if path == "" || filepath.IsAbs(path) {
+		return path
+	}
+
+	return t.stringValue("PWD") + string(os.PathSeparator) + path
+}
+
 func (t *T) expand(args cell.I) cell.I {
 	l := pair.Null
 
-- 
2.43.0


From 70508391d78d09193daefca600e42bac5ca305f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:09 +0000
Subject: [PATCH 11/35] fix: don't let the exception of a spawned task resume
 the task that spawned it

---
 internal/common/struct/frame/frame.go |  9 +++++++++
 internal/engine/task/action.go        | 11 ++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/internal/common/struct/frame/frame.go b/internal/common/struct/frame/frame.go
index fd211c8..e710591 100644
--- a/internal/common/struct/frame/frame.go
+++ b/internal/common/struct/frame/frame.go
@@ -70,6 +70,15 @@ func (f *frame) Resolve(k string) (s scope.I, r reference.I) {
 	return
 }
 
+// Root returns the outermost frame.
+func (f *frame) Root() *frame {
+	for f.previous != nil {
+		f = f.previous
+	}
+
+	return f
+}
+
 // Scope returns the current frame's scope.
 func (f *frame) Scope() scope.I {
 	return f.scope
diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 2d670de..13d388a 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -905,7 +905,16 @@ func resume(t *T) Op {
 }
 
 func spawn(t *T) Op {
-	child := New(t.job, t.code, frame.Dup(env.New(t.frame.Scope()), t.frame))
+	s := env.New(t.frame.Scope())
+
+	// An exception the child does not catch ends the child. It must not
+	// reach a handler of this task, which would resume this task's code.
+	r := t.frame.Root().Scope().Lookup("throw")
+	if r != nil {
+		s.Export("throw", r.Get())
+	}
+
+	child := New(t.job, t.code, frame.Dup(s, t.frame))
 
 	child.PushOp(Action(evalBlock))
 
-- 
2.43.0


From 4cf2f56510ca4aef9da423f49a3dcb57b0deb83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:42 +0000
Subject: [PATCH 12/35] fix: don't give a handler the exceptions of the methods
 it calls

---
 internal/engine/boot/boot.oh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index 0d3b404..f4936ec 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -550,6 +550,9 @@ define catch: syntax (name (clause)) e {
         set body: clause append $body
     }
 
+    # An exception of what the handler calls is not for this handler.
+    set body: cons (list export throw (list resolve throw)) $body
+
     define defn: list method (list $name throw) =
     defn extend $body
 
-- 
2.43.0


From 1eaecde55d54caab84f02426357f5b2f35e60ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:17 +0000
Subject: [PATCH 13/35] fix: let a task blocked on a channel or pipe be
 interrupted or stopped

---
 internal/engine/task/action.go | 36 +++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 13d388a..54a3317 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -961,6 +961,40 @@ func m(do func(s, args cell.I) cell.I) *Method {
 	})}
 }
 
+// w is like m but for methods that may block. The task waits, as it does for
+// an external process, so that it can be stopped or interrupted.
+func w(do func(s, args cell.I) cell.I) *Method {
+	return &Method{Op: Action(func(t *T) Op {
+		self := bound(t.Result()).self
+		args := t.code
+
+		var failure interface{}
+
+		t.Wait()
+
+		go func() {
+			r := pair.Null
+
+			defer func() {
+				failure = recover()
+
+				t.Notify(r)
+			}()
+
+			r = do(self, args)
+		}()
+
+		return t.ReplaceOp(Action(func(t *T) Op {
+			r := t.state.Value()
+			if failure != nil {
+				panic(failure)
+			}
+
+			return t.Return(r)
+		}))
+	})}
+}
+
 // Helpers.
 
 // Bind a command to a scope.
@@ -985,7 +1019,7 @@ func makeConduitScope() scope.I {
 	s := env.New(nil)
 
 	for k, v := range commands.ConduitMethods() {
-		s.Export(k, m(v))
+		s.Export(k, w(v))
 	}
 
 	return obj.New(s)
-- 
2.43.0


From 1d3845098ab0ca3160ea2178127d3f7576db99f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:17 +0000
Subject: [PATCH 14/35] fix: interrupt, stop and resume every task and process
 of a job, and only those

---
 internal/engine/task/state.go   | 148 ++++++++++++++++++--------------
 internal/engine/task/task.go    |  19 ++--
 internal/system/job/job_unix.go | 123 ++++++++++++++++++--------
 3 files changed, 179 insertions(+), 111 deletions(-)

diff --git a/internal/engine/task/state.go b/internal/engine/task/state.go
index 2c449dc..b1f4cf9 100644
--- a/internal/engine/task/state.go
+++ b/internal/engine/task/state.go
@@ -10,8 +10,7 @@ import (
 
 // E R S W
 // 0 1 0 X Task is running.
-// 0 1 1 X Task is stopping but Runnable has not yet been called.
-// 0 0 1 X Task is stopping but has not returned from Run.
+// 0 1 1 X Task is stopping but the monitor does not know it has stopped yet.
 // 0 0 0 X Task is stopped.
 
 // E R S W
@@ -24,21 +23,22 @@ import (
 // The type state is a task's state.
 type state struct {
 	*sync.Mutex
-	resume  *sync.Cond
-	stopped *sync.Cond
+	resume *sync.Cond
 
 	result cell.I
 
-	exited   bool
-	running  bool
-	stopping bool
-	waiting  bool
+	exited      bool
+	interrupted bool
+	restart     bool
+	running     bool
+	stopping    bool
+	waiting     bool
 }
 
 func fresh() *state {
 	m := &sync.Mutex{}
 
-	return &state{Mutex: m, resume: sync.NewCond(m), stopped: sync.NewCond(m)}
+	return &state{Mutex: m, resume: sync.NewCond(m)}
 }
 
 func (s *state) Exit() {
@@ -55,6 +55,24 @@ func (s *state) Exited() bool {
 	return s.exited
 }
 
+// Interrupt is like Stop but the task can't be started again.
+func (s *state) Interrupt() {
+	s.Lock()
+	defer s.Unlock()
+
+	s.interrupted = true
+
+	s.stop()
+}
+
+// Interrupted returns true if the task has been interrupted.
+func (s *state) Interrupted() bool {
+	s.Lock()
+	defer s.Unlock()
+
+	return s.interrupted
+}
+
 // Notify notifies a waiting task that it can continue. If running is set,
 // the condition variable resume is used to signal the task to resume.
 // Calling this on a task that is not waiting results in a panic.
@@ -87,105 +105,93 @@ func (s *state) Notify(r cell.I) {
 // R S W -> R S W
 // 0 X X    0 X X returns false
 // 1 0 0    1 0 0 returns true
-// 1 0 1    0 1 1 blocks until stopped, ...
+// 1 0 1    1 1 1 blocks until stopped, ...
 // 1 0 1    1 0 0 ...or resumed
-// 1 1 0    0 1 0 returns false
-// 1 1 1    0 1 1 .
+// 1 1 X    1 1 X returns false.
 //
 func (s *state) Runnable() bool {
 	s.Lock()
 	defer s.Unlock()
 
-	if !s.running {
-		return false
-	}
-
-	for s.waiting && !s.stopping {
+	for s.running && s.waiting && !s.stopping {
 		s.resume.Wait()
 	}
 
-	s.running = !s.stopping
+	return s.running && !s.stopping
+}
+
+// Running returns true if the task has started and has not stopped.
+func (s *state) Running() bool {
+	s.Lock()
+	defer s.Unlock()
 
 	return s.running
 }
 
-// Started marks the task as running.
-// Calling this on a task that is already running results in a panic.
+// Started marks the task as running, if it can be. If the task has been told
+// to stop but has not stopped yet, it is remembered that it should start again.
+// Returns true if the task was not running.
 //
 // R S W -> R S W
-// 0 0 X -> 1 0 X
-// 0 1 X -> 0 0 X
-// 1 X X    1 X X panic.
+// 0 X X -> 1 0 X returns true
+// 1 X X    1 X X returns false.
 //
-func (s *state) Started() {
+func (s *state) Started() bool {
 	s.Lock()
 	defer s.Unlock()
 
 	if s.running {
-		// Why is this already running?
-		panic("already running")
+		s.restart = s.stopping
+
+		return false
 	}
 
 	s.running = true
+	s.stopping = s.interrupted
+
+	return true
 }
 
-// Stop marks a running task as stopping and waits for a signal that the task
-// has stopped. If the task is waiting Stop signals it to resume so that it
-// can unblock and signal that it has stopped.
+// Stop marks a running task as stopping. If the task is waiting Stop signals
+// it to resume so that it can unblock and stop.
 //
 // R S W -> R S W
-// X 1 X -> X 1 X
 // 0 X X -> 0 X X
-// 1 0 0 -> 0 0 0 waits for stopped signal
-// 1 0 1 -> 0 0 1 resumes tasks, waits for stopped signal.
+// 1 0 0 -> 1 1 0
+// 1 0 1 -> 1 1 1 resumes task.
 //
-func (s *state) Stop(f func()) {
+func (s *state) Stop() {
 	s.Lock()
 	defer s.Unlock()
 
-	if s.stopping {
-		return
-	}
-
-	if !s.running {
-		// Stopped running before we got here.
-		return
-	}
-
-	s.stopping = true
-
-	if f != nil {
-		f()
-	}
-
-	if s.waiting {
-		s.resume.Signal()
-	}
-
-	for !s.stopping {
-		s.stopped.Wait()
-	}
+	s.stop()
 }
 
-// Stopped clears running and stopping and if stopping was set, signals that
-// the task has stopped.
+// Stopped clears running and stopping. It returns true if, in the meantime,
+// the task has been started again.
 //
 // R S W -> R S W
-// X 0 X -> 0 0 X
-// 0 1 X -> 0 0 X signals task has stopped.
+// X X X -> 0 0 X
 //
-func (s *state) Stopped() {
+func (s *state) Stopped() bool {
 	s.Lock()
 	defer s.Unlock()
 
-	signal := s.stopping
+	restart := s.restart
 
+	s.restart = false
 	s.running = false
 	s.stopping = false
 
-	if signal {
-		s.stopped.Signal()
-	}
+	return restart
+}
+
+// Stopping returns true if the task has been told to stop.
+func (s *state) Stopping() bool {
+	s.Lock()
+	defer s.Unlock()
+
+	return s.stopping
 }
 
 // Value returns the most recent value set by notify.
@@ -216,3 +222,17 @@ func (s *state) Wait() {
 
 	s.waiting = true
 }
+
+func (s *state) stop() {
+	s.restart = false
+
+	if s.stopping || !s.running {
+		return
+	}
+
+	s.stopping = true
+
+	if s.waiting {
+		s.resume.Signal()
+	}
+}
diff --git a/internal/engine/task/task.go b/internal/engine/task/task.go
index e816813..e878ded 100644
--- a/internal/engine/task/task.go
+++ b/internal/engine/task/task.go
@@ -145,13 +145,6 @@ func (t *T) Environ() []string {
 	return environ
 }
 
-// Interrupt stops the task.
-func (t *T) Interrupt() {
-	t.state.Stop(func() {
-		t.stack = done
-	})
-}
-
 // Return is a helper used by actions to return a value.
 func (t *T) Return(c cell.I) Op {
 	t.ReplaceResult(c)
@@ -160,14 +153,19 @@ func (t *T) Return(c cell.I) Op {
 }
 
 // Run steps through a tasks operations until they are exhausted.
+// The task must have been marked as started.
 func (t *T) Run() {
-	t.Started()
 	defer t.job.Stopped(t)
 
 	s := t.Op()
 	for t.state.Runnable() && s != nil {
 		s = t.Step(s)
 	}
+
+	if t.Interrupted() {
+		t.dump = pair.Null
+		t.stack = done
+	}
 }
 
 // Step performs a single action and determines the next action.
@@ -218,11 +216,6 @@ func (t *T) Step(s Op) (op Op) {
 	return op
 }
 
-// Stop stops a task but allows for it to be restarted.
-func (t *T) Stop() {
-	t.state.Stop(nil)
-}
-
 // absolute returns the path a relative path refers to. The working directory
 // of the process is the one set last, by any task. Each task has its own PWD.
 func (t *T) absolute(path string) string {
diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index e86fb69..f84c5e4 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -118,6 +118,14 @@ func (j *job) Execute(t *task.T, path string, argv []string, attr *os.ProcAttr)
 	requestq <- func() {
 		reap()
 
+		if t.Interrupted() {
+			errq <- unix.EINTR
+
+			close(errq)
+
+			return
+		}
+
 		foregroundProcess := options.Monitor() && j == foreground
 
 		attr.Sys = process.SysProcAttr(foregroundProcess, j.group)
@@ -132,6 +140,10 @@ func (j *job) Execute(t *task.T, path string, argv []string, attr *os.ProcAttr)
 
 			j.running[p.Pid] = t
 			active[p.Pid] = j
+
+			if t.Stopping() {
+				process.Stop(p.Pid)
+			}
 		}
 
 		// Ack with error.
@@ -172,7 +184,13 @@ func (j *job) Spawn(p, c *task.T, fn func()) {
 			wgs[w] = struct{}{}
 		}
 
-		go c.Run()
+		start(c)
+
+		if p != nil && p.Interrupted() {
+			c.Interrupt()
+		} else if p != nil && p.Stopping() {
+			c.Stop()
+		}
 
 		// Ack.
 		close(done)
@@ -184,11 +202,17 @@ func (j *job) Spawn(p, c *task.T, fn func()) {
 
 func (j *job) Stopped(t *task.T) {
 	requestq <- func() {
-		t.Stopped()
+		if t.Stopped() {
+			start(t)
+
+			return
+		}
 
 		if !t.Completed() {
-			if foreground != nil && foreground.main == t {
-				tell(t)
+			if j.main == t {
+				if j == foreground {
+					tell(t)
+				}
 
 				number := 1
 				for n := range jobs {
@@ -196,7 +220,7 @@ func (j *job) Stopped(t *task.T) {
 						number = n + 1
 					}
 				}
-				jobs[number] = foreground
+				jobs[number] = j
 
 				printJobs(os.Stdout, number)
 			}
@@ -244,12 +268,7 @@ func Bg(w io.Writer, n int) *task.T {
 			fmt.Fprintf(w, "%s\n", line)
 		}
 
-		for pid, t := range j.stopped {
-			process.Continue(pid)
-			j.running[pid] = t
-		}
-
-		go j.main.Run()
+		j.resume()
 
 		r <- j.main
 
@@ -290,7 +309,7 @@ func Fg(w io.Writer, n int) bool {
 		waiting[j.main] = waiting[foreground.main]
 		delete(waiting, foreground.main)
 
-		foreground.main = j.main
+		foreground = j
 
 		delete(jobs, n)
 
@@ -304,12 +323,7 @@ func Fg(w io.Writer, n int) bool {
 			process.SetForegroundGroup(process.Group())
 		}
 
-		for pid, t := range j.stopped {
-			process.Continue(pid)
-			j.running[pid] = t
-		}
-
-		go foreground.main.Run()
+		j.resume()
 
 		r <- true
 
@@ -374,6 +388,11 @@ var (
 )
 
 func (j *job) interrupt() {
+	if j == nil || j.main == nil {
+		// There is nothing to interrupt.
+		return
+	}
+
 	interrupt(j.main)
 
 	for pid := range j.running {
@@ -382,33 +401,40 @@ func (j *job) interrupt() {
 }
 
 func (j *job) notify(pid int, ws unix.WaitStatus) {
-	if ws.Continued() {
-		t, found := j.stopped[pid]
-		if !found {
-			println("UNKNOWN PID CONTINUED", pid)
+	t, found := j.running[pid]
+	if !found {
+		t = j.stopped[pid]
+	}
 
+	if ws.Continued() {
+		if found {
+			// This job was resumed by fg or bg.
 			return
 		}
 
-		if len(j.stopped) == 1 {
-			// The last stopped process is running. Resume the job.
-			j.resume()
-		}
-
 		j.running[pid] = t
 		delete(j.stopped, pid)
 
-		return
-	}
+		if len(j.stopped) == 0 {
+			// The last stopped process is running. Resume the job.
+			for n, v := range jobs {
+				if v == j {
+					delete(jobs, n)
+				}
+			}
 
-	t, found := j.running[pid]
-	if !found {
-		println("UNKNOWN PID STATUS CHANGE", pid)
+			j.resume()
+		}
 
 		return
 	}
 
 	if ws.Stopped() {
+		if !found {
+			// Already stopped.
+			return
+		}
+
 		if len(j.running) == 1 {
 			// The last running process is stopping. Stop the task.
 			j.stop()
@@ -434,24 +460,45 @@ func (j *job) notify(pid int, ws unix.WaitStatus) {
 	}
 
 	delete(j.running, pid)
+	delete(j.stopped, pid)
 	delete(active, pid)
 
 	if len(j.running) == 0 && len(j.stopped) == 0 {
 		j.group = j.initial
+
+		if options.Monitor() && j == foreground {
+			// Until the job starts another process the terminal is ours.
+			process.RestoreForegroundGroup()
+
+			if ws.Signaled() && ws.Signal() == unix.SIGINT {
+				// The interrupt was for the whole job.
+				j.interrupt()
+			}
+		}
 	}
 
 	t.Notify(status.Int(code))
 }
 
 func (j *job) resume() {
-	resume(j.main)
+	for pid, t := range j.stopped {
+		j.running[pid] = t
+		delete(j.stopped, pid)
+	}
 
 	for pid := range j.running {
 		process.Continue(pid)
 	}
+
+	resume(j.main)
 }
 
 func (j *job) stop() {
+	if j == nil || j.main == nil {
+		// There is nothing to stop.
+		return
+	}
+
 	stop(j.main)
 
 	for pid := range j.running {
@@ -584,8 +631,16 @@ func remove(cs []*task.T, t *task.T) []*task.T {
 func resume(t *task.T) {
 	for _, child := range children[t] {
 		resume(child)
+	}
+
+	if _, found := parent[t]; found {
+		start(t)
+	}
+}
 
-		go child.Run()
+func start(t *task.T) {
+	if t.Started() {
+		go t.Run()
 	}
 }
 
-- 
2.43.0


From 8829d70ef4812c60e3c5ecf76f803b8e269e3a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:17 +0000
Subject: [PATCH 15/35] fix: don't make the prompt part of the job being
 entered

---
 internal/engine/engine.go | 11 ++++++++++-
 main.go                   | 17 +++++++++++++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/internal/engine/engine.go b/internal/engine/engine.go
index e7ceba4..14820c4 100644
--- a/internal/engine/engine.go
+++ b/internal/engine/engine.go
@@ -19,6 +19,7 @@ import (
 	"github.com/michaelmacinnis/oh/internal/common/type/list"
 	"github.com/michaelmacinnis/oh/internal/common/type/num"
 	"github.com/michaelmacinnis/oh/internal/common/type/obj"
+	"github.com/michaelmacinnis/oh/internal/common/type/pair"
 	"github.com/michaelmacinnis/oh/internal/common/type/pipe"
 	"github.com/michaelmacinnis/oh/internal/common/type/status"
 	"github.com/michaelmacinnis/oh/internal/common/type/str"
@@ -129,14 +130,22 @@ func System(j *job.T, c cell.I) (cell.I, bool) {
 	t.PushOp(task.Action(task.EvalCommand))
 
 	done := make(chan struct{})
+	exited := false
+	result := cell.I(pair.Null)
 
 	j.Spawn(nil, t, func() {
+		// The task may have been stopped, or replaced by another (see fg).
+		if !t.Running() && t.Completed() {
+			exited = t.Exited()
+			result = t.Result()
+		}
+
 		close(done)
 	})
 
 	<-done
 
-	return t.Result(), t.Exited()
+	return result, exited
 }
 
 //nolint:gochecknoglobals
diff --git a/main.go b/main.go
index 09b74c9..683c963 100644
--- a/main.go
+++ b/main.go
@@ -342,6 +342,20 @@ func split(s string) (head, tail string) {
 	return
 }
 
+// prompt evaluates the prompt command. This is not part of the command being
+// entered, which the user may interrupt or stop.
+func prompt(suffix cell.I) (p string) {
+	defer func() {
+		if recover() != nil {
+			p = common.String(suffix)
+		}
+	}()
+
+	v, _ := engine.System(job.Job(0), list.New(sym.New("prompt"), suffix))
+
+	return common.String(v)
+}
+
 func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) error {
 	j := job.New(0)
 	r := reader.New(name)
@@ -354,8 +368,7 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 	suffix := initial
 
 	for {
-		v, _ := engine.System(j, list.New(sym.New("prompt"), suffix))
-		p := common.String(v)
+		p := prompt(suffix)
 
 		err := uncooked.ApplyMode()
 		if err != nil {
-- 
2.43.0


From 2a56434790792674fdb063ce10b7f8d9524318a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:35 +0000
Subject: [PATCH 16/35] fix: Suspend a job when only stopped processes are left

When the last running process of a job ended while others were stopped
the shell waited for the stopped ones without returning to the prompt.
---
 internal/system/job/job_unix.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index f84c5e4..bfe9a5f 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -463,6 +463,11 @@ func (j *job) notify(pid int, ws unix.WaitStatus) {
 	delete(j.stopped, pid)
 	delete(active, pid)
 
+	if len(j.running) == 0 && len(j.stopped) > 0 {
+		// Only stopped processes are left. Stop the task.
+		j.stop()
+	}
+
 	if len(j.running) == 0 && len(j.stopped) == 0 {
 		j.group = j.initial
 
-- 
2.43.0


From 9ea70e92015c95f71c80468f07e3cc5fa8582673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:35 +0000
Subject: [PATCH 17/35] fix: Don't give the terminal to a process of a
 suspended job

A task of a job that is finished or suspended, but still the latest, could
start a process that took the terminal from the shell.
---
 internal/system/job/job_unix.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index bfe9a5f..0f45410 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -126,7 +126,8 @@ func (j *job) Execute(t *task.T, path string, argv []string, attr *os.ProcAttr)
 			return
 		}
 
-		foregroundProcess := options.Monitor() && j == foreground
+		// A job no longer in the foreground must not take the terminal.
+		foregroundProcess := options.Monitor() && j == foreground && j.main.Running()
 
 		attr.Sys = process.SysProcAttr(foregroundProcess, j.group)
 
-- 
2.43.0


From b804581643a6bad5ac6be48a27b01ecec99e1b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:51 +0000
Subject: [PATCH 18/35] fix: Don't hang if exit is called in a part of a
 pipeline

A task started for the left side of a pipeline, a captured command or a
process substitution that ended by calling exit or fatal never reported its
outcome, so that the shell hung. Run these commands in their own tasks and
end the command they are part of in the same way.
---
 internal/engine/boot/boot.oh   | 66 +++++++++++++++++++++++++++-------
 internal/engine/task/action.go | 13 +++++++
 2 files changed, 67 insertions(+), 12 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index f4936ec..c88dc01 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -191,23 +191,33 @@ block {
         define r ()
         define ex ()
 
+        define end ()
+
         # Wait for everything to finish, even if there is an exception.
         set n: number $n
         while $n {
             define rex: c read
 
-            if (not (null? (rex head))) {
-                set r: rex head
-            }
+            if (not: cons? $rex) {
+                set end $rex
+            } else {
+                if (not (null? (rex head))) {
+                    set r: rex head
+                }
 
-            # TODO: Handle cases where we want to throw ().
-            if (null? $ex) {
-                set ex: rex tail
+                # TODO: Handle cases where we want to throw ().
+                if (null? $ex) {
+                    set ex: rex tail
+                }
             }
 
             set n: sub $n 1
         }
 
+        if (not: null? $end) {
+            end
+        }
+
         if (not (null? $ex)) {
             throw $ex
         }
@@ -234,6 +244,27 @@ block {
         } $cmd)
     }
 
+    # Evaluate fn in its own task. If fn calls exit, only that task is ended and
+    # the value returned, instead of a pair, is a method that ends its caller.
+    define run-r-ex: method (fn) {
+        define rex ()
+        define t: spawn {
+            set rex: fn
+        }
+        define status: wait $t
+
+        if (not: null? $rex) {
+            return $rex
+        }
+
+        return (method () {
+            if (exited? $t) {
+                exit $status
+            }
+            fatal $status
+        })
+    }
+
     define make-pipe: method (override) {
         syntax (right (left)) e {
             define c: chan 2
@@ -241,10 +272,13 @@ block {
 
             # The left side's result is discarded, only its exception matters.
             spawn {
-                define rex: override $e $p $left
-                c write (cons () (rex tail))
+                define rex: run-r-ex (method () = (override $e $p $left))
+                if (cons? $rex) {
+                    set rex: cons () (rex tail)
+                }
+                c write $rex
                 p writer-close
-            } 
+            }
 
             c write (override-stdin $e $p $right)
             p reader-close
@@ -303,7 +337,7 @@ block {
         define p: pipe
 
         spawn {
-            c write (override-stdout $e $p $cmd)
+            c write (run-r-ex (method () = (override-stdout $e $p $cmd)))
             p writer-close
         }
 
@@ -345,7 +379,9 @@ block {
 
                 spawn {
                     define f: open w $fifo
-                    c write (override-stdout $e $f (arg tail))
+                    c write (run-r-ex (method () {
+                        override-stdout $e $f (arg tail)
+                    }))
                     f close
                 }
 
@@ -361,7 +397,9 @@ block {
 
                 spawn {
                     define f: open r $fifo
-                    c write (override-stdin $e $f (arg tail))
+                    c write (run-r-ex (method () {
+                        override-stdin $e $f (arg tail)
+                    }))
                     f close
                 }
 
@@ -388,6 +426,10 @@ block {
         })
 
         for $ecexs (method (ecex) {
+            if (not: cons? $ecex) {
+                ecex
+            }
+
             define ex: ecex tail
 
             # TODO: Handle cases where we want to throw ().
diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index 54a3317..fbaf7ff 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -69,6 +69,7 @@ func Actions(s scope.I) {
 	// Methods.
 	s.Define("continuation?", &Method{Op: Action(isContinuation)})
 	s.Define("exit", &Method{Op: Action(exit)})
+	s.Define("exited?", &Method{Op: Action(exited)})
 	s.Define("fatal", &Method{Op: Action(fatal)})
 	s.Define("interpolate", &Method{Op: Action(interpolate)})
 	s.Define("method?", &Method{Op: Action(isMethod)})
@@ -1115,6 +1116,18 @@ func exit(t *T) Op {
 	return fatal(t)
 }
 
+// The exited? command returns true if the task passed to it ended by calling exit.
+func exited(t *T) Op {
+	v := validate.Fixed(t.code, 1, 1)
+
+	c, ok := v[0].(*T)
+	if !ok {
+		panic(v[0].Name() + " is not a task")
+	}
+
+	return t.Return(create.Bool(c.Exited()))
+}
+
 func fatal(t *T) Op {
 	v := validate.Fixed(t.code, 0, 1)
 
-- 
2.43.0


From 793fa302313bb4b7a467c3d63c8635b006e2ef82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:02 +0000
Subject: [PATCH 19/35] fix: Exit if a job returned to the foreground calls
 exit

The outcome was taken from the task first started for the line, the one that
called fg, and not from the task that completed.
---
 internal/engine/engine.go       | 4 ++--
 internal/engine/task/task.go    | 2 +-
 internal/system/job/job_unix.go | 8 ++++----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/engine/engine.go b/internal/engine/engine.go
index 14820c4..abb2494 100644
--- a/internal/engine/engine.go
+++ b/internal/engine/engine.go
@@ -133,9 +133,9 @@ func System(j *job.T, c cell.I) (cell.I, bool) {
 	exited := false
 	result := cell.I(pair.Null)
 
-	j.Spawn(nil, t, func() {
+	j.Spawn(nil, t, func(t *task.T) {
 		// The task may have been stopped, or replaced by another (see fg).
-		if !t.Running() && t.Completed() {
+		if t.Completed() {
 			exited = t.Exited()
 			result = t.Result()
 		}
diff --git a/internal/engine/task/task.go b/internal/engine/task/task.go
index e878ded..ef7ce53 100644
--- a/internal/engine/task/task.go
+++ b/internal/engine/task/task.go
@@ -27,7 +27,7 @@ const debug = false
 type monitor interface {
 	Await(fn func(), t *T, ts ...*T)
 	Execute(t *T, path string, argv []string, attr *os.ProcAttr) error
-	Spawn(p, c *T, fn func())
+	Spawn(p, c *T, fn func(*T))
 	Stopped(t *T)
 }
 
diff --git a/internal/system/job/job_unix.go b/internal/system/job/job_unix.go
index 0f45410..90f3924 100644
--- a/internal/system/job/job_unix.go
+++ b/internal/system/job/job_unix.go
@@ -35,7 +35,7 @@ type T struct {
 type job = T
 
 type wg struct {
-	fn func()
+	fn func(*task.T)
 	on map[*task.T]struct{}
 }
 
@@ -80,7 +80,7 @@ func (j *job) Append(line string) {
 func (j *job) Await(fn func(), p *task.T, ts ...*task.T) {
 	requestq <- func() {
 		w := &wg{
-			fn: fn,
+			fn: func(*task.T) { fn() },
 			on: map[*task.T]struct{}{},
 		}
 
@@ -157,7 +157,7 @@ func (j *job) Execute(t *task.T, path string, argv []string, attr *os.ProcAttr)
 	return <-errq
 }
 
-func (j *job) Spawn(p, c *task.T, fn func()) {
+func (j *job) Spawn(p, c *task.T, fn func(*task.T)) {
 	done := make(chan struct{})
 
 	requestq <- func() {
@@ -668,7 +668,7 @@ func tell(t *task.T) {
 		delete(w.on, t)
 
 		if len(w.on) == 0 {
-			w.fn()
+			w.fn(t)
 			delete(wgs, w)
 		}
 	}
-- 
2.43.0


From 988b62894283fbe3e811806cbd71aabf9ea98366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:59 +0000
Subject: [PATCH 20/35] fix: Let the commands of one text share their scope

With more than two commands, as in a -c command of several lines, the
definitions made by the first ones weren't visible to the rest.
---
 internal/reader/reader.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/internal/reader/reader.go b/internal/reader/reader.go
index f5260f4..4b8e329 100644
--- a/internal/reader/reader.go
+++ b/internal/reader/reader.go
@@ -29,15 +29,22 @@ func New(name string) *T {
 		s: lexer.New(name),
 	}
 
-	var v cell.I
+	var v, block cell.I
 
 	r.p = parser.New(func(c cell.I) {
-		if v != nil {
-			// There is more than one command in the text scanned.
-			c = list.New(sym.New("block"), v, c)
+		if v == nil {
+			block = nil
+			v = c
+
+			return
+		}
+
+		// There is more than one command in the text scanned.
+		if block == nil {
+			block = list.New(sym.New("block"), v)
 		}
 
-		v = c
+		v = list.Append(block, c)
 	}, func() *token.T {
 		t := r.s.Token()
 
-- 
2.43.0


From 07ef9c661a5f07e92a7cd1f2d9a6a89339708619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:57 +0000
Subject: [PATCH 21/35] fix: Load a module once and let nested imports complete

A module importing another queued a request that the task serving requests,
which was loading the module, could only serve afterwards: with concurrent
importers this could deadlock, and modules were evaluated more than once. A
module that called exit, or a method of a module that raised an exception
when called later, made the import service or the caller hang.
---
 internal/engine/boot/boot.oh | 77 +++++++++++++++++++++++++-----------
 1 file changed, 53 insertions(+), 24 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index c88dc01..ceffa33 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -448,42 +448,40 @@ define import
 define module: method (name) = # At the top-level module is a no-op.
 
 block {
-    define do-import: method (callback path) {
-        define import-return $return
+    define do-import: method (path) {
+        define loading true
 
         catch ex {
-            callback (cons () $ex)
-            import-return
+            set loading ()
+            return (cons () $ex)
         }
 
-        define import: method (path) {
-            define ecex: (method () {
-                request write $return $path
-                return ()
-            })
+        define module-object: load $path (method () = $loading)
 
-            define ex: ecex tail
+        set loading ()
+        return (list $module-object)
+    }
 
-            # TODO: Handle cases where we want to throw ().
-            if (not: null? $ex) {
-                throw $ex
-            }
+    # This is not a part of do-import as an exception raised by a method of the
+    # module, when called later, is an exception for whatever called the method.
+    define load: method (path loading) {
+        define load-return $return
 
-            define ec: ecex head
-            if (not: null? $ec) {
-                return $ec
+        # A module is loaded by the service, which can't also wait for a request
+        # to be served. So what a module imports while it is loaded is loaded here.
+        define import: method (path) {
+            if (loading) {
+                return (result (do-import $path))
             }
 
-            import-return
+            return (request-import $path)
         }
 
         define module-name ()
 
         define module: method (name) {
             if (modules has $name) {
-                define module-object: modules get $name
-                callback (list $module-object)
-                import-return
+                load-return (modules get $name)
             }
             set module-name $name
         }
@@ -496,10 +494,10 @@ block {
             modules set $module-name $module-object
         }
 
-        callback (list $module-object)
+        return $module-object
     }
 
-    set import: method (path) {
+    define request-import: method (path) {
         define response: chan
 
         request write (method (returned) {
@@ -508,6 +506,15 @@ block {
 
         define ecex: response read
 
+        # The module was not loaded because it called exit.
+        if (not: cons? $ecex) {
+            ecex
+        }
+
+        return (result $ecex)
+    }
+
+    define result: method (ecex) {
         define ex: ecex tail
 
         # TODO: Handle cases where we want to throw ().
@@ -518,12 +525,34 @@ block {
         return (ecex head)
     }
 
+    set import $request-import
+
     define modules: map
     define request: chan 1
 
+    define serve: method (callback path) {
+        define ecex ()
+
+        define t: spawn {
+            set ecex: do-import $path
+        }
+        define status: wait $t
+
+        if (null? $ecex) {
+            set ecex: method () {
+                if (exited? $t) {
+                    exit $status
+                }
+                fatal $status
+            }
+        }
+
+        callback $ecex
+    }
+
     spawn {
         while true {
-            do-import (splice (request read-list))
+            serve (splice (request read-list))
         }
     }
 }
-- 
2.43.0


From e297bdf37e1e5c63a4ff35b249506416ac555f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:45 +0000
Subject: [PATCH 22/35] fix: Report an unexpected token where a command should
 start

The parser emitted empty commands forever without consuming the token, so a
line like ')' at the prompt hung the shell and used all memory.
---
 internal/reader/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/reader/parser/parser.go b/internal/reader/parser/parser.go
index 966dfb8..7a5cba9 100644
--- a/internal/reader/parser/parser.go
+++ b/internal/reader/parser/parser.go
@@ -77,7 +77,7 @@ func (p *T) Parse() (err error) {
 			continue
 		}
 
-		p.emit(p.possibleBackground())
+		p.emit(p.check(p.possibleBackground()))
 	}
 
 	return nil
-- 
2.43.0


From 73b99060eab4a2ce8942929de3b3f1965dfe509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:47 +0000
Subject: [PATCH 23/35] fix: Don't crash if a file vanishes while its directory
 is scanned

filepath.Walk passes no FileInfo for a file that can't be examined.
---
 internal/system/cache/cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/system/cache/cache.go b/internal/system/cache/cache.go
index 658148c..731783d 100644
--- a/internal/system/cache/cache.go
+++ b/internal/system/cache/cache.go
@@ -73,7 +73,8 @@ func Files(dirname string) []string {
 	}
 
 	_ = filepath.Walk(dirname, func(p string, i os.FileInfo, err error) error {
-		if p == dirname {
+		if p == dirname || i == nil {
+			// There is no info if the file vanished or can't be examined.
 			return nil
 		}
 
-- 
2.43.0


From f403847e63edd3d84b87c0d215974d8f23edb9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:50 +0000
Subject: [PATCH 24/35] fix: Don't lose the saved history if saving or loading
 it fails

The history file was truncated before it was written, so a failure or crash
lost it. If it could only be loaded in part (an I/O error, or a line too long
or malformed for the line editor's ReadHistory) the rest was lost, too.
---
 internal/system/history/history.go | 81 +++++++++++++++++++++++++-----
 internal/system/history/os_unix.go |  4 +-
 main.go                            | 13 +++--
 3 files changed, 80 insertions(+), 18 deletions(-)

diff --git a/internal/system/history/history.go b/internal/system/history/history.go
index 77db93e..f627bad 100644
--- a/internal/system/history/history.go
+++ b/internal/system/history/history.go
@@ -1,37 +1,94 @@
 package history
 
 import (
+	"bufio"
+	"errors"
 	"io"
 	"os"
+	"path/filepath"
+	"strings"
 )
 
-// Load loads any saved command history.
-func Load(read func(r io.Reader) (int, error)) error {
-	f, err := file(os.Open)
+// Load passes each line of any saved command history to add.
+func Load(add func(line string)) error {
+	f, err := os.Open(location())
 	if err != nil {
-		// We may not find a history file.
-		return nil
-	}
+		if errors.Is(err, os.ErrNotExist) {
+			// We may not find a history file.
+			return nil
+		}
 
-	_, err = read(f)
-	if err != nil {
 		return err
 	}
 
-	return f.Close()
+	defer f.Close()
+
+	r := bufio.NewReader(f)
+
+	for {
+		line, err := r.ReadString('\n')
+
+		line = strings.TrimSuffix(line, "\n")
+		if line != "" {
+			add(line)
+		}
+
+		if errors.Is(err, io.EOF) {
+			return nil
+		} else if err != nil {
+			return err
+		}
+	}
 }
 
 // Save saves the current command history.
+// The history saved before is replaced only once the new one is complete.
 func Save(write func(w io.Writer) (int, error)) error {
-	f, err := file(os.Create)
+	name := location()
+
+	linked, err := filepath.EvalSymlinks(name)
+	if err == nil {
+		name = linked
+	} else if !errors.Is(err, os.ErrNotExist) {
+		return err
+	}
+
+	mode := os.FileMode(0o600) //nolint:gomnd
+
+	stat, err := os.Stat(name)
+	if err == nil {
+		if !stat.Mode().IsRegular() {
+			// Something like /dev/null must not be replaced.
+			f, err := os.OpenFile(name, os.O_WRONLY, 0)
+			if err != nil {
+				return err
+			}
+
+			_, err = write(f)
+
+			return errors.Join(err, f.Close())
+		}
+
+		mode = stat.Mode().Perm()
+	} else if !errors.Is(err, os.ErrNotExist) {
+		return err
+	}
+
+	f, err := os.CreateTemp(filepath.Dir(name), filepath.Base(name)+"-*")
 	if err != nil {
 		return err
 	}
 
 	_, err = write(f)
+
+	err = errors.Join(err, f.Chmod(mode), f.Sync(), f.Close())
+	if err == nil {
+		err = os.Rename(f.Name(), name)
+	}
+
 	if err != nil {
-		return err
+		_ = os.Remove(f.Name())
 	}
 
-	return f.Close()
+	return err
 }
diff --git a/internal/system/history/os_unix.go b/internal/system/history/os_unix.go
index 4e9a974..ffaa460 100644
--- a/internal/system/history/os_unix.go
+++ b/internal/system/history/os_unix.go
@@ -10,11 +10,11 @@ import (
 	"path"
 )
 
-func file(op func(string) (*os.File, error)) (*os.File, error) {
+func location() string {
 	s, ok := os.LookupEnv("OH_HISTORY")
 	if !ok {
 		s = path.Join(os.Getenv("HOME"), ".oh-history")
 	}
 
-	return op(s)
+	return s
 }
diff --git a/main.go b/main.go
index 683c963..cd2461e 100644
--- a/main.go
+++ b/main.go
@@ -255,15 +255,20 @@ func interactive() bool {
 		return false
 	}
 
-	err = history.Load(cli.ReadHistory)
+	err = history.Load(cli.AppendHistory)
 	if err != nil {
 		println(err.Error())
 	}
 
+	loaded := err == nil
+
 	defer func() {
-		err = history.Save(cli.WriteHistory)
-		if err != nil {
-			println(err.Error())
+		// What could not be loaded must not be lost.
+		if loaded {
+			err = history.Save(cli.WriteHistory)
+			if err != nil {
+				println(err.Error())
+			}
 		}
 
 		_, _ = os.Stdout.Write([]byte{'\n'})
-- 
2.43.0


From a3f498ffcdd748f93784744acf473c3b7aa24e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:52 +0000
Subject: [PATCH 25/35] fix: Don't drop an empty line in the middle of a
 command

At the prompt, an empty line in a string that spans several lines was lost.
---
 main.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/main.go b/main.go
index cd2461e..88b4c84 100644
--- a/main.go
+++ b/main.go
@@ -398,13 +398,13 @@ func repl(cli *liner.State, cooked, uncooked liner.ModeApplier, name string) err
 			return err
 		}
 
-		if line == "" {
+		if line != "" {
+			cli.AppendHistory(line)
+			j.Append(line)
+		} else if suffix == initial {
 			continue
 		}
 
-		cli.AppendHistory(line)
-		j.Append(line)
-
 		suffix = continued
 
 		c, err := r.Scan(line + "\n")
-- 
2.43.0


From 62ae80d4b80722b53ab423851613a1287c89e50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:55 +0000
Subject: [PATCH 26/35] fix: Don't block a read after malformed input

Once a value was malformed, the parser of a pipe had ended and the next read
from the pipe blocked forever. And closing a reader that had not reported an
error left its goroutine behind.
---
 internal/common/type/pipe/pipe.go | 14 ++++++++++++++
 internal/reader/reader.go         |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index d2366bf..7a304ac 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -106,6 +106,9 @@ func (p *pipe) Read() cell.I {
 	for ok {
 		c, err = r.Scan(s)
 		if err != nil {
+			// What follows is not a part of what was malformed.
+			p.readerReset()
+
 			panic(err.Error())
 		}
 
@@ -234,6 +237,17 @@ func (p *pipe) readerPipeNil() {
 	p.r = nil
 }
 
+// readerReset discards the parser and what it has parsed.
+func (p *pipe) readerReset() {
+	p.Lock()
+	defer p.Unlock()
+
+	if p.p != nil {
+		p.p.Close()
+		p.p = nil
+	}
+}
+
 // write writes the message s to the pipe.
 func (p *pipe) write(s string) {
 	p.writing.Lock()
diff --git a/internal/reader/reader.go b/internal/reader/reader.go
index 4b8e329..e479900 100644
--- a/internal/reader/reader.go
+++ b/internal/reader/reader.go
@@ -23,7 +23,7 @@ type reader = T
 // New creates a new reader for name.
 func New(name string) *T {
 	r := &T{
-		e: make(chan error),
+		e: make(chan error, 1), // There may be no one left to tell.
 		i: make(chan string),
 		o: make(chan cell.I),
 		s: lexer.New(name),
-- 
2.43.0


From f9ce06416ae68a349a93ae46f4aa0723286e1ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:19 +0000
Subject: [PATCH 27/35] fix: Complete without evaluating what was typed and
 offer the files that match

---
 main.go | 53 ++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/main.go b/main.go
index 88b4c84..3905f8f 100644
--- a/main.go
+++ b/main.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/michaelmacinnis/oh/internal/common"
 	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
+	"github.com/michaelmacinnis/oh/internal/common/interface/literal"
 	"github.com/michaelmacinnis/oh/internal/common/type/list"
 	"github.com/michaelmacinnis/oh/internal/common/type/pair"
 	"github.com/michaelmacinnis/oh/internal/common/type/str"
@@ -111,8 +112,7 @@ func completer(j **job.T, r **reader.T) func(s string, n int) (h string, cs []st
 				return
 			}
 
-			cmd := list.New(sym.New("complete"), sym.New(completing))
-			v, _ := engine.System(*j, cmd)
+			v, _ := engine.System(*j, list.New(sym.New("complete"), str.New(completing)))
 
 			process.RestoreForegroundGroup()
 
@@ -120,28 +120,33 @@ func completer(j **job.T, r **reader.T) func(s string, n int) (h string, cs []st
 				cs = append(cs, common.String(pair.Car(c)))
 			}
 		} else {
-			cmd := list.Append(list.New(list.Array(cmd)...), sym.New(completing))
-			v, _ := engine.System(*j, pair.Cons(sym.New("complete"), cmd))
+			args := list.Append(literals(cmd), str.New(completing))
+			v, _ := engine.System(*j, pair.Cons(sym.New("complete"), args))
 
 			process.RestoreForegroundGroup()
 
 			cs = files(cache.Files, cwd, home, engine.Resolve("PWD"), completing)
 
-			cfname := common.String(pair.Car(v))
-			if cfname != "_minimal" && cfname != "_filedir_xspec" {
-				for c := pair.Cdr(v); c != pair.Null; c = pair.Cdr(c) {
-					cs = append(cs, common.String(pair.Car(c)))
+			if v != pair.Null {
+				cfname := common.String(pair.Car(v))
+				if cfname != "_minimal" && cfname != "_filedir_xspec" {
+					for c := pair.Cdr(v); c != pair.Null; c = pair.Cdr(c) {
+						cs = append(cs, common.String(pair.Car(c)))
+					}
 				}
 			}
 		}
 
-		if len(cs) == 0 {
-			return prefix, []string{completing}, t
-		}
-
+		// Anything else would replace what was typed.
 		unique := make(map[string]bool)
 		for _, completion := range cs {
-			unique[completion] = true
+			if strings.HasPrefix(completion, completing) {
+				unique[completion] = true
+			}
+		}
+
+		if len(unique) == 0 {
+			return prefix, []string{completing}, t
 		}
 
 		cs = make([]string, 0, len(unique))
@@ -192,7 +197,7 @@ func expand(cwd, home, candidate string) (string, bool) {
 		candidate = join(home, candidate[1:])
 
 	default:
-		candidate = clean(candidate)
+		candidate = strings.TrimPrefix(clean(candidate), "."+pathSeparator)
 	}
 
 	return candidate, dotdir
@@ -205,7 +210,7 @@ func files(cached func(string) []string, cwd, home, paths, word string) []string
 	if !path.IsAbs(candidate) && !dotdir {
 		candidates = directories(paths)
 		for k, v := range candidates {
-			candidates[k] = v + pathSeparator + candidate
+			candidates[k] = strings.TrimSuffix(v, pathSeparator) + pathSeparator + candidate
 		}
 	}
 
@@ -290,6 +295,24 @@ func join(s ...string) string {
 	return filepath.Join(s...) + tail
 }
 
+// literals returns the elements of cmd as strings as a command that is being
+// completed must not be evaluated, not even in part.
+func literals(cmd cell.I) cell.I {
+	words := []cell.I{}
+
+	for _, c := range list.Array(cmd) {
+		if pair.Is(c) {
+			c = str.New(literal.String(c))
+		} else {
+			c = str.New(common.String(c))
+		}
+
+		words = append(words, c)
+	}
+
+	return list.New(words...)
+}
+
 func matches(cached func(string) []string, candidates []string, word string) []string {
 	completions := []string{}
 
-- 
2.43.0


From 54c520d1ad91881c77ed580d640f6d9e447b67d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:22 +0000
Subject: [PATCH 28/35] fix: List the root directory and symlinked directories
 when completing

---
 internal/system/cache/cache.go | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/internal/system/cache/cache.go b/internal/system/cache/cache.go
index 731783d..54acc2b 100644
--- a/internal/system/cache/cache.go
+++ b/internal/system/cache/cache.go
@@ -49,8 +49,6 @@ func Executables(dirname string) []string {
 func Files(dirname string) []string {
 	dirname = filepath.Clean(dirname)
 
-	max := strings.Count(dirname, pathSeparator) + 1
-
 	e := []string{}
 	f := []string{}
 
@@ -78,23 +76,12 @@ func Files(dirname string) []string {
 			return nil
 		}
 
-		depth := strings.Count(p, pathSeparator)
-		if depth > max {
-			if i.IsDir() {
-				return filepath.SkipDir
-			}
-
-			return nil
-		} else if depth < max {
-			return nil
-		}
-
 		if original != dirname {
-			p = strings.Replace(p, dirname, original, 1)
+			p = filepath.Join(original, filepath.Base(p))
 		}
 
 		switch {
-		case p != pathSeparator && i.IsDir():
+		case i.IsDir():
 			p += pathSeparator
 			e = append(e, p)
 
@@ -104,6 +91,10 @@ func Files(dirname string) []string {
 
 		f = append(f, p)
 
+		if i.IsDir() {
+			return filepath.SkipDir
+		}
+
 		return nil
 	})
 
-- 
2.43.0


From d1c8d912d487077373dbcc8ba267c94dfcdbed56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:25 +0000
Subject: [PATCH 29/35] fix: Close a file opened for reading and writing only
 once

---
 internal/common/type/pipe/pipe.go | 81 ++++++++++++++++---------------
 1 file changed, 42 insertions(+), 39 deletions(-)

diff --git a/internal/common/type/pipe/pipe.go b/internal/common/type/pipe/pipe.go
index 7a304ac..5d21101 100644
--- a/internal/common/type/pipe/pipe.go
+++ b/internal/common/type/pipe/pipe.go
@@ -56,7 +56,16 @@ func New(r, w *os.File) cell.I {
 		w: w,
 	}
 
-	runtime.SetFinalizer(p, (*pipe).Close)
+	runtime.SetFinalizer(p, func(p *pipe) {
+		// There is no one left to tell if this fails.
+		if p.closeableReadEnd() {
+			_ = p.readerClose()
+		}
+
+		if p.closeableWriteEnd() {
+			_ = p.writerClose()
+		}
+	})
 
 	return p
 }
@@ -146,8 +155,10 @@ func (p *pipe) ReadLine() cell.I {
 
 // ReaderClose closes the read end of the pipe and sets it to nil.
 func (p *pipe) ReaderClose() {
-	p.readerClosePipe()
-	p.readerPipeNil()
+	err := p.readerClose()
+	if err != nil {
+		panic(err.Error())
+	}
 }
 
 // Write writes a cell to the pipe.
@@ -160,10 +171,12 @@ func (p *pipe) WriteLine(c cell.I) {
 	p.write(common.String(c) + "\n")
 }
 
-// WriterClose closes the write end of the pipe.
+// WriterClose closes the write end of the pipe and sets it to nil.
 func (p *pipe) WriterClose() {
-	p.writerClosePipe()
-	p.writerPipeNil()
+	err := p.writerClose()
+	if err != nil {
+		panic(err.Error())
+	}
 }
 
 func (p *pipe) buffer() *bufio.Reader {
@@ -210,31 +223,27 @@ func (p *pipe) reader() *reader.T {
 	return p.p
 }
 
-// readerClosePipe closes the read end of the pipe.
-func (p *pipe) readerClosePipe() {
-	p.RLock()
-	defer p.RUnlock()
+// readerClose closes the read end of the pipe and sets it to nil. A file
+// opened for both reading and writing is closed once neither end needs it.
+func (p *pipe) readerClose() error {
+	p.Lock()
+	defer p.Unlock()
 
 	if p.p != nil {
 		p.p.Close()
 	}
 
-	if p.r != nil {
-		err := p.r.Close()
-		if err != nil {
-			panic(err.Error())
-		}
-	}
-}
-
-// readerPipeNil sets the read end of the pipe to nil.
-func (p *pipe) readerPipeNil() {
-	p.Lock()
-	defer p.Unlock()
+	r := p.r
 
 	p.b = nil
 	p.p = nil
 	p.r = nil
+
+	if r == nil || r == p.w {
+		return nil
+	}
+
+	return r.Close()
 }
 
 // readerReset discards the parser and what it has parsed.
@@ -271,27 +280,21 @@ func (p *pipe) writer() *os.File {
 	return p.w
 }
 
-// writerClosePipe closes the write end of the pipe.
-func (p *pipe) writerClosePipe() {
-	p.RLock()
-	defer p.RUnlock()
-
-	if p.w == nil {
-		return
-	}
-
-	err := p.w.Close()
-	if err != nil {
-		panic(err.Error())
-	}
-}
-
-// writerPipeNil sets the write end of the pipe to nil.
-func (p *pipe) writerPipeNil() {
+// writerClose closes the write end of the pipe and sets it to nil. A file
+// opened for both reading and writing is closed once neither end needs it.
+func (p *pipe) writerClose() error {
 	p.Lock()
 	defer p.Unlock()
 
+	w := p.w
+
 	p.w = nil
+
+	if w == nil || w == p.r {
+		return nil
+	}
+
+	return w.Close()
 }
 
 // R converts c to a pipe and returns the read end of the pipe.
-- 
2.43.0


From a33d69f2b5d243410938ed60f35d3c4e9150783f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:07 +0000
Subject: [PATCH 30/35] fix: End process substitutions whose file is not used
 and remove their FIFOs

---
 internal/engine/boot/boot.oh         | 140 +++++++++++++++++++--------
 internal/engine/commands/commands.go |   1 +
 internal/engine/commands/file.go     |  14 +++
 3 files changed, 115 insertions(+), 40 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index ceffa33..07e0c9c 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -364,67 +364,127 @@ block {
     set pipe-output-to: make-pipe $override-stdout
     set pipe-output-errors-to: make-pipe $override-stdout-stderr
 
-    set process-substitution: syntax ((args)) e {
-        define channels ()
-        define fifos ()
+    # Returns the opened fifo, or (), and the last exception. Something else may
+    # be waiting for the other end so keep trying until told to stop.
+    define open-fifo: method (mode fifo stop?) {
+        define f ()
+        define ex ()
+        define attempt: method () {
+            catch x {
+                set ex $x
+                return
+            }
+            set f: open $mode $fifo
+        }
+
+        attempt
+        while (and (null? $f) (not: stop?)) {
+            attempt
+        }
+
+        return (cons $f $ex)
+    }
+
+    define start-substitution: method (e fifo mode override cmd) {
+        define c: chan 1
+        define needed true
+        define opened ()
+        define started: chan 1
+
+        spawn {
+            define f-ex: open-fifo $mode $fifo (method () = (not $needed))
+            define f: f-ex head
 
-        define cmd: for $args (method (arg) {
-            if (not: cons? $arg) {
-                return $arg
+            set opened true
+            started write true
+
+            if $f {
+                define rex: run-r-ex (method () = (override $e $f $cmd))
+                f close
+                c write $rex
+            } else {
+                c write $f-ex
             }
+        }
 
-            if (equal? -named-pipe-input-from (arg head)) {
-                define c: chan 1
-                define fifo: temp-fifo
+        # Wait for cmd to end. If it wasn't able to start, because the command
+        # it is a part of did not open fifo, it is started now.
+        return (method () {
+            set needed ()
 
-                spawn {
-                    define f: open w $fifo
-                    c write (run-r-ex (method () {
-                        override-stdout $e $f (arg tail)
-                    }))
-                    f close
-                }
+            define f-ex: open-fifo rw- $fifo (method () {
+                return (or $opened (not: exists $fifo))
+            })
 
-                set channels: cons $c $channels
-                set fifos: cons $fifo $fifos
+            started read
 
-                return $fifo
+            define f: f-ex head
+            if $f {
+                f close
             }
 
-            if (equal? -named-pipe-output-to (arg head)) {
-                define c: chan 1
-                define fifo: temp-fifo
+            define rex: c read
+            rm-fifo $fifo
 
-                spawn {
-                    define f: open r $fifo
-                    c write (run-r-ex (method () {
-                        override-stdin $e $f (arg tail)
-                    }))
-                    f close
+            return $rex
+        })
+    }
+
+    set process-substitution: syntax ((args)) e {
+        define finish ()
+
+        # Returns cmd, with each substitution replaced, and an exception.
+        define substitute: method () {
+            catch ex {
+                return (cons () $ex)
+            }
+
+            define cmd: for $args (method (arg) {
+                if (not: cons? $arg) {
+                    return $arg
+                }
+
+                define mode ()
+                define override ()
+
+                if (equal? -named-pipe-input-from (arg head)) {
+                    set mode w-
+                    set override $override-stdout
                 }
 
-                set channels: cons $c $channels
-                set fifos: cons $fifo $fifos
+                if (equal? -named-pipe-output-to (arg head)) {
+                    set mode r-
+                    set override $override-stdin
+                }
+
+                if (null? $mode) {
+                    return $arg
+                }
+
+                define fifo: temp-fifo
+
+                set finish: cons (start-substitution $e $fifo $mode $override (arg tail)) $finish
 
                 return $fifo
-            }
+            })
 
-            return $arg
-        })
+            return (cons $cmd ())
+        }
+
+        define cmd-ex: substitute
 
-        define mainecex: e eval (wrap-redir-r-ex $cmd)
+        define mainecex: cons () (cmd-ex tail)
+        if (null? (cmd-ex tail)) {
+            set mainecex: e eval (wrap-redir-r-ex (cmd-ex head))
+        }
 
         define ecexs ()
-        for $channels (method (c) {
-            set ecexs: cons (c read) $ecexs
+        for $finish (method (f) {
+            set ecexs: cons (f) $ecexs
         })
 
         set ecexs: cons $mainecex $ecexs
 
-        for $fifos (method (fifo) {
-            rm $fifo
-        })
-
         for $ecexs (method (ecex) {
             if (not: cons? $ecex) {
                 ecex
diff --git a/internal/engine/commands/commands.go b/internal/engine/commands/commands.go
index dee4d7b..59fcb3e 100644
--- a/internal/engine/commands/commands.go
+++ b/internal/engine/commands/commands.go
@@ -35,6 +35,7 @@ func Functions() map[string]func(cell.I) cell.I {
 		"pipe?":     isPipe,
 		"random":    random,
 		"rend":      rend,
+		"rm-fifo":   rmfifo,
 		"sprintf":   sprintf,
 		"status":    makeStatus,
 		"string":    makeString,
diff --git a/internal/engine/commands/file.go b/internal/engine/commands/file.go
index 2356a56..d28ae00 100644
--- a/internal/engine/commands/file.go
+++ b/internal/engine/commands/file.go
@@ -3,11 +3,14 @@
 package commands
 
 import (
+	"errors"
 	"os"
 	"strings"
 
 	"github.com/michaelmacinnis/adapted"
+	"github.com/michaelmacinnis/oh/internal/common"
 	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
+	"github.com/michaelmacinnis/oh/internal/common/type/pair"
 	"github.com/michaelmacinnis/oh/internal/common/type/pipe"
 	"github.com/michaelmacinnis/oh/internal/common/type/sym"
 	"github.com/michaelmacinnis/oh/internal/common/validate"
@@ -76,6 +79,17 @@ func Open(mode, path string) cell.I {
 	return pipe.New(r, w)
 }
 
+func rmfifo(args cell.I) cell.I {
+	v := validate.Fixed(args, 1, 1)
+
+	err := os.Remove(common.String(v[0]))
+	if err != nil && !errors.Is(err, os.ErrNotExist) {
+		panic(err.Error())
+	}
+
+	return pair.Null
+}
+
 func tempfifo(args cell.I) cell.I {
 	validate.Fixed(args, 0, 0)
 
-- 
2.43.0


From 0fdfbb652d6186cfc50be0e6697883402cf3c0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:18 +0000
Subject: [PATCH 31/35] fix: Don't hide a variable named r from redirected,
 piped and captured commands

---
 internal/engine/boot/boot.oh | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index 07e0c9c..b9d0068 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -174,16 +174,13 @@ block {
     define wrap-redir-r-ex: method ((block)) {
         set block: cons block $block
 
+        # The block can see anything defined by this method.
         quasiquote ((method () {
-            define r ()
-
             catch ex {
-                return (cons $r $ex)
+                return (cons () $ex)
             }
 
-            set r (unquote $block)
-
-            throw ()
+            return (cons (unquote $block) ())
         }))
     }
 
-- 
2.43.0


From 2345fd86626d9696396888ed8080f2adc461ec1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:21 +0000
Subject: [PATCH 32/35] fix: Allow input to be redirected from a device such as
 /dev/null

---
 internal/engine/boot/boot.oh | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index b9d0068..82237f2 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -297,14 +297,11 @@ block {
 
             define f ()
             if (not (or (chan? $c) (pipe? $c))) {
-                if (and $check (e eval (list $exists -i $c))) {
-                    if (eq? wx $mode) {
-                        throw "${c} exists"
-                    }
-                } else {
-                    if (eq? r $mode) {
-                        throw "${c} does not exist"
-                    }
+                if (and $check (eq? wx $mode) (e eval (list $exists -i $c))) {
+                    throw "${c} exists"
+                }
+                if (and $check (eq? r $mode) (not: e eval (list $exists $c))) {
+                    throw "${c} does not exist"
                 }
                 set f: e eval (list $open $mode $c)
                 set c $f
-- 
2.43.0


From 6b84b64f891f0e4e6e9fe0c429b6d606809e0230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:28 +0000
Subject: [PATCH 33/35] fix: Close a sourced file that can't be read

---
 internal/engine/boot/boot.oh | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/internal/engine/boot/boot.oh b/internal/engine/boot/boot.oh
index 82237f2..fa3f6cd 100644
--- a/internal/engine/boot/boot.oh
+++ b/internal/engine/boot/boot.oh
@@ -84,14 +84,23 @@ define source: method (basename) e {
 
     define f: open r- $name
 
-    define r: cons () ()
-    define c $r
-    while (define l: f read-list) {
-        c set-tail (cons $l ())
-        set c: c tail
+    define read-all: method () {
+        catch ex {
+            f close
+            throw $ex
+        }
+
+        define r: cons () ()
+        define c $r
+        while (define l: f read-list) {
+            c set-tail (cons $l ())
+            set c: c tail
+        }
+
+        return (r tail)
     }
-    set c: r tail
 
+    define c: read-all
     f close
 
     define rval ()
-- 
2.43.0


From d6c69fed36cb5413e8bf27ce187337b9021f44e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:30 +0000
Subject: [PATCH 34/35] fix: Let the goroutine of a reader that was closed
 before it ran end

---
 internal/reader/reader.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/reader/reader.go b/internal/reader/reader.go
index e479900..b471f15 100644
--- a/internal/reader/reader.go
+++ b/internal/reader/reader.go
@@ -106,8 +106,9 @@ func (r *reader) next() bool {
 }
 
 func (r *reader) start() {
-	r.next()
+	if r.next() {
+		r.e <- r.p.Parse()
+	}
 
-	r.e <- r.p.Parse()
 	close(r.e)
 }
-- 
2.43.0


From 56b39a5f388120ba72363c0d4851e6977725057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:55 +0000
Subject: [PATCH 35/35] fix: Check the arguments of exit before marking the
 task as exited

---
 internal/engine/task/action.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/engine/task/action.go b/internal/engine/task/action.go
index fbaf7ff..cd257f5 100644
--- a/internal/engine/task/action.go
+++ b/internal/engine/task/action.go
@@ -1111,6 +1111,8 @@ func open(t *T) Op {
 // Methods.
 
 func exit(t *T) Op {
+	validate.Fixed(t.code, 0, 1)
+
 	t.Exit()
 
 	return fatal(t)
-- 
2.43.0

