//go:build go1.22

package rt

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unsafe"
)

type waiter struct {
	t    *Task
	sel  *sel
	idx  int
	val  interface{}
	ok   bool
	done bool
}

type sel struct {
	fired bool
	idx   int
	w     *waiter
}

type hchan struct {
	id     int
	keep   interface{}
	cap    int
	buf    []interface{}
	vcs    []*Clock
	recvq  []*waiter
	sendq  []*waiter
	closed bool
	vc     Clock // Receives release, sends acquire (conservative).
	cvc    Clock
}

var chans = map[unsafe.Pointer]*hchan{}

func chanOf(p unsafe.Pointer, c interface{}, capacity int) *hchan {
	if p == nil {
		return nil
	}

	h := chans[p]
	if h == nil {
		h = &hchan{id: len(chans) + 1, keep: c, cap: capacity}
		chans[p] = h
	}

	return h
}

func recvChan[T any, C ~chan T | ~<-chan T](c C) *hchan {
	return chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&c)), c, cap(c))
}

func sendChan[T any, C ~chan T | ~chan<- T](c C) *hchan {
	return chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&c)), c, cap(c))
}

func deq(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]

		if w.sel.fired || w.t.State == Done || w.t.Killed {
			continue
		}

		return w
	}

	return nil
}

func live(q *[]*waiter) bool {
	for len(*q) > 0 {
		w := (*q)[0]
		if w.sel.fired || w.t.State == Done || w.t.Killed {
			*q = (*q)[1:]
			continue
		}

		return true
	}

	return false
}

func fire(w *waiter) {
	w.sel.fired = true
	w.sel.idx = w.idx
	w.sel.w = w
	Ready(w.t)
}

// trySend attempts to send without blocking.
func (h *hchan) trySend(v interface{}) bool {
	if h.closed {
		panic(runtimeError("send on closed channel"))
	}

	if w := deq(&h.recvq); w != nil {
		w.val, w.ok = v, true
		if Cfg.Race {
			c := &Clock{}
			c.Release()
			c.AcquireFor(w.t)
			c2 := &Clock{}
			c2.ReleaseFor(w.t)
			if h.cap == 0 {
				c2.Acquire()
			}
		}
		fire(w)

		return true
	}

	if len(h.buf) < h.cap {
		h.buf = append(h.buf, v)
		if Cfg.Race {
			c := &Clock{}
			c.Release()
			h.vcs = append(h.vcs, c)
			h.vc.Acquire()
		}

		return true
	}

	return false
}

// tryRecv attempts to receive without blocking.
func (h *hchan) tryRecv() (v interface{}, ok, done bool) {
	if len(h.buf) > 0 {
		v = h.buf[0]
		h.buf = h.buf[1:]

		if Cfg.Race {
			h.vcs[0].Acquire()
			h.vcs = h.vcs[1:]
			h.vc.Release()
		}

		if w := deq(&h.sendq); w != nil {
			h.buf = append(h.buf, w.val)
			if Cfg.Race {
				c := &Clock{}
				c.ReleaseFor(w.t)
				h.vcs = append(h.vcs, c)
				h.vc.AcquireFor(w.t)
			}
			fire(w)
		}

		return v, true, true
	}

	if w := deq(&h.sendq); w != nil {
		v = w.val
		if Cfg.Race {
			c := &Clock{}
			c.ReleaseFor(w.t)
			c.Acquire()
			c2 := &Clock{}
			c2.Release()
			c2.AcquireFor(w.t)
		}
		fire(w)

		return v, true, true
	}

	if h.closed {
		h.cvc.Acquire()

		return nil, false, true
	}

	return nil, false, false
}

type runtimeErr string

func (e runtimeErr) Error() string { return string(e) }
func (runtimeErr) RuntimeError()   {}
func runtimeError(s string) error  { return runtimeErr(s) }

func (h *hchan) name() string {
	if h == nil {
		return "nil chan"
	}

	return fmt.Sprintf("chan %d", h.id)
}

func send(h *hchan, v interface{}) {
	Point()

	if h == nil {
		Block("send on nil channel")
	}

	if h.trySend(v) {
		if TraceOn {
			Trace("send %s", h.name())
		}

		return
	}

	w := &waiter{t: cur, sel: &sel{}, val: v}
	h.sendq = append(h.sendq, w)

	Block("send on " + h.name())

	if !w.sel.fired {
		panic("zsim: send woken without partner")
	}

	if w.done { // Closed while waiting.
		panic(runtimeError("send on closed channel"))
	}
}

func recv(h *hchan) (interface{}, bool) {
	Point()

	if h == nil {
		Block("receive from nil channel")
	}

	v, ok, done := h.tryRecv()
	if done {
		if TraceOn {
			Trace("recv %s", h.name())
		}

		return v, ok
	}

	w := &waiter{t: cur, sel: &sel{}}
	h.recvq = append(h.recvq, w)

	Block("receive on " + h.name())

	return w.val, w.ok
}

// SendOn implements ch <- v.
func SendOn[T any, C ~chan T | ~chan<- T](c C) func(T) {
	h := sendChan[T](c)

	return func(v T) { send(h, v) }
}

func conv[T any](x interface{}) (v T) {
	if x != nil {
		v, _ = x.(T)
	}

	return
}

// Recv implements <-ch.
func Recv[T any, C ~chan T | ~<-chan T](c C) T {
	x, _ := recv(recvChan[T](c))

	return conv[T](x)
}

// Recv2 implements v, ok := <-ch.
func Recv2[T any, C ~chan T | ~<-chan T](c C) (T, bool) {
	x, ok := recv(recvChan[T](c))

	return conv[T](x), ok
}

// Close implements close(ch).
func Close[T any, C ~chan T | ~chan<- T](c C) {
	Point()

	h := sendChan[T](c)
	if h == nil {
		panic(runtimeError("close of nil channel"))
	}

	if h.closed {
		panic(runtimeError("close of closed channel"))
	}

	h.closed = true
	h.cvc.Release()

	for w := deq(&h.recvq); w != nil; w = deq(&h.recvq) {
		w.val, w.ok = nil, false
		h.cvc.AcquireFor(w.t)
		fire(w)
	}

	for w := deq(&h.sendq); w != nil; w = deq(&h.sendq) {
		w.done = true
		fire(w)
	}
}

// Len implements len(ch).
func Len[T any, C ~chan T | ~<-chan T](c C) int {
	h := recvChan[T](c)
	if h == nil {
		return 0
	}

	return len(h.buf)
}

// LenS implements len(ch) for a send-only channel.
func LenS[T any, C ~chan<- T](c C) int {
	h := sendChan[T](c)
	if h == nil {
		return 0
	}

	return len(h.buf)
}

// Case is one communication of a select statement.
type Case interface {
	h() *hchan
	isSend() bool
	get() interface{}
	set(v interface{}, ok bool)
}

// RCase is a receive.
type RCase[T any] struct {
	c  *hchan
	v  T
	ok bool
}

func (r *RCase[T]) h() *hchan        { return r.c }
func (r *RCase[T]) isSend() bool     { return false }
func (r *RCase[T]) get() interface{} { return nil }
func (r *RCase[T]) set(v interface{}, ok bool) {
	r.v, r.ok = conv[T](v), ok
}

// V returns the received value.
func (r *RCase[T]) V() T { return r.v }

// V2 returns the received value and whether it was sent.
func (r *RCase[T]) V2() (T, bool) { return r.v, r.ok }

// SCase is a send.
type SCase struct {
	c *hchan
	v interface{}
}

func (s *SCase) h() *hchan             { return s.c }
func (s *SCase) isSend() bool          { return true }
func (s *SCase) get() interface{}      { return s.v }
func (s *SCase) set(interface{}, bool) {}

// CRecv builds a receive case.
func CRecv[T any, C ~chan T | ~<-chan T](c C) *RCase[T] { return &RCase[T]{c: recvChan[T](c)} }

// CSend builds a send case.
func CSend[T any, C ~chan T | ~chan<- T](c C) func(T) *SCase {
	h := sendChan[T](c)

	return func(v T) *SCase { return &SCase{h, v} }
}

// Select implements the select statement; it returns the index of the case
// chosen or -1 for default.
func Select(def bool, cases ...Case) int {
	Point()

	ready := []int{}

	for i, c := range cases {
		h := c.h()
		if h == nil {
			continue
		}

		if c.isSend() {
			if h.closed || live(&h.recvq) || len(h.buf) < h.cap {
				ready = append(ready, i)
			}
		} else if len(h.buf) > 0 || live(&h.sendq) || h.closed {
			ready = append(ready, i)
		}
	}

	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 {
			k = choosePickN(len(ready))
		}

		i := ready[k]
		c := cases[i]

		if c.isSend() {
			c.h().trySend(c.get())
		} else {
			v, ok, _ := c.h().tryRecv()
			c.set(v, ok)
		}

		return i
	}

	if def {
		return -1
	}

	s := &sel{}
	names := []string{}

	for i, c := range cases {
		h := c.h()
		if h == nil {
			continue
		}

		w := &waiter{t: cur, sel: s, idx: i}

		if c.isSend() {
			w.val = c.get()
			h.sendq = append(h.sendq, w)
		} else {
			h.recvq = append(h.recvq, w)
		}

		names = append(names, h.name())
	}

	Block("select " + strings.Join(names, ","))

	c := cases[s.idx]
	if c.isSend() {
		if s.w.done {
			panic(runtimeError("send on closed channel"))
		}
	} else {
		c.set(s.w.val, s.w.ok)
	}

	return s.idx
}

// choosePickN chooses among n equally legal alternatives of the Go runtime.
func choosePickN(n int) int {
	picks++

	if quiet {
		return 0
	}

	k := 0
	if Cfg.Replay {
		k = repS[picks] % n
	} else {
		k = schedRNG.N(n)
	}

	if k != 0 {
		DevLog = append(DevLog, Dev{"s", picks, k})
	}

	return k
}

// ---------------------------------------------------------------- Iteration.

// ChanIter implements range over a channel.
type ChanIter[T any] struct{ h *hchan }

// RangeChan starts a range over a channel.
func RangeChan[T any, C ~chan T | ~<-chan T](c C) (*ChanIter[T], T) {
	var v T

	return &ChanIter[T]{recvChan[T](c)}, v
}

// Next receives the next value.
func (it *ChanIter[T]) Next(v *T) bool {
	x, ok := recv(it.h)
	if !ok {
		return false
	}

	*v = conv[T](x)

	return true
}

// MapIter is a deterministic map iteration.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// RangeMap starts a range over a map.
func RangeMap[M ~map[K]V, K comparable, V any](m M) (it *MapIter[K, V], k K, v V) {
	MR(m)

	return &MapIter[K, V]{m: m, keys: Keys(m)}, k, v
}

// Next advances the iteration.
func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++

		x, ok := it.m[key]
		if !ok {
			continue
		}

		if k != nil {
			*k = key
		}
		if v != nil {
			*v = x
		}

		return true
	}

	return false
}

// Keys returns the keys of m in a deterministic order chosen by the schedule.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}

	if len(keys) > 1 {
		sort.Slice(keys, func(i, j int) bool { return less(reflect.ValueOf(keys[i]), reflect.ValueOf(keys[j])) })

		// Go's order is arbitrary: rotate.
		if r := choosePickN(len(keys)); r != 0 {
			keys = append(append([]K{}, keys[r:]...), keys[:r]...)
		}
	}

	return keys
}

func less(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	case reflect.Bool:
		return !a.Bool() && b.Bool()
	case reflect.Float64, reflect.Float32:
		return a.Float() < b.Float()
	case reflect.Ptr, reflect.Chan, reflect.UnsafePointer:
		return ptrID(a.UnsafePointer()) < ptrID(b.UnsafePointer())
	case reflect.Interface:
		if a.IsNil() || b.IsNil() || a.Elem().Type() != b.Elem().Type() {
			return fmt.Sprintf("%T", a.Interface()) < fmt.Sprintf("%T", b.Interface())
		}

		return less(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if less(a.Field(i), b.Field(i)) {
				return true
			}
			if less(b.Field(i), a.Field(i)) {
				return false
			}
		}

		return false
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if less(a.Index(i), b.Index(i)) {
				return true
			}
			if less(b.Index(i), a.Index(i)) {
				return false
			}
		}

		return false
	}

	panic("zsim: unsupported map key kind " + a.Kind().String())
}

// Print hooks for the print and println builtins.
var Stderr func(s string)

// Println implements the println builtin.
func Println(args ...interface{}) {
	s := make([]string, len(args))
	for i, a := range args {
		s[i] = fmt.Sprint(a)
	}

	Stderr(strings.Join(s, " ") + "\n")
}

// Print implements the print builtin.
func Print(args ...interface{}) {
	s := make([]string, len(args))
	for i, a := range args {
		s[i] = fmt.Sprint(a)
	}

	Stderr(strings.Join(s, ""))
}

// TrySend sends without blocking; it may be called from timers.
func TrySend[T any](c chan T, v T) bool {
	h := sendChan[T](c)
	if h.closed {
		return false
	}

	return h.trySend(v)
}
