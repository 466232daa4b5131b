//go:build go1.22

// Package runtime replaces runtime for the program under test.
package runtime

import (
	"reflect"
	real "runtime"

	"zsim/rt"
)

const (
	GOOS   = real.GOOS
	GOARCH = real.GOARCH
)

var (
	Callers       = real.Callers
	CallersFrames = real.CallersFrames
)

// SetFinalizer registers a finalizer that only rt.Collect runs.
func SetFinalizer(obj any, fin any) {
	if fin == nil {
		real.SetFinalizer(obj, nil)

		return
	}

	f := reflect.ValueOf(fin)
	seq := rt.CollectSeq()

	ft := reflect.FuncOf([]reflect.Type{reflect.TypeOf(obj)}, nil, false)
	real.SetFinalizer(obj, reflect.MakeFunc(ft, func(a []reflect.Value) []reflect.Value {
		rt.AddCollected(seq, func() { f.Call(a) })

		return nil
	}).Interface())
}

// Gosched yields.
func Gosched() { rt.Yield() }

// GC does nothing.
func GC() {}

// NumGoroutine counts tasks.
func NumGoroutine() int {
	n := 0
	for _, t := range rt.Tasks {
		if t.State != rt.Done && !t.Daemon {
			n++
		}
	}

	return n
}

// LockOSThread does nothing.
func LockOSThread() {}

// UnlockOSThread does nothing.
func UnlockOSThread() {}
