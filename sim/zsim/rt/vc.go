//go:build go1.22

package rt

import (
	"fmt"
	"reflect"
	"unsafe"
)

// Happens-before tracking, to recognise map accesses for which the Go runtime
// aborts the process ("fatal error: concurrent map ...").

// Clock is a vector clock carried by a synchronisation object.
type Clock struct{ v []int32 }

func vcTick(t *Task) {
	for len(t.VC) <= t.ID {
		t.VC = append(t.VC, 0)
	}
	t.VC[t.ID]++
}

func vcJoin(dst []int32, src []int32) []int32 {
	for len(dst) < len(src) {
		dst = append(dst, 0)
	}
	for i, x := range src {
		if x > dst[i] {
			dst[i] = x
		}
	}

	return dst
}

// Acquire joins the clock of a synchronisation object into the current task.
func (c *Clock) Acquire() {
	if Cfg.Race && cur != nil {
		cur.VC = vcJoin(cur.VC, c.v)
	}
}

// Release joins the current task's clock into the object.
func (c *Clock) Release() {
	if Cfg.Race && cur != nil {
		c.v = vcJoin(c.v, cur.VC)
		vcTick(cur)
	}
}

// AcquireFor joins on behalf of another task (which was handed something).
func (c *Clock) AcquireFor(t *Task) {
	if Cfg.Race {
		t.VC = vcJoin(t.VC, c.v)
	}
}

// ReleaseFor releases on behalf of another task.
func (c *Clock) ReleaseFor(t *Task) {
	if Cfg.Race {
		c.v = vcJoin(c.v, t.VC)
		vcTick(t)
	}
}

type mapState struct {
	keep  interface{}
	wTask int
	wTime int32
	reads map[int]int32
}

var maps = map[uintptr]*mapState{}

// RaceFn is told about conflicting map accesses.
var RaceFn func(what string)

func mapOf(m interface{}) *mapState {
	p := reflect.ValueOf(m).Pointer()
	if p == 0 {
		return nil
	}

	s := maps[p]
	if s == nil {
		s = &mapState{keep: m, wTask: -1, reads: map[int]int32{}}
		maps[p] = s
	}

	return s
}

func before(task int, tm int32) bool {
	return task < len(cur.VC) && cur.VC[task] >= tm
}

// MR marks a read of the map m and returns it.
func MR[M ~map[K]V, K comparable, V any](m M) M {
	if Cfg.Race && cur != nil {
		if s := mapOf(m); s != nil {
			if s.wTask >= 0 && s.wTask != cur.ID && !before(s.wTask, s.wTime) {
				RaceFn(fmt.Sprintf("concurrent map read and map write (%T)", m))
			}
			s.reads[cur.ID] = cur.VC[cur.ID]
		}
	}

	return m
}

// MW marks a write to the map m and returns it.
func MW[M ~map[K]V, K comparable, V any](m M) M {
	if Cfg.Race && cur != nil {
		if s := mapOf(m); s != nil {
			if s.wTask >= 0 && s.wTask != cur.ID && !before(s.wTask, s.wTime) {
				RaceFn(fmt.Sprintf("concurrent map writes (%T)", m))
			}
			for t, tm := range s.reads {
				if t != cur.ID && !before(t, tm) {
					RaceFn(fmt.Sprintf("concurrent map read and map write (%T)", m))
				}
			}
			s.reads = map[int]int32{}
			s.wTask, s.wTime = cur.ID, cur.VC[cur.ID]
		}
	}

	return m
}

// ---------------------------------------------------------------- Pointer identity.

var (
	ptrIDs = map[unsafe.Pointer]int{}
)

// Note gives the object p an identity, in creation order.
func Note[T any](p *T) *T {
	if p != nil {
		u := unsafe.Pointer(p)
		if _, ok := ptrIDs[u]; !ok {
			ptrIDs[u] = len(ptrIDs) + 1
		}
	}

	return p
}

func ptrID(u unsafe.Pointer) int {
	id, ok := ptrIDs[u]
	if !ok {
		id = len(ptrIDs) + 1
		ptrIDs[u] = id
	}

	return id
}
