//go:build go1.22

// Package maps replaces maps: iteration order is decided by the scheduler.
package maps

import "zsim/rt"

// Keys iterates over the keys.
func Keys[M ~map[K]V, K comparable, V any](m M) func(yield func(K) bool) {
	return func(yield func(K) bool) {
		for _, k := range rt.Keys(rt.MR(m)) {
			if !yield(k) {
				return
			}
		}
	}
}

// Values iterates over the values.
func Values[M ~map[K]V, K comparable, V any](m M) func(yield func(V) bool) {
	return func(yield func(V) bool) {
		for _, k := range rt.Keys(rt.MR(m)) {
			if !yield(m[k]) {
				return
			}
		}
	}
}

// All iterates over the pairs.
func All[M ~map[K]V, K comparable, V any](m M) func(yield func(K, V) bool) {
	return func(yield func(K, V) bool) {
		for _, k := range rt.Keys(rt.MR(m)) {
			if !yield(k, m[k]) {
				return
			}
		}
	}
}

// Clone copies.
func Clone[M ~map[K]V, K comparable, V any](m M) M {
	if m == nil {
		return nil
	}
	r := make(M, len(m))
	for k, v := range rt.MR(m) {
		r[k] = v
	}

	return r
}

// Copy copies.
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) {
	rt.MW(dst)
	for k, v := range rt.MR(src) {
		dst[k] = v
	}
}

// Equal compares.
func Equal[M1, M2 ~map[K]V, K, V comparable](a M1, b M2) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range rt.MR(a) {
		if w, ok := rt.MR(b)[k]; !ok || v != w {
			return false
		}
	}

	return true
}

// DeleteFunc deletes.
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for k, v := range rt.MW(m) {
		if del(k, v) {
			delete(m, k)
		}
	}
}
