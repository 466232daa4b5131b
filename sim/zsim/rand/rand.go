//go:build go1.22

// Package rand replaces math/rand: seeded from the simulation.
package rand

import (
	real "math/rand"

	"zsim/scen"
)

type (
	Rand     = real.Rand
	Source   = real.Source
	Source64 = real.Source64
)

var (
	New       = real.New
	NewSource = real.NewSource
)

var global *real.Rand

func g() *real.Rand {
	if global == nil {
		global = real.New(real.NewSource(int64(scen.Rand("math/rand"))))
	}

	return global
}

// Seed is ignored: time is simulated and the seed is the run's.
func Seed(int64) { g() }

func Int() int                           { return g().Int() }
func Intn(n int) int                     { return g().Intn(n) }
func Int31() int32                       { return g().Int31() }
func Int31n(n int32) int32               { return g().Int31n(n) }
func Int63() int64                       { return g().Int63() }
func Int63n(n int64) int64               { return g().Int63n(n) }
func Uint32() uint32                     { return g().Uint32() }
func Uint64() uint64                     { return g().Uint64() }
func Float64() float64                   { return g().Float64() }
func Float32() float32                   { return g().Float32() }
func Perm(n int) []int                   { return g().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g().Shuffle(n, swap) }
