//go:build go1.22

// Package sim runs the program under test in the simulation.
package sim

import (
	"runtime/debug"

	"zsim/kern"
	"zsim/os"
	"zsim/rt"
	"zsim/scen"
)

// Main runs the transformed main function as the simulated shell.
func Main(main func()) {
	scen.Init()
	func() {
		defer func() {
			if r := recover(); r != nil {
				rt.CrashFn(r, string(debug.Stack()))
			}
		}()
		main()
	}()
	kern.K.Log("main-returned", kern.K.Shell.PID, "")
	os.Exit(0)
}
