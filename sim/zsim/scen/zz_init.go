//go:build go1.22

package scen

// The world exists before any package of the program under test starts.
func init() { Init() }
