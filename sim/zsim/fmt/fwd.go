//go:build go1.22

// Code generated by genshim; forwards to fmt.

package fmt

import real "fmt"

var Append = real.Append
var Appendf = real.Appendf
var Appendln = real.Appendln
var Errorf = real.Errorf
var FormatString = real.FormatString

type Formatter = real.Formatter

var Fprint = real.Fprint
var Fprintf = real.Fprintf
var Fprintln = real.Fprintln
var Fscan = real.Fscan
var Fscanf = real.Fscanf
var Fscanln = real.Fscanln

type GoStringer = real.GoStringer
type ScanState = real.ScanState
type Scanner = real.Scanner

var Sprint = real.Sprint
var Sprintf = real.Sprintf
var Sprintln = real.Sprintln
var Sscan = real.Sscan
var Sscanf = real.Sscanf
var Sscanln = real.Sscanln

type State = real.State
type Stringer = real.Stringer
