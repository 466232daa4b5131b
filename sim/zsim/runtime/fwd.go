//go:build go1.22

// Code generated by genshim; forwards to runtime.

package runtime

import real "runtime"

var BlockProfile = real.BlockProfile

type BlockProfileRecord = real.BlockProfileRecord

var Breakpoint = real.Breakpoint
var Caller = real.Caller

const Compiler = real.Compiler

type Error = real.Error
type Frame = real.Frame
type Frames = real.Frames
type Func = real.Func

var FuncForPC = real.FuncForPC
var GOMAXPROCS = real.GOMAXPROCS
var GOROOT = real.GOROOT
var GoroutineProfile = real.GoroutineProfile
var KeepAlive = real.KeepAlive
var MemProfile = real.MemProfile
var MemProfileRate = real.MemProfileRate

type MemProfileRecord = real.MemProfileRecord
type MemStats = real.MemStats

var MutexProfile = real.MutexProfile
var NumCPU = real.NumCPU
var NumCgoCall = real.NumCgoCall

type PanicNilError = real.PanicNilError
type Pinner = real.Pinner

var ReadMemStats = real.ReadMemStats
var ReadTrace = real.ReadTrace
var SetBlockProfileRate = real.SetBlockProfileRate
var SetCPUProfileRate = real.SetCPUProfileRate
var SetCgoTraceback = real.SetCgoTraceback
var SetMutexProfileFraction = real.SetMutexProfileFraction
var Stack = real.Stack

type StackRecord = real.StackRecord

var StartTrace = real.StartTrace
var StopTrace = real.StopTrace
var ThreadCreateProfile = real.ThreadCreateProfile

type TypeAssertionError = real.TypeAssertionError

var Version = real.Version
