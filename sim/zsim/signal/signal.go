//go:build go1.22

// Package signal replaces os/signal.
package signal

import (
	"context"
	"syscall"

	"zsim/kern"
	"zsim/os"
	"zsim/rt"
	"zsim/scen"
)

type handler struct {
	c    chan<- os.Signal
	mask uint64
}

var (
	handlers []*handler
	started  bool
)

func loop() {
	p := kern.K.Shell
	rt.Cur().Daemon = true

	for {
		s := p.NextSignal()
		rt.Point()

		for _, h := range handlers {
			if h.mask&(1<<uint(s)) != 0 {
				if rt.Select(true, rt.CSend[os.Signal](h.c)(s)) == -1 {
					rt.Probes["signal-dropped"]++
				}
			}
		}
	}
}

func all(sig []os.Signal) []os.Signal {
	if len(sig) > 0 {
		return sig
	}

	for i := 1; i < 32; i++ {
		if i != 9 && i != 19 {
			sig = append(sig, syscall.Signal(i))
		}
	}

	return sig
}

// Notify relays signals to c.
func Notify(c chan<- os.Signal, sig ...os.Signal) {
	if c == nil {
		panic("os/signal: Notify using nil channel")
	}

	scen.Init()

	var h *handler
	for _, x := range handlers {
		if x.c == c {
			h = x
		}
	}

	if h == nil {
		h = &handler{c: c}
		handlers = append(handlers, h)
	}

	for _, s := range all(sig) {
		n := int(s.(syscall.Signal))
		h.mask |= 1 << uint(n)
		kern.K.Shell.Disp[n] = kern.SigNotify
	}

	if !started {
		started = true
		rt.Start("sigloop", kern.K.Shell, loop)
	}
}

// Ignore ignores signals.
func Ignore(sig ...os.Signal) {
	scen.Init()

	for _, s := range all(sig) {
		n := int(s.(syscall.Signal))
		for _, h := range handlers {
			h.mask &^= 1 << uint(n)
		}
		kern.K.Shell.Disp[n] = kern.SigIgn
	}
}

// Ignored reports whether a signal is ignored.
func Ignored(sig os.Signal) bool {
	return kern.K.Shell.Disp[int(sig.(syscall.Signal))] == kern.SigIgn
}

// Reset restores the defaults.
func Reset(sig ...os.Signal) {
	for _, s := range all(sig) {
		n := int(s.(syscall.Signal))
		for _, h := range handlers {
			h.mask &^= 1 << uint(n)
		}
		kern.K.Shell.Disp[n] = kern.SigDfl
	}
}

// Stop stops relaying to c.
func Stop(c chan<- os.Signal) {
	for i, h := range handlers {
		if h.c == c {
			handlers = append(append([]*handler{}, handlers[:i]...), handlers[i+1:]...)

			for n := 1; n < 64; n++ {
				if h.mask&(1<<uint(n)) != 0 {
					used := false
					for _, x := range handlers {
						used = used || x.mask&(1<<uint(n)) != 0
					}
					if !used {
						kern.K.Shell.Disp[n] = kern.SigDfl
					}
				}
			}

			return
		}
	}
}

// NotifyContext is not simulated beyond cancellation.
func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	c := make(chan os.Signal, 1)
	Notify(c, sig...)
	rt.Start("notifyctx", kern.K.Shell, func() { rt.Recv[os.Signal](c); cancel() })

	return ctx, cancel
}
