package main

import (
	"fmt"
	"os"
	"sync"
	"time"
)

type shrinker struct {
	bin      string
	cls      string
	deadline time.Time
	workers  int
	runs     int
	known    func(*Output) bool
}

func (s *shrinker) same(o *Output) bool {
	return o != nil && o.Viol == s.cls && (s.known == nil || !s.known(o))
}

// first runs the candidates in parallel and returns the first (by position) that fails alike.
func (s *shrinker) first(in []*Input) (int, *Output) {
	outs := make([]*Output, len(in))

	var wg sync.WaitGroup

	for i := range in {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			o, err := run(s.bin, in[i])
			if err == nil {
				outs[i] = o
			}
		}(i)
	}
	wg.Wait()
	s.runs += len(in)

	for i, o := range outs {
		if s.same(o) {
			return i, o
		}
	}

	return -1, nil
}

func (s *shrinker) late() bool { return time.Now().After(s.deadline) }

// try searches a schedule that fails for a tape.
func (s *shrinker) try(base *Input, tape []int, batches int) (*Input, *Output) {
	for b := 0; b < batches && !s.late(); b++ {
		in := []*Input{}
		for w := 0; w < s.workers; w++ {
			c := *base
			c.Tape, c.UseTape = tape, true
			c.Replay, c.Devs, c.Policy = false, nil, nil
			if b > 0 || w > 0 {
				c.Seed = base.Seed + uint64(1000003*(1+b*s.workers+w))
			}
			in = append(in, &c)
		}
		if i, o := s.first(in); i >= 0 {
			return in[i], o
		}
	}

	return nil, nil
}

// tape shrinks the scenario.
func (s *shrinker) tape(in *Input, o *Output, until time.Time) (*Input, *Output) {
	full := s.deadline
	s.deadline = until
	defer func() { s.deadline = full }()

	cur := *in
	cur.Tape, cur.UseTape = o.Tape, true
	best := o

	accept := func(t []int) bool {
		i, r := s.try(&cur, t, 3)
		if i == nil {
			return false
		}
		cur = *i
		// What the generator really drew.
		cur.Tape = r.Tape
		best = r

		return true
	}

	for progress := true; progress && !s.late(); {
		progress = false

		for n := len(cur.Tape); n >= 1 && !s.late(); n /= 2 {
			for at := 0; at+n <= len(cur.Tape) && !s.late(); {
				// Delete the chunk.
				t := append(append([]int{}, cur.Tape[:at]...), cur.Tape[at+n:]...)
				old := len(cur.Tape)
				if n < old && accept(t) && len(cur.Tape) <= old {
					progress = progress || len(cur.Tape) < old

					continue
				}
				// Zero the chunk.
				t = append([]int{}, cur.Tape...)
				nz := false
				for i := at; i < at+n && i < len(t); i++ {
					nz = nz || t[i] != 0
					t[i] = 0
				}
				if nz && accept(t) {
					progress = true
				}
				at += n
			}
		}
	}

	return &cur, best
}

// devs shrinks the schedule and the faults.
func (s *shrinker) devs(in *Input, o *Output) (*Input, *Output, bool) {
	cur := *in
	cur.Tape, cur.UseTape = o.Tape, true
	cur.Replay = true
	cur.Devs = o.Devs
	cur.Policy = o.Policy

	i, r := s.first([]*Input{&cur})
	if i < 0 {
		return in, o, false
	}
	best := r

	// As the default decisions are never recorded, deviations past those
	// that happened are dropped by a replay.
	cur.Devs = r.Devs

	n := 2
	for len(cur.Devs) > 0 && !s.late() {
		if n > len(cur.Devs) {
			n = len(cur.Devs)
		}
		size := (len(cur.Devs) + n - 1) / n
		found := false

		for at := 0; at < len(cur.Devs) && !s.late(); {
			cand := []*Input{}
			for w := 0; w < s.workers && at < len(cur.Devs); w++ {
				end := at + size
				if end > len(cur.Devs) {
					end = len(cur.Devs)
				}
				c := cur
				c.Devs = append(append([]Dev{}, cur.Devs[:at]...), cur.Devs[end:]...)
				cand = append(cand, &c)
				at = end
			}
			if i, r := s.first(cand); i >= 0 {
				cur.Devs = r.Devs
				if len(cand[i].Devs) < len(cur.Devs) {
					cur.Devs = cand[i].Devs
				}
				best = r
				found = true

				break
			}
		}

		if found {
			if n > 2 {
				n--
			}

			continue
		}
		if n >= len(cur.Devs) {
			break
		}
		n *= 2
	}

	return &cur, best, true
}

func (s *shrinker) minimise(in *Input, o *Output, budget time.Duration) (*Input, *Output, bool) {
	start := time.Now()
	s.deadline = start.Add(budget)
	i1, o1 := s.tape(in, o, start.Add(budget/2))
	i2, o2, ok := s.devs(i1, o1)
	if !ok {
		fmt.Fprintln(os.Stderr, "vsim: the run did not replay")
	}

	return i2, o2, ok
}
