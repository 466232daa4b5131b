package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"
)

// Dev is one recorded scheduling or environment decision.
type Dev struct {
	K string `json:"k"`
	A int64  `json:"a"`
	V int    `json:"v"`
}

// Input is everything that decides a run.
type Input struct {
	Prop    string          `json:"prop"`
	Seed    uint64          `json:"seed"`
	Tape    []int           `json:"tape,omitempty"`
	UseTape bool            `json:"use_tape,omitempty"`
	Replay  bool            `json:"replay,omitempty"`
	Devs    []Dev           `json:"devs,omitempty"`
	Policy  json.RawMessage `json:"policy,omitempty"`
	Trace   bool            `json:"trace,omitempty"`
	Tier    string          `json:"tier,omitempty"`
}

// Output is what a run produced.
type Output struct {
	Prop     string          `json:"prop"`
	Seed     uint64          `json:"seed"`
	Family   string          `json:"family"`
	End      string          `json:"end"`
	Detail   string          `json:"detail,omitempty"`
	Viol     string          `json:"viol,omitempty"`
	Msg      string          `json:"msg,omitempty"`
	Tape     []int           `json:"tape,omitempty"`
	Devs     []Dev           `json:"devs,omitempty"`
	Policy   json.RawMessage `json:"policy"`
	Hash     uint64          `json:"hash"`
	Steps    int64           `json:"steps"`
	BootEnd  int64           `json:"boot"`
	Switches int64           `json:"switches"`
	SimNs    int64           `json:"sim_ns"`
	Tasks    int             `json:"tasks"`
	Procs    int             `json:"procs"`
	Fired    map[string]int  `json:"fired,omitempty"`
	Probes   map[string]int  `json:"probes,omitempty"`
	Status   int             `json:"status"`
	Desc     string          `json:"desc,omitempty"`
	Trace    []string        `json:"trace,omitempty"`
	Events   []string        `json:"events,omitempty"`
}

var errHarness = errors.New("harness")

const runLimit = 100 * time.Second

// run executes one simulated run in a fresh process.
func run(bin string, in *Input) (*Output, error) {
	b, err := json.Marshal(in)
	if err != nil {
		return nil, err
	}

	ctx, cancel := context.WithTimeout(context.Background(), runLimit)
	defer cancel()

	c := exec.CommandContext(ctx, bin)
	c.Env = []string{"GOMAXPROCS=1", "PATH=" + os.Getenv("PATH"), "GOTRACEBACK=all", "ZSIM_STDIN=1"}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "ZSIM_") {
			c.Env = append(c.Env, e)
		}
	}
	c.Stdin = bytes.NewReader(b)

	var out, errb bytes.Buffer

	c.Stdout = &out
	c.Stderr = &errb
	err = c.Run()

	o := &Output{}
	if jerr := json.Unmarshal(bytes.TrimSpace(out.Bytes()), o); jerr != nil || err != nil {
		e := errb.String()
		if strings.Contains(e, "goroutine stack exceeds") || strings.Contains(e, "fatal error: stack overflow") {
			return &Output{
				Prop: in.Prop, Seed: in.Seed, Family: "?", End: "crash", Viol: "crash",
				Msg: "the shell crashed: " + clip(e, 3000), Tape: in.Tape, Devs: in.Devs,
			}, nil
		}
		if ctx.Err() != nil {
			return nil, fmt.Errorf("%w: seed %d exceeded the wall-clock limit of a run\n%s", errHarness, in.Seed, clip(e, 3000))
		}

		return nil, fmt.Errorf("%w: seed %d: %v\n%s\n%s", errHarness, in.Seed, err, clip(out.String(), 500), clip(e, 6000))
	}

	if o.End == "harness" {
		return nil, fmt.Errorf("%w: seed %d: %s\n%s", errHarness, in.Seed, o.Detail, o.Desc)
	}

	return o, nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}

	return s
}
