package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"time"
)

var real = []string{
	"main.go and every package under internal/ (engine, task, job, pipe, chn, env, reader, lexer, parser, cache, history, options, process)",
	"boot.oh (embedded, evaluated by the real engine)",
	"github.com/michaelmacinnis/adapted, github.com/docopt/docopt-go",
	"Go standard library packages without I/O, time or scheduling (bufio, strings, strconv, math/big, sort, ...)",
}

var stubs = []string{
	"goroutine scheduler, channels, select, sync, time, math/rand (zsim/rt, zsim/sync, ...: decided by the seed)",
	"kernel: processes, signals, process groups, wait4, pipes, FIFOs, file system, terminal, fork/exec (zsim/kern)",
	"os, os/signal, syscall, x/sys/unix, path/filepath (zsim: Go's implementation over the simulated kernel)",
	"external programs (zsim/scen/progs.go)",
	"github.com/peterh/liner (zsim/liner: reads characters from the simulated terminal)",
}

func evidence(o *options, st *stats, wall time.Duration, violations int, known []Known, hits map[int]int, path string) error {
	faults := map[string]int{}
	for k, n := range st.fired {
		faults[k] = n
	}

	kf := []map[string]any{}
	for i := range known {
		if known[i].Property == o.prop {
			kf = append(kf, map[string]any{"what": known[i].What, "seen": hits[i]})
		}
	}

	samples := []any{}
	for _, s := range st.samples {
		samples = append(samples, s)
	}
	if path != "" {
		samples = append(samples, "violation: "+path)
	}

	cov := map[string]any{
		"evaluations":         st.runs,
		"distinct_nontrivial": len(st.nontrivial),
		"rule": "One evaluation is one simulated execution of the whole shell, decided by one seed: a generated scenario (script, user, external programs, fault kinds) " +
			"and a generated schedule. Distinct: by a hash of every context switch (task, position) and system call outcome of the run. " +
			"Non-trivial: the scenario itself executed, with at least three tasks and five context switches.",
		"samples":                        samples,
		"runs_per_hour":                  int(float64(st.runs) / wall.Hours()),
		"seeds_per_hour":                 int(float64(st.runs) / wall.Hours()),
		"simulated_seconds":              float64(st.simNs) / 1e9,
		"statements_simulated":           st.steps,
		"context_switches":               st.switches,
		"distinct_schedules":             len(st.hashes),
		"scenario_families":              st.families,
		"faults_and_environment_choices": faults,
		"runs_with_faults_or_choices":    st.faulted,
		"probes":                         st.probes,
		"run_endings":                    st.ends,
		"simulated_processes":            st.procs,
		"simulated_tasks":                st.tasks,
		"determinism_rechecks":           st.rechecked,
		"components_real":                real,
		"components_stubbed":             stubs,
		"known_findings":                 kf,
	}

	e := map[string]any{
		"property": o.prop, "tier": o.tier, "seed": o.seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"the simulated kernel and Go runtime behave as the real ones do (they were written from their documentation and sources)",
			"preemption happens between Go statements and at synchronisation points; weak-memory effects below that are not simulated",
			"a clean batch is evidence, not proof",
		},
		"wall_s": wall.Seconds(), "violations": violations,
	}

	b, err := json.MarshalIndent(e, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}

	return os.WriteFile(filepath.Join(dir, o.prop+".json"), append(b, '\n'), 0o644)
}
