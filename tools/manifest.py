#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl') if l.strip()]

TECH = 'deterministic simulation with fault injection: seeded search over schedules, delays and faults; whole shell in one process on a simulated kernel'
BASE = ('Real code: every package of /repo (transformed from the working tree so that go statements, channels, locks, '
        'system calls, clocks, signals and map order go through the simulator). Simulated: kernel, processes, file system, terminal, '
        'external programs, line editor. Sampled seeds, not exhaustive; trusts the kernel model. ')

CLAIMED = {
 'C01': 'Oracle: byte-exact comparison of what the last stage received with what the first wrote, EOF ordering, termination.',
 'C02': 'Oracle: order of events in the log (all stages ended before the pipeline returned), value or exception of the pipeline.',
 'C03': 'Oracle: list of lines computed from what the generated commands write.',
 'C04': 'Oracle: small model of files and streams; includes set-up failures by injected faults and concurrent tasks.',
 'C05': 'Oracle: contents by the creator survive; at most one winner; racing shells tasks and external processes.',
 'C06': 'Oracle: linearizability against a bounded FIFO queue; delivery count; termination; data-race (happens-before) detection.',
 'C07': 'Oracle: per-writer order and exactly-once delivery of messages on pipes among tasks, processes and both, whole lines up to PIPE_BUF.',
 'C08': 'Oracle: results by task; wait returns only after all ended tasks published their effects; happens-before race detection.',
 'C09': 'Oracle: the status table of exit codes and signals for each simulated child, under PID reuse, stop/continue and reordered reaping.',
 'C10': 'Oracle: argv, environment, directory and descriptors each simulated child was started with, computed from the script.',
 'C11': 'Oracle: a nondeterministic acceptor of the paths each task may take given exceptions raised by the script or by faults. A known finding is exercised by its own family.',
 'C12': 'Oracle: linearizability of variables, containers and objects shared by tasks; locked updates; happens-before race detection; maps that fail on concurrent use as Go\'s do.',
 'C13': 'A simulated user types, interrupts and types again. Oracle: prompt and next command follow, nothing of the interrupted command goes on or survives.',
 'C16': 'Modules with dependencies, failures, exits, late imports and methods that raise, imported by concurrent tasks. Oracle: body of each module run once, shared state, exceptions at the import that caused them, termination.',
 'C17': 'Scripts, -c commands and interactive sessions with background tasks. Oracle: exit status, the events of the foreground commands exactly once and in order, nothing after the exit, all output, and an end within the step budget.',
 'C18': 'A simulated user types complete, partial, malformed, aborted and arbitrary lines; loading and saving meet I/O errors and crashes. Oracle: events, prompts and the history file (old or new, whole).',
 'C19': 'Commands with one or more substitutions in either direction, nested, unused, failing, under descriptor, FIFO, fork and I/O faults. Oracle: bytes on both sides, order of ends, exceptions, no FIFO left.',
 'C20': 'Redirections, pipelines, captures, substitutions, tasks, modules and pipes, alone and concurrent, under every kind of system call failure, then again without. Oracle: descriptors, children, goroutines and FIFOs held before and after; data complete unless an exception or message reports the failure; the second round unaffected.',
 'C21': 'Generated input (values over several lines, blocks, malformed lines, unterminated ends, arbitrary bytes) from files, pipes, FIFOs, tasks, programs and a typing user, in every fragmentation, read by one or several tasks or run as a script; written values read back. Oracle: the values by construction, and the same from every source. A known finding is exercised by its own family.',
 'C22': 'A simulated user asks for completion in complete, partial and malformed lines while files come and go, directories cannot be read and helpers fail. Oracle: candidates by a model of the file system over the time of the request, the line as evaluated afterwards, survival.',
 'C14': 'A simulated user stops, resumes (fg, bg), lists and kills jobs. Oracle: a model of the jobs (numbers, lines, states), and each step of each job exactly once, in order.',
 'C15': 'A simulated user; terminal, its foreground group and mode are simulated. Oracle: owner and mode at every prompt, at every key, whenever something starts, at the start of every foreground process and at the end; typed text reaches the reading command.',
}
exec(open(root + '/tools/claims.py').read()) if os.path.exists(root + '/tools/claims.py') else None

NA = {
 'C23': 'Arithmetic is a pure function of its operands: no concurrency, time, I/O or fault for the simulator to vary; schedule search cannot decide it.',
 'C24': 'Printing and parsing of literals is a pure function of the value; no concurrency, time, I/O or fault influences it (delivery and fragmentation of printed values is C21).',
 'C25': 'Name resolution and continuations of a single task are sequential and deterministic; nothing for schedules or faults to decide (the concurrent side is C12).',
}
checks = []
na = []
for p in props:
    i = p['id']
    if i in CLAIMED:
        checks.append({'property': i,
          'quick_cmd': f'bash sim/check.sh check -prop {i} -tier quick',
          'thorough_cmd': f'bash sim/check.sh check -prop {i} -tier thorough',
          'evidence_file': f'evidence/{i}.json',
          'technique': TECH, 'level': 'exploration', 'level_note': BASE + CLAIMED[i]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'Simulation applies; its scenarios are not finished yet.')})
m = {'version': 1, 'setup_cmd': 'bash sim/check.sh build',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are committed in /repo: the seams are put in by a source-to-source transformation of the working tree at check time (sim/vsim/rewrite.go), so the shipped code is unchanged. Known findings: known-findings.jsonl.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
