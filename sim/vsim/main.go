// Command vsim checks the properties of oh in a deterministic simulation.
package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var (
	repo  = "/repo"
	verif = "/verif"
)

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "vsim: error:", err)
	os.Exit(3)
}

func hashTree(h map[string]string, dir string) error {
	return filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		s := sha256.Sum256(b)
		rel, _ := filepath.Rel(dir, p)
		h[filepath.Base(dir)+"/"+rel] = hex.EncodeToString(s[:])

		return nil
	})
}

// build returns the simulated program for the current tree.
func build() (string, error) {
	bd := filepath.Join(verif, ".build")
	if err := os.MkdirAll(filepath.Join(bd, "bin"), 0o755); err != nil {
		return "", err
	}

	lock, err := os.OpenFile(filepath.Join(bd, "lock"), os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		return "", err
	}
	defer lock.Close()
	if err := syscall.Flock(int(lock.Fd()), syscall.LOCK_EX); err != nil {
		return "", err
	}

	zsim := filepath.Join(verif, "sim/zsim")
	if err := transform(repo, bd, zsim); err != nil {
		return "", err
	}

	// Embedded files count, too.
	hs := map[string]string{}
	for _, d := range []string{filepath.Join(bd, "gen"), zsim} {
		if err := hashTree(hs, d); err != nil {
			return "", err
		}
	}
	emb, _ := filepath.Glob(filepath.Join(repo, "internal/*/*/*.oh"))
	for _, e := range emb {
		b, err := os.ReadFile(e)
		if err != nil {
			return "", err
		}
		s := sha256.Sum256(b)
		hs[e] = hex.EncodeToString(s[:])
	}
	ks := make([]string, 0, len(hs))
	for k := range hs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	d := sha256.New()
	fmt.Fprintln(d, runtime.Version())
	for _, k := range ks {
		fmt.Fprintln(d, k, hs[k])
	}
	name := filepath.Join(bd, "bin", "zoh-"+hex.EncodeToString(d.Sum(nil))[:16])

	old, _ := filepath.Glob(filepath.Join(bd, "bin", "zoh-*"))
	for _, o := range old {
		if fi, err := os.Stat(o); err == nil && o != name && time.Since(fi.ModTime()) > 3*time.Hour {
			os.Remove(o)
		}
	}

	// The go command's own cache makes a rebuild of the same tree cheap; always ask it.
	if err := compile(repo, bd, name); err != nil {
		return "", err
	}
	now := time.Now()
	_ = os.Chtimes(name, now, now)

	link := filepath.Join(bd, "zoh")
	os.Remove(link)
	_ = os.Symlink(name, link)

	return name, nil
}

type options struct {
	prop    string
	tier    string
	seed    uint64
	budget  time.Duration
	max     int
	workers int
	shrink  time.Duration
	from    int
	all     bool
}

func envInt(name string, def int) int {
	n, err := strconv.Atoi(os.Getenv(name))
	if err != nil {
		return def
	}

	return n
}

func main() {
	if len(os.Args) < 2 {
		fatal(errors.New("usage: vsim check|replay|build|stress ..."))
	}

	fs := flag.NewFlagSet("vsim", flag.ExitOnError)
	o := options{}
	fs.StringVar(&o.prop, "prop", "", "property")
	fs.StringVar(&o.tier, "tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	seed := fs.Int("seed", envInt("VERIF_SEED", 1), "seed")
	fs.DurationVar(&o.budget, "budget", 0, "time for the search")
	fs.IntVar(&o.max, "runs", 0, "number of runs (0: until the budget is used)")
	fs.IntVar(&o.workers, "workers", runtime.NumCPU(), "parallel runs")
	fs.DurationVar(&o.shrink, "shrink", 0, "time for the minimisation")
	fs.IntVar(&o.from, "from", 0, "first run index")
	fs.BoolVar(&o.all, "all", false, "go on after violations and list their classes")
	fs.StringVar(&repo, "repo", repo, "the repository")
	_ = fs.Parse(os.Args[2:])
	o.seed = uint64(*seed)

	if exe, err := os.Executable(); err == nil {
		if d := filepath.Dir(filepath.Dir(exe)); filepath.Base(filepath.Dir(exe)) == ".build" {
			verif = d
		}
	}

	if o.tier != "thorough" {
		o.tier = "quick"
	}
	if o.budget == 0 {
		o.budget = 40 * time.Second
		if o.tier == "thorough" {
			o.budget = 10 * time.Minute
		}
	}
	if o.shrink == 0 {
		o.shrink = 40 * time.Second
		if o.tier == "thorough" {
			o.shrink = 2 * time.Minute
		}
	}

	bin, err := build()
	if err != nil {
		fatal(err)
	}

	switch os.Args[1] {
	case "build":
		fmt.Println(bin)
	case "check":
		os.Exit(check(bin, &o))
	case "replay":
		os.Exit(replay(bin, fs.Args()))
	case "twice":
		os.Exit(twice(bin, &o))
	default:
		fatal(fmt.Errorf("unknown command %q", os.Args[1]))
	}
}

func runSeed(base uint64, i int) uint64 { return base*10000000 + uint64(i) + 1 }

type stats struct {
	runs, inconclusive     int
	families, fired        map[string]int
	probes, ends           map[string]int
	hashes                 map[uint64]bool
	nontrivial             map[uint64]bool
	switches, steps, simNs int64
	procs, tasks, faulted  int
	rechecked              int
	samples                []string
}

func (st *stats) add(o *Output) {
	st.runs++
	st.families[o.Family]++
	st.ends[o.End]++
	for k, n := range o.Fired {
		st.fired[k] += n
	}
	for k, n := range o.Probes {
		st.probes[k] += n
	}
	st.hashes[o.Hash] = true
	if o.Steps > o.BootEnd && o.Switches > 4 && o.Tasks > 2 {
		st.nontrivial[o.Hash] = true
	}
	st.switches += o.Switches
	st.steps += o.Steps - o.BootEnd
	st.simNs += o.SimNs
	st.procs += o.Procs
	st.tasks += o.Tasks
	if len(o.Fired) > 0 {
		st.faulted++
	}
}

// Known is a committed known finding.
type Known struct {
	Property string `json:"property"`
	Class    string `json:"class"`    // Violation class.
	Family   string `json:"family"`   // Scenario family.
	Contains string `json:"contains"` // What the message contains.
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
	Replay   string `json:"replay,omitempty"` // A committed history that shows it.
}

func loadKnown() []Known {
	var l []Known
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.jsonl"))
	if err != nil {
		return nil
	}
	for _, s := range strings.Split(string(b), "\n") {
		s = strings.TrimSpace(s)
		if s == "" || !strings.HasPrefix(s, "{") {
			continue
		}
		k := Known{}
		if err := json.Unmarshal([]byte(s), &k); err != nil {
			fatal(fmt.Errorf("known-findings.jsonl: %v", err))
		}
		if k.Fixed == "" {
			l = append(l, k)
		}
	}

	return l
}

func (k *Known) match(prop string, o *Output) bool {
	return k.Property == prop && k.Class == o.Viol && (k.Family == "" || k.Family == o.Family) &&
		k.Contains != "" && strings.Contains(o.Msg, k.Contains)
}

func check(bin string, o *options) int {
	start := time.Now()
	known := loadKnown()
	isKnown := func(out *Output) bool {
		for i := range known {
			if known[i].match(o.prop, out) {
				return true
			}
		}

		return false
	}

	st := &stats{
		families: map[string]int{}, fired: map[string]int{}, probes: map[string]int{}, ends: map[string]int{},
		hashes: map[uint64]bool{}, nontrivial: map[uint64]bool{},
	}

	fmt.Printf("seed %d property %s tier %s\n", o.seed, o.prop, o.tier)

	var (
		mu      sync.Mutex
		wg      sync.WaitGroup
		next    = o.from
		stop    bool
		failed  *Output
		failIn  *Input
		harness error
		hits    = map[int]int{}
		classes = map[string]int{}
		example = map[string]*Output{}
	)

	deadline := start.Add(o.budget)

	for w := 0; w < o.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || time.Now().After(deadline) || (o.max > 0 && next >= o.from+o.max) {
					mu.Unlock()

					return
				}
				i := next
				next++
				mu.Unlock()

				in := &Input{Prop: o.prop, Seed: runSeed(o.seed, i), Tier: o.tier}
				in.Trace = i-o.from < 3
				out, err := run(bin, in)

				var again *Output
				if err == nil && i%50 == 7 {
					c := *in
					c.Trace = false
					again, err = run(bin, &c)
				}

				mu.Lock()
				if err != nil {
					if harness == nil {
						harness = err
					}
					stop = true
					mu.Unlock()

					return
				}
				if again != nil {
					st.rechecked++
					if again.Hash != out.Hash || again.Viol != out.Viol || again.Steps != out.Steps {
						harness = fmt.Errorf("seed %d is not deterministic: hash %x/%x steps %d/%d viol %q/%q",
							in.Seed, out.Hash, again.Hash, out.Steps, again.Steps, out.Viol, again.Viol)
						stop = true
					}
				}
				st.add(out)
				if in.Trace {
					st.samples = append(st.samples, clip(out.Desc, 3000))
				}
				if out.Viol != "" {
					k := -1
					for j := range known {
						if known[j].match(o.prop, out) {
							k = j

							break
						}
					}
					switch {
					case k >= 0:
						hits[k]++
					case o.all:
						key := out.Family + "/" + out.Viol
						classes[key]++
						if e := example[key]; e == nil || len(out.Devs) < len(e.Devs) {
							example[key] = out
						}
					default:
						if failed == nil || in.Seed < failIn.Seed {
							failed, failIn = out, in
						}
						stop = true
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()

	if harness != nil {
		fmt.Fprintln(os.Stderr, "vsim: error:", harness)

		return 3
	}

	if o.all {
		ks := []string{}
		for k := range classes {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("%5d %s seed=%d %s\n", classes[k], k, example[k].Seed, clip(example[k].Msg, 400))
		}
	}

	// Known findings: replay the committed histories.
	for i := range known {
		if known[i].Property != o.prop {
			continue
		}
		if hits[i] == 0 && known[i].Replay != "" {
			rf, err := loadReplay(filepath.Join(verif, known[i].Replay))
			if err == nil {
				if out, err := run(bin, &rf.Input); err == nil && isKnown(out) {
					hits[i]++
				}
			}
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.prop, known[i].What)
	}

	code := 0
	violations := 0
	path := ""

	if failed != nil {
		violations = 1
		s := &shrinker{bin: bin, cls: failed.Viol, workers: o.workers, known: isKnown}
		in, out, ok := s.minimise(failIn, failed, o.shrink)
		if !ok {
			in, out = failIn, failed
		}
		in.Trace = true
		full, err := run(bin, in)
		if err != nil || full.Viol != out.Viol {
			in, full = failIn, failed
			in.Trace = true
			if f, err := run(bin, in); err == nil {
				full = f
			}
		}
		path, err = saveReplay(o.prop, in, full)
		if err != nil {
			fatal(err)
		}
		fmt.Printf("%s\n%s\n", full.Viol, full.Msg)
		fmt.Printf("minimised in %d runs to %d choices and %d schedule deviations\n%s", s.runs, len(full.Tape), len(full.Devs), full.Desc)
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, path)
		code = 1
	}

	if err := evidence(o, st, time.Since(start), violations, known, hits, path); err != nil {
		fatal(err)
	}

	if code == 0 {
		if st.runs < 20 && o.max == 0 {
			fmt.Fprintf(os.Stderr, "vsim: error: only %d runs\n", st.runs)

			return 3
		}
		fmt.Printf("%s: held on %d runs (%d distinct schedules), %.0f s simulated, %d with faults, in %.1fs\n",
			o.prop, st.runs, len(st.hashes), float64(st.simNs)/1e9, st.faulted, time.Since(start).Seconds())
	}

	return code
}

// Replay is a replay file.
type Replay struct {
	Property  string   `json:"property"`
	Violation string   `json:"violation"`
	Message   string   `json:"message"`
	Input     Input    `json:"input"`
	Scenario  []string `json:"scenario"`
	Events    []string `json:"events"`
	Trace     []string `json:"trace"`
}

func saveReplay(prop string, in *Input, out *Output) (string, error) {
	r := Replay{Property: prop, Violation: out.Viol, Message: out.Msg, Input: *in, Scenario: strings.Split(out.Desc, "\n"), Events: out.Events}
	r.Input.Trace = false
	if !in.UseTape {
		r.Input.Tape, r.Input.UseTape = out.Tape, true
	}
	live := 0
	for i, t := range out.Trace {
		n, _ := strconv.ParseInt(strings.SplitN(t, " ", 2)[0], 10, 64)
		if n >= out.BootEnd {
			live = i

			break
		}
	}
	r.Trace = out.Trace[live:]
	if len(r.Trace) > 3000 {
		r.Trace = r.Trace[len(r.Trace)-3000:]
	}

	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		return "", err
	}
	dir := filepath.Join(verif, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, in.Seed))

	return p, os.WriteFile(p, append(b, '\n'), 0o644)
}

func loadReplay(p string) (*Replay, error) {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil, err
	}
	r := &Replay{}

	return r, json.Unmarshal(b, r)
}

func replay(bin string, files []string) int {
	code := 0

	for _, f := range files {
		r, err := loadReplay(f)
		if err != nil {
			fatal(err)
		}
		r.Input.Trace = true
		out, err := run(bin, &r.Input)
		if err != nil {
			fatal(err)
		}
		fmt.Print(out.Desc)
		for _, e := range out.Events {
			fmt.Println(e)
		}
		if out.Viol == "" {
			fmt.Printf("%s: no violation\n", f)

			continue
		}
		fmt.Printf("%s\n%s\nVIOLATION property=%s replay=%s\n", out.Viol, out.Msg, r.Property, f)
		code = 1
	}

	return code
}

// twice runs every seed twice and compares, to prove determinism.
func twice(bin string, o *options) int {
	n := o.max
	if n == 0 {
		n = 100
	}

	var (
		mu  sync.Mutex
		wg  sync.WaitGroup
		bad int
		i   int
	)

	for w := 0; w < o.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if i >= n {
					mu.Unlock()

					return
				}
				s := runSeed(o.seed, i)
				i++
				mu.Unlock()

				a, err := run(bin, &Input{Prop: o.prop, Seed: s, Tier: o.tier, Trace: true})
				if err != nil {
					fatal(err)
				}
				b, err := run(bin, &Input{Prop: o.prop, Seed: s, Tier: o.tier, Trace: true})
				if err != nil {
					fatal(err)
				}
				c, err := run(bin, &Input{Prop: o.prop, Seed: s, Tier: o.tier, Trace: true, Replay: true, Devs: a.Devs, Tape: a.Tape, UseTape: true, Policy: a.Policy})
				if err != nil {
					fatal(err)
				}
				x, y, z := *a, *b, *c
				x.Devs, y.Devs, z.Devs = nil, nil, nil
				ja, _ := json.Marshal(x)
				jb, _ := json.Marshal(y)
				jc, _ := json.Marshal(z)
				if string(ja) != string(jb) || string(ja) != string(jc) {
					mu.Lock()
					bad++
					fmt.Printf("seed %d differs: rerun %v replay %v\n", s, string(ja) == string(jb), string(ja) == string(jc))
					for k := range a.Trace {
						if k >= len(c.Trace) || a.Trace[k] != c.Trace[k] || k >= len(b.Trace) || a.Trace[k] != b.Trace[k] {
							fmt.Println("  first:", a.Trace[k])
							if k < len(b.Trace) {
								fmt.Println("  rerun:", b.Trace[k])
							}
							if k < len(c.Trace) {
								fmt.Println("  replay:", c.Trace[k])
							}

							break
						}
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	fmt.Printf("%s: %d seeds, three runs each (twice from the seed, once from the recording), %d differ\n", o.prop, n, bad)
	if bad > 0 {
		return 3
	}

	return 0
}
