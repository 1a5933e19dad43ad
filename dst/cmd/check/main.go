// Command check decides one property by seeded search over simulated runs.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"verif.local/dst/harness"
	"verif.local/dst/rt"
)

var (
	prop     = flag.String("prop", "", "property id")
	tier     = flag.String("tier", "quick", "quick or thorough")
	seed     = flag.Uint64("seed", 1, "base seed")
	secs     = flag.Float64("secs", 0, "seconds of search (0: by tier)")
	workers  = flag.Int("workers", 8, "worker processes")
	outDir   = flag.String("out", "/verif/out", "where replay files go")
	evDir    = flag.String("evidence", "/verif/evidence", "where evidence goes")
	known    = flag.String("known", "/verif/known_findings.txt", "known findings")
	replay   = flag.String("replay", "", "replay file")
	trace    = flag.Bool("trace", false, "print the trace of a replay")
	worker   = flag.Int("worker", -1, "worker index (internal)")
	scen     = flag.String("scen", "", "only this scenario (development)")
	one      = flag.Int64("one", -1, "run a single run number (development)")
	startAll = flag.Int64("started", 0, "unix nanoseconds the check started (build included)")
	hashes   = flag.Int("hashes", 0, "print the hashes of this many runs (development)")
	minSecs  = flag.Float64("minsecs", 45, "seconds spent on minimising")
)

type violation struct {
	Run     uint64          `json:"run"`
	Class   string          `json:"class"`
	Msg     string          `json:"msg"`
	Scen    string          `json:"scenario"`
	Streams harness.Streams `json:"streams"`
}

type report struct {
	Runs      int            `json:"runs"`
	Nontriv   int            `json:"nontriv"`
	Sigs      []uint64       `json:"sigs"`
	SimNs     float64        `json:"sim_ns"`
	Steps     float64        `json:"steps"`
	Switches  float64        `json:"switches"`
	Calls     int            `json:"calls"`
	OK        int            `json:"ok"`
	Counters  map[string]int `json:"counters"`
	Rechecked int            `json:"rechecked"`
	Nondet    []string       `json:"nondet"`
	Viol      []violation    `json:"viol"`
	Known     map[string]int `json:"known"`
	Samples   []string       `json:"samples"`
	Curve     []int          `json:"curve"` // distinct signatures after each quarter
}

// replayFile is what a violation leaves behind.
type replayFile struct {
	Property  string          `json:"property"`
	Scenario  string          `json:"scenario"`
	Class     string          `json:"class"`
	Message   string          `json:"message"`
	Seed      uint64          `json:"seed"`
	Run       uint64          `json:"run"`
	Hash      string          `json:"hash"`
	Minimised bool            `json:"minimised"`
	Decisions int             `json:"decisions"`
	Original  int             `json:"original_decisions"`
	Faults    map[string]int  `json:"faults_injected"`
	Streams   harness.Streams `json:"streams"`
	Trace     []string        `json:"trace"`
}

type finding struct {
	prop, id string
	re       *regexp.Regexp
}

// loadKnown reads lines "KNOWN property=<id> match=<regexp> :: <description>".
func loadKnown(path string) []finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "KNOWN ") {
			continue
		}
		head, desc, _ := strings.Cut(l, " :: ")
		f := finding{id: desc}
		if i := strings.Index(head, "property="); i >= 0 {
			f.prop = strings.Fields(head[i+9:])[0]
		}
		i := strings.Index(head, "match=")
		if i < 0 {
			fatal("known findings: bad line %q", l)
		}
		re, err := regexp.Compile(head[i+6:])
		if err != nil {
			fatal("known findings: %v", err)
		}
		f.re = re
		out = append(out, f)
	}
	return out
}

func fatal(format string, args ...any) {
	fmt.Printf("ERROR "+format+"\n", args...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	log.SetOutput(io.Discard)
	if *worker < 0 && (*one >= 0 || *replay != "") {
		runtime.GOMAXPROCS(1)
	}
	harness.OnlyScen = *scen
	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	p := harness.Props[*prop]
	if p == nil {
		fatal("unknown property %q", *prop)
	}
	if *one >= 0 {
		if os.Getenv("DST_LIVE") != "" {
			rt.LiveTrace = true
			harness.TraceAll = true
		}
		r := harness.RunSeed(p, *seed, uint64(*one))
		fmt.Println(r)
		if *trace {
			r = harness.RunStreams(p, r.Used, true)
			fmt.Println(strings.Join(r.Trace, "\n"))
			fmt.Println(r)
		}
		return
	}
	if *hashes > 0 {
		for i := 0; i < *hashes; i++ {
			r := harness.RunSeed(p, *seed, uint64(i))
			fmt.Printf("%d %016x %016x %d\n", i, r.Hash, r.Sig, r.Steps)
		}
		return
	}
	if *worker >= 0 {
		doWorker(p)
		return
	}
	os.Exit(drive(p))
}

// ---- worker

func doWorker(p *harness.Prop) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	kn := loadKnown(*known)
	end := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	var cur atomic.Int64
	var began atomic.Int64
	go func() {
		for {
			time.Sleep(time.Second)
			if b := began.Load(); b != 0 && time.Since(time.Unix(0, b)) > 90*time.Second {
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "run %d of %s does not end\n%s\n", cur.Load(), *prop, buf[:n])
				os.Exit(3)
			}
		}
	}()
	rep := &report{Counters: map[string]int{}, Known: map[string]int{}}
	sigs := map[uint64]bool{}
	start := time.Now()
	quarter := 1
	for i := uint64(*worker); time.Now().Before(end); i += uint64(*workers) {
		cur.Store(int64(i))
		began.Store(time.Now().UnixNano())
		r := harness.RunSeed(p, *seed, i)
		began.Store(0)
		rep.Runs++
		rep.SimNs += float64(r.Sim)
		rep.Steps += float64(r.Steps)
		rep.Switches += float64(r.Switches)
		rep.Calls += r.Calls
		rep.OK += r.OK
		for k, v := range r.Counters {
			rep.Counters[k] += v
		}
		if r.Calls > 0 || r.Counters["probe.requests"] > 0 {
			rep.Nontriv++
			sigs[r.Sig] = true
		}
		for quarter <= 4 && time.Since(start).Seconds() > *secs*float64(quarter)/4 {
			rep.Curve = append(rep.Curve, len(sigs))
			quarter++
		}
		if r.Viol != nil {
			skip := false
			for _, f := range kn {
				if f.prop == p.ID && f.re.MatchString(r.Viol.Class+": "+r.Viol.Msg) {
					rep.Known[f.id]++
					skip = true
					break
				}
			}
			if !skip {
				rep.Viol = append(rep.Viol, violation{i, r.Viol.Class, r.Viol.Msg, r.Scen, r.Used})
				break
			}
		}
		if rep.Runs%40 == 1 {
			// replaying the recorded decisions must give the same execution
			began.Store(time.Now().UnixNano())
			r2 := harness.RunStreams(p, r.Used, false)
			began.Store(0)
			rep.Rechecked++
			if r2.Hash != r.Hash || r2.Steps != r.Steps || r2.Sim != r.Sim {
				rep.Nondet = append(rep.Nondet, fmt.Sprintf("run %d (%s): hash %x/%x steps %d/%d", i, r.Scen, r.Hash, r2.Hash, r.Steps, r2.Steps))
			}
		}
		if len(rep.Samples) < 2 && *worker < 3 && r.Viol == nil && r.Calls > 3 {
			rr := harness.RunStreams(p, r.Used, true)
			rep.Samples = append(rep.Samples, sample(rr))
		}
	}
	for s := range sigs {
		rep.Sigs = append(rep.Sigs, s)
	}
	w := bufio.NewWriter(os.Stdout)
	json.NewEncoder(w).Encode(rep)
	w.Flush()
}

func sample(r *harness.Result) string {
	var lines []string
	for _, l := range r.Trace {
		if strings.Contains(l, " call ") || strings.Contains(l, "fault ") || strings.Contains(l, "crash") || strings.Contains(l, "block") || strings.Contains(l, "request") || strings.Contains(l, "handler gets") {
			l = strings.Join(strings.Fields(l), " ")
			if len(l) > 160 {
				l = l[:160] + "..."
			}
			lines = append(lines, l)
		}
	}
	n := len(lines)
	if n > 14 {
		lines = append(lines[:14], fmt.Sprintf("... %d more", n-14))
	}
	return r.Scen + ": " + strings.Join(lines, " | ")
}

// ---- driver

func drive(p *harness.Prop) int {
	t0 := time.Now()
	if *startAll != 0 {
		t0 = time.Unix(0, *startAll)
	}
	dur := *secs
	if dur == 0 {
		dur = 40
		if *tier == "thorough" {
			dur = 600
		}
	}
	self, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	type res struct {
		rep *report
		err error
		id  int
	}
	ch := make(chan res, *workers)
	var cmds []*exec.Cmd
	for i := 0; i < *workers; i++ {
		c := exec.Command(self, "-prop", p.ID, "-seed", fmt.Sprint(*seed), "-worker", strconv.Itoa(i), "-workers", strconv.Itoa(*workers),
			"-secs", fmt.Sprint(dur), "-known", *known, "-scen", *scen)
		c.Env = append(os.Environ(), "GOMAXPROCS=2")
		c.Stderr = os.Stderr
		cmds = append(cmds, c)
		go func(i int, c *exec.Cmd) {
			b, err := c.Output()
			if err != nil {
				ch <- res{nil, err, i}
				return
			}
			var r report
			err = json.Unmarshal(b, &r)
			ch <- res{&r, err, i}
		}(i, c)
	}
	tot := &report{Counters: map[string]int{}, Known: map[string]int{}}
	sigs := map[uint64]bool{}
	curve := make([]int, 4)
	var firstErr error
	searchStart := time.Now()
	var searchWall float64
	grace := time.Time{}
	done := 0
	timer := time.NewTicker(200 * time.Millisecond)
	for done < *workers {
		select {
		case r := <-ch:
			done++
			if r.err != nil {
				if grace.IsZero() && firstErr == nil {
					firstErr = fmt.Errorf("worker %d: %v", r.id, r.err)
				}
				continue
			}
			tot.Runs += r.rep.Runs
			tot.Nontriv += r.rep.Nontriv
			tot.SimNs += r.rep.SimNs
			tot.Steps += r.rep.Steps
			tot.Switches += r.rep.Switches
			tot.Calls += r.rep.Calls
			tot.OK += r.rep.OK
			tot.Rechecked += r.rep.Rechecked
			tot.Nondet = append(tot.Nondet, r.rep.Nondet...)
			tot.Viol = append(tot.Viol, r.rep.Viol...)
			tot.Samples = append(tot.Samples, r.rep.Samples...)
			for k, v := range r.rep.Counters {
				tot.Counters[k] += v
			}
			for k, v := range r.rep.Known {
				tot.Known[k] += v
			}
			for _, s := range r.rep.Sigs {
				sigs[s] = true
			}
			for i, c := range r.rep.Curve {
				if i < 4 {
					curve[i] += c
				}
			}
			if len(r.rep.Viol) > 0 && grace.IsZero() {
				// the others need not go on for long
				grace = time.Now().Add(1500 * time.Millisecond)
			}
		case <-timer.C:
			if !grace.IsZero() && time.Now().After(grace) {
				for _, c := range cmds {
					c.Process.Kill()
				}
			}
		}
	}
	searchWall = time.Since(searchStart).Seconds()
	exit := 0
	if firstErr != nil && len(tot.Viol) == 0 {
		fmt.Printf("ERROR %v\n", firstErr)
		exit = 2
	}
	if len(tot.Nondet) > 0 {
		fmt.Printf("ERROR replay is not deterministic: %s\n", strings.Join(tot.Nondet, "; "))
		exit = 2
	}
	nviol := 0
	if len(tot.Viol) > 0 {
		path, v := report1(p, self, tot.Viol)
		if path == "" {
			exit = 2
		} else {
			nviol = 1
			exit = 1
			fmt.Printf("property %s is violated (%s, scenario %s, seed %d, run %d)\n  %s\n", p.ID, v.Class, v.Scen, *seed, v.Run, v.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		}
	}
	for _, id := range sorted(tot.Known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d runs)\n", p.ID, id, tot.Known[id])
	}
	writeEvidence(p, tot, len(sigs), curve, time.Since(t0).Seconds(), searchWall, nviol)
	if exit == 0 {
		fmt.Printf("property %s held in %d simulated runs (%d distinct interleavings, %.0f simulated hours, %d calls)\n",
			p.ID, tot.Runs, len(sigs), tot.SimNs/3.6e12, tot.Calls)
	}
	return exit
}

func sorted[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func report1(p *harness.Prop, self string, vs []violation) (string, violation) {
	sort.Slice(vs, func(i, j int) bool { return vs[i].Streams.Len() < vs[j].Streams.Len() })
	os.MkdirAll(*outDir, 0o755)
	for _, v := range vs {
		min, _ := harness.Minimise(p, v.Streams, v.Class, time.Duration(*minSecs*float64(time.Second)))
		for _, cand := range []harness.Streams{min, v.Streams} {
			r := harness.RunStreams(p, cand, true)
			if r.Viol == nil || r.Viol.Class != v.Class {
				continue
			}
			f := replayFile{Property: p.ID, Scenario: r.Scen, Class: r.Viol.Class, Message: r.Viol.Msg, Seed: *seed, Run: v.Run,
				Hash: fmt.Sprintf("%016x", r.Hash), Minimised: cand.Len() < v.Streams.Len(), Decisions: cand.Len(), Original: v.Streams.Len(),
				Faults: map[string]int{}, Streams: cand, Trace: r.Trace}
			for k, n := range r.Counters {
				if strings.HasPrefix(k, "fault.") {
					f.Faults[k[6:]] = n
				}
			}
			if len(f.Trace) > 4000 {
				f.Trace = append(f.Trace[:2000:2000], f.Trace[len(f.Trace)-2000:]...)
			}
			path := filepath.Join(*outDir, fmt.Sprintf("%s-seed%d-run%d.json", p.ID, *seed, v.Run))
			b, _ := json.MarshalIndent(f, "", " ")
			if err := os.WriteFile(path, b, 0o644); err != nil {
				fatal("%v", err)
			}
			// a fresh process must fail in the same way
			c := exec.Command(self, "-replay", path)
			if out, _ := c.CombinedOutput(); c.ProcessState != nil && c.ProcessState.ExitCode() == 1 && strings.Contains(string(out), "REPRODUCED") {
				v.Msg = r.Viol.Msg
				return path, v
			}
		}
		fmt.Printf("ERROR a violation (%s, run %d) does not replay\n", v.Class, v.Run)
	}
	return "", violation{}
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fatal("%v", err)
	}
	p := harness.Props[f.Property]
	if p == nil {
		fatal("unknown property %q", f.Property)
	}
	r := harness.RunStreams(p, f.Streams, true)
	if *trace {
		fmt.Println(strings.Join(r.Trace, "\n"))
	}
	if r.Viol == nil {
		fmt.Printf("the replay of %s does not violate %s on this tree\n", path, f.Property)
		return 0
	}
	fmt.Printf("%s: %s: %s\n", r.Scen, r.Viol.Class, r.Viol.Msg)
	if r.Viol.Class == f.Class && fmt.Sprintf("%016x", r.Hash) == f.Hash {
		fmt.Printf("REPRODUCED exactly (hash %s)\n", f.Hash)
	} else {
		fmt.Printf("fails differently from the recording (class %s hash %016x; recorded %s %s)\n", r.Viol.Class, r.Hash, f.Class, f.Hash)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
	return 1
}

func writeEvidence(p *harness.Prop, t *report, distinct int, curve []int, wall, search float64, nviol int) {
	faults := map[string]int{}
	probes := map[string]int{}
	scens := map[string]int{}
	other := map[string]int{}
	for k, v := range t.Counters {
		switch {
		case strings.HasPrefix(k, "fault."):
			faults[k[6:]] = v
		case strings.HasPrefix(k, "probe."):
			probes[k[6:]] = v
		case strings.HasPrefix(k, "scenario."):
			scens[k[9:]] = v
		default:
			other[k] = v
		}
	}
	if len(t.Samples) == 0 {
		t.Samples = []string{"none completed"}
	}
	if len(t.Samples) > 6 {
		t.Samples = t.Samples[:6]
	}
	hours := search / 3600
	if hours <= 0 {
		hours = 1e-9
	}
	ev := map[string]any{
		"property": p.ID, "tier": *tier, "seed": *seed, "level": "exploration", "wall_s": wall, "violations": nviol,
		"coverage": map[string]any{
			"evaluations":         t.Runs,
			"distinct_nontrivial": distinct,
			"rule": "one evaluation is one simulated run of one seed; a run counts as non-trivial if it completed at least one call or request of the system under test, " +
				"and two runs count as distinct if the sequence of observable events (operation and outcome of every call and every request executed by a server, in order, and thread pauses) differs. " + p.Rule,
			"samples":                  t.Samples,
			"runs_per_hour":            int(float64(t.Runs) / hours),
			"simulated_hours":          t.SimNs / 3.6e12,
			"calls":                    t.Calls,
			"calls_with_answer":        t.OK,
			"steps":                    t.Steps,
			"context_switches":         t.Switches,
			"faults_injected":          faults,
			"probes":                   probes,
			"runs_per_scenario":        scens,
			"other_counters":           other,
			"distinct_after_quarters":  curve,
			"replayed_for_determinism": t.Rechecked,
			"replay_mismatches":        len(t.Nondet),
			"known_findings_hit":       t.Known,
			"seed_base":                *seed,
			"workers":                  *workers,
			"real_components":          p.Real,
			"stubbed_components":       p.Stub,
		},
		"assumptions": []string{
			"the instrumented copy of the packages behaves like the original apart from its seams (goroutines, channels, select, sync, time, context, net, os.Exit, log, rand, map iteration)",
			"preemption happens between statements; data races below statement level are outside the simulation",
			"the memcached model follows memcached 1.6.24, against which it was compared",
		},
	}
	os.MkdirAll(*evDir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*evDir, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}
