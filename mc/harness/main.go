//go:build !free

package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"vrt"
)

func main() {
	prop := flag.String("prop", "", "property to check")
	tier := flag.String("tier", "quick", "quick or thorough")
	worker := flag.String("worker", "", "run one scenario")
	pb := flag.Int("p", 0, "preemption bound")
	fb := flag.Int("f", 0, "fault bound")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	secs := flag.Float64("secs", 60, "time limit")
	trackFile := flag.String("track", "", "write the choices of each execution here")
	replay := flag.String("replay", "", "replay a violation file")
	list := flag.Bool("list", false, "list scenarios")
	only := flag.String("only", "", "only scenarios with this prefix")
	evid := flag.String("evidence", "", "evidence file")
	replays := flag.String("replays", "", "directory for replay files")
	known := flag.String("known", "", "known findings file")
	realBin := flag.String("real", "", "free-running binary for conformance")
	raceBin := flag.String("race", "", "race-detector binary")
	verbose := flag.Bool("v", false, "")
	flag.Parse()
	switch {
	case *list:
		for _, s := range scenarios {
			fmt.Println(s.Name, s.Props, s.P, s.F)
		}
	case *worker != "":
		runWorker(*worker, *prop, *pb, *fb, *shard, *shards, *secs, *trackFile)
	case *replay != "":
		runReplay(*replay)
	default:
		d := &driver{prop: *prop, tier: *tier, only: *only, evid: *evid, replays: *replays, known: *known, real: *realBin, race: *raceBin, verbose: *verbose, secs: *secs}
		os.Exit(d.run())
	}
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

func runWorker(name, prop string, p, f, shard, shards int, secs float64, trackFile string) {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(3 << 30)
	// bound the address space so that absurd allocations fail at once (not under the race detector)
	if !vrt.RaceEnabled {
		lim := syscall.Rlimit{Cur: 24 << 30, Max: 24 << 30}
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	runtime.GOMAXPROCS(2)
	s := find(name)
	if s == nil {
		fmt.Fprintln(os.Stderr, "no scenario", name)
		os.Exit(4)
	}
	var track func([]int)
	if trackFile != "" {
		track = func(c []int) {
			data, _ := json.Marshal(c)
			_ = os.WriteFile(trackFile, data, 0o644)
		}
	}
	var mu sync.Mutex
	emit := func(r *Result) {
		mu.Lock()
		w := bufio.NewWriter(os.Stdout)
		_ = json.NewEncoder(w).Encode(r)
		w.Flush()
		os.Exit(0)
	}
	// watchdog: a thread that computes without reaching any scheduling point
	go func() {
		var last *vrt.Exec
		var lastN uint64
		base := cpuSeconds()
		for {
			time.Sleep(500 * time.Millisecond)
			x := watch.Load()
			var n uint64
			if x != nil {
				n = x.Progress.Load()
			}
			if x == nil || x != last || n != lastN {
				last, lastN = x, n
				base = cpuSeconds()
				continue
			}
			if cpuSeconds()-base > spinCPU {
				emit(&Result{Scenario: name, P: p, F: f, Violation: &Violation{Property: prop, Scenario: name, Kind: "spin",
					Msg: fmt.Sprintf("%s computes for %v CPU seconds without reaching any synchronisation or network operation", x.CurThread(), spinCPU), Choices: x.ChoiceList()}})
			}
		}
	}()
	vrt.OnStart = func(x *vrt.Exec) { watch.Store(x) }
	deadline := time.Now().Add(time.Duration(secs * float64(time.Second)))
	r := s.Explore(prop, p, f, shard, shards, deadline, track)
	emit(r)
}

const spinCPU = 12.0

var watch atomic.Pointer[vrt.Exec]

func runReplay(file string) {
	data, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		os.Exit(4)
	}
	v := &Violation{}
	if err := json.Unmarshal(data, v); err != nil {
		fmt.Println(err)
		os.Exit(4)
	}
	s := find(v.Scenario)
	if s == nil {
		fmt.Println("no scenario", v.Scenario)
		os.Exit(4)
	}
	if v.Free != nil {
		replayFree(v.Free)
		return
	}
	x, out := s.once(&replayer{list: v.Choices}, true, v.Property)
	for _, l := range x.Trace() {
		fmt.Println(l)
	}
	if x.Failure != nil {
		fmt.Printf("FAILURE %s %s: %s\n", x.Failure.Kind, x.Failure.Prop, x.Failure.Msg)
		os.Exit(1)
	}
	fmt.Println("no failure; outcome:")
	fmt.Print(out)
}

type driver struct {
	prop, tier, only    string
	evid, replays       string
	known, real, race   string
	verbose             bool
	secs                float64
	mu                  sync.Mutex
	results             []*Result
	violation           *Violation
	internal            []string
	t0                  time.Time
	validated, mismatch int
	validatedAny        int // matched the outcomes of other scripts of the scenario
	outside             int // satisfied all oracles, by a schedule outside the bounds
	incomplete          int // the bubble cannot complete the run: a goroutine waits for a mutex while virtual time must pass
	mismatches          []string
	freeFailed          []*Violation // runs of the unmodified code that violate the property
}

type job struct {
	s             *Scenario
	p, f          int
	shard, shards int
	secs          float64
	bin           string
}

func (d *driver) run() int {
	d.t0 = time.Now()
	var jobs []*job
	self, err := os.Executable()
	if err != nil {
		fmt.Println(err)
		return 4
	}
	bin := self
	if d.prop == "C17" && d.race != "" {
		bin = d.race
	}
	for _, s := range scenarios {
		if d.prop != "ANY" && !has(s.Props, d.prop) && !has(s.Also, d.prop) || !strings.HasPrefix(s.Name, d.only) {
			continue
		}
		if s.Thorough && d.tier != "thorough" {
			continue
		}
		p, f, sh := s.P, s.F, s.Shards
		if !has(s.Props, d.prop) {
			p = max(0, p-1)
		}
		if d.tier == "thorough" {
			p, f = max(s.TP, s.P), max(s.TF, s.F)
			sh = max(s.TShards, s.Shards)
		}
		if sh == 0 {
			sh = 1
		}
		for i := 0; i < sh; i++ {
			jobs = append(jobs, &job{s: s, p: p, f: f, shard: i, shards: sh, secs: d.secs, bin: bin})
		}
	}
	if len(jobs) == 0 {
		fmt.Println("no scenario for", d.prop)
		return 4
	}
	sort.SliceStable(jobs, func(i, k int) bool { return jobs[i].s.Weight > jobs[k].s.Weight })
	ch := make(chan *job)
	var wg sync.WaitGroup
	n := min(runtime.NumCPU(), runtime.GOMAXPROCS(0))
	end := d.t0.Add(time.Duration(d.secs * float64(time.Second)))
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				d.mu.Lock()
				stop := d.violation != nil
				d.mu.Unlock()
				if stop {
					continue
				}
				j.secs = max(3, time.Until(end).Seconds())
				d.runJob(j)
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	if d.violation == nil && d.real != "" {
		d.conformance()
	}
	return d.report()
}

func (d *driver) runJob(j *job) {
	r, crash := d.spawn(j, "")
	if crash != "" {
		// find the execution that kills the process
		f, err := os.CreateTemp("", "vtrack")
		if err != nil {
			d.fail("temp file: " + err.Error())
			return
		}
		f.Close()
		defer os.Remove(f.Name())
		_, crash2 := d.spawn(j, f.Name())
		if crash2 == "" {
			d.fail("worker died once, not again: " + crash)
			return
		}
		var c []int
		data, _ := os.ReadFile(f.Name())
		_ = json.Unmarshal(data, &c)
		if !strings.Contains(crash2, "fatal error") && !strings.Contains(crash2, "panic") && !strings.Contains(crash2, "killed") {
			d.fail("worker died: " + crash2)
			return
		}
		r = &Result{Scenario: j.s.Name, Violation: &Violation{Property: d.prop, Scenario: j.s.Name, Kind: "crash", Msg: crash2, Choices: c}}
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	d.results = append(d.results, r)
	if r.Internal != "" {
		d.internal = append(d.internal, j.s.Name+": "+r.Internal)
	}
	if r.Violation != nil && d.violation == nil {
		if v := r.Violation; v.Kind == "spin" && !(j.s.Liveness && livenessProps[d.prop]) {
			r.Other = map[string]int{"spin": 1}
			r.Completed = false
			return
		}
		r.Violation.Race = j.bin == d.race && d.race != ""
		r.Violation.Tier = d.tier
		d.violation = r.Violation
	}
	if d.verbose {
		fmt.Fprintf(os.Stderr, "%-28s shard %d/%d P=%d F=%d exec=%d pruned=%d states=%d outcomes=%d complete=%v bound=%d other=%v %.1fs\n", j.s.Name, j.shard, j.shards, j.p, j.f,
			r.Executions, r.Pruned, r.States, r.Outcomes, r.Completed, r.Bound, r.Other, r.WallS)
		for _, x := range r.Samples {
			if strings.HasPrefix(x, "other") {
				fmt.Fprintln(os.Stderr, "    ", x)
			}
		}
	}
}

func (d *driver) fail(s string) {
	d.mu.Lock()
	d.internal = append(d.internal, s)
	d.mu.Unlock()
}

func (d *driver) spawn(j *job, track string) (*Result, string) {
	args := []string{"-worker", j.s.Name, "-prop", d.prop, "-p", strconv.Itoa(j.p), "-f", strconv.Itoa(j.f),
		"-shard", strconv.Itoa(j.shard), "-shards", strconv.Itoa(j.shards), "-secs", fmt.Sprint(j.secs)}
	if track != "" {
		args = append(args, "-track", track)
	}
	cmd := exec.Command(j.bin, args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 log_path=stderr", "GOTRACEBACK=single")
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	r := &Result{}
	if jerr := json.Unmarshal(out.Bytes(), r); err != nil || jerr != nil {
		s := errb.String()
		if len(s) > 3000 {
			s = s[:3000]
		}
		if err != nil {
			s = err.Error() + "\n" + s
		}
		return &Result{Scenario: j.s.Name}, "worker: " + s
	}
	if r.Violation != nil && r.Violation.Kind == "race" {
		s := errb.String()
		if len(s) > 6000 {
			s = s[:6000]
		}
		r.Violation.Msg += "\n" + s
	}
	return r, ""
}

// knownFinding is one line of the known-findings file:
// finding: property=<id> scenario=<name> match=<text contained in the message> :: <what fails>
type knownFinding struct{ prop, scenario, match, text string }

func (d *driver) loadKnown() []knownFinding {
	var r []knownFinding
	data, err := os.ReadFile(d.known)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(data), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		head, text, _ := strings.Cut(strings.TrimPrefix(l, "finding: "), " :: ")
		k := knownFinding{text: text}
		for _, f := range strings.Split(head, " ") {
			a, b, _ := strings.Cut(f, "=")
			switch a {
			case "property":
				k.prop = b
			case "scenario":
				k.scenario = b
			case "match":
				k.match = strings.ReplaceAll(b, "_", " ")
			}
		}
		r = append(r, k)
	}
	return r
}

func (d *driver) report() int {
	wall := time.Since(d.t0).Seconds()
	execs, pruned, states, outcomes, inputs := 0, 0, 0, 0, 0
	var steps int64
	complete := true
	var samples []any
	other := map[string]int{}
	type per struct {
		Scenario                   string
		P, F, Shards               int
		Executions, Pruned, States int
		Outcomes                   int
		Complete                   bool
		BoundDone                  int
		WallS                      float64
	}
	byName := map[string]*per{}
	var names []string
	for _, r := range d.results {
		execs += r.Executions
		pruned += r.Pruned
		steps += r.Steps
		states += r.States
		outcomes += r.Outcomes
		inputs += r.Inputs
		if !r.Completed {
			complete = false
		}
		for k, v := range r.Other {
			other[k] += v
		}
		for _, s := range r.Samples {
			if len(samples) < 12 {
				samples = append(samples, s)
			}
		}
		p := byName[r.Scenario]
		if p == nil {
			p = &per{Scenario: r.Scenario, P: r.P, F: r.F, Complete: true, BoundDone: r.Bound}
			byName[r.Scenario] = p
			names = append(names, r.Scenario)
		}
		p.Shards++
		p.Executions += r.Executions
		p.Pruned += r.Pruned
		p.States += r.States
		p.Outcomes = max(p.Outcomes, r.Outcomes)
		p.WallS += r.WallS
		p.Complete = p.Complete && r.Completed
		p.BoundDone = min(p.BoundDone, r.Bound)
	}
	sort.Strings(names)
	var pers []any
	for _, n := range names {
		pers = append(pers, byName[n])
	}
	viol := 0
	var knownLine string
	if d.violation != nil {
		viol = 1
		for _, k := range d.loadKnown() {
			if k.prop == d.prop && k.scenario == d.violation.Scenario && strings.Contains(d.violation.Msg, k.match) {
				knownLine = fmt.Sprintf("KNOWN-FINDING: property=%s %s", d.prop, k.text)
				viol = 0
			}
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": d.prop, "tier": d.tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": steps, "traces_validated_against_impl": d.validated + d.validatedAny,
			"conformance_runs_outside_schedule_bounds": d.outside, "conformance_runs_not_completable": d.incomplete, "conformance_mismatches": d.mismatch, "mismatch_samples": d.mismatches,
			"schedules_executed": execs, "schedules_cut_at_visited_states": pruned, "distinct_outcomes": outcomes,
			"input_sequences_inside_executions": inputs,
			"exhaustive":                        complete, "scenarios": pers, "executions_ended_by_other_properties": other, "samples": samples,
			"explanation": "stateless exploration of the rewritten implementation under a controlled scheduler, clock and network; states are distinct happens-before classes at choice points, transitions are scheduling steps executed",
		},
		"assumptions": []string{
			"sequentially consistent memory (data races are excluded separately by C17)",
			"the rewriter preserves the semantics of the code; checked by replaying environment scripts against the unmodified code (traces_validated_against_impl)",
			"bounds per scenario: P preemptions, F environment faults, inputs of the scenario",
		},
		"wall_s": wall, "violations": viol,
	}
	if d.evid != "" {
		data, _ := json.MarshalIndent(ev, "", " ")
		_ = os.MkdirAll(filepath.Dir(d.evid), 0o755)
		if err := os.WriteFile(d.evid, append(data, '\n'), 0o644); err != nil {
			fmt.Println("evidence:", err)
			return 4
		}
	}
	fmt.Printf("%s %s: %d scenarios, %d schedules (%d cut at visited states), %d states, %d transitions, %d outcomes, exhaustive=%v, conformance %d ok %d outside bounds %d differ, %.1fs\n",
		d.prop, d.tier, len(names), execs, pruned, states, steps, outcomes, complete, d.validated+d.validatedAny, d.outside, d.mismatch, wall)
	for k, v := range other {
		fmt.Printf("note: %d failures seen that are no violation of %s: %s\n", v, d.prop, k)
	}
	if knownLine != "" {
		fmt.Println(knownLine)
		return 0
	}
	if d.violation != nil {
		dir := d.replays
		if dir == "" {
			dir = os.TempDir()
		}
		_ = os.MkdirAll(dir, 0o755)
		file := filepath.Join(dir, d.prop+"-"+d.violation.Scenario+".json")
		data, _ := json.MarshalIndent(d.violation, "", " ")
		_ = os.WriteFile(file, data, 0o644)
		fmt.Printf("%s: %s in scenario %s (%d preemptions, %d faults): %s\n", d.prop, d.violation.Kind, d.violation.Scenario, d.violation.P, d.violation.F, d.violation.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, file)
		return 1
	}
	if len(d.internal) > 0 {
		for _, s := range d.internal {
			fmt.Println("INTERNAL:", s)
		}
		return 3
	}
	return 0
}

// FreeRun and FreeResult are the protocol of the free-running binary, see free.go.
type FreeRun struct {
	Scenario string
	Envs     []vrt.EnvRec
	Data     []int
}

type FreeResult struct {
	Outcome string
	Failed  string
}

type freeProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *bytes.Buffer
}

func startFree(bin string) (*freeProc, error) {
	p := &freeProc{cmd: exec.Command(bin), err: &bytes.Buffer{}}
	p.cmd.Env = append(os.Environ(), "GOTRACEBACK=all")
	p.cmd.Stderr = p.err
	var err error
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := p.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p.out = bufio.NewReaderSize(o, 1<<20)
	return p, p.cmd.Start()
}

func (p *freeProc) stop() {
	_ = p.in.Close()
	_ = p.cmd.Process.Kill()
	_ = p.cmd.Wait()
}

// The bubble's clock does not advance while a goroutine waits for a mutex, so a run in which the client holds one
// across virtual time cannot be completed. (A real deadlock is noticed by the bubble.) Slow runs are cut as well.
const mutexStuck = "stuck"

// run gives the result of one run; died is set when the process ended without one.
func (p *freeProc) run(r *FreeRun) (res FreeResult, died string) {
	data, _ := json.Marshal(r)
	if _, err := p.in.Write(append(data, '\n')); err != nil {
		return res, "write: " + err.Error()
	}
	t := time.AfterFunc(2500*time.Millisecond, func() { _ = p.cmd.Process.Signal(syscall.SIGQUIT) })
	defer t.Stop()
	t2 := time.AfterFunc(6*time.Second, func() { _ = p.cmd.Process.Kill() })
	defer t2.Stop()
	for {
		line, err := p.out.ReadBytes('\n')
		if err != nil {
			_ = p.cmd.Wait()
			s := p.err.String()
			if strings.Contains(s, "SIGQUIT") {
				return res, mutexStuck
			}
			if len(s) > 1500 {
				s = s[:1500]
			}
			return res, "died: " + s
		}
		if json.Unmarshal(line, &res) == nil {
			return res, ""
		}
	}
}

// replayFree repeats a run of the unmodified code.
func replayFree(r *FreeRun) {
	bin := os.Getenv("VERIF_FREE")
	for i := 0; i < 20 && bin != ""; i++ {
		p, err := startFree(bin)
		if err != nil {
			break
		}
		res, died := p.run(r)
		p.stop()
		if res.Failed != "" || died != "" {
			fmt.Printf("FAILURE %s %s\n", res.Failed, died)
			os.Exit(1)
		}
	}
	fmt.Println("no failure in 20 runs (needs the free-running binary, VERIF_FREE)")
}

// always tells whether a script fails in nearly every free run.
func (d *driver) always(r *FreeRun) bool {
	bad := 0
	for i := 0; i < 10; i++ {
		p, err := startFree(d.real)
		if err != nil {
			return false
		}
		res, died := p.run(r)
		p.stop()
		if died == "" && strings.HasPrefix(res.Failed, "C") {
			bad++
		}
	}
	return bad >= 9
}

// conformance replays a sample of the environment scripts against the unmodified code, with real goroutines:
// what it does must be among the executions explored.
func (d *driver) conformance() {
	type item struct {
		p    *PlanOut
		name string
	}
	union := map[string]map[string]bool{}
	byScen := map[string][]item{}
	var names []string
	for _, r := range d.results {
		if union[r.Scenario] == nil {
			union[r.Scenario] = map[string]bool{}
			names = append(names, r.Scenario)
		}
		for _, o := range r.OutcomeSet {
			union[r.Scenario][o] = true
		}
		for i := range r.Plans {
			byScen[r.Scenario] = append(byScen[r.Scenario], item{&r.Plans[i], r.Scenario})
		}
	}
	sort.Strings(names)
	var items []item
	for k := 0; ; k++ {
		some := false
		for _, n := range names {
			if k < len(byScen[n]) {
				items = append(items, byScen[n][k])
				some = true
			}
		}
		if !some || len(items) > 3000 {
			break
		}
	}
	budget := 6 * time.Second
	if d.tier == "thorough" {
		budget = 60 * time.Second
	}
	end := time.Now().Add(budget)
	ch := make(chan item)
	var wg sync.WaitGroup
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *freeProc
			defer func() {
				if p != nil {
					p.stop()
				}
			}()
			for it := range ch {
				if time.Now().After(end) {
					continue
				}
				for rep := 0; rep < 2; rep++ {
					if p == nil {
						var err error
						if p, err = startFree(d.real); err != nil {
							p = nil
							break
						}
					}
					res, died := p.run(&FreeRun{it.name, it.p.Envs, it.p.Data})
					if died != "" || res.Failed != "" {
						p.stop()
						p = nil
					}
					d.mu.Lock()
					switch {
					case died == mutexStuck:
						d.incomplete++
					case died == "" && res.Failed == "" && has(it.p.Outcomes, res.Outcome):
						d.validated++
					case died == "" && res.Failed == "" && union[it.name][res.Outcome]:
						d.validatedAny++
					case died == "" && res.Failed == "":
						d.outside++
					default:
						d.mismatch++
						if pr, msg, ok := strings.Cut(res.Failed, ": "); ok && has(strings.Split(pr, ","), d.prop) {
							d.freeFailed = append(d.freeFailed, &Violation{Property: d.prop, Scenario: it.name, Tier: d.tier, Kind: "conformance",
								Msg: "the unmodified code, run freely: " + msg, Free: &FreeRun{it.name, it.p.Envs, it.p.Data}})
						}
						if len(d.mismatches) < 8 {
							m := fmt.Sprintf("%s data=%v envs=%v: %s %s outcome %q", it.name, it.p.Data, it.p.Envs, res.Failed, died, res.Outcome)
							if len(m) > 1500 {
								m = m[:1500]
							}
							d.mismatches = append(d.mismatches, m)
						}
					}
					d.mu.Unlock()
					if died == mutexStuck {
						break
					}
				}
			}
		}()
	}
	for _, it := range items {
		ch <- it
	}
	close(ch)
	wg.Wait()
	// every explored execution satisfies the property, but the unmodified code, driven by the same scripts, violates it
	// every time: the oracles of scenarios without preemptions may not hold in all schedules of one instant
	for i, v := range d.freeFailed {
		if i < 20 && d.violation == nil && d.always(v.Free) {
			d.violation = v
		}
	}
}
