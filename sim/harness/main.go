package main

import (
	"bufio"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"github.com/deNULL/dawg/verifhook"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ChunkReport is what a worker process says about its runs.
type ChunkReport struct {
	Runs    int
	Steps   int64
	Preempt int64
	Checks  int64
	Ops     int
	Faults  Faults
	Hashes  []uint64 // of runs that are not trivial
	Traces  uint64   // over all runs, for the comparison of executions
	Sites   []int
	Pairs   string
	Viol    *Violation
	Plan    *Plan
	Sample  *Plan
}

// ReplayFile is one violation, ready to be executed again.
type ReplayFile struct {
	Property    string     `json:"property"`
	Violation   *Violation `json:"violation"`
	Race        bool       `json:"race,omitempty"`        // needs the race-armed build
	PreludeRuns []int      `json:"preludeRuns,omitempty"` // earlier runs of the same process
	Tier        string     `json:"tier"`
	TraceHash   uint64     `json:"traceHash"`
	Note        string     `json:"note,omitempty"`
	Plan        *Plan      `json:"plan"`
}

// ExecReport is the outcome of executing a ReplayFile in a process of its own.
type ExecReport struct {
	Viol      *Violation
	TraceHash uint64
	Plan      *Plan // with the schedule that was taken
	Infra     string
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim check|worker|exec|replay|selftest ...")
		os.Exit(2)
	}
	coarse = os.Getenv("VERIF_COARSE") == "1"
	cmd := os.Args[1]
	args := os.Args[2:]
	switch cmd {
	case "worker":
		workerMain(args)
	case "exec":
		execMain(args)
	case "check":
		os.Exit(checkMain(args))
	case "replay":
		os.Exit(replayMain(args))
	case "selftest":
		os.Exit(selftestMain(args))
	case "plan":
		run, _ := strconv.Atoi(args[2])
		seed, _ := strconv.ParseUint(args[1], 10, 64)
		b, _ := json.MarshalIndent(Generate(args[0], seed, run, "quick"), "", " ")
		fmt.Println(string(b))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(2)
	}
}

func infraExit() {
	if r := recover(); r != nil {
		if x, ok := r.(infraPanic); ok {
			cleanScratch()
			fmt.Fprintln(os.Stderr, "infrastructure:", x.err)
			os.Exit(3)
		}
		panic(r)
	}
}

func cleanScratch() {
	if toolDir != "" {
		os.RemoveAll(toolDir)
	}
}

func processSetup() {
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(512 << 20)
	debug.SetGCPercent(200)
}

func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 0, "")
	runs := fs.String("traces", "", "write the trace hash of every run to this file")
	fs.Parse(args)
	processSetup()
	defer infraExit()
	rep := &ChunkReport{Faults: Faults{}}
	out := os.Stdout
	var tr *os.File
	if *runs != "" {
		tr, _ = os.Create(*runs)
	}
	for run := *from; run < *to; run++ {
		out.WriteString("R " + strconv.Itoa(run) + "\n")
		p := Generate(*prop, *seed, run, *tier)
		res := Execute(p)
		rep.Runs++
		rep.Steps += res.Steps
		rep.Preempt += res.Preempt
		rep.Checks += res.Checks
		rep.Ops += res.Ops
		nf := int64(0)
		for k, n := range res.Faults {
			rep.Faults[k] += n
			nf += n
		}
		if nf > 0 || res.Preempt > 0 {
			rep.Hashes = append(rep.Hashes, mix(res.SchedHash, res.TraceHash))
		}
		rep.Traces = mix(rep.Traces, res.TraceHash)
		if tr != nil {
			fmt.Fprintf(tr, "%d %016x %016x %d\n", run, res.SchedHash, res.TraceHash, res.Steps)
		}
		if res.Viol != nil {
			rep.Viol = res.Viol
			rep.Plan = p
			break
		}
		if rep.Sample == nil && nf > 0 && len(p.Switches) < 40 {
			js, _ := json.Marshal(p)
			if len(js) < 6000 {
				rep.Sample = p
			}
		}
	}
	for i, n := range sc.sites {
		if n > 0 {
			rep.Sites = append(rep.Sites, i)
		}
	}
	if sc.npairs > 0 {
		b := make([]byte, 8*len(sc.pairs))
		for i, x := range sc.pairs {
			binary.LittleEndian.PutUint64(b[i*8:], x)
		}
		rep.Pairs = base64.StdEncoding.EncodeToString(b)
	}
	js, err := json.Marshal(rep)
	infra(err)
	out.Write(append(append([]byte("J "), js...), '\n'))
	cleanScratch()
}

func readReplay(path string) (*ReplayFile, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	rf := &ReplayFile{}
	if err := json.Unmarshal(b, rf); err != nil {
		return nil, err
	}
	if rf.Plan == nil {
		return nil, fmt.Errorf("no plan in %s", path)
	}
	return rf, nil
}

func execMain(args []string) {
	processSetup()
	defer infraExit()
	rf, err := readReplay(args[0])
	infra(err)
	for _, run := range rf.PreludeRuns {
		Execute(Generate(rf.Plan.Prop, rf.Plan.Seed, run, rf.Tier))
	}
	res := Execute(rf.Plan)
	js, err := json.Marshal(&ExecReport{Viol: res.Viol, TraceHash: res.TraceHash, Plan: rf.Plan})
	infra(err)
	os.Stdout.Write(append(append([]byte("J "), js...), '\n'))
	cleanScratch()
}

// child runs this program again and follows its output.
type childResult struct {
	lastRun int
	json    []byte
	code    int
	stderr  string
	timeout bool
	err     error
}

func runChild(bin string, race bool, idle time.Duration, args ...string) *childResult {
	c := exec.Command(bin, args...)
	c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=4", "GOMAXPROCS=1", "GOTRACEBACK=single")
	res := &childResult{lastRun: -1}
	stdout, err := c.StdoutPipe()
	if err != nil {
		res.err = err
		return res
	}
	var se limitedBuffer
	c.Stderr = &se
	if err := c.Start(); err != nil {
		res.err = err
		return res
	}
	var mu sync.Mutex
	last := time.Now()
	done := make(chan struct{})
	go func() {
		t := time.NewTicker(time.Second)
		defer t.Stop()
		for {
			select {
			case <-done:
				return
			case <-t.C:
				mu.Lock()
				stale := time.Since(last) > idle
				if stale {
					res.timeout = true
				}
				mu.Unlock()
				if stale {
					c.Process.Kill()
					return
				}
			}
		}
	}()
	br := bufio.NewReaderSize(stdout, 1<<16)
	for {
		line, err := br.ReadBytes('\n')
		if len(line) > 2 {
			mu.Lock()
			last = time.Now()
			mu.Unlock()
			switch line[0] {
			case 'R':
				res.lastRun, _ = strconv.Atoi(strings.TrimSpace(string(line[2:])))
			case 'J':
				res.json = append([]byte(nil), line[2:]...)
			}
		}
		if err != nil {
			break
		}
	}
	err = c.Wait()
	close(done)
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			res.code = ee.ExitCode()
		} else {
			res.err = err
		}
	}
	res.stderr = se.String()
	return res
}

type limitedBuffer struct {
	mu sync.Mutex
	b  []byte
}

func (l *limitedBuffer) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.b) < 1<<16 {
		l.b = append(l.b, p...)
	}
	return len(p), nil
}
func (l *limitedBuffer) String() string { l.mu.Lock(); defer l.mu.Unlock(); return string(l.b) }

// died interprets the end of a process that did not report.
func (r *childResult) died(prop string) *Violation {
	switch {
	case r.timeout:
		return &Violation{prop, "stuck", "the process makes no progress", -1, -1}
	case r.code == 66 && strings.Contains(r.stderr, "DATA RACE"):
		return &Violation{prop, "race", "data race: " + raceSummary(r.stderr), -1, -1}
	case strings.Contains(r.stderr, "fatal error: "):
		i := strings.Index(r.stderr, "fatal error: ")
		return &Violation{prop, "fatal", firstLine(r.stderr[i:]), -1, -1}
	case strings.Contains(r.stderr, "goroutine stack exceeds"):
		return &Violation{prop, "fatal", "stack overflow", -1, -1}
	}
	return nil
}

// raceSummary names the two places of a race report.
func raceSummary(s string) string {
	var out []string
	take := false
	for _, l := range strings.Split(s, "\n") {
		t := strings.TrimSpace(l)
		for _, h := range []string{"Write at", "Read at", "Previous write at", "Previous read at"} {
			if strings.HasPrefix(t, h) {
				out = append(out, strings.ToLower(strings.TrimSuffix(h, " at")))
				take = true
			}
		}
		if take && strings.HasSuffix(t, ")") && strings.Contains(t, "(") && !strings.HasPrefix(t, "Write") && !strings.HasPrefix(t, "Read") && !strings.HasPrefix(t, "Prev") {
			if i := strings.LastIndex(t, "/"); i >= 0 {
				t = t[i+1:]
			}
			out[len(out)-1] += " in " + t
			take = false
		}
		if len(out) == 2 && !take {
			break
		}
	}
	return strings.Join(out, ", ")
}

type checker struct {
	prop, tier string
	seed       uint64
	bin, race  string
	workers    int
	tmp        string
	replays    string
	start      time.Time
}

// execPlan executes a replay file in a process of its own.
func (c *checker) execPlan(rf *ReplayFile, idle time.Duration) (*ExecReport, error) {
	f, err := os.CreateTemp(c.tmp, "plan")
	if err != nil {
		return nil, err
	}
	defer os.Remove(f.Name())
	js, err := json.Marshal(rf)
	if err != nil {
		return nil, err
	}
	f.Write(js)
	f.Close()
	bin := c.bin
	if rf.Race {
		bin = c.race
	}
	r := runChild(bin, rf.Race, idle, "exec", f.Name())
	if r.err != nil {
		return nil, r.err
	}
	if r.json != nil && r.code == 0 {
		x := &ExecReport{}
		return x, json.Unmarshal(r.json, x)
	}
	if v := r.died(rf.Property); v != nil {
		return &ExecReport{Viol: v}, nil
	}
	return nil, fmt.Errorf("exit status %d: %s", r.code, r.stderr)
}

// totals of a check
type totals struct {
	ChunkReport
	hashes  map[uint64]bool
	sites   map[int]bool
	pairs   []byte
	samples []*Plan
	seconds float64
}

func newTotals() *totals {
	return &totals{ChunkReport: ChunkReport{Faults: Faults{}}, hashes: map[uint64]bool{}, sites: map[int]bool{}}
}

func (t *totals) add(r *ChunkReport) {
	t.Runs += r.Runs
	t.Steps += r.Steps
	t.Preempt += r.Preempt
	t.Checks += r.Checks
	t.Ops += r.Ops
	for k, n := range r.Faults {
		t.Faults[k] += n
	}
	for _, h := range r.Hashes {
		t.hashes[h] = true
	}
	for _, s := range r.Sites {
		t.sites[s] = true
	}
	if r.Pairs != "" {
		b, _ := base64.StdEncoding.DecodeString(r.Pairs)
		if t.pairs == nil {
			t.pairs = make([]byte, len(b))
		}
		for i := range b {
			t.pairs[i] |= b[i]
		}
	}
	if r.Sample != nil && len(t.samples) < 2 {
		t.samples = append(t.samples, r.Sample)
	}
}

type found struct {
	run, from int
	viol      *Violation
	plan      *Plan
	race      bool
}

// phase executes runs [from, to) in chunks and returns the first violation.
func (c *checker) phase(from, to, chunk int, race bool, cap time.Duration, t *totals) (*found, error) {
	type job struct{ from, to int }
	var mu sync.Mutex
	var best *found
	var firstErr error
	next := from
	begin := time.Now()
	take := func() (job, bool) {
		mu.Lock()
		defer mu.Unlock()
		if next >= to || best != nil || firstErr != nil || time.Since(begin) > cap {
			return job{}, false
		}
		j := job{next, min(next+chunk, to)}
		next = j.to
		return j, true
	}
	bin := c.bin
	if race {
		bin = c.race
	}
	idle := 240 * time.Second
	var wg sync.WaitGroup
	for w := 0; w < c.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				j, ok := take()
				if !ok {
					return
				}
				r := runChild(bin, race, idle, "worker", "-prop", c.prop, "-tier", c.tier, "-seed", strconv.FormatUint(c.seed, 10),
					"-from", strconv.Itoa(j.from), "-to", strconv.Itoa(j.to))
				mu.Lock()
				switch {
				case r.err != nil:
					firstErr = r.err
				case r.json != nil && r.code == 0:
					rep := &ChunkReport{}
					if err := json.Unmarshal(r.json, rep); err != nil {
						firstErr = err
						break
					}
					t.add(rep)
					if rep.Viol != nil && (best == nil || rep.Plan.Run < best.run) {
						best = &found{rep.Plan.Run, j.from, rep.Viol, rep.Plan, race}
					}
				default:
					if v := r.died(c.prop); v != nil && r.lastRun >= 0 {
						if best == nil || r.lastRun < best.run {
							best = &found{r.lastRun, j.from, v, Generate(c.prop, c.seed, r.lastRun, c.tier), race}
						}
					} else {
						firstErr = fmt.Errorf("worker for runs %d..%d: exit status %d: %s", j.from, j.to, r.code, r.stderr)
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	t.seconds += time.Since(begin).Seconds()
	if best == nil && firstErr != nil {
		return nil, firstErr
	}
	return best, nil
}

type budget struct {
	runs, chunk    int
	race, raceStep int
	cap            time.Duration
}

// budgets of a check: numbers of runs, not times, decide what is covered.
func budgetOf(prop, tier string) budget {
	b := budget{runs: 6000, chunk: 250, cap: 300 * time.Second}
	switch prop {
	case "C01":
		b.runs = 8000
	case "C02":
		b.runs = 12000
	case "C03":
		b.runs = 12000
	case "C04":
		b.runs, b.race, b.raceStep = 12000, 1600, 100
	case "C05":
		b.runs, b.race, b.raceStep = 12000, 400, 50
	case "C06":
		b.runs, b.race, b.raceStep = 10000, 400, 50
	case "C07":
		b.runs, b.race, b.raceStep = 12000, 400, 50
	case "C08":
		b.runs, b.race, b.raceStep = 6000, 200, 25
	case "C14":
		b.runs, b.race, b.raceStep = 6000, 100, 25
	case "C09":
		b.runs, b.race, b.raceStep = 3000, 200, 25
	case "C10":
		b.runs, b.race, b.raceStep = 40000, 800, 100
		b.chunk = 1000
	case "C11":
		b.runs = 8000
		b.chunk = 200
	case "C12":
		b.runs = 8000
		b.chunk = 200
	case "C13":
		b.runs, b.race, b.raceStep = 12000, 400, 50
	}
	if tier == "thorough" {
		b.runs *= 40
		b.race *= 20
		b.cap = 3 * time.Hour
	}
	if f := os.Getenv("VERIF_RUNS"); f != "" {
		b.runs, _ = strconv.Atoi(f)
		b.race = 0
	}
	return b
}

const raceBase = 1 << 24 // runs of the race-armed phase are numbered from here

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	c := &checker{}
	fs.StringVar(&c.prop, "prop", "", "")
	fs.StringVar(&c.tier, "tier", "quick", "")
	fs.Uint64Var(&c.seed, "seed", 1, "")
	fs.StringVar(&c.race, "race", "", "race-armed build of this program")
	fs.IntVar(&c.workers, "workers", runtime.NumCPU(), "")
	fs.StringVar(&c.tmp, "tmp", os.TempDir(), "")
	fs.StringVar(&c.replays, "replays", "replays", "")
	evidence := fs.String("evidence", "", "")
	meta := fs.String("meta", "", "")
	fs.Parse(args)
	c.start = time.Now()
	c.bin, _ = os.Executable()
	fmt.Printf("property=%s tier=%s seed=%d workers=%d\n", c.prop, c.tier, c.seed, c.workers)
	if coarse {
		fmt.Println("note: tasks are switched between operations only (coarse build)")
	}
	b := budgetOf(c.prop, c.tier)
	t := newTotals()
	f, err := c.phase(0, b.runs, b.chunk, false, b.cap, t)
	rt := newTotals()
	if err == nil && f == nil && b.race > 0 && c.race != "" {
		f, err = c.phase(raceBase, raceBase+b.race, b.raceStep, true, b.cap, rt)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	violations := 0
	code := 0
	if f != nil {
		path, v, err := c.report(f)
		if err != nil {
			fmt.Fprintln(os.Stderr, "error:", err)
			return 2
		}
		violations = 1
		code = 1
		fmt.Println("violation:", v)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
	}
	if *evidence != "" {
		if err := c.writeEvidence(*evidence, *meta, t, rt, violations, f == nil); err != nil {
			fmt.Fprintln(os.Stderr, "error:", err)
			return 2
		}
	}
	if code == 0 {
		fmt.Printf("%s held in %d runs (%d race-armed), %d steps, %d preemptions, %d oracle evaluations, %.0f s\n", c.prop, t.Runs+rt.Runs, rt.Runs, t.Steps+rt.Steps, t.Preempt+rt.Preempt, t.Checks+rt.Checks, time.Since(c.start).Seconds())
	}
	return code
}

// report makes sure that a violation happens again, minimises and stores it.
func (c *checker) report(f *found) (string, *Violation, error) {
	rf := &ReplayFile{Property: c.prop, Tier: c.tier, Race: f.race, Plan: f.plan, Violation: f.viol}
	idle := 120 * time.Second
	same := func(x *ExecReport, err error) bool {
		return err == nil && x.Viol != nil && x.Viol.Class == f.viol.Class
	}
	if len(f.plan.Switches) > 0 && len(f.plan.Switches) < maxRec {
		f.plan.Replay = true
	}
	x, err := c.execPlan(rf, idle)
	if !same(x, err) && f.plan.Replay {
		// a violation ends a run early; follow the seed instead of the record
		f.plan.Replay = false
		x, err = c.execPlan(rf, idle)
	}
	for i := 0; i < 3 && !same(x, err) && f.race; i++ {
		x, err = c.execPlan(rf, idle)
	}
	if !same(x, err) {
		// It takes what ran before in the same process.
		for r := f.from; r < f.run; r++ {
			rf.PreludeRuns = append(rf.PreludeRuns, r)
		}
		*rf.Plan = *Generate(c.prop, c.seed, f.run, c.tier)
		x, err = c.execPlan(rf, idle)
		if !same(x, err) {
			if err == nil && x.Viol != nil {
				f.viol = x.Viol // another symptom of the same execution
			} else {
				return c.unrepeatable(rf, f, err)
			}
		}
		rf.Note = "the violation depends on state left by earlier runs in the same process"
	}
	rf.Violation = x.Viol
	rf.TraceHash = x.TraceHash
	full, _ := json.Marshal(rf)
	if x.Viol != nil && x.Viol.Class != "stuck" {
		c.shrink(rf, 45*time.Second)
	}
	path, err := c.store(rf, f.run)
	if err != nil {
		return "", nil, err
	}
	// The file must reproduce it in a fresh process.
	rf2, err := readReplay(path)
	if err != nil {
		return "", nil, err
	}
	for i := 0; i < 3; i++ {
		x, err = c.execPlan(rf2, idle)
		if err == nil && x.Viol != nil && x.Viol.Class == rf.Violation.Class {
			return path, rf.Violation, nil
		}
	}
	os.Remove(path)
	rf = &ReplayFile{}
	if err := json.Unmarshal(full, rf); err != nil {
		return "", nil, err
	}
	return c.unrepeatable(rf, f, err)
}

// unrepeatable reports a violation that does not happen again in each execution
// of the same plan: the code depends on something random that is not behind a
// seam. What the oracle saw is a violation all the same, if it was not an
// accident of the process.
func (c *checker) unrepeatable(rf *ReplayFile, f *found, err error) (string, *Violation, error) {
	switch f.viol.Class {
	case "stuck", "fatal":
		return "", nil, fmt.Errorf("run %d showed %v, which does not happen again: %v", f.run, f.viol, err)
	}
	n, tries := 0, 20
	for i := 0; i < tries; i++ {
		if x, err := c.execPlan(rf, 120*time.Second); err == nil && x.Viol != nil {
			n++
			rf.Violation, rf.TraceHash = x.Viol, x.TraceHash
		}
	}
	if n == 0 {
		return "", nil, fmt.Errorf("run %d showed %v, which does not happen again: %v", f.run, f.viol, err)
	}
	rf.Note = fmt.Sprintf("the code depends on randomness outside of the simulation: the violation happened in %d of %d executions of this plan", n, tries)
	path, err := c.store(rf, f.run)
	return path, rf.Violation, err
}

func (c *checker) store(rf *ReplayFile, run int) (string, error) {
	os.MkdirAll(c.replays, 0o755)
	path := filepath.Join(c.replays, fmt.Sprintf("%s-seed%d-run%d.json", c.prop, c.seed, run))
	js, err := json.MarshalIndent(rf, "", " ")
	if err == nil {
		err = os.WriteFile(path, js, 0o644)
	}
	return path, err
}

func replayMain(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	c := &checker{}
	fs.StringVar(&c.race, "race", "", "")
	fs.StringVar(&c.tmp, "tmp", os.TempDir(), "")
	fs.Parse(args)
	c.bin, _ = os.Executable()
	rf, err := readReplay(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	x, err := c.execPlan(rf, 120*time.Second)
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	if x.Viol == nil {
		fmt.Println("no violation")
		return 0
	}
	fmt.Println("violation:", x.Viol)
	if x.TraceHash == rf.TraceHash && *x.Viol == *rf.Violation {
		fmt.Println("identical to the recorded execution")
	} else {
		fmt.Println("recorded:", rf.Violation)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, fs.Arg(0))
	return 1
}

// selftestMain executes the same runs in many processes and at two ways of
// dividing them over processes, and compares every trace.
func selftestMain(args []string) int {
	fs := flag.NewFlagSet("selftest", flag.ExitOnError)
	n := fs.Int("runs", 300, "")
	seeds := fs.Int("seeds", 4, "")
	props := fs.String("props", "C01,C02,C03,C04,C05,C06,C07,C08,C09,C10,C11,C12,C13,C14", "")
	tmp := fs.String("tmp", os.TempDir(), "")
	fs.Parse(args)
	bin, _ := os.Executable()
	bad := 0
	total := 0
	var mu sync.Mutex
	sem := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	for _, prop := range strings.Split(*props, ",") {
		for seed := 1; seed <= *seeds; seed++ {
			wg.Add(1)
			go func(prop string, seed int) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				get := func(parts int) map[string]bool {
					lines := map[string]bool{}
					for k := 0; k < parts; k++ {
						f := filepath.Join(*tmp, fmt.Sprintf("trace-%s-%d-%d-%d", prop, seed, parts, k))
						from := 10 + *n*k/parts
						to := 10 + *n*(k+1)/parts
						r := runChild(bin, false, 240*time.Second, "worker", "-prop", prop, "-seed", strconv.Itoa(seed), "-from", strconv.Itoa(from), "-to", strconv.Itoa(to), "-traces", f)
						if r.err != nil || r.code != 0 {
							lines[fmt.Sprintf("error %v %d %s", r.err, r.code, r.stderr)] = true
						}
						b, _ := os.ReadFile(f)
						os.Remove(f)
						for _, l := range strings.Split(string(b), "\n") {
							lines[l] = true
						}
					}
					return lines
				}
				a, b := get(1), get(7)
				c := get(1)
				mu.Lock()
				defer mu.Unlock()
				total += len(a)
				for l := range a {
					if !b[l] || !c[l] {
						bad++
						fmt.Println("differs:", prop, seed, l)
					}
				}
				if len(a) != len(b) || len(a) != len(c) {
					bad++
					fmt.Println("differs in number:", prop, seed, len(a), len(b), len(c))
				}
			}(prop, seed)
		}
	}
	wg.Wait()
	fmt.Printf("selftest: %d runs executed three times (in 1, 7 and 1 processes each), %d differ\n", total, bad)
	if bad > 0 {
		return 1
	}
	return 0
}

func (c *checker) writeEvidence(path, metaPath string, t, rt *totals, violations int, clean bool) error {
	var meta struct {
		Sites []struct {
			File string
			Line int
			Func string
		}
		Concurrent bool
	}
	if b, err := os.ReadFile(metaPath); err == nil {
		json.Unmarshal(b, &meta)
	}
	lib, libHit := 0, 0
	reached := map[string]bool{}
	var missed []string
	for i, s := range meta.Sites {
		if strings.Contains(s.File, "/") {
			continue
		}
		lib++
		reached[s.Func] = reached[s.Func]
		if t.sites[i] || rt.sites[i] {
			libHit++
			reached[s.Func] = true
		} else {
			missed = append(missed, fmt.Sprintf("%s:%d %s", s.File, s.Line, s.Func))
		}
	}
	unreached := []string{}
	for f, ok := range reached {
		if !ok {
			unreached = append(unreached, f)
		}
	}
	sort.Strings(unreached)
	if f := os.Getenv("VERIF_MISSED"); f != "" {
		os.WriteFile(f, []byte(strings.Join(missed, "\n")+"\n"), 0o644)
	}
	pairs := 0
	for _, x := range t.pairs {
		for ; x != 0; x &= x - 1 {
			pairs++
		}
	}
	hashes := len(t.hashes)
	for h := range rt.hashes {
		if !t.hashes[h] {
			hashes++
		}
	}
	tool := c.prop == "C11" || c.prop == "C12"
	faults := map[string]int64{}
	for k, n := range t.Faults {
		faults[k] += n
	}
	for k, n := range rt.Faults {
		faults[k] += n
	}
	runs := t.Runs + rt.Runs
	cov := map[string]interface{}{
		"evaluations":         runs,
		"distinct_nontrivial": hashes,
		"rule":                "one evaluation is one simulated run: contents, client programs, faults and schedule are generated from VERIF_SEED and the run number; a run counts as non-trivial if a fault fired or a task was preempted, and as distinct by the hash of its scheduling decisions (task and statement at each switch) and of the results of its operations",
		"samples":             t.samples,
		"oracle_evaluations":  t.Checks + rt.Checks,
		"operations":          t.Ops + rt.Ops,
		"simulated_steps":     t.Steps + rt.Steps,
		"preemptions":         t.Preempt + rt.Preempt,
		"faults_fired":        faults,
		"runs_per_hour":       int64(float64(runs) / (t.seconds + rt.seconds + 0.001) * 3600),
		"race_armed_runs":     rt.Runs,
		"coarse":              coarse,
		"runtime_rand_seeded": verifhook.Seeded,
	}
	if tool {
		cov["simulated_time"] = "the code has no clock; time is counted in file operations of dawgtool (simulated_steps)"
		cov["components_real"] = []string{"cmd/dawgtool as a process of its own", "the whole library", "bufio, flag, log, fmt", "files in a scratch directory"}
		cov["components_stub"] = []string{"package os of dawgtool: files are wrapped by the fault-injecting shim sim/shims/verifos.go.txt"}
	} else {
		cov["simulated_time"] = "the code has no clock; time is counted in executed statements of the library and stream calls (simulated_steps)"
		cov["components_real"] = []string{"all packages of the library, unmodified except for a scheduler call before every statement"}
		cov["components_stub"] = []string{"io.Reader/io.Writer given to the library (simulated media)", "package sync, if the library uses it (cooperative, over the real primitives)"}
		cov["library_statements"] = lib
		cov["library_statements_reached"] = libHit
		cov["library_functions_not_used"] = unreached
		cov["distinct_switch_pairs"] = pairs
		cov["distinct_switch_pairs_measure"] = "pairs (statement at which a task was preempted, statement at which the next one continued), hashed to 2^20 buckets"
	}
	ev := map[string]interface{}{
		"property": c.prop,
		"tier":     c.tier,
		"seed":     c.seed,
		"level":    "exploration",
		"coverage": cov,
		"assumptions": []string{
			"seeded sampling: what held in the sampled runs need not hold in all",
			"preemption is between statements of the library, not inside an expression; the race-armed runs report unsynchronised accesses independent of where the switch is",
		},
		"wall_s":     time.Since(c.start).Seconds(),
		"violations": violations,
	}
	if len(t.samples) == 0 {
		cov["samples"] = []*Plan{Generate(c.prop, c.seed, 11, c.tier)}
	}
	js, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	return os.WriteFile(path, js, 0o644)
}

var _ = sort.Strings
var _ = io.EOF
