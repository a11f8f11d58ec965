package main

// The scheduler. Tasks are real goroutines, but exactly one holds the token;
// all others spin in waitTurn. Preemption happens only in simYield, which the
// instrumented library calls before every statement and which the simulated
// streams call on every Read and Write. Who runs next is decided by the PRNG of
// the run (recording) or by the recorded list of switches (replay).
//
// Everything here is //go:norace and uses no synchronisation the race detector
// knows of: in the race-armed build, handing over the token therefore creates no
// happens-before edge between tasks, and every unsynchronised conflicting access
// of two tasks is reported although only one of them runs at a time.

import (
	"runtime"
	"sync"

	"github.com/deNULL/dawg/verifhook"
)

const maxTasks = 24
const maxSites = 1 << 13

// Switch is one scheduling decision: when task Task was in operation Op after
// Step yields, control went to task To.
type Switch struct {
	Task int   `json:"t"`
	Op   int   `json:"op"`
	Step int64 `json:"step"`
	To   int   `json:"to"`
}

type taskState struct {
	op     int
	step   int64
	budget int64
	done   bool
	sw     []Switch
	swPos  int
}

type schedState struct {
	n         int
	cur       int
	tasks     [maxTasks]taskState
	steps     int64
	mainLimit int64
	rng       uint64
	den       uint64
	countdown int64
	replay    bool
	rec       []Switch
	nrec      int
	midop     int64
	blockRun  int64
	hash      uint64
	sites     [maxSites]uint32
	lastSite  int
	pairs     [1 << 14]uint64 // bitmap of (site left, site resumed) pairs
	npairs    int
	resume    [maxTasks]int
}

var sc = schedState{cur: -1}

type hangPanic struct{}
type deadlockPanic struct{}

// crashPanic unwinds a task whose process is simulated to die.
type crashPanic struct{}

const maxRec = 1 << 16

func init() {
	verifhook.Yield = simYield
	verifhook.Block = simBlock
	sc.rec = make([]Switch, maxRec)
	sc.mainLimit = 1 << 62
}

//go:norace
func nextRand(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func simYield(site int) {
	sc.steps++
	if site >= 0 && site < maxSites {
		sc.sites[site]++
	}
	if sc.cur < 0 {
		if sc.steps > sc.mainLimit {
			sc.mainLimit = 1 << 62
			panic(hangPanic{})
		}
		return
	}
	me := sc.cur
	t := &sc.tasks[me]
	t.step++
	if t.step > t.budget {
		t.budget = 1 << 62
		panic(hangPanic{})
	}
	sc.blockRun = 0
	if sc.replay {
		for t.swPos < len(t.sw) {
			s := &t.sw[t.swPos]
			if s.Op > t.op || (s.Op == t.op && s.Step > t.step) {
				return
			}
			t.swPos++
			if s.Op == t.op && s.Step == t.step && s.To < sc.n && !sc.tasks[s.To].done && s.To != me {
				switchTo(me, s.To, site)
				return
			}
		}
		return
	}
	sc.countdown--
	if sc.countdown > 0 {
		return
	}
	drawCountdown()
	to := pickOther(me)
	if to >= 0 {
		record(me, t.op, t.step, to)
		switchTo(me, to, site)
	}
}

//go:norace
func drawCountdown() {
	den := sc.den
	if sc.nrec > 6000 && den < 400 {
		den = 400 // a long run: from here on, only now and then
	}
	if den == 0 || sc.nrec >= maxRec-16 {
		sc.countdown = 1 << 60
		return
	}
	sc.countdown = 1 + int64(nextRand(&sc.rng)%(2*den))
}

//go:norace
func record(me, op int, step int64, to int) {
	if sc.nrec < maxRec {
		sc.rec[sc.nrec] = Switch{me, op, step, to}
		sc.nrec++
	}
}

//go:norace
func pickOther(me int) int {
	var cand [maxTasks]int
	k := 0
	for i := 0; i < sc.n; i++ {
		if i != me && !sc.tasks[i].done {
			cand[k] = i
			k++
		}
	}
	if k == 0 {
		return -1
	}
	return cand[nextRand(&sc.rng)%uint64(k)]
}

//go:norace
func switchTo(me, to, site int) {
	sc.midop++
	sc.hash = (sc.hash ^ uint64(me*8+to) ^ uint64(site+1)<<8) * 0x100000001b3
	if me >= 0 && site >= 0 {
		sc.resume[me] = site + 1
		b := (uint64(site)*2654435761 + uint64(sc.resume[to])*40503) % (1 << 20)
		if sc.pairs[b>>6]&(1<<(b&63)) == 0 {
			sc.pairs[b>>6] |= 1 << (b & 63)
			sc.npairs++
		}
	}
	sc.cur = to
	if me >= 0 {
		waitTurn(me)
	}
}

//go:norace
func waitTurn(me int) {
	for sc.cur != me {
		runtime.Gosched()
	}
}

// simBlock is called by verifsync when the running task cannot go on.
//
//go:norace
func simBlock() {
	sc.steps++
	if sc.cur < 0 {
		panic(deadlockPanic{})
	}
	me := sc.cur
	sc.blockRun++
	if sc.blockRun > 1000 {
		panic(deadlockPanic{})
	}
	for k := 1; k < sc.n; k++ {
		to := (me + k) % sc.n
		if !sc.tasks[to].done {
			sc.cur = to
			waitTurn(me)
			return
		}
	}
	panic(deadlockPanic{})
}

//go:norace
func beginOp(task, op int, budget int64) {
	t := &sc.tasks[task]
	t.op = op
	t.step = 0
	t.budget = budget
	// An operation boundary is a scheduling point, too.
	simYield(-1)
}

//go:norace
func taskDone(me int) {
	t := &sc.tasks[me]
	t.done = true
	t.op++
	to := -1
	if sc.replay {
		for t.swPos < len(t.sw) {
			s := &t.sw[t.swPos]
			t.swPos++
			if s.Step == -1 && s.To < sc.n && !sc.tasks[s.To].done {
				to = s.To
			}
		}
		if to < 0 {
			for i := 0; i < sc.n; i++ {
				if !sc.tasks[i].done {
					to = i
					break
				}
			}
		}
	} else {
		to = pickOther(me)
		if to >= 0 {
			record(me, 1<<30, -1, to)
		}
	}
	if to >= 0 {
		sc.cur = to
	} else {
		sc.cur = -2
	}
}

//go:norace
func setupSched(n int, seed, den uint64, replay bool, sw []Switch, start int) int {
	sc.n = n
	sc.rng = seed
	sc.den = den
	sc.replay = replay
	sc.nrec = 0
	sc.blockRun = 0
	sc.hash = 0xcbf29ce484222325
	for i := 0; i < n; i++ {
		sc.tasks[i] = taskState{budget: 1 << 62}
		sc.resume[i] = 0
		for _, s := range sw {
			if s.Task == i {
				sc.tasks[i].sw = append(sc.tasks[i].sw, s)
			}
		}
	}
	if !replay {
		drawCountdown()
		start = int(nextRand(&sc.rng) % uint64(n))
	}
	if start >= n {
		start = 0
	}
	return start
}

//go:norace
func setCur(i int) { sc.cur = i }

//go:norace
func setMainBudget(b int64) {
	if b <= 0 {
		sc.mainLimit = 1 << 62
	} else {
		sc.mainLimit = sc.steps + b
	}
}

//go:norace
func curTask() int { return sc.cur }

// runTasks runs n tasks under the scheduler and returns the decisions made.
func runTasks(p *Plan, n int, body func(task int)) {
	if n == 0 {
		return
	}
	if n > maxTasks {
		panic("too many tasks")
	}
	start := setupSched(n, p.SchedSeed, uint64(p.SwitchDen), p.Replay, p.Switches, p.Start)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			waitTurn(i)
			body(i)
			taskDone(i)
		}(i)
	}
	setCur(start)
	wg.Wait()
	setCur(-1)
	setMainBudget(0)
	if !p.Replay {
		p.Start = start
		p.Switches = append([]Switch(nil), sc.rec[:sc.nrec]...)
	}
}

// mailboxes hand plain positions between tasks without synchronisation that
// would order the tasks' other accesses.
var mail [4]mailSlot

type mailSlot struct {
	full  bool
	world int
	index uint32
	depth int
	src   string
}

//go:norace
func mailPut(i, world int, index uint32, src string, depth int) {
	mail[i] = mailSlot{true, world, index, depth, src}
}

//go:norace
func mailGet(i int) mailSlot { return mail[i] }

//go:norace
func mailReset() {
	for i := range mail {
		mail[i] = mailSlot{}
	}
}
