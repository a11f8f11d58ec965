package main

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"strings"
	"time"

	"github.com/deNULL/dawg"
	"github.com/deNULL/dawg/verifhook"
)

// Result is what one execution shows.
type Result struct {
	Viol      *Violation
	Steps     int64
	Preempt   int64
	Checks    int64
	Faults    Faults
	SchedHash uint64
	TraceHash uint64
	Ops       int
}

// taskCtx is the private state of a task.
type taskCtx struct {
	id     int
	p      *Plan
	ws     []*World
	curs   [4]*Cursor
	rcurs  [4]*Cursor
	hold   Objs
	holdW  [nArts]int // world of the held artifact, -1: none
	users  [4]*heldUser
	medium []byte
	medW   int
	medA   []int
	medOK  int // number of artifacts that are complete on the medium
	faults Faults
	checks int64
	viol   *Violation
	trace  uint64
	kept   []keptResult

	b     *buildTask
	u     *utfcTask
	extra func()
}

type keptResult struct {
	what string
	b    []byte // the slice handed out
	s    string // or the string
	want string
}

func newTaskCtx(id int, p *Plan, ws []*World) *taskCtx {
	t := &taskCtx{id: id, p: p, ws: ws, faults: Faults{}, trace: 0xcbf29ce484222325}
	for i := range t.holdW {
		t.holdW[i] = -1
	}
	t.medW = -1
	return t
}

// note adds to the trace of the task. It avoids fmt, whose pools would order
// the tasks in the eyes of the race detector.
func (t *taskCtx) note(what string, v ...interface{}) {
	h := t.trace
	str := func(s string) {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 0x100000001b3
		}
		h = (h ^ 0x1ff) * 0x100000001b3
	}
	str(what)
	for _, x := range v {
		switch x := x.(type) {
		case string:
			str(x)
		case []byte:
			str(string(x))
		case int:
			h = (h ^ uint64(x)) * 0x100000001b3
		case uint32:
			h = (h ^ uint64(x)) * 0x100000001b3
		case bool:
			if x {
				h ^= 0x5555
			}
			h *= 0x100000001b3
		default:
			panic("note")
		}
	}
	t.trace = h
}

func opBudget(size int) int64 { return 300000000 + 20000*int64(size) }

// protect runs f and turns panics of the code under test into violations.
func protect(prop string, task, op int, f func()) (v *Violation) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case *Violation:
			x.Prop, x.Task, x.Op = prop, task, op
			v = x
		case hangPanic:
			v = &Violation{prop, "hang", "operation does not finish within its step budget", task, op}
		case deadlockPanic:
			v = &Violation{prop, "deadlock", "no task can proceed", task, op}
		case infraPanic:
			panic(r)
		default:
			v = &Violation{prop, "panic", fmt.Sprintf("panic: %v at %s", r, panicSite()), task, op}
		}
	}()
	f()
	return nil
}

func panicSite() string {
	var pcs [64]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "deNULL/dawg") && !strings.Contains(f.Function, "verif") {
			fn := f.Function
			if i := strings.LastIndex(fn, "/"); i >= 0 {
				fn = fn[i+1:]
			}
			return fn
		}
		if !more {
			return "unknown"
		}
	}
}

// Execute runs a plan.
func Execute(p *Plan) *Result {
	// Maps of the library are iterated in an order that depends on the seed and
	// the operation only; likewise unseeded random numbers and its clock.
	verifhook.SetClock(mix(p.RunSeed, 3))
	verifhook.SetRand(mix(p.RunSeed, 1) | 1)
	defer verifhook.SetRand(0)
	switch p.Prop {
	case "C11", "C12":
		return executeTool(p)
	}
	res := &Result{Faults: Faults{}}
	steps0 := sc.steps
	mid0 := sc.midop
	mailReset()
	if p.Fresh {
		verifhook.Reset()
	}
	giant := false
	for _, c := range p.Contents {
		giant = giant || c.Gen != nil && c.Gen.N >= 100000
	}
	if giant {
		// too long to be preempted statement by statement
		y := verifhook.Yield
		verifhook.Yield = nil
		defer func() { verifhook.Yield = y }()
	}
	loadGoldens()
	var ws []*World
	size := 0
	res.Viol = protect(p.Prop, -1, -1, func() {
		setMainBudget(1 << 40)
		for i := range p.Contents {
			total := 0
			for _, x := range materialise(&p.Contents[i]) {
				total += len(x.K)
			}
			setMainBudget(1000000000 + 20000*int64(total))
			t0 := time.Now()
			verifhook.SetRand(mix(p.RunSeed, uint64(1000+i)) | 1)
			w := buildWorld(&p.Contents[i], res.Faults)
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "world", p.Run, p.Contents[i].Gen, w.m.n(), w.m.size, len(w.img[0])/4, time.Since(t0))
			}
			size += w.m.size
			ws = append(ws, w)
		}
		if p.Restart {
			verifhook.Reset()
			res.Faults["process-restarted"]++
			for i, w := range ws {
				w.reload(p.Contents[i].Reload, res.Faults)
			}
		}
	})
	setMainBudget(0)
	if res.Viol != nil {
		return res
	}
	ctx := make([]*taskCtx, len(p.Tasks))
	res.Viol = protect(p.Prop, -1, -1, func() {
		setMainBudget(400000000)
		for i := range ctx {
			ctx[i] = newTaskCtx(i, p, ws)
			switch p.Prop {
			case "C08", "C09", "C14":
				ctx[i].b = newBuildTask(ctx[i])
			case "C10":
				ctx[i].u = newUtfcTask(ctx[i])
			}
		}
	})
	setMainBudget(0)
	if res.Viol != nil {
		return res
	}
	runTasks(p, len(p.Tasks), func(id int) {
		t := ctx[id]
		for i := range p.Tasks[id] {
			op := &p.Tasks[id][i]
			budget := opBudget(size)
			for n := 0; n <= op.N; n++ {
				beginOp(id, i, budget)
				verifhook.SetRand(mix(p.RunSeed, uint64(1000000*id+2000+i), uint64(n)) | 1)
				v := protect(p.Prop, id, i, func() { t.exec(op) })
				if v != nil {
					t.viol = v
					return
				}
			}
			if op.N > 0 {
				t.faults["used-many-times"]++
			}
		}
	})
	res.SchedHash = sc.hash
	res.TraceHash = sc.hash
	for _, t := range ctx {
		if t.viol != nil && res.Viol == nil {
			res.Viol = t.viol
		}
		res.Checks += t.checks
		res.TraceHash = mix(res.TraceHash, t.trace)
		for k, n := range t.faults {
			res.Faults[k] += n
		}
		res.Ops += len(p.Tasks[t.id])
	}
	if res.Viol == nil {
		res.Viol = protect(p.Prop, -1, -1, func() {
			setMainBudget(0)
			// Results handed out earlier are as they were, and nothing shared changed.
			for _, t := range ctx {
				for _, k := range t.kept {
					if string(k.b)+k.s != k.want {
						fail("result-changed", "%s was %q when returned and is %q now", k.what, k.want, string(k.b)+k.s)
					}
				}
			}
			for i, w := range ws {
				for a := 0; a < nArts; a++ {
					if !bytes.Equal(w.image(a), w.img[a]) {
						fail("image", "the %s of content %d is not what it was before the run", artNames[a], i)
					}
				}
				if w.dawg != nil && w.stats != statsOf(w.dawg) {
					fail("image", "the automaton of content %d is not what it was before the run", i)
				}
			}
		})
	}
	res.Steps = sc.steps - steps0
	res.Preempt = sc.midop - mid0
	return res
}

func (t *taskCtx) keep(what string, b []byte) {
	if len(t.kept) < 400 {
		t.kept = append(t.kept, keptResult{what: what, b: b, want: string(b)})
	}
}

func (t *taskCtx) keepString(what, s string) {
	if len(t.kept) < 400 {
		t.kept = append(t.kept, keptResult{what: what, s: s, want: strings.Clone(s)})
	}
}

func (t *taskCtx) exec(op *Op) {
	if t.b != nil && t.b.exec(op) {
		return
	}
	if t.u != nil && t.u.exec(op) {
		return
	}
	if op.W >= len(t.ws) {
		return
	}
	w := t.ws[op.W]
	t.checks++
	q := string(op.S)
	switch op.Kind {
	case "lookup":
		checkLookup(w.dict, w.m, q, op.A%6)
		t.note("lookup %q", q)
	case "walk":
		t.walk(w, op)
	case "mailput":
		// walk part of the query and publish the position
		d := op.A % (len(q) + 1)
		index := w.dict.Root()
		if w.dict.FollowStringLen(q, d, &index) != w.m.isPrefix(q[:d]) {
			fail("walk", "FollowStringLen(%q, %d), want %v", q, d, w.m.isPrefix(q[:d]))
		}
		if w.m.isPrefix(q[:d]) {
			mailPut(op.B%len(mail), op.W, index, q[:d], d)
		}
	case "mailget":
		s := mailGet(op.B % len(mail))
		if s.full && s.world < len(t.ws) {
			w := t.ws[s.world]
			index := s.index
			t.stepOn(w, &index, s.src, q)
			t.faults["position-handed-over"]++
		}
	case "exact":
		checkExact(w.dict, w.m, 40)
	case "cstart", "rstart":
		cs := &t.curs
		if op.Kind == "rstart" {
			cs = &t.rcurs
		}
		i := op.A % len(cs)
		if cs[i] == nil || cs[i].w != w {
			cs[i] = newCursor(w, &w.Objs, op.Kind == "rstart")
		} else if cs[i].started && (cs[i].pos < cs[i].hi || len(cs[i].left) > 0) {
			t.faults["enumeration-abandoned"]++
		}
		cs[i].start(&w.Objs, q, op.B)
		t.note("start %q", q)
	case "cnext", "rnext":
		cs := &t.curs
		if op.Kind == "rnext" {
			cs = &t.rcurs
		}
		if c := cs[op.A%len(cs)]; c != nil {
			c.next(op.B, func(got string) {
				t.note("%s", got)
				t.keepString("a completed key", got)
			})
		}
	case "cturn", "rturn":
		// start a cursor again and look at the first answers
		start, next := *op, *op
		start.Kind, next.Kind, next.B = op.Kind[:1]+"start", op.Kind[:1]+"next", op.C
		t.exec(&start)
		if op.C > 0 {
			t.exec(&next)
		}
	case "complete":
		checkComplete(w, &w.Objs, op.A%2 == 1, q, op.B)
	case "toindex":
		n := checkToIndex(w.pickIndexer(op.A%2 == 1, op.B%4 > 1), w.m, q, op.A%2 == 1, op.B%2 == 1)
		t.note("index %d", n)
	case "fromindex":
		n := w.m.n()
		i := uint32(op.C % (n + 2))
		if op.C%31 == 0 { // far off
			i = []uint32{dawg.NotFound, dawg.Failed, 1 << 31, 1<<31 - 1, 1 << 16}[op.C/31%5]
			if i < uint32(n) {
				i = uint32(n)
			}
		}
		b := checkFromIndex(w.pickIndexer(op.A%2 == 1, op.B%4 > 1), w.m, i, op.A%2 == 1, op.B%2 == 1)
		if op.B%2 == 1 {
			t.keep("a key found by number", b)
		}
		t.note("key %q", b)
	case "count":
		if got := w.pickIndexer(op.A%2 == 1, op.B%4 > 1).TotalCount(); got != uint32(w.m.n()) {
			fail("index", "total count = %d, want %d", got, w.m.n())
		}
	case "checkindex":
		checkIndexer(w, w.pickIndexer(op.A%2 == 1, op.B%4 > 1), op.A%2 == 1, uint64(op.C))
	case "otherindex":
		if w.otherX != nil {
			t.faults["index-by-another-order"]++
			checkIndexer(w, w.otherX, true, uint64(op.C))
		}
	case "checkall":
		checkObjs(w, &w.Objs, uint64(op.C))
	case "save":
		t.save(w, op)
	case "load":
		t.load(w, op)
	case "reload":
		t.reload(op)
	case "golden":
		t.golden(op)
	case "clear":
		t.clearHeld(op)
	case "verify":
		t.verifyHeld(op)
	default:
		panic("unknown operation " + op.Kind)
	}
}

// stepOn follows rest from a position reached by src, byte by byte.
func (t *taskCtx) stepOn(w *World, index *uint32, src, rest string) {
	cur := src
	for i := 0; i <= len(rest); i++ {
		v, ok := w.m.find(cur)
		if got := w.dict.HasValue(*index); got != ok {
			fail("walk", "HasValue at %q = %v, want %v", cur, got, ok)
		}
		if ok {
			if got := w.dict.Value(*index); got != v {
				fail("walk", "Value at %q = %d, want %d", cur, got, v)
			}
		}
		if i == len(rest) {
			break
		}
		before := *index
		want := w.m.isPrefix(cur + rest[i:i+1])
		if got := w.dict.Follow(rest[i], index); got != want {
			fail("walk", "Follow(%#02x) at %q = %v, want %v", rest[i], cur, got, want)
		}
		if !want {
			if *index != before {
				fail("walk", "failed Follow(%#02x) at %q moved the position", rest[i], cur)
			}
			break
		}
		cur += rest[i : i+1]
	}
	t.note("walk %q %q", src, cur)
}

// walk follows a query in pieces given by L (lengths), each by another function.
func (t *taskCtx) walk(w *World, op *Op) {
	q := string(op.S)
	d := w.dict
	index := d.Root()
	done := 0
	for i := 0; done < len(q); i++ {
		n := 1
		if len(op.L) > 0 {
			n = op.L[i%len(op.L)]
		}
		if n < 1 {
			n = 1
		}
		if done+n > len(q) {
			n = len(q) - done
		}
		piece := q[done : done+n]
		// how many bytes of the piece can be walked
		matched := 0
		for matched < n && w.m.isPrefix(q[:done+matched+1]) {
			matched++
		}
		want := matched == n
		count := 100
		var got bool
		how := (op.A + i) % 5
		switch how {
		case 0:
			t.stepOn(w, &index, q[:done], piece)
			got = want
		case 1:
			got = d.FollowString(piece, &index)
		case 2:
			got = d.FollowStringLen(q[done:], n, &index)
		case 3:
			got = d.FollowStringCount(piece, &index, &count)
		case 4:
			got = d.FollowStringLenCount(q[done:], n, &index, &count)
		}
		if got != want {
			fail("walk", "following %q at %q = %v, want %v (function %d)", piece, q[:done], got, want, how)
		}
		if how >= 3 && count != 100+matched {
			fail("walk", "following %q at %q counts %d bytes, want %d", piece, q[:done], count-100, matched)
		}
		if !want {
			break
		}
		done += n
		v, ok := w.m.find(q[:done])
		if got := d.HasValue(index); got != ok {
			fail("walk", "HasValue at %q = %v, want %v", q[:done], got, ok)
		}
		if ok && d.Value(index) != v {
			fail("walk", "Value at %q = %d, want %d", q[:done], d.Value(index), v)
		}
	}
	t.note("walk %q %d", q, done)
}

func artList(l []int) []int {
	if len(l) == 0 {
		return []int{aDict}
	}
	var r []int
	for _, a := range l {
		r = append(r, ((a%nArts)+nArts)%nArts)
	}
	return r
}

// alignFail places a failure: anywhere, or where a block of bytes or units of
// one of the artifacts (which end at ends) might end.
func alignFail(io *IOSpec, n int, ends []int) int {
	at := io.FailAt % n
	if io.Align == 0 {
		return at
	}
	begin := 0
	for _, e := range ends {
		if e <= at {
			begin = e
		}
	}
	if io.Align&1 != 0 {
		begin += 4 // blocks counted from behind the header
	}
	if k := uint(io.Align / 2); at > begin {
		at = begin + (at-begin)>>k<<k
	}
	return at
}

// save writes artifacts of a world, one after another, to a fresh medium.
func (t *taskCtx) save(w *World, op *Op) {
	arts := artList(op.L)
	var all []byte
	var ends []int
	for _, a := range arts {
		all = append(all, w.img[a]...)
		ends = append(ends, len(all))
	}
	m := newWriter(op.IO, t.faults)
	if op.IO != nil && op.IO.Fail {
		m.failAt = alignFail(op.IO, len(all), ends)
		m.kind = op.IO.FailKind % nWriteFails
	}
	complete := 0
	crashed := false
	wr, flush := asWriter(m)
	for i, a := range arts {
		if want := len(w.img[a]); w.fileSize(a) != want {
			fail("size", "announced file size of the %s is %d, but %d bytes are written", artNames[a], w.fileSize(a), want)
		}
		before := len(m.buf)
		var ok bool
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(crashPanic); is {
						crashed = true
						return
					}
					panic(r)
				}
			}()
			ok = w.write(a, wr) && flush()
		}()
		if !bytes.HasPrefix(all, m.buf) {
			fail("torn", "what reached the medium is not a prefix of the image (artifact %s, %d bytes)", artNames[a], len(m.buf))
		}
		if crashed {
			break
		}
		if ok && m.failed {
			fail("write-lied", "writing the %s reports success although the medium failed (%s at byte %d)", artNames[a], writeFailNames[m.kind], m.failAt-before)
		}
		if ok && len(m.buf) != ends[i] {
			fail("write-lied", "writing the %s reports success with %d of %d bytes written", artNames[a], len(m.buf)-before, len(w.img[a]))
		}
		if !ok && !m.failed {
			fail("write", "writing the %s to a healthy medium reports failure", artNames[a])
		}
		if !ok {
			break
		}
		complete++
	}
	if crashed || m.failed {
		// What is complete on the medium by its bytes alone.
		complete = 0
		for _, e := range ends {
			if len(m.buf) >= e {
				complete++
			}
		}
	}
	if crashed {
		// Only the medium survives a crash.
		t.hold = Objs{}
		for i := range t.holdW {
			t.holdW[i] = -1
		}
	}
	t.medium, t.medW, t.medA, t.medOK = m.buf, op.W, arts, complete
	t.note("save %d %d", len(m.buf), complete)
	if !crashed && m.failed {
		// The object is intact and can be written again.
		a := arts[op.C%len(arts)]
		if !bytes.Equal(w.image(a), w.img[a]) {
			fail("image", "after a failed write, the %s is written differently", artNames[a])
		}
	}
}

// loadFrom loads artifacts from a stream into the held objects.
func (t *taskCtx) loadFrom(src int, arts []int, data []byte, sizes []int, op *Op) {
	r := newReader(data, op.IO, t.faults)
	if op.IO != nil && op.IO.Fail && len(data) > 0 {
		var ends []int
		for i, s := range sizes {
			if i > 0 {
				s += ends[i-1]
			}
			ends = append(ends, s)
		}
		r.failAt = alignFail(op.IO, len(data), ends)
		r.kind = op.IO.FailKind % nReadFails
	}
	r.bounds = map[int]bool{}
	end := 0
	for _, s := range sizes {
		end += s
		r.bounds[end] = true
	}
	avail := len(data)
	if r.failAt >= 0 {
		avail = r.failAt
	}
	end = 0
	rd, pos := asReader(r)
	for i, a := range arts {
		end += sizes[i]
		want := end <= avail
		into := op.B%2 == 1 && t.hold.has(a)
		var before []byte
		if into {
			before = t.hold.image(a)
		}
		start := pos()
		ok := t.hold.read(a, rd, into)
		if ok != want {
			if ok {
				fail("load-lied", "loading the %s reports success with only %d of its %d bytes delivered", artNames[a], pos()-start, sizes[i])
			}
			fail("load", "loading the %s from a complete stream (%d bytes) reports failure", artNames[a], sizes[i])
		}
		t.note("load %d %v", a, ok)
		if !ok {
			if into && !bytes.Equal(t.hold.image(a), before) {
				fail("load-damaged", "a failed load (%d of %d bytes) changed the %s it was loading into", pos()-start, sizes[i], artNames[a])
			}
			if into {
				t.faults["failed-load-into-object"]++
			}
			return
		}
		if pos() != end {
			fail("consumed", "loading the %s consumed %d bytes of the stream, its image has %d", artNames[a], pos()-start, sizes[i])
		}
		t.holdW[a] = src
		if src >= 0 && !bytes.Equal(t.hold.image(a), t.ws[src].img[a]) {
			fail("image", "the loaded %s is written differently than it was read", artNames[a])
		}
	}
}

func (t *taskCtx) load(w *World, op *Op) {
	arts := artList(op.L)
	var data []byte
	var sizes []int
	for _, a := range arts {
		data = append(data, w.img[a]...)
		sizes = append(sizes, len(w.img[a]))
	}
	if op.A%3 == 1 {
		data = append(data, "what follows in the stream"...)
	}
	t.loadFrom(op.W, arts, data, sizes, op)
}

// reload loads what the last save left on the medium.
func (t *taskCtx) reload(op *Op) {
	if t.medW < 0 {
		return
	}
	w := t.ws[t.medW]
	var sizes []int
	for _, a := range t.medA {
		sizes = append(sizes, len(w.img[a]))
	}
	t.loadFrom(t.medW, t.medA, t.medium, sizes, op)
}

// clearHeld empties a held guide, which is then one without any units.
func (t *taskCtx) clearHeld(op *Op) {
	a, c := aGuide, interface{ Clear() }(nil)
	var size int
	if op.A%2 == 0 && t.hold.guide != nil {
		c = t.hold.guide
	} else if op.A%2 == 1 && t.hold.ranked != nil {
		a, c = aRanked, t.hold.ranked
	} else {
		return
	}
	c.Clear()
	if a == aGuide {
		size = t.hold.guide.Size()
	} else {
		size = t.hold.ranked.Size()
	}
	if size != 0 || !bytes.Equal(t.hold.image(a), make([]byte, 4)) {
		fail("clear", "a cleared %s has %d units", artNames[a], size)
	}
	t.holdW[a] = -1
	t.faults["held-object-cleared"]++
	t.note("clear", a)
}

// verifyHeld checks the held objects against the worlds they come from.
func (t *taskCtx) verifyHeld(op *Op) {
	for src, w := range t.ws {
		var o Objs
		if t.hold.dict != nil && t.holdW[aDict] == src {
			o.dict = t.hold.dict
		} else {
			continue
		}
		if t.hold.guide != nil && t.holdW[aGuide] == src {
			o.guide = t.hold.guide
		}
		if t.hold.ranked != nil && t.holdW[aRanked] == src {
			o.ranked = t.hold.ranked
		}
		if t.hold.idx != nil && t.holdW[aIndex] == src {
			o.idx = t.hold.idx
		}
		if t.hold.ridx != nil && t.holdW[aRIndex] == src {
			o.ridx = t.hold.ridx
		}
		checkObjs(w, &o, uint64(op.C))
		t.useHeld(w, &o, op)
	}
	// Artifacts on their own, next to the shared dictionary of their world.
	for a := aGuide; a < nArts; a++ {
		src := t.holdW[a]
		if src < 0 || src >= len(t.ws) || !t.hold.has(a) || t.holdW[aDict] == src {
			continue
		}
		w := t.ws[src]
		o := Objs{dict: w.dict, guide: w.guide, ranked: w.ranked, idx: w.idx, ridx: w.ridx}
		switch a {
		case aGuide:
			o.guide = t.hold.guide
			checkComplete(w, &o, false, "", 0)
		case aRanked:
			o.ranked = t.hold.ranked
			checkComplete(w, &o, true, "", 0)
		case aIndex:
			o.idx = t.hold.idx
			checkIndex(w, &o, false, uint64(op.C))
		case aRIndex:
			o.ridx = t.hold.ridx
			checkIndex(w, &o, true, uint64(op.C))
		}
	}
}

var _ = dawg.NotFound

// heldUser is a cursor or an indexer over held objects. It is made once and used
// for as long as the objects are held, whatever is loaded into them.
type heldUser struct {
	objs Objs
	w    *World
	cu   *Cursor
	ix   *dawg.Indexer
}

func (t *taskCtx) useHeld(w *World, o *Objs, op *Op) {
	for i := range t.users {
		need := Objs{dict: o.dict}
		switch i {
		case 0:
			need.guide = o.guide
		case 1:
			need.ranked = o.ranked
		case 2:
			need.guide, need.idx = o.guide, o.idx
		case 3:
			need.ranked, need.ridx = o.ranked, o.ridx
		}
		if need.guide == nil && need.ranked == nil || i == 2 && need.idx == nil || i == 3 && need.ridx == nil {
			continue
		}
		u := t.users[i]
		if u == nil || u.objs != need {
			u = &heldUser{objs: need, w: w}
			if i < 2 {
				u.cu = newCursor(w, &need, i == 1)
			} else {
				u.ix = indexer(&need, i == 3)
			}
			t.users[i] = u
		} else if u.w != w {
			t.faults["cursor-kept-over-reload"]++
		}
		u.w = w
		if i < 2 {
			u.cu.w, u.cu.started = w, false
			r := &Rng{uint64(op.C + i)}
			u.cu.start(&need, genPrefix(r, w.m), op.C)
			u.cu.next(1+op.C%30, nil)
		} else {
			checkIndexer(w, u.ix, i == 3, uint64(op.C))
		}
	}
}
