package main

import (
	"bytes"
	"sort"
	"strings"

	"github.com/deNULL/dawg"
)

// buildTask drives builders through histories of inserts and finishes (C08) and
// compares what different histories of the same content build (C09).

type builderSlot struct {
	b    *dawg.DawgBuilder
	m    map[string]int32
	last string
	any  bool
	gens int
}

type builtDict struct {
	d    *dawg.Dictionary
	m    *Model
	lite bool
}

type buildTask struct {
	t       *taskCtx
	slots   [3]builderSlot
	dawgs   [3]*dawg.Dawg
	scratch []byte
	built   []builtDict
	// automata no dictionary was built from yet
	pending [3]*Model
	autos   []automaton // C14: automata still in use
	used    Objs        // objects that were built into before
}

type automaton struct {
	d    *dawg.Dawg
	m    *Model
	want [6]int
}

func newBuildTask(t *taskCtx) *buildTask { return &buildTask{t: t} }

func (b *buildTask) slot(i, hash int) *builderSlot {
	s := &b.slots[((i%3)+3)%3]
	if s.b == nil {
		s.b = newBuilder(hash)
		s.m = map[string]int32{}
	}
	return s
}

// insert calls one of the insert functions and checks the answer.
func (b *buildTask) insert(s *builderSlot, key string, val int32, style int) {
	want := val >= 0 && !strings.Contains(key, "\x00") && (!s.any || key >= s.last)
	var got bool
	switch style % 5 {
	case 0: // a buffer the caller keeps using
		b.scratch = append(b.scratch[:0], key...)
		got = s.b.InsertKeyValue(b.scratch, len(key), val)
		for i := range b.scratch {
			b.scratch[i] ^= 0x55
		}
	case 1:
		got = s.b.InsertStringValue(key, val)
	case 2: // only a part of the buffer is the key
		b.scratch = append(append(b.scratch[:0], key...), "\x00zz"...)
		got = s.b.InsertKeyValue(b.scratch, len(key), val)
		if string(b.scratch) != key+"\x00zz" {
			fail("buffer", "insert of %q changed the buffer of the caller", key)
		}
		for i := range b.scratch {
			b.scratch[i] = 0xff
		}
	case 3:
		val = 0
		want = !strings.Contains(key, "\x00") && (!s.any || key >= s.last)
		got = s.b.InsertString(key)
	case 4:
		got = s.b.InsertKeyValue([]byte(key), len(key), val)
	}
	if got != want {
		last := "nothing"
		if s.any {
			last = s.last
		}
		fail("insert", "insert of %q with value %d after %q: accepted=%v, want %v", key, val, last, got, want)
	}
	if !want {
		b.t.faults["insert-refused"]++
		return
	}
	if s.any && key == s.last {
		b.t.faults["insert-repeated"]++
	}
	s.m[key] = val
	s.last, s.any = key, true
}

func modelOf(m map[string]int32) *Model {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	kv := make([]KV, len(keys))
	for i, k := range keys {
		kv[i] = KV{Bytes(k), m[k]}
	}
	return newModel(kv)
}

// finish ends a generation and returns the automaton with its model.
func (b *buildTask) finish(s *builderSlot, dslot int, reuse, clear bool) (*dawg.Dawg, *Model) {
	i := ((dslot % 3) + 3) % 3
	if b.dawgs[i] == nil || !reuse {
		b.dawgs[i] = dawg.NewDawg()
	} else {
		b.t.faults["automaton-reused"]++
		for j := len(b.autos) - 1; j >= 0; j-- {
			if b.autos[j].d == b.dawgs[i] {
				b.autos = append(b.autos[:j], b.autos[j+1:]...)
			}
		}
		if clear {
			b.dawgs[i].Clear()
			b.t.faults["automaton-cleared"]++
		}
	}
	b.pending[i] = nil
	d := b.dawgs[i]
	if s.gens > 0 {
		b.t.faults["builder-reused"]++
	}
	s.gens++
	s.b.Finish(d)
	m := modelOf(s.m)
	s.m = map[string]int32{}
	s.any, s.last = false, ""
	return d, m
}

// anyKey picks a key for a refused insert: the next one, any other of the
// content or one that branches off from it, so that nothing that is inserted
// later has to share the traces such an insert may leave.
func anyKey(r *Rng, kv []KV, i int) string {
	if r.P(1, 3) {
		return string(kv[i].K)
	}
	j := r.N(len(kv))
	if i > 0 && r.P(1, 3) {
		j = i - 1
	}
	k := string(kv[j].K)
	if r.P(1, 2) {
		p := r.N(len(k) + 1)
		k = k[:p] + string([]byte{byte(1 + r.N(255))}) + genKey(r, r.N(4), 1, nil)
	}
	return k
}

// below makes a key that comes before the last inserted one, kv[i-1].
func below(r *Rng, kv []KV, i int) string {
	if r.P(1, 3) {
		return string(kv[r.N(i-1)].K)
	}
	k := string(kv[i-1].K)
	if len(k) == 0 {
		return string(kv[r.N(i-1)].K)
	}
	p := r.N(len(k))
	if k[p] == 1 || r.P(1, 4) {
		return k[:p]
	}
	return k[:p] + string([]byte{byte(1 + r.N(int(k[p])-1))}) + genKey(r, r.N(4), 1, nil)
}

// detour takes a builder through refused and repeated inserts on the way to a
// content, without changing what is accepted in the end.
func (b *buildTask) feed(s *builderSlot, kv []KV, flags int, seed uint64) {
	r := &Rng{seed}
	for i := range kv {
		k, v := string(kv[i].K), kv[i].V
		if flags&1 != 0 && r.P(1, 5) { // first with another value
			b.insert(s, k, int32(r.U64()&0x7fffffff), r.N(5))
		}
		if flags&2 != 0 && i > 1 && r.P(1, 6) { // out of order
			b.insert(s, below(r, kv, i), v, r.N(3))
		}
		if flags&4 != 0 && r.P(1, 6) { // not allowed
			x := anyKey(r, kv, i)
			if r.P(1, 2) {
				b.insert(s, x, -1-int32(r.N(1<<30)), r.N(3))
			} else {
				p := r.N(len(x) + 1)
				b.insert(s, x[:p]+"\x00"+x[p:], v, r.N(3))
			}
		}
		style := []int{0, 1, 2, 4}[r.N(4)]
		if v == 0 && r.P(1, 3) {
			style = 3
		}
		b.insert(s, k, v, style)
		if flags&8 != 0 && r.P(1, 6) {
			b.insert(s, k, v, style)
		}
	}
}

func (b *buildTask) exec(op *Op) bool {
	t := b.t
	switch op.Kind {
	case "new":
		b.slots[((op.A%3)+3)%3] = builderSlot{}
		b.slot(op.A, op.B)
	case "ins":
		b.insert(b.slot(op.A, 0), string(op.S), int32(op.C), op.B)
	case "bulk":
		if op.W < len(t.ws) {
			s := b.slot(op.A, op.C%97)
			if s.any {
				return true
			}
			b.feed(s, t.ws[op.W].kv, op.B, uint64(op.C))
		}
	case "fin":
		t.checks++
		s := b.slot(op.A, 0)
		d, m := b.finish(s, op.B, op.C%2 == 1, op.C%16 > 7)
		if t.p.Prop == "C14" {
			want := minimalStats(m)
			checkMinimal(d, m, want)
			if len(b.autos) < 64 {
				b.autos = append(b.autos, automaton{d, m, want})
			}
			if op.C%32 > 20 && m.n() < 5000 {
				derive(d)
			}
			t.note("fin", m.n(), want[1], want[2])
			return true
		}
		if op.C%8 > 5 && m.n() < 5000 {
			b.pending[((op.B%3)+3)%3] = m // build it later
			return true
		}
		dict := d.Build()
		if dict == nil {
			fail("build", "dictionary could not be built")
		}
		lite := m.n() > 5000
		checkDict(dict, m, lite, uint64(op.C))
		t.note("fin %d", m.n())
		if len(b.built) < 8 && !lite {
			b.built = append(b.built, builtDict{dict, m, lite})
		}
	case "turn":
		// a whole generation of a builder
		if op.W < len(t.ws) {
			b.exec(&Op{Kind: "bulk", W: op.W, A: op.A, B: op.B, C: op.C})
			b.exec(&Op{Kind: "fin", A: op.A, B: op.B, C: op.C})
		}
	case "recheck":
		// What was built earlier is unaffected by what happened since.
		t.checks++
		for _, a := range b.autos {
			checkMinimal(a.d, a.m, a.want)
		}
		for i, m := range b.pending {
			if m == nil {
				continue
			}
			b.pending[i] = nil
			dict := b.dawgs[i].Build()
			if dict == nil {
				fail("build", "dictionary could not be built")
			}
			checkDict(dict, m, false, uint64(op.C))
			t.faults["automaton-kept-before-building"]++
			b.built = append(b.built, builtDict{dict, m, false})
		}
		for i, x := range b.built {
			for j := 0; j < 4; j++ {
				r := &Rng{uint64(op.C + j*131 + i)}
				checkLookup(x.d, x.m, genQuery(r, x.m), -1)
			}
			if i == op.C%(len(b.built)) {
				checkDict(x.d, x.m, x.lite, uint64(op.C))
			}
		}
	case "same":
		// Build a content again by another history and compare everything.
		if op.W >= len(t.ws) {
			return true
		}
		t.checks++
		w := t.ws[op.W]
		s := b.slot(op.A, op.C%131)
		if s.any { // an abandoned history first
			b.finish(s, 0, false, false)
		}
		b.feed(s, w.kv, op.B, uint64(op.C))
		d, _ := b.finish(s, op.A, op.C%3 == 1, op.C%4 == 1)
		if got := statsOf(d); got != w.stats {
			fail("stats", "counts (size, states, transitions, merged states, merging states, merged transitions) are %v for another history of the same content, want %v", got, w.stats)
		}
		var o Objs
		if op.C%5 == 2 {
			b.unused(w, d, &o)
			deriveRest(d, &o)
		} else if op.C%7 == 3 {
			b.deriveInto(d, &o)
		} else {
			o = derive(d)
		}
		b.compare(w, &o)
		t.note("same %d", len(w.kv))
	case "derive":
		// Derive artifacts from the shared automaton.
		if op.W >= len(t.ws) {
			return true
		}
		t.checks++
		w := t.ws[op.W]
		if w.dawg == nil { // it is not stored
			return true
		}
		o := Objs{dict: w.dict}
		switch op.A % 8 {
		case 0:
			o = derive(w.dawg)
		case 7:
			b.deriveInto(w.dawg, &o)
		case 1:
			o = Objs{dict: w.dawg.Build()}
		case 6:
			b.unused(w, w.dawg, &o)
		case 2:
			o.guide = dawg.BuildGuide(w.dawg, w.dict)
			o.dict = nil
		case 3:
			o.ranked = dawg.BuildRankedGuide(w.dawg, w.dict)
			o.dict = nil
		case 4:
			o = Objs{idx: dawg.BuildIndex(w.dict, w.guide)}
		case 5:
			o = Objs{ridx: dawg.BuildIndex(w.dict, w.ranked)}
		}
		b.compare(w, &o)
		if got := statsOf(w.dawg); got != w.stats {
			fail("stats", "counts of the shared automaton changed from %v to %v", w.stats, got)
		}
		t.note("derive %d", op.A%8)
	case "partial":
		// A history that is thrown away half-way.
		if op.W < len(t.ws) {
			s := b.slot(op.A, op.C%7)
			if s.any {
				return true
			}
			kv := t.ws[op.W].kv
			b.feed(s, kv[:op.C%(len(kv)+1)], op.B, uint64(op.C))
		}
	default:
		return false
	}
	return true
}

// deriveInto builds a dictionary, a guide and an index into objects that were
// used for another content before, in part with a new guide.
func (b *buildTask) deriveInto(d *dawg.Dawg, o *Objs) {
	u := &b.used
	if u.dict == nil {
		u.dict, u.guide, u.idx = dawg.NewDictionary(), dawg.NewGuide(), dawg.NewIndex()
	} else {
		b.t.faults["built-into-used-objects"]++
	}
	if !dawg.NewDictionaryBuilder(d, u.dict).BuildDictionary() {
		fail("build", "dictionary could not be built")
	}
	if !dawg.NewGuideBuilder(d, u.dict, u.guide).Build() {
		fail("build", "guide could not be built")
	}
	if !dawg.NewIndexBuilder(u.dict, u.guide, u.idx).Build() {
		fail("build", "index could not be built")
	}
	*o = *u
}

// unused builds a dictionary and compares the number of unused units.
func (b *buildTask) unused(w *World, d *dawg.Dawg, o *Objs) {
	n := uint32(b.t.id) + 77
	if o.dict = d.BuildWithUnused(&n); o.dict == nil {
		fail("build", "dictionary could not be built")
	}
	if n != w.unused {
		fail("stats", "%d units are reported as unused for the same content, want %d", n, w.unused)
	}
}

func (b *buildTask) compare(w *World, o *Objs) {
	for a := 0; a < nArts; a++ {
		if !o.has(a) {
			continue
		}
		if img := o.image(a); !bytes.Equal(img, w.img[a]) {
			at := 0
			for at < len(img) && at < len(w.img[a]) && img[at] == w.img[a][at] {
				at++
			}
			fail("image", "the %s built for the same content differs from byte %d on (%d and %d bytes)", artNames[a], at, len(img), len(w.img[a]))
		}
	}
}

func genHash(r *Rng) int {
	return []int{0, 1, 1, 2, 3, 4, 5, 8, 16, 37, 64, 255, 256, 1000}[r.N(14)]
}

// genBuild makes a C08 run.
func genBuild(p *Plan, r *Rng, run int, tier string) {
	nt := 1 + r.N(4)
	if big := bigRun(run); big != 0 {
		c := genContent(r, []int{big})
		c.Hash = 0
		p.Contents = []Content{c}
		p.SwitchDen = 5000
		flags := r.N(16)
		p.Tasks = [][]Op{{{Kind: "new", A: 0, B: genHash(r)}, {Kind: "bulk", A: 0, B: flags, C: r.N(1 << 30)}, {Kind: "fin", A: 0, C: r.N(1 << 30)}}}
		if c.Gen.N < 100000 {
			p.Tasks[0] = append(p.Tasks[0], Op{Kind: "bulk", A: 0, B: 15 - flags, C: r.N(1 << 30)}, Op{Kind: "fin", A: 0, B: 0, C: 1})
		}
		return
	}
	if n := wrapRun(p.Prop, run); n > 0 {
		wrapBuild(p, r, n, "turn")
		return
	}
	long := longRun(run)
	if long == 2 {
		nt = 12 + r.N(maxTasks-11)
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		gens := 1 + r.N(4)
		switch long {
		case 1:
			gens = 60 + r.N(60)
		case 2:
			gens = 1 + r.N(2)
		}
		for g := 0; g < gens; g++ {
			a := r.N(3)
			if r.P(1, 3) {
				ops = append(ops, Op{Kind: "new", A: a, B: genHash(r)})
			}
			c := genContent(r, sizesMixed[:15])
			if long > 0 {
				c = genContent(r, []int{0, 1, 1})
			} else if r.P(1, 6) {
				c = genContent(r, []int{3})
			}
			kv := materialise(&c)
			odd := r.N(4) // how unruly the history is
			for i, x := range kv {
				k := string(x.K)
				if odd > 0 && r.P(odd, 12) {
					switch r.N(6) {
					case 0, 1:
						if i > 0 {
							y := kv[0].K
							if i > 1 {
								y = Bytes(below(r, kv, i))
							}
							ops = append(ops, Op{Kind: "ins", A: a, B: r.N(5), C: int(x.V), S: y})
						}
					case 2:
						ops = append(ops, Op{Kind: "ins", A: a, B: []int{0, 1, 2, 4}[r.N(4)], C: -1 - r.N(1<<30), S: Bytes(anyKey(r, kv, i))})
					case 3:
						y := anyKey(r, kv, i)
						q := r.N(len(y) + 1)
						ops = append(ops, Op{Kind: "ins", A: a, B: r.N(5), C: int(x.V), S: Bytes(y[:q] + "\x00" + y[q:])})
					case 4: // a strict prefix or an extension
						if len(k) > 0 {
							ops = append(ops, Op{Kind: "ins", A: a, B: r.N(5), C: r.N(100), S: Bytes(k[:r.N(len(k))])})
						}
					case 5:
						ops = append(ops, Op{Kind: "ins", A: a, B: r.N(5), C: int(r.U64() & 0x7fffffff), S: x.K})
					}
				}
				style := r.N(5)
				ops = append(ops, Op{Kind: "ins", A: a, B: style, C: int(x.V), S: x.K})
				if r.P(odd, 20) {
					ops = append(ops, Op{Kind: "ins", A: a, B: r.N(5), C: int(genValue(r, r.N(nValStyles), i, k)), S: x.K})
				}
			}
			ops = append(ops, Op{Kind: "fin", A: a, B: r.N(3), C: r.N(1 << 20)})
			if r.P(1, 3) {
				ops = append(ops, Op{Kind: "recheck", C: r.N(1 << 20)})
			}
		}
		ops = append(ops, Op{Kind: "recheck", C: r.N(1 << 20)})
		p.Tasks = append(p.Tasks, ops)
	}
}

// genSame makes a C09 run.
func genSame(p *Plan, r *Rng, run int, tier string) {
	if n := wrapRun(p.Prop, run); n > 0 {
		wrapBuild(p, r, n, "same")
		return
	}
	nw := 1 + r.N(2)
	sizes := sizesMixed
	big := bigRun(run)
	large := big != 0
	if large {
		sizes, nw = []int{big}, 1
	}
	if longRun(run) > 0 && !large {
		sizes = []int{0, 1, 1, 2}
	}
	for i := 0; i < nw; i++ {
		p.Contents = append(p.Contents, genContent(r, sizes))
	}
	if large {
		p.SwitchDen = 20000
		p.Tasks = [][]Op{{{Kind: "new", B: genHash(r)}, {Kind: "same", A: 0, B: r.N(16), C: r.N(1 << 30)}}}
		if p.Contents[0].Gen.N < 100000 {
			p.Tasks = append(p.Tasks, []Op{{Kind: "derive", A: 0}}, []Op{{Kind: "derive", A: 1 + r.N(5)}})
		}
		return
	}
	nt := 1 + r.N(4)
	long := longRun(run)
	if long == 2 {
		nt = 12 + r.N(maxTasks-11)
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		n := 1 + r.N(4)
		if long == 1 {
			n = 40 + r.N(60)
		}
		for ; n > 0; n-- {
			w := r.N(nw)
			switch r.N(5) {
			case 0, 1:
				if r.P(1, 2) {
					ops = append(ops, Op{Kind: "new", A: r.N(3), B: genHash(r)})
				}
				if r.P(1, 3) {
					a := r.N(3)
					ops = append(ops, Op{Kind: "partial", W: r.N(nw), A: a, B: r.N(16), C: r.N(1 << 20)})
					if r.P(1, 2) {
						ops = append(ops, Op{Kind: "fin", A: a, B: r.N(3), C: r.N(1 << 20)})
					}
				}
				ops = append(ops, Op{Kind: "same", W: w, A: r.N(3), B: r.N(16), C: r.N(1 << 20)})
			default:
				ops = append(ops, Op{Kind: "derive", W: w, A: r.N(8)})
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
}

// wrapBuild makes a run in which a builder is used very often, so that a number
// of generations kept in 8 or 16 bits would start again: some content, many small
// ones, and then larger ones again.
func wrapBuild(p *Plan, r *Rng, n int, kind string) {
	for _, size := range []int{2, 0, 2, 1, 1, 1, 1, 1} {
		p.Contents = append(p.Contents, genContent(r, []int{size}))
	}
	a, b := r.N(3), r.N(16)
	turn := func(ws ...int) Op { return Op{Kind: kind, W: ws[r.N(len(ws))], A: a, B: b, C: r.N(1 << 20)} }
	ops := []Op{{Kind: "new", A: a, B: genHash(r)}}
	for i := 2 + r.N(4); i > 0; i-- {
		ops = append(ops, turn(0, 2))
	}
	ops = append(ops, turn(1))
	ops[len(ops)-1].N = n - 7 - r.N(3)
	for i := 0; i < 10; i++ {
		ops = append(ops, turn(0, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7))
	}
	p.SwitchDen = 5000
	p.Tasks = [][]Op{ops}
}
