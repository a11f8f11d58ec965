package main

var sizesSmall = []int{0, 0, 1, 1, 1, 1, 2, 2, 2, 3}
var sizesMixed = []int{0, 0, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 3, 3, 3, 4}

func pickDen(r *Rng) int {
	return []int{1, 3, 6, 12, 24, 48, 64, 128, 300, 1000, 5000}[r.N(11)]
}

// bigRun tells whether a run is one of the few with an unusual content, and
// which (see genContent): 5 large, 6 and 7 huge, 8 very long keys; 0: it is not.
func bigRun(run int) int {
	switch {
	case run%20000 == 3:
		return 6
	case run%20000 == 1003:
		return 7
	case run%400 == 7:
		return 5
	case run%400 == 207:
		return 8
	}
	return 0
}

// longRun tells whether a run is one of the few with a very long history (1) or
// with many tasks (2).
func longRun(run int) int {
	switch run % 150 {
	case 77:
		return 1
	case 78:
		return 2
	}
	return 0
}

// wrapRun tells how often objects are used in one of the few runs in which a
// small counter would wrap around; 0: it is not one.
func wrapRun(prop string, run int) int {
	switch {
	case run%20000 == 111 && (prop == "C04" || prop == "C05" || prop == "C06" || prop == "C07"):
		return 1 << 16
	case run%200 == 111:
		return 1 << 8
	}
	return 0
}

// Generate makes the plan of a run. It is a pure function of its arguments.
func Generate(prop string, seed uint64, run int, tier string) *Plan {
	p := &Plan{Prop: prop, Seed: seed, Run: run, RunSeed: mix(seed, strSeed(prop), uint64(run))}
	r := &Rng{p.RunSeed}
	p.SchedSeed = r.U64()
	p.SwitchDen = pickDen(r)
	if prop == "C08" || prop == "C09" || prop == "C14" {
		p.SwitchDen *= 8 // long operations
	}
	p.Fresh = run/50%2 == 0
	switch prop {
	case "C08", "C14":
		genBuild(p, r, run, tier)
	case "C09":
		genSame(p, r, run, tier)
	case "C10":
		genUtfc(p, r, run)
	case "C11":
		genToolBuild(p, r, run)
	case "C12":
		genToolQuery(p, r, run)
	default:
		genWorldRun(p, r, run, tier)
	}
	p.Restart = len(p.Contents) > 0 && r.P(1, 5)
	return p
}

func genWorldRun(p *Plan, r *Rng, run int, tier string) {
	nw := 1
	if r.P(1, 3) || p.Prop == "C02" {
		nw = 2
	}
	sizes := sizesMixed
	big := bigRun(run)
	large := big != 0
	giant := big == 6 || big == 7
	if large {
		sizes, nw = []int{big}, 1
	} else if longRun(run) > 0 || wrapRun(p.Prop, run) > 0 {
		sizes = []int{0, 1, 1, 2}
	}
	var ms []*Model
	for i := 0; i < nw; i++ {
		c := genContent(r, sizes)
		switch p.Prop {
		case "C04", "C05", "C06", "C07", "C13":
			if r.P(3, 10) && !large {
				c.Reload = genFrag(r)
			}
		}
		c.Cmp = p.Prop == "C07" && !large && r.P(1, 4)
		p.Contents = append(p.Contents, c)
		ms = append(ms, newModel(materialise(&c)))
	}
	if n := wrapRun(p.Prop, run); n > 0 && !large {
		wrapWorld(p, r, n, ms)
		return
	}
	nt := 1 + r.N(5)
	if large {
		nt = 1 + r.N(2)
		p.SwitchDen = 5000
	}
	nops := 2 + r.N(10)
	switch {
	case large:
	case longRun(run) == 1:
		nt, nops = 1+r.N(2), 500+r.N(500)
		switch p.Prop {
		case "C01", "C02", "C03":
			nops = 100 + r.N(200)
		}
	case longRun(run) == 2:
		nt = 12 + r.N(maxTasks-11)
	}
	if giant {
		nt, nops = 1, 2
		if p.Prop == "C02" || p.Prop == "C03" {
			nops = 16
		}
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		for len(ops) < nops {
			w := r.N(nw)
			ops = append(ops, genWorldOps(p.Prop, r, w, ms[w], large)...)
		}
		if giant && p.Prop == "C01" { // every artifact in this size
			ops = append(ops, Op{Kind: "load", L: []int{aDict, aGuide, aIndex, aRanked, aRIndex}, IO: genFrag(r)}, Op{Kind: "verify", C: r.N(1 << 30)})
		}
		p.Tasks = append(p.Tasks, ops)
	}
}

func genArts(r *Rng) []int {
	// order matters: it is the order in the stream
	l := []int{aDict}
	switch r.N(5) {
	case 0:
		l = append(l, aGuide)
	case 1:
		l = append(l, aRanked)
	case 2:
		l = append(l, aGuide, aIndex)
	case 3:
		l = append(l, aRanked, aRIndex)
	}
	if r.P(1, 3) {
		l = nil
		for n := 1 + r.N(4); n > 0; n-- {
			l = append(l, r.N(nArts))
		}
	}
	if r.P(1, 6) {
		l = []int{aRIndex, aRanked, aIndex, aGuide, aDict}
	}
	return l
}

func genFail(r *Rng, io *IOSpec, kinds int) *IOSpec {
	io.Fail = true
	switch r.N(4) {
	case 0:
		io.FailAt = r.N(12) // around the header
	default:
		io.FailAt = r.N(1 << 30)
	}
	if r.P(1, 3) {
		io.Align = 2*(2+r.N(20)) + r.N(2)
	}
	io.FailKind = r.N(kinds)
	if r.P(1, 2) {
		io.Err = r.N(len(errKinds))
	}
	io.WithData = r.P(1, 2)
	return io
}

func genSplits(r *Rng) []int {
	var l []int
	for n := r.N(4); n >= 0; n-- {
		l = append(l, 1+r.N(4))
	}
	return l
}

func genWorldOps(prop string, r *Rng, w int, m *Model, large bool) []Op {
	lookup := func() Op { return Op{Kind: "lookup", W: w, A: r.N(6), S: Bytes(genQuery(r, m))} }
	walk := func() Op { return Op{Kind: "walk", W: w, A: r.N(5), S: Bytes(genQuery(r, m)), L: genSplits(r)} }
	cur := func(start, next string) []Op {
		c := r.N(3)
		switch r.N(3) {
		case 0:
			return []Op{{Kind: start, W: w, A: c, B: r.N(3), S: Bytes(genPrefix(r, m))}}
		case 1:
			n := 1 + r.N(6)
			if r.P(1, 3) {
				n = m.n() + 2
			}
			return []Op{{Kind: next, W: w, A: c, B: n}}
		}
		return []Op{{Kind: start, W: w, A: c, B: r.N(3), S: Bytes(genPrefix(r, m))}, {Kind: next, W: w, A: c, B: 1 + r.N(m.n()+3)}}
	}
	idx := func() Op {
		switch r.N(8) {
		case 0:
			return Op{Kind: "count", W: w, A: r.N(2), B: r.N(4)}
		case 1, 2, 3:
			return Op{Kind: "fromindex", W: w, A: r.N(2), B: r.N(4), C: r.N(1 << 30)}
		case 4:
			if m.n() < 300 || large {
				return Op{Kind: "checkindex", W: w, A: r.N(2), B: r.N(4), C: r.N(1 << 30)}
			}
		}
		return Op{Kind: "toindex", W: w, A: r.N(2), B: r.N(4), S: Bytes(genQuery(r, m))}
	}
	save := func(failing bool) Op {
		io := genFrag(r)
		if failing {
			genFail(r, io, nWriteFails)
		}
		return Op{Kind: "save", W: w, C: r.N(1 << 20), L: genArts(r), IO: io}
	}
	load := func(failing bool) Op {
		io := genFrag(r)
		if failing {
			genFail(r, io, nReadFails)
		}
		return Op{Kind: "load", W: w, A: r.N(3), B: r.N(2), L: genArts(r), IO: io}
	}
	reload := func(failing bool) Op {
		io := genFrag(r)
		if failing {
			genFail(r, io, nReadFails)
		}
		return Op{Kind: "reload", W: w, B: r.N(2), IO: io}
	}
	verify := func() Op { return Op{Kind: "verify", C: r.N(1 << 30)} }
	checkall := Op{Kind: "checkall", W: w, C: r.N(1 << 30)}
	switch prop {
	case "C01":
		switch r.N(10) {
		case 0, 1, 2, 3:
			return []Op{save(false), reload(false), verify()}
		case 4, 5:
			return []Op{load(false), verify()}
		case 6:
			return []Op{{Kind: "golden", W: w, A: r.N(64), B: r.N(2), C: r.N(1 << 30), IO: genFrag(r)}}
		case 7:
			return []Op{save(false)}
		case 8:
			if r.P(1, 2) {
				return []Op{{Kind: "clear", A: r.N(2)}, load(false), verify()}
			}
			return []Op{lookup()}
		}
		return []Op{reload(false), verify()}
	case "C02":
		switch r.N(10) {
		case 0, 1, 2, 3, 4:
			ops := []Op{load(true)}
			if r.P(1, 2) {
				ops = append([]Op{load(false)}, ops...)
			}
			ops[len(ops)-1].B |= r.N(2)
			return append(ops, verify())
		case 5:
			// the same stream again, now complete
			a := load(true)
			b := a
			b.IO = genFrag(r)
			return []Op{a, b, verify()}
		case 6:
			if r.P(1, 4) {
				return []Op{load(false), {Kind: "clear", A: r.N(2)}, load(true), verify()}
			}
			return []Op{save(r.P(2, 3)), reload(r.P(1, 2)), verify()}
		case 7:
			return []Op{load(false), verify()}
		}
		return []Op{load(true)}
	case "C03":
		switch r.N(10) {
		case 0, 1, 2, 3, 4:
			return []Op{save(true)}
		case 5, 6:
			return []Op{save(true), reload(false), verify()}
		case 7:
			a := save(true)
			b := a
			b.IO = genFrag(r)
			return []Op{a, b, reload(false), verify()}
		case 8:
			return []Op{lookup(), save(true)}
		}
		return []Op{save(false), reload(false), verify()}
	case "C04":
		if large {
			return []Op{checkall, lookup(), walk(), save(false)}
		}
		switch r.N(20) {
		case 0, 1, 2, 3, 4, 5, 6:
			return []Op{lookup()}
		case 7, 8:
			return []Op{walk()}
		case 9:
			return []Op{{Kind: "mailput", W: w, A: r.N(64), B: r.N(4), S: Bytes(genQuery(r, m))}}
		case 10:
			return []Op{{Kind: "mailget", B: r.N(4), S: Bytes(genQuery(r, m))}}
		case 11, 12:
			return cur("cstart", "cnext")
		case 13, 14:
			return cur("rstart", "rnext")
		case 15, 16:
			return []Op{idx()}
		case 17:
			return []Op{{Kind: "exact", W: w}}
		case 18:
			if m.n() < 200 || large {
				return []Op{checkall}
			}
			return []Op{lookup()}
		}
		return []Op{save(r.P(1, 4))}
	case "C05":
		if large {
			return []Op{{Kind: "complete", W: w, A: 0, B: r.N(3)}, {Kind: "complete", W: w, B: 1, S: Bytes(genPrefix(r, m))}}
		}
		if r.P(1, 8) {
			return []Op{{Kind: "complete", W: w, A: 0, B: r.N(3), S: Bytes(genPrefix(r, m))}}
		}
		if r.P(1, 12) {
			return []Op{lookup()}
		}
		if r.P(1, 12) { // cursors over objects of its own, whose content changes
			a := load(false)
			a.B, a.L = 1, [][]int{{aDict, aGuide}, {aGuide, aDict}, {aDict, aRanked, aGuide}}[r.N(3)]
			return []Op{a, verify()}
		}
		return cur("cstart", "cnext")
	case "C06":
		if large {
			return []Op{{Kind: "complete", W: w, A: 1, B: r.N(3)}, {Kind: "complete", W: w, A: 1, B: 1, S: Bytes(genPrefix(r, m))}}
		}
		if r.P(1, 8) {
			return []Op{{Kind: "complete", W: w, A: 1, B: r.N(3), S: Bytes(genPrefix(r, m))}}
		}
		if r.P(1, 12) {
			return []Op{lookup()}
		}
		if r.P(1, 12) { // cursors over objects of its own, whose content changes
			a := load(false)
			a.B, a.L = 1, [][]int{{aDict, aRanked}, {aRanked, aDict}, {aDict, aGuide, aRanked}}[r.N(3)]
			return []Op{a, verify()}
		}
		return cur("rstart", "rnext")
	case "C07":
		if large {
			return []Op{{Kind: "checkindex", W: w, A: 0, C: r.N(1 << 20)}, {Kind: "checkindex", W: w, A: 1, C: r.N(1 << 20)}}
		}
		if r.P(1, 12) {
			a, b := save(false), reload(false)
			a.L = [][]int{{aDict, aGuide, aIndex}, {aDict, aRanked, aRIndex}, {aIndex, aRIndex}}[r.N(3)]
			return []Op{a, b, verify()}
		}
		if r.P(1, 12) {
			return []Op{{Kind: "otherindex", W: w, C: r.N(1 << 30)}}
		}
		return []Op{idx()}
	case "C13":
		if large {
			return []Op{checkall, walk(), walk(), lookup()}
		}
		switch r.N(12) {
		case 0, 1, 2, 3, 4, 5:
			return []Op{walk()}
		case 6, 7:
			return []Op{{Kind: "mailput", W: w, A: r.N(64), B: r.N(4), S: Bytes(genQuery(r, m))}}
		case 8, 9:
			return []Op{{Kind: "mailget", B: r.N(4), S: Bytes(genQuery(r, m))}}
		case 10:
			return []Op{{Kind: "exact", W: w}}
		}
		return []Op{lookup()}
	}
	return []Op{lookup()}
}

// wrapWorld makes a run in which one cursor, indexer or loaded object is used so
// often that a counter of 8 or 16 bits would wrap around.
func wrapWorld(p *Plan, r *Rng, n int, ms []*Model) {
	n -= 4 + r.N(3)
	p.SwitchDen = 5000
	m := ms[0]
	seed := func() int { return r.N(1 << 20) }
	var ops, tail []Op
	cursor := func(start, next, turn string) {
		all := func() []Op {
			return []Op{{Kind: start, B: r.N(3), S: Bytes(genPrefix(r, m))}, {Kind: next, B: m.n() + 2}}
		}
		ops = append(ops, Op{Kind: start}, Op{Kind: next, B: m.n() + 2},
			Op{Kind: turn, B: r.N(3), C: r.N(3), S: Bytes(genPrefix(r, m)), N: n})
		for i := 0; i < 9; i++ {
			tail = append(tail, all()...)
		}
	}
	switch p.Prop {
	case "C01", "C02", "C03":
		arts := []int{aDict, aGuide, aIndex}
		if r.P(1, 2) {
			arts = []int{aDict, aRanked, aRIndex}
		}
		last := len(ms) - 1
		load := Op{Kind: "load", B: 1, L: arts, IO: genFrag(r)}
		often := Op{Kind: "load", W: last, B: 1, L: arts[:1], IO: genFrag(r), N: n}
		switch p.Prop {
		case "C02":
			genFail(r, often.IO, nReadFails)
		case "C03":
			often = Op{Kind: "save", C: seed(), L: arts[:1], IO: genFrag(r), N: n}
			if r.P(1, 2) {
				genFail(r, often.IO, nWriteFails)
			}
		}
		ops = append(ops, load, Op{Kind: "verify", C: seed()}, often)
		for i := 0; i < 9; i++ {
			l := load
			l.W = r.N(len(ms))
			tail = append(tail, l, Op{Kind: "verify", C: seed()})
		}
	case "C05":
		cursor("cstart", "cnext", "cturn")
	case "C06":
		cursor("rstart", "rnext", "rturn")
	case "C07":
		a, b := r.N(2), 2+r.N(2)
		check := Op{Kind: "checkindex", A: a, B: b, C: seed()}
		ops = append(ops, check)
		if r.P(1, 2) {
			ops = append(ops, Op{Kind: "toindex", A: a, B: b, S: Bytes(genQuery(r, m)), N: n})
		} else {
			ops = append(ops, Op{Kind: "fromindex", A: a, B: b, C: seed(), N: n})
		}
		tail = append(tail, check, check)
	default:
		ops = append(ops, Op{Kind: "checkall", C: seed()})
		if r.P(1, 2) {
			ops = append(ops, Op{Kind: "lookup", A: r.N(6), S: Bytes(genQuery(r, m)), N: n})
		} else {
			ops = append(ops, Op{Kind: "walk", A: r.N(5), S: Bytes(genQuery(r, m)), L: genSplits(r), N: n})
		}
		tail = append(tail, Op{Kind: "exact"}, Op{Kind: "checkall", C: seed()})
	}
	p.Tasks = [][]Op{append(ops, tail...)}
}
