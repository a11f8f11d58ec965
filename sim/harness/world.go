package main

import (
	"bytes"
	"fmt"
	"io"
	"sort"

	"github.com/deNULL/dawg"
)

// Artifacts that can be stored.
const (
	aDict   = iota
	aGuide  // plain guide
	aRanked // ranked guide
	aIndex  // index over the plain guide
	aRIndex // index over the ranked guide
	nArts
)

var artNames = []string{"dictionary", "guide", "ranked guide", "index", "ranked index"}

// Objs is a set of artifacts; from[i] tells which world artifact i belongs to.
type Objs struct {
	dict   *dawg.Dictionary
	guide  *dawg.Guide
	ranked *dawg.RankedGuide
	idx    *dawg.Index
	ridx   *dawg.Index
}

// World is one content with everything built from it.
type World struct {
	m    *Model
	kv   []KV
	lite bool
	dawg *dawg.Dawg
	Objs
	// indexers shared by all tasks: over the plain guide and the ranked one
	ix  [2]*dawg.Indexer
	img [nArts][]byte
	// stats of the automaton
	stats  [6]int
	unused uint32
	// a ranked guide by another order, with its index
	other  *dawg.RankedGuide
	otherX *dawg.Indexer
}

// fail aborts the current operation with a violation.
func fail(class, f string, v ...interface{}) {
	panic(&Violation{Class: class, Msg: fmt.Sprintf(f, v...)})
}

func insertAll(b *dawg.DawgBuilder, kv []KV) {
	for i := range kv {
		if !b.InsertStringValue(string(kv[i].K), kv[i].V) {
			fail("insert", "insert %q=%d refused after %q", kv[i].K, kv[i].V, prevKey(kv, i))
		}
	}
}

func prevKey(kv []KV, i int) string {
	if i == 0 {
		return ""
	}
	return string(kv[i-1].K)
}

func newBuilder(hash int) *dawg.DawgBuilder {
	if hash > 0 {
		return dawg.NewDawgBuilderWithSize(hash)
	}
	return dawg.NewDawgBuilder()
}

func statsOf(d *dawg.Dawg) [6]int {
	return [6]int{d.Size(), d.NumOfStates(), d.NumOfTransitions(), d.NumOfMergedStates(), d.NumOfMergingStates(), d.NumOfMergedTransitions()}
}

// derive builds all artifacts from an automaton. arts limits what is needed.
func derive(d *dawg.Dawg) Objs {
	var o Objs
	o.dict = d.Build()
	if o.dict == nil {
		fail("build", "dictionary could not be built")
	}
	deriveRest(d, &o)
	return o
}

func deriveRest(d *dawg.Dawg, o *Objs) {
	o.guide = dawg.BuildGuide(d, o.dict)
	if o.guide == nil {
		fail("build", "guide could not be built")
	}
	o.ranked = dawg.BuildRankedGuide(d, o.dict)
	if o.ranked == nil {
		fail("build", "ranked guide could not be built")
	}
	o.idx = dawg.BuildIndex(o.dict, o.guide)
	if o.idx == nil {
		fail("build", "index could not be built")
	}
	o.ridx = dawg.BuildIndex(o.dict, o.ranked)
	if o.ridx == nil {
		fail("build", "index over the ranked guide could not be built")
	}
}

func (o *Objs) write(a int, w io.Writer) bool {
	switch a {
	case aDict:
		return o.dict.Write(w)
	case aGuide:
		return o.guide.Write(w)
	case aRanked:
		return o.ranked.Write(w)
	case aIndex:
		return o.idx.Write(w)
	}
	return o.ridx.Write(w)
}

func (o *Objs) fileSize(a int) int {
	switch a {
	case aDict:
		return o.dict.FileSize()
	case aGuide:
		return o.guide.FileSize()
	case aRanked:
		return o.ranked.FileSize()
	case aIndex:
		return o.idx.FileSize()
	}
	return o.ridx.FileSize()
}

func (o *Objs) has(a int) bool {
	switch a {
	case aDict:
		return o.dict != nil
	case aGuide:
		return o.guide != nil
	case aRanked:
		return o.ranked != nil
	case aIndex:
		return o.idx != nil
	}
	return o.ridx != nil
}

// image writes an artifact to a healthy medium.
func (o *Objs) image(a int) []byte {
	var b bytes.Buffer
	if !o.write(a, &b) {
		fail("write", "writing the %s to a healthy medium failed", artNames[a])
	}
	return b.Bytes()
}

// read loads an artifact, into the present object or a fresh one.
func (o *Objs) read(a int, r io.Reader, into bool) bool {
	switch a {
	case aDict:
		if into && o.dict != nil {
			return o.dict.Read(r)
		}
		if x := dawg.ReadDictionary(r); x != nil {
			o.dict = x
			return true
		}
	case aGuide:
		if into && o.guide != nil {
			return o.guide.Read(r)
		}
		if x := dawg.ReadGuide(r); x != nil {
			o.guide = x
			return true
		}
	case aRanked:
		if into && o.ranked != nil {
			return o.ranked.Read(r)
		}
		if x := dawg.ReadRankedGuide(r); x != nil {
			o.ranked = x
			return true
		}
	case aIndex, aRIndex:
		p := &o.idx
		if a == aRIndex {
			p = &o.ridx
		}
		if into && *p != nil {
			return (*p).Read(r)
		}
		if x := dawg.ReadIndex(r); x != nil {
			*p = x
			return true
		}
	}
	return false
}

// buildWorld builds a content. needs tells how much is derived.
func buildWorld(c *Content, f Faults) *World {
	kv := materialise(c)
	w := &World{m: newModel(kv), kv: kv, lite: c.Lite}
	b := newBuilder(c.Hash)
	insertAll(b, kv)
	w.dawg = dawg.NewDawg()
	b.Finish(w.dawg)
	w.stats = statsOf(w.dawg)
	w.unused = 12345
	if w.dict = w.dawg.BuildWithUnused(&w.unused); w.dict == nil {
		fail("build", "dictionary could not be built")
	}
	deriveRest(w.dawg, &w.Objs)
	for a := 0; a < nArts; a++ {
		w.img[a] = w.image(a)
	}
	if c.Reload != nil {
		w.load(c.Reload, f)
	}
	w.ix = [2]*dawg.Indexer{indexer(&w.Objs, false), indexer(&w.Objs, true)}
	if c.Cmp {
		w.buildOther()
	}
	return w
}

// load replaces the built objects by ones that went through a stream.
func (w *World) load(spec *IOSpec, f Faults) {
	var all []byte
	for a := 0; a < nArts; a++ {
		all = append(all, w.img[a]...)
	}
	r, _ := asReader(newReader(all, spec, f))
	var o Objs
	for a := 0; a < nArts; a++ {
		if !o.read(a, r, false) {
			fail("load", "loading the %s from a complete stream failed", artNames[a])
		}
	}
	w.Objs = o
}

// reload is what a new process does: of what was built, only the images are left.
func (w *World) reload(spec *IOSpec, f Faults) {
	w.dawg, w.other, w.otherX = nil, nil, nil
	if spec == nil {
		spec = &IOSpec{}
	}
	w.load(spec, f)
	w.ix = [2]*dawg.Indexer{indexer(&w.Objs, false), indexer(&w.Objs, true)}
}

// buildOther numbers the keys by a ranked guide with another order of values.
func (w *World) buildOther() {
	w.other = dawg.BuildRankedGuideCmp(w.dawg, w.dict, func(a, b int32) bool { return a%7 < b%7 })
	if w.other == nil {
		fail("build", "ranked guide could not be built")
	}
	x := dawg.BuildIndex(w.dict, w.other)
	if x == nil {
		fail("build", "index over the ranked guide could not be built")
	}
	w.otherX = dawg.NewIndexer(w.dict, w.other, x)
}

// ---- verification against the model ----

// checkLookup compares all exact-match functions for one query.
func checkLookup(d *dawg.Dictionary, m *Model, q string, variant int) {
	v, ok := m.find(q)
	pad := q + "\x01zz"
	bad := func(fn string, got interface{}) {
		fail("lookup", "%s(%q) = %v, want present=%v value=%d", fn, q, got, ok, v)
	}
	if variant < 0 || variant == 0 {
		if got := d.ContainsString(q); got != ok {
			bad("ContainsString", got)
		}
	}
	if variant < 0 || variant == 1 {
		if got := d.FindString(q); got != v {
			bad("FindString", got)
		}
	}
	if variant < 0 || variant == 2 {
		var x int32 = -7
		if got := d.FindStringValue(q, &x); got != ok || (ok && x != v) {
			bad("FindStringValue", fmt.Sprint(got, " ", x))
		}
	}
	if variant < 0 || variant == 3 {
		if got := d.ContainsStringLen(pad, len(q)); got != ok {
			bad("ContainsStringLen", got)
		}
	}
	if variant < 0 || variant == 4 {
		if got := d.FindStringLen(pad, len(q)); got != v {
			bad("FindStringLen", got)
		}
	}
	if variant < 0 || variant == 5 {
		var x int32 = -7
		if got := d.FindStringLenValue(pad, len(q), &x); got != ok || (ok && x != v) {
			bad("FindStringLenValue", fmt.Sprint(got, " ", x))
		}
	}
}

// checkExact walks all of the dictionary: at every prefix of a key each of the
// 256 labels must lead on exactly if the model says so. limit bounds the number
// of prefixes visited.
func checkExact(d *dawg.Dictionary, m *Model, limit int) {
	nodes := 0
	var rec func(index uint32, lo, hi, depth int)
	rec = func(index uint32, lo, hi, depth int) {
		if nodes >= limit {
			return
		}
		nodes++
		prefix := ""
		if lo < hi {
			prefix = m.keys[lo][:depth]
		}
		term := lo < hi && len(m.keys[lo]) == depth
		if got := d.HasValue(index); got != term {
			fail("exact", "HasValue at %q = %v, want %v", prefix, got, term)
		}
		if term {
			if got := d.Value(index); got != m.vals[lo] {
				fail("exact", "Value at %q = %d, want %d", prefix, got, m.vals[lo])
			}
			lo++
		}
		for l := 0; l < 256; l++ {
			start := lo
			for lo < hi && int(m.keys[lo][depth]) == l {
				if hi-lo > 64 {
					lo += sort.Search(hi-lo, func(i int) bool { return int(m.keys[lo+i][depth]) > l })
				} else {
					lo++
				}
			}
			next := index
			got := d.Follow(byte(l), &next)
			if got != (start < lo) {
				fail("exact", "Follow(%#02x) at %q = %v, want %v", l, prefix, got, start < lo)
			}
			if !got {
				if next != index {
					fail("exact", "failed Follow(%#02x) at %q moved the position", l, prefix)
				}
				continue
			}
			rec(next, start, lo, depth+1)
		}
	}
	rec(d.Root(), 0, m.n(), 0)
}

// checkDict verifies a dictionary as a whole.
func checkDict(d *dawg.Dictionary, m *Model, lite bool, seed uint64) {
	r := &Rng{seed}
	if lite {
		for i := 0; i < m.n(); i++ {
			if got := d.FindString(m.keys[i]); got != m.vals[i] {
				fail("lookup", "FindString(%q) = %d, want %d", m.keys[i], got, m.vals[i])
			}
		}
		queries := 3000
		if m.size > 1000*m.n() { // very long keys
			queries = 60
		}
		for i := 0; i < queries; i++ {
			checkLookup(d, m, genQuery(r, m), -1)
		}
		checkExact(d, m, 1500)
		// prefixes all over the content, with a few random labels each
		for i := 0; i < queries/2 && m.n() > 0; i++ {
			k := m.keys[r.N(m.n())]
			p := k[:r.N(len(k)+1)]
			index := d.Root()
			if !d.FollowString(p, &index) {
				fail("exact", "FollowString(%q) failed on a prefix of the key %q", p, k)
			}
			for j := 0; j < 24; j++ {
				l := byte(r.N(256))
				next := index
				want := m.isPrefix(p + string([]byte{l}))
				if got := d.Follow(l, &next); got != want {
					fail("exact", "Follow(%#02x) at %q = %v, want %v", l, p, got, want)
				}
			}
		}
		return
	}
	for i := 0; i < m.n(); i++ {
		checkLookup(d, m, m.keys[i], i%6)
	}
	for i := 0; i < 20+m.n()/4; i++ {
		checkLookup(d, m, genQuery(r, m), -1)
	}
	checkExact(d, m, 40)
	// all labels at prefixes all over the content
	for i := 0; i < 60 && m.n() > 3; i++ {
		k := m.keys[r.N(m.n())]
		checkLabels(d, m, k[:r.N(len(k)+1)])
	}
}

// checkLabels tries every label at one prefix of a key.
func checkLabels(d *dawg.Dictionary, m *Model, p string) {
	index := d.Root()
	if !d.FollowString(p, &index) {
		fail("exact", "FollowString(%q) failed on a prefix of a key", p)
	}
	var want [256]bool
	lo, hi := m.under(p)
	for i := lo; i < hi; {
		if len(m.keys[i]) == len(p) {
			i++
			continue
		}
		l := m.keys[i][len(p)]
		want[l] = true
		_, i = m.under(m.keys[i][:len(p)+1])
	}
	for l := 0; l < 256; l++ {
		next := index
		if got := d.Follow(byte(l), &next); got != want[l] {
			fail("exact", "Follow(%#02x) at %q = %v, want %v", l, p, got, want[l])
		}
	}
}

// Cursor is a completer with the model of its enumeration.
type Cursor struct {
	w       *World
	c       *dawg.Completer
	rc      *dawg.RankedCompleter
	started bool
	strip   int // Key() lacks the first strip bytes of the key
	pos, hi int // plain: remaining range of the model
	left    map[string]int32
	last    int64
	prefix  string
}

func newCursor(w *World, o *Objs, ranked bool) *Cursor {
	cu := &Cursor{w: w}
	if ranked {
		cu.rc = dawg.NewRankedCompleter(o.dict, o.ranked)
	} else {
		cu.c = dawg.NewCompleter(o.dict, o.guide)
	}
	return cu
}

// start positions the cursor at a prefix; how selects the start function.
func (cu *Cursor) start(o *Objs, prefix string, how int) {
	m := cu.w.m
	index := o.dict.Root()
	ok := o.dict.FollowString(prefix, &index)
	if want := m.isPrefix(prefix); ok != want {
		fail("walk", "FollowString(%q) = %v, want %v", prefix, ok, want)
	}
	if !ok {
		return // the cursor stays as it is
	}
	pad := prefix + "\xffpad"
	cu.strip = 0
	switch how % 3 {
	case 0:
		cu.strip = len(prefix)
		if cu.c != nil {
			cu.c.Start(index)
		} else {
			cu.rc.Start(index)
		}
	case 1:
		if cu.c != nil {
			cu.c.StartString(index, prefix)
		} else {
			cu.rc.StartString(index, prefix)
		}
	case 2:
		if cu.c != nil {
			cu.c.StartStringLen(index, pad, len(prefix))
		} else {
			cu.rc.StartStringLen(index, pad, len(prefix))
		}
	}
	cu.started = true
	cu.prefix = prefix
	cu.pos, cu.hi = m.under(prefix)
	cu.last = 1 << 40
	if cu.rc != nil {
		cu.left = make(map[string]int32, cu.hi-cu.pos)
		for i := cu.pos; i < cu.hi; i++ {
			cu.left[m.keys[i]] = m.vals[i]
		}
	}
}

// next advances up to n steps; keep receives every key handed out.
func (cu *Cursor) next(n int, keep func(got string)) {
	if !cu.started {
		return
	}
	m := cu.w.m
	for ; n > 0; n-- {
		if cu.c != nil {
			ok := cu.c.Next()
			if ok != (cu.pos < cu.hi) {
				if ok {
					fail("completion", "completion of %q yields %q after the last key", cu.prefix, cu.c.Key())
				}
				fail("completion", "completion of %q ends early, next key should be %q", cu.prefix, m.keys[cu.pos])
			}
			if !ok {
				n = min(n, 3) // it stays at the end
				continue
			}
			want := m.keys[cu.pos][cu.strip:]
			if cu.c.Key() != want || cu.c.Length() != len(want) || cu.c.Value() != m.vals[cu.pos] || cu.c.Key() != want {
				fail("completion", "completion of %q yields %q (length %d, value %d), want %q (length %d, value %d)", cu.prefix,
					cu.c.Key(), cu.c.Length(), cu.c.Value(), want, len(want), m.vals[cu.pos])
			}
			if keep != nil {
				keep(cu.c.Key())
			}
			cu.pos++
			continue
		}
		ok := cu.rc.Next()
		if ok != (len(cu.left) > 0) {
			if ok {
				fail("completion", "ranked completion of %q yields %q after the last key", cu.prefix, cu.rc.Key())
			}
			fail("completion", "ranked completion of %q ends early, %d keys left", cu.prefix, len(cu.left))
		}
		if !ok {
			n = min(n, 3)
			continue
		}
		got := cu.rc.Key()
		full := got
		if cu.strip > 0 {
			full = cu.prefix + got
		}
		v, present := cu.left[full]
		if !present {
			fail("completion", "ranked completion of %q yields %q, which is not a key under it or came before", cu.prefix, full)
		}
		if cu.rc.Value() != v || cu.rc.Length() != len(got) || cu.rc.Key() != got {
			fail("completion", "ranked completion of %q yields %q with length %d and value %d, want %d and %d", cu.prefix, full, cu.rc.Length(), cu.rc.Value(), len(got), v)
		}
		if int64(v) > cu.last {
			fail("completion", "ranked completion of %q yields %q with value %d after value %d", cu.prefix, full, v, cu.last)
		}
		cu.last = int64(v)
		delete(cu.left, full)
		if keep != nil {
			keep(got)
		}
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// checkComplete enumerates everything under a prefix with a fresh cursor.
func checkComplete(w *World, o *Objs, ranked bool, prefix string, how int) {
	cu := newCursor(w, o, ranked)
	cu.start(o, prefix, how)
	lo, hi := w.m.under(prefix)
	cu.next(hi-lo+2, nil)
}

// checkToIndex checks key -> number for one query; plain numbering is the rank.
func checkToIndex(ix *dawg.Indexer, m *Model, q string, ranked bool, viaBytes bool) uint32 {
	var got uint32
	if viaBytes {
		got = ix.BytesToIndex([]byte(q))
	} else {
		got = ix.StringToIndex(q)
	}
	pos, ok := m.pos(q)
	switch {
	case !ok && got != dawg.NotFound:
		fail("index", "number of %q = %d, want not found", q, got)
	case ok && !ranked && got != uint32(pos):
		fail("index", "number of %q = %d, want %d", q, got, pos)
	case ok && got >= uint32(m.n()):
		fail("index", "number of %q = %d, but there are only %d keys", q, got, m.n())
	}
	return got
}

func checkFromIndex(ix *dawg.Indexer, m *Model, i uint32, ranked bool, viaBytes bool) []byte {
	var got []byte
	isNil := false
	if viaBytes {
		got = ix.IndexToBytes(i)
		isNil = got == nil
	} else {
		got = []byte(ix.IndexToString(i))
		isNil = len(got) == 0
	}
	if i >= uint32(m.n()) {
		if !isNil {
			fail("index", "key number %d of %d = %q, want none", i, m.n(), got)
		}
		return got
	}
	pos, ok := m.pos(string(got))
	if !ok {
		fail("index", "key number %d = %q, which is not a key", i, got)
	}
	if !ranked && pos != int(i) {
		fail("index", "key number %d = %q, want %q", i, got, m.keys[i])
	}
	if back := ix.StringToIndex(string(got)); back != i {
		fail("index", "key number %d = %q, whose number is %d", i, got, back)
	}
	return got
}

// pickIndexer gives a private indexer or the shared one.
func (w *World) pickIndexer(ranked, shared bool) *dawg.Indexer {
	switch {
	case !shared:
		return indexer(&w.Objs, ranked)
	case ranked:
		return w.ix[1]
	}
	return w.ix[0]
}

func indexer(o *Objs, ranked bool) *dawg.Indexer {
	if ranked {
		return dawg.NewIndexer(o.dict, o.ranked, o.ridx)
	}
	return dawg.NewIndexer(o.dict, o.guide, o.idx)
}

// checkIndex verifies an index as a whole.
func checkIndex(w *World, o *Objs, ranked bool, seed uint64) {
	checkIndexer(w, indexer(o, ranked), ranked, seed)
}

func checkIndexer(w *World, ix *dawg.Indexer, ranked bool, seed uint64) {
	m := w.m
	if got := ix.TotalCount(); got != uint32(m.n()) {
		fail("index", "total count = %d, want %d", got, m.n())
	}
	r := &Rng{seed}
	step := 1
	if m.n() > 3000 {
		step = m.n() / 1500
	}
	seen := make(map[uint32]bool)
	for i := 0; i < m.n(); i += step {
		n := checkToIndex(ix, m, m.keys[i], ranked, i%2 == 0)
		if seen[n] {
			fail("index", "number %d is given twice", n)
		}
		seen[n] = true
		if got := ix.IndexToString(n); got != m.keys[i] {
			fail("index", "key number %d = %q, want %q", n, got, m.keys[i])
		}
		checkFromIndex(ix, m, uint32(i), ranked, i%2 == 1)
	}
	for i := 0; i < 10; i++ {
		checkToIndex(ix, m, genQuery(r, m), ranked, i%2 == 0)
	}
	for _, i := range []uint32{uint32(m.n()), uint32(m.n()) + 1, 1 << 31, 0xfffffffd, 0xffffffff} {
		checkFromIndex(ix, m, i, ranked, true)
	}
}

// checkObjs verifies whatever artifacts of a world are present.
func checkObjs(w *World, o *Objs, seed uint64) {
	if o.dict == nil {
		return
	}
	checkDict(o.dict, w.m, w.lite, seed)
	r := &Rng{seed + 1}
	for k := 0; k < 3; k++ {
		p := ""
		if k > 0 {
			p = genPrefix(r, w.m)
		}
		if w.lite && k == 0 && w.m.n() > 50000 {
			continue
		}
		if o.guide != nil {
			checkComplete(w, o, false, p, k)
		}
		if o.ranked != nil {
			checkComplete(w, o, true, p, k)
		}
	}
	if o.guide != nil && o.idx != nil {
		checkIndex(w, o, false, seed+2)
	}
	if o.ranked != nil && o.ridx != nil {
		checkIndex(w, o, true, seed+3)
	}
}
