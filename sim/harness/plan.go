package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"sort"
	"strconv"
	"strings"
)

// Bytes is a byte string that reads well in a replay file.
type Bytes string

func (b Bytes) MarshalJSON() ([]byte, error) {
	return json.Marshal(strconv.QuoteToASCII(string(b)))
}

func (b *Bytes) UnmarshalJSON(d []byte) error {
	var s string
	if err := json.Unmarshal(d, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(s)
	*b = Bytes(u)
	return err
}

// KV is a key with its value.
type KV struct {
	K Bytes `json:"k"`
	V int32 `json:"v"`
}

// GenSpec stands for a content that is too large to be written out.
type GenSpec struct {
	Seed  uint64 `json:"seed"`
	N     int    `json:"n"`
	Style int    `json:"style"`
	Vals  int    `json:"vals"`
}

// Content is what a dictionary is made of.
type Content struct {
	Keys []KV     `json:"keys,omitempty"`
	Gen  *GenSpec `json:"gen,omitempty"`
	Hash int      `json:"hash"` // initial hash table size of the builder, 0: default
	// Reload: the objects in use are not the built ones but went through a stream.
	Reload *IOSpec `json:"reload,omitempty"`
	Lite   bool    `json:"lite,omitempty"` // large content: sampled verification
	Cmp    bool    `json:"cmp,omitempty"`  // also a ranked guide by another order
}

// IOSpec is the behaviour of one simulated stream.
type IOSpec struct {
	Frag     int    `json:"frag"` // 0 whole, 1 single bytes, 2 random short, 3 halves
	FragSeed uint64 `json:"fragSeed"`
	Zero     int    `json:"zero,omitempty"`    // every Zero-th read returns (0, nil)
	EOFData  bool   `json:"eofData,omitempty"` // the last bytes come with io.EOF
	Fail     bool   `json:"fail,omitempty"`
	FailAt   int    `json:"failAt,omitempty"` // taken modulo the possible range
	Align    int    `json:"align,omitempty"`  // see alignFail
	FailKind int    `json:"failKind,omitempty"`
	Err      int    `json:"err,omitempty"`      // see errKinds
	WithData bool   `json:"withData,omitempty"` // the error comes together with data
	Type     int    `json:"type,omitempty"`     // what kind of stream it is: see asReader, asWriter
}

// Op is one operation of a task. The meaning of the operands depends on Kind.
type Op struct {
	Kind string  `json:"kind"`
	W    int     `json:"w,omitempty"`
	A    int     `json:"a,omitempty"`
	B    int     `json:"b,omitempty"`
	C    int     `json:"c,omitempty"`
	S    Bytes   `json:"s,omitempty"`
	L    []int   `json:"l,omitempty"`
	IO   *IOSpec `json:"io,omitempty"`
	N    int     `json:"n,omitempty"` // how often it is done again
}

// Plan is one complete execution: a pure function of it and the code.
type Plan struct {
	Prop      string    `json:"property"`
	Seed      uint64    `json:"verifSeed"`
	Run       int       `json:"run"`
	RunSeed   uint64    `json:"runSeed"`
	Contents  []Content `json:"contents,omitempty"`
	Fresh     bool      `json:"fresh,omitempty"`   // starts with the package variables of a new process
	Restart   bool      `json:"restart,omitempty"` // the process dies after storing the contents and a new one loads them
	Tasks     [][]Op    `json:"tasks,omitempty"`
	SchedSeed uint64    `json:"schedSeed"`
	SwitchDen int       `json:"switchDen"` // mean number of steps between preemptions
	Replay    bool      `json:"replay"`    // follow Start and Switches instead of SchedSeed
	Start     int       `json:"start"`
	Switches  []Switch  `json:"switches,omitempty"`
	Tool      *ToolPlan `json:"tool,omitempty"`
}

// Violation is a property found broken.
type Violation struct {
	Prop  string `json:"property"`
	Class string `json:"class"`
	Msg   string `json:"message"`
	Task  int    `json:"task"`
	Op    int    `json:"op"`
}

func (v *Violation) String() string {
	return fmt.Sprintf("[%s] task %d op %d: %s", v.Class, v.Task, v.Op, v.Msg)
}

// Rng is the PRNG of plan generation.
type Rng struct{ s uint64 }

func (r *Rng) U64() uint64 { return nextRand(&r.s) }
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) P(num, den int) bool { return r.N(den) < num }

func mix(parts ...uint64) uint64 {
	s := uint64(0x243f6a8885a308d3)
	for _, p := range parts {
		s ^= p
		nextRand(&s)
		s = nextRand(&s)
	}
	return s
}

func strSeed(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// ---- contents ----

var specialVals = []int32{0, 1, 2, 127, 128, 255, 256, 257, 511, 512, 768, 1023, 1024, 65535, 65536, 1 << 20, 1<<21 - 1, 1 << 21, 1<<29 - 1, 1 << 29, 1 << 30, 1<<31 - 2, 1<<31 - 1}

const nValStyles = 7

func genValue(r *Rng, style int, i int, key string) int32 {
	switch style {
	case 0:
		return 0
	case 1:
		return int32(r.N(4))
	case 2:
		return int32(r.U64() & 0x7fffffff)
	case 3:
		return specialVals[r.N(len(specialVals))]
	case 4:
		return int32(i)
	case 5: // the low byte looks like a label in use
		b := byte(0)
		if len(key) > 0 {
			b = key[r.N(len(key))]
		}
		return int32(r.N(1<<23))<<8 | int32(b)
	default:
		return int32(r.N(300)) << uint(r.N(20))
	}
}

const nKeyStyles = 12

func genKey(r *Rng, style int, n int, pool []string) string {
	abc := func(lo, hi byte, l int) string {
		b := make([]byte, l)
		for i := range b {
			b[i] = lo + byte(r.N(int(hi)-int(lo)+1))
		}
		return string(b)
	}
	switch style {
	case 0: // two letters, short: dense
		return abc('a', 'b', r.N(7))
	case 1:
		return abc('a', 'z', 1+r.N(6))
	case 2: // all bytes
		return abc(1, 255, r.N(5))
	case 3: // extremes
		b := make([]byte, r.N(6))
		for i := range b {
			b[i] = []byte{1, 2, 127, 128, 254, 255}[r.N(6)]
		}
		return string(b)
	case 4: // stem + common suffix: a lot of merging
		suf := []string{"", "s", "ed", "ing", "er", "ers", "ation", "ations", "ly"}
		return abc('a', 'f', 1+r.N(4)) + suf[r.N(len(suf))]
	case 5: // extends an earlier key
		if len(pool) > 0 {
			k := pool[r.N(len(pool))]
			if len(k) > 40 {
				k = k[:20]
			}
			return k + abc('a', 'd', 1+r.N(3))
		}
		return abc('a', 'd', 1+r.N(3))
	case 6: // long keys
		if r.P(1, 3) {
			return abc('a', 'c', 200+r.N(400))
		}
		return abc('a', 'c', r.N(20))
	case 7: // digits with padding: shared prefixes and suffixes
		return fmt.Sprintf("k%0*d", 2+r.N(4), r.N(10000))
	case 8: // wide fan-out in one node
		return string([]byte{'x', byte(1 + r.N(255))}) + abc('a', 'b', r.N(2))
	case 9: // UTF-8 words
		rs := []rune("абвгдежзиклмн")
		s := ""
		for i := r.N(5); i >= 0; i-- {
			s += string(rs[r.N(len(rs))])
		}
		return s
	case 10: // long random: many units
		return abc('a', 'z', 8+r.N(6))
	case 12: // long random with distinct values: most units per key
		return abc('a', 'z', 14+r.N(5))
	case 13: // many units and many shared endings far from each other
		suf := []string{"shared tail of many keys", "another tail", "tail", "s"}
		if r.P(1, 3) {
			return abc('a', 'z', 8) + suf[r.N(len(suf))]
		}
		return abc('a', 'z', 16+r.N(6))
	case 14: // very long keys
		if r.P(1, 6) {
			return abc('a', 'b', 60000+r.N(9000))
		}
		return abc('a', 'b', r.N(3)) + strings.Repeat(abc('a', 'c', 1+r.N(3)), r.N(3000))
	default: // random stem, merged endings
		suf := []string{"a", "ab", "abc", "abcd", "bcde", "zzzz", "zzzzyy"}
		return abc('a', 'z', 5+r.N(3)) + suf[r.N(len(suf))]
	}
}

// materialise returns the sorted keys of a content.
func materialise(c *Content) []KV {
	if c.Gen == nil {
		return c.Keys
	}
	g := c.Gen
	r := &Rng{g.Seed}
	seen := make(map[string]bool, g.N)
	var pool []string
	for i := 0; i < g.N*2 && len(pool) < g.N; i++ {
		k := genKey(r, g.Style, g.N, pool)
		if !seen[k] {
			seen[k] = true
			pool = append(pool, k)
		}
	}
	sort.Strings(pool)
	kv := make([]KV, len(pool))
	for i, k := range pool {
		kv[i] = KV{Bytes(k), genValue(r, g.Vals, i, k)}
	}
	return kv
}

// swarm content: size, style and values vary from run to run.
func genContent(r *Rng, sizes []int) Content {
	var n int
	switch sizes[r.N(len(sizes))] {
	case 0:
		n = r.N(4)
	case 1:
		n = 4 + r.N(9)
	case 2:
		n = 13 + r.N(48)
	case 3:
		n = 61 + r.N(340)
	case 4:
		n = 400 + r.N(2600)
	case 5:
		n = 10000 + r.N(30000)
	case 6:
		n = 200000
	case 7:
		n = 220000
	case 8:
		n = 2 + r.N(6)
		return Content{Gen: &GenSpec{Seed: r.U64(), N: n, Style: 14, Vals: r.N(nValStyles)}, Lite: true}
	}
	if n > 12 && n <= 3000 && r.P(1, 18) {
		return genFan(r)
	}
	c := Content{}
	c.Gen = &GenSpec{Seed: r.U64(), N: n, Style: r.N(10), Vals: r.N(nValStyles)}
	if n > 5000 {
		c.Gen.Style = []int{1, 4, 7, 10, 11, 10, 11, 2}[r.N(8)]
		c.Lite = true
	}
	if n > 400 && c.Gen.Style == 6 {
		c.Gen.Style = 1
	}
	if n > 100000 {
		// enough units for relative offsets above 2^21
		c.Gen.Style = 12
		c.Gen.Vals = 2
		if n > 200000 {
			c.Gen.Style = 13
			c.Gen.Vals = []int{1, 2, 6}[r.N(3)]
		}
	}
	switch r.N(4) {
	case 0:
		c.Hash = 1 + r.N(4)
	case 1:
		c.Hash = []int{5, 7, 16, 31, 64, 100, 1000, 4096}[r.N(8)]
	}
	if n <= 400 {
		// mixed styles, written out
		r2 := &Rng{c.Gen.Seed}
		seen := map[string]bool{}
		var pool []string
		s1, s2 := r2.N(10), r2.N(10)
		for i := 0; i < n*3 && len(pool) < n; i++ {
			st := s1
			if r2.P(1, 4) {
				st = s2
			}
			k := genKey(r2, st, n, pool)
			if !seen[k] {
				seen[k] = true
				pool = append(pool, k)
			}
		}
		if n > 0 && r2.P(1, 5) && !seen[""] {
			pool = append(pool, "")
		}
		sort.Strings(pool)
		for i, k := range pool {
			c.Keys = append(c.Keys, KV{Bytes(k), genValue(r2, c.Gen.Vals, i, k)})
		}
		c.Gen = nil
	}
	return c
}

// genFan makes a content with positions that have all, or all but a few, of
// the 255 possible continuations, and mostly are keys themselves.
func genFan(r *Rng) Content {
	c := Content{}
	seen := map[string]bool{}
	var pool []string
	add := func(k string) {
		if !seen[k] {
			seen[k] = true
			pool = append(pool, k)
		}
	}
	tails := []string{"", "", "a", "\xff", "ing"}
	for i, n := 0, 1+r.N(2); i < n; i++ {
		at := ""
		if r.P(2, 3) {
			at = genKey(r, r.N(5), 1, nil)
		}
		if len(at) > 12 {
			at = at[:12]
		}
		skip := []int{0, 0, 0, 1, 2, 3}[r.N(6)]
		without := map[int]bool{}
		for j := 0; j < skip; j++ {
			without[[]int{1, 2, 127, 128, 254, 255, 1 + r.N(255)}[r.N(7)]] = true
		}
		tail := tails[r.N(len(tails))]
		mixed := r.P(1, 3)
		for b := 1; b < 256; b++ {
			if without[b] {
				continue
			}
			t := tail
			if mixed {
				t = tails[r.N(len(tails))]
			}
			add(at + string([]byte{byte(b)}) + t)
		}
		if r.P(4, 5) {
			add(at)
		}
	}
	for i := r.N(4); i > 0; i-- {
		add(genKey(r, r.N(5), 1, nil))
	}
	sort.Strings(pool)
	vals := r.N(nValStyles)
	for i, k := range pool {
		c.Keys = append(c.Keys, KV{Bytes(k), genValue(r, vals, i, k)})
	}
	if r.P(1, 4) {
		c.Hash = 1 + r.N(8)
	}
	return c
}

// genQuery makes a query that is near the content: keys, prefixes and mutants.
func genQuery(r *Rng, m *Model) string {
	if m.n() == 0 {
		return genKey(r, r.N(10), 1, nil)
	}
	k := m.keys[r.N(m.n())]
	switch r.N(12) {
	case 0, 1, 2, 3:
		return k
	case 4, 5:
		if len(k) > 0 {
			return k[:r.N(len(k))]
		}
		return k
	case 6:
		return k + string([]byte{byte(r.N(256))})
	case 7:
		return k + "\x00"
	case 8:
		if len(k) > 0 {
			i := r.N(len(k))
			return k[:i] + string([]byte{byte(r.N(256))}) + k[i+1:]
		}
		return "\x00"
	case 9:
		i := r.N(len(k) + 1)
		return k[:i] + "\x00" + k[i:]
	case 10:
		j := m.keys[r.N(m.n())]
		return k + j
	default:
		return genKey(r, r.N(10), 1, nil)
	}
}

// genPrefix makes a string that is mostly a prefix of some key.
func genPrefix(r *Rng, m *Model) string {
	if m.n() == 0 || r.P(1, 10) {
		return genQuery(r, m)
	}
	if r.P(1, 4) {
		return ""
	}
	k := m.keys[r.N(m.n())]
	return k[:r.N(len(k)+1)]
}

func genFrag(r *Rng) *IOSpec {
	io := &IOSpec{Frag: r.N(4), FragSeed: r.U64()}
	if r.P(1, 4) {
		io.Zero = 2 + r.N(5)
	}
	io.EOFData = r.P(1, 3)
	if r.P(1, 3) {
		io.Type = 1 + r.N(nReaderTypes-1)
	}
	return io
}
