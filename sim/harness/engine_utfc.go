package main

import (
	"bytes"
	"unicode/utf8"

	"github.com/deNULL/dawg"
)

// utfcTask drives the UTF-C codec.
type utfcTask struct {
	t   *taskCtx
	exp map[string]string // encodings computed alone, before the run
}

func newUtfcTask(t *taskCtx) *utfcTask {
	u := &utfcTask{t: t, exp: map[string]string{}}
	for i := range t.p.Tasks[t.id] {
		op := &t.p.Tasks[t.id][i]
		if op.Kind == "sweep" {
			continue
		}
		u.solo(string(op.S))
		switch op.Kind {
		case "fol":
			u.solo(nested(op))
		case "state":
			for _, cut := range op.L {
				u.solo(runePrefix(string(op.S), cut) + nested(op))
			}
		}
	}
	return u
}

// solo encodes a string alone and remembers the result.
func (u *utfcTask) solo(s string) {
	if _, ok := u.exp[s]; ok {
		return
	}
	e := string(dawg.UtfcEncode(s))
	checkCoding(s, []byte(e))
	u.exp[s] = e
}

func checkCoding(s string, e []byte) {
	if i := bytes.IndexByte(e, 0); i >= 0 {
		fail("zero", "encoding of %+q has a zero byte at %d: %x", s, i, e)
	}
	if got := dawg.UtfcDecode(e); got != s {
		fail("decode", "encoding of %+q is %x, which decodes to %+q", s, e, got)
	}
}

func nested(op *Op) string { return genText(&Rng{uint64(op.C)}) }

// runePrefix returns the first n characters (n modulo their number + 1).
func runePrefix(s string, n int) string {
	n = n % (utf8.RuneCountInString(s) + 1)
	for i := range s {
		if n == 0 {
			return s[:i]
		}
		n--
	}
	return s
}

// consumer takes bytes until it refuses one.
type consumer struct {
	u     *utfcTask
	got   []byte
	limit int // the byte with this number is refused; <0 never
	refu  bool
	late  int
	nest  func(n int)
}

func (c *consumer) Follow(b byte) bool {
	ioYield()
	if c.refu {
		c.late++
		return false
	}
	n := len(c.got)
	c.got = append(c.got, b)
	if c.nest != nil {
		c.nest(n)
	}
	if n == c.limit {
		c.refu = true
		return false
	}
	return true
}

func (u *utfcTask) encode(s string) []byte {
	e := dawg.UtfcEncode(s)
	if string(e) != u.exp[s] {
		fail("encode", "encoding of %+q is %x, alone it is %x", s, e, u.exp[s])
	}
	return e
}

func (u *utfcTask) exec(op *Op) bool {
	s := string(op.S)
	t := u.t
	switch op.Kind {
	case "enc":
		t.checks++
		e := u.encode(s)
		if got := dawg.UtfcDecode(e); got != s {
			fail("decode", "encoding of %+q is %x, which decodes to %+q", s, e, got)
		}
		switch op.A % 3 {
		case 0:
			t.keep("the encoding", e)
		case 1: // the caller owns the result
			e = e[:cap(e)]
			for i := range e {
				e[i] = 0xEE
			}
		}
		t.note("enc %q", s)
	case "dec":
		t.checks++
		in := []byte(u.exp[s])
		got := dawg.UtfcDecode(in)
		if got != s {
			fail("decode", "%x decodes to %+q, want %+q", in, got, s)
		}
		if string(in) != u.exp[s] {
			fail("buffer", "decoding changed the buffer of the caller")
		}
		for i := range in {
			in[i] = 'x'
		}
		if got != s {
			fail("result-changed", "decoded string changed with the buffer")
		}
	case "fol":
		t.checks++
		want := u.exp[s]
		c := &consumer{u: u, limit: -1}
		if op.A > 0 && len(want) > 0 {
			c.limit = (op.A - 1) % len(want)
		}
		if op.B%4 > 0 {
			n2 := nested(op)
			c.nest = func(n int) {
				if n%(op.B%4) != 0 || n > 24 {
					return
				}
				t.faults["nested-call"]++
				switch n % 3 {
				case 0:
					u.encode(n2)
				case 1:
					if got := dawg.UtfcDecode([]byte(u.exp[n2])); got != n2 {
						fail("decode", "nested decode gives %+q, want %+q", got, n2)
					}
				case 2:
					c2 := &consumer{u: u, limit: n}
					ok := dawg.UtfcFollow(n2, c2)
					u.checkFollow(n2, c2, ok)
				}
			}
		}
		ok := dawg.UtfcFollow(s, c)
		u.checkFollow(s, c, ok)
		t.note("fol %q %d", s, len(c.got))
	case "sweep":
		// Every character of a block, after a text and before another.
		t.checks++
		after := shortText(nested(op))
		head := string(dawg.UtfcEncode(s))
		for c := op.A * sweepBlock; c < (op.A+1)*sweepBlock && c <= 0x10ffff; c++ {
			if c >= 0xd800 && c <= 0xdfff {
				continue
			}
			x := s + string(rune(c))
			e := dawg.UtfcEncode(x)
			checkCoding(x, e)
			if len(e) < len(head) || string(e[:len(head)]) != head {
				fail("incremental", "the encoding of %+q is %x, that of its prefix %+q is %x", x, e, s, head)
			}
			e2 := dawg.UtfcEncode(x + after)
			checkCoding(x+after, e2)
			if !bytes.HasPrefix(e2, e) {
				fail("incremental", "the encoding of %+q is %x, that of its prefix %+q is %x", x+after, e2, x, e)
			}
		}
		t.note("sweep", op.A)
	case "state":
		t.checks++
		st := dawg.NewUtfcState()
		fork := dawg.NewUtfcState()
		if op.B%2 == 1 { // used before
			c := &consumer{u: u, limit: op.A % 7}
			for _, ch := range nested(op) {
				if !st.Follow(ch, c) {
					t.faults["consumer-abort"]++
					break
				}
			}
			fork.Copy(st)
			st.Clear()
		}
		c := &consumer{u: u, limit: -1}
		cuts := map[string]bool{}
		for _, k := range op.L {
			cuts[runePrefix(s, k)] = true
		}
		at := func(prefix string) {
			want := u.exp[s]
			if !bytes.HasPrefix([]byte(want), c.got) {
				fail("incremental", "the encoding of %+q is %x, that of its prefix %+q is %x", s, want, prefix, c.got)
			}
			if !cuts[prefix] {
				return
			}
			fork.Copy(st)
			tail := nested(op)
			c2 := &consumer{u: u, limit: -1, got: append([]byte(nil), c.got...)}
			for _, ch := range tail {
				if !fork.Follow(ch, c2) {
					fail("follow", "an accepting consumer is reported as refusing")
				}
			}
			if string(c2.got) != u.exp[prefix+tail] {
				fail("incremental", "a copied state after %+q continued with %+q gives %x, want %x", prefix, tail, c2.got, u.exp[prefix+tail])
			}
			t.faults["state-forked"]++
		}
		at("")
		for i, ch := range s {
			if !st.Follow(ch, c) {
				fail("follow", "an accepting consumer is reported as refusing")
			}
			at(s[:i+utf8.RuneLen(ch)])
		}
		if string(c.got) != u.exp[s] {
			fail("incremental", "character by character, %+q is encoded as %x, at once as %x", s, c.got, u.exp[s])
		}
		t.note("state %q", s)
	default:
		return false
	}
	return true
}

func (u *utfcTask) checkFollow(s string, c *consumer, ok bool) {
	want := u.exp[s]
	if c.limit >= 0 && c.limit < len(want) {
		u.t.faults["consumer-abort"]++
		if ok {
			fail("abort", "the consumer refused byte %d of the encoding of %+q, the call reports success", c.limit, s)
		}
		if c.late > 0 {
			fail("abort", "the consumer refused byte %d of the encoding of %+q and was called again %d times", c.limit, s, c.late)
		}
		if string(c.got) != want[:c.limit+1] {
			fail("abort", "up to the refused byte %d of the encoding of %+q the consumer got %x, want %x", c.limit, s, c.got, want[:c.limit+1])
		}
		return
	}
	if !ok {
		fail("follow", "encoding %+q to an accepting consumer reports an abort", s)
	}
	if string(c.got) != want {
		fail("follow", "the consumer of %+q got %x, want %x", s, c.got, want)
	}
}

// windows of the code that matter to the coding, and what lies at their edges
var windows = [][2]int{
	{0x00, 0x7f}, {0x20, 0x7e}, {0x61, 0x7a}, {0x80, 0xff}, {0xc0, 0xff}, {0x100, 0x2ff}, {0x300, 0x37f}, {0x380, 0x3ff},
	{0x400, 0x47f}, {0x410, 0x44f}, {0x480, 0x52f}, {0x530, 0x58f}, {0x590, 0x5ff}, {0x600, 0x6ff}, {0x900, 0x97f},
	{0x980, 0x9ff}, {0xa00, 0xa7f}, {0xa80, 0xaff}, {0xb00, 0xb7f}, {0xb80, 0xbff}, {0xc00, 0xcff}, {0xd00, 0xdff},
	{0xe00, 0xe7f}, {0xe80, 0xeff}, {0xf00, 0xfff}, {0x1000, 0x10ff}, {0x1100, 0x1fff}, {0x1f80, 0x2080}, {0x2000, 0x25ff},
	{0x2500, 0x2700}, {0x2600, 0x2fff}, {0x3000, 0x30ff}, {0x3040, 0x309f}, {0x30a0, 0x30ff}, {0x3100, 0x33ff},
	{0x3400, 0x4dbf}, {0x4e00, 0x9fff}, {0x9f00, 0xa700}, {0xa500, 0xa7ff}, {0xac00, 0xd7a3}, {0xe000, 0xf8ff}, {0xf900, 0xfdff},
	{0xfe00, 0xfe0f}, {0xfe10, 0xffff}, {0x10000, 0x10fff}, {0x12500, 0x12700}, {0x1f000, 0x1f2ff}, {0x1f300, 0x1f5ef},
	{0x1f5f0, 0x1f9ff}, {0x1a500, 0x1a700}, {0x20000, 0x2a6df}, {0x22500, 0x22700}, {0x2a500, 0x2a700}, {0x2f800, 0x2fa1f},
	{0xe0000, 0xe01ef}, {0xf0000, 0xffffd}, {0x100000, 0x10ffff}, {0x102500, 0x102700}, {0x0, 0x10ffff},
}

func genRune(r *Rng) rune {
	w := windows[r.N(len(windows))]
	return runeIn(r, w)
}

func runeIn(r *Rng, w [2]int) rune {
	for {
		var c int
		switch r.N(8) {
		case 0:
			c = w[0]
		case 1:
			c = w[1]
		case 2: // multiples where bytes become zero
			c = (w[0] + r.N(w[1]-w[0]+1)) &^ 0x7f
		case 3:
			c = (w[0]+r.N(w[1]-w[0]+1))&^0xff + 0x2600&0xff
		case 4: // zero high byte in the shifted range
			c = 0x2600 + (w[0]+r.N(w[1]-w[0]+1))&^0x7fff + r.N(256)
		default:
			c = w[0] + r.N(w[1]-w[0]+1)
		}
		if c >= 0 && c <= 0x10ffff && (c < 0xd800 || c > 0xdfff) {
			return rune(c)
		}
	}
}

// genText makes a string that stays in a few windows and switches between them.
func genText(r *Rng) string {
	nw := 1 + r.N(4)
	ws := make([][2]int, nw)
	for i := range ws {
		ws[i] = windows[r.N(len(windows))]
	}
	n := r.N(8)
	if r.P(1, 6) {
		n = r.N(60)
		if r.P(1, 60) {
			n = r.N(3000)
		}
	}
	stay := 1 + r.N(6)
	cur := 0
	s := []rune{}
	for i := 0; i < n; i++ {
		if r.N(stay) == 0 {
			cur = r.N(nw)
		}
		if r.P(1, 20) {
			s = append(s, genRune(r))
		} else {
			s = append(s, runeIn(r, ws[cur]))
		}
	}
	return string(s)
}

func shortText(s string) string {
	if x := []rune(s); len(x) > 12 {
		return string(x[:12])
	}
	return s
}

const sweepBlock = 1024

func genUtfc(p *Plan, r *Rng, run int) {
	nt := 1 + r.N(4)
	if run%10 == 4 {
		block := run / 10 % (0x110000 / sweepBlock)
		p.SwitchDen *= 50
		p.Tasks = [][]Op{{{Kind: "sweep", A: block, C: r.N(1 << 30), S: Bytes(shortText(genText(r)))}}}
		if r.P(1, 2) {
			p.Tasks = append(p.Tasks, []Op{{Kind: "sweep", A: r.N(80), C: r.N(1 << 30), S: Bytes(shortText(genText(r)))}})
		}
		return
	}
	long := longRun(run)
	if long == 2 {
		nt = 12 + r.N(maxTasks-11)
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		n := 2 + r.N(14)
		if long == 1 {
			n = 400 + r.N(400)
		}
		for ; n > 0; n-- {
			s := Bytes(genText(r))
			c := r.N(1 << 30)
			switch r.N(10) {
			case 0, 1, 2:
				ops = append(ops, Op{Kind: "enc", A: r.N(3), S: s})
			case 3, 4:
				ops = append(ops, Op{Kind: "dec", S: s})
			case 5, 6, 7:
				a := 0
				if r.P(2, 3) {
					a = 1 + r.N(60)
					if len(s) > 200 {
						a = 1 + r.N(2*len(s))
					}
				}
				ops = append(ops, Op{Kind: "fol", A: a, B: r.N(8), C: c, S: s})
			default:
				ops = append(ops, Op{Kind: "state", A: r.N(9), B: r.N(2), C: c, S: s, L: []int{r.N(60), r.N(1 + len(s))}})
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
}
