package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/deNULL/dawg"
)

// ToolStream is the plan for one file of the tool.
type ToolStream struct {
	Frag     int    `json:"frag"`
	FragSeed uint64 `json:"fragSeed"`
	Zero     int    `json:"zero,omitempty"`
	EOFData  bool   `json:"eofData,omitempty"`
	Fail     string `json:"fail,omitempty"`   // kind of failure, "" none
	FailAt   int    `json:"failAt,omitempty"` // modulo the size of the file
	Refuse   bool   `json:"refuse,omitempty"`
	Once     bool   `json:"once,omitempty"` // later reads or writes succeed again
	OpenErr  string `json:"openErr,omitempty"`
	CloseErr string `json:"closeErr,omitempty"`
}

// ToolPlan is one execution of dawgtool (or of two, one after another).
type ToolPlan struct {
	Mode    string     `json:"mode"` // build or query
	Opts    []string   `json:"opts"`
	Lines   []Bytes    `json:"lines,omitempty"`   // the lexicon, or the queries
	Gen     *GenSpec   `json:"gen,omitempty"`     // lexicon lines made from this
	LongAt  int        `json:"longAt,omitempty"`  // after this line comes one of LongLen bytes
	LongLen int        `json:"longLen,omitempty"` // 0: none
	NoEnd   bool       `json:"noEnd,omitempty"`   // no newline at the end
	Old     []KV       `json:"old,omitempty"`     // a dictionary that is there before the build
	HasOld  bool       `json:"hasOld,omitempty"`
	Keys    []KV       `json:"keys,omitempty"`    // query: the dictionary
	KeyGen  *GenSpec   `json:"keyGen,omitempty"`  // query: keys made from this
	Shuffle uint64     `json:"shuffle,omitempty"` // lexicon lines made from Gen come in another order
	Extra   bool       `json:"extra,omitempty"`
	Flags   bool       `json:"flags,omitempty"` // -l and -d instead of positional
	Chain   bool       `json:"chain,omitempty"` // build: query it with the tool afterwards
	Lex     ToolStream `json:"lex"`
	Dict    ToolStream `json:"dict"`
	Out     ToolStream `json:"out"` // standard output
	CRLF    bool       `json:"crlf,omitempty"`
}

func (tp *ToolPlan) opt(s string) bool {
	for _, o := range tp.Opts {
		if o == s {
			return true
		}
	}
	return false
}

// enc gives the bytes a text is stored as, dec the text of a stored key.
func (tp *ToolPlan) enc(s string) string {
	if tp.opt("-u") {
		return string(dawg.UtfcEncode(s))
	}
	return s
}

func (tp *ToolPlan) dec(k string) string {
	if tp.opt("-u") {
		return dawg.UtfcDecode([]byte(k))
	}
	return k
}

// arts lists what the dictionary file holds for the options.
func (tp *ToolPlan) arts() []int {
	l := []int{aDict}
	if tp.opt("-r") {
		l = append(l, aRanked)
		if tp.opt("-i") {
			l = append(l, aRIndex)
		}
	} else if tp.opt("-g") {
		l = append(l, aGuide)
		if tp.opt("-i") {
			l = append(l, aIndex)
		}
	}
	return l
}

type shimStream struct {
	Frag     int
	FragSeed uint64
	Zero     int
	EOFData  bool
	FailAt   int64
	FailErr  string
	Refuse   bool
	Once     bool
	OpenErr  string
	CloseErr string
}

func (s *ToolStream) shim(size int) shimStream {
	x := shimStream{Frag: s.Frag, FragSeed: s.FragSeed, Zero: s.Zero, EOFData: s.EOFData, FailAt: -1, Refuse: s.Refuse, Once: s.Once, OpenErr: s.OpenErr, CloseErr: s.CloseErr}
	if s.Fail != "" && size > 0 {
		x.FailAt = int64(s.FailAt % size)
		x.FailErr = s.Fail
	}
	return x
}

type toolOutcome struct {
	code   int
	stdout string
	stderr string
	log    []string
}

// hard lists the faults that fired and are not mere fragmentation.
func (o *toolOutcome) hard() []string {
	var h []string
	for _, l := range o.log {
		if strings.HasPrefix(l, "fault ") && !strings.Contains(l, "read-short") && !strings.Contains(l, "read-zero") && !strings.Contains(l, "read-eof-with-data") {
			h = append(h, strings.TrimPrefix(l, "fault "))
		}
	}
	return h
}

type infraPanic struct{ err error }

func infra(err error) {
	if err != nil {
		panic(infraPanic{err})
	}
}

var toolRand uint64 // seed of the next process

var toolDir string // scratch directory of this process

func scratch() string {
	if toolDir == "" {
		base := os.Getenv("VERIF_SCRATCH")
		d, err := os.MkdirTemp(base, "tool")
		infra(err)
		toolDir = d
	}
	return toolDir
}

func runTool(args []string, lexPath string, lex, dict shimStream, std *shimStream) *toolOutcome {
	dir := scratch()
	toolRand = mix(toolRand, 7) | 1
	plan := map[string]interface{}{"LexPath": lexPath, "Lex": lex, "Dict": dict, "Out": std, "Budget": 400000000, "Rand": toolRand, "Log": filepath.Join(dir, "log")}
	js, err := json.Marshal(plan)
	infra(err)
	os.Remove(filepath.Join(dir, "log"))
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VERIF_TOOL"), args...)
	cmd.Dir = dir
	cmd.Env = []string{"VERIF_PLAN=" + string(js), "HOME=" + dir, "PATH=/usr/bin:/bin", "GOMAXPROCS=2", "GODEBUG="}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	out := &toolOutcome{stdout: so.String(), stderr: se.String()}
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) || ctx.Err() != nil {
			infra(fmt.Errorf("running the tool: %v (%v)", err, ctx.Err()))
		}
		out.code = ee.ExitCode()
	}
	if b, err := os.ReadFile(filepath.Join(dir, "log")); err == nil {
		out.log = strings.Split(strings.TrimRight(string(b), "\n"), "\n")
	}
	if out.code == 98 {
		infra(fmt.Errorf("tool shim: %s", out.stderr))
	}
	return out
}

func executeTool(p *Plan) *Result {
	toolRand = mix(p.RunSeed, 5)
	res := &Result{Faults: Faults{}}
	var outs []*toolOutcome
	res.Viol = protect(p.Prop, 0, 0, func() {
		if p.Tool.Mode == "build" {
			outs = toolBuild(p, res)
		} else {
			outs = toolQuery(p, res)
		}
	})
	h := fnv.New64a()
	hs := fnv.New64a()
	for _, o := range outs {
		fmt.Fprintln(h, o.code, o.stdout, o.log)
		res.Steps += int64(len(o.log))
		res.Ops++
		for _, l := range o.log {
			f := strings.Fields(l)
			if len(f) >= 2 && f[0] == "fault" {
				k := f[1]
				if len(f) > 2 {
					if f[2] == "role=0" {
						k += "(lexicon)"
					} else if f[2] == "role=2" {
						k += "(output)"
					} else {
						k += "(dictionary)"
					}
				}
				res.Faults[k]++
			}
			fmt.Fprintln(hs, l)
		}
		fmt.Fprintln(hs, o.code)
	}
	res.TraceHash = h.Sum64()
	res.SchedHash = hs.Sum64()
	return res
}

// keys returns the keys of the dictionary that is queried.
func (tp *ToolPlan) keys() []KV {
	if tp.KeyGen == nil {
		return tp.Keys
	}
	var kv []KV
	seen := map[Bytes]bool{}
	for _, x := range append(materialise(&Content{Gen: tp.KeyGen}), tp.Keys...) {
		x.K = Bytes(cleanKey(string(x.K)))
		if x.K != "" && !seen[x.K] {
			seen[x.K] = true
			kv = append(kv, x)
		}
	}
	sort.Slice(kv, func(i, j int) bool { return kv[i].K < kv[j].K })
	return kv
}

// lexLines returns the lines of the lexicon or query file.
func (tp *ToolPlan) lexLines() []string {
	var l []string
	if tp.Gen != nil {
		for _, kv := range materialise(&Content{Gen: tp.Gen}) {
			k := cleanKey(string(kv.K))
			if tp.opt("-t") {
				k += "\t" + strconv.Itoa(int(kv.V))
			}
			l = append(l, k)
		}
		if tp.Shuffle != 0 {
			r := &Rng{tp.Shuffle}
			for i := len(l) - 1; i > 0; i-- {
				j := r.N(i + 1)
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	for _, x := range tp.Lines {
		l = append(l, string(x))
	}
	if tp.LongLen > 0 {
		at := 0
		if len(l) > 0 {
			at = tp.LongAt % len(l)
		}
		if tp.LongAt < 0 {
			at = len(l)
		}
		long := strings.Repeat("z", tp.LongLen)
		if tp.opt("-t") {
			long += "\t1"
		}
		l = append(l[:at], append([]string{long}, l[at:]...)...)
	}
	return l
}

func (tp *ToolPlan) fileBytes(lines []string) []byte {
	nl := "\n"
	if tp.CRLF {
		nl = "\r\n"
	}
	s := strings.Join(lines, nl)
	if len(lines) > 0 && !tp.NoEnd {
		s += nl
	}
	return []byte(s)
}

func toolBuild(p *Plan, res *Result) []*toolOutcome {
	tp := p.Tool
	dir := scratch()
	lexPath, dictPath := filepath.Join(dir, "lex"), filepath.Join(dir, "dict")
	lines := tp.lexLines()
	data := tp.fileBytes(lines)
	infra(os.WriteFile(lexPath, data, 0o600))
	os.Remove(dictPath)

	// What the lexicon says.
	allowed := map[string][]int32{}
	valid := true
	last, any := "", false
	for _, l := range lines {
		if l == "" {
			continue
		}
		key, val := l, 0
		if tp.opt("-t") {
			f := strings.Split(l, "\t")
			key = f[0]
			val, _ = strconv.Atoi(f[1])
			if val < 0 {
				val = 0
			} else if val > 1<<31-1 {
				val = 1<<31 - 1
			}
		}
		if len(l) > 60000 {
			valid = false
		}
		if tp.opt("-u") {
			key = string(dawg.UtfcEncode(key))
		}
		if any && key < last && !tp.opt("-s") || strings.IndexByte(key, 0) >= 0 {
			valid = false
		}
		last, any = key, true
		allowed[key] = append(allowed[key], int32(val))
	}

	var old []byte
	if tp.HasOld {
		w := buildWorld(&Content{Keys: tp.Old}, res.Faults)
		for _, a := range tp.arts() {
			old = append(old, w.img[a]...)
		}
		infra(os.WriteFile(dictPath, old, 0o600))
	}

	// The size of the complete file, to aim at.
	size := 64
	{
		b := dawg.NewDawgBuilder()
		kv := make([]KV, 0, len(allowed))
		for k, v := range allowed {
			kv = append(kv, KV{Bytes(k), v[len(v)-1]})
		}
		sort.Slice(kv, func(i, j int) bool { return kv[i].K < kv[j].K })
		for _, x := range kv {
			b.InsertStringValue(string(x.K), x.V)
		}
		d := dawg.NewDawg()
		b.Finish(d)
		o := derive(d)
		size = 0
		for _, a := range tp.arts() {
			size += o.fileSize(a)
		}
	}

	args := append([]string{"-b"}, tp.Opts...)
	if tp.Flags {
		args = append(args, "-l", lexPath, "-d", dictPath)
	} else {
		args = append(args, lexPath, dictPath)
	}
	lexSize := len(data)
	if tp.Lex.Fail != "" {
		lexSize++ // also right at the end
	}
	out := runTool(args, lexPath, tp.Lex.shim(lexSize), tp.Dict.shim(size), nil)
	outs := []*toolOutcome{out}
	res.Checks++
	hard := out.hard()
	if out.code == 99 {
		fail("hang", "dawgtool %s does not finish", strings.Join(args[:len(args)-2], " "))
	}
	file, err := os.ReadFile(dictPath)
	exists := err == nil

	// load opens the file with the options; nil if it is refused.
	load := func() *Objs {
		r := bytes.NewReader(file)
		var o Objs
		for _, a := range tp.arts() {
			if !o.read(a, r, false) {
				return nil
			}
		}
		return &o
	}
	verify := func(o *Objs, why string) {
		// a key given more than once has the value of its last line
		kv := make([]KV, 0, len(allowed))
		var keys []string
		for k := range allowed {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			vs := allowed[k]
			got := o.dict.FindString(k)
			if got != vs[len(vs)-1] {
				fail("content", "%s, but key %q has value %d, want %d", why, k, got, vs[len(vs)-1])
			}
			kv = append(kv, KV{Bytes(k), got})
		}
		sort.Slice(kv, func(i, j int) bool { return kv[i].K < kv[j].K })
		w := &World{m: newModel(kv), kv: kv, lite: len(kv) > 2000}
		checkObjs(w, o, p.RunSeed)
	}

	if out.code == 0 {
		if len(hard) > 0 {
			fail("lied", "dawgtool exits with 0 although %s", strings.Join(hard, ", "))
		}
		if !exists {
			fail("lied", "dawgtool exits with 0 without a dictionary file")
		}
		o := load()
		if o == nil {
			fail("lied", "dawgtool exits with 0, but the dictionary file (%d bytes) cannot be loaded", len(file))
		}
		verify(o, "dawgtool exits with 0")
		if tp.Chain && (len(tp.arts()) > 1 || allowed[""] == nil) {
			var kv []KV
			for k := range allowed {
				kv = append(kv, KV{Bytes(k), o.dict.FindString(k)})
			}
			sort.Slice(kv, func(i, j int) bool { return kv[i].K < kv[j].K })
			q := &ToolPlan{Mode: "query", Opts: tp.Opts, NoEnd: tp.NoEnd}
			for i := 0; i < len(kv); i += 1 + len(kv)/20 {
				k := []rune(tp.dec(string(kv[i].K)))
				if tp.opt("-u") {
					q.Lines = append(q.Lines, Bytes(k), Bytes(k[:len(k)/2]))
				} else {
					q.Lines = append(q.Lines, kv[i].K, kv[i].K[:len(kv[i].K)/2])
				}
			}
			outs = append(outs, runQuery(q, newModel(kv), dictPath, len(file), len(file), p.RunSeed))
			res.Checks++
		}
		return outs
	}
	if len(hard) == 0 && valid {
		fail("refused", "dawgtool fails with status %d on a valid lexicon and healthy files: %s", out.code, firstLine(out.stderr))
	}
	if exists && len(file) > 0 && !(tp.HasOld && bytes.Equal(file, old)) {
		if o := load(); o != nil {
			verify(o, fmt.Sprintf("the file left behind by a failed build (status %d) is accepted", out.code))
		}
	}
	return outs
}

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

func toolQuery(p *Plan, res *Result) []*toolOutcome {
	tp := p.Tool
	dir := scratch()
	dictPath := filepath.Join(dir, "dict")
	kv := tp.keys()
	keys := make([]KV, 0, len(kv))
	for _, x := range kv {
		keys = append(keys, KV{Bytes(tp.enc(string(x.K))), x.V})
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].K < keys[j].K })
	w := buildWorld(&Content{Keys: keys}, res.Faults)
	var file []byte
	for _, a := range tp.arts() {
		file = append(file, w.img[a]...)
	}
	needed := len(file)
	if tp.Extra {
		file = append(file, "trailing data"...)
	}
	infra(os.WriteFile(dictPath, file, 0o600))
	out := runQuery(tp, w.m, dictPath, needed, len(file), p.RunSeed)
	res.Checks++
	return []*toolOutcome{out}
}

// runQuery runs the tool in load mode and judges its output.
func runQuery(tp *ToolPlan, m *Model, dictPath string, needed, fileLen int, seed uint64) *toolOutcome {
	dir := scratch()
	lexPath := filepath.Join(dir, "query")
	var queries []string
	queries = tp.lexLines()
	if n := len(queries); tp.NoEnd && n > 0 && queries[n-1] == "" {
		queries = queries[:n-1] // nothing after the last newline
		cut := *tp
		cut.NoEnd = false
		tp = &cut
	}
	// A line that is too long for the scanner makes the tool fail, which is fine.
	long := false
	for _, q := range queries {
		long = long || len(q) > 60000
	}
	data := tp.fileBytes(queries)
	infra(os.WriteFile(lexPath, data, 0o600))
	var args []string
	for _, o := range tp.Opts {
		if o == "-g" || o == "-r" || o == "-i" || o == "-u" {
			args = append(args, o)
		}
	}
	if tp.Flags {
		args = append(args, "-d", dictPath, "-l", lexPath)
	} else {
		args = append(args, lexPath, dictPath)
	}
	ranked := tp.opt("-r")
	guided := ranked || tp.opt("-g")
	numbered := guided && tp.opt("-i")
	var std *shimStream
	if tp.Out.Fail != "" {
		// about as long as the output
		n := 0
		for _, q := range queries {
			n += len(q) + 2
			if lo, hi := m.under(tp.enc(q)); guided {
				n += (hi - lo) * (len(q) + 8)
			}
		}
		if numbered {
			n += 16 + m.size + 4*m.n()
		}
		x := tp.Out.shim(n + 1)
		std = &x
	}
	out := runTool(args, lexPath, tp.Lex.shim(len(data)+1), tp.Dict.shim(fileLen), std)
	if out.code == 99 {
		fail("hang", "dawgtool does not finish")
	}
	hardDict, hardLex, hardOut := "", "", ""
	stdout := out.stdout
	for _, h := range out.hard() {
		if strings.Contains(h, "role=2") {
			if hardOut == "" { // what was printed before
				n, err := strconv.Atoi(h[strings.Index(h, "off=")+4:])
				infra(err)
				stdout = stdout[:min(n, len(stdout))]
			}
			hardOut = h
		} else if strings.Contains(h, "role=0") {
			hardLex = h
		} else if !strings.Contains(h, "at=") || tp.Dict.FailAt%max(fileLen, 1) < needed {
			hardDict = h
		}
	}
	if out.code == 0 && hardDict != "" {
		fail("lied", "dawgtool exits with 0 although the dictionary file failed: %s", hardDict)
	}
	if out.code == 0 && hardLex != "" {
		fail("lied", "dawgtool exits with 0 although the query file failed: %s", hardLex)
	}
	if out.code == 0 && hardOut != "" {
		fail("lied", "dawgtool exits with 0 although the answers could not be written: %s", hardOut)
	}
	if out.code != 0 && len(out.hard()) == 0 && !long {
		fail("refused", "dawgtool fails with status %d on healthy files: %s", out.code, firstLine(out.stderr))
	}
	complete := out.code == 0

	lines := strings.Split(stdout, "\n")
	tail := lines[len(lines)-1]
	lines = lines[:len(lines)-1]
	if complete && tail != "" {
		fail("output", "the output does not end with a complete line: %q", tail)
	}
	numbers := map[uint32]string{}
	checkNumber := func(n uint32, key string) {
		pos, ok := m.pos(tp.enc(key))
		if !ok {
			fail("output", "number %d is given to %q, which is not a key", n, key)
		}
		if !ranked && uint32(pos) != n {
			fail("output", "number %d is given to %q, want %d", n, key, pos)
		}
		if k, ok := numbers[n]; ok && k != key {
			fail("output", "number %d is given to %q and %q", n, k, key)
		}
		if n >= uint32(m.n()) {
			fail("output", "number %d is given to %q, but there are only %d keys", n, key, m.n())
		}
		numbers[n] = key
	}
	i := 0
	for ; i < len(queries) && i < len(lines); i++ {
		q := queries[i]
		line := lines[i]
		if !strings.HasPrefix(line, q+":") {
			// the last query may have been cut off by a failing read
			c := strings.IndexByte(line, ':')
			if complete || hardLex == "" || c < 0 || !strings.HasPrefix(q, line[:c]) {
				fail("output", "output line %d should answer %q: %q", i, q, line)
			}
			q = line[:c]
		}
		checkAnswer(tp, m, q, line[len(q)+1:], ranked, guided, numbered, checkNumber)
	}
	if complete && i < len(queries) {
		fail("output", "only %d of %d queries are answered", i, len(queries))
	}
	rest := lines[i:]
	if !numbered {
		if len(rest) > 0 {
			fail("output", "unexpected output after the answers: %q", rest[0])
		}
		return out
	}
	if len(rest) > 0 {
		if want := fmt.Sprintf("Total words: %d", m.n()); rest[0] != want {
			fail("output", "output has %q, want %q", rest[0], want)
		}
		for j, l := range rest[1:] {
			pre := fmt.Sprintf("%d: ", j)
			if !strings.HasPrefix(l, pre) {
				fail("output", "listing line %d is %q", j, l)
			}
			checkNumber(uint32(j), l[len(pre):])
		}
	}
	if complete {
		if len(rest) != m.n()+1 {
			fail("output", "the listing has %d lines for %d keys", len(rest)-1, m.n())
		}
		seen := map[string]bool{}
		for n := 0; n < m.n(); n++ {
			k := numbers[uint32(n)]
			if seen[k] {
				fail("output", "the key %q has two numbers", k)
			}
			seen[k] = true
		}
	}
	return out
}

func checkAnswer(tp *ToolPlan, m *Model, q, got string, ranked, guided, numbered bool, number func(uint32, string)) {
	e := tp.enc(q)
	if numbered {
		_, ok := m.pos(e)
		switch {
		case strings.HasPrefix(got, " (not found)"):
			if ok {
				fail("output", "the key %q is reported as not found", q)
			}
			got = got[len(" (not found)"):]
		case strings.HasPrefix(got, " (#"):
			e := strings.IndexByte(got, ')')
			n, err := strconv.ParseUint(got[3:max(e, 3)], 10, 32)
			if e < 0 || err != nil {
				fail("output", "bad number for %q: %q", q, got)
			}
			number(uint32(n), q)
			got = got[e+1:]
		default:
			fail("output", "no number for %q: %q", q, got)
		}
	}
	if !ranked {
		var b strings.Builder
		if guided {
			lo, hi := m.under(e)
			for i := lo; i < hi; i++ {
				fmt.Fprintf(&b, " %s = %d;", tp.dec(m.keys[i]), m.vals[i])
			}
		} else {
			for i := 1; i <= len(e); i++ {
				if v, ok := m.find(e[:i]); ok {
					fmt.Fprintf(&b, " %s = %d;", tp.dec(e[:i]), v)
				}
			}
		}
		if got != b.String() {
			fail("output", "answer for %q is %q, want %q", q, got, b.String())
		}
		return
	}
	lo, hi := m.under(e)
	n := 0
	last := int64(1 << 40)
	seen := map[string]bool{}
	for got != "" {
		e := strings.IndexByte(got, ';')
		if e < 0 || got[0] != ' ' {
			fail("output", "bad answer for %q: %q", q, got)
		}
		item := got[1:e]
		got = got[e+1:]
		s := strings.LastIndex(item, " = ")
		if s < 0 {
			fail("output", "bad answer for %q: %q", q, item)
		}
		k := item[:s]
		v, ok := m.find(tp.enc(k))
		if !ok || !strings.HasPrefix(k, q) || seen[k] || strconv.Itoa(int(v)) != item[s+3:] {
			fail("output", "wrong item in the answer for %q: %q", q, item)
		}
		seen[k] = true
		if int64(v) > last {
			fail("output", "answer for %q is not ordered by value at %q", q, item)
		}
		last = int64(v)
		n++
	}
	if n != hi-lo {
		fail("output", "answer for %q has %d of %d keys", q, n, hi-lo)
	}
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// cleanKey removes bytes that have a meaning in the files of the tool.
func cleanKey(k string) string {
	b := []byte(k)
	for i := range b {
		switch b[i] {
		case 0, '\n', '\r', '\t', ' ', ';', ':', '=', '(', ')':
			b[i] = 'q'
		}
	}
	return string(b)
}

func genErr(r *Rng, read bool) string {
	if read {
		return []string{"EIO", "EIO", "ETIMEDOUT", "EINTR", "EAGAIN", "CRASH", "CRASH"}[r.N(7)]
	}
	return []string{"EIO", "EIO", "ENOSPC", "ENOSPC", "ENOSPC", "EDQUOT", "EFBIG", "EINTR", "EAGAIN", "CRASH", "CRASH", "CRASH"}[r.N(12)]
}

func genToolStream(r *Rng) ToolStream {
	s := ToolStream{Frag: r.N(3), FragSeed: r.U64()}
	if r.P(1, 4) {
		s.Zero = 2 + r.N(5)
	}
	s.EOFData = r.P(1, 3)
	return s
}

func genToolKeys(r *Rng, utf bool) []KV {
	c := genContent(r, []int{0, 1, 1, 2, 2, 2, 3})
	m := map[string]int32{}
	for i, x := range c.Keys {
		k := cleanKey(string(x.K))
		if utf {
			k = cleanKey(genText(r))
			if !validText(k) {
				continue
			}
		}
		m[k] = genValue(r, r.N(nValStyles), i, k)
	}
	var kv []KV
	for k, v := range m {
		kv = append(kv, KV{Bytes(k), v})
	}
	sort.Slice(kv, func(i, j int) bool { return kv[i].K < kv[j].K })
	return kv
}

func validText(s string) bool { return strings.ToValidUTF8(s, "") == s }

func genGuideOpts(r *Rng) []string {
	if r.P(1, 20) {
		return []string{"-i"} // without a guide there are no numbers
	}
	switch r.N(6) {
	case 0:
		return nil
	case 1:
		return []string{"-g"}
	case 2:
		return []string{"-r"}
	case 3:
		return []string{"-g", "-i"}
	case 4:
		return []string{"-r", "-i"}
	}
	return []string{"-g", "-r", "-i"}
}

// genLong adds a long line now and then, mostly one the tool has to cope with.
func genLong(tp *ToolPlan, r *Rng) {
	switch r.N(40) {
	case 0:
		tp.LongLen = 65530 + r.N(3000)
		tp.LongAt = r.N(1000)
	case 1:
		tp.LongLen = 4090 + r.N(12)
		tp.LongAt = -1
	case 2:
		tp.LongLen = 300 + r.N(55000)
		tp.LongAt = -1
	}
}

func genToolBuild(p *Plan, r *Rng, run int) {
	tp := &ToolPlan{Mode: "build", Opts: genGuideOpts(r), Flags: r.P(1, 2), NoEnd: r.P(1, 3), Lex: genToolStream(r), Dict: genToolStream(r)}
	p.Tool = tp
	tab, utf, srt := r.P(2, 3), r.P(1, 3), r.P(1, 2)
	if tab {
		tp.Opts = append(tp.Opts, "-t")
	}
	if utf {
		tp.Opts = append(tp.Opts, "-u")
	}
	if srt {
		tp.Opts = append(tp.Opts, "-s")
	}
	tp.Chain = r.P(1, 3)
	tp.CRLF = r.P(1, 12)
	if r.P(1, 2) {
		tp.HasOld = true
		tp.Old = genToolKeys(r, false)
	}
	if r.P(1, 40) && (!utf || srt) {
		if srt {
			tp.Shuffle = r.U64()
		}
		tp.Gen = &GenSpec{Seed: r.U64(), N: 2000 + r.N(9000), Style: []int{1, 4, 7}[r.N(3)], Vals: r.N(nValStyles)}
	} else {
		kv := genToolKeys(r, utf)
		enc := func(k Bytes) string {
			if utf {
				return string(dawg.UtfcEncode(string(k)))
			}
			return string(k)
		}
		sort.Slice(kv, func(i, j int) bool { return enc(kv[i].K) < enc(kv[j].K) })
		for i, x := range kv {
			l := string(x.K)
			if tab {
				l += "\t" + strconv.Itoa(int(x.V))
				switch r.N(40) {
				case 0:
					l = string(x.K) + "\t" + strconv.Itoa(-1-r.N(1<<30))
				case 1:
					l = string(x.K) + "\t" + strconv.Itoa(1<<31+r.N(1<<40))
				case 2:
					l = string(x.K) + "\t" + strconv.Itoa(int(x.V)) + "\tmore"
				}
			}
			tp.Lines = append(tp.Lines, Bytes(l))
			if r.P(1, 30) && i > 0 { // the same key again, or a blank line
				if r.P(1, 2) {
					if tab && r.P(1, 2) {
						l = string(x.K) + "\t" + strconv.Itoa(r.N(1000))
					}
					tp.Lines = append(tp.Lines, Bytes(l))
				} else {
					tp.Lines = append(tp.Lines, "")
				}
			}
		}
		if n := len(tp.Lines); n > 0 && r.P(1, 20) { // a key that cannot be stored
			i := r.N(n)
			k := string(tp.Lines[i])
			j := r.N(strings.IndexByte(k+"\t", '\t') + 1)
			if utf {
				j = 0
			}
			if k == "" {
				k = "z\t0"
			}
			tp.Lines = append(tp.Lines[:i+1], append([]Bytes{Bytes(k[:j] + "\x00" + k[j:])}, tp.Lines[i+1:]...)...)
		}
		if srt && r.P(4, 5) || r.P(1, 12) {
			for i := len(tp.Lines) - 1; i > 0; i-- {
				j := r.N(i + 1)
				tp.Lines[i], tp.Lines[j] = tp.Lines[j], tp.Lines[i]
			}
		}
	}
	genLong(tp, r)
	switch r.N(10) {
	case 0, 1:
	case 2:
		tp.Dict.OpenErr = []string{"EACCES", "EMFILE", "ENOSPC", "CRASH"}[r.N(4)]
	case 3:
		if r.P(1, 3) {
			tp.Lex.OpenErr = []string{"EACCES", "ENOENT", "EMFILE"}[r.N(3)]
		} else {
			tp.Dict.CloseErr = []string{"EIO", "ENOSPC", "CRASH"}[r.N(3)]
		}
	case 4, 5:
		tp.Lex.Fail = genErr(r, true)
		tp.Lex.FailAt = r.N(1 << 30)
		tp.Lex.Once = r.P(1, 3)
	default:
		tp.Dict.Fail = genErr(r, false)
		tp.Dict.FailAt = r.N(1 << 30)
		tp.Dict.Refuse = r.P(1, 2)
		tp.Dict.Once = r.P(1, 3)
		if r.P(1, 4) {
			tp.Dict.FailAt = r.N(16)
		}
	}
}

func genToolQuery(p *Plan, r *Rng, run int) {
	tp := &ToolPlan{Mode: "query", Opts: genGuideOpts(r), Flags: r.P(1, 2), NoEnd: r.P(1, 3), Lex: genToolStream(r), Dict: genToolStream(r), Extra: r.P(1, 4)}
	p.Tool = tp
	utf := r.P(1, 4)
	tp.Keys = genToolKeys(r, utf)
	tp.CRLF = r.P(1, 12)
	if len(tp.arts()) == 1 && len(tp.Keys) > 0 && tp.Keys[0].K == "" {
		tp.Keys = tp.Keys[1:] // the tool lists no empty prefix
	}
	if r.P(1, 60) {
		tp.KeyGen = &GenSpec{Seed: r.U64(), N: 1000 + r.N(11000), Style: []int{1, 4, 7}[r.N(3)], Vals: r.N(nValStyles)}
	}
	m := newModel(tp.keys())
	for n := r.N(20); n > 0; n-- {
		q := genQuery(r, m)
		if r.P(1, 2) {
			q = genPrefix(r, m)
		}
		q = cleanKey(q)
		if utf {
			q = strings.ToValidUTF8(q, "")
			if r.P(1, 6) {
				q = cleanKey(genText(r))
			}
		}
		if r.P(1, 15) {
			j := r.N(len(q) + 1)
			if utf {
				j = []int{0, len(q)}[r.N(2)]
			}
			q = q[:j] + "\x00" + q[j:]
		}
		tp.Lines = append(tp.Lines, Bytes(q))
	}
	if utf && r.P(3, 4) {
		tp.Opts = append(tp.Opts, "-u")
	}
	genLong(tp, r)
	switch r.N(12) {
	case 0, 1, 2:
	case 10, 11:
		tp.Out.Fail = genErr(r, false)
		tp.Out.FailAt = r.N(1 << 30)
		tp.Out.Refuse = r.P(1, 2)
		tp.Out.Once = r.P(1, 3)
	case 3:
		tp.Dict.OpenErr = []string{"EACCES", "EMFILE", "ENOENT"}[r.N(3)]
	case 4:
		if r.P(1, 3) {
			tp.Lex.OpenErr = []string{"EACCES", "ENOENT", "EMFILE"}[r.N(3)]
		} else {
			tp.Lex.Fail = genErr(r, true)
			tp.Lex.FailAt = r.N(1 << 30)
			tp.Lex.Once = r.P(1, 3)
		}
	case 5:
		tp.Lex.Fail = genErr(r, true)
		tp.Lex.FailAt = r.N(1 << 30)
		tp.Lex.Once = r.P(1, 3)
	default:
		tp.Dict.Fail = []string{genErr(r, true), "EOF"}[r.N(2)]
		tp.Dict.FailAt = r.N(1 << 30)
		tp.Dict.Once = r.P(1, 3) && tp.Dict.Fail != "EOF"
		if r.P(1, 4) {
			tp.Dict.FailAt = r.N(16)
		}
	}
}
