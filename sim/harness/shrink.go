package main

import (
	"encoding/json"
	"time"
)

// shrink minimises a replay file in place: every candidate is executed in a
// fresh process and kept only if it shows the same class of violation.
func (c *checker) shrink(rf *ReplayFile, limit time.Duration) {
	deadline := time.Now().Add(limit)
	class := rf.Violation.Class
	try := func(cand *ReplayFile) bool {
		if time.Now().After(deadline) {
			return false
		}
		x, err := c.execPlan(cand, 20*time.Second)
		if err != nil || x.Viol == nil || x.Viol.Class != class {
			return false
		}
		*rf = *cand
		rf.Violation = x.Viol
		rf.TraceHash = x.TraceHash
		return true
	}
	clone := func() *ReplayFile {
		js, _ := json.Marshal(rf)
		n := &ReplayFile{}
		json.Unmarshal(js, n)
		return n
	}
	// ddmin removes parts of a list of n elements; edit returns the candidate
	// without the elements [from, to).
	ddmin := func(count func() int, edit func(cand *ReplayFile, from, to int)) bool {
		any := false
		for size := (count() + 1) / 2; size >= 1; size /= 2 {
			for from := 0; from < count(); {
				to := min(from+size, count())
				cand := clone()
				edit(cand, from, to)
				if try(cand) {
					any = true
				} else {
					from = to
				}
				if time.Now().After(deadline) {
					return any
				}
			}
		}
		return any
	}
	for round := 0; round < 6; round++ {
		any := false
		if len(rf.PreludeRuns) > 0 {
			any = ddmin(func() int { return len(rf.PreludeRuns) }, func(x *ReplayFile, a, b int) {
				x.PreludeRuns = append(x.PreludeRuns[:a], x.PreludeRuns[b:]...)
			}) || any
		}
		if rf.Plan.Restart {
			cand := clone()
			cand.Plan.Restart = false
			any = try(cand) || any
		}
		// generated contents: smaller
		for i := range rf.Plan.Contents {
			for rf.Plan.Contents[i].Gen != nil && rf.Plan.Contents[i].Gen.N > 1 {
				cand := clone()
				cand.Plan.Contents[i].Gen.N /= 2
				if !try(cand) {
					break
				}
				any = true
			}
			if g := rf.Plan.Contents[i].Gen; g != nil && g.N <= 3000 {
				cand := clone()
				cand.Plan.Contents[i].Keys = materialise(&cand.Plan.Contents[i])
				cand.Plan.Contents[i].Gen = nil
				any = try(cand) || any
			}
		}
		if len(rf.Plan.Tasks) > 0 {
			any = ddmin(func() int { return len(rf.Plan.Tasks) }, func(x *ReplayFile, a, b int) { dropTasks(x.Plan, a, b) }) || any
		}
		for t := 0; t < len(rf.Plan.Tasks); t++ {
			t := t
			any = ddmin(func() int { return len(rf.Plan.Tasks[t]) }, func(x *ReplayFile, a, b int) { dropOps(x.Plan, t, a, b) }) || any
		}
		if rf.Plan.Replay {
			any = ddmin(func() int { return len(rf.Plan.Switches) }, func(x *ReplayFile, a, b int) {
				x.Plan.Switches = append(x.Plan.Switches[:a], x.Plan.Switches[b:]...)
			}) || any
		}
		for i := range rf.Plan.Contents {
			i := i
			any = ddmin(func() int { return len(rf.Plan.Contents[i].Keys) }, func(x *ReplayFile, a, b int) {
				k := x.Plan.Contents[i].Keys
				x.Plan.Contents[i].Keys = append(k[:a], k[b:]...)
			}) || any
			for _, f := range []func(*Content){
				func(k *Content) { k.Reload = nil },
				func(k *Content) { k.Hash = 0 },
				func(k *Content) { simplerIO(k.Reload) },
			} {
				cand := clone()
				f(&cand.Plan.Contents[i])
				if !sameJSON(cand, rf) {
					any = try(cand) || any
				}
			}
		}
		for t := range rf.Plan.Tasks {
			for o := 0; o < len(rf.Plan.Tasks[t]); o++ {
				for _, f := range []func(*Op){
					func(x *Op) { simplerIO(x.IO) },
					func(x *Op) {
						if x.IO != nil {
							x.IO.Fail, x.IO.FailAt, x.IO.FailKind, x.IO.Err, x.IO.WithData = false, 0, 0, 0, false
						}
					},
					func(x *Op) {
						if x.IO != nil {
							x.IO.FailAt %= 1024
						}
					},
					func(x *Op) { x.C %= 16 },
					func(x *Op) {
						if x.Kind != "same" && x.Kind != "ins" && len(x.S) > 1 && x.Kind != "enc" && x.Kind != "dec" && x.Kind != "fol" && x.Kind != "state" {
							x.S = x.S[:len(x.S)-1]
						}
					},
					func(x *Op) {
						if r := []rune(string(x.S)); len(r) > 1 && (x.Kind == "enc" || x.Kind == "dec" || x.Kind == "fol" || x.Kind == "state") {
							x.S = Bytes(string(r[:len(r)-1]))
						}
					},
					func(x *Op) {
						if r := []rune(string(x.S)); len(r) > 1 && (x.Kind == "enc" || x.Kind == "dec" || x.Kind == "fol" || x.Kind == "state") {
							x.S = Bytes(string(r[1:]))
						}
					},
				} {
					for k := 0; k < 64; k++ {
						cand := clone()
						f(&cand.Plan.Tasks[t][o])
						if sameJSON(cand, rf) || !try(cand) {
							break
						}
						any = true
					}
				}
			}
		}
		if tp := rf.Plan.Tool; tp != nil {
			any = ddmin(func() int { return len(rf.Plan.Tool.Lines) }, func(x *ReplayFile, a, b int) {
				x.Plan.Tool.Lines = append(x.Plan.Tool.Lines[:a], x.Plan.Tool.Lines[b:]...)
			}) || any
			any = ddmin(func() int { return len(rf.Plan.Tool.Keys) }, func(x *ReplayFile, a, b int) {
				x.Plan.Tool.Keys = append(x.Plan.Tool.Keys[:a], x.Plan.Tool.Keys[b:]...)
			}) || any
			any = ddmin(func() int { return len(rf.Plan.Tool.Old) }, func(x *ReplayFile, a, b int) {
				x.Plan.Tool.Old = append(x.Plan.Tool.Old[:a], x.Plan.Tool.Old[b:]...)
			}) || any
			for _, f := range []func(*ToolPlan){
				func(x *ToolPlan) {
					if x.Gen != nil && x.Gen.N > 1 {
						x.Gen.N /= 2
					}
				},
				func(x *ToolPlan) { x.Gen = nil },
				func(x *ToolPlan) {
					if x.KeyGen != nil && x.KeyGen.N > 1 {
						x.KeyGen.N /= 2
					}
				},
				func(x *ToolPlan) { x.KeyGen = nil },
				func(x *ToolPlan) { x.Shuffle = 0 },
				func(x *ToolPlan) { x.LongLen = 0 },
				func(x *ToolPlan) { x.HasOld, x.Old = false, nil },
				func(x *ToolPlan) { x.Chain = false },
				func(x *ToolPlan) { x.Extra = false },
				func(x *ToolPlan) { x.NoEnd = false },
				func(x *ToolPlan) { x.Lex = ToolStream{} },
				func(x *ToolPlan) { x.Dict = ToolStream{} },
				func(x *ToolPlan) { x.Lex.Frag, x.Lex.FragSeed, x.Lex.Zero, x.Lex.EOFData = 0, 0, 0, false },
				func(x *ToolPlan) { x.Dict.Frag, x.Dict.FragSeed, x.Dict.Zero, x.Dict.EOFData = 0, 0, 0, false },
				func(x *ToolPlan) { x.Dict.FailAt %= 1024 },
				func(x *ToolPlan) { x.Dict.FailAt %= 64 },
				func(x *ToolPlan) { x.Lex.FailAt %= 64 },
			} {
				cand := clone()
				f(cand.Plan.Tool)
				if !sameJSON(cand, rf) {
					any = try(cand) || any
				}
			}
		}
		if !any || time.Now().After(deadline) {
			return
		}
	}
}

func sameJSON(a, b *ReplayFile) bool {
	x, _ := json.Marshal(a.Plan)
	y, _ := json.Marshal(b.Plan)
	return string(x) == string(y)
}

func simplerIO(io *IOSpec) {
	if io != nil {
		io.Frag, io.FragSeed, io.Zero, io.EOFData, io.Type = 0, 0, 0, false, 0
	}
}

func dropTasks(p *Plan, a, b int) {
	n := b - a
	p.Tasks = append(p.Tasks[:a], p.Tasks[b:]...)
	var sw []Switch
	move := func(t int) int {
		if t >= b {
			return t - n
		}
		return t
	}
	for _, s := range p.Switches {
		if (s.Task >= a && s.Task < b) || (s.To >= a && s.To < b) {
			continue
		}
		s.Task, s.To = move(s.Task), move(s.To)
		sw = append(sw, s)
	}
	p.Switches = sw
	if p.Start >= a && p.Start < b {
		p.Start = 0
	} else {
		p.Start = move(p.Start)
	}
}

func dropOps(p *Plan, t, a, b int) {
	n := b - a
	p.Tasks[t] = append(p.Tasks[t][:a], p.Tasks[t][b:]...)
	var sw []Switch
	for _, s := range p.Switches {
		if s.Task == t && s.Step >= 0 {
			if s.Op >= a && s.Op < b {
				continue
			}
			if s.Op >= b {
				s.Op -= n
			}
		}
		sw = append(sw, s)
	}
	p.Switches = sw
}
