package main

import (
	"encoding/binary"

	"github.com/deNULL/dawg"
)

// Counts of the minimal automaton of a content, from the model alone.

type minimal struct {
	ids   map[string]int
	count map[int]int // how often a state occurs in the tree of all prefixes
	trans int         // transitions of the distinct states
	tree  int         // transitions of the tree

}

// state returns the number of the state after p bytes of keys lo..hi-1.
func (x *minimal) state(m *Model, lo, hi, p int) int {
	var sig []byte
	n := 0
	add := func(label byte, v uint64) {
		sig = append(sig, label)
		sig = binary.AppendUvarint(sig, v)
		n++
	}
	i := lo
	if len(m.keys[i]) == p {
		add(0, uint64(m.vals[i]))
		i++
	}
	for i < hi {
		b := m.keys[i][p]
		j := i + 1
		for j < hi && m.keys[j][p] == b {
			j++
		}
		add(b, uint64(x.state(m, i, j, p+1)))
		i = j
	}
	x.tree += n
	id, ok := x.ids[string(sig)]
	if !ok {
		id = len(x.ids) + 1
		x.ids[string(sig)] = id
		x.trans += n
	}
	x.count[id]++
	return id
}

// minimalStats are the counts statsOf has to report.
func minimalStats(m *Model) [6]int {
	x := &minimal{ids: map[string]int{}, count: map[int]int{}}
	if m.n() > 0 {
		x.state(m, 0, m.n(), 0)
	}
	merging := 0
	for _, c := range x.count {
		if c > 1 {
			merging++
		}
	}
	states := len(x.ids) + 1
	return [6]int{x.trans + 1, states, x.trans, x.tree + 1 - states, merging, x.tree - x.trans}
}

// reachable counts the states and transitions that can be walked to.
func reachable(d *dawg.Dawg) (int, int) {
	states, trans := 1, 0
	seen := map[uint32]bool{}
	stack := []uint32{d.Root()}
	for len(stack) > 0 {
		at := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		c := d.Child(at)
		if c == 0 || seen[c] {
			continue
		}
		seen[c] = true
		states++
		for ; c != 0; c = d.Sibling(c) {
			trans++
			if !d.IsLeaf(c) {
				stack = append(stack, c)
			}
		}
	}
	return states, trans
}

func checkMinimal(d *dawg.Dawg, m *Model, want [6]int) {
	if s, t := reachable(d); s != want[1] || t != want[2] {
		fail("minimal", "the automaton of %d keys has %d states and %d transitions, the minimal one has %d and %d", m.n(), s, t, want[1], want[2])
	}
	if got := statsOf(d); got != want {
		fail("counts", "counts (size, states, transitions, merged states, merging states, merged transitions) of the automaton of %d keys are %v, of the minimal one %v", m.n(), got, want)
	}
}
