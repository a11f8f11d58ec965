package main

import "sort"

// Model is the reference: a sorted list of keys with values.
type Model struct {
	keys []string
	vals []int32
	size int // total length of keys
}

func newModel(kv []KV) *Model {
	m := &Model{}
	for _, x := range kv {
		m.keys = append(m.keys, string(x.K))
		m.vals = append(m.vals, x.V)
		m.size += len(x.K)
	}
	return m
}

func (m *Model) n() int { return len(m.keys) }

func (m *Model) pos(k string) (int, bool) {
	i := sort.SearchStrings(m.keys, k)
	return i, i < len(m.keys) && m.keys[i] == k
}

func (m *Model) find(k string) (int32, bool) {
	i, ok := m.pos(k)
	if !ok {
		return -1, false
	}
	return m.vals[i], true
}

// under returns the range of keys that begin with p.
func (m *Model) under(p string) (int, int) {
	lo := sort.SearchStrings(m.keys, p)
	hi := lo + sort.Search(len(m.keys)-lo, func(i int) bool {
		k := m.keys[lo+i]
		return len(k) < len(p) || k[:len(p)] != p
	})
	return lo, hi
}

func (m *Model) isPrefix(p string) bool {
	if p == "" {
		return true // the root always exists
	}
	lo, hi := m.under(p)
	return lo < hi
}
