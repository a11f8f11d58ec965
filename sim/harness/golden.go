package main

import (
	_ "embed"
	"encoding/json"
)

// Images written by the released version (commit f651fce), with their content.
//
//go:embed golden.json
var goldenJSON []byte

type Golden struct {
	Name                       string
	Keys                       []KV
	Dict, Guide, Ranked, Index []byte
	w                          *World
}

var goldens []*Golden

func loadGoldens() {
	if goldens != nil {
		return
	}
	if err := json.Unmarshal(goldenJSON, &goldens); err != nil {
		panic(infraPanic{err})
	}
	for _, g := range goldens {
		g.w = &World{m: newModel(g.Keys), kv: g.Keys}
	}
}

func (g *Golden) img(a int) []byte {
	switch a {
	case aDict:
		return g.Dict
	case aGuide:
		return g.Guide
	case aRanked:
		return g.Ranked
	}
	return g.Index
}

// golden loads old images and checks that they mean what they meant.
func (t *taskCtx) golden(op *Op) {
	g := goldens[op.A%len(goldens)]
	arts := [][]int{{aDict}, {aDict, aGuide}, {aDict, aRanked}, {aDict, aGuide, aIndex}, {aDict, aGuide, aRanked, aIndex}}[op.C%5]
	var data []byte
	for _, a := range arts {
		data = append(data, g.img(a)...)
	}
	r, pos := asReader(newReader(data, op.IO, t.faults))
	var o Objs
	for _, a := range arts {
		if !o.read(a, r, false) {
			fail("golden", "the %s of the stored image %q written by the released version does not load", artNames[a], g.Name)
		}
	}
	if pos() != len(data) {
		fail("golden", "loading the stored image %q consumed %d of %d bytes", g.Name, pos(), len(data))
	}
	checkObjs(g.w, &o, uint64(op.C))
	t.note("golden", g.Name)
}
