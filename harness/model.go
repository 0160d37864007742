package main

import (
	"bytes"
	"sort"
)

type K = [8]byte

var guardLo = K{}
var guardHi = K{255, 255, 255, 255, 255, 255, 255, 255}

func kOf(b []byte) (k K) { copy(k[:], b); return }

func shardOf(k K) int { return int(k[7]) >> 5 }

func kLess(a, b K) bool { return bytes.Compare(a[:], b[:]) < 0 }

// MEnt is a live entry of the reference model.
type MEnt struct {
	Val          []byte
	Next         K
	Height, Last int64
}

// MVer is one version of a key: what became current at height H.
type MVer struct {
	H    int64
	Del  bool
	Val  []byte
	Next K
}

// Model replays the block history on a sorted map.
type Model struct {
	ents   map[K]*MEnt
	order  []K // sorted, guards included
	hist   map[K][]MVer
	keepH  bool
	height int64
}

func newModel(keepHist bool) *Model {
	m := &Model{ents: map[K]*MEnt{}, hist: map[K][]MVer{}, keepH: keepHist, height: -1}
	m.ents[guardLo] = &MEnt{Next: guardHi, Height: -1, Last: -1}
	m.ents[guardHi] = &MEnt{Next: guardHi, Height: -1, Last: -1}
	m.order = []K{guardLo, guardHi}
	return m
}

type Op struct {
	Key  K
	Kind byte // 'S' set, 'D' delete, 'P' prepare only
	Val  []byte
}

// final effect of one block on one key
type eff struct {
	set  bool
	val  []byte
	del  bool
	null bool // brand-new key set and deleted again
}

// apply replays one block. loose returns the keys whose entry may or may not have been
// rewritten (predecessors of a key that was created and removed in the same block).
func (m *Model) apply(h int64, ops []Op) (changed map[K]bool, loose map[K]bool) {
	m.height = h
	effs := map[K]*eff{}
	for _, o := range ops {
		if o.Kind == 'P' {
			continue
		}
		e := effs[o.Key]
		if e == nil {
			e = &eff{}
			effs[o.Key] = e
		}
		_, exists := m.ents[o.Key]
		switch o.Kind {
		case 'S':
			e.set, e.del, e.null, e.val = true, false, false, o.Val
		case 'D':
			if exists {
				e.set, e.del = false, true
			} else if e.set {
				e.set, e.del, e.null = false, false, true
			}
		}
	}
	changed = map[K]bool{}
	loose = map[K]bool{}
	structural := false
	for k, e := range effs {
		_, exists := m.ents[k]
		if (e.set && !exists) || (e.del && exists) {
			structural = true
		}
	}
	inserted := map[K]bool{}
	deleted := map[K]bool{}
	old := map[K]*MEnt{}
	for k, e := range effs {
		cur, exists := m.ents[k]
		switch {
		case e.set && exists:
			cur.Val = e.val
			changed[k] = true
		case e.set:
			m.ents[k] = &MEnt{Val: e.val}
			inserted[k] = true
			changed[k] = true
		case e.del && exists:
			old[k] = cur
			delete(m.ents, k)
			deleted[k] = true
		}
	}
	if structural {
		no := make([]K, 0, len(m.order)+len(inserted))
		for _, k := range m.order {
			if !deleted[k] {
				no = append(no, k)
			}
		}
		for k := range inserted {
			no = append(no, k)
		}
		sort.Slice(no, func(i, j int) bool { return kLess(no[i], no[j]) })
		m.order = no
	}
	touch := func(k K) { // predecessor of k among the live keys
		i := sort.Search(len(m.order), func(i int) bool { return !kLess(m.order[i], k) })
		changed[m.order[i-1]] = true
	}
	for k := range inserted {
		touch(k)
	}
	for k := range deleted {
		touch(k)
	}
	for k, e := range effs {
		if e.null {
			i := sort.Search(len(m.order), func(i int) bool { return !kLess(m.order[i], k) })
			if p := m.order[i-1]; !changed[p] {
				loose[p] = true
			}
		}
	}
	for k := range changed {
		e := m.ents[k]
		i := sort.Search(len(m.order), func(i int) bool { return !kLess(m.order[i], k) })
		if i+1 < len(m.order) {
			e.Next = m.order[i+1]
		} else {
			e.Next = k
		}
		if inserted[k] {
			e.Last = 0
		} else {
			e.Last = e.Height
		}
		e.Height = h
		if m.keepH {
			m.hist[k] = append(m.hist[k], MVer{H: h, Val: e.Val, Next: e.Next})
		}
	}
	if m.keepH {
		for k := range deleted {
			m.hist[k] = append(m.hist[k], MVer{H: h, Del: true})
		}
	}
	return
}

// at returns the version of k current at height h (nil: none or deleted) and the height it was written.
func (m *Model) at(k K, h int64) (*MVer, int64) {
	vs := m.hist[k]
	i := sort.Search(len(vs), func(i int) bool { return vs[i].H > h })
	if i == 0 {
		return nil, -1
	}
	v := &vs[i-1]
	if v.Del {
		return nil, v.H
	}
	return v, v.H
}

func (m *Model) liveKeys() []K { return m.order[1 : len(m.order)-1] }

// floor returns the greatest live key < k (guards included).
func (m *Model) floor(k K) K {
	i := sort.Search(len(m.order), func(i int) bool { return !kLess(m.order[i], k) })
	return m.order[i-1]
}
