package main

// C26: the consistency checks that the database offers. They must accept what real
// histories produce and report a link or a hash that was changed behind their back.

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	"github.com/smartbch/moeingads/datatree"
	"github.com/smartbch/moeingads/types"
)

// selfCheck runs both checks of the database; nothing was damaged.
func (rn *Run) selfCheck(when string) {
	c := rn.c
	if p, st := panics(rn.d.m.CheckConsistency); p != nil {
		c.Failf("height %d (%s): the check of the next keys rejects an intact database: %v\n%s", rn.h, when, p, st)
	}
	if p, st := panics(rn.d.m.CheckHashConsistency); p != nil {
		c.Failf("height %d (%s): the check of the hashes rejects an intact database: %v\n%s", rn.h, when, p, st)
	}
	c.Eval(2)
	c.Count("accepted", 2)
}

// damage is one change and how to take it back.
type damage struct {
	what  string
	undo  func()
	check func()
}

// breakLink overwrites the next key of a stored live entry.
func (rn *Run) breakLink(r *rand.Rand) *damage {
	var es []*RawEntry
	for _, s := range rn.sh.sh {
		for _, e := range s.live {
			if len(e.Key) == 8 && !bytes.Equal(e.Key, guardLo[:]) && !bytes.Equal(e.Key, guardHi[:]) {
				es = append(es, e)
			}
		}
	}
	if len(es) == 0 {
		return nil
	}
	sort.Slice(es, func(i, j int) bool { return bytes.Compare(es[i].Key, es[j].Key) < 0 })
	e := es[r.Intn(len(es))]
	switch r.Intn(6) {
	case 0:
		e = es[0]
	case 1:
		e = es[len(es)-1]
	}
	var k K
	copy(k[:], e.Key)
	dir := filepath.Join(rn.dir, fmt.Sprintf("entries.%d", shardOf(k)))
	des, err := os.ReadDir(dir)
	must(err)
	for _, de := range des {
		parts := strings.SplitN(de.Name(), "-", 2)
		id, _ := strconv.ParseInt(parts[0], 10, 64)
		bs, _ := strconv.ParseInt(parts[1], 10, 64)
		if e.Pos/bs != id {
			continue
		}
		f, err := os.OpenFile(filepath.Join(dir, de.Name()), os.O_RDWR, 0)
		must(err)
		rec := make([]byte, e.NextPos-e.Pos)
		if _, err := f.ReadAt(rec, e.Pos%bs); err != nil {
			f.Close()
			return nil
		}
		// ... key, value, next key (length and content), three numbers, serial numbers
		tail := append(append([]byte{byte(len(e.NextKey)), 0, 0, 0}, e.NextKey...), le64(e.Height)...)
		i := bytes.LastIndex(rec, tail)
		if i < 0 {
			f.Close()
			return nil // escaped
		}
		at := e.Pos%bs + int64(i) + 4 + int64(r.Intn(len(e.NextKey)))
		var old [1]byte
		_, err = f.ReadAt(old[:], at)
		must(err)
		put := func(b byte) {
			_, err := f.WriteAt([]byte{b}, at)
			must(err)
		}
		put(old[0] ^ byte(1<<uint(r.Intn(8))))
		return &damage{what: fmt.Sprintf("next key of %x overwritten in its stored entry", k),
			undo: func() { put(old[0]); f.Close() }, check: rn.d.m.CheckConsistency}
	}
	return nil
}

func le64(v int64) []byte {
	b := make([]byte, 8)
	for i := range b {
		b[i] = byte(uint64(v) >> uint(8*i))
	}
	return b
}

// breakHash changes one bit of a hash, or of the activity, that a tree keeps in memory.
func (rn *Run) breakHash(r *rand.Rand) *damage {
	ts := rn.d.trees()
	if ts == nil {
		return nil
	}
	s := r.Intn(len(ts))
	if r.Intn(2) == 0 {
		return rn.breakOneHash(r, s)
	}
	var p *byte
	what := ""
	switch r.Intn(3) {
	case 0: // a node above the groups, with its parent and its sibling there
		f, ok := field(ts[s], reflect.TypeOf(map[datatree.NodePos]*[32]byte{}))
		if !ok {
			return nil
		}
		nodes := f.Interface().(map[datatree.NodePos]*[32]byte)
		var ps []datatree.NodePos
		for q := range nodes {
			l, n := int(q.Level()), q.Nth()
			if l >= datatree.FirstLevelAboveTwig && nodes[datatree.Pos(l, n^1)] != nil && nodes[datatree.Pos(l+1, n/2)] != nil {
				ps = append(ps, q)
			}
		}
		if len(ps) == 0 {
			return nil
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i] < ps[j] })
		q := ps[r.Intn(len(ps))]
		p = &nodes[q][r.Intn(32)]
		what = fmt.Sprintf("node %d-%d", q.Level(), q.Nth())
	case 1: // a group of leaves
		f, ok := field(ts[s], reflect.TypeOf(map[int64]*datatree.Twig{}))
		if !ok {
			return nil
		}
		m := f.Interface().(map[int64]*datatree.Twig)
		var ids []int64
		for id, t := range m {
			if t != &datatree.NullTwig {
				ids = append(ids, id)
			}
		}
		if len(ids) == 0 {
			return nil
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		id := ids[r.Intn(len(ids))]
		v := reflect.ValueOf(m[id]).Elem()
		var fs []int
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).Kind() == reflect.Array {
				fs = append(fs, i)
			}
		}
		if len(fs) == 0 {
			return nil
		}
		i := fs[r.Intn(len(fs))]
		p = (*byte)(unsafe.Add(unsafe.Pointer(v.Field(i).UnsafeAddr()), r.Intn(int(v.Field(i).Type().Size()))))
		what = fmt.Sprintf("%s of group %d", v.Type().Field(i).Name, id)
	case 2: // the tree of the youngest group
		f, ok := field(ts[s], reflect.TypeOf([4096][32]byte{}))
		if !ok {
			return nil
		}
		n := 1 + r.Intn(4095)
		if r.Intn(2) == 0 {
			n = 1 << uint(r.Intn(12))
		}
		p = &f.Addr().Interface().(*[4096][32]byte)[n][r.Intn(32)]
		what = fmt.Sprintf("node %d of the youngest group", n)
	}
	old := *p
	*p ^= byte(1 << uint(r.Intn(8)))
	return &damage{what: fmt.Sprintf("shard %d: bit changed in %s", s, what), undo: func() { *p = old }, check: rn.d.m.CheckHashConsistency}
}

// breakOneHash changes something that is hashed and repairs the hashes above it up to some
// height, so that a single hash does not match what lies under it.
func (rn *Run) breakOneHash(r *rand.Rand, s int) *damage {
	tree := rn.d.trees()[s]
	check := rn.d.m.CheckHashConsistency
	sum := func(level int, a, b []byte) [32]byte {
		return sha256.Sum256(append(append([]byte{byte(level)}, a...), b...))
	}
	if r.Intn(3) == 0 { // the tree of the youngest group
		f, ok := field(tree, reflect.TypeOf([4096][32]byte{}))
		if !ok {
			return nil
		}
		mt := f.Addr().Interface().(*[4096][32]byte)
		old := *mt
		up := r.Intn(11) // levels that are repaired
		at := 2048 + r.Intn(2048)
		if r.Intn(2) == 0 {
			at = 2048 + 2047*r.Intn(2)
		}
		mt[at][r.Intn(32)] ^= byte(1 << uint(r.Intn(8)))
		bad := at
		for l := 0; l < up; l++ {
			bad /= 2
			mt[bad] = sum(l, mt[2*bad][:], mt[2*bad+1][:])
		}
		return &damage{what: fmt.Sprintf("shard %d: node %d of the youngest group does not match its children", s, bad/2), undo: func() { *mt = old }, check: check}
	}
	f, ok := field(tree, reflect.TypeOf(map[int64]*datatree.Twig{}))
	g, ok2 := field(tree, reflect.TypeOf(map[datatree.NodePos]*[32]byte{}))
	if !ok || !ok2 {
		return nil
	}
	nodes := g.Interface().(map[datatree.NodePos]*[32]byte)
	m := f.Interface().(map[int64]*datatree.Twig)
	var ids []int64
	for id, t := range m {
		if t != &datatree.NullTwig {
			ids = append(ids, id)
		}
	}
	if len(ids) == 0 {
		return nil
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	id := ids[r.Intn(len(ids))]
	t := m[id]
	// its parts, told apart by their types and by what they hash
	v := reflect.ValueOf(t).Elem()
	var bits *[256]byte
	var l1 *[4][32]byte
	var l2 *[2][32]byte
	var hs []*[32]byte
	for i := 0; i < v.NumField(); i++ {
		p := unsafe.Pointer(v.Field(i).UnsafeAddr())
		switch v.Field(i).Type() {
		case reflect.TypeOf([256]byte{}):
			bits = (*[256]byte)(p)
		case reflect.TypeOf([4][32]byte{}):
			l1 = (*[4][32]byte)(p)
		case reflect.TypeOf([2][32]byte{}):
			l2 = (*[2][32]byte)(p)
		case reflect.TypeOf([32]byte{}):
			hs = append(hs, (*[32]byte)(p))
		}
	}
	if bits == nil || l1 == nil || l2 == nil || len(hs) != 3 {
		return nil
	}
	var l3, left, top *[32]byte
	want := sum(10, l2[0][:], l2[1][:])
	for i, h := range hs {
		a, b := hs[(i+1)%3], hs[(i+2)%3]
		if *h == want {
			l3 = h
			if *b == sum(11, a[:], h[:]) {
				left, top = a, b
			} else if *a == sum(11, b[:], h[:]) {
				left, top = b, a
			}
			break
		}
	}
	if l3 == nil || left == nil {
		return nil
	}
	type saved struct {
		p *[32]byte
		v [32]byte
	}
	var undo []saved
	set := func(p *[32]byte, v [32]byte) {
		undo = append(undo, saved{p, *p})
		*p = v
	}
	oldBits := *bits
	back := func() {
		for i := len(undo) - 1; i >= 0; i-- {
			*undo[i].p = undo[i].v
		}
		*bits = oldBits
	}
	what := ""
	q := r.Intn(4)
	steps := []func(){
		func() {
			set(&l1[q], sum(8, bits[64*q:64*q+32], bits[64*q+32:64*q+64]))
			what = fmt.Sprintf("level 2 hash %d", q/2)
		},
		func() { set(&l2[q/2], sum(9, l1[q&^1][:], l1[q|1][:])); what = "level 3 hash" },
		func() { set(l3, sum(10, l2[0][:], l2[1][:])); what = "root of the group" },
		func() { set(top, sum(11, left[:], l3[:])) },
	}
	i := 0
	if r.Intn(5) == 0 {
		v := *left
		v[r.Intn(32)] ^= byte(1 << uint(r.Intn(8)))
		set(left, v)
		what, i = "root of the group", 3
	} else {
		bits[64*q+r.Intn(64)] ^= byte(1 << uint(r.Intn(8)))
		what = fmt.Sprintf("level 1 hash %d", q)
	}
	up := r.Intn(8)
	for ; i < len(steps) && up > 0; i++ {
		steps[i]()
		up--
	}
	if i == len(steps) {
		// now its parent does not match; go on upwards as long as a kept node would notice
		level, n := datatree.FirstLevelAboveTwig, id/2
		root := func(n int64) []byte {
			if t := m[n]; t != nil {
				for i := range hs { // the root lies at the same offset as in the first one
					if hs[i] == top {
						off := uintptr(unsafe.Pointer(top)) - uintptr(unsafe.Pointer(v.UnsafeAddr()))
						return (*[32]byte)(unsafe.Add(unsafe.Pointer(t), off))[:]
					}
				}
			}
			if p := nodes[datatree.Pos(datatree.FirstLevelAboveTwig-1, n)]; p != nil {
				return p[:]
			}
			return nil
		}
		if nodes[datatree.Pos(level, n)] == nil || root(id&^1) == nil || root(id|1) == nil {
			back()
			return nil
		}
		for {
			what = fmt.Sprintf("node %d-%d", level, n)
			p, sib := nodes[datatree.Pos(level+1, n/2)], nodes[datatree.Pos(level, n^1)]
			if p == nil || sib == nil || r.Intn(3) == 0 {
				break
			}
			if level == datatree.FirstLevelAboveTwig {
				set(nodes[datatree.Pos(level, n)], sum(level-1, root(2*n), root(2*n+1)))
			} else {
				set(nodes[datatree.Pos(level, n)], sum(level-1, nodes[datatree.Pos(level-1, 2*n)][:], nodes[datatree.Pos(level-1, 2*n+1)][:]))
			}
			level, n = level+1, n/2
		}
	}
	rn.c.Count("single_mismatches", 1)
	return &damage{what: fmt.Sprintf("shard %d: the %s of group %d does not match what is under it", s, what, id), undo: back, check: check}
}

// breakIndex takes a live key away from the index: the entry before it names a key that is
// not the next one any more.
func (rn *Run) breakIndex(r *rand.Rand) *damage {
	f, ok := field(rn.d.m, reflect.TypeOf((*types.IndexTree)(nil)).Elem())
	live := rn.m.liveKeys()
	if !ok || len(live) < 3 {
		return nil
	}
	k := live[1+r.Intn(len(live)-1)] // the lower guard's link is not checked
	idx := f.Interface().(types.IndexTree)
	pos, ok := idx.Get(k[:])
	if !ok {
		return nil
	}
	change := func(f func()) {
		idx.SetDuringInit(true)
		idx.BeginWrite(rn.h)
		f()
		idx.EndWrite()
		idx.SetDuringInit(false)
	}
	change(func() { idx.Delete(k[:]) })
	return &damage{what: fmt.Sprintf("key %x taken from the index", k),
		undo: func() { change(func() { idx.Set(k[:], pos) }) }, check: rn.d.m.CheckConsistency}
}

func (rn *Run) damages(n int) {
	c := rn.c
	for i := 0; i < n; i++ {
		var d *damage
		kind := "links"
		if i%2 == 0 {
			if i%4 == 2 {
				d = rn.breakIndex(rn.r)
			} else {
				d = rn.breakLink(rn.r)
			}
		} else {
			d, kind = rn.breakHash(rn.r), "hashes"
		}
		if d == nil {
			c.Count("not_damaged", 1)
			continue
		}
		p, _ := panics(d.check)
		d.undo()
		if p == nil {
			c.Failf("height %d: %s; the check of the %s does not notice", rn.h, d.what, kind)
		}
		c.Eval(1)
		c.Count("damaged_"+kind+"_noticed", 1)
		c.Distinct("%s", d.what)
	}
	if n > 0 {
		rn.selfCheck("after the damages were undone")
	}
}

func init() {
	workers["selfcheck"] = func(c *Ctx, cs *Case) {
		p := profile(cs.S["prof"], c.rnd)
		p.Blocks = int(cs.n("blocks", int64(p.Blocks)))
		p.PReopen = float64(cs.n("reopenPct", 0)) / 100
		p.PPrune = float64(cs.n("prunePct", 0)) / 100
		p.PruneLag = cs.n("lag", 10)
		p.History = cs.n("history", 0) == 1
		p.ScanEvery = 1000
		rn := newRun(c, p, "a")
		rn.selfCheck("created")
		rn.hooks = append(rn.hooks, func(rn *Run) {
			rn.selfCheck("after a block")
			rn.damages(int(cs.n("damages", 4)))
		})
		rn.afterPrune = func(h int64) { rn.selfCheck(fmt.Sprintf("after pruning before %d", h)) }
		rn.run()
		rn.reopen()
		rn.selfCheck("after reopening")
		rn.damages(20)
		rn.destroy()
	}
	register(&Check{ID: "C26", Assume: []string{"the link of the lower guard is not part of the check of the next keys", "a change to stored bytes does not produce a separator"},
		Rule: "A case is one seeded block history (compaction, pruning, reopening included); after every block, prune and reopen both consistency checks of the database must accept it; then single bits are changed, one at a time, in the next key of a stored live entry, in a hash or activity bits of a group of leaves, in a node above them, or in the tree of the youngest group, or such a change is made and the hashes above it are repaired up to some level (a single mismatch), or a key is taken from the index, and the check in question must panic; the change is undone. Distinct non-trivial: different damaged places.",
		Cases: func(tier string, seed int64) (out []Case) {
			n, mul := int64(2), int64(1)
			if tier == "thorough" {
				n, mul = 10, 3
			}
			for s := int64(0); s < n; s++ {
				for _, x := range []struct {
					prof string
					p    map[string]int64
				}{
					{"mix", map[string]int64{"reopenPct": 10}}, {"dense", nil}, {"edge", nil}, {"grid", nil}, {"deact", nil}, {"wide", map[string]int64{"blocks": 12}},
					{"compact", map[string]int64{"prunePct": 20, "lag": 8, "reopenPct": 5, "history": 1}}, {"compact", map[string]int64{"reopenPct": 8}}, {"move", nil},
					{"compact8", map[string]int64{"prunePct": 20, "lag": 5, "history": 1}}, {"plain", nil},
				} {
					p := map[string]int64{}
					for k, v := range x.p {
						p[k] = v
					}
					if p["blocks"] == 0 {
						p["blocks"] = int64(profile(x.prof, rand.New(rand.NewSource(1))).Blocks)
						if p["blocks"] > 50 {
							p["blocks"] = 50 + (p["blocks"]-50)/3
						}
					}
					p["blocks"] *= mul
					out = append(out, Case{Worker: "selfcheck", Name: x.prof + sfx(p), Seed: seed*1000 + s, P: p, S: map[string]string{"prof": x.prof, "on": "shadow"}})
				}
			}
			return
		}, Need: map[string]int64{"accepted": 500, "damaged_links_noticed": 300}})
}
