package main

// C15: a data tree driven directly, beside trees recovered and reloaded from its files.

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/smartbch/moeingads/datatree"
	"github.com/smartbch/moeingads/types"
)

func copyFiles(from, to string) {
	des, err := os.ReadDir(from)
	must(err)
	must(os.MkdirAll(to, 0755))
	for _, de := range des {
		a, b := filepath.Join(from, de.Name()), filepath.Join(to, de.Name())
		if de.IsDir() {
			copyFiles(a, b)
			continue
		}
		in, err := os.Open(a)
		must(err)
		out, err := os.Create(b)
		must(err)
		_, err = io.Copy(out, in)
		must(err)
		in.Close()
		must(out.Close())
	}
}

// tstep is one operation on a data tree.
type tstep struct {
	kind  byte // A append, D deactivate, F flush the deactivations with a dummy, M compact the oldest group
	entry types.Entry
	sn    int64
	sn0   int64 // M: first new serial number
	want  []int64
}

type commitPoint struct {
	sizes            []int64
	root             h32
	oldest, youngest int64
	pruned           int64 // last pruned group
	edge             []byte
	nextSN           int64
	stamp            int // prunes so far
}

type treeRun struct {
	c        *Ctx
	r        *rand.Rand
	buf, blk int
	dir      string
	t        *datatree.Tree
	sh       *ShardShadow
	nextSN   int64
	oldest   int64
	pruned   int64
	prunes   int
	edge     []byte
	act      map[int64]int // active serial numbers -> index in list
	list     []int64
	posOf    []int64
	keyOf    map[int64][]byte
	pending  int
	ndirs    int
	commits  []commitPoint
	twins    []*twinTree
	log      []string
}

type twinTree struct {
	name string
	dir  string
	t    *datatree.Tree
	left int // blocks until it is dropped
}

func (tr *treeRun) newDir() string {
	tr.ndirs++
	return filepath.Join(tr.c.dir, fmt.Sprintf("t%d", tr.ndirs))
}

func (tr *treeRun) addActive(sn int64) {
	tr.act[sn] = len(tr.list)
	tr.list = append(tr.list, sn)
}

func (tr *treeRun) dropActive(sn int64) {
	i := tr.act[sn]
	last := tr.list[len(tr.list)-1]
	tr.list[i] = last
	tr.act[last] = i
	tr.list = tr.list[:len(tr.list)-1]
	delete(tr.act, sn)
}

// do applies one step to one tree.
func (tr *treeRun) do(t *datatree.Tree, s *tstep, who string) {
	c := tr.c
	note := func(sn, pos int64) {
		for int64(len(tr.posOf)) <= sn {
			tr.posOf = append(tr.posOf, -1)
		}
		if tr.posOf[sn] < 0 {
			tr.posOf[sn] = pos
		} else if tr.posOf[sn] != pos {
			c.Failf("%s: entry %d was appended at %d, in its twin at %d", who, sn, pos, tr.posOf[sn])
		}
	}
	switch s.kind {
	case 'A':
		e := s.entry
		note(e.SerialNum, t.AppendEntry(&e))
	case 'D':
		t.DeactiviateEntry(s.sn)
	case 'F':
		t.DeactiviateEntry(s.sn)
		note(s.sn, t.AppendEntry(datatree.DummyEntry(s.sn)))
	case 'M':
		i, sn := 0, s.sn0
		for bz := range t.GetActiveEntriesInTwig(s.sn) {
			old := datatree.ExtractSerialNum(bz)
			if i >= len(s.want) || old != s.want[i] {
				c.Failf("%s: compacting group %d: entry %d comes as number %d, expected one of %d active ones", who, s.sn, old, i, len(s.want))
			}
			if k := datatree.ExtractKeyFromRawBytes(bz); !bytes.Equal(k, tr.keyOf[old]) {
				c.Failf("%s: compacting group %d: entry %d has key %s, appended %s", who, s.sn, old, hx(k), hx(tr.keyOf[old]))
			}
			t.DeactiviateEntry(old)
			datatree.UpdateSerialNum(bz, sn)
			note(sn, t.AppendEntryRawBytes(bz, sn))
			i++
			sn++
		}
		if i != len(s.want) {
			c.Failf("%s: compacting group %d gives %d active entries, expected %d", who, s.sn, i, len(s.want))
		}
		t.EvictTwig(s.sn)
	}
}

func (tr *treeRun) gen() *tstep {
	r := tr.r
	flush := func() *tstep {
		s := &tstep{kind: 'F', sn: tr.nextSN}
		tr.nextSN++
		tr.pending = 0
		return s
	}
	if tr.pending > 64 {
		return flush()
	}
	if len(tr.list) > 200 && r.Intn(100) < 42 {
		sn := tr.list[r.Intn(len(tr.list))]
		if r.Intn(3) > 0 { // mostly old ones
			for i := 0; i < 4; i++ {
				if s2 := tr.list[r.Intn(len(tr.list))]; s2 < sn {
					sn = s2
				}
			}
		}
		tr.dropActive(sn)
		tr.pending++
		return &tstep{kind: 'D', sn: sn}
	}
	e := types.Entry{Key: make([]byte, 8), NextKey: make([]byte, 8), Height: int64(len(tr.commits)), LastHeight: r.Int63n(1 << 30), SerialNum: tr.nextSN}
	r.Read(e.Key)
	r.Read(e.NextKey)
	if r.Intn(5) == 0 {
		e.Value = hostile(r, 900)
	} else {
		e.Value = make([]byte, r.Intn(120))
		r.Read(e.Value)
	}
	tr.keyOf[tr.nextSN] = e.Key
	tr.addActive(tr.nextSN)
	tr.nextSN++
	tr.pending = 0
	return &tstep{kind: 'A', entry: e}
}

func (tr *treeRun) genCompact() *tstep {
	s := &tstep{kind: 'M', sn: tr.oldest, sn0: tr.nextSN}
	for sn := tr.oldest << 11; sn < (tr.oldest+1)<<11; sn++ {
		if _, ok := tr.act[sn]; ok {
			s.want = append(s.want, sn)
		}
	}
	for _, sn := range s.want {
		tr.dropActive(sn)
		tr.keyOf[tr.nextSN] = tr.keyOf[sn]
		tr.addActive(tr.nextSN)
		tr.nextSN++
		tr.pending = 0
	}
	tr.oldest++
	return s
}

func (tr *treeRun) youngest() int64 { return tr.nextSN >> 11 }

// block runs one block on the tree and its twins.
func (tr *treeRun) block(n int, compact bool) {
	c := tr.c
	var steps []*tstep
	for i := 0; i < n; i++ {
		steps = append(steps, tr.gen())
	}
	for compact && tr.oldest+2 <= tr.youngest() {
		// the pending deactivations ride on the next append
		steps = append(steps, tr.genCompact())
		c.Count("groups_compacted", 1)
		if tr.r.Intn(2) == 0 {
			break
		}
	}
	if tr.pending > 0 {
		steps = append(steps, &tstep{kind: 'F', sn: tr.nextSN})
		tr.nextSN++
		tr.pending = 0
	}
	run := func(t *datatree.Tree, who string) h32 {
		for _, s := range steps {
			tr.do(t, s, who)
		}
		if t.DeactivedSNListSize() != 0 {
			c.Failf("%s: %d deactivations are still pending after an append", who, t.DeactivedSNListSize())
		}
		root := t.EndBlock()
		t.WaitForFlushing()
		return root
	}
	c.Count("steps", int64(len(steps)))
	root := run(tr.t, "the tree")
	if _, err := tr.sh.advance(-1); err != nil {
		c.Failf("entry log: %v", err)
	}
	if tr.sh.nextSN != tr.nextSN {
		c.Failf("the log holds %d entries, %d were appended", tr.sh.nextSN, tr.nextSN)
	}
	if w := tr.sh.root(); root != w {
		c.Failf("root %x after block %d, the log gives %x", root, len(tr.commits), w)
	}
	c.Eval(1)
	for _, tw := range tr.twins {
		if g := run(tw.t, tw.name); g != root {
			c.Failf("%s: root %x after block %d, the original has %x", tw.name, g, len(tr.commits), root)
		}
		c.Eval(1)
		c.Count("twin_blocks", 1)
	}
	a, b := tr.t.GetFileSizes()
	tr.commits = append(tr.commits, commitPoint{[]int64{a, b}, root, tr.oldest, tr.youngest(), tr.pruned, tr.edge, tr.nextSN, tr.prunes})
}

func (tr *treeRun) prune() {
	c := tr.c
	start, end := tr.pruned+1, tr.oldest-1
	if end-start > 4 && tr.r.Intn(2) == 0 {
		end -= tr.r.Int63n(end - start - 3)
	}
	if end <= start+datatree.MinPruneCount {
		return
	}
	whole := tr.r.Intn(2) == 0
	one := func(t *datatree.Tree) (edge []byte) {
		if whole {
			return t.PruneTwigs(start, end)
		}
		edge = t.ReapNodes(start, end)
		t.PruneFiles(end)
		return
	}
	c.Log("prune groups %d to %d", start, end-1)
	tr.edge = one(tr.t)
	for _, tw := range tr.twins {
		if e := one(tw.t); !bytes.Equal(e, tr.edge) {
			c.Failf("%s: pruning groups %d..%d gives other edge nodes (%d bytes, %d in the original)", tw.name, start, end-1, len(e), len(tr.edge))
		}
		c.Eval(1)
	}
	tr.pruned = end - 1
	tr.prunes++
	c.Count("groups_pruned", end-start)
}

// compare checks that a tree is equal to the original by everything that can be seen.
func (tr *treeRun) compare(tw *twinTree) {
	c, a, b := tr.c, tr.t, tw.t
	for i, f := range []func(){
		func() { datatree.CompareTreeTwigs(a, b) },
		func() { datatree.CompareTreeTwigs(b, a) },
		func() { datatree.CheckHashConsistency(b) },
		func() { datatree.CheckHashConsistency(a) },
		func() {
			if tr.prunes == 0 {
				datatree.CompareTreeNodes(a, b)
			}
		},
	} {
		if p, st := panics(f); p != nil {
			c.Failf("%s differs from the original (comparison %d) at block %d: %v\n%s", tw.name, i, len(tr.commits), p, st)
		}
		c.Eval(1)
	}
	a0, a1 := a.GetFileSizes()
	b0, b1 := b.GetFileSizes()
	if a0 != b0 || a1 != b1 {
		c.Failf("%s: file sizes %d and %d, the original has %d and %d", tw.name, b0, b1, a0, a1)
	}
	for sn := tr.oldest << 11; sn < tr.nextSN; sn++ {
		_, w := tr.act[sn]
		for _, t := range []*datatree.Tree{a, b} {
			if g := t.GetActiveBit(sn); g != w {
				c.Failf("%s: entry %d active=%v, expected %v", tw.name, sn, g, w)
			}
		}
	}
	c.Eval(2 * (tr.nextSN - tr.oldest<<11))
	for id := tr.pruned + 1; id <= tr.youngest(); id++ {
		if id < 0 {
			continue
		}
		if g, w := b.TwigCanBePruned(id), id < tr.oldest; g != w || a.TwigCanBePruned(id) != w {
			c.Failf("%s: group %d can be pruned=%v, original %v, expected %v", tw.name, id, g, a.TwigCanBePruned(id), w)
		}
		if tr.pruned >= 0 && id == tr.pruned+1 && id%2 == 1 {
			continue // its left sibling was pruned; it holds no live entry
		}
		tr.proofs(tw, id)
	}
	// the entries of the kept groups, in order, at their positions
	out := make(chan types.KeyAndPos, 100)
	go b.ScanEntriesLite(tr.oldest, out)
	sn := tr.oldest << 11
	for kp := range out {
		if kp.SerialNum != sn || kp.Pos != tr.posOf[sn] {
			c.Failf("%s: scanning gives entry %d at %d, expected entry %d at %d", tw.name, kp.SerialNum, kp.Pos, sn, tr.posOf[sn])
		}
		if w, ok := tr.keyOf[sn]; ok && !bytes.Equal(w, kp.Key) || !ok && string(kp.Key) != "dummy" {
			c.Failf("%s: scanning gives entry %d with key %s, appended %s", tw.name, sn, hx(kp.Key), hx(w))
		}
		sn++
	}
	if sn != tr.nextSN {
		c.Failf("%s: scanning ends at entry %d of %d", tw.name, sn, tr.nextSN)
	}
	c.Eval(sn - tr.oldest<<11)
	c.Count("trees_compared", 1)
	c.Distinct("cmp %s old%d young%d pruned%d at%d", tw.name, tr.oldest, tr.youngest(), tr.pruned, tr.nextSN&2047)
}

// proofs compares proofs of one group in both trees with each other and with the log.
func (tr *treeRun) proofs(tw *twinTree, id int64) {
	c := tr.c
	for i := 0; i < 6; i++ {
		off := int64(tr.r.Intn(2048))
		if i < 2 {
			off = int64(i) * 2047
		}
		sn := id<<11 | off
		var bz [2][]byte
		for j, t := range []*datatree.Tree{tr.t, tw.t} {
			p, st := panics(func() {
				var err error
				if bz[j], err = datatree.CheckProof(t.GetProof(sn)); err != nil {
					c.Failf("%s (tree %d): proof of serial number %d fails: %v", tw.name, j, sn, err)
				}
			})
			if p != nil {
				c.Failf("%s (tree %d): the proof of serial number %d cannot be made (groups: pruned to %d, oldest %d, youngest %d): %v\n%s", tw.name, j, sn, tr.pruned, tr.oldest, tr.youngest(), p, st)
			}
		}
		c.Eval(1)
		if !bytes.Equal(bz[0], bz[1]) {
			c.Failf("%s: the proof of serial number %d differs from the original's", tw.name, sn)
		}
		p, err := parseProof(bz[0])
		if err != nil || p.verify() != nil || p.Root != tr.commits[len(tr.commits)-1].root || p.SN != sn {
			c.Failf("the proof of serial number %d is not acceptable", sn)
		}
		t := tr.sh.twigs[id]
		if p.Leaf != t.leaves[off] {
			c.Failf("the proof of serial number %d has leaf %x, the log gives %x", sn, p.Leaf, t.leaves[off])
		}
		if !bytes.Equal(p.Bits[:], t.bits[off/256*32:off/256*32+32]) {
			c.Failf("the proof of serial number %d has activity bits %x, the log gives %x", sn, p.Bits, t.bits[off/256*32:off/256*32+32])
		}
	}
}

func (tr *treeRun) recoverAt(cp *commitPoint, name string, sizes bool) *twinTree {
	tw := &twinTree{name: name, dir: tr.newDir()}
	copyFiles(tr.dir, tw.dir)
	var fs []int64
	if sizes {
		fs = cp.sizes
	}
	var root h32
	edge := append([]byte{}, cp.edge...)
	if p, st := panics(func() {
		tw.t, root = datatree.RecoverTree(tr.buf, tr.blk, tw.dir, "", datatree.BytesToEdgeNodes(edge), cp.pruned, cp.oldest, cp.youngest, fs)
	}); p != nil {
		tr.c.Failf("%s: recovering at entry %d (groups: pruned to %d, oldest %d, youngest %d) fails: %v\n%s", name, cp.nextSN, cp.pruned, cp.oldest, cp.youngest, p, st)
	}
	tr.c.Eval(1)
	if root != cp.root {
		tr.c.Failf("%s: recovered root %x, committed %x (groups: pruned to %d, oldest %d, youngest %d; %d entries)", name, root, cp.root, cp.pruned, cp.oldest, cp.youngest, cp.nextSN)
	}
	tr.c.Count("recoveries", 1)
	return tw
}

func (tr *treeRun) load() *twinTree {
	tr.t.SaveMemToDisk()
	tw := &twinTree{name: "the loaded tree", dir: tr.newDir()}
	copyFiles(tr.dir, tw.dir)
	if p, st := panics(func() { tw.t = datatree.LoadTree(tr.buf, tr.blk, tw.dir) }); p != nil {
		tr.c.Failf("loading the saved tree fails: %v\n%s", p, st)
	}
	tr.c.Count("loads", 1)
	return tw
}

func (tr *treeRun) drop(tw *twinTree) {
	tw.t.Close()
	os.RemoveAll(tw.dir)
}

func init() {
	workers["tree"] = func(c *Ctx, cs *Case) {
		r := c.rnd
		tr := &treeRun{c: c, r: r, buf: int(cs.n("buf", 1<<12)), pruned: -1, act: map[int64]int{}, keyOf: map[int64][]byte{}}
		tr.blk = tr.buf * int(cs.n("blk", 16))
		tr.dir = tr.newDir()
		must(os.MkdirAll(tr.dir, 0755))
		tr.t = datatree.NewEmptyTree(tr.buf, tr.blk, tr.dir, "")
		tr.sh = newShardShadow(tr.dir, 0)
		tr.sh.dir = filepath.Join(tr.dir, "entries")
		tr.sh.keep = true
		tr.sh.twigs[0] = newTwigShadow()
		// the database fills the first group with dummies
		for i := 0; i < 2048; i++ {
			tr.do(tr.t, &tstep{kind: 'F', sn: tr.nextSN}, "the tree")
			tr.nextSN++
		}
		blocks := int(cs.n("blocks", 120))
		for b := 0; b < blocks; b++ {
			n := r.Intn(700)
			switch r.Intn(8) {
			case 0:
				n = r.Intn(4)
			case 1: // end exactly at a group boundary, or one off
				n = 2048 - int(tr.nextSN&2047) + r.Intn(3) - 1
			case 2:
				n = 1000 + r.Intn(3000)
			}
			tr.block(n, tr.youngest()-tr.oldest > int64(3+r.Intn(6)))
			if cs.n("prune", 1) == 1 && r.Intn(4) == 0 {
				tr.prune()
				cp := &tr.commits[len(tr.commits)-1]
				cp.pruned, cp.edge, cp.stamp = tr.pruned, tr.edge, tr.prunes
			}
			// age the twins
			var keep []*twinTree
			for _, tw := range tr.twins {
				if tw.left--; tw.left <= 0 {
					tr.compare(tw)
					if r.Intn(2) == 0 { // the twin becomes the original
						tr.t, tw.t = tw.t, tr.t
						tr.dir, tw.dir = tw.dir, tr.dir
						tr.sh.dir = filepath.Join(tr.dir, "entries")
						c.Count("swaps", 1)
					}
					tr.drop(tw)
					continue
				}
				keep = append(keep, tw)
			}
			tr.twins = keep
			if len(tr.twins) < 2 && r.Intn(3) == 0 {
				var tw *twinTree
				if r.Intn(2) == 0 {
					tw = tr.recoverAt(&tr.commits[len(tr.commits)-1], "the recovered tree", r.Intn(2) == 0)
				} else {
					tw = tr.load()
				}
				tr.compare(tw)
				tw.left = 1 + r.Intn(5)
				tr.twins = append(tr.twins, tw)
			}
			// an earlier committed point, as after a crash that left later data behind
			if len(tr.commits) > 1 && r.Intn(5) == 0 {
				i := len(tr.commits) - 2 - r.Intn(min64(len(tr.commits)-1, 4))
				if i >= 0 && tr.commits[i].stamp == tr.prunes {
					tr.drop(tr.recoverAt(&tr.commits[i], "the tree recovered at an earlier commit", true))
					c.Count("earlier_recoveries", 1)
				}
			}
		}
		for _, tw := range tr.twins {
			tr.compare(tw)
			tr.drop(tw)
		}
		tr.t.Close()
		c.Sample("%d entries in %d groups after %d blocks, %d active, pruned to group %d, root %x", tr.nextSN, tr.youngest()+1, blocks, len(tr.list), tr.pruned, tr.commits[len(tr.commits)-1].root[:8])
	}
	register(&Check{ID: "C15", Assume: []string{"the deactivations of a block are flushed before it ends and the first group is complete before the first recovery, as the database does"},
		Rule: "A case is one seeded history of appends, deactivations, compactions, prunes and block ends on a data tree; at random committed points its files are copied and a second tree is recovered from them or loaded from a save; both are compared (groups, nodes, activity of every entry, sizes, first positions, scans, proofs) at once and again after the same further blocks were applied to each, and the copy often takes the place of the original; roots, leaves and activity bits are also compared with an independent reading of the log. Distinct non-trivial: different (kind, oldest, youngest, pruned group, position in the group) comparisons.",
		Cases: func(tier string, seed int64) (out []Case) {
			n, blocks := int64(4), int64(90)
			if tier == "thorough" {
				n, blocks = 16, 400
			}
			for s := int64(0); s < n; s++ {
				for i, nm := range []string{"small", "large", "noprune", "long"} {
					p := map[string]int64{"blocks": blocks}
					switch i {
					case 1:
						p["buf"], p["blk"] = 1<<14, 32
					case 2:
						p["prune"] = 0
					case 3:
						p["blocks"] = blocks * 2
						p["blk"] = 8
					}
					out = append(out, Case{Worker: "tree", Name: nm, Seed: seed*1000 + s, P: p})
				}
			}
			return
		}, Need: map[string]int64{"trees_compared": 100, "loads": 30, "recoveries": 60, "groups_pruned": 50, "groups_compacted": 100, "twin_blocks": 150}})
}
