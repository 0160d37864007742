package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"

	"github.com/smartbch/moeingads/types"
)

// Prof describes one random history over the whole database.
type Prof struct {
	Name       string
	Cfg        Cfg
	History    bool
	Blocks     int
	MinOps     int
	MaxOps     int
	Pool       []K
	PDel       float64 // delete a key
	PSetDel    float64 // set, then delete, in the same block
	PDelSet    float64 // delete, then set, in the same block
	PPrep      float64 // prepare without writing
	Val        func(r *rand.Rand) []byte
	PReopen    float64
	PPrune     float64
	PruneLag   int64
	Par        int
	MaxGap     int64
	ScanEvery  int
	Proofs     int
	HotFrom    int // Pool[:HotFrom] is rarely chosen:
	ColdIn     int // once in this many operations (0: 20)
	Wipe       int // every Wipe blocks delete every key
	H0         int64
	NoHistRead bool
	TailDel    float64 // blocks that end (per shard) with about as many deletions as one entry can carry
	Fill       bool    // the first block writes the whole pool
	KeepOpen   bool    // no reopening after a prune (RocksDB then has no reason to compact)
}

func shuffledOrder(r *rand.Rand, n int) []int { return r.Perm(n) }

// ---- key pools ----

func poolShard(r *rand.Rand, n int, shards ...int) (out []K) {
	for i := 0; i < n; i++ {
		var k K
		r.Read(k[:])
		s := shards[r.Intn(len(shards))]
		k[7] = byte(s*32 + r.Intn(32))
		out = append(out, k)
	}
	return cleanPool(out)
}

func poolWide(r *rand.Rand, n int) (out []K) {
	for i := 0; i < n; i++ {
		var k K
		r.Read(k[:])
		out = append(out, k)
	}
	return cleanPool(out)
}

// poolGrid: few 16-bit prefixes times few 48-bit suffixes, so that keys with different
// prefixes share their low six bytes.
func poolGrid(r *rand.Rand, np, ns int) (out []K) {
	var pre [][2]byte
	for i := 0; i < np; i++ {
		pre = append(pre, [2]byte{byte(r.Intn(256)), byte(r.Intn(4))})
	}
	var suf [][6]byte
	for i := 0; i < ns; i++ {
		var s [6]byte
		r.Read(s[:])
		if r.Intn(3) == 0 {
			s[0], s[1], s[2], s[3] = 0, 0, 0, 0
		}
		suf = append(suf, s)
	}
	for _, p := range pre {
		for _, s := range suf {
			var k K
			copy(k[:2], p[:])
			copy(k[2:], s[:])
			out = append(out, k)
		}
	}
	return cleanPool(out)
}

// poolEdge: neighbours of the guards, of job-channel boundaries, of shard boundaries, and
// keys that look like the entry separator.
func poolEdge(r *rand.Rand) (out []K) {
	add := func(u uint64) {
		var k K
		binary.BigEndian.PutUint64(k[:], u)
		out = append(out, k)
	}
	for i := uint64(1); i <= 4; i++ {
		add(i)
		add(^uint64(0) - i)
	}
	for _, b := range []uint64{1, 63, 64, 65, 79, 80, 95, 96, 127, 128, 143, 144, 175, 176, 191, 192, 193, 207, 254, 255} {
		add(b<<56 | 0)
		add(b<<56 | 1)
		add(b<<56 - 1)
		add(b<<56 | 0x1F)
		add(b<<56 | 0x20)
		add(b<<56 | 0xDF)
		add(b<<56 | 0xE0)
		add(b<<56 | 0x00FFFFFFFFFFFFFF)
		add(b<<56 | 1<<48)
		add(b<<56 | (1<<48 - 1))
	}
	var mk K
	copy(mk[:], magic[:])
	out = append(out, mk)
	mk[0] = 0x40
	out = append(out, mk)
	copy(out[len(out)-1][:], magic[:])
	out[len(out)-1][7] = 1
	return cleanPool(out)
}

func cleanPool(in []K) (out []K) {
	seen := map[K]bool{guardLo: true, guardHi: true}
	for _, k := range in {
		if !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	return
}

// ---- values ----

func valMix(maxLen int) func(r *rand.Rand) []byte {
	return func(r *rand.Rand) []byte {
		switch r.Intn(12) {
		case 0:
			return []byte{}
		case 1:
			return []byte{byte(r.Intn(256))}
		case 2:
			return append([]byte{}, magic[:]...)
		case 3, 4: // several separators, overlapping, adjacent, cut
			var b []byte
			for i := 0; i < 1+r.Intn(6); i++ {
				switch r.Intn(5) {
				case 0:
					b = append(b, magic[:]...)
				case 1:
					b = append(b, magic[:7]...)
				case 2:
					b = append(b, magic[r.Intn(8):]...)
				case 3:
					x := make([]byte, r.Intn(9))
					r.Read(x)
					b = append(b, x...)
				case 4:
					b = append(b, 255)
				}
			}
			return b
		case 5:
			b := make([]byte, maxLen)
			r.Read(b)
			if maxLen > 20 {
				copy(b[r.Intn(maxLen-8):], magic[:])
			}
			return b
		case 6:
			return make([]byte, r.Intn(64))
		default:
			b := make([]byte, 8+r.Intn(80))
			r.Read(b)
			return b
		}
	}
}

func valSmall(r *rand.Rand) []byte {
	b := make([]byte, 4+r.Intn(20))
	r.Read(b)
	return b
}

func valBytes(n int) func(r *rand.Rand) []byte {
	return func(r *rand.Rand) []byte {
		b := make([]byte, n/2+r.Intn(n/2+1))
		r.Read(b)
		return b
	}
}

// Run holds a running scenario.
type Run struct {
	c          *Ctx
	p          *Prof
	r          *rand.Rand
	dir        string
	d          *DB
	m          *Model
	sh         *Shadow
	h          int64
	pruneAll   int64 // highest height ever pruned (-1: never)
	blk        int
	posOf      map[K]*RawEntry
	roots      []string // global root per block
	lastSh     [shardCount]h32
	hooks      []func(rn *Run)
	afterPrune func(h int64)
	byOrder    []int64       // committed heights in order
	recs       map[K][]recAt // where each key's entries were appended, in order
}

// recAt: at height h an entry of the key got serial number sn (changed or moved).
type recAt struct{ h, sn int64 }

func newRun(c *Ctx, p *Prof, sub string) *Run {
	applyCfg(p.Cfg)
	rn := &Run{c: c, p: p, dir: filepath.Join(c.dir, sub), h: p.H0 - 1, pruneAll: -1}
	rn.r = rand.New(rand.NewSource(c.res.Seed*7919 + int64(hashStr(p.Name+sub)%1000003)))
	must(os.MkdirAll(c.dir, 0755))
	must(os.RemoveAll(rn.dir))
	rn.d = openDB(rn.dir, p.History)
	rn.m = newModel(c.on["history"] || c.on["lasth"])
	rn.sh = newShadow(rn.dir)
	if c.on["history"] && (c.on["shadow"] || c.on["moves"]) {
		rn.recs = map[K][]recAt{}
	}
	return rn
}

func (rn *Run) destroy() {
	if rn.d != nil {
		rn.d.close()
		rn.d = nil
	}
	os.RemoveAll(rn.dir)
}

func (rn *Run) genOps() []Op {
	r, p := rn.r, rn.p
	n := p.MinOps
	if p.MaxOps > p.MinOps {
		n += r.Intn(p.MaxOps - p.MinOps + 1)
	}
	if r.Intn(25) == 0 {
		n = 0 // an empty block
	}
	var ops []Op
	if p.Fill && rn.blk == 0 {
		for _, k := range p.Pool {
			ops = append(ops, Op{Key: k, Kind: 'S', Val: p.Val(r)})
		}
		return ops
	}
	if p.Wipe > 0 && rn.blk%p.Wipe == p.Wipe-1 {
		for _, k := range rn.m.liveKeys() {
			ops = append(ops, Op{Key: k, Kind: 'D'})
		}
		rn.c.Count("wipe_blocks", 1)
		return ops
	}
	cold := 20
	if p.ColdIn > 0 {
		cold = p.ColdIn
	}
	for i := 0; i < n; i++ {
		k := p.Pool[r.Intn(len(p.Pool))]
		if p.HotFrom > 0 && r.Intn(cold) != 0 {
			k = p.Pool[p.HotFrom+r.Intn(len(p.Pool)-p.HotFrom)]
		}
		x := r.Float64()
		switch {
		case x < p.PDel:
			ops = append(ops, Op{Key: k, Kind: 'D'})
		case x < p.PDel+p.PSetDel:
			ops = append(ops, Op{Key: k, Kind: 'S', Val: p.Val(r)}, Op{Key: k, Kind: 'D'})
		case x < p.PDel+p.PSetDel+p.PDelSet:
			ops = append(ops, Op{Key: k, Kind: 'D'}, Op{Key: k, Kind: 'S', Val: p.Val(r)})
		case x < p.PDel+p.PSetDel+p.PDelSet+p.PPrep:
			o := Op{Key: k, Kind: 'P'}
			if r.Intn(2) == 0 {
				o.Val = []byte{1}
			}
			ops = append(ops, o)
		default:
			ops = append(ops, Op{Key: k, Kind: 'S', Val: p.Val(r)})
		}
	}
	if p.TailDel > 0 && r.Float64() < p.TailDel {
		ops = rn.tailDeletions(ops)
	}
	return ops
}

// tailDeletions makes the highest live keys of each shard the last ones the block works on, and
// deletes 60 to 70 of them: with 64 the list of deactivations is full, but not yet written, when
// compaction starts.
func (rn *Run) tailDeletions(ops []Op) []Op {
	live := rn.m.liveKeys()
	sort.Slice(live, func(i, j int) bool { return bytes.Compare(live[i][:], live[j][:]) > 0 })
	var from [shardCount]K
	var dels [shardCount][]Op
	var n [shardCount]int
	for i := range n {
		n[i] = 60 + rn.r.Intn(11)
		if rn.r.Intn(2) == 0 {
			n[i] = 64
		}
	}
	for _, k := range live {
		if s := shardOf(k); len(dels[s]) < n[s] && k != guardLo && k != guardHi {
			dels[s] = append(dels[s], Op{Key: k, Kind: 'D'})
			from[s] = k
		}
	}
	var out []Op
	for _, o := range ops {
		if s := shardOf(o.Key); len(dels[s]) == 0 || bytes.Compare(o.Key[:], from[s][:]) < 0 {
			out = append(out, o)
		}
	}
	for s := range dels {
		if len(dels[s]) == 64 {
			rn.c.Count("full_deactivation_lists", 1)
		}
		out = append(out, dels[s]...)
	}
	return out
}

func opsText(ops []Op) string {
	var b bytes.Buffer
	for i, o := range ops {
		if i >= 6 {
			fmt.Fprintf(&b, " ..(%d ops)", len(ops))
			break
		}
		fmt.Fprintf(&b, " %c:%x", o.Kind, o.Key)
		if o.Kind == 'S' {
			fmt.Fprintf(&b, "=%s", hx(o.Val))
		}
	}
	return b.String()
}

// step runs one block and the monitors that are switched on.
func (rn *Run) step(ops []Op) {
	c := rn.c
	rn.h++
	if rn.p.MaxGap > 0 {
		rn.h += rn.r.Int63n(rn.p.MaxGap + 1)
	}
	rn.blk++
	c.Log("block %d height %d:%s", rn.blk, rn.h, opsText(ops))
	rn.d.block(rn.h, ops, rn.p.Par, shuffledOrder(rn.r, len(ops)))
	changed, loose := rn.m.apply(rn.h, ops)
	rn.byOrder = append(rn.byOrder, rn.h)
	c.Count("blocks", 1)
	c.Count("ops", int64(len(ops)))
	rn.checkKeys(ops, changed, loose)
	if c.on["shadow"] {
		rn.checkShadow()
	} else if c.on["moves"] {
		rn.advanceShadow()
	}
	if rn.p.ScanEvery > 0 && rn.blk%rn.p.ScanEvery == 0 {
		rn.fullScan()
		if c.on["shadow"] {
			rn.checkLiveSet()
		}
	}
	if c.on["proofs"] && rn.p.Proofs > 0 {
		rn.checkProofs(rn.p.Proofs)
	}
	if c.on["history"] && rn.p.History && !rn.p.NoHistRead {
		rn.checkHistory(60)
	}
	for _, f := range rn.hooks {
		f(rn)
	}
	rn.roots = append(rn.roots, fmt.Sprintf("%d:%x", rn.h, rn.d.m.GetRootHash()))
	c.Max("max_live_keys", int64(len(rn.m.liveKeys())))
}

func (rn *Run) checkEntry(k K, loose bool) {
	c := rn.c
	e := rn.d.m.GetEntry(append([]byte{}, k[:]...))
	w := rn.m.ents[k]
	if (e == nil) != (w == nil) {
		if c.on["reads"] || c.on["chain"] {
			c.Failf("height %d: key %x present=%v, the history says present=%v", rn.h, k, e != nil, w != nil)
		}
		return
	}
	c.Eval(1)
	if e == nil {
		return
	}
	if c.on["reads"] && (!bytes.Equal(e.Key, k[:]) || !bytes.Equal(e.Value, w.Val)) {
		c.Failf("height %d: key %x reads back key %s value %s, last committed value %s", rn.h, k, hx(e.Key), hx(e.Value), hx(w.Val))
	}
	if c.on["chain"] {
		if !bytes.Equal(e.NextKey, w.Next[:]) {
			c.Failf("height %d: key %x: next key %s, the next live key is %x", rn.h, k, hx(e.NextKey), w.Next)
		}
	}
	if c.on["lasth"] {
		if loose && e.Height == rn.h && w.Height != rn.h {
			w.Last, w.Height = w.Height, rn.h
			if rn.m.keepH {
				rn.m.hist[k] = append(rn.m.hist[k], MVer{H: rn.h, Val: w.Val, Next: w.Next})
			}
		}
		if e.Height != w.Height || e.LastHeight != w.Last {
			c.Failf("height %d: key %x carries heights (%d,%d), its change history says (%d,%d)", rn.h, k, e.Height, e.LastHeight, w.Height, w.Last)
		}
	}
	c.Eval(1)
	if c.on["reads"] || c.on["chain"] {
		c.Distinct("e %x %d %d %x", k, e.Height, e.LastHeight, w.Next)
	}
}

func (rn *Run) checkKeys(ops []Op, changed, loose map[K]bool) {
	c := rn.c
	done := map[K]bool{}
	chk := func(k K) {
		if !done[k] {
			done[k] = true
			rn.checkEntry(k, loose[k])
		}
	}
	for _, o := range ops {
		chk(o.Key)
	}
	for k := range changed {
		chk(k)
	}
	for k := range loose {
		chk(k)
	}
	for i := 0; i < 20; i++ {
		if len(rn.p.Pool) > 0 {
			chk(rn.p.Pool[rn.r.Intn(len(rn.p.Pool))])
		}
		var k K
		rn.r.Read(k[:])
		chk(k)
	}
	if n := rn.d.m.ActiveCount(); c.on["reads"] && n != len(rn.m.ents) {
		c.Failf("height %d: active count %d, the history leaves %d keys and 2 guards", rn.h, n, len(rn.m.ents)-2)
	}
	c.Eval(1)
	if g := rn.d.m.GetCurrHeight(); c.on["reads"] && g != rn.h {
		c.Failf("current height %d after committing height %d", g, rn.h)
	}
}

func (rn *Run) fullScan() {
	c := rn.c
	if c.on["reads"] {
		rn.scanAll()
	}
	if c.on["chain"] {
		rn.walkChain()
	}
}

func (rn *Run) scanAll() {
	c := rn.c
	lk := rn.m.liveKeys()
	i := len(lk) - 1
	rn.d.m.ScanAll(func(key, value []byte) {
		if i < 0 {
			c.Failf("height %d: scan returns the surplus key %s", rn.h, hx(key))
		}
		if !bytes.Equal(key, lk[i][:]) {
			c.Failf("height %d: scan returns key %s where the history has %x", rn.h, hx(key), lk[i])
		}
		if w := rn.m.ents[lk[i]]; !bytes.Equal(value, w.Val) {
			c.Failf("height %d: scan returns value %s for %x, last committed value %s", rn.h, hx(value), lk[i], hx(w.Val))
		}
		i--
	})
	if i != -1 {
		c.Failf("height %d: scan misses %d keys, first %x", rn.h, i+1, lk[i])
	}
	c.Eval(int64(len(lk)))
	c.Count("full_scans", 1)
}

// walkChain visits every live key, in order, guards included.
func (rn *Run) walkChain() {
	c := rn.c
	for j := 0; j < len(rn.m.order); j++ {
		rn.checkEntry(rn.m.order[j], false)
	}
	c.Count("chain_walks", 1)
	// absent keys: the predecessor's interval must enclose them
	for t := 0; t < 20; t++ {
		var k K
		if t%2 == 0 || len(rn.p.Pool) == 0 {
			rn.r.Read(k[:])
		} else {
			k = rn.p.Pool[rn.r.Intn(len(rn.p.Pool))]
		}
		if rn.m.ents[k] != nil {
			continue
		}
		f := rn.m.floor(k)
		e := rn.d.m.GetEntry(append([]byte{}, f[:]...))
		if e == nil || bytes.Compare(e.NextKey, k[:]) <= 0 {
			c.Failf("height %d: absent key %x is not enclosed by its predecessor %x", rn.h, k, f)
		}
		c.Eval(1)
	}
}

func (rn *Run) advanceShadow() {
	c := rn.c
	for _, s := range rn.sh.sh {
		es, err := s.advance(-1)
		if err != nil {
			c.Failf("height %d: entry log unreadable: %v", rn.h, err)
		}
		c.Count("entries_logged", int64(len(es)))
		for _, e := range es {
			if e.dummy() {
				c.Count("dummy_entries", 1)
			} else if rn.recs != nil && len(e.Key) == 8 {
				h := rn.h
				if e.Height < rn.p.H0 { // the guards' first entries
					h = e.Height
				}
				rn.recs[kOf(e.Key)] = append(rn.recs[kOf(e.Key)], recAt{h, e.SN})
			}
			if len(e.Deact) > 0 {
				c.Max("max_deactivations_in_one_entry", int64(len(e.Deact)))
			}
		}
		c.Max("max_twigs_in_shard", int64(len(s.twigs)))
	}
}

func (rn *Run) checkShadow() {
	c := rn.c
	rn.advanceShadow()
	rs := rn.sh.roots()
	rn.lastSh = rs
	want := combineRoots(rs)
	got := rn.d.m.GetRootHash()
	if !bytes.Equal(got, want[:]) {
		bad := ""
		if meta := rn.d.meta(); meta != nil {
			for i := range rs {
				if meta.GetRootHash(i) != rs[i] {
					bad += fmt.Sprintf(" shard %d", i)
				}
			}
		}
		c.Failf("height %d: root hash %x, recomputed from the logged entries and activity bits %x (differs:%s)", rn.h, got, want, bad)
	}
	c.Eval(1)
	c.Count("roots_recomputed", 1)
	c.Distinct("root %x", want)
}

// checkLiveSet: the active leaves are exactly the live keys (and both guards), once each.
func (rn *Run) checkLiveSet() {
	c := rn.c
	seen := map[K]*RawEntry{}
	for i, s := range rn.sh.sh {
		for _, e := range s.live {
			k := kOf(e.Key)
			if len(e.Key) != 8 || shardOf(k) != i {
				c.Failf("height %d: active leaf of key %s in shard %d", rn.h, hx(e.Key), i)
			}
			if o := seen[k]; o != nil {
				c.Failf("height %d: key %x has two active leaves, serial numbers %d and %d", rn.h, k, o.SN, e.SN)
			}
			seen[k] = e
			w := rn.m.ents[k]
			if w == nil {
				c.Failf("height %d: active leaf of key %x, which is not live", rn.h, k)
			}
			if !bytes.Equal(w.Val, e.Value) || !bytes.Equal(w.Next[:], e.NextKey) {
				c.Failf("height %d: active leaf of key %x holds value %s next %s, live value %s next %x", rn.h, k, hx(e.Value), hx(e.NextKey), hx(w.Val), w.Next)
			}
		}
	}
	if len(seen) != len(rn.m.ents) {
		for k := range rn.m.ents {
			if seen[k] == nil {
				c.Failf("height %d: live key %x has no active leaf", rn.h, k)
			}
		}
	}
	rn.posOf = seen
	c.Eval(int64(len(seen)))
	c.Count("live_sets_compared", 1)
}

func (rn *Run) proofOf(k K) (*Proof, []byte, []byte) {
	c := rn.c
	ebz, pbz, err := rn.d.m.GetProof(append([]byte{}, k[:]...))
	if err != nil && os.Getenv("VH_FAULT") != "" {
		panic(err) // a failing file was reported
	}
	if err != nil {
		c.Failf("height %d: no proof for live key %x: %v", rn.h, k, err)
	}
	p, err := parseProof(pbz)
	if err != nil {
		c.Failf("height %d: proof of key %x: %v", rn.h, k, err)
	}
	return p, ebz, pbz
}

func (rn *Run) checkProofs(n int) {
	c := rn.c
	lk := rn.m.order
	var keys []K
	for i := 0; i < n; i++ {
		keys = append(keys, lk[rn.r.Intn(len(lk))])
	}
	keys = append(keys, guardLo, guardHi)
	// the extreme serial numbers of each shard and those around twig boundaries
	for _, s := range rn.sh.sh {
		lo, hi := int64(-1), int64(-1)
		for sn, e := range s.live {
			if lo < 0 || sn < lo {
				lo = sn
			}
			if sn > hi {
				hi = sn
			}
			if j := sn & 2047; j <= 1 || j >= 2046 {
				keys = append(keys, kOf(e.Key))
			}
		}
		if lo >= 0 {
			keys = append(keys, kOf(s.live[lo].Key), kOf(s.live[hi].Key))
		}
	}
	for _, k := range keys {
		if rn.m.ents[k] != nil {
			rn.checkOneProof(k)
		}
	}
	// keys that are not live have no proof
	for i := 0; i < 5; i++ {
		k := rn.p.Pool[rn.r.Intn(len(rn.p.Pool))]
		if rn.m.ents[k] != nil {
			continue
		}
		if _, pbz, err := rn.d.m.GetProof(append([]byte{}, k[:]...)); err == nil {
			c.Failf("height %d: a proof of %d bytes for key %x, which is not live", rn.h, len(pbz), k)
		}
		c.Eval(1)
	}
}

func (rn *Run) checkOneProof(k K) {
	c := rn.c
	p, ebz, _ := rn.proofOf(k)
	s := shardOf(k)
	if err := p.verify(); err != nil {
		c.Failf("height %d: proof of key %x (serial number %d) rejected: %v", rn.h, k, p.SN, err)
	}
	if !p.active() {
		c.Failf("height %d: proof of key %x does not show serial number %d active", rn.h, k, p.SN)
	}
	e, used, err := decodeEntry(ebz)
	if err != nil || used != len(ebz) {
		c.Failf("height %d: entry bytes of the proof of %x unreadable: %v (%d of %d bytes)", rn.h, k, err, used, len(ebz))
	}
	w := rn.m.ents[k]
	if e.Hash != p.Leaf || e.SN != p.SN || !bytes.Equal(e.Key, k[:]) || !bytes.Equal(e.Value, w.Val) {
		c.Failf("height %d: proof of key %x is about serial number %d key %s value %s (entry %d)", rn.h, k, p.SN, hx(e.Key), hx(e.Value), e.SN)
	}
	if !bytes.Equal(e.NextKey, w.Next[:]) {
		c.Failf("height %d: proved entry of %x has next key %s, the next live key is %x", rn.h, k, hx(e.NextKey), w.Next)
	}
	// the proof must lead to the root that the database publishes
	var roots [shardCount]h32
	if c.on["shadow"] {
		roots = rn.lastSh
		if p.Root != roots[s] {
			c.Failf("height %d: proof of %x leads to %x, the shard's root recomputed from its log is %x", rn.h, k, p.Root, roots[s])
		}
	} else {
		if meta := rn.d.meta(); meta != nil {
			for i := range roots {
				roots[i] = meta.GetRootHash(i)
			}
			roots[s] = p.Root
			if g := combineRoots(roots); !bytes.Equal(g[:], rn.d.m.GetRootHash()) {
				c.Failf("height %d: proof of %x does not lead to the published root hash", rn.h, k)
			}
		}
	}
	c.Eval(1)
	c.Count("proofs_verified", 1)
	c.Distinct("proof s%d tw%d off%d up%d", s, p.SN>>11, (p.SN&2047)>>5, len(p.Upper))
	if rn.r.Intn(200) == 0 {
		c.Sample("height %d key %x: entry %d bytes, serial number %d, %d upper nodes, shard root %x", rn.h, k, len(ebz), p.SN, len(p.Upper), p.Root[:6])
	}
}

// checkHistory compares reads at past heights with the model.
func (rn *Run) checkHistory(n int) {
	for i := 0; i < n; i++ {
		k := rn.p.Pool[rn.r.Intn(len(rn.p.Pool))]
		if i%10 == 9 {
			rn.r.Read(k[:])
		}
		lo := rn.p.H0 - 2
		if lo < 0 {
			lo = 0
		}
		if rn.pruneAll-3 > lo && rn.r.Intn(4) != 0 {
			lo = rn.pruneAll - 3
		}
		h := lo + rn.r.Int63n(rn.h-lo+2)
		if i%3 == 0 { // exactly at, just before and just after a version
			if vs := rn.m.hist[k]; len(vs) > 0 {
				h = vs[rn.r.Intn(len(vs))].H + int64(rn.r.Intn(3)) - 1
				if h < 0 {
					h = 0
				}
			}
		}
		rn.readAt(k, h)
		if i%6 == 1 {
			rn.readFuture(k)
		}
	}
}

// readFuture reads a key at a height that no block has reached: that gives the current state.
func (rn *Run) readFuture(k K) {
	c := rn.c
	hs := []uint64{uint64(rn.h) + 1, uint64(rn.h) + 1 + uint64(rn.r.Int63n(1<<40)), 1<<63 - 1, 1 << 63, ^uint64(0) - 1, ^uint64(0)}
	h := hs[rn.r.Intn(len(hs))]
	if rn.pruneAll >= 0 && h <= uint64(rn.pruneAll) {
		return
	}
	w, verH := rn.m.at(k, rn.h)
	var e *types.Entry
	if p, st := panics(func() { e = rn.d.m.GetEntryAtHeight(append([]byte{}, k[:]...), h) }); p != nil {
		rn.histMismatch(k, rn.h, verH, fmt.Sprintf("reading key %x at the future height %d (now %d) panics: %v\n%s", k, h, rn.h, p, st))
		return
	}
	c.Eval(1)
	c.Count("history_reads_future", 1)
	if (e == nil) != (w == nil) || e != nil && (!bytes.Equal(e.Key, k[:]) || !bytes.Equal(e.Value, w.Val) || !bytes.Equal(e.NextKey, w.Next[:])) {
		rn.histMismatch(k, rn.h, verH, fmt.Sprintf("key %x at the future height %d (now %d): present=%v, it is live now: %v; or another entry (version of height %d)", k, h, rn.h, e != nil, w != nil, verH))
	}
}

func (rn *Run) readAt(k K, h int64) {
	c := rn.c
	kb := append([]byte{}, k[:]...)
	var e *types.Entry
	w, verH := rn.m.at(k, h)
	if p, st := panics(func() { e = rn.d.m.GetEntryAtHeight(kb, uint64(h)) }); p != nil {
		rn.histMismatch(k, h, verH, fmt.Sprintf("reading key %x at height %d (now %d) panics: %v\n%s", k, h, rn.h, p, st))
		return
	}
	c.Eval(1)
	c.Count("history_reads", 1)
	if h <= rn.pruneAll {
		c.Count("history_reads_pruned", 1)
		if e != nil {
			c.Failf("key %x is answered at height %d although heights up to %d were pruned", k, h, rn.pruneAll)
		}
		return
	}
	if (e == nil) != (w == nil) {
		rn.histMismatch(k, h, verH, fmt.Sprintf("key %x at height %d (now %d): present=%v, history says present=%v (version of height %d)", k, h, rn.h, e != nil, w != nil, verH))
		return
	}
	if e == nil {
		c.Distinct("h absent ver%v gap%d", verH >= 0, clip(h-verH))
		return
	}
	if !bytes.Equal(e.Key, k[:]) || !bytes.Equal(e.Value, w.Val) || !bytes.Equal(e.NextKey, w.Next[:]) {
		rn.histMismatch(k, h, verH, fmt.Sprintf("key %x at height %d (now %d): value %s next %s, history says %s next %x (version of height %d)", k, h, rn.h, hx(e.Value), hx(e.NextKey), hx(w.Val), w.Next, verH))
		return
	}
	c.Count("history_hits", 1)
	c.Distinct("h age%d gap%d nver%d", clip(rn.h-verH), clip(h-verH), clip(int64(len(rn.m.hist[k]))))
}

func clip(v int64) int64 {
	if v > 40 {
		return 40 + v/40
	}
	return v
}

// histMismatch decides whether a wrong read at a past height is one of the listed findings.
// What the read needs is the newest index record of the key at or below the height, written
// when the key was changed or moved last, and the entry it points at.
func (rn *Run) histMismatch(k K, h, verH int64, text string) {
	c := rn.c
	if rn.pruneAll >= 0 && h > rn.pruneAll && verH >= 0 && verH < rn.pruneAll && rn.recs != nil {
		last := recAt{-1, -1}
		for _, r := range rn.recs[k] {
			if r.h <= h {
				last = r
			}
		}
		if verH > last.h {
			last = recAt{verH, -1} // deleted after that
		}
		if last.h < rn.pruneAll && rn.kvCompacted() {
			c.KnownOr("prune-drops-covering-version", "%s; heights below %d were pruned", text, rn.pruneAll)
			return
		}
		text += fmt.Sprintf("; heights below %d were pruned; the newest record of the key up to then is of height %d", rn.pruneAll, last.h)
	}
	c.Failf("%s", text)
}

// kvCompacted tells whether the key-value database ever ran a compaction.
func (rn *Run) kvCompacted() bool {
	logs, _ := filepath.Glob(filepath.Join(rn.dir, "*.db", "LOG*"))
	if len(logs) == 0 {
		return true // cannot tell
	}
	for _, f := range logs {
		if b, err := os.ReadFile(f); err != nil || bytes.Contains(b, []byte("compaction_started")) || bytes.Contains(b, []byte("ompacting ")) {
			return true
		}
	}
	return false
}

func (rn *Run) reopen() {
	rn.c.Log("reopen after height %d", rn.h)
	before := append([]byte{}, rn.d.m.GetRootHash()...)
	rn.d.close()
	rn.d = openDB(rn.dir, rn.p.History)
	rn.c.Count("reopens", 1)
	if !bytes.Equal(before, rn.d.m.GetRootHash()) {
		rn.c.Failf("root hash %x before closing, %x after reopening at height %d", before, rn.d.m.GetRootHash(), rn.h)
	}
	rn.c.Eval(1)
	rn.checkKeys(nil, nil, nil)
	rn.fullScan()
	if rn.c.on["proofs"] && rn.p.Proofs > 0 {
		rn.checkProofs(rn.p.Proofs)
	}
	if rn.c.on["history"] && rn.p.History && !rn.p.NoHistRead {
		rn.checkHistory(60)
	}
}

func (rn *Run) prune(h int64) {
	if h < 0 {
		rn.c.Count("prunes_below_zero", 1) // a lag larger than the chain is high: prunes nothing
	}
	rn.c.Log("prune before height %d (now %d)", h, rn.h)
	before := append([]byte{}, rn.d.m.GetRootHash()...)
	var lp [shardCount]int64
	meta := rn.d.meta()
	if meta != nil {
		for i := range lp {
			lp[i] = meta.GetLastPrunedTwig(i)
		}
	}
	rn.d.m.PruneBeforeHeight(h)
	rn.c.Count("prunes", 1)
	if h > rn.pruneAll {
		rn.pruneAll = h
	}
	if meta != nil {
		for i := range lp {
			if n := meta.GetLastPrunedTwig(i) - lp[i]; n > 0 {
				rn.c.Count("twigs_pruned", n)
				rn.c.Distinct("prune s%d to%d", i, meta.GetLastPrunedTwig(i))
			}
		}
	}
	if !bytes.Equal(before, rn.d.m.GetRootHash()) {
		rn.c.Failf("root hash changed by pruning before height %d", h)
	}
	rn.c.Eval(1)
	rn.checkKeys(nil, nil, nil)
	if rn.afterPrune != nil {
		rn.afterPrune(h)
	}
	if rn.c.on["proofs"] && rn.p.Proofs > 0 {
		rn.checkProofs(rn.p.Proofs)
	}
	if rn.c.on["history"] && rn.p.History {
		rn.checkHistory(60)
	}
}

// run executes the whole profile.
func (rn *Run) run() {
	c, p := rn.c, rn.p
	for b := 0; b < p.Blocks; b++ {
		rn.step(rn.genOps())
		if p.PPrune > 0 && rn.r.Float64() < p.PPrune {
			if rn.r.Intn(12) == 0 {
				rn.prune(-1 - rn.r.Int63n(1000))
			}
			rn.prune(rn.h - p.PruneLag - int64(rn.r.Intn(5)) + 2)
			if rn.r.Intn(2) == 0 && !p.KeepOpen {
				rn.reopen()
			}
		}
		if p.PReopen > 0 && rn.r.Float64() < p.PReopen {
			rn.reopen()
		}
	}
	rn.fullScan()
	if c.on["shadow"] {
		rn.checkShadow()
		rn.checkLiveSet()
		for _, s := range rn.sh.sh {
			c.Count("file_rollovers", s.rolls)
		}
	}
	if meta := rn.d.meta(); meta != nil {
		for i := 0; i < shardCount; i++ {
			c.Max("max_compacted_twigs", meta.GetOldestActiveTwigID(i))
			c.Count("twigs_compacted", meta.GetOldestActiveTwigID(i))
		}
	}
	c.Sample("%s: %d blocks to height %d, %d live keys, root %x", p.Name, rn.blk, rn.h, len(rn.m.liveKeys()), rn.d.m.GetRootHash()[:8])
}

func sortKeys(ks []K) { sort.Slice(ks, func(i, j int) bool { return kLess(ks[i], ks[j]) }) }
