package main

// C20: root and trunk stores against overlays of maps. C21: the rabbit store against a map
// of byte strings.

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"

	"github.com/smartbch/moeingads"
	"github.com/smartbch/moeingads/store"
	"github.com/smartbch/moeingads/store/rabbit"
	"github.com/smartbch/moeingads/store/types"
)

// cacheRules are the cacheability rules a root store is opened with.
var cacheRules = []struct {
	name string
	fn   func(k []byte) bool
}{
	{"none", nil},
	{"all", func(k []byte) bool { return true }},
	{"never", func(k []byte) bool { return false }},
	{"some", func(k []byte) bool { return k[6]&1 == 0 }},
	{"shard", func(k []byte) bool { return k[7] < 128 }},
}

func sameBytes(got []byte, want []byte, live bool) bool {
	if !live {
		return len(got) == 0
	}
	return got != nil && bytes.Equal(got, want)
}

// overlay is what a trunk holds on top of the committed state: nil is a deletion.
type overlay map[K][]byte

func init() {
	workers["stores"] = func(c *Ctx, cs *Case) {
		r := c.rnd
		history := cs.n("history", 0) == 1
		limits := []int{0, 1, 3, 20, 1024}
		lim := int(cs.n("limit", int64(limits[r.Intn(len(limits))])))
		applyCfg(Cfg{HPFile: 1 << 20, HPBuf: 1 << 13, Reap: 200, RootCache: lim})
		dir, twinDir := filepath.Join(c.dir, "root"), filepath.Join(c.dir, "twin")
		must(os.MkdirAll(dir, 0755))
		must(os.MkdirAll(twinDir, 0755))
		m := newModel(true)
		m.apply(0, nil)
		for _, g := range []K{guardLo, guardHi} {
			m.hist[g] = nil
		}
		var root *store.RootStore
		var rootDB *moeingads.MoeingADS
		rule := ""
		h := int64(0)
		open := func() {
			cr := cacheRules[r.Intn(len(cacheRules))]
			if x := cs.S["rule"]; x != "" {
				for _, y := range cacheRules {
					if y.name == x {
						cr = y
					}
				}
			}
			rule = cr.name
			rootDB = openDB(dir, history).m
			if got := rootDB.GetCurrHeight(); h > 0 && got != h {
				c.Failf("opened at height %d, the last block was %d", got, h)
			}
			root = store.NewRootStore(rootDB, cr.fn)
			c.Count("root_stores_opened_"+rule, 1)
		}
		open()
		twin := openDB(twinDir, history)
		// a pool of keys in which many share a shard (so that the caches fill up)
		var pool []K
		for i := 0; i < int(cs.n("pool", 150)); i++ {
			var k K
			binary.BigEndian.PutUint64(k[:], r.Uint64())
			k[0] = 64 + k[0]%128
			if r.Intn(2) == 0 {
				k[7] = byte(r.Intn(40))
			}
			pool = append(pool, k)
		}
		serial := int64(0)
		val := func() []byte {
			serial++
			v := []byte(fmt.Sprintf("v%d.", serial))
			for n := r.Intn(40); n > 0; n-- {
				v = append(v, byte(r.Intn(256)))
			}
			return v
		}
		live := func(k K) ([]byte, bool) {
			e, ok := m.ents[k]
			if !ok {
				return nil, false
			}
			return e.Val, true
		}
		readRoot := func(k K, who string) {
			got := root.Get(append([]byte{}, k[:]...))
			w, ok := live(k)
			c.Eval(1)
			if !sameBytes(got, w, ok) {
				c.Failf("%s, height %d, cache rule %s, limit %d: the root store gives %q for %x, committed is %q (%v)", who, h, rule, lim, got, k[:], w, ok)
			}
			c.Distinct("root %x %d %v", k[:], h, ok)
			for i := range got {
				got[i] ^= 0xff // what a reader does with its bytes is its own business
			}
		}
		readTrunk := func(ts *store.TrunkStore, ov overlay, k K, who string) {
			got := ts.Get(append([]byte{}, k[:]...))
			w, ok := live(k)
			if x, in := ov[k]; in {
				w, ok = x, x != nil
				c.Count("reads_of_trunk_changes", 1)
			} else {
				c.Count("reads_through_trunk", 1)
			}
			c.Eval(1)
			if !sameBytes(got, w, ok) {
				c.Failf("%s, height %d, cache rule %s, limit %d: the trunk store gives %q for %x, expected %q (%v; own change: %v)", who, h, rule, lim, got, k[:], w, ok, ov[k] != nil)
			}
			c.Distinct("trunk %x %d %v %d", k[:], h, ok, len(ov))
			for i := range got {
				got[i] ^= 0xff
			}
		}
		atHeight := func(get func([]byte, uint64) []byte, who string) {
			if !history || h == 0 {
				return
			}
			k := pool[r.Intn(len(pool))]
			hh := 1 + r.Int63n(h)
			if vs := m.hist[k]; len(vs) > 0 && r.Intn(2) == 0 {
				hh = vs[r.Intn(len(vs))].H - int64(r.Intn(2))
			}
			if r.Intn(10) == 0 {
				hh = h + r.Int63n(3)
			}
			got := get(append([]byte{}, k[:]...), uint64(hh))
			v, _ := m.at(k, hh)
			var w []byte
			if v != nil {
				w = v.Val
			}
			c.Eval(1)
			c.Count("reads_at_heights", 1)
			if !sameBytes(got, w, v != nil) {
				c.Failf("%s, height %d, cache rule %s: %x at height %d gives %q, expected %q (%v)", who, h, rule, k[:], hh, got, w, v != nil)
			}
		}
		pick := func() K {
			if r.Intn(12) == 0 {
				var k K
				binary.BigEndian.PutUint64(k[:], r.Uint64())
				k[0] = 64 + k[0]%128
				pool[r.Intn(len(pool))] = k
				return k
			}
			return pool[r.Intn(len(pool))]
		}
		// change makes random changes in a trunk
		change := func(ts *store.TrunkStore, ov overlay, prepare bool) {
			type op struct {
				k K
				v []byte
			}
			var ops []op
			for n := r.Intn(12); n >= 0; n-- {
				o := op{k: pick()}
				if r.Intn(3) > 0 {
					o.v = val()
				}
				ops = append(ops, o)
				if r.Intn(5) == 0 { // again
					o2 := op{k: o.k}
					if r.Intn(2) == 0 {
						o2.v = val()
					}
					ops = append(ops, o2)
				}
			}
			if prepare {
				for _, o := range ops {
					if o.v != nil {
						ts.PrepareForUpdate(append([]byte{}, o.k[:]...))
					} else {
						ts.PrepareForDeletion(append([]byte{}, o.k[:]...))
					}
				}
			}
			kb := make([]byte, 8)
			ts.Update(func(db types.SetDeleter) {
				for _, o := range ops {
					copy(kb, o.k[:])
					if o.v != nil {
						vb := append([]byte{}, o.v...)
						db.Set(kb, vb)
						for i := range vb { // the caller reuses its buffers
							vb[i] = 0xaa
						}
					} else {
						db.Delete(kb)
					}
					ov[o.k] = o.v
				}
				for i := range kb {
					kb[i] = 0
				}
			})
			c.Count("trunk_updates", 1)
		}
		net := func(ov overlay) (ops []Op) {
			for k, v := range ov {
				if v == nil {
					ops = append(ops, Op{Key: k, Kind: 'D'})
				} else {
					ops = append(ops, Op{Key: k, Kind: 'S', Val: v})
				}
			}
			sort.Slice(ops, func(i, j int) bool { return kLess(ops[i].Key, ops[j].Key) })
			return
		}
		commit := func(ops []Op, how string) {
			m.apply(h, ops)
			// the twin is given these operations only
			twin.block(h, ops, 1, nil)
			c.Eval(1)
			if got, want := root.GetRootHash(), twin.m.GetRootHash(); !bytes.Equal(got, want) {
				c.Failf("height %d, %s: root hash %x, the same net changes applied directly give %x", h, how, got[:8], want[:8])
			}
			if got := root.ActiveCount(); got != len(m.order) {
				c.Failf("height %d, %s: the root store counts %d keys, there are %d", h, how, got, len(m.order))
			}
			if got := rootDB.GetCurrHeight(); got != h {
				c.Failf("%s as block %d, the current height is %d", how, h, got)
			}
			if len(ops) == 0 {
				c.Count("empty_blocks", 1)
			}
			c.Count("blocks_committed", 1)
			c.Max("live_keys", int64(len(m.order)))
		}
		for b := 0; b < int(cs.n("blocks", 120)); b++ {
			ro := []*store.TrunkStore{}
			roOv := []overlay{}
			for n := r.Intn(3); n > 0; n-- {
				ro = append(ro, root.GetReadOnlyTrunkStore(r.Intn(50)).(*store.TrunkStore))
				roOv = append(roOv, overlay{})
			}
			closeRO := func() {
				for i, ts := range ro {
					for n := 0; n < 6; n++ {
						readTrunk(ts, roOv[i], pool[r.Intn(len(pool))], "read-only trunk")
					}
					before := root.GetRootHash()
					if r.Intn(2) == 0 {
						p, _ := panics(func() { ts.Close(true) })
						c.Eval(1)
						if p == nil {
							c.Failf("height %d: a read-only trunk was closed with write-back without complaint", h)
						}
						c.Count("refused_write_backs", 1)
					}
					p, st := panics(func() { ts.Close(false) })
					if p != nil {
						c.Failf("height %d: closing a read-only trunk: %v\n%s", h, p, st)
					}
					if !bytes.Equal(before, root.GetRootHash()) {
						c.Failf("height %d: closing a read-only trunk changed the root", h)
					}
				}
				ro = nil
			}
			if r.Intn(8) == 0 { // directly on the root store
				var seq []Op
				for n := 1 + r.Intn(10); n > 0; n-- {
					k := pick()
					o := Op{Key: k, Kind: 'S', Val: val()}
					if r.Intn(3) == 0 {
						o = Op{Key: k, Kind: 'D'}
					}
					if o.Kind == 'S' {
						root.PrepareForUpdate(append([]byte{}, k[:]...))
					} else {
						root.PrepareForDeletion(append([]byte{}, k[:]...))
					}
					seq = append(seq, o)
				}
				closeRO()
				h += 1 + int64(r.Intn(3))
				root.SetHeight(h)
				root.Update(func(db types.SetDeleter) {
					for _, o := range seq {
						if o.Kind == 'S' {
							db.Set(append([]byte{}, o.Key[:]...), append([]byte{}, o.Val...))
						} else {
							db.Delete(append([]byte{}, o.Key[:]...))
						}
					}
				})
				commit(seq, "updated directly")
				c.Count("direct_updates", 1)
			} else {
				ts := root.GetTrunkStore(r.Intn(200)).(*store.TrunkStore)
				ov := overlay{}
				n := r.Intn(6)
				if r.Intn(8) == 0 { // no changes at all
					n = -1
				}
				for ; n >= 0; n-- {
					change(ts, ov, true)
					if len(ro) > 0 && r.Intn(3) == 0 {
						i := r.Intn(len(ro))
						change(ro[i], roOv[i], r.Intn(2) == 0)
					}
					for q := 0; q < 8; q++ {
						k := pool[r.Intn(len(pool))]
						readTrunk(ts, ov, k, "trunk")
						readRoot(k, "beside an open trunk")
						if len(ro) > 0 {
							i := r.Intn(len(ro))
							readTrunk(ro[i], roOv[i], k, "read-only trunk")
						}
					}
					for k := range ov {
						readTrunk(ts, ov, k, "trunk, changed key")
						break
					}
					atHeight(ts.GetAtHeight, "through a trunk")
					if ts.CacheSize() != len(ov) {
						c.Failf("the trunk reports %d changed keys, there are %d", ts.CacheSize(), len(ov))
					}
				}
				closeRO()
				switch x := r.Intn(10); {
				case x < 6:
					h += 1 + int64(r.Intn(3))
					root.SetHeight(h)
					ts.Close(true)
					commit(net(ov), "trunk written back")
					c.Count("trunks_written_back", 1)
				case x < 7: // what a trunk holds, applied by the library's helper
					h++
					root.SetHeight(h)
					content := map[string]string{}
					for k, v := range ts.GetCacheContent() {
						content[k] = v
					}
					ts.Close(false)
					store.SyncUpdateTo(content, root)
					commit(net(ov), "applied with SyncUpdateTo")
					c.Count("sync_updates", 1)
				case x < 8: // written back in two steps
					h++
					root.SetHeight(h)
					ts.WriteBack()
					commit(net(ov), "written back before closing")
					for n := 0; n < 5; n++ {
						readTrunk(ts, ov, pool[r.Intn(len(pool))], "after WriteBack")
					}
					ts.Close(false)
				default:
					before := root.GetRootHash()
					ts.Close(false)
					if !bytes.Equal(before, root.GetRootHash()) {
						c.Failf("height %d: closing a trunk without write-back changed the root", h)
					}
					c.Count("trunks_discarded", 1)
				}
			}
			for n := 0; n < 25; n++ {
				readRoot(pool[r.Intn(len(pool))], "between blocks")
			}
			for n := 0; n < 6; n++ {
				atHeight(root.GetAtHeight, "root store")
			}
			if r.Intn(12) == 0 {
				for _, k := range pool {
					readRoot(k, "all keys")
				}
			}
			if r.Intn(15) == 0 {
				root.Close()
				open()
				c.Count("reopens", 1)
				for n := 0; n < 20; n++ {
					readRoot(pool[r.Intn(len(pool))], "after reopening")
				}
			}
		}
		c.Sample("cache limit %d, last rule %s: %d keys live at height %d, root %x", lim, rule, len(m.order), h, root.GetRootHash()[:8])
		root.Close()
		twin.close()
	}

	register(&Check{ID: "C20",
		Rule:   "A case is one seeded history of a root store (one cache limit, random cacheability rules per opening): trunks with several rounds of changes, written back (three ways) or discarded, read-only trunks with changes of their own beside them, direct updates, reopens. Every read through a trunk is compared with overlay-then-committed maps, every read of the root store with the committed map, reads at heights with the replayed versions, and after each block the root hash with a database that was given only the net changes. Returned bytes are overwritten by the reader and argument buffers reused. Distinct non-trivial: different (store, key, height, liveness, overlay size) reads.",
		Assume: []string{"values are not empty (an empty value means deletion in a trunk)", "changes in a trunk that is written back were prepared", "one trunk at a time is writable"},
		Cases: func(tier string, seed int64) (out []Case) {
			n, blocks := int64(8), int64(250)
			if tier == "thorough" {
				n, blocks = 14, 700
			}
			for s := int64(0); s < n; s++ {
				for i, l := range []int64{0, 1, 3, 20, 1024} {
					p := map[string]int64{"limit": l, "blocks": blocks, "history": (s + int64(i)) % 2}
					out = append(out, Case{Worker: "stores", Name: fmt.Sprintf("limit%d", l), Seed: seed*1000 + s, P: p})
				}
				out = append(out, Case{Worker: "stores", Name: "all-cached", Seed: seed*1000 + s, P: map[string]int64{"limit": 3, "blocks": blocks, "pool": 40, "history": 1}, S: map[string]string{"rule": "all"}})
				out = append(out, Case{Worker: "stores", Name: "all-cached-large", Seed: seed*1000 + s, P: map[string]int64{"limit": 1024, "blocks": blocks, "pool": 400}, S: map[string]string{"rule": "all"}})
			}
			return
		}, Need: map[string]int64{"trunks_written_back": 200, "trunks_discarded": 60, "refused_write_backs": 50, "sync_updates": 30, "empty_blocks": 30, "reads_at_heights": 500, "reopens": 20}})
}

// ---- C21 ----

// padded lets a rabbit store with short keys of any size sit on stores that need 8 bytes.
type padded struct {
	p types.BaseStoreI
	w *viewWatch
}

// viewWatch sees what a store does to the one below it.
type viewWatch struct{ locks, prepared, updates int }

// readOnlyDone checks what a closed read-only rabbit store did to the store below it.
func (w *viewWatch) readOnlyDone(c *Ctx, rb *rabbit.RabbitStore, what string) {
	if w.locks != 0 {
		c.Failf("%s: after closing the store below is locked %d times more than unlocked", what, w.locks)
	}
	if p, _ := panics(func() { rb.WriteBack() }); p == nil {
		c.Failf("%s: was written back", what)
	}
	if w.updates > 0 {
		c.Failf("%s: updated the store below it", what)
	}
	if w.prepared > 0 {
		c.Failf("%s: prepared %d changes in the store below it", what, w.prepared)
	}
	c.Eval(4)
	c.Count("read_only_views", 1)
}

func pad(k []byte) []byte {
	if len(k) >= 8 {
		return k
	}
	out := make([]byte, 8)
	copy(out, k)
	out[7] = k[0] ^ k[len(k)-1]*3 // spreads over the shards
	if len(k) == 1 {
		out[7] = k[0] * 37
	}
	return out
}

func (p padded) watch(locks, prepared, updates int) {
	if p.w != nil {
		p.w.locks += locks
		p.w.prepared += prepared
		p.w.updates += updates
	}
}
func (p padded) RLock()                                { p.watch(1, 0, 0); p.p.RLock() }
func (p padded) RUnlock()                              { p.watch(-1, 0, 0); p.p.RUnlock() }
func (p padded) Get(k []byte) []byte                   { return p.p.Get(pad(k)) }
func (p padded) GetAtHeight(k []byte, h uint64) []byte { return p.p.GetAtHeight(pad(k), h) }
func (p padded) PrepareForUpdate(k []byte)             { p.watch(0, 1, 0); p.p.PrepareForUpdate(pad(k)) }
func (p padded) PrepareForDeletion(k []byte)           { p.watch(0, 1, 0); p.p.PrepareForDeletion(pad(k)) }
func (p padded) ActiveCount() int                      { return p.p.ActiveCount() }
func (p padded) Update(f func(db types.SetDeleter)) {
	p.watch(0, 0, 1)
	p.p.Update(func(db types.SetDeleter) { f(paddedSD{db}) })
}

type paddedSD struct{ db types.SetDeleter }

func (p paddedSD) Set(k, v []byte) { p.db.Set(pad(k), v) }
func (p paddedSD) Delete(k []byte) { p.db.Delete(pad(k)) }

var _ types.BaseStoreI = padded{}

// rabbitKeys makes keys of all lengths.
func rabbitKeys(r *rand.Rand, n int) (out []string) {
	seen := map[string]bool{}
	for len(out) < n {
		var l int
		switch r.Intn(8) {
		case 0:
			l = r.Intn(3)
		case 1:
			l = 100 + r.Intn(400)
		case 2:
			l = 8
		default:
			l = r.Intn(60)
		}
		b := make([]byte, l)
		r.Read(b)
		if r.Intn(4) == 0 && len(out) > 0 { // a prefix, an extension
			p := out[r.Intn(len(out))]
			if r.Intn(2) == 0 && len(p) > 0 {
				b = []byte(p[:len(p)-1])
			} else {
				b = append([]byte(p), byte(r.Intn(2)))
			}
		}
		if !seen[string(b)] {
			seen[string(b)] = true
			out = append(out, string(b))
		}
	}
	return
}

func init() {
	workers["rabbit"] = func(c *Ctx, cs *Case) {
		r := c.rnd
		history := cs.n("history", 1) == 1
		applyCfg(Cfg{HPFile: 1 << 20, HPBuf: 1 << 13, Reap: 300, RootCache: int(cs.n("limit", 20))})
		dir := filepath.Join(c.dir, "root")
		must(os.MkdirAll(dir, 0755))
		var root *store.RootStore
		open := func() {
			root = store.NewRootStore(openDB(dir, history).m, cacheRules[r.Intn(len(cacheRules))].fn)
		}
		open()
		keys := rabbitKeys(r, int(cs.n("pool", 60)))
		type snap struct {
			h int64
			m map[string]string
		}
		committed := map[string]string{} // key -> value
		var snaps []snap
		h := int64(0)
		serial := 0
		val := func() []byte {
			serial++
			switch r.Intn(8) {
			case 0:
				return []byte{}
			case 1:
				return bytes.Repeat([]byte{byte(serial)}, 1+r.Intn(300))
			}
			return []byte(fmt.Sprintf("v%d", serial))
		}
		kSize := rabbit.KeySize
		check := func(rb *rabbit.RabbitStore, m map[string]string, k string, who string) {
			w, ok := m[k]
			got := rb.Get([]byte(k))
			c.Eval(2)
			if ok && (got == nil || string(got) != w) || !ok && got != nil {
				c.Failf("%s, height %d: key %x gives %q, expected %q (%v)", who, h, k, got, w, ok)
			}
			if has := rb.Has([]byte(k)); has != ok {
				c.Failf("%s, height %d: key %x exists: %v, expected %v", who, h, k, has, ok)
			}
			if r.Intn(4) == 0 {
				p, pok := rb.GetShortKeyPath([]byte(k))
				if pok != ok {
					c.Failf("%s, height %d: key %x has a path: %v, expected %v", who, h, k, pok, ok)
				}
				c.Max(fmt.Sprintf("longest_path_ks%d", kSize), int64(len(p)))
				if ok && len(p) > 1 {
					c.Count("keys_found_behind_others", 1)
				}
				hash := sha256.Sum256([]byte(k))
				for i := range p { // the documented jumps: each step hashes again
					if !bytes.Equal(p[i][1:], hash[1:kSize]) {
						c.Failf("%s: key %x: step %d of its path is %x", who, k, i, p[i])
					}
					hash = sha256.Sum256(hash[:])
				}
				c.Distinct("%d %d %v %d", kSize, len(p), ok, hashStr(k)%997)
			}
		}
		clone := func(m map[string]string) map[string]string {
			n := make(map[string]string, len(m))
			for k, v := range m {
				n[k] = v
			}
			return n
		}
		pickK := func() string {
			if r.Intn(40) == 0 {
				return rabbitKeys(r, 1)[0]
			}
			return keys[r.Intn(len(keys))]
		}
		// one transaction: random changes on rb and m
		bias := 60
		run := func(rb *rabbit.RabbitStore, m map[string]string, n int, who string) {
			for ; n > 0; n-- {
				k := pickK()
				if x := r.Intn(100); x < 35 {
					check(rb, m, k, who)
				} else if r.Intn(100) < bias && len(m) < int(cs.n("maxlive", 55)) {
					v := val()
					kb, vb := []byte(k), append([]byte{}, v...)
					rb.Set(kb, vb)
					for i := range vb {
						vb[i] ^= 0x55
					}
					for i := range kb {
						kb[i] ^= 0x55
					}
					if old, ok := m[k]; ok && old == string(v) {
						c.Count("rewrites", 1)
					}
					m[k] = string(v)
					c.Count("sets", 1)
				} else {
					kb := []byte(k)
					rb.Delete(kb)
					if _, ok := m[k]; ok {
						c.Count("deletes", 1)
					}
					delete(m, k)
				}
				if r.Intn(3) == 0 {
					check(rb, m, k, who)
				}
			}
		}
		full := func(rb *rabbit.RabbitStore, m map[string]string, who string) {
			for _, k := range keys {
				check(rb, m, k, who)
			}
			for k := range m {
				check(rb, m, k, who)
			}
			c.Count("full_compares", 1)
		}
		inTrunk := func(ts types.BaseStoreI, state map[string]string, who string) {
			tx := clone(state)
			rb := rabbit.NewRabbitStore(padded{p: ts})
			run(&rb, tx, 1+r.Intn(int(cs.n("txops", 30))), who)
			if r.Intn(6) == 0 {
				full(&rb, tx, who+", own view")
			}
			apply := func() {
				for k := range state {
					if _, ok := tx[k]; !ok {
						delete(state, k)
					}
				}
				for k, v := range tx {
					state[k] = v
				}
			}
			switch r.Intn(5) {
			case 0, 1:
				rb.CloseAndWriteBack(true)
				apply()
				c.Count("tx_written_back", 1)
			case 2:
				rb.Close()
				rb.Close() // again
				rb.WriteBack()
				apply()
				c.Count("tx_written_back", 1)
			case 3:
				rb.CloseAndWriteBack(false)
				c.Count("tx_discarded", 1)
			case 4:
				rb.Close()
				c.Count("tx_discarded", 1)
			}
		}
		fill := int(cs.n("fill", 0))
		for b := 0; b < int(cs.n("blocks", 80)); b++ {
			bias = 25 + r.Intn(65)
			ts := root.GetTrunkStore(r.Intn(100)).(*store.TrunkStore)
			state := clone(committed)
			if b == 0 && fill > 0 { // many keys at once
				rb := rabbit.NewRabbitStore(padded{p: ts})
				for _, k := range rabbitKeys(r, fill) {
					v := val()
					rb.Set([]byte(k), v)
					state[k] = string(v)
					if len(keys) < 400 {
						keys = append(keys, k)
					}
				}
				rb.CloseAndWriteBack(true)
			}
			for n := r.Intn(6); n >= 0; n-- {
				inTrunk(ts, state, "transaction")
				if r.Intn(3) == 0 {
					w := &viewWatch{}
					rb := rabbit.NewReadOnlyRabbitStore(padded{ts, w})
					tx := clone(state)
					run(&rb, tx, r.Intn(15), "read-only transaction")
					if r.Intn(2) == 0 {
						rb.CloseAndWriteBack(false)
					} else {
						rb.Close()
					}
					w.readOnlyDone(c, &rb, fmt.Sprintf("height %d: a read-only transaction", h))
					c.Count("read_only_tx", 1)
				}
				if r.Intn(3) == 0 {
					rb := rabbit.NewRabbitStore(padded{p: ts})
					full(&rb, state, "trunk")
					rb.Close()
				}
			}
			if r.Intn(5) == 0 { // abandoned block
				ts.Close(false)
				c.Count("blocks_discarded", 1)
			} else {
				h += 1 + int64(r.Intn(2))
				root.SetHeight(h)
				ts.Close(true)
				committed = state
				snaps = append(snaps, snap{h, clone(committed)})
				c.Count("blocks_committed", 1)
			}
			if r.Intn(6) == 0 { // directly on the root store
				h++
				root.SetHeight(h)
				rb := rabbit.NewRabbitStore(padded{p: root})
				tx := clone(committed)
				run(&rb, tx, 10, "transaction on the root store")
				rb.CloseAndWriteBack(true)
				committed = tx
				snaps = append(snaps, snap{h, clone(committed)})
			}
			c.Max("keys_live", int64(len(committed)))
			if r.Intn(4) == 0 || b == int(cs.n("blocks", 80))-1 {
				w := &viewWatch{}
				rb := rabbit.NewReadOnlyRabbitStore(padded{root, w})
				full(&rb, committed, "root store")
				run(&rb, clone(committed), r.Intn(3), "read-only transaction on the root store")
				rb.Close()
				w.readOnlyDone(c, &rb, fmt.Sprintf("height %d: a read-only transaction on the root store", h))
			}
			if history && len(snaps) > 0 {
				for n := 0; n < 2; n++ {
					s := snaps[r.Intn(len(snaps))]
					hh := s.h
					if r.Intn(3) == 0 { // between two blocks
						for i := range snaps {
							if snaps[i].h == s.h {
								if i+1 < len(snaps) {
									hh = snaps[i+1].h - 1
								}
							}
						}
					}
					var base types.BaseStoreI = root
					var t2 *store.TrunkStore
					if r.Intn(2) == 0 {
						t2 = root.GetTrunkStore(1).(*store.TrunkStore)
						// a change in the trunk is not part of the past
						rb := rabbit.NewRabbitStore(padded{p: t2})
						rb.Set([]byte(keys[0]), []byte("only in the trunk"))
						rb.CloseAndWriteBack(true)
						base = t2
					}
					w := &viewWatch{}
					rb := rabbit.NewReadOnlyRabbitStoreAtHeight(padded{base, w}, uint64(hh))
					for q := 0; q < 20; q++ {
						check(&rb, s.m, pickK(), fmt.Sprintf("at height %d", hh))
					}
					tx := clone(s.m)
					run(&rb, tx, 6, fmt.Sprintf("changed view at height %d", hh))
					rb.Close()
					w.readOnlyDone(c, &rb, fmt.Sprintf("a changed view at height %d", hh))
					if t2 != nil {
						t2.Close(false)
					}
					c.Count("views_at_heights", 1)
				}
			}
			if r.Intn(12) == 0 {
				root.Close()
				open()
				c.Count("reopens", 1)
			}
		}
		c.Sample("short keys of %d bytes: %d keys live at height %d", kSize, len(committed), h)
		root.Close()
	}

	register(&Check{ID: "C21",
		Rule:   "A case is one seeded history of transactions on the real stack (rabbit store on trunk or root store on the database; short keys of 8 bytes, or 2 or 1 in builds where they collide): sets, deletes, gets, existence tests and paths of keys of 0 to 500 bytes, compared with a map per transaction, trunk and height; written back, discarded, read-only, at past heights, reopened. Distinct non-trivial: different (short-key size, path length, found, key class) lookups.",
		Assume: []string{"transactions of a trunk are written back one after the other and each starts after the previous one was", "fewer than about half of the short keys are in use (the store gives up after 100 jumps)"},
		Cases: func(tier string, seed int64) (out []Case) {
			n, blocks := int64(8), int64(120)
			if tier == "thorough" {
				n, blocks = 25, 400
			}
			for s := int64(0); s < n; s++ {
				sd := seed*1000 + s
				out = append(out,
					Case{Worker: "rabbit", Name: "collide1", Seed: sd, Variant: "ks1", P: map[string]int64{"pool": 70, "maxlive": 35, "blocks": blocks}},
					Case{Worker: "rabbit", Name: "few1", Seed: sd, Variant: "ks1", P: map[string]int64{"pool": 25, "maxlive": 20, "blocks": blocks, "txops": 12}},
					Case{Worker: "rabbit", Name: "full1", Seed: sd, Variant: "ks1", P: map[string]int64{"pool": 120, "maxlive": 60, "blocks": blocks, "txops": 60}},
					Case{Worker: "rabbit", Name: "normal", Seed: sd, P: map[string]int64{"pool": 300, "maxlive": 300, "blocks": blocks / 2}},
					Case{Worker: "rabbit", Name: "collide2", Seed: sd, Variant: "ks2", P: map[string]int64{"pool": 1500, "maxlive": 1 << 20, "fill": 9000, "blocks": 20, "txops": 150}})
			}
			return
		}, Need: map[string]int64{"tx_written_back": 500, "tx_discarded": 300, "views_at_heights": 200, "longest_path_ks1": 10, "longest_path_ks2": 3, "keys_found_behind_others": 5000, "reopens": 20}})
}
