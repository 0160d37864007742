package main

// C16: the ordered index against a sorted map. C18: the key-value wrapper. C19: meta data.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"sync/atomic"

	"github.com/tecbot/gorocksdb"

	"github.com/smartbch/moeingads/indextree"
	"github.com/smartbch/moeingads/indextree/b"
	"github.com/smartbch/moeingads/metadb"
	"github.com/smartbch/moeingads/types"
)

// ---- C16 ----

// sortedMap is the reference: a map of 64-bit keys and its sorted keys.
type sortedMap struct {
	m map[uint64]int64
	k []uint64
}

func newSortedMap() *sortedMap { return &sortedMap{m: map[uint64]int64{}} }

// at is the index of the first key not less than k.
func (s *sortedMap) at(k uint64) int {
	return sort.Search(len(s.k), func(i int) bool { return s.k[i] >= k })
}

func (s *sortedMap) set(k uint64, v int64) {
	if _, ok := s.m[k]; !ok {
		i := s.at(k)
		s.k = append(s.k, 0)
		copy(s.k[i+1:], s.k[i:])
		s.k[i] = k
	}
	s.m[k] = v
}

func (s *sortedMap) del(k uint64) {
	if _, ok := s.m[k]; ok {
		i := s.at(k)
		s.k = append(s.k[:i], s.k[i+1:]...)
		delete(s.m, k)
	}
}

// keyPool returns keys of the given flavour.
func keyPool(r *rand.Rand, flavour string, n int) (out []uint64) {
	edge := []uint64{0, 1, 2, 3, 0x00FF, 0x0100, 0x7FFF, 0x8000, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF}
	low := func() uint64 {
		switch r.Intn(5) {
		case 0:
			return uint64(r.Intn(8))
		case 1:
			return 1<<48 - 1 - uint64(r.Intn(8))
		case 2:
			return uint64(1) << uint(r.Intn(48))
		default:
			return r.Uint64() & (1<<48 - 1)
		}
	}
	var lows []uint64
	for i := 0; i < 30; i++ {
		lows = append(lows, low())
	}
	for i := 0; i < n; i++ {
		var k uint64
		switch flavour {
		case "dense": // a few prefixes, many keys each, deep trees
			k = edge[r.Intn(4)]<<48 | r.Uint64()&(1<<48-1)
			if r.Intn(3) == 0 {
				k = edge[r.Intn(4)]<<48 | uint64(r.Intn(20000))
			}
		case "sparse": // about one key per prefix
			k = r.Uint64()
		case "edges": // smallest and largest prefixes, equal low bits under all of them
			k = edge[r.Intn(len(edge))]<<48 | lows[r.Intn(len(lows))]
		case "grid":
			k = uint64(r.Intn(300))<<48 | lows[r.Intn(len(lows))]
		case "tiny":
			k = uint64(r.Intn(5))<<uint(48*r.Intn(2)) | uint64(r.Intn(4))
			if r.Intn(3) == 0 {
				k = ^k
			}
		}
		out = append(out, k)
	}
	return
}

func idxVal(r *rand.Rand) int64 {
	switch r.Intn(6) {
	case 0:
		return []int64{0, 1, 255, 256, 1<<47 - 1, 1 << 47, 1<<48 - 1, 1 << 40, 1<<32 - 1}[r.Intn(9)]
	default:
		return r.Int63n(1 << 48)
	}
}

// near returns a key at, beside or far from one of the pool.
func near(r *rand.Rand, pool []uint64) uint64 {
	k := pool[r.Intn(len(pool))]
	switch r.Intn(8) {
	case 0:
		k++
	case 1:
		k--
	case 2:
		k = k &^ (1<<48 - 1)
	case 3:
		k |= 1<<48 - 1
	case 4:
		k = r.Uint64()
	case 5:
		k += 1 << 48
	}
	return k
}

func init() {
	workers["btree"] = func(c *Ctx, cs *Case) {
		r := c.rnd
		for round := 0; round < int(cs.n("rounds", 3)); round++ {
			pool := keyPool(r, cs.S["keys"], int(cs.n("pool", 4000)))
			t := b.TreeNew()
			m := newSortedMap()
			what := func(k uint64) string {
				i := m.at(k)
				return fmt.Sprintf("key %016x (%d keys, position %d)", k, len(m.k), i)
			}
			walk := func(e *b.Enumerator, i int, fwd bool, steps int, desc string) {
				for s := 0; s <= steps; s++ {
					var k uint64
					var v int64
					var err error
					if fwd {
						k, v, err = e.Next()
					} else {
						k, v, err = e.Prev()
					}
					c.Eval(1)
					if i < 0 || i >= len(m.k) {
						if err != io.EOF {
							c.Failf("%s, step %d: expected the end, got %016x (%v)", desc, s, k, err)
						}
						c.Count("ends_reached", 1)
						break
					}
					if err != nil || k != m.k[i] || v != m.m[m.k[i]] {
						c.Failf("%s, step %d: got %016x=%d (%v), expected %016x=%d", desc, s, k, v, err, m.k[i], m.m[m.k[i]])
					}
					if s > 0 {
						prev := i - 1
						if !fwd {
							prev = i + 1
						}
						if m.k[i]>>48 != m.k[prev]>>48 {
							c.Count("prefix_crossings", 1)
						}
					}
					if fwd {
						i++
					} else {
						i--
					}
				}
			}
			for op := 0; op < int(cs.n("ops", 40000)); op++ {
				k := pool[r.Intn(len(pool))]
				switch x := r.Intn(100); {
				case x < 25:
					v := idxVal(r)
					old, ok := t.PutNewAndGetOld(k, v)
					w, wok := m.m[k]
					c.Eval(1)
					if ok != wok || ok && old != w {
						c.Failf("overwriting %s: reports %d (%v), the old value was %d (%v)", what(k), old, ok, w, wok)
					}
					m.set(k, v)
				case x < 40:
					v := idxVal(r)
					t.Set(k, v)
					m.set(k, v)
				case x < 68:
					if r.Intn(3) > 0 && len(m.k) > 0 {
						k = m.k[r.Intn(len(m.k))]
					}
					t.Delete(k)
					m.del(k)
				case x < 84:
					if r.Intn(2) == 0 {
						k = near(r, pool)
					}
					v, ok := t.Get(k)
					w, wok := m.m[k]
					c.Eval(1)
					if ok != wok || ok && v != w {
						c.Failf("looking up %s: got %d (%v), expected %d (%v)", what(k), v, ok, w, wok)
					}
					if n := t.Len(); n != len(m.k) {
						c.Failf("%d keys are counted, there are %d", n, len(m.k))
					}
				case x < 98:
					k = near(r, pool)
					i := m.at(k)
					_, has := m.m[k]
					e, eq := t.Seek(k)
					if eq != has {
						c.Failf("seeking %s says found=%v, expected %v", what(k), eq, has)
					}
					fwd := r.Intn(2) == 0
					if !fwd && !has {
						i--
					}
					steps := r.Intn(12)
					if r.Intn(50) == 0 {
						steps = 1 << 30
					}
					walk(e, i, fwd, steps, fmt.Sprintf("seeking %s, forward=%v", what(k), fwd))
					e.Close()
					c.Distinct("seek %s %v %v n%d crossing%v", cs.S["keys"], has, fwd, len(m.k)/50, i > 0 && i < len(m.k) && m.k[i]>>48 != m.k[i-1]>>48)
				case x < 99:
					e, err := t.SeekFirst()
					if (err == io.EOF) != (len(m.k) == 0) {
						c.Failf("seeking the first of %d keys: %v", len(m.k), err)
					}
					if err == nil {
						walk(e, 0, true, r.Intn(200), "from the first key")
					}
					e.Close()
				default: // remove everything, or all keys of a prefix
					all := r.Intn(4) == 0
					for _, q := range append([]uint64{}, m.k...) {
						if all || q>>48 == k>>48 {
							t.Delete(q)
							m.del(q)
						}
					}
					c.Count("mass_deletions", 1)
				}
				c.Max("max_keys", int64(len(m.k)))
			}
			c.Sample("%s: %d keys under %d operations", cs.S["keys"], len(m.k), cs.n("ops", 40000))
			t.Close()
		}
	}

	workers["nvtree"] = func(c *Ctx, cs *Case) {
		r := c.rnd
		pool := keyPool(r, cs.S["keys"], int(cs.n("pool", 600)))
		dir := filepath.Join(c.dir, "kv")
		must(os.MkdirAll(dir, 0755))
		kv := openKV(dir, r.Intn(2) == 0)
		t := indextree.NewNVTreeMem(kv)
		m := newSortedMap()
		type ver struct {
			h  int64
			v  int64
			ok bool
		}
		vers := map[uint64][]ver{}
		h := r.Int63n(3)
		bz := func(k uint64) []byte { return binary.BigEndian.AppendUint64(nil, k) }
		checkAll := func(t *indextree.NVTreeMem, who string) {
			if t.ActiveCount() != len(m.k) {
				c.Failf("%s counts %d keys, there are %d", who, t.ActiveCount(), len(m.k))
			}
			for _, k := range pool {
				v, ok := t.Get(bz(k))
				w, wok := m.m[k]
				if ok != wok || ok && v != w {
					c.Failf("%s, height %d: key %016x is at %d (%v), expected %d (%v)", who, h, k, v, ok, w, wok)
				}
			}
			c.Eval(int64(len(pool)))
		}
		ranges := func(t *indextree.NVTreeMem, n int, who string) {
			for i := 0; i < n; i++ {
				lo, hi := near(r, pool), near(r, pool)
				switch r.Intn(6) {
				case 0:
					lo = 0
				case 1:
					hi = ^uint64(0)
				case 2:
					hi = lo + uint64(r.Intn(3))
				case 3:
					if lo > hi {
						lo, hi = hi, lo
					}
				}
				fwd := r.Intn(2) == 0
				var it indextree.Iterator
				if fwd {
					it = t.Iterator(bz(lo), bz(hi))
				} else {
					it = t.ReverseIterator(bz(lo), bz(hi))
				}
				a, z := m.at(lo), m.at(hi)
				if lo >= hi {
					a, z = 0, 0
				}
				if s, e := it.Domain(); !bytes.Equal(s, bz(lo)) || !bytes.Equal(e, bz(hi)) {
					c.Failf("%s: iterator over [%016x,%016x) says its domain is [%x,%x)", who, lo, hi, s, e)
				}
				for j := 0; j < z-a; j++ {
					w := m.k[a+j]
					if !fwd {
						w = m.k[z-1-j]
					}
					if !it.Valid() || !bytes.Equal(it.Key(), bz(w)) || it.Value() != m.m[w] {
						c.Failf("%s: iterating [%016x,%016x) forward=%v, item %d of %d: got %x=%d (valid %v), expected %016x=%d", who, lo, hi, fwd, j, z-a, it.Key(), it.Value(), it.Valid(), w, m.m[w])
					}
					it.Next()
				}
				for j := 0; j < 3; j++ {
					if it.Valid() {
						c.Failf("%s: iterating [%016x,%016x) forward=%v does not end after %d items: %x", who, lo, hi, fwd, z-a, it.Key())
					}
					it.Next()
				}
				it.Close()
				c.Eval(int64(z - a + 1))
				c.Distinct("range %v %d", fwd, z-a)
				c.Count("ranges", 1)
				if z > a && m.k[a]>>48 != m.k[z-1]>>48 {
					c.Count("prefix_crossings", 1)
				}
			}
		}
		past := func(t *indextree.NVTreeMem, n int, who string) {
			for i := 0; i < n; i++ {
				k := pool[r.Intn(len(pool))]
				if r.Intn(6) == 0 {
					k = near(r, pool)
				}
				at := r.Int63n(h + 3)
				vs := vers[k]
				if len(vs) > 0 && r.Intn(2) == 0 {
					at = vs[r.Intn(len(vs))].h + int64(r.Intn(3)) - 1
					if at < 0 {
						at = 0
					}
				}
				var w ver
				for _, v := range vs {
					if v.h <= at {
						w = v
					}
				}
				q := uint64(at)
				if r.Intn(12) == 0 && h > 0 { // a height that is not reached yet: the newest version
					q = []uint64{uint64(h) + 1, 1<<63 - 1, 1 << 63, ^uint64(0) - 1, ^uint64(0)}[r.Intn(5)]
					w, at = ver{}, h
					if len(vs) > 0 {
						w = vs[len(vs)-1]
					}
				}
				v, ok := t.GetAtHeight(bz(k), q)
				c.Eval(1)
				c.Count("versioned_lookups", 1)
				if ok != w.ok || ok && v != w.v {
					c.Failf("%s: key %016x at height %d (now %d) is at %d (%v), expected %d (%v), written at height %d", who, k, q, h, v, ok, w.v, w.ok, w.h)
				}
			}
		}
		blocks := int(cs.n("blocks", 60))
		for blk := 0; blk < blocks; blk++ {
			h += 1 + int64(r.Intn(2)*r.Intn(300))
			kv.OpenNewBatch()
			t.BeginWrite(h)
			touched := map[uint64]bool{}
			type job struct {
				k   uint64
				v   int64
				del bool
			}
			jobs := map[uint64][]job{} // by prefix
			n := r.Intn(int(cs.n("perblock", 200)))
			if r.Intn(12) == 0 {
				n = len(pool)
			}
			wipe := r.Intn(10) == 0
			for i := 0; i < n; i++ {
				k := pool[r.Intn(len(pool))]
				if touched[k] {
					continue
				}
				_, has := m.m[k]
				if has && (wipe || r.Intn(3) == 0) {
					jobs[k>>48] = append(jobs[k>>48], job{k, 0, true})
					m.del(k)
					vers[k] = append(vers[k], ver{h, 0, false})
				} else if !wipe {
					v := idxVal(r)
					jobs[k>>48] = append(jobs[k>>48], job{k, v, false})
					m.set(k, v)
					vers[k] = append(vers[k], ver{h, v, true})
				} else {
					continue
				}
				touched[k] = true
			}
			var wg sync.WaitGroup
			for _, js := range jobs { // different prefixes in parallel, as the database does
				wg.Add(1)
				go func(js []job) {
					defer wg.Done()
					for _, j := range js {
						if j.del {
							t.Delete(bz(j.k))
						} else {
							t.Set(bz(j.k), j.v)
						}
					}
				}(js)
			}
			wg.Wait()
			if r.Intn(3) == 0 { // other kinds of records live in the same database
				kv.CurrBatch().Set(append([]byte{byte(1 + r.Intn(255))}, bz(r.Uint64())[:r.Intn(9)]...), bz(1))
			}
			t.EndWrite()
			kv.CloseOldBatch()
			c.Count("blocks", 1)
			c.Count("written", int64(len(touched)))
			if blk%3 == 0 {
				checkAll(t, "the index")
			}
			ranges(t, 12, "the index")
			past(t, 40, "the index")
			if r.Intn(10) == 0 {
				if r.Intn(2) == 0 { // the database is closed and opened, too
					t.Close()
					kv.Close()
					kv = openKV(dir, r.Intn(2) == 0)
				} else {
					t.Close()
				}
				t = indextree.NewNVTreeMem(kv)
				var rep func([]byte)
				if r.Intn(2) == 0 {
					rep = func([]byte) {}
				}
				must(t.Init(rep))
				c.Count("rebuilds", 1)
				checkAll(t, "the rebuilt index")
				ranges(t, 30, "the rebuilt index")
				past(t, 60, "the rebuilt index")
				if r.Intn(2) == 0 { // positions set during recovery leave no record
					t.BeginWrite(h)
					t.SetDuringInit(true)
					for i := 0; i < 20; i++ {
						k := pool[r.Intn(len(pool))]
						if v, ok := m.m[k]; ok {
							t.Set(bz(k), v)
						}
					}
					t.SetDuringInit(false)
					t.EndWrite()
				}
			}
		}
		c.Sample("%s: %d live keys, %d keys with versions, height %d", cs.S["keys"], len(m.k), len(vers), h)
		t.Close()
		kv.Close()
	}

	register(&Check{ID: "C16", Assume: []string{"keys are 8 bytes, values lie in 0..2^48-1", "one writer per 16-bit prefix, no reads during a write phase"},
		Rule: "A case is one seeded operation sequence on the native B-tree or on the index tree over a disk database, compared step by step with a sorted map and a list of versions per key; walks, ranges and lookups start at, beside and far from stored keys. Distinct non-trivial: different (flavour, hit, direction, size, prefix crossing) seeks and (direction, length) ranges.",
		Cases: func(tier string, seed int64) (out []Case) {
			n, m := int64(8), int64(1)
			if tier == "thorough" {
				n, m = 12, 6
			}
			for s := int64(0); s < n; s++ {
				for _, k := range []string{"dense", "sparse", "edges", "grid", "tiny"} {
					pool := int64(4000)
					if k == "dense" {
						pool = 9000
					}
					out = append(out, Case{Worker: "btree", Name: k, Seed: seed*1000 + s, P: map[string]int64{"rounds": 2 * m, "pool": pool, "ops": 60000}, S: map[string]string{"keys": k}})
					out = append(out, Case{Worker: "nvtree", Name: k, Seed: seed*1000 + s, P: map[string]int64{"blocks": 80 * m}, S: map[string]string{"keys": k}})
				}
			}
			return
		}, Need: map[string]int64{"prefix_crossings": 1000, "ends_reached": 1000, "versioned_lookups": 5000, "rebuilds": 20, "mass_deletions": 50}})
}

// openKV opens a key-value database; small ones flush and compact often.
func openKV(dir string, small bool) *indextree.RocksDB {
	var kv indextree.IKVDB
	var err error
	if small {
		opts := gorocksdb.NewDefaultOptions()
		opts.SetCreateIfMissing(true)
		opts.SetWriteBufferSize(64 << 10)
		opts.SetLevel0FileNumCompactionTrigger(2)
		opts.SetTargetFileSizeBase(64 << 10)
		opts.SetMaxBytesForLevelBase(256 << 10)
		kv, err = indextree.NewRocksDBWithOptions("kv", dir, opts)
	} else {
		kv, err = indextree.NewRocksDB("kv", dir)
	}
	must(err)
	return kv.(*indextree.RocksDB)
}

// ---- C18 ----

type kvModel struct {
	m     map[string]string
	prune uint64 // index records older than it may be gone
	on    bool
}

// old: an index record that the filter may remove.
func (k *kvModel) old(key string) bool {
	return k.on && len(key) == 17 && key[0] == 0 && binary.BigEndian.Uint64([]byte(key[9:])) < k.prune
}

func (k *kvModel) sorted() (out []string) {
	for s := range k.m {
		out = append(out, s)
	}
	sort.Strings(out)
	return
}

func init() {
	workers["kvdb"] = func(c *Ctx, cs *Case) {
		r := c.rnd
		dir := filepath.Join(c.dir, "kv")
		must(os.MkdirAll(dir, 0755))
		small := cs.n("small", 1) == 1
		kv := openKV(dir, small)
		m := &kvModel{m: map[string]string{}}
		maxH := uint64(1)
		genKey := func() string {
			switch r.Intn(7) {
			case 0, 1, 2: // an index record
				var k [17]byte
				k[1] = byte(r.Intn(3))
				k[8] = byte(r.Intn(4))
				binary.BigEndian.PutUint64(k[9:], uint64(r.Int63n(int64(maxH)+3)))
				return string(k[:])
			case 3: // meta data
				b := []byte{byte(0x10 + r.Intn(11)), byte(r.Intn(8))}
				return string(b[:1+r.Intn(2)])
			case 4: // twig heights
				var k [10]byte
				k[0], k[1] = 0x13, byte(r.Intn(8))
				binary.LittleEndian.PutUint64(k[2:], uint64(r.Intn(40)))
				return string(k[:])
			case 5: // short ones starting with zero
				b := make([]byte, 1+r.Intn(7))
				if len(b) > 1 {
					b[len(b)-1] = byte(r.Intn(4))
				}
				return string(b)
			default:
				b := make([]byte, 1+r.Intn(20))
				r.Read(b)
				if b[0] == 0 {
					b[0] = 0xFF
				}
				return string(b)
			}
		}
		genVal := func() string {
			b := make([]byte, r.Intn(30)*r.Intn(30))
			r.Read(b)
			return string(b)
		}
		anyKey := func(keys []string) string {
			if len(keys) > 0 && r.Intn(3) > 0 {
				return keys[r.Intn(len(keys))]
			}
			return genKey()
		}
		// present: does reading agree with the model?
		checkGet := func(k string) {
			g := kv.Get([]byte(k))
			w, ok := m.m[k]
			c.Eval(1)
			if g == nil && ok && m.old(k) {
				delete(m.m, k)
				c.Count("removed_by_filter", 1)
				return
			}
			if (g != nil) != ok || ok && string(g) != w {
				c.Failf("key %x reads %x (present %v), expected %x (present %v)", k, g, g != nil, w, ok)
			}
			if kv.Has([]byte(k)) != ok && !m.old(k) {
				c.Failf("key %x: existence is wrong", k)
			}
		}
		checkRange := func() {
			keys := m.sorted()
			var lo, hi []byte
			if r.Intn(4) > 0 {
				lo = []byte(anyKey(keys))
				if r.Intn(3) == 0 {
					lo = append(lo, 0)
				}
			}
			if r.Intn(4) > 0 {
				hi = []byte(anyKey(keys))
				if r.Intn(3) == 0 {
					hi = append(hi, 0)
				}
			}
			if r.Intn(12) == 0 {
				lo = []byte{}
			}
			if r.Intn(12) == 0 {
				hi = []byte{}
			}
			fwd := r.Intn(2) == 0
			var want []string
			for _, k := range keys {
				if (lo == nil || k >= string(lo)) && (hi == nil || k < string(hi)) {
					want = append(want, k)
				}
			}
			var it types.Iterator
			if fwd {
				it = kv.Iterator(lo, hi)
			} else {
				it = kv.ReverseIterator(lo, hi)
				for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
					want[i], want[j] = want[j], want[i]
				}
			}
			defer it.Close()
			if s, e := it.Domain(); !bytes.Equal(s, lo) || !bytes.Equal(e, hi) || (s == nil) != (lo == nil) || (e == nil) != (hi == nil) {
				c.Failf("the iterator over [%x,%x) says its domain is [%x,%x)", lo, hi, s, e)
			}
			i := 0
			stop := len(want) + 1
			if r.Intn(3) == 0 {
				stop = r.Intn(len(want) + 1)
			}
			for it.Valid() && stop > 0 {
				stop--
				k, v := string(it.Key()), string(it.Value())
				for i < len(want) && want[i] != k && m.old(want[i]) {
					c.Count("removed_by_filter", 1)
					delete(m.m, want[i])
					i++
				}
				if i >= len(want) || want[i] != k || m.m[k] != v {
					c.Failf("iterating [%x,%x) forward=%v: item %d is %x=%x, expected %v", lo, hi, fwd, i, k, v, fmt.Sprintf("%x", want[min64(i, len(want)):min64(i+1, len(want))]))
				}
				i++
				c.Eval(1)
				it.Next()
			}
			if stop > 0 {
				for ; i < len(want); i++ {
					if !m.old(want[i]) {
						c.Failf("iterating [%x,%x) forward=%v ends before %x (item %d of %d)", lo, hi, fwd, want[i], i, len(want))
					}
					delete(m.m, want[i])
				}
				for j := 0; j < 3; j++ { // once invalid, always invalid
					if it.Valid() {
						c.Failf("an iterator over [%x,%x) is valid again after its end", lo, hi)
					}
					if p, _ := panics(func() { it.Next() }); p == nil && it.Valid() {
						c.Failf("an iterator over [%x,%x) is valid again after its end", lo, hi)
					}
					if p, _ := panics(func() { it.Key() }); p == nil {
						c.Failf("an iterator over [%x,%x) gives a key after its end", lo, hi)
					}
				}
			}
			c.Eval(1)
			c.Distinct("range %v lo%v hi%v n%d", fwd, lo == nil, hi == nil, len(want))
			c.Count("ranges", 1)
		}
		fullCheck := func() {
			for _, k := range m.sorted() {
				checkGet(k)
			}
		}
		for step := 0; step < int(cs.n("steps", 3000)); step++ {
			switch x := r.Intn(100); {
			case x < 12:
				k, v := genKey(), genVal()
				if r.Intn(2) == 0 {
					kv.Set([]byte(k), []byte(v))
				} else {
					kv.SetSync([]byte(k), []byte(v))
				}
				m.m[k] = v
			case x < 18:
				k := anyKey(m.sorted())
				if r.Intn(2) == 0 {
					kv.Delete([]byte(k))
				} else {
					kv.DeleteSync([]byte(k))
				}
				delete(m.m, k)
			case x < 45: // a batch: written, or dropped
				open := r.Intn(2) == 0 // through the shared batch
				var bt types.Batch
				if open {
					kv.OpenNewBatch()
					bt = kv.CurrBatch()
				} else {
					bt = kv.NewBatch()
				}
				next := map[string]*string{}
				keys := m.sorted()
				n := r.Intn(30)
				big := cs.n("big", 0)
				if big > 0 && r.Intn(3) == 0 { // as large as a block with many changes
					n = r.Intn(int(big))
					c.Max("largest_batch", int64(n))
				}
				for i := 0; i < n; i++ {
					k := anyKey(keys)
					if n > 100 && r.Intn(200) > 0 { // far away from the others
						var b [11]byte
						b[0], b[1] = 0x60, byte(r.Intn(3))
						binary.BigEndian.PutUint64(b[2:], uint64(r.Intn(2*n)))
						k = string(b[:])
					}
					if i > 0 && r.Intn(4) == 0 { // a key again
						for q := range next {
							k = q
							break
						}
					}
					if r.Intn(3) == 0 {
						bt.Delete([]byte(k))
						next[k] = nil
					} else {
						v := genVal()
						bt.Set([]byte(k), []byte(v))
						next[k] = &v
					}
				}
				seen := 0
				for k := range next { // nothing is visible yet
					checkGet(k)
					if seen++; seen > 3000 {
						break
					}
				}
				write := open || r.Intn(4) > 0
				if open {
					kv.CloseOldBatch()
					kv.CloseOldBatch() // nothing to do
				} else if write {
					if r.Intn(2) == 0 {
						bt.Write()
					} else {
						bt.WriteSync()
					}
					if p, _ := panics(func() { bt.Write() }); p == nil {
						c.Failf("a written batch can be written again")
					}
					bt.Close()
				} else {
					bt.Close()
					c.Count("batches_dropped", 1)
				}
				if write {
					for k, v := range next {
						if v == nil {
							delete(m.m, k)
						} else {
							m.m[k] = *v
						}
					}
					c.Count("batches_written", 1)
				}
				for k := range next {
					checkGet(k)
				}
				if n > 1000 { // keep the model small
					lo, hi := []byte{0x60}, []byte{0x61}
					it := kv.Iterator(lo, hi)
					cnt, want := 0, 0
					for it.Valid() {
						cnt++
						it.Next()
					}
					it.Close()
					kv.OpenNewBatch()
					for k := range m.m {
						if k[0] == 0x60 && len(k) == 11 {
							want++
							kv.CurrBatch().Delete([]byte(k))
						}
					}
					for k := range m.m {
						if k[0] == 0x60 && len(k) != 11 {
							want++
						}
					}
					if cnt != want {
						c.Failf("after a batch of %d operations %d keys are there, expected %d", n, cnt, want)
					}
					kv.CloseOldBatch()
					for k := range m.m {
						if k[0] == 0x60 && len(k) == 11 {
							delete(m.m, k)
						}
					}
				}
				maxH += uint64(r.Intn(4))
			case x < 70:
				checkRange()
			case x < 90:
				checkGet(anyKey(m.sorted()))
			case x < 93 && cs.n("prune", 1) == 1:
				h := uint64(r.Int63n(int64(maxH) + 1))
				if r.Intn(3) == 0 && h > 30 { // lower than before: no effect
					h -= 30
				}
				kv.SetPruneHeight(h)
				if h > m.prune {
					m.prune = h
				}
				m.on = true
				if g, ok := kv.GetPruneHeight(); !ok || g != m.prune {
					c.Failf("pruned to %d, the database says %d (%v)", m.prune, g, ok)
				}
				c.Count("prunes", 1)
			case x < 95:
				kv.DB().CompactRange(gorocksdb.Range{})
				c.Count("compactions", 1)
				fullCheck()
			case x < 96:
				kv.Close()
				kv = openKV(dir, small)
				if _, ok := kv.GetPruneHeight(); ok {
					c.Failf("a freshly opened database has a pruned height")
				}
				c.Count("reopens", 1)
				fullCheck() // the filter may have removed records in the background until it was closed
				m.on, m.prune = false, 0
			}
		}
		fullCheck()
		c.Sample("%d keys at the end, highest record height %d, pruned to %d", len(m.m), maxH, m.prune)
		kv.Close()
	}

	// batches take effect at once: readers see all of a batch's keys at one stamp
	workers["kvatomic"] = func(c *Ctx, cs *Case) {
		r := c.rnd
		dir := filepath.Join(c.dir, "kv")
		must(os.MkdirAll(dir, 0755))
		kv := openKV(dir, true)
		nk := 40
		key := func(i int) []byte { return []byte{0x20, byte(i)} }
		put := func(stamp int) {
			kv.OpenNewBatch()
			var wg sync.WaitGroup
			for w := 0; w < 4; w++ { // filled by several goroutines under the batch lock
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					for i := w; i < nk; i += 4 {
						kv.LockBatch()
						if (stamp+i/10)%7 == 3 && i%10 != 0 {
							kv.CurrBatch().Delete(key(i))
						} else {
							kv.CurrBatch().Set(key(i), binary.LittleEndian.AppendUint64(make([]byte, 200), uint64(stamp)))
						}
						kv.UnlockBatch()
					}
				}(w)
			}
			wg.Wait()
			kv.CloseOldBatch()
		}
		put(0)
		var last int64
		stop := make(chan bool)
		var wg sync.WaitGroup
		var bad atomic.Value
		for w := 0; w < 4; w++ {
			wg.Add(1)
			go func(rev bool) {
				defer wg.Done()
				prev := int64(-1)
				for {
					select {
					case <-stop:
						return
					default:
					}
					low := atomic.LoadInt64(&last)
					var it types.Iterator
					if rev {
						it = kv.ReverseIterator([]byte{0x20}, []byte{0x21})
					} else {
						it = kv.Iterator([]byte{0x20}, []byte{0x21})
					}
					stamp, n := int64(-1), 0
					for ; it.Valid(); it.Next() {
						v := it.Value()
						s := int64(binary.LittleEndian.Uint64(v[200:]))
						if stamp >= 0 && s != stamp {
							bad.Store(fmt.Sprintf("one iteration saw batches %d and %d", stamp, s))
							break
						}
						stamp = s
						n++
					}
					it.Close()
					w := 0
					for i := 0; i < nk; i++ {
						if !((int(stamp)+i/10)%7 == 3 && i%10 != 0) {
							w++
						}
					}
					if bad.Load() == nil && n != w {
						bad.Store(fmt.Sprintf("an iteration saw %d of the %d keys of batch %d", n, w, stamp))
					}
					if bad.Load() == nil && (stamp < low || stamp < prev) {
						bad.Store(fmt.Sprintf("an iteration saw batch %d after batch %d was written", stamp, low))
					}
					prev = stamp
					c.Eval(1)
					c.Count("iterations", 1)
					c.Distinct("stamp %d", stamp)
					if bad.Load() != nil {
						return
					}
				}
			}(w%2 == 0)
		}
		for s := 1; s <= int(cs.n("batches", 800)) && bad.Load() == nil; s++ {
			put(s)
			atomic.StoreInt64(&last, int64(s))
			if r.Intn(40) == 0 {
				kv.DB().CompactRange(gorocksdb.Range{})
			}
		}
		close(stop)
		wg.Wait()
		if b := bad.Load(); b != nil {
			c.Failf("%s", b)
		}
		c.Sample("%d batches of %d keys", cs.n("batches", 800), nk)
		kv.Close()
	}

	register(&Check{ID: "C18", Assume: []string{"RocksDB itself is trusted", "index records are the 17-byte keys starting with zero"},
		Rule: "A case is one seeded sequence of writes, batches (written or dropped, keys repeated, through the shared batch too), range iterations in both directions with open, empty and exact bounds, prune heights, database compactions and reopens, compared with a map; another runs iterating readers against batches. Distinct non-trivial: different (direction, open bounds, length) ranges and different batches seen by readers.",
		Cases: func(tier string, seed int64) (out []Case) {
			n, m := int64(3), int64(1)
			if tier == "thorough" {
				n, m = 12, 5
			}
			for s := int64(0); s < n; s++ {
				out = append(out,
					Case{Worker: "kvdb", Name: "small", Seed: seed*1000 + s, P: map[string]int64{"steps": 5000 * m}},
					Case{Worker: "kvdb", Name: "asbuilt", Seed: seed*1000 + s, P: map[string]int64{"small": 0, "steps": 3000 * m}},
					Case{Worker: "kvdb", Name: "noprune", Seed: seed*1000 + s, P: map[string]int64{"prune": 0, "steps": 4000 * m}},
					Case{Worker: "kvdb", Name: "big", Seed: seed*1000 + s, P: map[string]int64{"small": s % 2, "steps": 150 * m, "big": 200000}},
					Case{Worker: "kvatomic", Name: "readers", Seed: seed*1000 + s, P: map[string]int64{"batches": 600 * m}, Slots: 3})
			}
			return
		}, Need: map[string]int64{"ranges": 5000, "batches_written": 2000, "batches_dropped": 200, "compactions": 50, "removed_by_filter": 100, "reopens": 20, "iterations": 500}})
}

// ---- C19 ----

type metaModel struct {
	Height    int64
	MtSize    [shardCount]int64
	EntSize   [shardCount]int64
	TwigH     [shardCount]map[int64]int64
	LastPrune [shardCount]int64
	Edge      [shardCount]string
	MaxSN     [shardCount]int64
	Oldest    [shardCount]int64
	Root      [shardCount]h32
	PruneH    uint64
	Pruned    bool
}

func (m *metaModel) clone() *metaModel {
	n := *m
	for i := range n.TwigH {
		n.TwigH[i] = map[int64]int64{}
		for k, v := range m.TwigH[i] {
			n.TwigH[i][k] = v
		}
	}
	return &n
}

func init() {
	workers["metadb"] = func(c *Ctx, cs *Case) {
		r := c.rnd
		dir := filepath.Join(c.dir, "kv")
		must(os.MkdirAll(dir, 0755))
		kv := openKV(dir, r.Intn(2) == 0)
		db := metadb.NewMetaDB(kv)
		kv.OpenNewBatch()
		db.Init()
		kv.CloseOldBatch()
		m := &metaModel{}
		for i := range m.TwigH {
			m.TwigH[i] = map[int64]int64{}
			m.LastPrune[i] = -1
		}
		committed := m.clone()
		// mem: what is kept in memory is visible before the commit; the rest is read from disk
		check := func(mem, disk *metaModel, when string) {
			eq := func(what string, i int, g, w interface{}) {
				c.Eval(1)
				if g != w {
					c.Failf("%s: %s of shard %d is %v, set to %v", when, what, i, g, w)
				}
			}
			eq("current height", -1, db.GetCurrHeight(), mem.Height)
			h, ok := db.GetPruneHeight()
			eq("pruned height set", -1, ok, disk.Pruned)
			eq("pruned height", -1, h, disk.PruneH)
			for i := 0; i < shardCount; i++ {
				eq("last pruned group", i, db.GetLastPrunedTwig(i), mem.LastPrune[i])
				eq("next serial number", i, db.GetMaxSerialNum(i), mem.MaxSN[i])
				eq("youngest group", i, db.GetYoungestTwigID(i), mem.MaxSN[i]>>11)
				eq("oldest active group", i, db.GetOldestActiveTwigID(i), mem.Oldest[i])
				eq("root hash", i, db.GetRootHash(i), [32]byte(mem.Root[i]))
				eq("entry file size", i, db.GetEntryFileSize(i), disk.EntSize[i])
				eq("leaf group file size", i, db.GetTwigMtFileSize(i), disk.MtSize[i])
				eq("edge nodes", i, string(db.GetEdgeNodes(i)), disk.Edge[i])
				tw := func(t int64) {
					w, ok := disk.TwigH[i][t]
					if !ok {
						w = -1
					}
					if g := db.GetTwigHeight(i, t); g != w {
						eq(fmt.Sprintf("height of group %d", t), i, g, w)
					}
					c.Eval(1)
				}
				if top := mem.MaxSN[i]>>11 + 2; top < 1000 {
					for t := int64(0); t <= top; t++ {
						tw(t)
					}
				}
				n := 0
				for t := range disk.TwigH[i] { // in random order
					tw(t)
					if n++; n > 300 {
						break
					}
				}
				for k := uint(0); k < 20; k++ {
					for d := int64(-1); d <= 1; d++ {
						tw(1<<k + d)
					}
				}
			}
			c.Count("full_comparisons", 1)
		}
		big := []int64{0, 1, 255, 256, 1 << 20, 1<<31 - 1, 1 << 31, 1 << 32, 1<<47 + 12345, 1<<63 - 1}
		num := func() int64 {
			if r.Intn(2) == 0 {
				return big[r.Intn(len(big))]
			}
			return r.Int63()
		}
		for blk := 0; blk < int(cs.n("blocks", 150)); blk++ {
			kv.OpenNewBatch()
			n := r.Intn(40)
			for i := 0; i < n; i++ {
				s := r.Intn(shardCount)
				switch r.Intn(11 + int(cs.n("far", 0))) {
				case 11: // very many groups
					if m.Oldest[s] < 300000 {
						for j := r.Intn(60000); j >= 0; j-- {
							m.Oldest[s]++
							db.IncrOldestActiveTwigID(s)
							m.TwigH[s][m.Oldest[s]] = m.Height
						}
					}
				case 0:
					m.Height = num()
					db.SetCurrHeight(m.Height)
				case 1:
					m.MtSize[s] = num()
					db.SetTwigMtFileSize(s, m.MtSize[s])
				case 2:
					m.EntSize[s] = num()
					db.SetEntryFileSize(s, m.EntSize[s])
				case 3, 4: // many serial numbers, often across a boundary
					k := r.Intn(300)
					switch r.Intn(4) {
					case 0:
						k = 2048 - int(m.MaxSN[s]&2047) + r.Intn(3) - 1
					case 1:
						k = 2048 * r.Intn(4)
					}
					var wg sync.WaitGroup
					second := (s + 1) % shardCount // shards advance in parallel
					for _, q := range []int{s, second} {
						wg.Add(1)
						go func(q int) {
							defer wg.Done()
							for j := 0; j < k; j++ {
								db.IncrMaxSerialNum(q)
							}
						}(q)
						for j := 0; j < k; j++ {
							m.MaxSN[q]++
							if m.MaxSN[q]&2047 == 0 {
								m.TwigH[q][m.MaxSN[q]>>11] = m.Height
							}
						}
					}
					wg.Wait()
				case 5:
					m.LastPrune[s] = num()
					db.SetLastPrunedTwig(s, m.LastPrune[s])
				case 6:
					b := make([]byte, 40*r.Intn(12))
					r.Read(b)
					m.Edge[s] = string(b)
					db.SetEdgeNodes(s, b)
				case 7:
					m.Oldest[s]++
					db.IncrOldestActiveTwigID(s)
					m.TwigH[s][m.Oldest[s]] = m.Height // the height from which the older groups are not needed
				case 8:
					r.Read(m.Root[s][:])
					db.SetRootHash(s, m.Root[s])
				case 9:
					m.PruneH, m.Pruned = uint64(num()), true
					db.SetPruneHeight(m.PruneH)
				case 10:
					if y := m.MaxSN[s] >> 11; y > 0 {
						t := r.Int63n(y + 1)
						db.DeleteTwigHeight(s, t)
						delete(m.TwigH[s], t)
					}
				}
			}
			c.Count("updates", int64(n))
			if r.Intn(4) == 0 { // dropped: a new object over the database sees the last commit
				check(m, committed, "before a commit")
				kv.CurrBatch().Close()
				kv.OpenNewBatch()
				db = metadb.NewMetaDB(kv)
				db.ReloadFromKVDB()
				m = committed.clone()
				check(m, m, "after dropping updates and reloading")
				kv.CloseOldBatch()
				c.Count("drops", 1)
				continue
			}
			db.Commit()
			kv.CloseOldBatch()
			committed = m.clone()
			check(m, m, "after a commit")
			switch r.Intn(4) {
			case 0:
				db.ReloadFromKVDB()
				check(m, m, "after a reload")
				c.Count("reloads", 1)
			case 1:
				kv.Close()
				kv = openKV(dir, r.Intn(2) == 0)
				db = metadb.NewMetaDB(kv)
				db.ReloadFromKVDB()
				check(m, m, "after reopening")
				c.Count("reopens", 1)
			}
			c.Distinct("%v %v %v", m.Height, m.MaxSN, m.Root[0][:4])
		}
		for i := range m.Oldest {
			if m.Oldest[i] > 65536 {
				c.Count("groups_numbered_above_65536", m.Oldest[i]-65536)
			}
		}
		c.Sample("height %d, serial numbers %v, pruned %d", m.Height, m.MaxSN, m.PruneH)
		kv.Close()
	}
	register(&Check{ID: "C19", Assume: []string{"what the interface reads from disk is visible once the batch is written"},
		Rule: "A case is one seeded sequence of setters, increments across group boundaries (two shards in parallel), deletions, commits, dropped batches, reloads and reopens of the meta data; after each, every item of every shard is compared with a plain record. Distinct non-trivial: different committed records.",
		Cases: func(tier string, seed int64) (out []Case) {
			n, blocks := int64(8), int64(150)
			if tier == "thorough" {
				n, blocks = 32, 600
			}
			for s := int64(0); s < n; s++ {
				out = append(out, Case{Worker: "metadb", Name: "random", Seed: seed*1000 + s, P: map[string]int64{"blocks": blocks}})
			}
			for s := int64(0); s < n/4; s++ {
				out = append(out, Case{Worker: "metadb", Name: "far", Seed: seed*1000 + 500 + s, P: map[string]int64{"blocks": 25, "far": 1}})
			}
			return
		}, Need: map[string]int64{"full_comparisons": 500, "reopens": 100, "drops": 100, "groups_numbered_above_65536": 1}})
}
