package main

// C27: what a database holds on to. Descriptors, goroutines, native and Go memory are read
// at corresponding points of long runs whose state does not grow.

/*
#include <malloc.h>
#include <stddef.h>
static size_t vh_native(void) { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
*/
import "C"

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/smartbch/moeingads/indextree"
	"github.com/smartbch/moeingads/store"
	"github.com/smartbch/moeingads/store/rabbit"
	"github.com/tecbot/gorocksdb"
)

// fdsOf lists the open files below dir ("" for all), with " (deleted)" where that is so.
func fdsOf(dir string) (out []string) {
	ds, err := os.ReadDir("/proc/self/fd")
	must(err)
	for _, d := range ds {
		l, err := os.Readlink("/proc/self/fd/" + d.Name())
		if err != nil || !strings.HasPrefix(l, dir) {
			continue
		}
		out = append(out, strings.TrimPrefix(l, dir))
	}
	sort.Strings(out)
	return
}

// dbGoroutines returns the stacks of goroutines that run code of the database.
func dbGoroutines() (out []string) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for i, g := range strings.Split(string(buf), "\n\n") {
		if i > 0 && strings.Contains(g, "smartbch/moeingads") {
			out = append(out, g)
		}
	}
	return
}

func memory() (native, heap int64) {
	runtime.GC()
	runtime.GC()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return int64(C.vh_native()), int64(ms.HeapAlloc)
}

// settle waits until what() has nothing to complain about.
func settle(what func() string) (s string) {
	for i := 0; i < 100; i++ {
		if s = what(); s == "" {
			return
		}
		time.Sleep(50 * time.Millisecond)
	}
	return
}

// rise tells by how much the least of the last third of the measurements exceeds the least
// of the first; growth is that per cycle.
func rise(v []int64) int64 {
	k := len(v) / 3
	least := func(v []int64) int64 {
		m := v[0]
		for _, x := range v {
			if x < m {
				m = x
			}
		}
		return m
	}
	return least(v[len(v)-k:]) - least(v[:k])
}

func growth(v []int64) int64 { return rise(v) / int64(len(v)-len(v)/3) }

type holder struct {
	c       *Ctx
	r       *rand.Rand
	dir     string
	history bool
	stores  bool
	pool    []K
	h       int64
	d       *DB
	root    *store.RootStore
	limit   int
}

func (o *holder) open() {
	o.d = openDB(o.dir, o.history)
	if o.stores {
		o.root = store.NewRootStore(o.d.m, func(k []byte) bool { return k[6]&1 == 0 })
		o.root.SetHeight(o.h)
	}
}

func (o *holder) close() {
	if o.stores {
		o.root.Close()
	} else {
		o.d.close()
	}
	o.d, o.root = nil, nil
}

func (o *holder) block() {
	r := o.r
	o.h++
	if !o.stores {
		var ops []Op
		for j := 0; j < 1400; j++ {
			k := o.pool[r.Intn(len(o.pool))]
			switch r.Intn(12) {
			case 0, 1:
				ops = append(ops, Op{Key: k, Kind: 'D'})
			case 2:
				ops = append(ops, Op{Key: k, Kind: 'P', Val: make([]byte, r.Intn(2))})
			default:
				ops = append(ops, Op{Key: k, Kind: 'S', Val: valSmall(r)})
			}
		}
		o.d.block(o.h, ops, 1+r.Intn(2)*3, shuffledOrder(r, len(ops)))
		return
	}
	o.root.SetHeight(o.h)
	tr := o.root.GetTrunkStore(100).(*store.TrunkStore)
	for i := 0; i < 3; i++ {
		rs := rabbit.NewRabbitStore(tr)
		for j := 0; j < 60; j++ {
			k := []byte(fmt.Sprint("key", r.Intn(400)))
			if r.Intn(4) == 0 {
				rs.Delete(k)
			} else {
				rs.Set(k, valSmall(r))
			}
			rs.Get([]byte(fmt.Sprint("key", r.Intn(600))))
		}
		if r.Intn(4) == 0 {
			rs.Close()
		} else {
			rs.CloseAndWriteBack(true)
		}
	}
	tr.Close(r.Intn(8) != 0)
	ro := o.root.GetReadOnlyTrunkStore(10).(*store.TrunkStore)
	rs := rabbit.NewReadOnlyRabbitStore(ro)
	for j := 0; j < 60; j++ {
		rs.Get([]byte(fmt.Sprint("key", r.Intn(600))))
	}
	rs.Close()
	ro.Close(false)
}

func (o *holder) reads(n int) {
	r := o.r
	if o.stores {
		for i := 0; i < n/20; i++ {
			var rs rabbit.RabbitStore
			if o.history && o.h > 4 && i%2 == 0 {
				rs = rabbit.NewReadOnlyRabbitStoreAtHeight(o.root, uint64(o.h-r.Int63n(4)))
			} else {
				rs = rabbit.NewReadOnlyRabbitStore(o.root)
			}
			for j := 0; j < 20; j++ {
				rs.Get([]byte(fmt.Sprint("key", r.Intn(600))))
			}
			rs.Close()
		}
		return
	}
	m := o.d.m
	for j := 0; j < n; j++ {
		k := o.pool[r.Intn(len(o.pool))]
		if r.Intn(20) == 0 {
			r.Read(k[:])
		}
		m.GetEntry(k[:])
		if o.history {
			m.GetEntryAtHeight(k[:], uint64(o.h+1-r.Int63n(minInt64(o.h, 6)+1)))
		}
		if j%4 == 0 {
			m.GetProof(k[:])
		}
	}
	m.ScanAll(func(k, v []byte) {})
	m.CheckConsistency()
	m.CheckHashConsistency()
	kv := o.d.kvdb()
	if kv == nil {
		return
	}
	for i := 0; i < 40; i++ { // iterators that are left early, too
		open := kv.Iterator
		if i%2 == 0 {
			open = kv.ReverseIterator
		}
		it := open([]byte{0}, []byte{1})
		for j := r.Intn(30); j > 0 && it.Valid(); j-- {
			it.Key()
			it.Value()
			it.Next()
		}
		it.Close()
	}
}

func minInt64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// settled empties the memtables of RocksDB and lets it drop what was pruned. It returns the
// size of the block cache, which has its own limit.
func (o *holder) settled() int64 {
	db, ok := o.d.kvdb().(*indextree.RocksDB)
	if !ok {
		return 0
	}
	fo := gorocksdb.NewDefaultFlushOptions()
	fo.SetWait(true)
	must(db.DB().Flush(fo))
	fo.Destroy()
	db.DB().CompactRange(gorocksdb.Range{})
	n, _ := strconv.ParseInt(db.DB().GetProperty("rocksdb.block-cache-usage"), 10, 64)
	o.c.Max("block_cache", n)
	return n
}

// files: the open files of the entries and the groups are exactly those that exist.
func (o *holder) files() {
	c := o.c
	c.Eval(1)
	if s := settle(func() string {
		var have []string
		for s := 0; s < shardCount; s++ {
			for _, n := range []string{"entries", "twigmt"} {
				d := fmt.Sprintf("/%s.%d", n, s)
				des, err := os.ReadDir(o.dir + d)
				must(err)
				for _, de := range des {
					have = append(have, d+"/"+de.Name())
				}
			}
		}
		var open []string
		for _, f := range fdsOf(o.dir) {
			if strings.HasPrefix(f, "/entries.") || strings.HasPrefix(f, "/twigmt.") {
				open = append(open, f)
			}
		}
		sort.Strings(have)
		c.Max("data_files_open", int64(len(open)))
		if strings.Join(have, "\n") != strings.Join(open, "\n") {
			return fmt.Sprintf("files that exist: %q, open ones: %q", have, open)
		}
		return ""
	}); s != "" {
		c.Failf("height %d: the database keeps other data files open than there are: %s", o.h, s)
	}
	if s := settle(func() string { return strings.Join(dbGoroutines(), "\n\n") }); s != "" {
		c.Failf("height %d: between blocks, nothing being read, code of the database still runs:\n%s", o.h, s)
	}
	if o.stores { // the cache of the root store
		v := reflect.ValueOf(o.root).Elem()
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Kind() != reflect.Array || f.Len() != shardCount || f.Type().Elem().Kind() != reflect.Map {
				continue
			}
			for s := 0; s < shardCount; s++ {
				c.Max("root_cache_entries", int64(f.Index(s).Len()))
				if n := f.Index(s).Len(); n > o.limit+1 {
					c.Failf("height %d: the root store caches %d keys of shard %d, its limit is %d", o.h, n, s, o.limit)
				}
			}
		}
	}
}

// litter adds what a crashed process may have left: files continued past the stored state.
func (o *holder) litter() {
	for s := 0; s < shardCount; s++ {
		for _, n := range []string{"entries", "twigmt"} {
			if o.r.Intn(3) != 0 {
				continue
			}
			dir := filepath.Join(o.dir, fmt.Sprintf("%s.%d", n, s))
			des, err := os.ReadDir(dir)
			must(err)
			last, size := -1, 0
			for _, de := range des {
				var id, sz int
				if k, _ := fmt.Sscanf(de.Name(), "%d-%d", &id, &sz); k == 2 && id > last {
					last, size = id, sz
				}
			}
			f, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("%d-%d", last, size)), os.O_WRONLY, 0)
			must(err)
			st, err := f.Stat()
			must(err)
			_, err = f.WriteAt(make([]byte, int64(size)-st.Size()), st.Size())
			must(err)
			must(f.Close())
			for k := 1 + o.r.Intn(3); k > 0; k-- {
				last++
				n := size
				if k == 1 {
					n = o.r.Intn(size)
				}
				must(os.WriteFile(filepath.Join(dir, fmt.Sprintf("%d-%d", last, size)), make([]byte, n), 0700))
				o.c.Count("files_beyond_the_state", 1)
			}
		}
	}
}

// elements counts what is in the maps and slices that can be reached from v (not bytes).
func elements(v reflect.Value, seen map[uintptr]bool) (n int64) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		return elements(v.Elem(), seen)
	case reflect.Interface:
		if !v.IsNil() {
			return elements(v.Elem(), seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			n += elements(v.Field(i), seen)
		}
	case reflect.Map:
		n = int64(v.Len())
		for it := v.MapRange(); it.Next(); {
			n += elements(it.Value(), seen)
		}
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice {
			if k := v.Type().Elem().Kind(); k == reflect.Uint8 || v.IsNil() || seen[v.Pointer()] {
				return
			}
			n = int64(v.Len())
		}
		switch v.Type().Elem().Kind() {
		case reflect.Ptr, reflect.Interface, reflect.Struct, reflect.Map, reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				n += elements(v.Index(i), seen)
			}
		}
	}
	return
}

// records counts what is in the key-value store.
func (o *holder) records() (n int64) {
	kv := o.d.kvdb()
	if kv == nil {
		return 0
	}
	it := kv.Iterator([]byte{0}, nil)
	defer it.Close()
	for ; it.Valid(); it.Next() {
		n++
	}
	return
}

func init() {
	workers["resource"] = func(c *Ctx, cs *Case) {
		o := &holder{c: c, r: c.rnd, dir: filepath.Join(c.dir, "db"), history: cs.n("history", 0) == 1, stores: cs.n("stores", 0) == 1, limit: 15}
		cfg := cfgTiny
		cfg.RootCache = o.limit
		applyCfg(cfg)
		must(os.MkdirAll(c.dir, 0755))
		debug.SetGCPercent(-1) // only at the end of each cycle: finalizers close no files
		debug.SetMemoryLimit(2 << 30)
		o.pool = poolShard(c.rnd, 1000, 2, 5)
		cycles, blocks, reads := int(cs.n("cycles", 36)), int(cs.n("blocks", 5)), int(cs.n("reads", 200))
		reopen := cs.S["kind"] == "reopen"
		lag := int64(3 * blocks)
		var nat, heap, elem, recs []int64
		base := len(fdsOf(""))
		if !reopen {
			o.open()
		}
		warm := 30
		for i := 0; i < cycles+warm; i++ {
			cache := int64(0)
			if reopen {
				if i > 0 && i%3 == 0 {
					o.litter()
				}
				o.open()
				o.files()
			}
			for b := 0; b < blocks; b++ {
				o.block()
				o.files()
			}
			o.reads(reads)
			if o.h > lag+1 {
				o.d.m.PruneBeforeHeight(o.h - lag)
				c.Count("prunes", 1)
			}
			o.files()
			if i >= warm {
				elem = append(elem, elements(reflect.ValueOf(o.d.m), map[uintptr]bool{}))
			}
			c.Count("blocks", int64(blocks))
			c.Count("reads", int64(reads))
			if reopen {
				o.close()
				c.Count("closed", 1)
				c.Eval(1)
				if s := settle(func() string {
					if f := fdsOf(o.dir); len(f) != 0 {
						return fmt.Sprintf("files still open: %q", f)
					}
					if n := len(fdsOf("")); n > base {
						return fmt.Sprintf("%d descriptors more than before it was opened: %q", n-base, fdsOf(""))
					}
					return strings.Join(dbGoroutines(), "\n\n")
				}); s != "" {
					c.Failf("after closing at height %d: %s", o.h, s)
				}
			} else {
				cache = o.settled()
				if i >= warm {
					recs = append(recs, o.records())
				}
			}
			if i >= warm {
				n, h := memory()
				n -= cache
				nat, heap = append(nat, n), append(heap, h)
				c.Log("cycle %d native %d heap %d", i, n, h)
				c.Distinct("%d %d", n, h)
			}
		}
		gn, gh := growth(nat), growth(heap)
		c.Max("native_growth_per_cycle", gn)
		c.Max("heap_growth_per_cycle", gh)
		c.Max("elements", elem[len(elem)-1])
		c.Log("elements %v records %v", elem, recs)
		span := int64(len(elem) * 2 / 3)
		limElem, limRecs := span*3/2, span/4 // the state proper: no growth, but noise
		if o.history {
			limRecs = span * 8
		}
		if o.stores { // few changes per block: twigs are still being filled, nothing is compacted
			limElem, limRecs = span*8, span*40
		}
		g := rise(elem)
		c.Max("elements_rise", g)
		if g > limElem {
			c.Failf("after %d cycles of %d blocks and a prune the maps and lists of the database hold %d more elements though the state does not grow: %v", span, blocks, g, elem)
		}
		if !reopen {
			c.Max("records", recs[len(recs)-1])
			g := rise(recs)
			c.Max("records_rise", g)
			if g > limRecs {
				c.Failf("after %d cycles of %d blocks and a prune the key-value store holds %d more records though the state does not grow: %v", span, blocks, g, recs)
			}
		}
		c.Eval(4)
		c.Count("memory_readings", int64(len(nat)))
		c.Sample("%s: native %d..%d, growing %d per cycle; heap %d..%d, growing %d", cs.Name, nat[0], nat[len(nat)-1], gn, heap[0], heap[len(heap)-1], gh)
		if lim := cs.n("native", 64<<10); gn > lim {
			c.Failf("native memory grows by %d bytes per cycle of %d blocks and %d reads though the state does not grow: %v", gn, blocks, reads, nat)
		}
		if lim := cs.n("heap", 24<<10); gh > lim {
			c.Failf("Go memory grows by %d bytes per cycle of %d blocks and %d reads though the state does not grow: %v", gh, blocks, reads, heap)
		}
		if !reopen {
			o.close()
		}
		os.RemoveAll(o.dir)
	}
	register(&Check{ID: "C27",
		Assume: []string{"threads of RocksDB and what the Go runtime keeps for them do not count", "what is held is compared after 30 cycles, from when on it must not grow by more than a few pages per cycle"},
		Rule:   "A case is one process that runs 90 cycles of five blocks, 200 rounds of reads of every kind and a prune, over a set of keys that does not grow; in half of the cases every cycle opens and closes the database, which sometimes finds files continued past the stored state. After every block the open data files are compared with the existing ones, and no goroutine of the database may run; after every close no descriptor and no goroutine may be left; native and Go memory in use, the elements of the maps and lists that the database holds, and the records of its key-value store, each read at the end of a cycle, must not grow with the number of cycles. Distinct non-trivial: different memory readings.",
		Cases: func(tier string, seed int64) (out []Case) {
			n, cycles := int64(1), int64(60)
			if tier == "thorough" {
				n, cycles = 6, 200
			}
			for s := int64(0); s < n; s++ {
				for _, kind := range []string{"reopen", "open"} {
					for hist := int64(0); hist < 2; hist++ {
						for st := int64(0); st < 2; st++ {
							out = append(out, Case{Worker: "resource", Name: fmt.Sprintf("%s/history%d/stores%d", kind, hist, st), Seed: seed*1000 + s,
								P: map[string]int64{"history": hist, "stores": st, "cycles": cycles}, S: map[string]string{"kind": kind}, NoIdle: true})
						}
					}
				}
			}
			return
		}, Need: map[string]int64{"closed": 100, "prunes": 100, "memory_readings": 200, "data_files_open": 20, "files_beyond_the_state": 50}})
}
