package main

// C22: no data race in the concurrency the interface allows. C23: concurrent readers see
// one committed block.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/tecbot/gorocksdb"

	"github.com/smartbch/moeingads/indextree"
	"github.com/smartbch/moeingads/store"
	"github.com/smartbch/moeingads/store/rabbit"
	"github.com/smartbch/moeingads/store/types"
)

// group runs goroutines and brings a failed oracle in one of them back to the caller.
type group struct {
	wg   sync.WaitGroup
	stop atomic.Bool
	bad  atomic.Bool
}

func (g *group) run(f func()) {
	g.wg.Add(1)
	go func() {
		defer g.wg.Done()
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopRun); !ok {
					panic(r) // a crash of the code under test: ends the process
				}
				g.bad.Store(true)
			}
		}()
		f()
	}()
}

func (g *group) wait() {
	g.wg.Wait()
	g.check()
}

func (g *group) check() {
	if g.bad.Load() {
		panic(stopRun{})
	}
}

// pause lets other goroutines run, for a random time.
func pause(r *rand.Rand) {
	switch r.Intn(6) {
	case 0:
		time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
	case 1, 2:
		runtime.Gosched()
	}
}

func init() {
	// the database itself: readers and preparations at once, parallel application,
	// readers of past heights all the time
	workers["concdb"] = func(c *Ctx, cs *Case) {
		r := c.rnd
		c.on["history"] = true
		p := profile(cs.S["prof"], r)
		p.History = cs.n("history", 1) == 1
		p.MinOps, p.MaxOps = int(cs.n("minops", int64(p.MinOps))), int(cs.n("maxops", int64(p.MaxOps)))
		blocks := int(cs.n("blocks", 40))
		rn := newRun(c, p, "a")
		d, m := rn.d, rn.m
		lag := cs.n("lag", 0)
		holdEvery(int(cs.n("hold", 400)))
		var mu sync.RWMutex // guards m, h and floor for the readers of past heights
		h, floor, begun := p.H0-1, int64(0), atomic.Int64{}
		done := false
		var bg group
		type open struct {
			k        K
			hh, from int64
			ok       bool
			val      []byte
			next     K
		}
		var opens []open
		var omu sync.Mutex
		readPast := func(rr *rand.Rand) {
			mu.RLock()
			defer mu.RUnlock()
			if h < p.H0 {
				return
			}
			k := p.Pool[rr.Intn(len(p.Pool))]
			lo := h - 60
			if lag > 0 {
				lo = h - lag + 1
			}
			if lo <= floor {
				lo = floor + 1
			}
			if lo < 1 {
				lo = 1
			}
			if lo > h {
				return
			}
			hh := lo + rr.Int63n(h-lo+1)
			if vs := m.hist[k]; len(vs) > 0 && rr.Intn(2) == 0 {
				if x := vs[len(vs)-1-rr.Intn(len(vs))].H - int64(rr.Intn(2)); x >= lo && x <= h {
					hh = x
				}
			}
			if rr.Intn(8) == 0 { // not yet committed: the state before or after the block in progress
				hh = h + 1 + rr.Int63n(1000)
				if rr.Intn(2) == 0 {
					hh = 1<<62 - rr.Int63n(3)
				}
				o := open{k: k, hh: hh, from: h}
				e := d.m.GetEntryAtHeight(append([]byte{}, k[:]...), uint64(hh))
				if e != nil {
					o.ok, o.val, o.next = true, append([]byte{}, e.Value...), kOf(e.NextKey)
					if !bytes.Equal(e.Key, k[:]) {
						c.Failf("reading %x at height %d gives an entry of %x", k[:], hh, e.Key)
					}
				}
				omu.Lock()
				opens = append(opens, o)
				omu.Unlock()
				return
			}
			v, vh := m.at(k, hh)
			inProgress := begun.Load() > h
			e := d.m.GetEntryAtHeight(append([]byte{}, k[:]...), uint64(hh))
			c.Eval(1)
			c.Count("past_reads", 1)
			if inProgress {
				c.Count("past_reads_during_a_commit", 1)
			}
			if v != nil && vh < floor { // the listed finding of C10: its record may be gone
				c.Count("past_reads_not_judged", 1)
				return
			}
			if (e == nil) != (v == nil) {
				c.Failf("height %d committed, floor %d: %x at height %d present=%v, the history says %v (version of height %d)", h, floor, k[:], hh, e != nil, v != nil, vh)
			}
			if e != nil && (!bytes.Equal(e.Key, k[:]) || !bytes.Equal(e.Value, v.Val) || kOf(e.NextKey) != v.Next) {
				c.Failf("height %d committed: %x at height %d is %s -> %x, the history says %s -> %x", h, k[:], hh, hx(e.Value), e.NextKey, hx(v.Val), v.Next[:])
			}
			c.Distinct("p %x %d %d", k[:], vh, hh-vh)
		}
		judgeOpens := func() {
			omu.Lock()
			os := opens
			opens = nil
			omu.Unlock()
			for _, o := range os {
				ok := false
				for _, at := range []int64{o.from, h} {
					v, vh := m.at(o.k, at)
					if v == nil && !o.ok || v != nil && o.ok && bytes.Equal(v.Val, o.val) && v.Next == o.next {
						ok = true
					}
					if v != nil && vh < floor {
						ok = true
					}
				}
				// blocks in between
				for _, v := range m.hist[o.k] {
					if v.H > o.from && v.H <= h && (v.Del && !o.ok || !v.Del && o.ok && bytes.Equal(v.Val, o.val) && v.Next == o.next) {
						ok = true
					}
				}
				c.Eval(1)
				c.Count("future_reads", 1)
				if !ok {
					c.Failf("%x read at the future height %d between heights %d and %d: present=%v value %s next %x, which was current at none of them", o.k[:], o.hh, o.from, h, o.ok, hx(o.val), o.next[:])
				}
			}
		}
		if p.History {
			for i := 0; i < int(cs.n("past", 3)); i++ {
				rr := rand.New(rand.NewSource(cs.Seed*100 + int64(i)))
				bg.run(func() {
					for !bg.stop.Load() && !bg.bad.Load() {
						readPast(rr)
						pause(rr)
					}
				})
			}
		}
		defer func() {
			bg.stop.Store(true)
			bg.wg.Wait()
			if done {
				rn.destroy()
			}
		}()
		for b := 0; b < blocks; b++ {
			bg.check()
			ops := rn.genOps()
			// readers and preparations, all at once
			var g group
			np := 4
			for w := 0; w < np; w++ {
				w := w
				g.run(func() {
					for j := w; j < len(ops); j += np {
						o := ops[j]
						k := append([]byte{}, o.Key[:]...)
						if o.Kind == 'D' || o.Kind == 'P' && len(o.Val) == 0 {
							d.m.PrepareForDeletion(k)
						} else {
							d.m.PrepareForUpdate(k)
						}
					}
				})
			}
			for w := 0; w < 3; w++ {
				rr := rand.New(rand.NewSource(r.Int63()))
				w := w
				g.run(func() {
					for n := 0; n < 40; n++ {
						k := p.Pool[rr.Intn(len(p.Pool))]
						e := d.m.GetEntry(append([]byte{}, k[:]...))
						x := m.ents[k]
						c.Eval(1)
						if (e == nil) != (x == nil) || e != nil && (!bytes.Equal(e.Value, x.Val) || kOf(e.NextKey) != x.Next) {
							c.Failf("height %d: concurrent read of %x: present=%v, expected %v", h, k[:], e != nil, x != nil)
						}
						c.Count("concurrent_reads", 1)
						if w == 0 && n%4 == 0 {
							eb, pb, err := d.m.GetProof(append([]byte{}, k[:]...))
							if (err == nil) != (x != nil) || err == nil && (len(eb) == 0 || len(pb) == 0) {
								c.Failf("height %d: concurrent proof of %x: %v, live %v", h, k[:], err, x != nil)
							}
							c.Count("concurrent_proofs", 1)
						}
						pause(rr)
					}
					if w == 1 {
						n := 0
						d.m.ScanAll(func(key, value []byte) { n++ })
						if n != len(m.order) && n != len(m.order)-1 && n != len(m.order)-2 {
							c.Failf("height %d: concurrent scan shows %d keys of %d", h, n, len(m.order))
						}
						if d.m.ActiveCount() != len(m.order) {
							c.Failf("height %d: counts %d keys of %d", h, d.m.ActiveCount(), len(m.order))
						}
						d.m.GetRootHash()
						c.Count("concurrent_scans", 1)
					}
				})
			}
			g.wait()
			nh := h + 1 + r.Int63n(p.MaxGap+1)
			begun.Store(nh)
			d.m.BeginWrite(nh)
			for s := 0; s < shardCount; s++ {
				s := s
				g.run(func() {
					for _, o := range ops {
						if shardOf(o.Key) != s {
							continue
						}
						k := append([]byte{}, o.Key[:]...)
						if o.Kind == 'S' {
							d.m.Set(k, append([]byte{}, o.Val...))
						} else if o.Kind == 'D' {
							d.m.Delete(k)
						}
					}
				})
			}
			g.wait()
			d.m.EndWrite()
			rn.h, rn.blk = nh, rn.blk+1
			mu.Lock()
			m.apply(nh, ops)
			h = nh
			judgeOpens()
			prune := int64(0)
			if lag > 0 && b%5 == 4 && h-lag > floor {
				prune = h - lag
				floor = prune
			}
			mu.Unlock()
			if prune > 0 {
				d.m.PruneBeforeHeight(prune)
				c.Count("prunes", 1)
				if db, ok := d.kvdb().(*indextree.RocksDB); ok && b%10 == 9 {
					db.DB().CompactRange(gorocksdb.Range{})
				}
			}
			c.Count("blocks", 1)
			c.Count("ops", int64(len(ops)))
			if cs.n("reopen", 0) > 0 && b%int(cs.n("reopen", 0)) == int(cs.n("reopen", 0))-1 {
				mu.Lock()
				d.close()
				nd := openDB(rn.dir, p.History)
				*d = *nd
				c.Count("reopens", 1)
				mu.Unlock()
			}
		}
		bg.stop.Store(true)
		bg.wait()
		noteNative(c)
		done = true
		c.Sample("%s: %d blocks to height %d, %d live keys", cs.S["prof"], blocks, h, len(m.order))
	}

	// the stores: sessions of readers while blocks are committed
	workers["concstore"] = func(c *Ctx, cs *Case) {
		r := c.rnd
		holdEvery(int(cs.n("hold", 400)))
		history := cs.n("history", 1) == 1
		applyCfg(Cfg{HPFile: 1 << 17, HPBuf: 1 << 13, Reap: 100, RootCache: int(cs.n("limit", 30))})
		dir := filepath.Join(c.dir, "root")
		must(os.MkdirAll(dir, 0755))
		cr := cacheRules[r.Intn(len(cacheRules))]
		if cs.n("cached", 0) == 1 {
			cr = cacheRules[1]
		}
		d := openDB(dir, history)
		root := store.NewRootStore(d.m, cr.fn)
		var pool []K
		for i := 0; i < int(cs.n("pool", 40)); i++ {
			var k K
			binary.BigEndian.PutUint64(k[:], r.Uint64())
			k[0] = 64 + k[0]%128
			pool = append(pool, k)
		}
		var rkeys []string
		for i := 0; i < int(cs.n("pool", 40)); i++ {
			rkeys = append(rkeys, fmt.Sprintf("rabbit key %d", i))
		}
		blocks := int(cs.n("blocks", 150))
		// states[i] is the committed state after block i; written before the block begins
		type state struct {
			h   int64
			raw map[K]string
			rab map[string]string
		}
		states := make([]atomic.Pointer[state], blocks+1)
		states[0].Store(&state{raw: map[K]string{}, rab: map[string]string{}})
		var committed, begun atomic.Int64 // block numbers
		var floor atomic.Int64
		root.SetHeight(0)
		type read struct {
			raw bool
			k   K
			rk  string
			v   string
			ok  bool
		}
		// judge finds the committed blocks that explain all reads of a session
		judge := func(kind string, lo, hi int64, reads []read) {
			n := 0
			best, bestAt := -1, int64(0)
			for i := lo; i <= hi; i++ {
				s := states[i].Load()
				fit := 0
				for _, x := range reads {
					var w string
					var ok bool
					if x.raw {
						w, ok = s.raw[x.k]
					} else {
						w, ok = s.rab[x.rk]
					}
					if ok != x.ok || ok && w != x.v {
						break
					}
					fit++
				}
				if fit > best {
					best, bestAt = fit, i
				}
				if fit == len(reads) {
					n++
				}
			}
			c.Eval(int64(len(reads)))
			c.Count("sessions_"+kind, 1)
			if hi > lo {
				c.Count("sessions_beside_a_commit", 1)
			}
			c.Distinct("%s %d %d %d", kind, lo, hi, len(reads))
			if n == 0 {
				x := reads[best]
				c.Failf("a %s session between blocks %d and %d made %d reads that no single committed block explains: the first %d fit block %d, then key %x%s gave %q (%v)", kind, lo, hi, len(reads), best, bestAt, x.k[:], x.rk, clipText(x.v, 60), x.ok)
			}
		}
		val := func(b int, i int) string {
			return fmt.Sprintf("b%d.%d.%s", b, i, string(bytes.Repeat([]byte{'x'}, (b*7+i*13)%200)))
		}
		var g group
		session := func(rr *rand.Rand) {
			lo := committed.Load()
			var reads []read
			nr := 2 + rr.Intn(10)
			raw := func(get func(k []byte) []byte) {
				k := pool[rr.Intn(len(pool))]
				v := get(append([]byte{}, k[:]...))
				reads = append(reads, read{raw: true, k: k, v: string(v), ok: v != nil})
				pause(rr)
			}
			rab := func(rb *rabbit.RabbitStore) {
				k := rkeys[rr.Intn(len(rkeys))]
				v := rb.Get([]byte(k))
				reads = append(reads, read{rk: k, v: string(v), ok: v != nil})
				if rb.Has([]byte(k)) != (v != nil) {
					c.Failf("Has and Get differ for %q in one transaction", k)
				}
				pause(rr)
			}
			switch rr.Intn(6) {
			case 0: // the root store under its read lock
				root.RLock()
				lo = committed.Load()
				for i := 0; i < nr; i++ {
					raw(root.Get)
				}
				hi := begun.Load()
				root.RUnlock()
				judge("root", lo, hi, reads)
			case 1: // a transaction on the root store
				rb := rabbit.NewReadOnlyRabbitStore(root)
				lo = committed.Load()
				for i := 0; i < nr; i++ {
					if rr.Intn(2) == 0 {
						rab(&rb)
					} else {
						raw(root.Get)
					}
				}
				hi := begun.Load()
				rb.Close()
				judge("transaction", lo, hi, reads)
			case 2: // a transaction in a read-only trunk with changes of its own
				ts := root.GetReadOnlyTrunkStore(10).(*store.TrunkStore)
				own := pool[rr.Intn(len(pool))]
				ts.Update(func(db types.SetDeleter) { db.Set(own[:], []byte("mine")) })
				rb := rabbit.NewReadOnlyRabbitStore(ts)
				lo = committed.Load()
				for i := 0; i < nr; i++ {
					if rr.Intn(2) == 0 {
						rab(&rb)
						continue
					}
					raw(ts.Get)
					if x := reads[len(reads)-1]; x.k == own {
						if x.v != "mine" {
							c.Failf("a trunk does not show its own change: %q", x.v)
						}
						reads = reads[:len(reads)-1]
					}
				}
				hi := begun.Load()
				rb.Close()
				ts.Close(false)
				judge("trunk", lo, hi, reads)
			case 3: // a transaction with writes that are thrown away
				ts := root.GetTrunkStore(10).(*store.TrunkStore)
				rb := rabbit.NewRabbitStore(ts)
				lo = committed.Load()
				mine := map[string]string{}
				for i := 0; i < nr; i++ {
					rab(&rb)
					x := reads[len(reads)-1]
					if v, in := mine[x.rk]; in {
						if x.ok != (v != "") || x.ok && x.v != v {
							c.Failf("a transaction does not show its own change of %q: %q (%v)", x.rk, x.v, x.ok)
						}
						reads = reads[:len(reads)-1]
						continue
					}
					if rr.Intn(4) == 0 {
						if rr.Intn(2) == 0 {
							rb.Set([]byte(x.rk), []byte("mine"))
							mine[x.rk] = "mine"
						} else {
							rb.Delete([]byte(x.rk))
							mine[x.rk] = ""
						}
					}
				}
				hi := begun.Load()
				rb.CloseAndWriteBack(rr.Intn(2) == 0)
				ts.Close(false)
				if len(reads) > 0 {
					judge("discarded", lo, hi, reads)
				}
			case 4, 5: // the past
				if !history || lo == 0 {
					return
				}
				fl := floor.Load()
				from := lo - 12
				if from < 1 {
					from = 1
				}
				i := from + rr.Int63n(lo-from+1)
				s := states[i].Load()
				if s.h <= fl {
					return
				}
				if rr.Intn(2) == 0 {
					rb := rabbit.NewReadOnlyRabbitStoreAtHeight(root, uint64(s.h))
					for j := 0; j < nr; j++ {
						rab(&rb)
					}
					rb.Close()
				} else { // without any lock
					for j := 0; j < nr; j++ {
						raw(func(k []byte) []byte { return root.GetAtHeight(k, uint64(s.h)) })
					}
				}
				if floor.Load() > 0 {
					// versions from below the pruned height may be gone (listed under C10)
					old := int64(-1)
					for j := i; j >= 0; j-- {
						if states[j].Load().h < floor.Load() {
							old = j
							break
						}
					}
					if old >= 0 {
						b := states[old].Load()
						var keep []read
						for _, x := range reads {
							if x.raw && b.raw[x.k] != s.raw[x.k] || !x.raw && b.rab[x.rk] != s.rab[x.rk] {
								keep = append(keep, x)
							}
						}
						reads = keep
					}
				}
				if len(reads) > 0 {
					judge("past", i, i, reads)
				}
			}
		}
		for i := 0; i < int(cs.n("readers", 5)); i++ {
			rr := rand.New(rand.NewSource(cs.Seed*77 + int64(i)))
			g.run(func() {
				for !g.stop.Load() && !g.bad.Load() {
					session(rr)
					pause(rr)
				}
			})
		}
		ended := false
		defer func() {
			g.stop.Store(true)
			g.wg.Wait()
			if ended {
				root.Close()
			}
		}()
		h := int64(0)
		for b := 1; b <= blocks; b++ {
			g.check()
			prev := states[b-1].Load()
			next := &state{raw: map[K]string{}, rab: map[string]string{}}
			for k, v := range prev.raw {
				next.raw[k] = v
			}
			for k, v := range prev.rab {
				next.rab[k] = v
			}
			h += 1 + int64(r.Intn(2))
			next.h = h
			ts := root.GetTrunkStore(50).(*store.TrunkStore)
			for t := 1 + r.Intn(3); t > 0; t-- {
				rb := rabbit.NewRabbitStore(ts)
				for i, k := range rkeys {
					switch x := r.Intn(10); {
					case x < 5:
						v := val(b, i)
						rb.Set([]byte(k), []byte(v))
						next.rab[k] = v
					case x < 7:
						rb.Delete([]byte(k))
						delete(next.rab, k)
					}
				}
				rb.CloseAndWriteBack(true)
			}
			type chg struct {
				k K
				v string
			}
			var chgs []chg
			for i, k := range pool {
				switch x := r.Intn(10); {
				case x < 6:
					chgs = append(chgs, chg{k, val(b, i)})
				case x < 8:
					chgs = append(chgs, chg{k, ""})
				}
			}
			for _, x := range chgs {
				if x.v == "" {
					ts.PrepareForDeletion(append([]byte{}, x.k[:]...))
				} else {
					ts.PrepareForUpdate(append([]byte{}, x.k[:]...))
				}
			}
			ts.Update(func(db types.SetDeleter) {
				for _, x := range chgs {
					if x.v == "" {
						db.Delete(append([]byte{}, x.k[:]...))
						delete(next.raw, x.k)
					} else {
						db.Set(append([]byte{}, x.k[:]...), []byte(x.v))
						next.raw[x.k] = x.v
					}
				}
			})
			states[b].Store(next)
			root.SetHeight(h)
			begun.Store(int64(b))
			ts.Close(true)
			committed.Store(int64(b))
			c.Count("blocks", 1)
			if cs.n("prune", 0) == 1 && b%8 == 0 && b > 40 {
				to := states[b-30].Load().h
				floor.Store(to)
				// between blocks, with no transaction open; readers of past heights go on
				root.Lock()
				d.m.PruneBeforeHeight(to)
				root.Unlock()
				c.Count("prunes", 1)
			}
			if r.Intn(3) == 0 {
				pause(r)
			}
		}
		g.stop.Store(true)
		g.wait()
		noteNative(c)
		ended = true
		c.Sample("%d blocks, cache rule %s, %d readers", blocks, cr.name, cs.n("readers", 5))
	}
}

func init() {
	cases := func(tier string, seed int64, variant string, k int64) (out []Case) {
		for s := int64(0); s < k; s++ {
			sd := seed*1000 + s
			db := func(prof string, p map[string]int64) {
				nm := prof
				if p["lag"] > 0 {
					nm += "+prune"
				}
				if p["reopen"] > 0 {
					nm += "+reopen"
				}
				out = append(out, Case{Worker: "concdb", Name: nm, Seed: sd, Variant: variant, Slots: 2, P: p, S: map[string]string{"prof": prof}})
			}
			st := func(nm string, p map[string]int64) {
				out = append(out, Case{Worker: "concstore", Name: nm, Seed: sd, Variant: variant, Slots: 2, P: p})
			}
			db("compact", map[string]int64{"blocks": 60, "minops": 1000, "maxops": 1800})
			db("compact", map[string]int64{"blocks": 70, "minops": 800, "maxops": 1500, "lag": 25})
			db("wide", map[string]int64{"blocks": 12})
			db("mix", map[string]int64{"blocks": 25, "reopen": 9})
			db("edge", map[string]int64{"blocks": 80})
			db("deact", map[string]int64{"blocks": 40, "history": 0})
			st("cached", map[string]int64{"cached": 1, "limit": 3})
			st("pruned", map[string]int64{"prune": 1, "blocks": 200})
			st("plain", map[string]int64{"history": 0, "readers": 8})
			st("many", map[string]int64{"pool": 250, "readers": 6, "blocks": 60})
		}
		return
	}
	register(&Check{ID: "C22",
		Rule:   "A case is one run of the real code, built with the Go race detector and with a monitor between Go and the native index (it notices overlapping operations on one part of a tree and holds operations up at random): many goroutines prepare, read, prove and scan at once, eight apply the block shard by shard, others read past and future heights the whole time, with compaction, pruning and reopening; the same through root, trunk and rabbit stores. Distinct non-trivial: different (key, version, distance) reads of past heights and sessions.",
		Assume: []string{"the phases the interface documents: reads and preparations outside BeginWrite..EndWrite, one goroutine per shard applies, GetEntryAtHeight at any time above the pruned height"},
		Cases: func(tier string, seed int64) []Case {
			if tier == "thorough" {
				return cases(tier, seed, "race", 8)
			}
			return cases(tier, seed, "race", 1)
		}, Need: map[string]int64{"past_reads_during_a_commit": 300, "native_operations_watched": 50000, "native_operations_held_up": 100, "sessions_beside_a_commit": 30, "prunes": 5}})
	register(&Check{ID: "C23",
		Rule:   "A case is one run with reader goroutines beside a committing one. Every session (read lock, transaction, trunk, discarded transaction, past height) logs its reads and the blocks committed before it and begun by its end; a checker looks for one committed block that explains all of them. Reads at past heights of the database itself are compared with the replayed versions, reads at future heights with the states between. Distinct non-trivial: different (session kind, block interval, reads) and (key, version, distance) reads.",
		Assume: []string{"one goroutine commits; transactions hold the root store's read lock as NewRabbitStore does"},
		Cases: func(tier string, seed int64) []Case {
			k := int64(3)
			if tier == "thorough" {
				k = 40
			}
			out := cases(tier, seed, "", k)
			out = append(out, cases(tier, seed+500, "race", 1)[6:]...)
			return out
		}, Need: map[string]int64{"past_reads_during_a_commit": 1000, "sessions_beside_a_commit": 200, "sessions_past": 200, "sessions_transaction": 100, "prunes": 10}})
}
