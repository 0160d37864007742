package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"sync"
)

// histScript is a fixed history: heights and operations.
func histScript(p *Prof, r *rand.Rand) []cstep {
	rn := &Run{p: p, r: r, m: newModel(false), c: newCtx("X", "script", "quick", "", 1)}
	var st []cstep
	h := p.H0 - 1
	for b := 0; b < p.Blocks; b++ {
		h++
		if p.MaxGap > 0 {
			h += r.Int63n(p.MaxGap + 1)
		}
		ops := rn.genOps()
		rn.blk++
		rn.m.apply(h, ops)
		st = append(st, cstep{Kind: 'B', H: h, Ops: ops})
	}
	return st
}

// how one database executes the history
type variant struct {
	Name      string
	Cfg       Cfg
	History   bool
	Prep      int // goroutines preparing
	Apply     int // goroutines applying
	Shuffle   bool
	Extra     bool // prepare keys that are not written
	Procs     int
	ReopenPct int
	PrunePct  int
	PruneAll  bool // no lag: everything but the last block
	Yield     bool
	SubCPU    string // run in a process of its own, bound to these processors
}

type logSum struct {
	Roots []string
	Logs  [][]string // per block and shard: hash of the entries appended
}

// shuffleApply permutes operations on distinct keys, keeping the order per key.
func shuffleApply(r *rand.Rand, ops []Op) []Op {
	perm := r.Perm(len(ops))
	byKey := map[K][]int{}
	for i, o := range ops {
		byKey[o.Key] = append(byKey[o.Key], i)
	}
	out := make([]Op, 0, len(ops))
	next := map[K]int{}
	for _, i := range perm {
		k := ops[i].Key
		out = append(out, ops[byKey[k][next[k]]])
		next[k]++
	}
	return out
}

func runVariant(c *Ctx, dir string, p *Prof, st []cstep, v variant, r *rand.Rand) logSum {
	if v.Procs > 0 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(v.Procs))
	}
	applyCfg(v.Cfg)
	must(os.RemoveAll(dir))
	d := openDB(dir, v.History)
	sh := newShadow(dir)
	var ls logSum
	note := func() {
		var row []string
		for _, s := range sh.sh {
			es, err := s.advance(-1)
			if err != nil {
				c.Failf("variant %s: entry log unreadable: %v", v.Name, err)
			}
			h := sha256.New()
			for _, e := range es {
				h.Write(e.Hash[:])
			}
			row = append(row, fmt.Sprintf("%d:%x", len(es), h.Sum(nil)[:8]))
			c.Count("entries_logged", int64(len(es)))
		}
		ls.Roots = append(ls.Roots, fmt.Sprintf("%x", d.m.GetRootHash()))
		ls.Logs = append(ls.Logs, row)
	}
	note()
	for _, s := range st {
		ops := s.Ops
		if v.Shuffle {
			ops = shuffleApply(r, ops)
		}
		var prepKeys []Op
		prepKeys = append(prepKeys, ops...)
		if v.Extra {
			for i := 0; i < 1+len(ops)/4; i++ {
				o := Op{Kind: 'P', Key: p.Pool[r.Intn(len(p.Pool))]}
				if r.Intn(2) == 0 {
					o.Val = []byte{1}
				}
				if r.Intn(4) == 0 {
					r.Read(o.Key[:])
				}
				prepKeys = append(prepKeys, o)
			}
		}
		r.Shuffle(len(prepKeys), func(i, j int) { prepKeys[i], prepKeys[j] = prepKeys[j], prepKeys[i] })
		each(v.Prep, len(prepKeys), v.Yield, func(i int) { d.prep(prepKeys[i]) })
		d.m.BeginWrite(s.H)
		if v.Apply <= 1 {
			for _, o := range ops {
				d.app(o)
			}
		} else {
			// shard-safe: each goroutine takes whole shards, visited in random order
			order := r.Perm(shardCount)
			each(v.Apply, shardCount, v.Yield, func(i int) {
				for _, o := range ops {
					if shardOf(o.Key) == order[i] {
						d.app(o)
					}
				}
			})
		}
		d.m.EndWrite()
		note()
		if r.Intn(100) < v.PrunePct {
			h := s.H - 3 - int64(r.Intn(20))
			if v.PruneAll {
				h = s.H
			}
			d.m.PruneBeforeHeight(h)
			c.Count("prunes", 1)
		}
		if r.Intn(100) < v.ReopenPct {
			d.close()
			d = openDB(dir, v.History)
			c.Count("reopens", 1)
		}
	}
	d.close()
	os.RemoveAll(dir)
	return ls
}

func each(par, n int, yield bool, f func(i int)) {
	if par <= 1 {
		for i := 0; i < n; i++ {
			f(i)
		}
		return
	}
	var wg sync.WaitGroup
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := w; i < n; i += par {
				f(i)
				if yield && i%7 == 3 {
					runtime.Gosched()
				}
			}
		}(w)
	}
	wg.Wait()
}

func (d *DB) prep(o Op) {
	k := append([]byte{}, o.Key[:]...)
	switch {
	case o.Kind == 'S' || o.Kind == 'P' && len(o.Val) == 0:
		d.m.PrepareForUpdate(k)
	default:
		d.m.PrepareForDeletion(k)
	}
}

func (d *DB) app(o Op) {
	k := append([]byte{}, o.Key[:]...)
	switch o.Kind {
	case 'S':
		d.m.Set(k, append([]byte{}, o.Val...))
	case 'D':
		d.m.Delete(k)
	}
}

func detVariants(base Cfg) []variant {
	big := base
	big.HPFile, big.HPBuf = base.HPFile*4, base.HPBuf*2
	return []variant{
		{Name: "one-goroutine", Cfg: base, Prep: 1, Apply: 1},
		{Name: "8-goroutines-shuffled", Cfg: base, Prep: 8, Apply: 8, Shuffle: true, Yield: true},
		{Name: "history-big-files", Cfg: big, History: true, Prep: 3, Apply: 2, Shuffle: true},
		{Name: "extra-preparations", Cfg: base, Prep: 32, Apply: 8, Extra: true, Yield: true, History: true},
		{Name: "one-processor", Cfg: big, Prep: 5, Apply: 3, Procs: 1, Shuffle: true},
		{Name: "reopened-and-pruned", Cfg: base, History: true, Prep: 8, Apply: 8, ReopenPct: 15, PrunePct: 15},
		{Name: "pruned-after-every-block", Cfg: base, History: true, Prep: 4, Apply: 4, PrunePct: 100, PruneAll: true},
		{Name: "reopened-extra", Cfg: base, Prep: 4, Apply: 4, ReopenPct: 30, Extra: true, Shuffle: true, Procs: 2},
		{Name: "bound-to-one-cpu", Cfg: base, Prep: 4, Apply: 8, Shuffle: true, SubCPU: "0"},
		{Name: "bound-to-three-cpus", Cfg: big, History: true, Prep: 8, Apply: 8, ReopenPct: 5, Extra: true, SubCPU: "0-2"},
	}
}

func init() {
	mk := func(cs *Case, seed int64) (*Prof, []cstep) {
		r := rand.New(rand.NewSource(seed*77 + int64(hashStr(cs.S["prof"])%1000)))
		p := profile(cs.S["prof"], r)
		p.Blocks = int(cs.n("blocks", int64(p.Blocks)))
		return p, histScript(p, r)
	}
	subs["variant"] = func(a []string) { // CASEFILE SEED INDEX DIR OUT
		b, err := os.ReadFile(a[0])
		must(err)
		var cs Case
		must(json.Unmarshal(b, &cs))
		seed, _ := strconv.ParseInt(a[1], 10, 64)
		i, _ := strconv.Atoi(a[2])
		p, st := mk(&cs, seed)
		null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
		os.Stdout = null
		c := newCtx("X", "variant", "quick", "", 1)
		v := detVariants(p.Cfg)[i]
		writeJSON(a[4], runVariant(c, a[3], p, st, v, rand.New(rand.NewSource(seed+int64(i)))))
	}
	workers["determinism"] = func(c *Ctx, cs *Case) {
		p, st := mk(cs, cs.Seed)
		var ref logSum
		casef := filepath.Join(c.dir, "case.json")
		writeJSON(casef, cs)
		self, _ := os.Executable()
		for i, v := range detVariants(p.Cfg) {
			c.Log("variant %s", v.Name)
			var got logSum
			if v.SubCPU != "" {
				ts, err := exec.LookPath("taskset")
				if err != nil {
					continue
				}
				out := filepath.Join(c.dir, "v.json")
				cmd := exec.Command(ts, "-c", v.SubCPU, self, "sub", "variant", casef, fmt.Sprint(cs.Seed), fmt.Sprint(i), filepath.Join(c.dir, v.Name), out)
				if b, err := cmd.CombinedOutput(); err != nil {
					if bytes.Contains(b, []byte("taskset:")) {
						continue // not allowed here
					}
					c.Failf("variant %s: %v\n%s", v.Name, err, clipText(string(b), 8000))
				}
				b, err := os.ReadFile(out)
				must(err)
				must(json.Unmarshal(b, &got))
				c.Count("bound_processes", 1)
			} else {
				got = runVariant(c, filepath.Join(c.dir, v.Name), p, st, v, rand.New(rand.NewSource(cs.Seed+int64(i))))
			}
			c.Count("variants_run", 1)
			if i == 0 {
				ref = got
				for _, h := range got.Roots {
					c.Distinct("r %s", h)
				}
				continue
			}
			for b := range ref.Roots {
				h := int64(-1)
				if b > 0 {
					h = st[b-1].H
				}
				for s := range ref.Logs[b] {
					if got.Logs[b][s] != ref.Logs[b][s] {
						c.Failf("block %d (height %d): variant %s appended to shard %d the entries %s, variant %s %s", b, h, v.Name, s, got.Logs[b][s], "one-goroutine", ref.Logs[b][s])
					}
				}
				if ref.Roots[b] != got.Roots[b] {
					c.Failf("block %d (height %d): variant %s publishes root hash %s, variant one-goroutine %s", b, h, v.Name, got.Roots[b], ref.Roots[b])
				}
				c.Eval(1)
				c.Count("roots_compared", 1)
			}
		}
		c.Sample("%s: %d blocks, final root %s under %d variants", cs.S["prof"], len(st), ref.Roots[len(ref.Roots)-1][:16], c.res.Stats["variants_run"])
	}
	register(&Check{ID: "C04", Assume: []string{"operations on one key keep their order; distinct keys may be prepared and applied in any order within the shard-parallel protocol"},
		Rule: "A case is one seeded block history executed by ten databases that differ in goroutines, order, processors, history, file and buffer sizes, surplus preparations, reopens and prunes; root hashes and appended entries are compared after every block. Distinct non-trivial: different root hashes compared.",
		Cases: func(tier string, seed int64) (out []Case) {
			n := int64(1)
			if tier == "thorough" {
				n = 12
			}
			for s := int64(0); s < n; s++ {
				for _, nm := range []string{"compact8", "threshold", "wide", "move", "mix", "dense", "edge", "deact", "grid"} {
					out = append(out, Case{Worker: "determinism", Name: nm, Seed: seed*100 + s, Slots: 1, NoIdle: true, S: map[string]string{"prof": nm}})
				}
			}
			return
		}, Need: map[string]int64{"roots_compared": 1000}})

	// two databases side by side: one stays open, the other is closed and reopened
	workers["reopen"] = func(c *Ctx, cs *Case) {
		p, st := mk(cs, cs.Seed)
		p.History = cs.n("history", 1) == 1
		applyCfg(p.Cfg)
		r := c.rnd
		a := openDB(filepath.Join(c.dir, "a"), p.History)
		b := openDB(filepath.Join(c.dir, "b"), p.History)
		m := newModel(false)
		pruned := int64(-1)
		sa, sb := newShadow(a.dir), newShadow(b.dir)
		for bi, s := range st {
			c.Log("block %d height %d:%s", bi, s.H, opsText(s.Ops))
			a.block(s.H, s.Ops, p.Par, nil)
			b.block(s.H, s.Ops, p.Par, nil)
			m.apply(s.H, s.Ops)
			c.Count("blocks", 1)
			cmp := func(when string) {
				if x, y := a.m.GetRootHash(), b.m.GetRootHash(); !bytes.Equal(x, y) {
					c.Failf("height %d, %s: root hash %x, the database that stayed open has %x", s.H, when, y, x)
				}
				if x, y := a.m.GetCurrHeight(), b.m.GetCurrHeight(); x != y {
					c.Failf("height %d, %s: current height %d, the database that stayed open has %d", s.H, when, y, x)
				}
				if x, y := a.m.ActiveCount(), b.m.ActiveCount(); x != y {
					c.Failf("height %d, %s: active count %d, the database that stayed open has %d", s.H, when, y, x)
				}
				c.Eval(3)
				for i := 0; i < 60; i++ {
					k := m.order[r.Intn(len(m.order))]
					if i%4 == 3 {
						k = p.Pool[r.Intn(len(p.Pool))]
					}
					if i < len(s.Ops) && i%4 == 1 {
						k = s.Ops[r.Intn(len(s.Ops))].Key
					}
					kb := append([]byte{}, k[:]...)
					x, y := a.m.GetEntry(kb), b.m.GetEntry(kb)
					if fmt.Sprintf("%v", x) != fmt.Sprintf("%v", y) {
						c.Failf("height %d, %s: entry of %x is %v, the database that stayed open has %v", s.H, when, k, y, x)
					}
					c.Eval(1)
					if i%3 == 0 {
						e1, p1, err1 := a.m.GetProof(kb)
						e2, p2, err2 := b.m.GetProof(kb)
						if (err1 == nil) != (err2 == nil) || !bytes.Equal(e1, e2) || !bytes.Equal(p1, p2) {
							c.Failf("height %d, %s: proof of %x differs (%v, %v)\n%x\n%x", s.H, when, k, err1, err2, p1, p2)
						}
						c.Eval(1)
						c.Count("proofs_compared", 1)
					}
					if p.History && s.H > 0 {
						h := uint64(r.Int63n(s.H + 1))
						// what a read between the pruned height and an older covering version
						// gives depends on when the key-value database compacts: not compared
						if int64(h) <= pruned || pruned < 0 {
							x, y := a.m.GetEntryAtHeight(kb, h), b.m.GetEntryAtHeight(kb, h)
							if fmt.Sprintf("%v", x) != fmt.Sprintf("%v", y) {
								c.Failf("height %d, %s: entry of %x at height %d is %v, the database that stayed open has %v", s.H, when, k, h, y, x)
							}
							c.Eval(1)
							c.Count("history_compared", 1)
						}
					}
				}
			}
			if r.Intn(100) < int(cs.n("prunePct", 0)) {
				h := s.H - 2 - int64(r.Intn(12))
				if h > 0 {
					c.Log("prune before %d", h)
					a.m.PruneBeforeHeight(h)
					b.m.PruneBeforeHeight(h)
					if h > pruned {
						pruned = h
					}
					c.Count("prunes", 1)
				}
			}
			cmp("before closing")
			if r.Intn(100) < int(cs.n("reopenPct", 40)) {
				k := 1
				if r.Intn(3) == 0 {
					k = 2 + r.Intn(2)
				}
				c.Log("reopen %d times after height %d", k, s.H)
				for i := 0; i < k; i++ {
					b.close()
					b = openDB(b.dir, p.History)
					c.Count("reopens", 1)
				}
				cmp(fmt.Sprintf("after %d reopens", k))
				c.Distinct("%d %x", s.H, b.m.GetRootHash())
				if bi%5 == 4 {
					var ka, kb []string
					a.m.ScanAll(func(k, v []byte) { ka = append(ka, string(k)+string(v)) })
					b.m.ScanAll(func(k, v []byte) { kb = append(kb, string(k)+string(v)) })
					if len(ka) != len(kb) {
						c.Failf("height %d: a scan returns %d keys after reopening, %d in the database that stayed open", s.H, len(kb), len(ka))
					}
					for i := range ka {
						if ka[i] != kb[i] {
							c.Failf("height %d: scans differ after reopening at %x", s.H, kb[i][:8])
						}
					}
					c.Eval(int64(len(ka)))
					c.Count("scans_compared", 1)
				}
			}
			// the logs must be the same, position by position
			for i := range sa.sh {
				x, e1 := sa.sh[i].advance(-1)
				y, e2 := sb.sh[i].advance(-1)
				if e1 != nil || e2 != nil {
					c.Failf("height %d: entry logs unreadable: %v %v", s.H, e1, e2)
				}
				if len(x) != len(y) {
					c.Failf("height %d: shard %d got %d entries, in the database that stayed open %d", s.H, i, len(y), len(x))
				}
				for j := range x {
					if x[j].Hash != y[j].Hash || x[j].Pos != y[j].Pos {
						c.Failf("height %d: shard %d: entry %d at %d differs from that of the database that stayed open (entry %d at %d)", s.H, i, y[j].SN, y[j].Pos, x[j].SN, x[j].Pos)
					}
				}
				c.Count("log_entries_compared", int64(len(x)))
			}
		}
		c.Sample("%s: %d blocks, %d reopens, %d prunes, final height %d, root %x, equal to the twin that stayed open", cs.S["prof"], len(st), c.res.Stats["reopens"], c.res.Stats["prunes"], b.m.GetCurrHeight(), b.m.GetRootHash()[:8])
		a.close()
		b.close()
	}
	register(&Check{ID: "C24", Assume: []string{"the directory is opened with the sizes and the history setting it was created with"},
		Rule: "A case is one seeded block history executed by two databases, one of which is closed and reopened (one to three times in a row) after about 40% of the blocks; root hash, height, count, entries, proofs, past heights, scans and the appended log entries with their positions are compared. Distinct non-trivial: different (height, root) states reopened.",
		Cases: func(tier string, seed int64) (out []Case) {
			n := int64(1)
			if tier == "thorough" {
				n = 12
			}
			for s := int64(0); s < n; s++ {
				for i, nm := range []string{"compact8", "compact", "move", "mix", "dense", "edge", "deact", "grid", "bigval", "plain"} {
					p := map[string]int64{"history": int64((i + int(s)) % 2), "reopenPct": 40}
					if nm == "dense" {
						p["reopenPct"] = 15
					}
					out = append(out, Case{Worker: "reopen", Name: nm, Seed: seed*100 + s, P: p, S: map[string]string{"prof": nm}})
				}
				for _, nm := range []string{"compact", "move", "mix", "threshold"} {
					out = append(out, Case{Worker: "reopen", Name: nm + "+prune", Seed: seed*100 + 50 + s, P: map[string]int64{"history": 1, "reopenPct": 40, "prunePct": 25}, S: map[string]string{"prof": nm}})
				}
			}
			return
		}, Need: map[string]int64{"reopens": 100, "log_entries_compared": 10000}})
	_ = sort.Strings
}
