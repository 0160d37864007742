package main

import "math/rand"

var cfgSmall = Cfg{HPFile: 1 << 17, HPBuf: 1 << 13, Reap: 100, RootCache: 100}
var cfgTiny = Cfg{HPFile: 1 << 16, HPBuf: 1 << 12, Reap: 100, RootCache: 100}

// profile returns a named workload; all choices come from r.
func profile(name string, r *rand.Rand) *Prof {
	p := &Prof{Name: name, Cfg: cfgSmall, H0: 1, Par: 1, ScanEvery: 8, Proofs: 12, PDel: 0.2, Val: valMix(1500)}
	switch name {
	case "mix": // several kinds of keys at once, history kept
		p.History, p.Blocks, p.MinOps, p.MaxOps, p.MaxGap = true, 40, 300, 1200, 3
		p.Pool = append(append(poolShard(r, 500, 1, 2), poolGrid(r, 12, 12)...), poolEdge(r)...)
		p.PDelSet, p.PSetDel, p.PPrep = 0.02, 0.02, 0.05
	case "dense": // a few keys, each touched in most blocks
		p.Blocks, p.MinOps, p.MaxOps, p.ScanEvery = 400, 1, 40, 3
		p.Pool = append(poolWide(r, 30), poolEdge(r)[:12]...)
		p.PDel, p.PDelSet, p.PSetDel, p.PPrep = 0.35, 0.05, 0.08, 0.1
		p.Val = valMix(200)
	case "edge": // neighbours of guards and of every partition boundary, wiped now and then
		p.Blocks, p.MinOps, p.MaxOps, p.ScanEvery = 150, 5, 120, 3
		p.Pool = poolEdge(r)
		p.PDel, p.PDelSet, p.PSetDel, p.PPrep, p.Wipe = 0.4, 0.05, 0.05, 0.08, 9
		p.Val, p.Par = valMix(300), 8
	case "grid": // equal low six bytes under many 16-bit prefixes
		p.Blocks, p.MinOps, p.MaxOps = 120, 20, 300
		p.Pool = poolGrid(r, 20, 16)
		p.PDel, p.PSetDel, p.Wipe = 0.4, 0.03, 17
		p.History = true
	case "wide": // many keys over all shards, applied in parallel
		p.Blocks, p.MinOps, p.MaxOps = 30, 800, 2500
		p.Pool = poolWide(r, 6000)
		p.Par, p.PDel, p.PPrep, p.PDelSet = 8, 0.25, 0.05, 0.02
		p.Val = valMix(400)
	case "compact": // one or two shards rewritten over and over
		p.Cfg = cfgTiny
		p.Blocks, p.MinOps, p.MaxOps = 90, 1200, 2400
		p.Pool = append(poolShard(r, 1200, 3, 4), poolShard(r, 800, 3)...)
		p.Pool = cleanPool(p.Pool)
		p.HotFrom = len(p.Pool) - 800
		p.PDel, p.Val = 0.1, valMix(300)
		p.History, p.MaxGap = true, 2
	case "move": // old entries that compaction has to move
		p.Cfg = cfgTiny
		p.Blocks, p.MinOps, p.MaxOps = 90, 1500, 2600
		p.Pool = cleanPool(append(poolShard(r, 2500, 1, 6), poolShard(r, 900, 1, 6)...))
		p.HotFrom = len(p.Pool) - 900
		p.PDel, p.Val = 0.01, valMix(200)
		p.History, p.MaxGap = true, 2
	case "compact8": // every shard compacts
		p.Cfg = cfgTiny
		p.Blocks, p.MinOps, p.MaxOps, p.ScanEvery = 60, 6000, 9000, 15
		p.Pool, p.HotFrom = poolWide(r, 8000), 3500
		p.PDel, p.Val, p.Par = 0.15, valMix(100), 8
	case "flood": // every key of a shard overwritten in every block
		p.Cfg = cfgTiny
		p.Blocks, p.MinOps, p.MaxOps, p.ScanEvery = 40, 9000, 14000, 15
		p.Pool = poolShard(r, 5000, 5)
		p.PDel, p.Val = 0.02, valSmall
	case "threshold": // live and dead entries in balance: compaction starts and stops
		p.Cfg = cfgTiny
		p.Blocks, p.MinOps, p.MaxOps, p.ScanEvery, p.Fill = 160, 50, 600, 15, true
		p.Pool = poolShard(r, 26000, 2)
		p.PDel, p.Val = 0.08, valSmall
	case "settled": // groups full of entries that nothing changes, which compaction moves as a whole
		p.Cfg = cfgTiny
		p.Blocks, p.MinOps, p.MaxOps, p.ScanEvery, p.Fill = 75, 600, 1000, 15, true
		p.Pool = cleanPool(append(poolShard(r, 8200, 6), poolShard(r, 600, 6)...))
		p.HotFrom, p.ColdIn = len(p.Pool)-600, 5000
		p.PDel, p.Val = 0.0003, valSmall
	case "bigval": // values that cross buffers
		p.Cfg = Cfg{HPFile: 1 << 17, HPBuf: 1 << 14, Reap: 100, RootCache: 100}
		p.Blocks, p.MinOps, p.MaxOps = 60, 50, 250
		p.Pool = poolShard(r, 200, 0, 5)
		p.Val = valBytes(9000)
	case "deact": // blocks that only delete: many deactivations and few appends
		p.Blocks, p.MinOps, p.MaxOps, p.Wipe = 60, 200, 2200, 3
		p.Pool = poolShard(r, 1600, 2, 6)
		p.PDel, p.Val = 0.2, valSmall
		p.History = true
	case "plain": // the sizes as shipped
		p.Cfg = defaultCfg
		p.Cfg.HPFile = 64 << 20
		p.Cfg.HPBuf = 512 << 10
		p.Blocks, p.MinOps, p.MaxOps = 25, 300, 1500
		p.Pool = append(poolWide(r, 1500), poolEdge(r)...)
		p.PDelSet, p.PSetDel, p.PPrep = 0.02, 0.02, 0.05
		p.History = true
	default:
		panic("harness: no profile " + name)
	}
	return p
}

func init() {
	workers["db"] = func(c *Ctx, cs *Case) {
		p := profile(cs.S["prof"], c.rnd)
		p.Blocks = int(cs.n("blocks", int64(p.Blocks)))
		p.PReopen = float64(cs.n("reopenPct", int64(p.PReopen*100))) / 100
		p.PPrune = float64(cs.n("prunePct", int64(p.PPrune*100))) / 100
		p.PruneLag = cs.n("lag", p.PruneLag)
		p.Proofs = int(cs.n("proofs", int64(p.Proofs)))
		p.TailDel = float64(cs.n("tail", 0)) / 100
		p.KeepOpen = cs.n("noReopenAfterPrune", 0) == 1
		p.ScanEvery = int(cs.n("scan", int64(p.ScanEvery)))
		if cs.n("history", -1) >= 0 {
			p.History = cs.n("history", 0) == 1
		}
		rn := newRun(c, p, "a")
		switch cs.S["hook"] {
		case "compact":
			rn.watchCompaction(cs.n("bound", 0) == 1)
		case "prune":
			rn.watchPruning(cs.n("cprune", 0) == 1)
		}
		rn.run()
		rn.destroy()
		c.Count("runs", 1)
	}

	dbCases := func(on string, tier string, seed int64, extra map[string]int64, hook string, names ...string) (out []Case) {
		n := int64(4)
		if extra["n"] > 0 {
			n = extra["n"]
		}
		if tier == "thorough" {
			n = 12
		}
		for s := int64(0); s < n; s++ {
			for _, nm := range names {
				p := map[string]int64{}
				for k, v := range extra {
					p[k] = v
				}
				if tier == "thorough" {
					pr := profile(nm, rand.New(rand.NewSource(1)))
					p["blocks"] = int64(pr.Blocks) * (2 + s%3)
				}
				out = append(out, Case{Worker: "db", Name: nm + sfx(extra), Seed: seed*1000 + s, P: p, S: map[string]string{"prof": nm, "on": on, "hook": hook}})
			}
		}
		return
	}
	assumeDB := []string{"one process opens the directory at a time and follows the documented phases: reads and preparations outside BeginWrite..EndWrite, every changed key prepared first", "keys are 8 bytes, other than the two guards"}

	register(&Check{ID: "C01", Assume: assumeDB,
		Rule: "A case is one seeded block history on a fresh database; after every block each touched key, its neighbours and 40 random keys are read and compared with a replayed map, every few blocks the whole scan is. Distinct non-trivial: different (key, height, live/absent, cause) read checks and different full-scan contents.",
		Cases: func(tier string, seed int64) (out []Case) {
			out = dbCases("reads", tier, seed, nil, "", "compact8", "wide", "mix", "dense", "edge", "grid", "compact", "bigval", "deact", "plain")
			out = append(out, dbCases("reads", tier, seed+1, nil, "", "dense", "edge", "grid", "mix")...)
			return
		}, Need: map[string]int64{"full_scans": 20, "blocks": 300}})
	register(&Check{ID: "C02", Assume: assumeDB,
		Rule: "A case is one seeded block history on a fresh database; after every block the next key and both heights of each touched key and neighbour, and every few blocks of all live entries (guards included), are compared with those a replayed sorted map gives. Distinct non-trivial: different (key, height, next) chain links compared.",
		Cases: func(tier string, seed int64) (out []Case) {
			out = dbCases("chain lasth", tier, seed, nil, "", "compact8", "wide", "mix", "dense", "edge", "grid", "compact", "deact", "plain")
			out = append(out, dbCases("chain lasth", tier, seed+1, map[string]int64{"reopenPct": 10}, "", "dense", "edge", "grid", "mix")...)
			return
		}, Need: map[string]int64{"chain_walks": 20}})
	register(&Check{ID: "C03", Assume: append(assumeDB, "SHA-256 as implemented in the Go standard library"),
		Rule: "A case is one seeded block history; after every block an independent reader parses the bytes newly appended to the eight entry logs and an independent Merkle calculator derives the root; every few blocks the set of active leaves is compared with the live keys. Distinct non-trivial: different root hashes recomputed.",
		Cases: func(tier string, seed int64) (out []Case) {
			out = dbCases("shadow", tier, seed, nil, "", "compact8", "move", "compact", "wide", "mix", "dense", "edge", "bigval", "deact", "plain")
			out = append(out, dbCases("shadow", tier, seed+1, map[string]int64{"reopenPct": 10}, "", "deact", "edge", "compact", "mix")...)
			out = append(out, dbCases("shadow", tier, seed+2, map[string]int64{"tail": 60, "n": 2}, "", "move", "deact", "wide")...)
			return
		}, Need: map[string]int64{"roots_recomputed": 300, "live_sets_compared": 20, "dummy_entries": 100}})
	register(&Check{ID: "C05", Assume: append(assumeDB, "SHA-256 as implemented in the Go standard library"),
		Rule: "A case is one seeded block history; after every block proofs are taken for random live keys, the guards, the lowest and highest live serial number of each shard and those at leaf-group boundaries, and checked by an independent verifier against the independently recomputed shard root. Distinct non-trivial: different (shard, leaf group, 32-leaf range, path length) of proved leaves.",
		Cases: func(tier string, seed int64) (out []Case) {
			out = dbCases("shadow proofs", tier, seed, map[string]int64{"proofs": 30, "scan": 1000}, "", "compact8", "move", "compact", "wide", "mix", "edge", "bigval", "deact", "plain")
			out = append(out, dbCases("shadow proofs", tier, seed+1, map[string]int64{"proofs": 40, "reopenPct": 12, "scan": 1000}, "", "mix", "compact", "deact", "wide")...)
			out = append(out, dbCases("shadow proofs", tier, seed+2, map[string]int64{"proofs": 40, "prunePct": 20, "lag": 25, "scan": 1000, "history": 1}, "", "compact")...)
			return
		}, Need: map[string]int64{"proofs_verified": 5000, "twigs_compacted": 10}})
	register(&Check{ID: "C09", Assume: append(assumeDB, "heights are non-negative and increase from block to block"),
		Rule: "A case is one seeded block history with history kept; after every block 60 reads at past heights (random, exactly at, one before and one after a version; present and absent keys) are compared with the replayed versions. Distinct non-trivial: different (age of the version, distance of the read height from it, number of versions of the key).",
		Cases: func(tier string, seed int64) (out []Case) {
			out = dbCases("history lasth", tier, seed, map[string]int64{"history": 1, "scan": 1000}, "", "mix", "dense", "edge", "grid", "compact", "deact", "plain", "wide", "move")
			out = append(out, dbCases("history lasth", tier, seed+1, map[string]int64{"history": 1, "reopenPct": 15, "scan": 1000}, "", "mix", "dense", "grid", "compact")...)
			out = append(out, dbCases("history lasth moves", tier, seed+2, map[string]int64{"history": 1, "prunePct": 20, "lag": 15, "scan": 1000, "blocks": 110, "noReopenAfterPrune": 1}, "", "move", "compact")...)
			return
		}, Need: map[string]int64{"history_hits": 5000, "reopens": 10}})
	register(&Check{ID: "C10", Assume: assumeDB,
		Rule: "A case is one seeded block history with pruning (lags from 3 to 40 blocks) and reopening in between; after every block and every prune, reads, scan, next keys, roots recomputed from the logs, proofs and past heights are compared with the model; after each prune the kept files, the kept groups of leaves and (after a compaction of the key-value database) the kept index records are examined. Distinct non-trivial: different (key, height, next) reads, (shard, pruned group), proved leaves and history distances.",
		Cases: func(tier string, seed int64) (out []Case) {
			on := "reads chain lasth shadow proofs history"
			for i, l := range []int64{3, 12, 25, 40} {
				out = append(out, dbCases(on, tier, seed+10*int64(i), map[string]int64{"prunePct": 20, "lag": l, "reopenPct": 4, "history": 1, "scan": 7, "n": 3}, "prune", "compact")...)
			}
			out = append(out, dbCases(on, tier, seed+50, map[string]int64{"prunePct": 15, "lag": 8, "cprune": 1, "history": 1, "scan": 9, "n": 3}, "prune", "compact", "mix", "dense", "plain")...)
			out = append(out, dbCases(on, tier, seed+60, map[string]int64{"prunePct": 20, "lag": 8, "history": 0, "scan": 9, "n": 3}, "prune", "compact", "deact")...)
			out = append(out, dbCases(on, tier, seed+70, map[string]int64{"prunePct": 25, "lag": 5, "reopenPct": 10, "history": 1, "scan": 9, "n": 3}, "prune", "compact8", "grid")...)
			return
		}, Need: map[string]int64{"twigs_pruned": 40, "released_checks": 5, "history_hits": 2000, "reopens": 20}})
	register(&Check{ID: "C11", Assume: assumeDB,
		Rule: "A case is one seeded block history that rewrites a bounded set of keys; every entry appended to the logs is classified as changed by its block or moved, and a moved one compared with the copy it replaces; reads, scan, next keys, heights, live leaves and roots are checked too; the number of kept entries is bounded. Distinct non-trivial: different (shard, source group, age) of moved entries and different reads.",
		Cases: func(tier string, seed int64) (out []Case) {
			on := "reads chain lasth shadow proofs"
			out = dbCases(on, tier, seed, map[string]int64{"bound": 1, "scan": 6, "n": 3}, "compact", "move")
			out = append(out, dbCases(on, tier, seed+1, map[string]int64{"scan": 10, "n": 3}, "compact", "compact8", "deact")...)
			out = append(out, dbCases(on+" history", tier, seed+2, map[string]int64{"bound": 1, "history": 1, "reopenPct": 10, "scan": 10, "n": 3}, "compact", "compact", "move")...)
			out = append(out, dbCases(on, tier, seed+5, map[string]int64{"bound": 1, "scan": 15, "n": 2}, "compact", "threshold", "flood", "settled")...)
			out = append(out, dbCases(on, tier, seed+4, map[string]int64{"tail": 60, "scan": 10, "n": 3}, "compact", "move", "compact")...)
			out = append(out, dbCases(on, tier, seed+3, map[string]int64{"bound": 1, "history": 1, "prunePct": 15, "lag": 10, "scan": 10, "n": 3}, "compact", "compact", "move")...)
			return
		}, Need: map[string]int64{"entries_moved": 1000, "groups_compacted": 50}})
}

func sfx(m map[string]int64) string {
	s := ""
	if m["reopenPct"] > 0 {
		s += "+reopen"
	}
	if m["prunePct"] > 0 {
		s += "+prune"
	}
	if m["tail"] > 0 {
		s += "+tail"
	}
	return s
}

func init() {
	crashCases := func(mode, tier string, seed int64) (out []Case) {
		n, images := int64(2), int64(70)
		if tier == "thorough" {
			n, images = 10, 500
		}
		if mode == "kill" {
			for s := int64(0); s < n; s++ {
				out = append(out, Case{Worker: "flushwait", Name: "one-processor", Seed: seed*100 + s, Env: []string{"GOMAXPROCS=1"}})
			}
		}
		for s := int64(0); s < n; s++ {
			for i, nm := range []string{"compact", "twig", "twigbuf", "small"} {
				p := map[string]int64{"images": images, "prof": int64(i)}
				if mode == "kill" {
					p["nested"] = 2
				}
				out = append(out, Case{Worker: "crash", Name: mode + "-" + nm, Seed: seed*100 + s, Slots: 2, NoIdle: true,
					P: p, S: map[string]string{"prof": nm, "mode": mode}})
			}
		}
		return
	}
	register(&Check{ID: "C07", Level: "fault_enumeration",
		Rule:   "A case is a recorded run (or a run of the two append-only files on one processor, in which everything must be in the files when the wait for their flush returns); at chosen file-changing system calls (stratified over creation, blocks, pruning, reopening, closing; some with the next write torn, some again during the recovery) the directory a kill would leave is rebuilt, reopened by the real code and compared with the model of the acknowledged or in-progress block, then continued. Distinct non-trivial: different (phase, call, file) crash points reopened.",
		Assume: []string{"a killed process loses nothing that a completed system call did; a write in progress may be cut at any byte", "strace reports the calls completely (self-check: the rebuilt final directory equals the real one)"},
		Cases:  func(tier string, seed int64) []Case { return crashCases("kill", tier, seed) },
		Need:   map[string]int64{"images": 100, "blocks_continued": 20, "flushes_waited_for": 100}})
	register(&Check{ID: "C08", Level: "fault_enumeration",
		Rule:   "As C07, but the rebuilt directory holds the contents forced to disk by fsync/fdatasync, plus an arbitrary part of the later writes (none, a torn prefix per file, or with holes in the data files) and of the later directory changes. Distinct non-trivial: different (phase, call, file) power-failure points reopened.",
		Assume: []string{"directory changes reach the disk in order and at the latest with the next synchronization of any file (journalling file system)", "strace reports the calls completely (self-check: the rebuilt final directory equals the real one)"},
		Cases:  func(tier string, seed int64) []Case { return crashCases("power", tier, seed) },
		Need:   map[string]int64{"images": 100, "blocks_continued": 20}})
}
