package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"

	"github.com/smartbch/moeingads/indextree"
	"github.com/tecbot/gorocksdb"
)

// watchCompaction follows the entry logs and tells the entries that a block changed from
// those that compaction moved.
func (rn *Run) watchCompaction(bound bool) {
	c := rn.c
	cur := map[K]*RawEntry{}
	sh := newShadow(rn.dir)
	for _, s := range sh.sh {
		es, err := s.advance(-1)
		if err != nil {
			c.Failf("entry log unreadable: %v", err)
		}
		for _, e := range es {
			if !e.dummy() {
				cur[kOf(e.Key)] = e
			}
		}
	}
	oldest := [shardCount]int64{}
	backlog := [shardCount]int64{} // see finding compaction-one-round-per-block
	rn.hooks = append(rn.hooks, func(rn *Run) {
		meta := rn.d.meta()
		if meta == nil {
			c.Failf("harness: no meta data")
		}
		gone := map[string]bool{}
		type mv struct {
			old, new *RawEntry
		}
		var moved []mv
		var appended [shardCount]int64
		for i, s := range sh.sh {
			es, err := s.advance(-1)
			if err != nil {
				c.Failf("height %d: entry log unreadable: %v", rn.h, err)
			}
			appended[i] = int64(len(es))
			for _, e := range es {
				for _, sn := range e.Deact {
					gone[fmt.Sprintf("%d.%d", i, sn)] = true
				}
				if e.dummy() {
					continue
				}
				k := kOf(e.Key)
				o := cur[k]
				if e.Height == rn.h && (o == nil || o.Height != rn.h) {
					cur[k] = e // changed by the block
					c.Count("entries_changed", 1)
					continue
				}
				// a moved entry
				if o == nil {
					c.Failf("height %d: shard %d appends key %x of height %d, which had no entry", rn.h, i, k, e.Height)
				}
				if !bytes.Equal(o.Value, e.Value) || !bytes.Equal(o.NextKey, e.NextKey) || o.Height != e.Height || o.LastHeight != e.LastHeight {
					c.Failf("height %d: moved entry of key %x holds value %s next %s heights (%d,%d); before it held value %s next %s heights (%d,%d)", rn.h, k,
						hx(e.Value), hx(e.NextKey), e.Height, e.LastHeight, hx(o.Value), hx(o.NextKey), o.Height, o.LastHeight)
				}
				if o.SN >= e.SN {
					c.Failf("height %d: moved entry of key %x has serial number %d after %d", rn.h, k, e.SN, o.SN)
				}
				if rn.m.ents[k] == nil {
					c.Failf("height %d: moved entry of key %x, which is not live", rn.h, k)
				}
				moved = append(moved, mv{o, e})
				cur[k] = e
				c.Eval(1)
				c.Count("entries_moved", 1)
				c.Distinct("move %d %d age%d", i, o.SN>>11, clip(rn.h-o.Height))
			}
		}
		for _, m := range moved {
			if !gone[fmt.Sprintf("%d.%d", m.old.Shard, m.old.SN)] {
				c.Failf("height %d: key %x was moved from serial number %d to %d, but the old copy was not deactivated", rn.h, m.old.Key, m.old.SN, m.new.SN)
			}
		}
		var kept int64
		big, beyond := false, false
		for i, s := range sh.sh {
			oa := meta.GetOldestActiveTwigID(i)
			// a block compacts one group of leaves per shard, however many it fills
			if rounds := oa - oldest[i]; rounds > 0 {
				backlog[i] += appended[i] - 2048*rounds
				if backlog[i] < 0 {
					backlog[i] = 0
				}
			}
			if oa < oldest[i] {
				c.Failf("height %d: oldest active group of shard %d went from %d back to %d", rn.h, i, oldest[i], oa)
			}
			if oa > oldest[i] {
				c.Count("groups_compacted", oa-oldest[i])
				oldest[i] = oa
				for sn, e := range s.live {
					if sn>>11 < oa {
						c.Failf("height %d: live entry %x still has serial number %d in group %d, which counts as compacted (oldest active %d)", rn.h, e.Key, sn, sn>>11, oa)
					}
				}
			}
			k := s.nextSN - oa*2048
			kept += k
			if k > 14*2048 {
				big = true
				beyond = beyond || k > 14*2048+backlog[i]
			}
		}
		c.Max("max_kept_entries", kept)
		c.Eval(1)
		if bound && big && kept > 2*int64(len(rn.m.ents))+1000 {
			if beyond {
				c.Failf("height %d: %d entries are kept for %d live ones", rn.h, kept, len(rn.m.ents))
			}
			c.KnownOr("compaction-one-round-per-block", "blocks append more than 2048 entries to a shard, and each compacts only one group of 2048: at height %d %d entries are kept for %d live ones", rn.h, kept, len(rn.m.ents))
		}
		for k, e := range cur {
			if rn.m.ents[k] == nil {
				delete(cur, k)
				_ = e
			}
		}
	})
}

// watchPruning checks what pruning releases.
func (rn *Run) watchPruning(compact bool) {
	c := rn.c
	goneAt := [shardCount][]int64{} // height at which each group of leaves had been compacted
	rn.hooks = append(rn.hooks, func(rn *Run) {
		if meta := rn.d.meta(); meta != nil {
			for i := range goneAt {
				for int64(len(goneAt[i])) < meta.GetOldestActiveTwigID(i) {
					goneAt[i] = append(goneAt[i], rn.h)
				}
			}
		}
	})
	rn.afterPrune = func(h int64) {
		meta := rn.d.meta()
		if meta == nil {
			return
		}
		for i, s := range rn.sh.sh {
			lp := meta.GetLastPrunedTwig(i)
			oa := meta.GetOldestActiveTwigID(i)
			// progress: all but a few of the groups that can go are gone
			can := int64(0)
			for int(can) < len(goneAt[i]) && goneAt[i][can] < h && can < oa {
				can++
			}
			if can-lp > 8 {
				c.Failf("after pruning before height %d shard %d still keeps groups from %d on, although those up to %d were compacted before", h, i, lp+1, can-1)
			}
			c.Eval(1)
			if lp <= 0 {
				continue
			}
			may := can // what this or an earlier prune may have released
			for int(may) < len(goneAt[i]) && goneAt[i][may] < rn.pruneAll && may < oa {
				may++
			}
			if lp > may {
				c.Failf("pruning before height %d removed group %d of shard %d, which is still needed (first group to keep: %d)", h, lp, i, may)
			}
			// files that lie wholly before what is still needed are gone
			need := s.twigs[lp].firstPos
			ids, bs, err := listLog(s.dir)
			if err != nil {
				c.Failf("%v", err)
			}
			for _, id := range ids {
				if (id+1)*bs <= need {
					c.Failf("after pruning group %d of shard %d, the entry file %d (up to offset %d) is still there; the oldest kept entry is at %d", lp, i, id, (id+1)*bs, need)
				}
			}
			c.Max("entry_files_kept", int64(len(ids)))
			c.Count("released_checks", 1)
		}
		if compact {
			if db, ok := rn.d.kvdb().(*indextree.RocksDB); ok {
				db.DB().CompactRange(gorocksdb.Range{})
				it := db.Iterator([]byte{0}, []byte{1})
				n, old := 0, 0
				var last []byte
				for it.Valid() {
					k := append([]byte{}, it.Key()...)
					if len(k) == 17 {
						n++
						if hh := int64(binary.BigEndian.Uint64(k[9:])); hh < h && hh >= 0 {
							// the newest one of a key may still be needed for later heights
							if len(last) == 17 && bytes.Equal(last[:9], k[:9]) {
								old++
							}
							last = k
						}
					}
					it.Next()
				}
				it.Close()
				if old > 0 {
					c.Failf("after pruning before height %d and compacting the key-value database, %d of %d index records are older and superseded below that height", h, old, n)
				}
				c.Eval(1)
				c.Count("kv_compactions", 1)
			}
		}
	}
}

var _ = os.Remove
