package main

// C17: the native index under sanitizers, by a C++ driver of its own and through the Go code.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/smartbch/moeingads/indextree"
	"github.com/smartbch/moeingads/indextree/b"
)

func init() {
	// the C++ driver
	workers["native"] = func(c *Ctx, cs *Case) {
		bin := os.Getenv("VH_DRV_" + cs.S["build"])
		if bin == "" {
			panic("harness: no driver build " + cs.S["build"])
		}
		args := []string{bin, cs.S["mode"], strconv.FormatInt(cs.Seed, 10), strconv.FormatInt(cs.n("ops", 10000), 10)}
		if cs.S["build"] == "plain" {
			args = append([]string{"valgrind", "-q", "--error-exitcode=9", "--leak-check=full", "--errors-for-leak-kinds=definite,indirect,possible"}, args...)
		}
		c.Log("%s", strings.Join(args, " "))
		cmd := exec.Command(args[0], args[1:]...)
		cmd.Env = append(os.Environ(), "ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1:strict_init_order=1",
			"UBSAN_OPTIONS=print_stacktrace=1", "TSAN_OPTIONS=halt_on_error=1:history_size=4")
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		err := cmd.Run()
		if err != nil {
			if ee, ok := err.(*exec.ExitError); !ok || ee.ExitCode() < 0 && strings.Contains(ee.String(), "killed") {
				panic(fmt.Sprintf("harness: %v", err))
			}
			c.Failf("%s driver, %s seed %d: %v\n%s\n%s", cs.S["build"], cs.S["mode"], cs.Seed, err, clipText(so.String(), 2000), clipText(se.String(), 8000))
		}
		done := false
		for _, l := range strings.Split(so.String(), "\n") {
			f := strings.Fields(l)
			if len(f) != 2 {
				continue
			}
			n, _ := strconv.ParseInt(f[1], 10, 64)
			switch f[0] {
			case "evals":
				c.Eval(n)
			case "max_size":
				c.Max("native_max_size", n)
			case "done":
				done = true
			default:
				c.Count("native_"+f[0], n)
			}
			c.Distinct("%s %s %s %d", cs.S["build"], cs.S["mode"], l, cs.Seed)
		}
		if !done {
			c.Failf("the %s driver ended early:\n%s", cs.S["build"], clipText(se.String(), 4000))
		}
		c.Count("native_runs_"+cs.S["build"], 1)
		c.Sample("%s %s: %s", cs.S["build"], cs.S["mode"], strings.Join(strings.Fields(so.String()), " "))
	}

	// what the Go code allocates in the native index must be given back
	workers["nativeleak"] = func(c *Ctx, cs *Case) {
		if !underAsan {
			panic("harness: needs the AddressSanitizer build")
		}
		r := c.rnd
		bz := func(k uint64) []byte { return binary.BigEndian.AppendUint64(nil, k) }
		measure := func(what string, rounds int, limit int64, f func()) {
			f() // settle
			base := nativeBytes()
			for i := 0; i < rounds; i++ {
				f()
			}
			grown := nativeBytes() - base
			c.Eval(1)
			c.Count("leak_rounds", int64(rounds))
			c.Max("bytes_kept_after_"+strings.ReplaceAll(what, " ", "_"), grown)
			c.Distinct("%s %d", what, cs.Seed)
			if grown > limit {
				c.Failf("%d rounds of %q leave %d more bytes allocated in native memory", rounds, what, grown)
			}
			c.Sample("%d rounds of %q: %d bytes more", rounds, what, grown)
		}
		fill := func(set func(k uint64, v int64), n int) (keys []uint64) {
			for i := 0; i < n; i++ {
				k := uint64(r.Intn(40))<<48 | uint64(r.Intn(1<<20))
				set(k, int64(i))
				keys = append(keys, k)
			}
			return
		}
		measure("trees filled and closed", 30, 20000, func() {
			t := b.TreeNew()
			fill(t.Set, 3000)
			t.Close()
		})
		t := b.TreeNew()
		keys := fill(t.Set, 2000)
		measure("enumerators opened and closed", 3000, 20000, func() {
			e, _ := t.Seek(near(r, keys))
			for i := r.Intn(6); i > 0; i-- {
				if r.Intn(2) == 0 {
					e.Next()
				} else {
					e.Prev()
				}
			}
			e.Close()
			e, _ = t.SeekFirst()
			e.Close()
			e, _ = t.Seek(^uint64(0))
			e.Prev()
			e.Close()
		})
		t.Close()
		empty := b.TreeNew()
		measure("enumerators of an empty tree", 2000, 20000, func() {
			e, _ := empty.Seek(r.Uint64())
			e.Next()
			e.Prev()
			e.Close()
			e, _ = empty.SeekFirst()
			e.Close()
		})
		empty.Close()
		nv := indextree.NewNVTreeMem(nil)
		nv.BeginWrite(1)
		keys = fill(func(k uint64, v int64) { nv.Set(bz(k), v) }, 2000)
		nv.EndWrite()
		measure("range iterators opened and closed", 3000, 20000, func() {
			lo, hi := near(r, keys), near(r, keys)
			if r.Intn(3) > 0 && lo > hi {
				lo, hi = hi, lo
			}
			if r.Intn(3) == 0 { // a few keys only, so that the end is reached
				hi = lo + uint64(r.Intn(3000))
			}
			walk := func(it indextree.Iterator) {
				switch r.Intn(3) {
				case 0:
					for i := r.Intn(5); i > 0; i-- {
						it.Next()
					}
				case 1:
					for i := 0; it.Valid() && i < 50; i++ {
						it.Next()
					}
					if !it.Valid() {
						c.Count("iterators_closed_at_their_end", 1)
					}
				}
				it.Close()
			}
			walk(nv.Iterator(bz(lo), bz(hi)))
			walk(nv.ReverseIterator(bz(lo), bz(hi)))
		})
		measure("keys written and deleted again", 300, 60000, func() {
			nv.BeginWrite(2)
			ks := map[uint64]bool{}
			for i := 0; i < 50; i++ {
				k := 50<<48 | r.Uint64()>>20
				nv.Set(bz(k), 5)
				ks[k] = true
			}
			for k := range ks {
				nv.Delete(bz(k))
			}
			nv.EndWrite()
		})
		nv.Close()
		measure("index trees filled and closed", 30, 20000, func() {
			nv := indextree.NewNVTreeMem(nil)
			nv.BeginWrite(1)
			fill(func(k uint64, v int64) { nv.Set(bz(k), v) }, 3000)
			nv.EndWrite()
			nv.Close()
		})
		// a whole database: the index of 12000 keys takes more than 200 kB
		dir := filepath.Join(c.dir, "db")
		must(os.MkdirAll(dir, 0755))
		d := openDB(dir, false)
		have := map[K]bool{}
		for h := int64(1); h <= 4; h++ {
			var ops []Op
			for i := 0; i < 3000; i++ {
				var k K
				binary.BigEndian.PutUint64(k[:], r.Uint64()|1)
				k[0] &= 0x7f
				if have[k] {
					continue
				}
				have[k] = true
				ops = append(ops, Op{Kind: 'S', Key: k, Val: []byte("v")})
			}
			d.block(h, ops, 1, nil)
		}
		d.close()
		measure("databases opened, scanned and closed", 8, 8*150000, func() {
			d := openDB(dir, false)
			n := 0
			d.m.ScanAll(func(key []byte, e []byte) { n++ })
			if n != len(have)+2 && n != len(have) {
				c.Failf("the reopened database has %d keys", n)
			}
			d.close()
		})
	}

	register(&Check{ID: "C17",
		Rule:   "A case is one run of the real native code under a sanitizer: the C++ driver (random and hostile histories of the C interface compared with std::map; AddressSanitizer with UndefinedBehaviorSanitizer and an exact balance of allocated bytes; ThreadSanitizer with threads on different prefixes and exact counts afterwards; valgrind for uninitialized memory and leaks), or the Go index, the whole database and its iterators in a build whose C++ is instrumented. Distinct non-trivial: different driver runs, index states and iterator walks.",
		Assume: []string{"one thread at a time per 16-bit prefix, and no operation that crosses prefixes while others write, as the block pipeline guarantees"},
		Cases: func(tier string, seed int64) (out []Case) {
			k := int64(1)
			if tier == "thorough" {
				k = 12
			}
			for s := int64(0); s < k; s++ {
				sd := seed*100 + s
				nat := func(build, mode string, ops int64, slots int) {
					out = append(out, Case{Worker: "native", Name: build + "-" + mode, Seed: sd, Slots: slots, NoIdle: true,
						P: map[string]int64{"ops": ops}, S: map[string]string{"build": build, "mode": mode}})
				}
				nat("tsan", "threads", 12000, 4)
				nat("asan", "threads", 12000, 4)
				nat("asan", "seq", 60000, 1)
				nat("plain", "seq", 4000, 1)
				for _, ks := range []string{"dense", "sparse", "edges", "tiny"} {
					out = append(out, Case{Worker: "btree", Name: ks, Seed: sd, Variant: "asan", S: map[string]string{"keys": ks}})
				}
				for _, ks := range []string{"edges", "grid"} {
					out = append(out, Case{Worker: "nvtree", Name: ks, Seed: sd, Variant: "asan", S: map[string]string{"keys": ks}})
				}
				out = append(out, Case{Worker: "nativeleak", Name: "all", Seed: sd, Variant: "asan"})
				for _, pn := range []string{"mix", "edge", "deact", "compact"} {
					out = append(out, Case{Worker: "db", Name: pn, Seed: sd, Variant: "asan", S: map[string]string{"prof": pn, "on": "reads chain"}})
				}
				out = append(out, Case{Worker: "native", Name: "asan-seq", Seed: sd + 50, NoIdle: true, P: map[string]int64{"ops": 40000}, S: map[string]string{"build": "asan", "mode": "seq"}})
			}
			return
		}, Need: map[string]int64{"native_thread_switches": 10000, "native_prefix_crossings": 10000, "native_ends_reached": 1000, "leak_rounds": 5000, "iterators_closed_at_their_end": 500}})
}
