package main

// I/O failures of single parts: a saved and loaded data tree, and a file being flushed.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/smartbch/moeingads/datatree"
	"github.com/smartbch/moeingads/indextree"
	"github.com/smartbch/moeingads/types"
	"github.com/tecbot/gorocksdb"
)

// ioTree builds the data tree that the seed fixes.
func ioTree(seed int64, dir string) (*datatree.Tree, int64, h32) {
	r := rand.New(rand.NewSource(seed))
	must(os.MkdirAll(dir, 0755))
	t := datatree.NewEmptyTree(1<<12, 1<<16, dir, "")
	sn := int64(0)
	flush := func() {
		t.DeactiviateEntry(sn)
		t.AppendEntry(datatree.DummyEntry(sn))
		sn++
	}
	for sn < 2048 {
		flush()
	}
	var root h32
	n := 2048*(1+r.Int63n(3)) + r.Int63n(2048)
	pend := 0
	for sn < 2048+n {
		e := &types.Entry{Key: []byte(fmt.Sprintf("%08d", sn)), Value: make([]byte, r.Intn(60)), NextKey: []byte(fmt.Sprintf("%08d", sn+1)), Height: sn, LastHeight: -1, SerialNum: sn}
		r.Read(e.Value)
		t.AppendEntry(e)
		sn++
		if pend < 60 && r.Intn(4) == 0 {
			t.DeactiviateEntry(2048 + r.Int63n(sn-2048))
			pend++
		}
		if r.Intn(700) == 0 {
			flush()
			pend = 0
			root = t.EndBlock()
			t.WaitForFlushing()
		}
	}
	flush()
	root = t.EndBlock()
	t.WaitForFlushing()
	return t, sn, root
}

func init() {
	// iosave SEED DIR MARKS: build a tree and save it
	subs["iosave"] = func(a []string) {
		seed, _ := strconv.ParseInt(a[0], 10, 64)
		f, err := os.Create(a[2])
		must(err)
		mark(f, "start 0")
		t, _, root := ioTree(seed, a[1])
		mark(f, "save")
		t.SaveMemToDisk()
		mark(f, "ack 1 %x", root)
		os.Exit(0)
	}
	// ioload SEED DIR REFDIR OUT: load the saved tree and compare it with one built anew
	subs["ioload"] = func(a []string) {
		seed, _ := strconv.ParseInt(a[0], 10, 64)
		null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
		os.Stdout = null
		res := Result{Stats: map[string]int64{}}
		t := datatree.LoadTree(1<<12, 1<<16, a[1])
		ref, n, root := ioTree(seed, a[2])
		if p, _ := panics(func() {
			datatree.CompareTreeTwigs(ref, t)
			datatree.CompareTreeTwigs(t, ref)
			datatree.CompareTreeNodes(ref, t)
		}); p != nil {
			res.Violation = fmt.Sprintf("the loaded tree differs from the saved one: %v", p)
		}
		r := rand.New(rand.NewSource(seed))
		for i := 0; i < 60 && res.Violation == ""; i++ {
			sn := r.Int63n(n)
			w := ref.GetActiveBit(sn)
			var g bool
			if p, _ := panics(func() { g = t.GetActiveBit(sn) }); p != nil || g != w {
				res.Violation = fmt.Sprintf("the loaded tree has entry %d active=%v (%v), the saved one %v", sn, g, p, w)
				break
			}
			want, err := datatree.CheckProof(ref.GetProof(sn))
			must(err)
			got, err := datatree.CheckProof(t.GetProof(sn))
			if err != nil {
				break // reported
			}
			res.Evals += 2
			p, err := parseProof(got)
			if !bytes.Equal(got, want) || err != nil || p.Root != root {
				res.Violation = fmt.Sprintf("the loaded tree gives another proof for entry %d than the saved one", sn)
			}
		}
		res.Completed = true
		writeJSON(a[3], res)
		os.Exit(0)
	}
	// ioflush KIND SEED DIR: start flushing to a file that cannot be written, and wait for it
	subs["ioflush"] = func(a []string) {
		seed, _ := strconv.ParseInt(a[1], 10, 64)
		r := rand.New(rand.NewSource(seed))
		signal.Ignore(syscall.SIGXFSZ)
		must(os.MkdirAll(a[2], 0755))
		type flusher interface {
			Append(b [][]byte) (int64, error)
			StartFlushing()
			WaitForFlushing()
		}
		if a[0] == "tree" {
			t, sn, _ := ioTree(seed, a[2])
			for i := 1 + r.Intn(50); i > 0; i-- {
				t.AppendEntry(datatree.DummyEntry(sn))
				sn++
			}
			os.Stderr.WriteString("FAILING\n")
			lim := uint64(r.Intn(100))
			must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: lim, Max: lim}))
			t.EndBlock()
			t.WaitForFlushing()
			syscall.Write(2, []byte("RELEASED\n"))
			time.Sleep(20 * time.Second)
			os.Exit(0)
		}
		f, err := datatree.NewHPFile(1<<14, 1<<18, a[2])
		must(err)
		var total uint64
		app := func() {
			b := make([]byte, 1+r.Intn(1000))
			_, err := f.Append([][]byte{b})
			must(err)
			total += uint64(len(b))
		}
		for i := r.Intn(5); i >= 0; i-- { // some flushes that succeed
			app()
			f.StartFlushing()
			f.WaitForFlushing()
		}
		app()
		os.Stderr.WriteString("FAILING\n")
		lim := total - 1
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: lim, Max: lim}))
		f.StartFlushing()
		f.WaitForFlushing()
		syscall.Write(2, []byte("RELEASED\n"))
		time.Sleep(20 * time.Second)
		os.Exit(0)
	}
}

// ioSaveWorker: a data tree is saved, or loaded, while calls on the saved files fail.
func ioSaveWorker(c *Ctx, cs *Case) {
	self, err := os.Executable()
	must(err)
	ss := strconv.FormatInt(cs.Seed, 10)
	base := filepath.Join(c.dir, "base")
	if out, err := exec.Command(self, "sub", "iosave", ss, base, filepath.Join(c.dir, "m")).CombinedOutput(); err != nil {
		c.Failf("building and saving a tree: %v\n%.4000s", err, out)
	}
	r := c.rnd
	n := int(cs.n("trials", 30))
	type trial struct {
		save bool
		f    ioFault
	}
	var ts []trial
	for i := 0; i < n; i++ {
		t := trial{save: i%2 == 0}
		file := []string{"/twigs.dat", "/twigs.dat", "/nodes.dat", "/mtree4YT.dat"}[r.Intn(4)]
		t.f = ioFault{paths: []string{file}, class: "saved", kind: "read", errno: "EIO", ever: r.Intn(2) == 0}
		span := map[string]int{"/twigs.dat": 13 * 5, "/nodes.dat": 40, "/mtree4YT.dat": 4097}[file]
		if t.save {
			t.f.kind, t.f.errno = "write", []string{"EIO", "ENOSPC"}[r.Intn(2)]
		}
		t.f.nth = 1 + r.Intn(span)
		if file == "/twigs.dat" && r.Intn(2) == 0 {
			t.f.nth = 1 + 13*r.Intn(5) // at a record's first call
		}
		if r.Intn(10) == 0 {
			t.f.kind, t.f.nth = "open", 1
		}
		ts = append(ts, t)
	}
	load := func(dir, db string) (res Result, ok bool) {
		out := filepath.Join(dir, "out")
		exec.Command(self, "sub", "ioload", ss, db, filepath.Join(dir, "ref"), out).Run()
		b, e := os.ReadFile(out)
		return res, e == nil && json.Unmarshal(b, &res) == nil && (res.Completed || res.Violation != "")
	}
	c.parallel(n, 4, func(i int) string {
		t := ts[i]
		f := t.f
		dir := filepath.Join(c.dir, fmt.Sprintf("t%03d", i))
		must(os.MkdirAll(dir, 0755))
		defer os.RemoveAll(dir)
		db := filepath.Join(dir, "db")
		f.paths = []string{db + f.paths[0]}
		name := filepath.Base(f.paths[0])
		logf, errf, mk := filepath.Join(dir, "log"), filepath.Join(dir, "err"), filepath.Join(dir, "marks")
		if t.save {
			s, err := runFaulty([]string{self, "sub", "iosave", ss, db, mk}, f, mk, logf, errf, nil)
			if err != nil {
				panic("harness: " + err.Error())
			}
			if !s.hit {
				c.Count("faults_not_reached", 1)
				return ""
			}
			c.Count("faults_seen", 1)
			c.Count("fault_"+f.kind+"_saved", 1)
			c.Distinct("s %s %s %d %v", f.kind, name, f.nth, f.ever)
			for _, m := range s.marks {
				if strings.HasPrefix(m.text, "ack 1") && m.pos > s.first {
					if res, ok := load(dir, db); ok && res.Violation == "" {
						return fmt.Sprintf("%s: saving the tree returned as if it had succeeded (failed call: %.200s)", f, s.call)
					}
					return fmt.Sprintf("%s: saving the tree returned as if it had succeeded (failed call: %.200s), and what was saved is not the tree", f, s.call)
				}
			}
			c.Count("stopped_by_fault", 1)
			return ""
		}
		copyDir(base, db)
		out := filepath.Join(dir, "out")
		s, err := runFaulty([]string{self, "sub", "ioload", ss, db, filepath.Join(dir, "ref"), out}, f, "", logf, errf, nil)
		if err != nil {
			panic("harness: " + err.Error())
		}
		if !s.hit {
			c.Count("faults_not_reached", 1)
			return ""
		}
		c.Count("faults_seen", 1)
		c.Count("fault_"+f.kind+"_saved", 1)
		c.Distinct("l %s %s %d %v", f.kind, name, f.nth, f.ever)
		var res Result
		if b, e := os.ReadFile(out); e == nil && json.Unmarshal(b, &res) == nil {
			c.Eval(res.Evals)
			if res.Violation != "" {
				return fmt.Sprintf("%s (failed call: %.200s): %s", f, s.call, res.Violation)
			}
			c.Count("went_on_after_fault", 1)
		} else {
			c.Count("stopped_by_fault", 1)
		}
		os.RemoveAll(filepath.Join(dir, "ref"))
		if r2, ok := load(dir, db); !ok || r2.Violation != "" {
			return fmt.Sprintf("%s (failed call: %.200s), then loaded without failures: %s", f, s.call, r2.Violation)
		}
		c.Count("reopened_after_fault", 1)
		return ""
	})
	c.Sample("seed %d: %d faults in saving and loading a tree", cs.Seed, c.res.Stats["faults_seen"])
}

// ioFlushWorker: whoever waits for a flush that fails is never let go.
func ioFlushWorker(c *Ctx, cs *Case) {
	self, err := os.Executable()
	must(err)
	n := int(cs.n("trials", 60))
	c.parallel(n, 4, func(i int) string {
		dir := filepath.Join(c.dir, fmt.Sprintf("f%03d", i))
		defer os.RemoveAll(dir)
		kind := []string{"file", "file", "file", "tree"}[i%4]
		cmd := exec.Command("timeout", "-s", "KILL", "60", self, "sub", "ioflush", kind, strconv.FormatInt(cs.Seed*1000+int64(i), 10), dir)
		cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
		out, _ := cmd.CombinedOutput()
		s := string(out)
		if !strings.Contains(s, "FAILING") {
			panic(fmt.Sprintf("harness: the flush was not reached: %.2000s", s))
		}
		if strings.Contains(s, "RELEASED") {
			return fmt.Sprintf("a flush failed because the file cannot be written, and whoever waits for it (%s) went on as if it had succeeded: %.600s", kind, s)
		}
		c.Count("failed_flushes_awaited", 1)
		c.Distinct("f %s %d", kind, i)
		c.Eval(1)
		return ""
	})
}

// ioKVWorker: sorted files of the key-value store that cannot be read, or not correctly.
func ioKVWorker(c *Ctx, cs *Case) {
	r := c.rnd
	for i := 0; i < int(cs.n("trials", 20)); i++ {
		dir := filepath.Join(c.dir, fmt.Sprintf("kv%03d", i))
		must(os.MkdirAll(dir, 0755))
		model := map[string]string{}
		key := func() string { return fmt.Sprintf("%c%04d", 'a'+r.Intn(3), r.Intn(800)) }
		flush := func(db *indextree.RocksDB) {
			fo := gorocksdb.NewDefaultFlushOptions()
			fo.SetWait(true)
			must(db.DB().Flush(fo))
			fo.Destroy()
		}
		open := func() *indextree.RocksDB {
			kv, err := indextree.NewRocksDB("kv", dir)
			if err != nil {
				return nil
			}
			return kv.(*indextree.RocksDB)
		}
		db := open()
		for f := 1 + r.Intn(3); f > 0; f-- {
			for j := 100 + r.Intn(700); j > 0; j-- {
				k := key()
				if r.Intn(5) == 0 {
					delete(model, k)
					db.Delete([]byte(k))
				} else {
					v := make([]byte, 1+r.Intn(200))
					r.Read(v)
					model[k] = string(v)
					db.Set([]byte(k), v)
				}
			}
			flush(db)
		}
		db.Close()
		damage := func() (what string) {
			files, err := filepath.Glob(filepath.Join(dir, "kv.db", "*.sst"))
			must(err)
			for _, f := range files {
				if r.Intn(3) == 0 && len(files) > 1 {
					continue
				}
				b, err := os.ReadFile(f)
				must(err)
				switch r.Intn(3) {
				case 0:
					n := r.Intn(len(b))
					must(os.Truncate(f, int64(n)))
					what += fmt.Sprintf(" %s cut at %d of %d bytes", filepath.Base(f), n, len(b))
				default:
					at, n := r.Intn(len(b)), 1+r.Intn(9000)
					for j := at; j < at+n && j < len(b); j++ {
						b[j] ^= byte(1 + r.Intn(255))
					}
					w, err := os.OpenFile(f, os.O_WRONLY, 0) // the same file, which may be open
					must(err)
					_, err = w.WriteAt(b, 0)
					must(err)
					must(w.Close())
					what += fmt.Sprintf(" %s wrong from %d for %d of %d bytes", filepath.Base(f), at, n, len(b))
				}
			}
			return
		}
		what := ""
		late := r.Intn(4) != 0
		if !late {
			what = "before opening:" + damage()
		}
		if db = open(); db == nil {
			c.Count("stopped_by_fault", 1)
			c.Count("faults_seen", 1)
			os.RemoveAll(dir)
			continue
		}
		if late {
			what = "after opening:" + damage()
		}
		c.Count("faults_seen", 1)
		c.Count("fault_sorted_files", 1)
		var keys []string
		for k := range model {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		said, answered := 0, 0
		ask := func(fn func() string) {
			var bad string
			if p, _ := panics(func() { bad = fn() }); p != nil {
				said++
				return
			}
			answered++
			c.Eval(1)
			if bad != "" {
				c.Failf("trial %d: the sorted files of the key-value store are damaged (%s): %s", i, what, bad)
			}
		}
		for j := 0; j < 400; j++ {
			k := key()
			switch r.Intn(4) {
			case 0:
				ask(func() string {
					if v, ok := model[k]; db.Has([]byte(k)) != ok {
						return fmt.Sprintf("Has(%s) is %v, stored was %x", k, !ok, v)
					}
					return ""
				})
			case 1:
				ask(func() string {
					lo, hi := key(), key()
					if hi < lo {
						lo, hi = hi, lo
					}
					back := r.Intn(2) == 0
					var want []string
					for _, k := range keys {
						if lo <= k && k < hi {
							want = append(want, k+"="+model[k])
						}
					}
					mk := db.Iterator
					if back {
						mk = db.ReverseIterator
						for a, b := 0, len(want)-1; a < b; a, b = a+1, b-1 {
							want[a], want[b] = want[b], want[a]
						}
					}
					it := mk([]byte(lo), []byte(hi))
					defer it.Close()
					n := 0
					for ; it.Valid(); it.Next() {
						if got := string(it.Key()) + "=" + string(it.Value()); n >= len(want) || got != want[n] {
							return fmt.Sprintf("the iterator over %s..%s (backwards %v) gives %.60q as element %d", lo, hi, back, got, n)
						}
						n++
					}
					if n < len(want) {
						return fmt.Sprintf("the iterator over %s..%s (backwards %v) ends after %d of %d elements", lo, hi, back, n, len(want))
					}
					return ""
				})
			default:
				ask(func() string {
					got := db.Get([]byte(k))
					if v, ok := model[k]; (got != nil) != ok || string(got) != v {
						return fmt.Sprintf("Get(%s) gives %x, stored was %x (%v)", k, got, v, ok)
					}
					return ""
				})
			}
		}
		if said > 0 {
			c.Count("reads_that_reported", int64(said))
			c.Count("stopped_by_fault", 1)
		}
		c.Count("answers_checked_under_faults", int64(answered))
		c.Distinct("kv %v %d %d", late, said, answered)
		if said == 0 { // an operation that was given up may have left something open
			db.Close()
		}
		os.RemoveAll(dir)
	}
	c.Sample("seed %d: damaged sorted files, %d reads reported it, %d answers were right", cs.Seed, c.res.Stats["reads_that_reported"], c.res.Stats["answers_checked_under_faults"])
}

func init() {
	workers["iosave"] = ioSaveWorker
	workers["iokv"] = ioKVWorker
	workers["ioflush"] = ioFlushWorker
}
