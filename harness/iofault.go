package main

// Monitors of I/O failures: the real code runs while chosen system calls on chosen files
// of the database fail (strace answers them with an error instead of executing them).
// What it acknowledges, what it answers and what it leaves behind are compared with the
// reference model.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// ioClass groups the files of a database.
func ioClass(root, path string) string {
	d := filepath.Base(filepath.Dir(path))
	b := filepath.Base(path)
	switch {
	case strings.HasPrefix(d, "entries."):
		return "entries"
	case strings.HasPrefix(d, "twigmt."):
		return "groups"
	case strings.HasSuffix(d, ".db") && strings.HasSuffix(b, ".log"):
		return "wal"
	case strings.HasSuffix(b, ".sst"):
		return "sst"
	case strings.HasPrefix(b, "MANIFEST"), b == "CURRENT", strings.HasSuffix(b, ".dbtmp"), strings.HasPrefix(b, "OPTIONS"), b == "IDENTITY":
		return "manifest"
	}
	return ""
}

type ioFault struct {
	paths []string
	class string // of the first path, or "all"
	kind  string // write, sync, remove, open, truncate, rename, read
	errno string
	nth   int
	ever  bool // every later call of the thread fails, too
}

var ioCalls = map[string]string{
	"write":    "write,pwrite64,fallocate",
	"sync":     "fsync,fdatasync,sync_file_range",
	"remove":   "unlink,unlinkat",
	"open":     "openat",
	"truncate": "ftruncate",
	"rename":   "rename,renameat",
	"read":     "read,pread64,readahead",
	"list":     "getdents64",
	"stat":     "newfstatat,fstat,statx,lseek",
}

func (f ioFault) String() string {
	n := "once"
	if f.ever {
		n = "from then on"
	}
	what := f.paths[0]
	if len(f.paths) > 1 {
		what = fmt.Sprintf("%d files (%s)", len(f.paths), f.class)
	}
	return fmt.Sprintf("%s of %s answered with %s at call %d of a thread, %s", f.kind, what, f.errno, f.nth, n)
}

type ioSeen struct {
	hit   bool
	first int    // position in the log of the first failed call
	call  string // that call
	path  string
	hits  int
	marks []struct {
		pos  int
		text string
	}
	exited string
	hung   bool
}

var reQuoted = regexp.MustCompile(`"((?:[^"\\]|\\.)*)"`)

// runFaulty runs argv while f happens to it, and reads what was seen.
func runFaulty(argv []string, f ioFault, marks, logf, errf string, env []string) (*ioSeen, error) {
	when := strconv.Itoa(f.nth)
	if f.ever {
		when += "+"
	}
	args := []string{"-s", "KILL", "100", "strace", "-f", "--kill-on-exit", "-y", "-s", "200", "-o", logf, "-e", "signal=none",
		"-e", "trace=writev," + ioCalls[f.kind], "-e", "inject=" + ioCalls[f.kind] + ":error=" + f.errno + ":when=" + when}
	for _, p := range f.paths {
		args = append(args, "-P", p)
	}
	if marks != "" {
		args = append(args, "-P", marks)
	}
	args = append(args, argv...)
	cmd := exec.Command("timeout", args...)
	ef, err := os.Create(errf)
	must(err)
	cmd.Stdout, cmd.Stderr = ef, ef
	cmd.Env = append(append(os.Environ(), env...), "VH_MARKV=1", "GOTRACEBACK=single")
	err = cmd.Run()
	ef.Close()
	s := &ioSeen{exited: "0"}
	if err != nil {
		s.exited = err.Error()
		if ee, ok := err.(*exec.ExitError); ok && (ee.ExitCode() == 137 || ee.ExitCode() == 124) {
			s.hung = true
		}
	}
	b, err := os.ReadFile(logf)
	if err != nil {
		return nil, fmt.Errorf("strace: no log: %v", err)
	}
	began := map[string]string{}
	for i, l := range strings.Split(string(b), "\n") {
		m := reHead.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		pid, rest := m[1], m[2]
		if strings.HasPrefix(rest, "writev(") {
			if q := reQuoted.FindStringSubmatch(rest); q != nil {
				s.marks = append(s.marks, struct {
					pos  int
					text string
				}{i, strings.TrimSuffix(strings.TrimSuffix(q[1], `\n`), "\n")})
			}
			continue
		}
		if strings.HasSuffix(rest, "<unfinished ...>") {
			began[pid] = rest
		}
		if strings.Contains(rest, "(INJECTED)") {
			s.hits++
			if !s.hit {
				s.hit, s.first = true, i
				if strings.HasPrefix(rest, "<... ") {
					rest = began[pid] + rest
				}
				s.call = rest
				s.path = ""
				for _, p := range f.paths {
					if strings.Contains(rest, p) {
						s.path = p
					}
				}
			}
		}
	}
	return s, nil
}

// ioTargets lists which calls on which files a recorded run made.
func ioTargets(root string, evs []sysEv) map[string]map[string]int {
	t := map[string]map[string]int{} // kind -> path -> count
	add := func(k, p string) {
		if ioClass(root, p) == "" {
			return
		}
		if t[k] == nil {
			t[k] = map[string]int{}
		}
		t[k][p]++
	}
	for _, e := range evs {
		switch e.kind {
		case 'w':
			add("write", e.path)
		case 's':
			add("sync", e.path)
		case 'u':
			add("remove", e.path)
		case 'c':
			add("open", e.path)
		case 't':
			add("truncate", e.path)
		case 'r':
			add("rename", e.path)
		}
	}
	return t
}

func pickFault(r *rand.Rand, root string, t map[string]map[string]int) ioFault {
	kind := []string{"write", "write", "write", "sync", "sync", "sync", "open", "remove", "truncate", "rename"}[r.Intn(10)]
	for len(t[kind]) == 0 {
		kind = []string{"write", "sync"}[r.Intn(2)]
	}
	by := map[string][]string{}
	for p := range t[kind] {
		cl := ioClass(root, p)
		by[cl] = append(by[cl], p)
	}
	var cls []string
	for cl := range by {
		sort.Strings(by[cl])
		cls = append(cls, cl)
		if cl == "entries" || cl == "groups" || cl == "wal" {
			cls = append(cls, cl, cl)
		}
	}
	sort.Strings(cls)
	cl := cls[r.Intn(len(cls))]
	f := ioFault{kind: kind, class: cl, errno: []string{"EIO", "ENOSPC"}[r.Intn(2)], ever: r.Intn(3) == 0}
	if kind == "open" {
		f.errno = []string{"EIO", "EMFILE", "ENOSPC"}[r.Intn(3)]
	}
	p := by[cl][r.Intn(len(by[cl]))]
	n := t[kind][p]
	f.paths = []string{p}
	if r.Intn(5) == 0 { // any file of the class, or any file
		f.paths, n = nil, 0
		for q, k := range t[kind] {
			f.paths = append(f.paths, q)
			n += k
		}
		sort.Strings(f.paths)
		f.class = "all"
	}
	if m := []int{1, 2, 4, 30}[r.Intn(4)]; n > m {
		n = m
	}
	f.nth = 1 + r.Intn(n)
	return f
}

// ioWriteWorker: blocks are written while calls that store or synchronize fail.
func ioWriteWorker(c *Ctx, cs *Case) {
	name, seed := cs.S["prof"], cs.Seed
	trials := int(cs.n("trials", 20))
	self, err := os.Executable()
	must(err)
	root := filepath.Join(c.dir, "db")
	ss := strconv.FormatInt(seed, 10)
	marks := filepath.Join(c.dir, "marks")
	// where the failing runs start: from nothing, and from databases at some block
	type baseDB struct {
		from int
		dir  string
		tg   map[string]map[string]int
	}
	var bases []*baseDB
	var roots map[int]string
	rootsf := filepath.Join(c.dir, "roots.json")
	for i := 0; i < 4; i++ {
		b := &baseDB{from: -1}
		if i > 0 {
			b.from = 1 + c.rnd.Intn(len(roots)-2)
			b.dir = filepath.Join(c.dir, fmt.Sprintf("base%d", i))
			env := []string{fmt.Sprintf("VH_STOPAT=%d", b.from)}
			if i == 1 {
				env = append(env, "VH_STOPCLOSE=1")
			}
			cmd := exec.Command(self, "sub", "crashwrite", name, ss, root, marks, "-1")
			cmd.Env = append(os.Environ(), env...)
			if out, err := cmd.CombinedOutput(); err != nil {
				c.Failf("writing run: %v\n%.4000s", err, out)
			}
			copyDir(root, b.dir)
		}
		evs, err := record([]string{self, "sub", "crashwrite", name, ss, root, marks, strconv.Itoa(b.from)}, root, marks, filepath.Join(c.dir, "strace"), filepath.Join(c.dir, "stderr0"), nil, 0)
		os.Remove(filepath.Join(c.dir, "strace"))
		os.RemoveAll(root)
		if err != nil {
			if strings.Contains(err.Error(), "harness:") || strings.Contains(err.Error(), "strace:") {
				c.res.Inconcl = err.Error()
				return
			}
			c.Failf("%v", err)
		}
		if i == 0 {
			roots = collectRoots(evs)
			writeJSON(rootsf, roots)
		}
		b.tg = ioTargets(root, evs)
		bases = append(bases, b)
	}
	var faults []ioFault
	for i := 0; i < trials; i++ {
		f := pickFault(c.rnd, root, bases[i%len(bases)].tg)
		faults = append(faults, f)
	}
	cw := &crashCtx{c: c, self: self, name: name, ss: ss, rootsf: rootsf, root: root, roots: roots}
	c.parallel(len(faults), 4, func(i int) string {
		f := faults[i]
		dir := filepath.Join(c.dir, fmt.Sprintf("t%03d", i))
		must(os.MkdirAll(dir, 0755))
		defer os.RemoveAll(dir)
		db := filepath.Join(dir, "db")
		var paths []string
		for _, p := range f.paths {
			paths = append(paths, db+strings.TrimPrefix(p, root))
		}
		f.paths = paths
		mk := filepath.Join(dir, "marks")
		from := bases[i%len(bases)].from
		if from >= 0 {
			copyDir(bases[i%len(bases)].dir, db)
		}
		s, err := runFaulty([]string{self, "sub", "crashwrite", name, ss, db, mk, strconv.Itoa(from)}, f, mk, filepath.Join(dir, "log"), filepath.Join(dir, "err"), schedEnv(int64(i), 0))
		if err != nil {
			panic("harness: " + err.Error())
		}
		if !s.hit {
			c.Count("faults_not_reached", 1)
			return ""
		}
		if s.path == "" {
			s.path = f.paths[0]
		}
		cl := ioClass(db, s.path)
		lo, hi, phase, during := from, from, "creation", ""
		if from >= 0 {
			phase = "reopen"
		}
		for _, m := range s.marks {
			if during == "" && m.pos > s.first {
				during = phase
			}
			if from < 0 || !strings.HasPrefix(m.text, "start") {
				phase = phaseOf(m.text, phase)
			}
			w := strings.Fields(m.text)
			if len(w) < 2 {
				continue
			}
			switch w[0] {
			case "block":
				hi, _ = strconv.Atoi(w[1])
			case "ack":
				lo, _ = strconv.Atoi(w[1])
				hi = lo
				if len(w) > 2 && roots[lo] != w[2] {
					return fmt.Sprintf("%s: block %d acknowledged with root hash %s, without failures it is %s", f, lo, w[2], roots[lo])
				}
				if m.pos > s.first && (cl == "entries" || cl == "groups" || cl == "wal") && (f.kind == "write" || f.kind == "sync") && during != "close" {
					return fmt.Sprintf("%s: block %d was acknowledged after the failed call %.300s", f, lo, s.call)
				}
			}
		}
		if during == "" {
			during = phase
		}
		if s.hung {
			c.Count("hung_after_fault", 1)
		}
		c.Count("faults_seen", 1)
		c.Count("fault_"+f.kind+"_"+cl, 1)
		c.Count("faults_during_"+during, 1)
		if s.exited != "0" {
			c.Count("stopped_by_fault", 1)
		} else {
			c.Count("went_on_after_fault", 1)
		}
		c.Distinct("w %s %s %s %s %d %v", f.kind, cl, f.errno, during, hi, f.ever)
		if _, err := os.Stat(db); err != nil {
			return ""
		}
		l := maxInt(lo, 0)
		cont := 0
		if i%2 == 0 {
			cont = 1 + i%5
		}
		t := cw.verify(imgJob{dir: db, lo: l, hi: maxInt(hi, l), cont: cont, what: f.String()})
		c.Count("reopened_after_fault", 1)
		if t != "" {
			return fmt.Sprintf("%s (failed call: %.300s, during %s; last acknowledged block %d, in progress %d), reopened without failures: %s", f, s.call, during, lo, hi, t)
		}
		return ""
	})
	c.Sample("%s seed %d: %d faults in writing runs of %d blocks", name, seed, c.res.Stats["faults_seen"], len(roots)-1)
}

// parallel runs n jobs on k goroutines; the first non-empty answer is the violation.
func (c *Ctx) parallel(n, k int, job func(i int) string) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	next, fail := 0, ""
	var pan interface{}
	for w := 0; w < k; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					pan = r
					mu.Unlock()
				}
			}()
			for {
				mu.Lock()
				i := next
				next++
				stop := fail != "" || pan != nil
				mu.Unlock()
				if i >= n || stop {
					return
				}
				if t := job(i); t != "" {
					mu.Lock()
					if fail == "" {
						fail = t
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	if pan != nil {
		panic(pan)
	}
	if fail != "" {
		c.Failf("%s", fail)
	}
}

// ioReadWorker: a stored database is opened, read and continued while calls that read fail.
func ioReadWorker(c *Ctx, cs *Case) {
	name, seed := cs.S["prof"], cs.Seed
	trials := int(cs.n("trials", 20))
	self, err := os.Executable()
	must(err)
	ss := strconv.FormatInt(seed, 10)
	_, st := crashScript(name, seed)
	blocks := 0
	for _, s := range st {
		if s.Kind == 'B' {
			blocks++
		}
	}
	run := func(db, mk string, env ...string) string {
		cmd := exec.Command(self, "sub", "crashwrite", name, ss, db, mk, "-1")
		cmd.Env = append(os.Environ(), env...)
		out, err := cmd.CombinedOutput()
		if err != nil {
			c.Failf("writing run: %v\n%.4000s", err, out)
		}
		b, err := os.ReadFile(mk)
		must(err)
		return string(b)
	}
	mk := filepath.Join(c.dir, "marks")
	full := run(filepath.Join(c.dir, "full"), mk)
	os.RemoveAll(filepath.Join(c.dir, "full"))
	var evs []sysEv
	for _, l := range strings.Split(strings.TrimSpace(full), "\n") {
		evs = append(evs, sysEv{kind: 'k', data: []byte(l)})
	}
	roots := collectRoots(evs)
	rootsf := filepath.Join(c.dir, "roots.json")
	writeJSON(rootsf, roots)
	at := blocks - 1 - c.rnd.Intn(3)
	base := filepath.Join(c.dir, "base")
	env := []string{fmt.Sprintf("VH_STOPAT=%d", at)}
	if seed%2 == 0 { // closed in order: the index is in its sorted files
		env = append(env, "VH_STOPCLOSE=1")
	}
	run(base, mk, env...)
	var files []string
	must(filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && ioClass(base, p) != "" {
			files = append(files, strings.TrimPrefix(p, base))
		}
		return err
	}))
	by := map[string][]string{}
	for _, p := range files {
		cl := ioClass(base, p)
		by[cl] = append(by[cl], p)
	}
	var cls []string
	for cl := range by {
		cls = append(cls, cl)
	}
	sort.Strings(cls)
	cls = append(cls, "dirs")
	type trial struct {
		f    ioFault
		cont int
		how  string
	}
	var ts []trial
	for i := 0; i < trials; i++ {
		cl := cls[c.rnd.Intn(len(cls))]
		f := ioFault{class: cl, kind: "read", errno: "EIO", ever: c.rnd.Intn(3) == 0}
		if cl == "dirs" {
			f.kind = "list"
			f.paths = []string{fmt.Sprintf("/%s.%d", []string{"entries", "twigmt"}[c.rnd.Intn(2)], c.rnd.Intn(shardCount)), "/rocksdb.db"}
			f.nth = 1 + c.rnd.Intn(3)
		} else {
			f.paths = []string{by[cl][c.rnd.Intn(len(by[cl]))]}
			if c.rnd.Intn(2) == 0 {
				f.paths = by[cl]
			}
			f.nth = 1 + c.rnd.Intn([]int{1, 3, 10, 60}[c.rnd.Intn(4)])
			switch c.rnd.Intn(8) {
			case 0:
				f.kind, f.nth, f.errno = "open", 1+c.rnd.Intn(3), []string{"EIO", "EMFILE", "EACCES"}[c.rnd.Intn(3)]
			case 1:
				f.kind, f.nth = "stat", 1+c.rnd.Intn(4)
			}
		}
		how := []string{"1", "go"}[i%2]
		if how == "go" {
			f.ever = f.ever && c.rnd.Intn(3) == 0
			if cl == "dirs" || cl == "manifest" || f.kind == "open" {
				cl = []string{"entries", "entries", "groups", "sst"}[c.rnd.Intn(4)]
				if len(by[cl]) == 0 {
					cl = "entries"
				}
				f = ioFault{class: cl, kind: "read", errno: "EIO", ever: f.ever, paths: by[cl]}
			}
			f.nth = 1 + c.rnd.Intn([]int{1, 6, 60, 400}[c.rnd.Intn(4)])
		}
		ts = append(ts, trial{f, c.rnd.Intn(4), how})
	}
	c.parallel(len(ts), 4, func(i int) string {
		f := ts[i].f
		dir := filepath.Join(c.dir, fmt.Sprintf("t%03d", i))
		must(os.MkdirAll(dir, 0755))
		defer os.RemoveAll(dir)
		db := filepath.Join(dir, "db")
		copyDir(base, db)
		var paths []string
		for _, p := range f.paths {
			if ts[i].how == "go" {
				p = ".m" + p
			}
			paths = append(paths, db+p)
		}
		f.paths = paths
		out := filepath.Join(dir, "out")
		s, err := runFaulty([]string{self, "sub", "crashverify", name, ss, db, strconv.Itoa(at), strconv.Itoa(at), rootsf, strconv.Itoa(ts[i].cont), out}, f, "", filepath.Join(dir, "log"), filepath.Join(dir, "err"), []string{"VH_FAULT=" + ts[i].how})
		if err != nil {
			panic("harness: " + err.Error())
		}
		if !s.hit {
			c.Count("faults_not_reached", 1)
			return ""
		}
		cl := ioClass(db, s.path)
		if cl == "" {
			cl = f.class
		}
		var res Result
		stopped := true
		if b, e := os.ReadFile(out); e == nil && json.Unmarshal(b, &res) == nil {
			c.Eval(res.Evals)
			c.Count("answers_checked_under_faults", res.Evals)
			c.Count("reads_that_reported", res.Stats["reads_that_reported"])
			if res.Violation != "" {
				return fmt.Sprintf("%s (failed call: %.300s): %s", f, s.call, res.Violation)
			}
			if res.Completed {
				stopped = false
			}
		}
		if s.hung {
			c.Count("hung_after_fault", 1)
			c.Sample("hung: %s (failed call: %.200s)", f, s.call)
		}
		c.Count("faults_seen", 1)
		c.Count("fault_"+f.kind+"_"+cl, 1)
		if stopped {
			c.Count("stopped_by_fault", 1)
		} else {
			c.Count("went_on_after_fault", 1)
		}
		c.Distinct("r %s %s %s %d %v %v", f.kind, cl, f.errno, f.nth, f.ever, stopped)
		cw := &crashCtx{c: c, self: self, name: name, ss: ss, rootsf: rootsf, root: db, roots: roots}
		t := cw.verify(imgJob{dir: db, lo: at, hi: minInt(at+ts[i].cont, blocks), cont: i % 3, what: f.String()})
		c.Count("reopened_after_fault", 1)
		if t != "" {
			return fmt.Sprintf("%s (failed call: %.300s), then reopened without failures: %s", f, s.call, t)
		}
		return ""
	})
	c.Sample("%s seed %d: %d faults in runs that open and read block %d", name, seed, c.res.Stats["faults_seen"], at)
}

func copyDir(from, to string) {
	if out, err := exec.Command("cp", "-a", from, to).CombinedOutput(); err != nil {
		panic(fmt.Sprintf("harness: cp: %v %s", err, out))
	}
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func ioCases(tier string, seed int64) []Case {
	var out []Case
	add := func(w, prof string, k int, trials int64) {
		for i := 0; i < k; i++ {
			s := seed*1000 + int64(i)
			out = append(out, Case{Worker: w, Name: fmt.Sprintf("%s/%s/seed%d", w, prof, s), Seed: s, S: map[string]string{"prof": prof}, P: map[string]int64{"trials": trials}, Slots: 4, NoIdle: true})
		}
	}
	if tier == "thorough" {
		for _, p := range []string{"small", "twigbuf", "compact", "twig"} {
			add("iowrite", p, 6, 250)
			add("ioread", p, 6, 250)
		}
		add("iosave", "tree", 4, 300)
		add("ioflush", "file", 2, 600)
		add("iokv", "kv", 4, 400)
		return out
	}
	add("iowrite", "small", 2, 40)
	add("iowrite", "twigbuf", 1, 24)
	add("iowrite", "compact", 1, 24)
	add("ioread", "small", 2, 40)
	add("ioread", "twig", 1, 24)
	add("ioread", "compact", 1, 24)
	add("iosave", "tree", 2, 30)
	add("ioflush", "file", 1, 60)
	add("iokv", "kv", 1, 40)
	return out
}

func init() {
	workers["iowrite"] = ioWriteWorker
	workers["ioread"] = ioReadWorker
	register(&Check{ID: "C25", Level: "fault_enumeration",
		Rule:   "System calls on files of the database are made to fail (EIO, ENOSPC, EMFILE; once, or from one call on) while real runs create, fill, prune, close, reopen, read and continue a database. Sorted files of the key-value store are also cut or overwritten. Watched: which blocks are acknowledged after a call that stores or synchronizes them failed; every answer given while reads fail, against the model; the state and root found when the database is reopened without failures. Distinct non-trivial: different (call, kind of file, error, phase, block) failures that were reached.",
		Assume: []string{"a failed call has no effect on the file", "a run that stops with an error or a panic has reported the failure"},
		Cases:  ioCases,
		Need:   map[string]int64{"faults_seen": 60, "reopened_after_fault": 60, "stopped_by_fault": 30, "failed_flushes_awaited": 30}})
}
