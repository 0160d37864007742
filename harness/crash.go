package main

// Crash monitors: a real run is recorded at the system-call boundary (strace), and the
// directory as a kill or a power failure would have left it is rebuilt at many points of
// that recording. Each rebuilt directory is reopened by the real code in a process of its
// own and compared with the reference model.

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// ---- the script: a history fixed by (seed, name) ----

type cstep struct {
	Kind byte // 'B' block, 'P' prune, 'R' reopen, 'C' close
	H    int64
	Ops  []Op
}

func crashProf(name string, r *rand.Rand) *Prof {
	p := &Prof{Name: "crash-" + name, Cfg: Cfg{HPFile: 1 << 16, HPBuf: 1 << 12, Reap: 100, RootCache: 100}, H0: 1, Par: 1, PDel: 0.2, Val: valMix(200), ScanEvery: 1}
	switch name {
	case "small": // short blocks over all shards, reopened now and then
		p.Blocks, p.MinOps, p.MaxOps, p.MaxGap = 14, 5, 150, 2
		p.Pool = append(poolWide(r, 300), poolEdge(r)...)
		p.PReopen, p.History = 0.2, true
	case "twig": // a few shards fill groups of leaves
		p.Blocks, p.MinOps, p.MaxOps = 11, 1000, 1800
		p.Pool = poolShard(r, 1500, 1, 6)
		p.PReopen = 0.1
	case "twigbuf": // the same with buffers that hold a whole block of entries, but not a whole group
		p.Cfg = Cfg{HPFile: 1 << 18, HPBuf: 1 << 16, Reap: 1 << 40, RootCache: 100}
		p.Blocks, p.MinOps, p.MaxOps = 22, 400, 1000
		p.Pool, p.Val = poolShard(r, 1500, 2, 5), valMix(40)
		p.PReopen = 0.05
	case "compact": // groups are compacted and pruned
		p.Blocks, p.MinOps, p.MaxOps = 34, 3000, 4200
		p.Pool = poolShard(r, 1500, 3)
		p.PDel, p.Val = 0.2, valSmall
		p.PPrune, p.PruneLag, p.PReopen = 0.35, 4, 0.08
	default:
		panic("harness: no crash profile " + name)
	}
	return p
}

func crashScript(name string, seed int64) (*Prof, []cstep) {
	r := rand.New(rand.NewSource(seed*31 + int64(hashStr(name)%100003)))
	p := crashProf(name, r)
	rn := &Run{p: p, r: r, m: newModel(false), c: newCtx("X", "script", "quick", "", 1)}
	var st []cstep
	h := p.H0 - 1
	for b := 0; b < p.Blocks; b++ {
		h++
		if p.MaxGap > 0 {
			h += r.Int63n(p.MaxGap + 1)
		}
		// each key at most once per block: creating and removing a key in one block leaves
		// open whether its predecessor counts as rewritten
		var ops []Op
		seen := map[K]bool{}
		for _, o := range rn.genOps() {
			if !seen[o.Key] {
				seen[o.Key] = true
				ops = append(ops, o)
			}
		}
		rn.blk++
		rn.m.apply(h, ops)
		st = append(st, cstep{Kind: 'B', H: h, Ops: ops})
		if r.Float64() < p.PPrune && b > 10 {
			st = append(st, cstep{Kind: 'P', H: h - p.PruneLag})
		}
		if r.Float64() < p.PReopen {
			st = append(st, cstep{Kind: 'R'})
		}
	}
	st = append(st, cstep{Kind: 'C'})
	return p, st
}

func mark(f *os.File, format string, args ...interface{}) {
	b := []byte(fmt.Sprintf(format, args...) + "\n")
	if os.Getenv("VH_MARKV") != "" { // a call that the database does not use
		iov := syscall.Iovec{Base: &b[0]}
		iov.SetLen(len(b))
		if n, _, e := syscall.Syscall(syscall.SYS_WRITEV, f.Fd(), uintptr(unsafe.Pointer(&iov)), 1); e != 0 || int(n) != len(b) {
			panic("harness: mark not written")
		}
		return
	}
	_, err := f.Write(b)
	must(err)
}

func init() {
	// the observed process: crashwrite NAME SEED DIR MARKS FROM
	// FROM: number of blocks already in DIR (-1: create it)
	subs["crashwrite"] = func(a []string) {
		name, dir, marks := a[0], a[2], a[3]
		seed, _ := strconv.ParseInt(a[1], 10, 64)
		from, _ := strconv.Atoi(a[4])
		p, st := crashScript(name, seed)
		applyCfg(p.Cfg)
		f, err := os.OpenFile(marks, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
		must(err)
		null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
		os.Stdout = null
		mark(f, "start %d", from)
		d := openDB(dir, p.History)
		mark(f, "ack %d %x", maxInt(from, 0), d.m.GetRootHash())
		n := 0
		for _, s := range st {
			if s.Kind == 'B' {
				n++
			}
			if n <= from || (from >= 0 && n == 0) {
				continue
			}
			switch s.Kind {
			case 'B':
				mark(f, "block %d", n)
				d.block(s.H, s.Ops, p.Par, nil)
				mark(f, "ack %d %x", n, d.m.GetRootHash())
				if n == int(envInt("VH_STOPAT", -1)) {
					if os.Getenv("VH_STOPCLOSE") != "" {
						d.close()
					}
					os.Exit(0)
				}
			case 'P':
				mark(f, "prune %d", s.H)
				d.m.PruneBeforeHeight(s.H)
				mark(f, "done")
			case 'R':
				mark(f, "reopen")
				d.close()
				d = openDB(dir, p.History)
				mark(f, "done")
			case 'C':
				mark(f, "close")
				d.close()
				mark(f, "done")
			}
		}
	}
	// crashverify NAME SEED DIR LO HI ROOTSFILE CONT OUT
	subs["crashverify"] = func(a []string) {
		name, dir := a[0], a[2]
		seed, _ := strconv.ParseInt(a[1], 10, 64)
		lo, _ := strconv.Atoi(a[3])
		hi, _ := strconv.Atoi(a[4])
		var roots map[int]string
		b, err := os.ReadFile(a[5])
		must(err)
		must(json.Unmarshal(b, &roots))
		cont, _ := strconv.Atoi(a[6])
		out := a[7]
		null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
		os.Stdout = null
		p, st := crashScript(name, seed)
		applyCfg(p.Cfg)
		c := newCtx("X", "verify", "quick", dir, seed)
		c.on = map[string]bool{"reads": true, "chain": true, "lasth": true, "history": p.History && p.PPrune == 0}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(stopRun); !ok {
						panic(r)
					}
				}
			}()
			rn := &Run{c: c, p: p, dir: dir, r: rand.New(rand.NewSource(seed)), pruneAll: -1, m: newModel(c.on["history"])}
			rn.d = openDB(dir, p.History)
			h := rn.d.m.GetCurrHeight()
			root := fmt.Sprintf("%x", rn.d.m.GetRootHash())
			// which block is it?
			n, at, idx := 0, -1, 0
			hs := map[int]int64{0: -1}
			for _, s := range st {
				if s.Kind == 'B' {
					n++
					hs[n] = s.H
				}
			}
			for k := lo; k <= hi; k++ {
				if hs[k] == h {
					at = k
				}
			}
			if at < 0 {
				c.Failf("reopened at height %d; the last block whose commit returned is number %d (height %d), and the one in progress is number %d (height %d)", h, lo, hs[lo], hi, hs[hi])
			}
			if roots[at] != root {
				c.Failf("reopened at height %d (block %d) with root hash %s, the uninterrupted run had %s", h, at, root, roots[at])
			}
			rn.h = h
			n = 0
			for i, s := range st {
				if s.Kind == 'B' {
					if n == at {
						break
					}
					n++
					rn.m.apply(s.H, s.Ops)
				}
				idx = i + 1
				if at == 0 {
					idx = 0
				}
			}
			full := func() {
				rn.checkKeys(nil, nil, nil)
				rn.fullScan()
				if c.on["history"] && rn.h > 0 {
					rn.checkHistory(40)
				}
				c.Count("entries_compared", int64(len(rn.m.order)))
			}
			if os.Getenv("VH_FAULT") == "go" { // reads go on after one that reported a failure
				// the failing files are known by the name they get here: nothing fails before
				must(os.Rename(dir, dir+".m"))
				must(os.Symlink(dir+".m", dir))
				for i := 0; i < 60; i++ {
					p, _ := panicsAt("outer", func() {
						switch i % 4 {
						case 0:
							rn.checkKeys(nil, nil, nil)
						case 1:
							if c.on["history"] && rn.h > 0 {
								rn.checkHistory(10)
							}
						case 2:
							rn.scanProofs(4)
						case 3:
							if i < 8 {
								rn.fullScan()
							}
						}
					})
					if p != nil {
						c.Count("reads_that_reported", 1)
					}
				}
				writeJSON(out, c.finish()) // kept if the run is stopped
			}
			full()
			c.Count("reopened_at_inflight", b2i(at == hi && hi > lo))
			rn.scanProofs(6)
			done := 0
			// a prune that was in progress is repeated: step back over it
			for idx > 0 && idx <= len(st) && st[idx-1].Kind != 'B' {
				idx--
			}
			for ; idx < len(st) && done < cont; idx++ {
				s := st[idx]
				switch s.Kind {
				case 'B':
					rn.d.block(s.H, s.Ops, p.Par, nil)
					rn.m.apply(s.H, s.Ops)
					rn.h = s.H
					at++
					done++
					if g := fmt.Sprintf("%x", rn.d.m.GetRootHash()); g != roots[at] {
						c.Failf("after the recovery, block %d (height %d) gives root hash %s, the uninterrupted run had %s", at, s.H, g, roots[at])
					}
					c.Count("blocks_continued", 1)
				case 'P':
					rn.d.m.PruneBeforeHeight(s.H)
				}
			}
			if cont > 0 {
				rn.scanProofs(30)
				rn.d.close()
				rn.d = openDB(dir, p.History)
				if g := fmt.Sprintf("%x", rn.d.m.GetRootHash()); g != roots[at] {
					c.Failf("reopened again at block %d with root hash %s, want %s", at, g, roots[at])
				}
				full()
				rn.scanProofs(15)
			}
			rn.d.close()
			c.res.Completed = true
		}()
		writeJSON(out, c.finish())
	}
	workers["crash"] = crashWorker
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// scanProofs verifies proofs of a few live keys (no shadow needed).
func (rn *Run) scanProofs(n int) {
	for i := 0; i < n; i++ {
		rn.checkOneProof(rn.m.order[rn.r.Intn(len(rn.m.order))])
	}
}

// ---- the recording ----

type sysEv struct {
	kind  byte // 'c' create/open, 'w' write, 't' truncate, 's' sync, 'm' mkdir, 'r' rename, 'u' unlink, 'd' rmdir, 'k' mark, 'l' link
	path  string
	path2 string
	off   int64
	data  []byte
	seen  int // for syncs: number of events that had completed when the call was entered
}

var reHead = regexp.MustCompile(`^(\d+) +(.*)$`)

func unhex(s string) []byte {
	var out []byte
	for i := 0; i < len(s); {
		if s[i] == '\\' && i+3 < len(s) && s[i+1] == 'x' {
			b, err := hex.DecodeString(s[i+2 : i+4])
			must(err)
			out = append(out, b...)
			i += 4
		} else {
			out = append(out, s[i])
			i++
		}
	}
	return out
}

// record runs argv under strace and returns the file events below root.
// delay > 0: about every delay-th file call of a thread is held back for a while, which
// varies the order in which the flushing threads get to the files.
func record(argv []string, root, marksPath, logf, errf string, env []string, delay int) ([]sysEv, error) {
	args := []string{"-f", "-xx", "-y", "-s", "100000000", "-o", logf, "-e", "signal=none",
		"-e", "trace=open,openat,creat,write,pwrite64,writev,pwritev,pwritev2,ftruncate,truncate,fallocate,fsync,fdatasync,sync_file_range,msync,rename,renameat,renameat2,unlink,unlinkat,mkdir,mkdirat,rmdir,link,linkat,symlink,symlinkat,close,lseek,copy_file_range,sendfile"}
	if delay > 0 {
		args = append(args, "-e", fmt.Sprintf("inject=write,pwrite64,fsync,fdatasync:delay_enter=3000:when=%d+%d", 1+delay/2, delay))
	}
	args = append(args, argv...)
	cmd := exec.Command("strace", args...)
	ef, _ := os.Create(errf)
	cmd.Stdout, cmd.Stderr = ef, ef
	cmd.Env = append(os.Environ(), env...)
	err := cmd.Run()
	ef.Close()
	if err != nil {
		return nil, fmt.Errorf("recorded run: %v\n%s", err, tailOf(errf, 8000))
	}
	f, err := os.Open(logf)
	must(err)
	defer f.Close()
	rd := bufio.NewReaderSize(f, 1<<20)
	p := &sysParser{root: root, marks: marksPath, fdPos: map[string]int64{}, pend: map[string]pendCall{}, size: map[string]int64{}}
	for {
		line, err := rd.ReadString('\n')
		if len(line) > 0 {
			if perr := p.line(strings.TrimRight(line, "\n")); perr != nil {
				return nil, perr
			}
		}
		if err != nil {
			break
		}
	}
	return p.evs, nil
}

type pendCall struct {
	text string
	seen int
}

type sysParser struct {
	root, marks string
	evs         []sysEv
	fdPos       map[string]int64 // by "fd"
	appendFd    map[string]bool
	pend        map[string]pendCall
	size        map[string]int64
}

func (p *sysParser) line(l string) error {
	m := reHead.FindStringSubmatch(l)
	if m == nil {
		return nil
	}
	pid, rest := m[1], m[2]
	seen := len(p.evs)
	if strings.HasSuffix(rest, "<unfinished ...>") {
		p.pend[pid] = pendCall{strings.TrimSuffix(rest, "<unfinished ...>"), seen}
		return nil
	}
	if strings.HasPrefix(rest, "<... ") {
		i := strings.Index(rest, " resumed>")
		pc, ok := p.pend[pid]
		if i < 0 || !ok {
			return nil
		}
		delete(p.pend, pid)
		rest = pc.text + rest[i+len(" resumed>"):]
		seen = pc.seen
	}
	if strings.HasPrefix(rest, "+++") || strings.HasPrefix(rest, "---") {
		return nil
	}
	eq := strings.LastIndex(rest, " = ")
	op := strings.IndexByte(rest, '(')
	if eq < 0 || op < 0 {
		return nil
	}
	name := rest[:op]
	ret := strings.TrimSpace(rest[eq+3:])
	if strings.HasPrefix(ret, "-1") || strings.HasPrefix(ret, "?") {
		return nil
	}
	argstr := strings.TrimSpace(rest[op+1 : eq])
	argstr = strings.TrimSuffix(argstr, ")")
	args := splitArgs(argstr)
	fdpath := func(s string) (fd, path string) {
		i := strings.IndexByte(s, '<')
		if i < 0 {
			return s, ""
		}
		j := strings.LastIndexByte(s, '>')
		return s[:i], string(unhex(s[i+1 : j]))
	}
	at := func(dir, s string) string { // path argument relative to dir
		s = strings.TrimSpace(s)
		q := string(unhex(strings.Trim(s, `"`)))
		if filepath.IsAbs(q) || dir == "" {
			return filepath.Clean(q)
		}
		_, d := fdpath(dir)
		return filepath.Join(d, q)
	}
	in := func(path string) bool { return path == p.root || strings.HasPrefix(path, p.root+"/") }
	retN := func() int64 {
		s := ret
		if i := strings.IndexAny(s, " <"); i >= 0 {
			s = s[:i]
		}
		v, _ := strconv.ParseInt(s, 0, 64)
		return v
	}
	add := func(e sysEv) { p.evs = append(p.evs, e) }
	switch name {
	case "open", "openat", "creat":
		var path, flags string
		if name == "openat" {
			path, flags = at(args[0], args[1]), args[2]
		} else {
			path, flags = at("", args[0]), args[1]
		}
		fd, _ := fdpath(ret)
		if !in(path) {
			return nil
		}
		p.fdPos[fd] = 0
		if strings.Contains(flags, "O_APPEND") {
			p.fdPos[fd] = -1
		}
		if strings.Contains(flags, "O_CREAT") || name == "creat" {
			add(sysEv{kind: 'c', path: path})
			if _, ok := p.size[path]; !ok {
				p.size[path] = 0
			}
		}
		if strings.Contains(flags, "O_TRUNC") || name == "creat" {
			add(sysEv{kind: 't', path: path, off: 0})
			p.size[path] = 0
		}
	case "lseek":
		fd, path := fdpath(args[0])
		if in(path) {
			p.fdPos[fd] = retN()
		}
	case "close":
	case "write":
		fd, path := fdpath(args[0])
		if path == p.marks {
			add(sysEv{kind: 'k', data: unhex(strings.Trim(args[1], `"`))})
			return nil
		}
		if !in(path) {
			return nil
		}
		n := retN()
		data := unhex(strings.Trim(args[1], `"`))
		if int64(len(data)) < n {
			return fmt.Errorf("short data in recording")
		}
		off := p.fdPos[fd]
		if off < 0 {
			off = p.size[path]
		} else {
			p.fdPos[fd] += n
		}
		if p.size[path] < off+n {
			p.size[path] = off + n
		}
		add(sysEv{kind: 'w', path: path, off: off, data: data[:n]})
	case "pwrite64":
		_, path := fdpath(args[0])
		if !in(path) {
			return nil
		}
		n := retN()
		data := unhex(strings.Trim(args[1], `"`))
		off, _ := strconv.ParseInt(strings.TrimSpace(args[3]), 0, 64)
		if p.size[path] < off+n {
			p.size[path] = off + n
		}
		add(sysEv{kind: 'w', path: path, off: off, data: data[:n]})
	case "writev", "pwritev", "pwritev2", "copy_file_range", "sendfile", "msync", "symlink", "symlinkat", "linkat":
		if _, path := fdpath(args[0]); in(path) {
			return fmt.Errorf("harness: recording does not handle %s", name)
		}
	case "ftruncate":
		_, path := fdpath(args[0])
		if in(path) {
			n, _ := strconv.ParseInt(strings.TrimSpace(args[1]), 0, 64)
			add(sysEv{kind: 't', path: path, off: n})
			p.size[path] = n
		}
	case "truncate":
		path := at("", args[0])
		if in(path) {
			n, _ := strconv.ParseInt(strings.TrimSpace(args[1]), 0, 64)
			add(sysEv{kind: 't', path: path, off: n})
			p.size[path] = n
		}
	case "fallocate":
		_, path := fdpath(args[0])
		if in(path) && !strings.Contains(args[1], "KEEP_SIZE") {
			off, _ := strconv.ParseInt(strings.TrimSpace(args[2]), 0, 64)
			n, _ := strconv.ParseInt(strings.TrimSpace(args[3]), 0, 64)
			if p.size[path] < off+n {
				p.size[path] = off + n
				add(sysEv{kind: 't', path: path, off: off + n})
			}
		}
	case "fsync", "fdatasync":
		_, path := fdpath(args[0])
		if in(path) {
			add(sysEv{kind: 's', path: path, seen: seen})
		}
	case "sync_file_range":
	case "rename", "renameat", "renameat2":
		var a, b string
		if name == "rename" {
			a, b = at("", args[0]), at("", args[1])
		} else {
			a, b = at(args[0], args[1]), at(args[2], args[3])
		}
		if in(a) || in(b) {
			add(sysEv{kind: 'r', path: a, path2: b})
			p.size[b] = p.size[a]
			delete(p.size, a)
		}
	case "link":
		a, b := at("", args[0]), at("", args[1])
		if in(a) || in(b) {
			add(sysEv{kind: 'l', path: a, path2: b})
			p.size[b] = p.size[a]
		}
	case "unlink":
		if a := at("", args[0]); in(a) {
			add(sysEv{kind: 'u', path: a})
			delete(p.size, a)
		}
	case "unlinkat":
		if a := at(args[0], args[1]); in(a) {
			k := byte('u')
			if strings.Contains(args[2], "AT_REMOVEDIR") {
				k = 'd'
			}
			add(sysEv{kind: k, path: a})
			delete(p.size, a)
		}
	case "rmdir":
		if a := at("", args[0]); in(a) {
			add(sysEv{kind: 'd', path: a})
		}
	case "mkdir":
		if a := at("", args[0]); in(a) {
			add(sysEv{kind: 'm', path: a})
		}
	case "mkdirat":
		if a := at(args[0], args[1]); in(a) {
			add(sysEv{kind: 'm', path: a})
		}
	}
	return nil
}

func splitArgs(s string) (out []string) {
	depth, inq, st := 0, false, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"':
			inq = !inq
		case '<', '[', '{':
			if !inq {
				depth++
			}
		case '>', ']', '}':
			if !inq {
				depth--
			}
		case ',':
			if !inq && depth == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[st:]))
}

// ---- the file system as the recording leaves it ----

type vop struct {
	trunc bool
	off   int64
	data  []byte
	idx   int
}

type vfile struct {
	durable []byte
	pend    []vop // not yet forced to disk, in order
	synced  bool
}

func applyOp(b []byte, o vop) []byte {
	if o.trunc {
		if int64(len(b)) > o.off {
			return b[:o.off:o.off]
		}
		return append(b[:len(b):len(b)], make([]byte, o.off-int64(len(b)))...)
	}
	end := o.off + int64(len(o.data))
	if int64(len(b)) < end {
		b = append(b[:len(b):len(b)], make([]byte, end-int64(len(b)))...)
	} else {
		b = append([]byte{}, b...)
	}
	copy(b[o.off:], o.data)
	return b
}

func (f *vfile) content() []byte {
	b := f.durable
	for _, o := range f.pend {
		b = applyOp(b, o)
	}
	return b
}

type nsOp struct {
	kind byte
	a, b string
	f    *vfile
	idx  int
}

type vfs struct {
	names   map[string]*vfile // nil value: directory
	durable map[string]*vfile // namespace that certainly survives a power failure
	pendNS  []nsOp
	n       int
}

func newVFS() *vfs { return &vfs{names: map[string]*vfile{}, durable: map[string]*vfile{}} }

func applyNS(m map[string]*vfile, o nsOp) {
	switch o.kind {
	case 'c':
		m[o.a] = o.f
	case 'm':
		m[o.a] = nil
	case 'u', 'd':
		delete(m, o.a)
	case 'r':
		m[o.b] = o.f
		delete(m, o.a)
	case 'l':
		m[o.b] = o.f
	}
}

func (v *vfs) ns(o nsOp) {
	applyNS(v.names, o)
	v.pendNS = append(v.pendNS, o)
}

func (v *vfs) apply(e sysEv) {
	idx := v.n
	v.n++
	switch e.kind {
	case 'c':
		if f, ok := v.names[e.path]; !ok || f == nil {
			v.ns(nsOp{'c', e.path, "", &vfile{}, idx})
		}
	case 'm':
		v.ns(nsOp{'m', e.path, "", nil, idx})
	case 'u', 'd':
		v.ns(nsOp{e.kind, e.path, "", nil, idx})
	case 'r', 'l':
		v.ns(nsOp{e.kind, e.path, e.path2, v.names[e.path], idx})
	case 'w', 't':
		f := v.names[e.path]
		if f == nil {
			return // unlinked meanwhile
		}
		f.pend = append(f.pend, vop{trunc: e.kind == 't', off: e.off, data: e.data, idx: idx})
	case 's':
		if f := v.names[e.path]; f != nil {
			k := 0
			for k < len(f.pend) && f.pend[k].idx < e.seen {
				f.durable = applyOp(f.durable, f.pend[k])
				k++
			}
			f.pend = append([]vop{}, f.pend[k:]...)
		}
		k := 0
		for k < len(v.pendNS) && v.pendNS[k].idx < e.seen {
			applyNS(v.durable, v.pendNS[k])
			k++
		}
		v.pendNS = append([]nsOp{}, v.pendNS[k:]...)
	}
}

func dump(names map[string]*vfile, root, dst string, content func(path string, f *vfile) []byte) {
	var ks []string
	for k := range names {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		rel, err := filepath.Rel(root, k)
		must(err)
		t := filepath.Join(dst, rel)
		if names[k] == nil {
			must(os.MkdirAll(t, 0755))
		} else {
			must(os.MkdirAll(filepath.Dir(t), 0755))
			must(os.WriteFile(t, content(k, names[k]), 0644))
		}
	}
}

// killImage: every completed call took effect.
func (v *vfs) killImage(root, dst string, torn *sysEv, r *rand.Rand) {
	dump(v.names, root, dst, func(path string, f *vfile) []byte {
		b := f.content()
		if torn != nil && torn.path == path && len(torn.data) > 1 {
			b = applyOp(b, vop{off: torn.off, data: torn.data[:1+r.Intn(len(torn.data)-1)]})
		}
		return b
	})
}

// powerImage: what was forced to disk, plus an arbitrary part of the rest.
// mode 0: nothing else; 1: a random prefix per file; 2: as 1, but single writes of the
// data files may also be missing in the middle.
func (v *vfs) powerImage(root, dst string, mode int, r *rand.Rand) {
	names := map[string]*vfile{}
	for k, f := range v.durable {
		names[k] = f
	}
	nk := 0
	if mode > 0 {
		nk = r.Intn(len(v.pendNS) + 1)
		if r.Intn(3) == 0 {
			nk = len(v.pendNS)
		}
	}
	for _, o := range v.pendNS[:nk] {
		applyNS(names, o)
	}
	dump(names, root, dst, func(path string, f *vfile) []byte {
		b := f.durable
		if mode == 0 || len(f.pend) == 0 {
			return b
		}
		k := r.Intn(len(f.pend) + 1)
		if r.Intn(3) == 0 {
			k = len(f.pend)
		}
		for i, o := range f.pend[:k] {
			if mode == 2 && i > 0 && r.Intn(4) == 0 && !strings.Contains(path, "rocksdb") {
				continue
			}
			b = applyOp(b, o)
		}
		if k < len(f.pend) && !f.pend[k].trunc && len(f.pend[k].data) > 1 && r.Intn(2) == 0 {
			o := f.pend[k]
			o.data = o.data[:1+r.Intn(len(o.data)-1)]
			b = applyOp(b, o)
		}
		return b
	})
}

// ---- the worker ----

type imgJob struct {
	dir    string
	lo, hi int
	cont   int
	what   string
	phase  string
}

func crashWorker(c *Ctx, cs *Case) {
	name, seed := cs.S["prof"], cs.Seed
	mode := cs.S["mode"] // kill or power
	budget := int(cs.n("images", 60))
	nested := int(cs.n("nested", 0))
	self, err := os.Executable()
	must(err)
	root := filepath.Join(c.dir, "db")
	marks := filepath.Join(c.dir, "marks")
	ss := strconv.FormatInt(seed, 10)
	evs, err := record([]string{self, "sub", "crashwrite", name, ss, root, marks, "-1"}, root, marks, filepath.Join(c.dir, "strace"), filepath.Join(c.dir, "stderr0"), schedEnv(seed, cs.n("prof", 0)), []int{0, 23, 11, 5}[int(seed)&3])
	os.Remove(filepath.Join(c.dir, "strace"))
	if err != nil {
		if strings.Contains(err.Error(), "harness:") || strings.Contains(err.Error(), "strace:") {
			c.res.Inconcl = err.Error()
			return
		}
		c.Failf("%v", err)
	}
	roots := collectRoots(evs)
	rootsf := filepath.Join(c.dir, "roots.json")
	writeJSON(rootsf, roots)
	c.Count("blocks_recorded", int64(len(roots)-1))
	c.Count("calls_recorded", int64(len(evs)))
	// the rebuilt final image must equal the real directory
	v := newVFS()
	for _, e := range evs {
		v.apply(e)
	}
	for p, f := range v.names {
		if f == nil || strings.Contains(filepath.Base(p), "LOG") {
			continue
		}
		b, err := os.ReadFile(p)
		if err != nil || !bytes.Equal(b, f.content()) {
			c.res.Inconcl = fmt.Sprintf("harness: the recording does not reproduce %s (%v, %d bytes, %d rebuilt)", p, err, len(b), len(f.content()))
			return
		}
		c.Count("files_reproduced", 1)
	}
	for _, e := range evs {
		if e.kind == 'u' && (strings.Contains(e.path, "/entries.") || strings.Contains(e.path, "/twigmt.")) {
			c.Count("data_files_unlinked", 1)
		}
	}
	os.RemoveAll(root)
	cw := &crashCtx{c: c, self: self, name: name, ss: ss, rootsf: rootsf, root: root, mode: mode, roots: roots}
	cw.explore(evs, newVFS(), -1, budget, nested)
	c.Sample("%s %s seed %d: %d blocks, %d recorded calls, %d images reopened", mode, name, seed, len(roots)-1, len(evs), c.res.Stats["images"])
}

// schedEnv makes half of the recorded runs use one processor, where a goroutine that was
// started (a flush, for instance) runs late.
func schedEnv(seed, prof int64) []string {
	if (seed+prof)&1 == 1 {
		return []string{"GOMAXPROCS=1"}
	}
	return nil
}

func collectRoots(evs []sysEv) map[int]string {
	roots := map[int]string{}
	for _, e := range evs {
		if e.kind == 'k' {
			f := strings.Fields(string(e.data))
			if f[0] == "ack" {
				n, _ := strconv.Atoi(f[1])
				roots[n] = f[2]
			}
		}
	}
	return roots
}

type crashCtx struct {
	c                            *Ctx
	self, name, ss, rootsf, root string
	mode                         string
	roots                        map[int]string
	nImg                         int
	mu                           sync.Mutex
}

// explore chooses crash points in evs and verifies the images there. base is the file
// system before the recording; acked is the block already acknowledged then (-1: none).
func (cw *crashCtx) explore(evs []sysEv, v *vfs, acked int, budget, nested int) {
	c := cw.c
	var pts []int
	mut := func(e sysEv) bool {
		if strings.HasPrefix(filepath.Base(e.path), "LOG") || strings.HasSuffix(e.path, "dbtmp") {
			return false
		}
		if cw.mode == "power" {
			return e.kind != 'k' || strings.HasPrefix(string(e.data), "ack") || strings.HasPrefix(string(e.data), "done")
		}
		return e.kind != 'k' && e.kind != 's'
	}
	for i, e := range evs {
		if mut(e) {
			pts = append(pts, i)
		}
	}
	c.Count("crash_points", int64(len(pts)))
	chosen := map[int]bool{}
	if len(pts) <= budget {
		for _, i := range pts {
			chosen[i] = true
		}
	} else {
		// stratify: by phase, then random within the phase
		ph := map[string][]int{}
		cur := "open"
		for i, e := range evs {
			if e.kind == 'k' {
				cur = phaseOf(string(e.data), cur)
			}
			if mut(e) {
				ph[cur] = append(ph[cur], i)
			}
		}
		var names []string
		for k := range ph {
			names = append(names, k)
		}
		sort.Strings(names)
		// points at which one of a shard's two files is ahead of the other
		var lead []int
		wrote := map[string]bool{}
		for i, e := range evs {
			if e.kind == 'k' && strings.HasPrefix(string(e.data), "block") {
				wrote = map[string]bool{}
			}
			d := filepath.Base(filepath.Dir(e.path))
			if e.kind == 'w' && (strings.HasPrefix(d, "entries.") || strings.HasPrefix(d, "twigmt.")) {
				wrote[d] = true
			}
			if mut(e) {
				for s := 0; s < shardCount; s++ {
					if x := fmt.Sprint(s); wrote["twigmt."+x] && !wrote["entries."+x] {
						lead = append(lead, i)
						break
					}
				}
			}
		}
		c.Count("points_with_group_file_ahead", int64(len(lead)))
		for n := 0; n < budget/5 && len(lead) > 0; n++ {
			chosen[lead[c.rnd.Intn(len(lead))]] = true
		}
		// points at which the key-value database is ahead of a data file
		var late []int
		kv, from := false, 0
		for i, e := range evs {
			if e.kind == 'k' && strings.HasPrefix(string(e.data), "block") {
				kv = false
			}
			if e.kind != 'w' {
				continue
			}
			d := filepath.Base(filepath.Dir(e.path))
			switch {
			case strings.HasSuffix(e.path, ".log") && !kv:
				kv, from = true, i
			case kv && (strings.HasPrefix(d, "entries.") || strings.HasPrefix(d, "twigmt.")):
				late = append(late, from)
				kv = false
			}
		}
		c.Count("points_with_kv_database_ahead", int64(len(late)))
		for n := 0; n < budget/5 && n < 3*len(late); n++ {
			chosen[late[c.rnd.Intn(len(late))]] = true
		}
		for len(chosen) < budget {
			l := ph[names[c.rnd.Intn(len(names))]]
			chosen[l[c.rnd.Intn(len(l))]] = true
		}
	}
	lo, hi := acked, acked
	phase := "open"
	jobs := make(chan imgJob)
	var wg sync.WaitGroup
	var fail imgJob
	var failText string
	for w := 0; w < 6; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				if t := cw.verify(j); t != "" {
					cw.mu.Lock()
					if failText == "" {
						fail, failText = j, t
					}
					cw.mu.Unlock()
				}
				os.RemoveAll(j.dir)
			}
		}()
	}
	var nest []imgJob
	for i, e := range evs {
		if e.kind == 'k' {
			phase = phaseOf(string(e.data), phase)
			f := strings.Fields(string(e.data))
			switch f[0] {
			case "block":
				hi, _ = strconv.Atoi(f[1])
			case "ack":
				lo, _ = strconv.Atoi(f[1])
				hi = lo
			}
		}
		v.apply(e)
		cw.mu.Lock()
		stop := failText != ""
		cw.mu.Unlock()
		if !chosen[i] || stop {
			continue
		}
		variants := 1
		if cw.mode == "power" {
			variants = 2
		}
		for k := 0; k < variants; k++ {
			cw.nImg++
			dst := filepath.Join(c.dir, fmt.Sprintf("img%05d", cw.nImg))
			what := ""
			if cw.mode == "kill" {
				var torn *sysEv
				if i+1 < len(evs) && evs[i+1].kind == 'w' && c.rnd.Intn(4) == 0 {
					torn = &evs[i+1]
					what = ", next write torn"
				}
				v.killImage(cw.root, dst, torn, c.rnd)
			} else {
				md := []int{0, 1, 1, 2}[c.rnd.Intn(4)]
				v.powerImage(cw.root, dst, md, c.rnd)
				what = fmt.Sprintf(", unsynchronized data mode %d", md)
			}
			if _, err := os.Stat(dst); err != nil {
				continue // nothing exists yet
			}
			l := lo
			if l < 0 {
				l = 0
			}
			h := hi
			if h < l {
				h = l
			}
			cont := 0
			if c.rnd.Intn(2) == 0 {
				cont = 1 + c.rnd.Intn(3)
				if c.rnd.Intn(2) == 0 {
					cont += 3 + c.rnd.Intn(6)
				}
			}
			j := imgJob{dir: dst, lo: l, hi: h, cont: cont, phase: phase,
				what: fmt.Sprintf("%s after call %d (%c %s) during %s%s", cw.mode, i, e.kind, strings.TrimPrefix(e.path, cw.root), phase, what)}
			c.Count("images", 1)
			c.Count("images_during_"+phase, 1)
			c.Distinct("%s %s %c %s %d", cw.mode, phase, e.kind, filepath.Dir(strings.TrimPrefix(e.path, cw.root)), i)
			if nested > 0 && cw.mode == "kill" && c.rnd.Intn(1+budget/nested) == 0 && len(nest) < nested {
				nd := dst + ".n"
				v.killImage(cw.root, nd, nil, c.rnd)
				jn := j
				jn.dir = nd
				nest = append(nest, jn)
			}
			jobs <- j
		}
	}
	close(jobs)
	wg.Wait()
	if failText != "" {
		c.Log("%s", fail.what)
		c.Failf("%s: last acknowledged block %d, block in progress %d: %s", fail.what, fail.lo, fail.hi, failText)
	}
	// a process killed while it recovers
	for _, j := range nest {
		cw.nestedExplore(j)
		os.RemoveAll(j.dir)
	}
}

func (cw *crashCtx) nestedExplore(j imgJob) {
	c := cw.c
	// move the image to the recorded root, so that recorded paths agree
	os.RemoveAll(cw.root)
	must(os.Rename(j.dir, cw.root))
	base := newVFS()
	must(filepath.Walk(cw.root, func(p string, st os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if st.IsDir() {
			base.names[p] = nil
		} else {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			base.names[p] = &vfile{durable: b}
		}
		return nil
	}))
	marks := filepath.Join(c.dir, "marks2")
	evs, err := record([]string{cw.self, "sub", "crashopen", cw.name, cw.ss, cw.root, marks}, cw.root, marks, filepath.Join(c.dir, "strace2"), filepath.Join(c.dir, "stderr1"), nil, 0)
	os.Remove(filepath.Join(c.dir, "strace2"))
	os.RemoveAll(cw.root)
	if err != nil {
		c.Failf("%s: %v", j.what, err)
	}
	c.Count("recoveries_recorded", 1)
	n := 0
	v := base
	for i, e := range evs {
		v.apply(e)
		if e.kind == 'k' || e.kind == 's' || strings.HasPrefix(filepath.Base(e.path), "LOG") {
			continue
		}
		n++
		if n > 400 || (len(evs) > 40 && c.rnd.Intn(len(evs)/12+1) != 0) {
			continue
		}
		cw.nImg++
		dst := filepath.Join(c.dir, fmt.Sprintf("img%05d", cw.nImg))
		v.killImage(cw.root, dst, nil, c.rnd)
		jj := imgJob{dir: dst, lo: j.lo, hi: j.hi, cont: c.rnd.Intn(3), phase: "recovery", what: fmt.Sprintf("%s; killed again during the recovery after call %d (%c %s)", j.what, i, e.kind, strings.TrimPrefix(e.path, cw.root))}
		c.Count("images", 1)
		c.Count("images_during_recovery", 1)
		c.Distinct("rec %c %s %d", e.kind, filepath.Base(e.path), i)
		t := cw.verify(jj)
		os.RemoveAll(dst)
		if t != "" {
			c.Failf("%s: last acknowledged block %d, block in progress %d: %s", jj.what, jj.lo, jj.hi, t)
		}
	}
}

func init() {
	subs["crashopen"] = func(a []string) {
		seed, _ := strconv.ParseInt(a[1], 10, 64)
		p, _ := crashScript(a[0], seed)
		applyCfg(p.Cfg)
		null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
		os.Stdout = null
		openDB(a[2], p.History).close()
	}
}

func phaseOf(m, cur string) string {
	f := strings.Fields(m)
	switch f[0] {
	case "start":
		return "creation"
	case "block":
		return "block"
	case "prune":
		return "prune"
	case "reopen":
		return "reopen"
	case "close":
		return "close"
	case "ack", "done":
		return "idle"
	}
	return cur
}

// verify reopens one image in a process of its own; "" if everything agreed.
func (cw *crashCtx) verify(j imgJob) string {
	out, errf := j.dir+".out", j.dir+".err"
	defer os.Remove(out)
	defer os.Remove(errf)
	cmd := exec.Command(cw.self, "sub", "crashverify", cw.name, cw.ss, j.dir, strconv.Itoa(j.lo), strconv.Itoa(j.hi), cw.rootsf, strconv.Itoa(j.cont), out)
	ef, err := os.Create(errf)
	must(err)
	cmd.Stdout, cmd.Stderr = ef, ef
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(240 * time.Second):
		cmd.Process.Kill()
		err = <-done
		ef.Close()
		panic("harness: reopening an image did not finish: " + j.what)
	}
	ef.Close()
	var res Result
	if b, e := os.ReadFile(out); e == nil && json.Unmarshal(b, &res) == nil {
		c := cw.c
		c.Eval(res.Evals)
		for k, n := range res.Stats {
			if k != "full_scans" && k != "chain_walks" {
				c.Count(k, n)
			}
		}
		if res.Violation != "" {
			return res.Violation
		}
		if res.Completed {
			return ""
		}
	}
	return fmt.Sprintf("reopening crashed: %v\n%s", err, tailOf(errf, 6000))
}
