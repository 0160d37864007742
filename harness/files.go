package main

// Workers for the file layer: entry files (C12), head-prunable files (C13), twig files (C14).

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"

	"github.com/smartbch/moeingads/datatree"
	"github.com/smartbch/moeingads/types"
)

// ---- C12 ----

// hostile returns bytes rich in copies, overlaps and fragments of the separator.
func hostile(r *rand.Rand, max int) []byte {
	if max <= 0 {
		return []byte{}
	}
	var b []byte
	switch r.Intn(8) {
	case 0:
		return []byte{}
	case 1: // whole copies only
		for i := 0; i < 1+r.Intn(5); i++ {
			b = append(b, magic[:]...)
		}
	case 2: // overlapping copies sharing the outer byte
		b = append(b, magic[:]...)
		for i := 0; i < 1+r.Intn(4); i++ {
			b = append(b, magic[1:]...)
		}
	case 3: // only bytes that occur in the separator
		for i := 0; i < 1+r.Intn(40); i++ {
			b = append(b, 252+byte(r.Intn(4)))
		}
	case 4:
		b = make([]byte, r.Intn(max+1))
		r.Read(b)
		for i := 0; i < r.Intn(6) && len(b) >= 8; i++ {
			copy(b[r.Intn(len(b)-7):], magic[:])
		}
	case 5: // bytes that could be mistaken for the encoding's own markers
		for i := 0; i < 1+r.Intn(20); i++ {
			b = append(b, []byte{0, 255, 255, 255, 255, 8, 0, 0, 0, 254}[r.Intn(10)])
		}
	case 6:
		b = make([]byte, r.Intn(30))
		r.Read(b)
	case 7:
		n := 1 + r.Intn(8)
		for i := 0; i < n; i++ {
			switch r.Intn(3) {
			case 0:
				b = append(b, magic[:]...)
			case 1:
				b = append(b, magic[:1+r.Intn(7)]...)
			case 2:
				b = append(b, byte(r.Intn(256)))
			}
		}
	}
	if len(b) > max {
		b = b[:max]
	}
	return b
}

var edgeInts = []int64{-1, -2, 0, 1, 2, 252, 253, 254, 255, 256, 65534, 65535, 1 << 31, 1<<31 - 1, 1 << 32, 0xFFFEFDFC, 0xFCFDFEFF, 1<<40 + 7, 1 << 55}

func anyInt(r *rand.Rand) int64 {
	switch r.Intn(3) {
	case 0:
		return edgeInts[r.Intn(len(edgeInts))]
	case 1:
		return r.Int63n(1 << 20)
	default:
		return r.Int63n(1 << 48)
	}
}

type appended struct {
	e   types.Entry
	sns []int64
	pos int64
	raw []byte // header, payload, serial numbers
}

func entryText(e *types.Entry, sns []int64) string {
	return fmt.Sprintf("key=%s value=%s next=%s heights=(%d,%d) sn=%d deactivating %d", hx(e.Key), hx(e.Value), hx(e.NextKey), e.Height, e.LastHeight, e.SerialNum, len(sns))
}

func init() {
	workers["entryfile"] = func(c *Ctx, cs *Case) {
		r := c.rnd
		bufSize := int(cs.n("buf", 1<<13))
		blkSize := bufSize * int(cs.n("blk", 8))
		maxVal := int(cs.n("maxval", 600))
		dir := filepath.Join(c.dir, "ef")
		must(os.MkdirAll(dir, 0755))
		open := func() datatree.EntryFile {
			ef, err := datatree.NewEntryFile(bufSize, blkSize, dir)
			must(err)
			return ef
		}
		ef := open()
		var all []appended
		prunedTo := 0
		gen := func() (e types.Entry, sns []int64) {
			e = types.Entry{Key: hostile(r, maxVal), Value: hostile(r, maxVal), NextKey: hostile(r, maxVal), Height: anyInt(r), LastHeight: anyInt(r), SerialNum: anyInt(r)}
			if r.Intn(20) == 0 {
				e.Value = make([]byte, r.Intn(bufSize*9/10-200))
				r.Read(e.Value)
				if r.Intn(2) == 0 && len(e.Value) > 100 {
					for i := 0; i < 50; i++ {
						copy(e.Value[r.Intn(len(e.Value)-8):], magic[:])
					}
				}
			}
			if r.Intn(4) == 0 { // the length of the next string completes the separator
				n := 1
				if bufSize > 80000 && r.Intn(8) == 0 {
					n = 2
				}
				l := 255
				if n == 2 {
					l = 65534
				}
				head := append(hostile(r, 40), magic[:8-n]...)
				if e.Key, e.Value = head, make([]byte, l); r.Intn(2) == 0 {
					e.Key, e.Value, e.NextKey = hostile(r, 60), head, make([]byte, l)
				}
				c.Count("entries_whose_length_field_ends_a_separator", 1)
			} else if r.Intn(3) == 0 {
				e.Key, e.NextKey = make([]byte, 8), make([]byte, 8)
				r.Read(e.Key)
				r.Read(e.NextKey)
			}
			n := 0
			switch r.Intn(6) {
			case 0:
				n = 1 + r.Intn(4)
			case 1:
				n = 65
			case 2:
				n = r.Intn(256)
			case 3:
				if r.Intn(4) == 0 {
					n = 255
				}
			}
			for i := 0; i < n; i++ {
				sns = append(sns, anyInt(r))
			}
			return
		}
		rounds := int(cs.n("rounds", 60))
		for rd := 0; rd < rounds; rd++ {
			for i := 0; i < int(cs.n("per", 40)); i++ {
				e, sns := gen()
				for len(datatree.EntryToBytes(e, sns)) > bufSize { // the file refuses those
					e, sns = gen()
				}
				c.Log("append %s", entryText(&e, sns))
				b := datatree.EntryToBytes(e, sns)
				raw := append([]byte{}, b...)
				var pos int64
				if r.Intn(3) == 0 { // the way compaction appends: payload and serial numbers apart
					b2 := datatree.EntryToBytes(e, nil)
					b2[0] = byte(len(sns))
					pos = ef.Append([2][]byte{b2, datatree.SNListToBytes(sns)})
					if !bytes.Equal(append(append([]byte{}, b2...), datatree.SNListToBytes(sns)...), raw) {
						c.Failf("an entry is encoded differently with its serial numbers apart: %s", entryText(&e, sns))
					}
				} else {
					pos = ef.Append([2][]byte{b, nil})
				}
				checkStored(c, raw, &e, sns)
				all = append(all, appended{e, sns, pos, raw})
				if n := bytes.Count(append(append(append([]byte{}, e.Key...), e.Value...), e.NextKey...), magic[:]); n > 0 {
					c.Count("entries_with_separators", 1)
					c.Max("max_separators_in_entry", int64(n))
				}
				c.Count("entries", 1)
			}
			ef.Flush()
			if r.Intn(4) == 0 {
				ef.Close()
				ef = open()
				c.Count("reopens", 1)
			}
			if r.Intn(12) == 0 && len(all)-prunedTo > 50 {
				prunedTo += r.Intn((len(all) - prunedTo) / 2)
				ef.PruneHead(all[prunedTo].pos)
				c.Count("prunes", 1)
			}
			// sequential scan from a random entry
			from := prunedTo + r.Intn(len(all)-prunedTo)
			if r.Intn(3) == 0 {
				from = len(all) - 1 - r.Intn(min64(len(all)-prunedTo, 200))
			}
			pos := all[from].pos
			for j := from; j < len(all); j++ {
				a := &all[j]
				e, sns, next := ef.ReadEntryAndSNList(pos)
				sameEntry(c, "scan", e, a)
				if !sameInts(sns, a.sns) {
					c.Failf("entry at %d: reads back deactivated serial numbers %v, appended %v", a.pos, sns, a.sns)
				}
				c.Eval(1)
				want := ef.Size()
				if j+1 < len(all) {
					want = all[j+1].pos
				}
				if next != want && !(next < want && (want/int64(blkSize)) != (a.pos/int64(blkSize))) {
					c.Failf("scan: the entry after %d is said to be at %d, it is at %d", a.pos, next, want)
				}
				if next != want {
					c.Failf("scan: the entry after %d (file %d) is said to be at %d, it is at %d", a.pos, a.pos/int64(blkSize), next, want)
				}
				pos = next
				if j-from > 400 {
					break
				}
			}
			// random order, all readers
			for i := 0; i < 60; i++ {
				a := &all[prunedTo+r.Intn(len(all)-prunedTo)]
				sameEntry(c, "single read", ef.ReadEntry(a.pos), a)
				if bz := ef.ReadEntryBytesForProof(a.pos); !bytes.Equal(bz, a.raw) {
					c.Failf("entry at %d: bytes for the proof %s, appended %s", a.pos, hx(bz), hx(a.raw))
				}
				bz, _ := ef.ReadEntryRawBytes(a.pos)
				if !bytes.Equal(bz, a.raw[:len(a.raw)-8*len(a.sns)]) {
					c.Failf("entry at %d: raw bytes %s, appended %s", a.pos, hx(bz), hx(a.raw))
				}
				if k := datatree.ExtractKeyFromRawBytes(bz); !bytes.Equal(k, a.e.Key) {
					c.Failf("entry at %d: raw bytes give the key %s, appended %s", a.pos, hx(k), hx(a.e.Key))
				}
				if sn := datatree.ExtractSerialNum(bz); sn != a.e.SerialNum {
					c.Failf("entry at %d: raw bytes give the serial number %d, appended %d", a.pos, sn, a.e.SerialNum)
				}
				// moved: only the serial number changes
				nsn := anyInt(r)
				datatree.UpdateSerialNum(bz, nsn)
				mv := a.e
				mv.SerialNum = nsn
				bz[0] = 0
				if w := datatree.EntryToBytes(mv, nil); !bytes.Equal(bz, w) {
					c.Failf("entry at %d with a new serial number: raw bytes %s, encoded %s", a.pos, hx(bz), hx(w))
				}
				c.Eval(6)
				c.Distinct("e%d %d %d m%d", len(a.e.Key), len(a.e.Value), len(a.sns), bytes.Count(a.raw, []byte{0, 0, 0, 0, 0, 0, 0, 0}))
			}
		}
		c.Count("rollovers", ef.Size()/int64(blkSize))
		a := &all[len(all)/2]
		c.Sample("%d entries in %d bytes; e.g. at %d: %s", len(all), ef.Size(), a.pos, entryText(&a.e, a.sns))
		ef.Close()
	}
}

func min64(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func sameInts(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameEntry(c *Ctx, how string, e *types.Entry, a *appended) {
	c.Eval(1)
	w := &a.e
	if !bytes.Equal(e.Key, w.Key) || !bytes.Equal(e.Value, w.Value) || !bytes.Equal(e.NextKey, w.NextKey) || e.Height != w.Height || e.LastHeight != w.LastHeight || e.SerialNum != w.SerialNum {
		c.Failf("%s of the entry at %d: got %s, appended %s", how, a.pos, entryText(e, nil), entryText(w, a.sns))
	}
}

// checkStored: the encoding decodes (by this harness's decoder) to the entry and holds no separator.
func checkStored(c *Ctx, raw []byte, e *types.Entry, sns []int64) {
	d, used, err := decodeEntry(raw)
	if err != nil || used != len(raw) {
		c.Failf("encoding of %s is malformed: %v (%d of %d bytes)", entryText(e, sns), err, used, len(raw))
	}
	if !bytes.Equal(d.Key, e.Key) || !bytes.Equal(d.Value, e.Value) || !bytes.Equal(d.NextKey, e.NextKey) || d.Height != e.Height || d.LastHeight != e.LastHeight || d.SN != e.SerialNum || !sameInts(d.Deact, sns) {
		c.Failf("encoding of %s decodes to something else: key=%s value=%s next=%s", entryText(e, sns), hx(d.Key), hx(d.Value), hx(d.NextKey))
	}
	c.Eval(2)
	if i := bytes.Index(raw, magic[:]); i >= 0 {
		// where the three strings end
		end := len(raw) - 8*len(sns) - 24
		if i < end && i+8 > end {
			c.KnownOr("separator-across-height", "the separator appears in the stored bytes of an entry whose next key ends with %x and whose height is %d", raw[i:end], e.Height)
			return
		}
		c.Failf("the stored bytes of %s contain the separator at offset %d of %d", entryText(e, sns), i, len(raw))
	}
}

// flushwait: when the wait for a background flush returns, everything appended is in the
// files. The cases run on one processor, where the flush starts late.
func init() {
	dirSize := func(dir string) (n int64) {
		l, err := os.ReadDir(dir)
		must(err)
		for _, e := range l {
			st, err := e.Info()
			must(err)
			n += st.Size()
		}
		return
	}
	workers["flushwait"] = func(c *Ctx, cs *Case) {
		r := c.rnd
		mk := func(n string) string {
			d := filepath.Join(c.dir, n)
			must(os.MkdirAll(d, 0755))
			return d
		}
		de, dt := mk("entries"), mk("groups")
		ef, err := datatree.NewEntryFile(1<<16, 1<<19, de)
		must(err)
		tf, err := datatree.NewTwigMtFile(1<<17, 1<<20, dt)
		must(err)
		m := make([][32]byte, 4095)
		for i := 0; i < int(cs.n("rounds", 300)); i++ {
			var want int64
			be, bt := dirSize(de), dirSize(dt)
			for j := 1 + r.Intn(20); j > 0; j-- {
				b := datatree.EntryToBytes(types.Entry{Key: hostile(r, 30), Value: make([]byte, r.Intn(3000)), NextKey: hostile(r, 30), Height: 1, SerialNum: int64(i)}, nil)
				want += int64(len(b))
				ef.Append([2][]byte{b, nil})
			}
			twig := r.Intn(3) == 0
			if twig {
				r.Read(m[r.Intn(len(m))][:])
				tf.AppendTwig(m, int64(i))
			}
			ef.StartFlushing()
			tf.StartFlushing()
			ef.WaitForFlushing()
			tf.WaitForFlushing()
			ge, gt := dirSize(de), dirSize(dt)
			c.Eval(2)
			c.Count("flushes_waited_for", 2)
			c.Distinct("flush of %d bytes", ge-be)
			if ge < be+want { // separators precede the entries
				c.Failf("after the wait for the flush, the entry files hold %d bytes more, %d were appended", ge-be, want)
			}
			ef.Flush()
			tf.Flush()
			if ge2, gt2 := dirSize(de), dirSize(dt); ge2 != ge || gt2 != gt || twig && gt == bt {
				c.Failf("after the wait for the flush, the files hold %d and %d bytes; after another flush %d and %d", ge, gt, ge2, gt2)
			}
		}
		ef.Close()
		tf.Close()
	}
}

// ---- C13 ----

type hpModel struct {
	bs    int64
	files map[int64][]byte // by file number
	last  int64
}

func (m *hpModel) size() int64 { return m.last*m.bs + int64(len(m.files[m.last])) }

func (m *hpModel) append(b []byte) int64 {
	pos := m.size()
	m.files[m.last] = append(m.files[m.last], b...)
	if over := int64(len(m.files[m.last])) - m.bs; over >= 0 {
		m.last++
		m.files[m.last] = make([]byte, over)
	}
	return pos
}

func (m *hpModel) truncate(size int64) {
	for size < m.last*m.bs {
		delete(m.files, m.last)
		m.last--
	}
	m.files[m.last] = append([]byte{}, m.files[m.last][:size-m.last*m.bs]...)
}

// read returns what a read at off must give; full=false if it must fail.
func (m *hpModel) read(off int64, n int) ([]byte, bool) {
	f, ok := m.files[off/m.bs]
	p := off % m.bs
	if !ok || p+int64(n) > int64(len(f)) {
		return nil, false
	}
	return f[p : p+int64(n)], true
}

func init() {
	workers["hpfile"] = func(c *Ctx, cs *Case) {
		r := c.rnd
		bufSize := int(cs.n("buf", 4096))
		blkSize := bufSize * int(cs.n("blk", 4))
		steps := int(cs.n("steps", 6000))
		dir := filepath.Join(c.dir, "hp")
		must(os.MkdirAll(dir, 0755))
		open := func() *datatree.HPFile {
			f, err := datatree.NewHPFile(bufSize, blkSize, dir)
			if err != nil {
				c.Failf("reopening the file fails: %v", err)
			}
			f.InitPreReader()
			return f
		}
		f := open()
		m := &hpModel{bs: int64(blkSize), files: map[int64][]byte{0: nil}}
		var marks []int64 // sizes that were current at a flush
		pruned := int64(0)
		dirty := false
		try := func(off int64, n int, buffered bool) (b []byte, err error) {
			b = make([]byte, n)
			if p, _ := panics(func() { err = f.ReadAt(b, off, buffered) }); p != nil {
				err = fmt.Errorf("panic: %v", p)
			}
			return
		}
		check := func(off int64, n int, buffered bool) {
			want, ok := m.read(off, n)
			got, err := try(off, n, buffered)
			c.Eval(1)
			if ok && err != nil {
				c.Failf("reading %d bytes at %d (file size %d, buffered=%v) fails: %v", n, off, m.size(), buffered, err)
			}
			if ok && !bytes.Equal(got, want) {
				i := 0
				for got[i] == want[i] {
					i++
				}
				c.Failf("reading %d bytes at %d (file size %d, buffered=%v): byte %d is %02x, appended %02x", n, off, m.size(), buffered, i, got[i], want[i])
			}
			if !ok && err == nil {
				c.Failf("reading %d bytes at %d succeeds although the file ends at %d (buffered=%v, pruned to %d)", n, off, m.size(), buffered, pruned)
			}
			if !ok {
				c.Count("reads_refused", 1)
			}
			fn := off / m.bs
			c.Distinct("r %v %v %d %d", buffered, ok, m.last-fn, off%m.bs/64*100+int64(n)/64)
		}
		fill := func(n int) []byte {
			b := make([]byte, n)
			r.Read(b)
			return b
		}
		for s := 0; s < steps; s++ {
			switch x := r.Intn(100); {
			case x < 45: // append
				n := r.Intn(200)
				switch r.Intn(8) {
				case 0:
					n = bufSize
				case 1:
					n = r.Intn(bufSize + 1)
				case 2: // exactly to, just before and just beyond the end of the file
					n = int(m.bs) - len(m.files[m.last]) + r.Intn(5) - 2
				case 3: // exactly to the end of the buffer
					n = bufSize - len(m.files[m.last])%bufSize + r.Intn(3) - 1
				case 4:
					n = 0
				}
				if n < 0 {
					n = 0
				}
				if n > bufSize {
					n = bufSize
				}
				b := fill(n)
				var parts [][]byte
				rest := b
				for i := 0; i < r.Intn(4); i++ {
					k := r.Intn(len(rest) + 1)
					parts = append(parts, rest[:k])
					rest = rest[k:]
				}
				parts = append(parts, rest)
				c.Log("append %d bytes in %d parts at %d", n, len(parts), m.size())
				pos, err := f.Append(parts)
				if err != nil {
					c.Failf("append of %d bytes fails: %v", n, err)
				}
				last := m.last
				if w := m.append(b); pos != w {
					c.Failf("append of %d bytes returns position %d, the end of the file was %d", n, pos, w)
				}
				if m.last != last {
					c.Count("rollovers", 1)
				}
				dirty = true
				c.Count("appends", 1)
			case x < 60:
				if r.Intn(2) == 0 {
					c.Log("flush")
					f.Flush()
				} else {
					c.Log("flush in the background")
					f.StartFlushing()
					f.WaitForFlushing()
				}
				dirty = false
				marks = append(marks, m.size())
				c.Count("flushes", 1)
			case x < 64:
				if dirty {
					break
				}
				c.Log("reopen")
				must(f.Close())
				f = open()
				c.Count("reopens", 1)
			case x < 67: // truncate to an earlier flushed size
				if dirty || len(marks) == 0 {
					break
				}
				i := len(marks) - 1 - r.Intn(min64(len(marks), 1+r.Intn(40)))
				if marks[i] < (pruned/m.bs+1)*m.bs && pruned > 0 {
					break
				}
				if r.Intn(2) == 0 { // fill the read-ahead buffer first
					if sz := m.size(); sz > 50 {
						try(marks[i]-int64(r.Intn(40)), 8, true)
					}
				}
				c.Log("truncate to %d (size %d)", marks[i], m.size())
				if err := f.Truncate(marks[i]); err != nil {
					c.Failf("truncating to %d fails: %v", marks[i], err)
				}
				m.truncate(marks[i])
				marks = marks[:i+1]
				c.Count("truncations", 1)
			case x < 69: // prune the head
				if m.size() < 3*m.bs || r.Intn(2) == 0 {
					break
				}
				to := pruned + r.Int63n(m.size()-pruned)
				switch r.Intn(4) {
				case 0:
					to = to / m.bs * m.bs
				case 1:
					to = to/m.bs*m.bs - 1
				}
				if to < pruned {
					break
				}
				c.Log("prune up to %d", to)
				if err := f.PruneHead(to); err != nil {
					c.Failf("pruning up to %d fails: %v", to, err)
				}
				pruned = to
				for id := range m.files {
					if id < to/m.bs {
						// a byte at or after the pruned offset is never removed, those in
						// whole files before it are
						delete(m.files, id)
					}
				}
				c.Count("prunes", 1)
			default:
				if dirty {
					break
				}
				for i := 0; i < 6; i++ {
					sz := m.size()
					if sz == 0 {
						break
					}
					n := 1 + r.Intn(300)
					if r.Intn(10) == 0 {
						n = 1 + r.Intn(blkSize+10)
					}
					off := r.Int63n(sz)
					switch r.Intn(5) {
					case 0: // near the end
						off = sz - int64(r.Intn(2*n+1))
					case 1: // around a file boundary
						off = (off/m.bs+1)*m.bs - int64(r.Intn(2*n))
					case 2: // beyond the end
						if r.Intn(3) == 0 {
							off = sz + r.Int63n(3*m.bs)
						}
					case 3:
						off = pruned - int64(r.Intn(n+1))
					}
					if off < 0 {
						continue
					}
					check(off, n, r.Intn(2) == 0)
				}
			}
			if sz := f.Size(); sz != m.size() {
				c.Failf("size %d, %d bytes were appended", sz, m.size())
			}
			c.Eval(1)
			if s%20 == 0 && !dirty { // the files that exist
				ids, _, _ := listLog(dir)
				sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
				for id := range m.files {
					if i := sort.Search(len(ids), func(i int) bool { return ids[i] >= id }); i == len(ids) || ids[i] != id {
						c.Failf("file %d of %v is gone (pruned up to %d)", id, ids, pruned)
					}
				}
				if len(ids) != len(m.files) {
					c.Failf("%d files %v are kept, %d hold data (pruned up to %d)", len(ids), ids, len(m.files), pruned)
				}
				c.Eval(1)
			}
		}
		c.Sample("buffer %d file %d: size %d after %d steps, pruned to %d", bufSize, blkSize, m.size(), steps, pruned)
		if !dirty {
			must(f.Close())
		}
	}
}

// ---- C14 ----

// twigNodes builds the Merkle tree over 2048 leaves, node 1 being the root.
func twigNodes(leaves *[2048]h32) *[4096]h32 {
	t := new([4096]h32)
	copy(t[2048:], leaves[:])
	level := byte(0)
	for base := 1024; base >= 1; base /= 2 {
		for i := base; i < 2*base; i++ {
			t[i] = hlev(level, t[2*i][:], t[2*i+1][:])
		}
		level++
	}
	return t
}

func init() {
	workers["twigmt"] = func(c *Ctx, cs *Case) {
		r := c.rnd
		bufSize := int(cs.n("buf", 4096))
		blkSize := bufSize * int(cs.n("blk", 16))
		n := int(cs.n("twigs", 24))
		dir := filepath.Join(c.dir, "tw")
		must(os.MkdirAll(dir, 0755))
		open := func() datatree.TwigMtFile {
			tf, err := datatree.NewTwigMtFile(bufSize, blkSize, dir)
			must(err)
			return tf
		}
		tf := open()
		var trees []*[4096]h32
		var first []int64
		lo := 0
		node := func(id, hid int, cache map[int][]byte) {
			b := tf.GetHashNode(int64(id), hid, cache)
			c.Eval(1)
			if !bytes.Equal(b, trees[id][hid][:]) {
				c.Failf("group %d node %d (of %d groups, file size %d): reads %x, appended %x", id, hid, len(trees), blkSize, b, trees[id][hid])
			}
			for k, v := range cache {
				if k <= 0 || k >= 4096 || !bytes.Equal(v, trees[id][k][:]) {
					c.Failf("group %d: reading node %d leaves %x in the cache as node %d, which is %x", id, hid, v, k, trees[id][k])
				}
			}
			c.Eval(int64(len(cache)))
			c.Distinct("%d %d", id, hid)
		}
		for i := 0; i < n; i++ {
			var lv [2048]h32
			for j := range lv {
				r.Read(lv[j][:])
				if r.Intn(50) == 0 {
					lv[j] = nullLeaf
				}
			}
			t := twigNodes(&lv)
			pos := r.Int63n(1 << 50)
			if i == 0 {
				pos = 0
			}
			m := make([][32]byte, 4095)
			for j := range m {
				m[j] = t[j+1]
			}
			c.Log("append group %d", i)
			tf.AppendTwig(m, pos)
			trees = append(trees, t)
			first = append(first, pos)
			if r.Intn(3) == 0 {
				tf.StartFlushing()
				tf.WaitForFlushing()
			} else {
				tf.Flush()
			}
			if r.Intn(4) == 0 {
				c.Log("reopen")
				tf.Close()
				tf = open()
				c.Count("reopens", 1)
			}
			if len(trees)-lo > 6 && r.Intn(4) == 0 {
				lo += r.Intn((len(trees) - lo) / 2)
				c.Log("prune groups before %d", lo)
				tf.PruneHead(int64(lo) * datatree.TwigMtSize)
				c.Count("prunes", 1)
			}
			if r.Intn(5) == 0 && len(trees) > lo+3 && int64(len(trees)-1)*datatree.TwigMtSize > (int64(lo)*datatree.TwigMtSize/int64(blkSize)+1)*int64(blkSize) {
				// an interrupted block: the last group is cut off again
				sz := int64(len(trees)-1) * datatree.TwigMtSize
				if got := tf.Size(); got < sz {
					c.Failf("%d groups make %d bytes, the file says %d", len(trees), sz+datatree.TwigMtSize, got)
				}
				c.Log("truncate to %d groups", len(trees)-1)
				tf.Truncate(sz)
				trees, first = trees[:len(trees)-1], first[:len(first)-1]
				c.Count("truncations", 1)
			}
			if int64(len(trees))*datatree.TwigMtSize != tf.Size() {
				// a record that ends past a file boundary leaves its tail there
				c.Failf("%d groups make %d bytes, the file says %d", len(trees), int64(len(trees))*datatree.TwigMtSize, tf.Size())
			}
			for id := lo; id < len(trees); id++ {
				if p := tf.GetFirstEntryPos(int64(id)); p != first[id] {
					c.Failf("group %d starts at position %d, the file says %d", id, first[id], p)
				}
				c.Eval(1)
			}
			// paths as a proof reads them, one cache for each
			for k := 0; k < 20; k++ {
				id := lo + r.Intn(len(trees)-lo)
				leaf := r.Intn(2048)
				cache := map[int][]byte{}
				for l := 0; l <= 10; l++ {
					self := (2048 + leaf) >> uint(l)
					for _, hid := range []int{self, self ^ 1} {
						if _, ok := cache[hid]; !ok {
							node(id, hid, cache)
						}
					}
				}
			}
		}
		// every node of every group: with a fresh cache, in random order with a shared one
		for id := lo; id < len(trees); id++ {
			for hid := 1; hid < 4096; hid++ {
				node(id, hid, map[int][]byte{})
			}
			cache := map[int][]byte{}
			for _, x := range r.Perm(4095) {
				b := tf.GetHashNode(int64(id), x+1, cache)
				if !bytes.Equal(b, trees[id][x+1][:]) {
					c.Failf("group %d node %d, after other reads with the same cache: reads %x, appended %x", id, x+1, b, trees[id][x+1])
				}
				c.Eval(1)
			}
			c.Count("groups_read_in_full", 1)
		}
		c.Sample("%d groups in files of %d bytes (record %d bytes), groups %d..%d read in full", n, blkSize, datatree.TwigMtSize, lo, len(trees)-1)
		tf.Close()
	}

	register(&Check{ID: "C12", Assume: []string{"an entry with its serial numbers fits the file's write buffer", "heights and serial numbers below 2^56, at most 255 deactivated serial numbers per entry"},
		Rule: "A case is one entry file filled with generated entries rich in copies, overlaps and fragments of the separator; every encoding is decoded by an independent decoder, and after each flush entries are read back by all readers, in order and at random, across file boundaries, reopens and head prunes. Distinct non-trivial: different (key length, value length, number of deactivations, zeroed stretches) of entries read back.",
		Cases: func(tier string, seed int64) (out []Case) {
			n := int64(14)
			rounds := int64(60)
			if tier == "thorough" {
				n, rounds = 20, 400
			}
			for s := int64(0); s < n; s++ {
				out = append(out,
					Case{Worker: "entryfile", Name: "tiny", Seed: seed*100 + s, P: map[string]int64{"rounds": rounds, "buf": 1 << 12, "blk": 1, "maxval": 200}},
					Case{Worker: "entryfile", Name: "small", Seed: seed*100 + s, P: map[string]int64{"rounds": rounds, "buf": 1 << 13, "blk": 8, "maxval": 600}},
					Case{Worker: "entryfile", Name: "readahead", Seed: seed*100 + s, P: map[string]int64{"rounds": rounds, "buf": 1 << 17, "blk": 8, "maxval": 9000}},
					Case{Worker: "entryfile", Name: "big", Seed: seed*100 + s, P: map[string]int64{"rounds": rounds / 2, "per": 12, "buf": 1 << 20, "blk": 4, "maxval": 3000}})
			}
			return
		}, Need: map[string]int64{"entries_with_separators": 2000, "rollovers": 20, "reopens": 5, "prunes": 3}})
	register(&Check{ID: "C13", Assume: []string{"one append is at most as long as the write buffer", "truncation happens after a flush, to a size the file had after an earlier flush"},
		Rule: "A case is one random sequence of appends, flushes, roll-overs, truncations, head prunes, reopens and reads of one file, compared with byte arrays. Distinct non-trivial: different (plain or buffered, refused or not, distance from the newest file, offset and length) of reads.",
		Cases: func(tier string, seed int64) (out []Case) {
			n := int64(12)
			steps := int64(20000)
			if tier == "thorough" {
				n, steps = 16, 120000
			}
			for s := int64(0); s < n; s++ {
				for _, v := range [][2]int64{{4096, 1}, {4096, 4}, {512, 16}, {64, 8}, {1 << 16, 8}, {1 << 15, 1}} {
					st := steps
					if v[0] > 10000 {
						st /= 6
					}
					out = append(out, Case{Worker: "hpfile", Name: fmt.Sprintf("buf%d-blk%d", v[0], v[1]), Seed: seed*100 + s, P: map[string]int64{"buf": v[0], "blk": v[1], "steps": st}})
				}
			}
			return
		}, Need: map[string]int64{"rollovers": 200, "truncations": 100, "prunes": 50, "reopens": 100, "reads_refused": 100}})
	register(&Check{ID: "C14", Assume: []string{"SHA-256 as implemented in the Go standard library"},
		Rule: "A case is one twig file filled with random Merkle trees; nodes are read along random paths after every append, and all 4095 nodes of every kept group at the end (fresh cache, and one cache in random order), across file boundaries, reopens, cuts and head prunes; what reads leave in the cache is compared too. Distinct non-trivial: different (group, node) reads.",
		Cases: func(tier string, seed int64) (out []Case) {
			n, tw := int64(10), int64(24)
			if tier == "thorough" {
				n, tw = 12, 120
			}
			for s := int64(0); s < n; s++ {
				for _, v := range [][2]int64{{4096, 16}, {4096, 19}, {8192, 25}, {1 << 14, 1}, {1 << 16, 4}, {96, 700}, {2048, 37}} {
					out = append(out, Case{Worker: "twigmt", Name: fmt.Sprintf("buf%d-blk%d", v[0], v[1]), Seed: seed*100 + s, P: map[string]int64{"buf": v[0], "blk": v[1], "twigs": tw}})
				}
			}
			return
		}, Need: map[string]int64{"groups_read_in_full": 50, "reopens": 10, "prunes": 10, "truncations": 5}})
}
