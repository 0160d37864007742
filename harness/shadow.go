package main

// An independent reader of the entry files and an independent Merkle calculator.
// Nothing here calls into moeingads: it is the oracle for root hashes and proofs.

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"math/bits"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const shardCount = 8

type h32 = [32]byte

var magic = [8]byte{255, 254, 253, 252, 252, 253, 254, 255}

func hlev(level byte, a, b []byte) (r h32) {
	h := sha256.New()
	h.Write([]byte{level})
	h.Write(a)
	h.Write(b)
	copy(r[:], h.Sum(nil))
	return
}

var nullLeaf, nullLeft, nullBits, nullTwig h32
var nullUpper [64]h32

func init() {
	b := make([]byte, 44)
	b[1] = 40
	for i := 4; i < 8; i++ {
		b[i] = 0xFF
	}
	for i := 20; i < 44; i++ {
		b[i] = 0xFF
	}
	nullLeaf = sha256.Sum256(b)
	nullLeft = nullLeaf
	for l := 0; l <= 10; l++ {
		nullLeft = hlev(byte(l), nullLeft[:], nullLeft[:])
	}
	var z [256]byte
	nullBits = bitsRoot(&z)
	nullTwig = hlev(11, nullLeft[:], nullBits[:])
	nullUpper[13] = hlev(12, nullTwig[:], nullTwig[:])
	for i := 14; i < 64; i++ {
		nullUpper[i] = hlev(byte(i-1), nullUpper[i-1][:], nullUpper[i-1][:])
	}
}

func bitsRoot(b *[256]byte) h32 {
	var l1 [4]h32
	for i := range l1 {
		l1[i] = hlev(8, b[64*i:64*i+32], b[64*i+32:64*i+64])
	}
	x := hlev(9, l1[0][:], l1[1][:])
	y := hlev(9, l1[2][:], l1[3][:])
	return hlev(10, x[:], y[:])
}

func leafRoot(leaves *[2048]h32) h32 {
	cur := make([]h32, 2048)
	copy(cur, leaves[:])
	for l := 0; l <= 10; l++ {
		n := len(cur) / 2
		for i := 0; i < n; i++ {
			cur[i] = hlev(byte(l), cur[2*i][:], cur[2*i+1][:])
		}
		cur = cur[:n]
	}
	return cur[0]
}

// RawEntry is an entry as decoded by this file's own parser.
type RawEntry struct {
	Key, Value, NextKey []byte
	Height, LastHeight  int64
	SN                  int64
	Deact               []int64
	Pos, NextPos        int64
	Hash                h32
	Shard               int
}

func (e *RawEntry) dummy() bool { return string(e.Key) == "dummy" }

// decodeEntry parses header+payload+SN list (without leading magic and padding).
func decodeEntry(b []byte) (e *RawEntry, used int, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("malformed entry: %v", r)
		}
	}()
	if len(b) < 8 {
		return nil, 0, errors.New("short entry")
	}
	nsn := int(b[0])
	plen := int(b[1]) | int(b[2])<<8 | int(b[3])<<16
	used = 4 + plen + 8*nsn
	if len(b) < used {
		return nil, used, fmt.Errorf("entry of %d bytes, only %d there", used, len(b))
	}
	e = &RawEntry{Hash: sha256.Sum256(b[:used])}
	p := append([]byte{}, b[4:4+plen]...)
	n := 0
	for {
		v := binary.LittleEndian.Uint32(p[n:])
		n += 4
		if v == 0xFFFFFFFF {
			break
		}
		copy(p[int(v)+4:int(v)+12], magic[:])
	}
	q := p[n:]
	take := func() []byte {
		l := int(binary.LittleEndian.Uint32(q))
		r := q[4 : 4+l]
		q = q[4+l:]
		return r
	}
	e.Key = take()
	e.Value = take()
	e.NextKey = take()
	if len(q) != 24 {
		return nil, used, fmt.Errorf("entry has %d bytes after its three strings, want 24", len(q))
	}
	e.Height = int64(binary.LittleEndian.Uint64(q))
	e.LastHeight = int64(binary.LittleEndian.Uint64(q[8:]))
	e.SN = int64(binary.LittleEndian.Uint64(q[16:]))
	sn := b[4+plen : used]
	for i := 0; i < nsn; i++ {
		e.Deact = append(e.Deact, int64(binary.LittleEndian.Uint64(sn[8*i:])))
	}
	return e, used, nil
}

type logFile struct {
	dir   string
	files map[int64]*os.File
}

func listLog(dir string) (ids []int64, bs int64, err error) {
	des, err := os.ReadDir(dir)
	if err != nil {
		return nil, 0, err
	}
	for _, de := range des {
		p := strings.Split(de.Name(), "-")
		if len(p) != 2 {
			continue
		}
		id, e1 := strconv.ParseInt(p[0], 10, 64)
		b, e2 := strconv.ParseInt(p[1], 10, 64)
		if e1 != nil || e2 != nil {
			continue
		}
		bs = b
		ids = append(ids, id)
	}
	return
}

// readLog returns the bytes at linear offset off up to the end of that file.
func readLog(dir string, bs, off int64) ([]byte, error) {
	id := off / bs
	f, err := os.Open(filepath.Join(dir, fmt.Sprintf("%d-%d", id, bs)))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	st, err := f.Stat()
	if err != nil {
		return nil, err
	}
	p := off % bs
	if p >= st.Size() {
		return nil, nil
	}
	b := make([]byte, st.Size()-p)
	n, err := f.ReadAt(b, p)
	return b[:n], err
}

type twigShadow struct {
	leaves   *[2048]h32
	left     h32
	bits     [256]byte
	root     h32
	dirtyL   bool
	dirtyB   bool
	firstPos int64
	nActive  int
	full     bool
}

func (t *twigShadow) get(i int64) bool { return t.bits[i>>3]&(1<<(uint(i)&7)) != 0 }

// ShardShadow follows one shard's entry log.
type ShardShadow struct {
	id      int
	dir     string
	pos     int64
	nextSN  int64
	twigs   []*twigShadow
	live    map[int64]*RawEntry
	keep    bool // keep leaves of full twigs (for proof cross checks)
	entries int64
	rolls   int64
	bs      int64
}

func newTwigShadow() *twigShadow {
	t := &twigShadow{leaves: new([2048]h32), dirtyL: true, dirtyB: true, firstPos: -1}
	for i := range t.leaves {
		t.leaves[i] = nullLeaf
	}
	return t
}

func newShardShadow(dbdir string, i int) *ShardShadow {
	return &ShardShadow{id: i, dir: filepath.Join(dbdir, fmt.Sprintf("entries.%d", i)),
		twigs: []*twigShadow{newTwigShadow()}, live: map[int64]*RawEntry{}}
}

// advance reads everything appended since the last call and returns it.
func (s *ShardShadow) advance(limit int64) (out []*RawEntry, err error) {
	_, bs, err := listLog(s.dir)
	if err != nil {
		return nil, err
	}
	s.bs = bs
	for {
		if limit >= 0 && s.pos >= limit {
			break
		}
		buf, err := readLog(s.dir, bs, s.pos)
		if err != nil {
			return out, fmt.Errorf("shard %d pos %d: %v", s.id, s.pos, err)
		}
		if len(buf) == 0 {
			break
		}
		cur := s.pos / bs
		off := int64(0)
		for off < int64(len(buf)) && (s.pos)/bs == cur {
			if limit >= 0 && s.pos >= limit {
				break
			}
			b := buf[off:]
			if len(b) < 12 || !bytes.Equal(b[:8], magic[:]) {
				return out, fmt.Errorf("shard %d: no entry header at %d (%d bytes left in file)", s.id, s.pos, len(b))
			}
			e, used, err := decodeEntry(b[8:])
			if err != nil {
				return out, fmt.Errorf("shard %d: entry at %d: %v", s.id, s.pos, err)
			}
			tot := int64(8+used+7) &^ 7
			if tot > int64(len(b)) {
				return out, fmt.Errorf("shard %d: entry at %d truncated", s.id, s.pos)
			}
			for _, z := range b[8+used : tot] {
				if z != 0 {
					return out, fmt.Errorf("shard %d: non-zero padding at %d", s.id, s.pos)
				}
			}
			e.Pos = s.pos
			e.Shard = s.id
			s.pos += tot
			e.NextPos = s.pos
			off += tot
			if err := s.apply(e); err != nil {
				return out, err
			}
			out = append(out, e)
		}
		if s.pos/bs != cur {
			s.rolls++
		}
	}
	return out, nil
}

func (s *ShardShadow) apply(e *RawEntry) error {
	if e.SN != s.nextSN {
		return fmt.Errorf("shard %d: serial number %d at position %d, want %d", s.id, e.SN, e.Pos, s.nextSN)
	}
	s.entries++
	t := s.twigs[e.SN>>11]
	i := e.SN & 2047
	if i == 0 {
		t.firstPos = e.Pos
	}
	t.leaves[i] = e.Hash
	t.dirtyL = true
	if !e.dummy() {
		t.bits[i>>3] |= 1 << (uint(i) & 7)
		t.dirtyB = true
		t.nActive++
		s.live[e.SN] = e
	}
	for _, sn := range e.Deact {
		if sn < 0 || sn > e.SN {
			return fmt.Errorf("shard %d: entry %d deactivates serial number %d", s.id, e.SN, sn)
		}
		tt := s.twigs[sn>>11]
		j := sn & 2047
		if tt.get(j) {
			tt.nActive--
		}
		tt.bits[j>>3] &^= 1 << (uint(j) & 7)
		tt.dirtyB = true
		delete(s.live, sn)
	}
	s.nextSN++
	if s.nextSN&2047 == 0 {
		t.full = true
		s.twigs = append(s.twigs, newTwigShadow())
	}
	return nil
}

func (s *ShardShadow) root() h32 {
	lvl := make([]h32, len(s.twigs))
	for i, t := range s.twigs {
		if t.dirtyL {
			t.left = leafRoot(t.leaves)
			t.dirtyL = false
			t.dirtyB = true
			if t.full && !s.keep {
				t.leaves = nil
			}
		}
		if t.dirtyB {
			r := bitsRoot(&t.bits)
			t.root = hlev(11, t.left[:], r[:])
			t.dirtyB = false
		}
		lvl[i] = t.root
	}
	y := uint64(len(s.twigs) - 1)
	max := 12 + bits.Len64(y)
	for l := 13; l <= max; l++ {
		n := (len(lvl) + 1) / 2
		nx := make([]h32, n)
		for i := 0; i < n; i++ {
			var r h32
			if 2*i+1 < len(lvl) {
				r = lvl[2*i+1]
			} else if l == 13 {
				r = nullTwig
			} else {
				r = nullUpper[l] // the padding the tree defines for a missing right child
			}
			nx[i] = hlev(byte(l-1), lvl[2*i][:], r[:])
		}
		lvl = nx
	}
	return lvl[0]
}

// Shadow is the whole database.
type Shadow struct{ sh [shardCount]*ShardShadow }

func newShadow(dir string) *Shadow {
	s := &Shadow{}
	for i := range s.sh {
		s.sh[i] = newShardShadow(dir, i)
	}
	return s
}

func combineRoots(r [shardCount]h32) h32 {
	cat := func(a, b h32) h32 { return sha256.Sum256(append(append([]byte{}, a[:]...), b[:]...)) }
	return cat(cat(cat(r[0], r[1]), cat(r[2], r[3])), cat(cat(r[4], r[5]), cat(r[6], r[7])))
}

func (s *Shadow) roots() (r [shardCount]h32) {
	done := make(chan int, shardCount)
	for i := range s.sh {
		go func(i int) { r[i] = s.sh[i].root(); done <- i }(i)
	}
	for range s.sh {
		<-done
	}
	return
}

// Proof is a proof path as parsed by this file.
type Proof struct {
	SN    int64
	Leaf  h32
	LPeer [11]h32
	Bits  h32
	RPeer [3]h32
	Upper []h32
	Root  h32
}

func parseProof(bz []byte) (*Proof, error) {
	n := len(bz) - 8
	if n < 0 || n%32 != 0 || n/32 < 17 {
		return nil, fmt.Errorf("proof of %d bytes", len(bz))
	}
	p := &Proof{SN: int64(binary.LittleEndian.Uint64(bz))}
	bz = bz[8:]
	next := func() (h h32) { copy(h[:], bz); bz = bz[32:]; return }
	p.Leaf = next()
	for i := range p.LPeer {
		p.LPeer[i] = next()
	}
	p.Bits = next()
	for i := range p.RPeer {
		p.RPeer[i] = next()
	}
	for len(bz) > 32 {
		p.Upper = append(p.Upper, next())
	}
	p.Root = next()
	return p, nil
}

// verify recomputes the root from the leaf and compares it with the stated one.
func (p *Proof) verify() error {
	if p.SN < 0 || (p.SN>>11)>>uint(len(p.Upper)) != 0 {
		return fmt.Errorf("serial number %d does not fit a path of %d upper nodes", p.SN, len(p.Upper))
	}
	if p.top() != p.Root {
		return errors.New("path does not hash to the stated root")
	}
	return nil
}

// top is the root that the path hashes to.
func (p *Proof) top() h32 {
	join := func(level int, self, peer h32, bit uint) h32 {
		if (p.SN>>bit)&1 == 1 {
			return hlev(byte(level), peer[:], self[:])
		}
		return hlev(byte(level), self[:], peer[:])
	}
	l := p.Leaf
	for i := 0; i < 11; i++ {
		l = join(i, l, p.LPeer[i], uint(i))
	}
	r := p.Bits
	for i := 0; i < 3; i++ {
		r = join(8+i, r, p.RPeer[i], uint(8+i))
	}
	h := hlev(11, l[:], r[:])
	for i, u := range p.Upper {
		h = join(12+i, h, u, uint(11+i))
	}
	return h
}

func (p *Proof) active() bool {
	off := uint(p.SN & 255)
	return p.Bits[off>>3]&(1<<(off&7)) != 0
}
