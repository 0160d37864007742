package main

// C06: the proof checker accepts exactly the byte strings that hash to their stated root.

import (
	"bytes"
	"encoding/binary"
	"math/rand"

	"github.com/smartbch/moeingads/datatree"
)

// libAccepts: does the library's parser and checker accept the bytes?
func libAccepts(c *Ctx, bz []byte, what string) bool {
	ok := false
	if p, st := panics(func() {
		pp, err := datatree.BytesToProofPath(append([]byte{}, bz...))
		if err != nil {
			return
		}
		ok = pp.Check(true) == nil
	}); p != nil {
		c.Failf("the proof checker crashes on %s (%d bytes, starting %s): %v\n%s", what, len(bz), hx(bz), p, st)
	}
	return ok
}

// byDefinition: do the bytes hash to the stated root?
func byDefinition(bz []byte) bool {
	p, err := parseProof(bz)
	return err == nil && len(p.Upper) >= 1 && p.verify() == nil
}

func judgeProof(c *Ctx, bz []byte, what string) {
	w := byDefinition(bz)
	g := libAccepts(c, bz, what)
	c.Eval(1)
	if w {
		c.Count("accepted", 1)
	} else {
		c.Count("rejected", 1)
	}
	if w != g {
		c.Failf("%s: accepted=%v, but hashing to the stated root=%v (%d bytes, serial number %d)", what, g, w, len(bz), int64(binary.LittleEndian.Uint64(bz)))
	}
}

func (p *Proof) bytes() (b []byte) {
	b = binary.LittleEndian.AppendUint64(b, uint64(p.SN))
	b = append(b, p.Leaf[:]...)
	for _, h := range p.LPeer {
		b = append(b, h[:]...)
	}
	b = append(b, p.Bits[:]...)
	for _, h := range p.RPeer {
		b = append(b, h[:]...)
	}
	for _, h := range p.Upper {
		b = append(b, h[:]...)
	}
	return append(b, p.Root[:]...)
}

// reroot sets Root to what the path hashes to.
func (p *Proof) reroot() {
	p.Root = p.top()
}

func forgedProof(r *rand.Rand, upper int) *Proof {
	p := &Proof{Upper: make([]h32, upper)}
	bitsN := uint(11 + upper)
	if bitsN > 62 {
		bitsN = 62
	}
	switch r.Intn(4) {
	case 0:
		p.SN = 0
	case 1:
		p.SN = 1<<bitsN - 1
	default:
		p.SN = r.Int63() & (1<<bitsN - 1)
	}
	fill := func(h *h32) {
		if r.Intn(6) > 0 {
			r.Read(h[:])
		}
	}
	fill(&p.Leaf)
	fill(&p.Bits)
	for i := range p.LPeer {
		fill(&p.LPeer[i])
	}
	for i := range p.RPeer {
		fill(&p.RPeer[i])
	}
	for i := range p.Upper {
		fill(&p.Upper[i])
	}
	p.reroot()
	return p
}

// mutateProof presents altered copies of an acceptable proof.
func mutateProof(c *Ctx, r *rand.Rand, bz []byte, allBits bool) {
	bz = append([]byte{}, bz...)
	flip := func(i int) {
		bz[i/8] ^= 1 << (i % 8)
		judgeProof(c, bz, "a proof with one bit flipped")
		bz[i/8] ^= 1 << (i % 8)
	}
	if allBits {
		for i := 0; i < len(bz)*8; i++ {
			flip(i)
		}
		c.Count("fully_flipped_proofs", 1)
	} else {
		for i := 0; i < 64; i++ {
			flip(i)
		}
		for j := 0; j < len(bz)/32; j++ { // at least one bit of every node
			flip(64 + j*256 + r.Intn(256))
		}
	}
	cp := func() []byte { return append([]byte{}, bz...) }
	// other serial numbers
	sn := binary.LittleEndian.Uint64(bz)
	for _, s := range []uint64{sn + 1, sn - 1, sn ^ 2048, sn + 2048, sn ^ 255, sn | 1<<63, sn | 1<<62, ^sn, 0, sn << 1, sn >> 1, sn | 1<<32, r.Uint64(), r.Uint64() >> 20, r.Uint64() >> 40} {
		b := cp()
		binary.LittleEndian.PutUint64(b, s)
		judgeProof(c, b, "a proof with another serial number")
	}
	for k := uint(0); k < 64; k++ {
		b := cp()
		binary.LittleEndian.PutUint64(b, sn+1<<k)
		judgeProof(c, b, "a proof with another serial number")
	}
	nodes := (len(bz) - 8) / 32
	node := func(b []byte, i int) []byte { return b[8+32*i : 40+32*i] }
	for i := 0; i < nodes; i++ {
		for _, j := range []int{i + 1, r.Intn(nodes)} { // swapped
			if j < nodes {
				b := cp()
				copy(node(b, i), node(bz, j))
				copy(node(b, j), node(bz, i))
				judgeProof(c, b, "a proof with two nodes swapped")
			}
		}
		b := append(append([]byte{}, bz[:8+32*i]...), bz[40+32*i:]...) // dropped
		judgeProof(c, b, "a proof with a node dropped")
		x := make([]byte, 32)
		if r.Intn(2) == 0 {
			r.Read(x)
		} else {
			copy(x, node(bz, i))
		}
		b = append(append(append([]byte{}, bz[:8+32*i]...), x...), bz[8+32*i:]...) // inserted
		judgeProof(c, b, "a proof with a node inserted")
		b = cp()
		copy(node(b, i), make([]byte, 32))
		judgeProof(c, b, "a proof with a node zeroed")
	}
	for _, n := range []int{0, 1, 7, 8, 9, 31, 32, 39, 40, 8 + 32*15, 8 + 32*16, 8 + 32*17, 8 + 32*18, len(bz) - 1, len(bz) - 32, len(bz) - 33, r.Intn(len(bz))} {
		if n >= 0 && n < len(bz) {
			w := byDefinition(bz[:n])
			if g := libAccepts(c, bz[:n], "a truncated proof"); g != w {
				c.Failf("a proof truncated from %d to %d bytes: accepted=%v, hashing to the stated root=%v", len(bz), n, g, w)
			}
			c.Eval(1)
		}
	}
	for _, n := range []int{1, 31, 32, 33, 64, 256} {
		x := make([]byte, n)
		r.Read(x)
		judgeProof(c, append(cp(), x...), "a proof with bytes appended")
	}
	// several alterations that are consistent with each other must be judged by the definition
	if p, err := parseProof(bz); err == nil {
		for i := 0; i < 20; i++ {
			q := *p
			q.Upper = append([]h32{}, p.Upper...)
			switch r.Intn(5) {
			case 0:
				r.Read(q.Leaf[:])
			case 1:
				q.SN = r.Int63() & (1<<uint(11+len(q.Upper)) - 1)
			case 2:
				q.Bits[r.Intn(32)] ^= 1 << r.Intn(8)
			case 3:
				r.Read(q.LPeer[r.Intn(11)][:])
			case 4:
				q.Upper = append(q.Upper, h32{byte(i)})
			}
			q.reroot()
			judgeProof(c, q.bytes(), "a self-made proof")
		}
	}
}

// inMemory alters a proof path object; an accepted one must serialize to bytes that hash to
// the stated root, and the recorded intermediate hashes must be those of the path.
func inMemory(c *Ctx, r *rand.Rand, get func() *datatree.ProofPath) {
	orig := get()
	ob, err := datatree.CheckProof(orig)
	c.Eval(1)
	if err != nil || !byDefinition(ob) {
		c.Failf("the proof of serial number %d is rejected: %v", orig.SerialNum, err)
	}
	n := 15 + len(orig.UpperPath)
	for i := 0; i < n; i++ {
		for what := 0; what < 3; what++ {
			pp := get()
			var nd *datatree.ProofNode
			inner := true
			switch {
			case i < 11:
				nd, inner = &pp.LeftOfTwig[i], i > 0
			case i < 14:
				nd, inner = &pp.RightOfTwig[i-11], i > 11
			case i == n-1:
				nd = nil
			default:
				nd = &pp.UpperPath[i-14]
			}
			name := ""
			mustReject := true
			switch {
			case nd == nil && what == 0:
				pp.Root[r.Intn(32)] ^= 1 << r.Intn(8)
				name = "root"
			case nd == nil && what == 1:
				pp.SerialNum ^= 1 << uint(r.Intn(63))
				name = "serial number"
				mustReject = false
			case nd == nil:
				continue
			case what == 0:
				nd.SelfHash[r.Intn(32)] ^= 1 << r.Intn(8)
				name = "own hash"
				if inner {
					name = "intermediate hash"
				}
			case what == 1:
				nd.PeerHash[r.Intn(32)] ^= 1 << r.Intn(8)
				name = "sibling"
			case what == 2:
				nd.PeerAtLeft = !nd.PeerAtLeft
				name = "side"
				mustReject = nd.SelfHash != nd.PeerHash
			}
			var bz []byte
			var err error
			if p, st := panics(func() { bz, err = datatree.CheckProof(pp) }); p != nil {
				c.Failf("checking a proof path with an altered %s crashes: %v\n%s", name, p, st)
			}
			c.Eval(1)
			c.Count("altered_paths", 1)
			if err == nil && mustReject {
				c.Failf("a proof path of serial number %d with an altered %s at step %d is accepted", orig.SerialNum, name, i)
			}
			if err == nil && !byDefinition(bz) {
				c.Failf("a proof path of serial number %d with an altered %s at step %d is accepted although its bytes do not hash to the root", orig.SerialNum, name, i)
			}
		}
	}
}

func init() {
	workers["proofdb"] = func(c *Ctx, cs *Case) {
		p := profile(cs.S["prof"], c.rnd)
		p.Blocks = int(cs.n("blocks", 30))
		p.Proofs, p.ScanEvery = 0, 1<<30
		rn := newRun(c, p, "a")
		r := rn.r
		probe := func() {
			lk := rn.m.order
			full := int(cs.n("full", 2))
			for i := 0; i < int(cs.n("keys", 14)); i++ {
				k := lk[r.Intn(len(lk))]
				pr, ebz, pbz := rn.proofOf(k)
				if !libAccepts(c, pbz, "a proof the library made") || !byDefinition(pbz) {
					c.Failf("height %d: the proof of %x (serial number %d) is not acceptable", rn.h, k, pr.SN)
				}
				c.Eval(1)
				c.Distinct("proof tw%d off%d up%d", pr.SN>>11, pr.SN&2047, len(pr.Upper))
				mutateProof(c, r, pbz, i < full)
				if i == 0 {
					c.Sample("height %d key %x: %d proof bytes, serial number %d, %d upper nodes", rn.h, k, len(pbz), pr.SN, len(pr.Upper))
				}
				if ts := rn.d.trees(); ts != nil {
					t := ts[shardOf(k)]
					if g, err := t.GetProofBytesAndCheck(pr.SN, ebz); err != nil || !bytes.Equal(g, pbz) {
						c.Failf("height %d: the tree's proof of serial number %d differs from the database's: %v", rn.h, pr.SN, err)
					}
					// presented with other entry bytes or as another serial number
					bad := append([]byte{}, ebz...)
					bad[r.Intn(len(bad))] ^= 1 << r.Intn(8)
					if _, err := t.GetProofBytesAndCheck(pr.SN, bad); err == nil {
						c.Failf("height %d: the tree proves serial number %d with altered entry bytes", rn.h, pr.SN)
					}
					if _, err := t.GetProofBytesAndCheck(pr.SN^1, ebz); err == nil {
						c.Failf("height %d: the tree proves the entry of serial number %d as %d", rn.h, pr.SN, pr.SN^1)
					}
					c.Eval(3)
					if i%3 == 0 {
						inMemory(c, r, func() *datatree.ProofPath { return t.GetProof(pr.SN) })
					}
				}
			}
		}
		for b := 0; b < p.Blocks; b++ {
			rn.step(rn.genOps())
			if b%int(cs.n("every", 6)) == 5 || b == 0 {
				probe()
			}
			if b%11 == 10 {
				rn.reopen()
				probe()
			}
		}
		rn.destroy()
	}
	workers["proofmade"] = func(c *Ctx, cs *Case) {
		r := c.rnd
		for u := 0; u <= int(cs.n("upper", 53)); u++ {
			for i := 0; i < int(cs.n("per", 6)); i++ {
				p := forgedProof(r, u)
				bz := p.bytes()
				judgeProof(c, bz, "a self-made proof")
				c.Distinct("made up%d sn%x", u, p.SN)
				mutateProof(c, r, bz, i == 0 && u <= 8)
				if u == 13 && i == 0 {
					c.Sample("self-made proof of %d bytes, serial number %d, %d upper nodes", len(bz), p.SN, u)
				}
			}
		}
		// malformed bytes of every length
		for n := 0; n <= 1400; n++ {
			b := make([]byte, n)
			for i := 0; i < 3; i++ {
				if i > 0 {
					r.Read(b)
				}
				g, w := libAccepts(c, b, "random bytes"), byDefinition(b)
				c.Eval(1)
				if g != w {
					c.Failf("%d random bytes: accepted=%v, hashing to the stated root=%v", n, g, w)
				}
			}
		}
		c.Count("malformed_lengths", 1401)
	}
	register(&Check{ID: "C06", Assume: []string{"SHA-256 as implemented in the Go standard library"},
		Rule: "A case takes proofs of live keys out of databases of several shapes, or makes acceptable ones with 0 to 53 upper nodes, and presents them and altered copies (every bit or one bit per node flipped, other serial numbers, nodes swapped, dropped, inserted or zeroed, truncations, extensions, consistent forgeries, altered path objects, wrong entry bytes) and random bytes of every length to the library's checker; an independent verifier says which of them hash to the stated root. Distinct non-trivial: different (leaf group, leaf, path length) proofs or (path length, serial number) made ones.",
		Cases: func(tier string, seed int64) (out []Case) {
			n := int64(3)
			if tier == "thorough" {
				n = 8
			}
			for s := int64(0); s < n; s++ {
				for _, nm := range []string{"compact", "move", "mix", "compact8", "edge", "deact", "wide", "bigval"} {
					b := int64(40)
					if nm == "compact8" {
						b = 25
					}
					out = append(out, Case{Worker: "proofdb", Name: nm, Seed: seed*1000 + s, P: map[string]int64{"blocks": b}, S: map[string]string{"prof": nm}})
				}
				for i := int64(0); i < 4; i++ {
					out = append(out, Case{Worker: "proofmade", Name: "made", Seed: seed*1000 + s*10 + i})
				}
			}
			return
		}, Need: map[string]int64{"accepted": 1000, "rejected": 100000, "altered_paths": 1000}})
}
