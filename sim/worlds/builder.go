package worlds

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/fees"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"

	"verifsim/engine"
	"verifsim/ref"
)

func init() {
	All["builder"] = &World{Name: "builder", Run: builderWorld, Props: []string{"C01", "C02", "C03", "C04", "C05"},
		Real: []string{"tx", "fees", "address", "bip32", "crypto", "crypto/edwards25519", "fxamacker/cbor"},
		Stub: []string{"callers and their crash/restart journal (simulated tasks)", "map iteration order (seeded)", "goroutine scheduling at library statements (seeded)"}}
}

type sharedOut struct {
	o   *tx.TxOutput
	rec outRec
}
type sharedIn struct {
	i   *tx.TxInput
	rec inRec
}

// builtTx is a transaction some Build returned, watched until the end of the run.
type builtTx struct {
	t     *tx.Tx
	first []byte
	w     *want
	id    int
	busy  bool
	// change was requested and nothing but signing came after it
	settled bool
}

// bld is one builder with the model of what was done to it.
type bld struct {
	id      int
	tb      *tx.TxBuilder
	w       want
	pr      protocol.Protocol
	keys0   []key // keys the builder was created with
	slice   []bip32.XPrv
	journal []jop
	busy    bool   // its caller is in the middle of a step
	looked  int    // callers reading it in a check
	owned   []int  // outputs (indices) whose objects only this builder uses
	ownedIn []int  // the same for inputs
	big     uint64 // the one input whose amount needs all 64 bits
	// feeOK: change was added and since then nothing but permitted calls happened
	feeOK     bool
	feeKeys   int
	builtHash map[int][]byte // journal length -> body bytes
	dropped   bool
	noReplay  bool // an object in the journal was edited in place
}

type jop struct {
	query bool
	f     func(b *bld)
}

type bworld struct {
	s      *engine.Sim
	keys   []key
	slices [][]bip32.XPrv // caller-owned key slices with spare capacity
	skeys  [][]key
	ins    []sharedIn
	outs   []sharedOut
	addrs  []address.Address
	raws   [][]byte
	built  []*builtTx
	blds   []*bld
	nb     int
	nbuilt int
}

type bcaller struct {
	w    *bworld
	id   int
	cur  *bld
	mine []*bld
	// the caller's own slices, which it passes to several builders and goes on using
	sins  []*tx.TxInput
	srecs []inRec
	souts []*tx.TxOutput
	sorec []outRec
	refs  []inRec // inputs named so far
}

func drawFeeParams(s *engine.Sim) (a, b uint) {
	switch s.Draw(7) {
	case 0, 1:
		return 44, 155381
	case 2:
		return 0, uint(s.Draw(1 << 20))
	case 3:
		// fee close to a width boundary of its own encoding
		a = uint(1 + s.Draw(3))
		edge := []uint{256, 65536, 1 << 32}[s.Draw(3)]
		d := a * uint(150+s.Draw(400))
		if edge > d {
			b = edge - d
		}
		return a, b
	case 4:
		return uint(1 + s.Draw(2000)), uint(s.Draw(1000))
	case 5:
		return uint(s.Draw(500)), uint(s.Draw(1 << 30))
	}
	return 1, 0
}

func builderWorld(s *engine.Sim, prop string) {
	w := &bworld{s: s}
	nk := 1 + s.Draw(4)
	if s.Pct(4) {
		nk = []int{16, 17, 23, 24, 25, 33}[s.Draw(6)]
		s.Probe("many-keys")
	}
	for i := 0; i < nk; i++ {
		w.keys = append(w.keys, drawKey(s))
	}
	for i := 0; i < 1+s.Draw(3); i++ {
		n := s.Draw(4)
		if nk > 10 && s.Pct(50) {
			n = nk
		}
		sl := make([]bip32.XPrv, 0, n+s.Draw(5))
		var ks []key
		for j := 0; j < n; j++ {
			k := w.keys[s.Draw(nk)]
			sl = append(sl, k.lib)
			ks = append(ks, k)
		}
		w.slices = append(w.slices, sl)
		w.skeys = append(w.skeys, ks)
	}
	na := 2 + s.Draw(4)
	for i := 0; i < na; i++ {
		a, r := drawAddr(s, byte(s.Draw(2)), i == 0)
		w.addrs, w.raws = append(w.addrs, a), append(w.raws, r)
	}
	for i := 0; i < 3; i++ {
		h := hexHash(s)
		ix, am := uint16(s.U64()), w.amount()
		w.ins = append(w.ins, sharedIn{tx.NewTxInput(h, ix, uint(am)), inRec{h, uint64(ix), am}})
		j := s.Draw(na)
		am = w.amount()
		w.outs = append(w.outs, sharedOut{tx.NewTxOutput(w.addrs[j], uint(am)), outRec{w.raws[j], am}})
	}
	nc := 1 + s.Draw(3)
	s.SetPreempt(nc > 1 && s.Pct(60))
	for i := 0; i < nc; i++ {
		c := &bcaller{w: w, id: i}
		s.Go(fmt.Sprintf("caller%d", i), func() { c.run(2 + s.Draw(3)) })
	}
	s.Final(func() {
		for _, b := range w.built {
			w.checkBuilt(b, "final")
		}
		for _, b := range w.blds {
			if !b.busy {
				w.checkBuilder(b, "final")
			}
		}
		s.Note("callers=%d keys=%d built=%d builders=%d", nc, nk, len(w.built), len(w.blds))
	})
}

// amount draws a lovelace amount within the supply.
func (w *bworld) amount() uint64 {
	s := w.s
	switch s.Draw(5) {
	case 0:
		return 1000000 + uint64(s.Draw(100))*1000000
	case 1:
		return uint64(s.Draw(1 << 30))
	case 2:
		e := []uint64{0, 1, 23, 24, 255, 256, 65535, 65536, 1<<32 - 1, 1 << 32, 1 << 33}
		return e[s.Draw(len(e))]
	case 3:
		return uint64(s.Draw(1<<30)) * uint64(1+s.Draw(1<<24))
	}
	return uint64(s.Draw(1000))
}

func (c *bcaller) newBuilder() {
	w, s := c.w, c.w.s
	a, b := drawFeeParams(s)
	pr := protocol.Protocol{TxFeePerByte: a, TxFeeFixed: b, MaxTxSize: 16384}
	if s.Pct(50) {
		pr.MinUTXOValue = []uint{1, 1000, 34482, 999978, 1000000, 1 << 33}[s.Draw(6)]
		pr.MaxTxSize = []uint{0, 300, 4096, 16384, 1 << 20}[s.Draw(5)]
		pr.ProtocolVersion = protocol.ProtocolVersion{Major: uint8(s.Draw(10)), Minor: uint8(s.Draw(3))}
	}
	var sl []bip32.XPrv
	var ks []key
	priv := false
	if s.Pct(55) {
		i := s.Draw(len(w.slices))
		sl, ks = w.slices[i], w.skeys[i]
	} else {
		n := s.Draw(3)
		sl = make([]bip32.XPrv, 0, n+s.Draw(3))
		for j := 0; j < n; j++ {
			k := w.keys[s.Draw(len(w.keys))]
			sl = append(sl, k.lib)
			ks = append(ks, k)
		}
		priv = true
	}
	bl := &bld{id: w.nb, pr: pr, builtHash: map[int][]byte{}}
	w.nb++
	bl.keys0 = append([]key(nil), ks...)
	bl.w.keys = append([]key(nil), ks...)
	if priv {
		bl.slice = sl
	}
	s.Op("builder%d new keys=%d a=%d b=%d", bl.id, len(ks), a, b)
	ok := s.Guard("C01,C02,C03,C04,C05", "NewTxBuilder", func() { bl.tb = tx.NewTxBuilder(pr, sl) })
	if !ok {
		return
	}
	w.blds = append(w.blds, bl)
	c.mine = append(c.mine, bl)
	c.cur = bl
}

// do runs one library call on b, records it in the journal, and re-reads everything.
func (c *bcaller) do(b *bld, query bool, name string, f func(b *bld)) bool {
	s := c.w.s
	if !s.Guard("C01,C02,C03,C04,C05", name, func() { f(b) }) {
		c.drop() // the panic is recorded; abandon the builder
		return false
	}
	b.journal = append(b.journal, jop{query, f})
	return true
}

func (c *bcaller) run(rounds int) {
	s := c.w.s
	for r := 0; r < rounds; r++ {
		if c.cur == nil || s.Pct(30) {
			c.newBuilder()
			if c.cur == nil {
				return
			}
		} else if len(c.mine) > 1 && s.Pct(30) {
			c.cur = c.mine[s.Draw(len(c.mine))]
		}
		if s.Pct(60) {
			c.flow()
		} else {
			n := 1 + s.Draw(8)
			for i := 0; i < n && c.cur != nil; i++ {
				c.step(s.Draw(14))
			}
		}
		c.recheck()
		if c.cur != nil && s.Pct(35) {
			c.restart()
		}
	}
}

// flow is the usual sequence, with the amounts steered to interesting remainders.
func (c *bcaller) flow() {
	s := c.w.s
	ops := []int{0, 1}
	if s.Pct(50) {
		ops = append(ops, 1)
	}
	if s.Pct(40) {
		ops = append(ops, 0)
	}
	if s.Pct(70) {
		ops = append(ops, 2)
	}
	if s.Pct(35) {
		ops = append(ops, 6)
	}
	if s.Pct(20) {
		ops = append(ops, 4)
	}
	if s.Pct(30) {
		ops = append(ops, 3)
	}
	for _, o := range ops {
		if c.cur == nil {
			return
		}
		c.step(o)
	}
	if c.cur != nil && s.Pct(70) {
		c.steer()
	}
	if c.cur == nil {
		return
	}
	c.step(5)
	if c.cur != nil && len(c.cur.w.keys) == 0 {
		c.step(3)
	}
	if c.cur != nil && s.Pct(15) {
		c.step(8)
	}
	if c.cur != nil {
		c.step(7)
	}
	if c.cur != nil && s.Pct(25) {
		c.step(7)
	}
}

func total(rs []inRec) *big.Int {
	t := new(big.Int)
	for _, r := range rs {
		t.Add(t, new(big.Int).SetUint64(r.amt))
	}
	return t
}

func totalOut(rs []outRec) *big.Int {
	t := new(big.Int)
	for _, r := range rs {
		t.Add(t, new(big.Int).SetUint64(r.amt))
	}
	return t
}

// steer adds one input so that what remains after outputs lies near a chosen
// distance from the fee. The estimate comes from a scratch builder and is only a
// heuristic for choosing inputs; no check depends on it.
func (c *bcaller) steer() {
	w, s, b := c.w, c.w.s, c.cur
	c.begin(b)
	defer c.end(b)
	ch := s.Draw(len(w.addrs))
	h := hexHash(s)
	ix := uint16(s.Draw(4))
	var fee uint64
	ok := s.Guard("C02,C03", "AddChangeIfNeeded(scratch)", func() {
		t := tx.NewTxBuilder(b.pr, nil)
		for _, k := range b.w.keys {
			t.Sign(k.lib)
		}
		for _, in := range b.w.ins {
			t.AddInputs(tx.NewTxInput(in.hash, uint16(in.idx), uint(in.amt)))
		}
		o := totalOut(b.w.outs)
		o.Add(o, big.NewInt(1<<34))
		if !o.IsUint64() {
			return
		}
		t.AddInputs(tx.NewTxInput(h, ix, uint(o.Uint64())))
		for _, out := range b.tb.Tx().Body.Outputs {
			t.AddOutputs(out)
		}
		t.SetTTL(b.w.ttl)
		if b.w.meta != nil {
			t.Tx().Metadata = b.w.meta.mk()
		}
		t.AddChangeIfNeeded(w.addrs[ch])
		fee = t.Tx().Body.Fee
	})
	if !ok {
		return
	}
	deltas := []int64{0, 1, -1, 23, 24, 25, 255, 256, 257, 65535, 65536, 1<<32 - 1, 1 << 32, 199999, 200000, 200001, 1000000,
		-int64(b.pr.TxFeePerByte) * 30, -int64(b.pr.TxFeePerByte) * 64, -int64(b.pr.TxFeePerByte) * 120, -int64(fee), -int64(fee) + 1, -int64(fee) / 2}
	d := deltas[s.Draw(len(deltas))] + int64(s.Draw(12)) - 4
	need := totalOut(b.w.outs)
	need.Add(need, new(big.Int).SetUint64(fee))
	need.Add(need, big.NewInt(d))
	need.Sub(need, total(b.w.ins))
	if need.Sign() <= 0 || need.BitLen() > 62 || b.big != 0 && need.BitLen() > 54 {
		return
	}
	rec := inRec{h, uint64(ix), need.Uint64()}
	s.Op("builder%d AddInputs steer amount=%d fee~%d d=%d", b.id, rec.amt, fee, d)
	s.Probe("steered-remainder")
	in := tx.NewTxInput(h, ix, uint(rec.amt))
	b.feeOK = false
	if !c.do(b, false, "AddInputs", func(b *bld) { b.tb.AddInputs(in) }) {
		return
	}
	b.w.ins = append(b.w.ins, rec)
}

// begin takes b for a step of its caller: no check by another caller looks at it
// until the step ends and the model is up to date again, and one under way is
// waited for. (Two callers using one builder at a time is not a claim.)
func (c *bcaller) begin(b *bld) {
	b.busy = true
	for b.looked > 0 {
		c.w.s.Yield()
	}
}

func (c *bcaller) end(b *bld) {
	if !b.dropped {
		b.busy = false
	}
	c.w.s.Yield()
}

func (c *bcaller) step(op int) {
	w, s, b := c.w, c.w.s, c.cur
	c.begin(b)
	defer c.end(b)
	switch op {
	case 0: // inputs
		n := 1 + s.Draw(3)
		if s.Pct(12) {
			n = []int{22, 23, 24, 25, 60, 255, 260}[s.Draw(7)]
		}
		var ins []*tx.TxInput
		var recs []inRec
		base := hexHash(s)
		own := s.Pct(30)
		var owned []int
		for i := 0; i < n; i++ {
			if s.Pct(25) {
				x := w.ins[s.Draw(len(w.ins))]
				if s.Pct(30) {
					// an equal input, of its own: nobody else sees edits of it
					r := x.rec
					owned = append(owned, len(b.w.ins)+len(recs))
					ins, recs = append(ins, tx.NewTxInput(r.hash, uint16(r.idx), uint(r.amt))), append(recs, r)
					continue
				}
				ins, recs = append(ins, x.i), append(recs, x.rec)
				continue
			}
			h := fmt.Sprintf("%04x%s", i, base[4:])
			ix := uint16(i)
			if n < 10 {
				ix = uint16(s.U64())
			}
			am := w.amount()
			if n > 10 {
				am = uint64(1000000 + i)
			} else if !own && b.big == 0 && s.Pct(3) {
				// beyond the supply, but within the amount type: everything else
				// a builder is given adds up to less than 1<<61
				b.big = []uint64{1<<63 - 1, 1 << 63, 1<<63 + 1, ^uint64(0) - 1<<61 - uint64(s.Draw(1<<30)), 1<<62 + s.U64()>>2}[s.Draw(5)]
				am = b.big
				s.Probe("amount-above-63-bits")
			} else if len(c.refs) > 0 && s.Pct(15) {
				// the same output again, perhaps with another amount
				r := c.refs[s.Draw(len(c.refs))]
				h, ix = r.hash, uint16(r.idx)
				if r.amt < 1<<50 && s.Pct(40) {
					am = r.amt
				}
				s.Probe("same-outref-again")
			}
			c.refs = append(c.refs, inRec{h, uint64(ix), am})
			owned = append(owned, len(b.w.ins)+len(recs))
			ins, recs = append(ins, tx.NewTxInput(spell(s, h), ix, uint(am))), append(recs, inRec{h, uint64(ix), am})
		}
		if own {
			owned = nil
			if len(c.sins) == 0 || s.Pct(40) {
				c.sins = append(make([]*tx.TxInput, 0, len(ins)+4), ins...)
				c.srecs = append([]inRec(nil), recs...)
			}
			ins, recs, n = c.sins, c.srecs, len(c.sins)
			s.Probe("own-slice-passed")
		}
		given := append([]*tx.TxInput(nil), ins...)
		s.Op("builder%d AddInputs n=%d", b.id, n)
		direct := s.Pct(10)
		b.feeOK = false
		if c.do(b, false, "AddInputs", func(b *bld) {
			l := ins
			ins = append([]*tx.TxInput(nil), given...) // when replayed
			if direct {
				b.tb.Tx().AddInputs(l...)
			} else {
				b.tb.AddInputs(l...)
			}
		}) {
			b.w.ins = append(b.w.ins, recs...)
			b.ownedIn = append(b.ownedIn, owned...)
			if own && s.Pct(50) {
				h := hexHash(s)
				x, r := tx.NewTxInput(h, 7, 5), inRec{h, 7, 5}
				if s.Pct(50) {
					c.sins[0] = x
					c.srecs = append([]inRec{r}, c.srecs[1:]...)
				} else {
					c.sins, c.srecs = append(c.sins, x), append(c.srecs, r)
				}
			}
		}
	case 1: // outputs
		n := 1 + s.Draw(2)
		if s.Pct(8) {
			n = []int{22, 23, 24, 25, 60, 255, 260}[s.Draw(7)]
		}
		var outs []*tx.TxOutput
		var recs []outRec
		var owned []int
		for i := 0; i < n; i++ {
			if n < 10 && s.Pct(25) {
				x := w.outs[s.Draw(len(w.outs))]
				if s.Pct(30) {
					owned = append(owned, len(b.w.outs)+len(recs))
					outs, recs = append(outs, tx.NewTxOutput(x.o.Address, uint(x.rec.amt))), append(recs, x.rec)
					continue
				}
				outs, recs = append(outs, x.o), append(recs, x.rec)
				continue
			}
			j := s.Draw(len(w.addrs))
			am := w.amount()
			if n > 10 {
				am = uint64(s.Draw(1 << 20))
			} else if s.Pct(4) {
				am = ^uint64(0) - uint64(s.Draw(3))
			} else if b.big != 0 && s.Pct(30) {
				am = b.big - uint64(s.Draw(1<<30))*uint64(s.Draw(1<<30))
			}
			owned = append(owned, len(b.w.outs)+len(recs))
			outs, recs = append(outs, tx.NewTxOutput(w.addrs[j], uint(am))), append(recs, outRec{w.raws[j], am})
		}
		own := s.Pct(30)
		if own {
			if len(c.souts) == 0 || s.Pct(40) {
				c.souts = append(make([]*tx.TxOutput, 0, len(outs)+4), outs...)
				c.sorec = append([]outRec(nil), recs...)
			}
			outs, recs, n, owned = c.souts, c.sorec, len(c.souts), nil
		}
		given := append([]*tx.TxOutput(nil), outs...)
		s.Op("builder%d AddOutputs n=%d", b.id, n)
		b.feeOK = false
		direct := s.Pct(10)
		if c.do(b, false, "AddOutputs", func(b *bld) {
			l := outs
			outs = append([]*tx.TxOutput(nil), given...) // when replayed
			if direct {
				b.tb.Tx().AddOutputs(l...)
			} else {
				b.tb.AddOutputs(l...)
			}
		}) {
			b.w.outs = append(b.w.outs, recs...)
			b.owned = append(b.owned, owned...)
			if own && s.Pct(50) {
				j := s.Draw(len(w.addrs))
				x, r := tx.NewTxOutput(w.addrs[j], 9), outRec{w.raws[j], 9}
				if s.Pct(50) {
					c.souts[0] = x
					c.sorec = append([]outRec{r}, c.sorec[1:]...)
				} else {
					c.souts, c.sorec = append(c.souts, x), append(c.sorec, r)
				}
			}
		}
	case 2: // ttl
		ttl := uint32(s.U64())
		s.Op("builder%d SetTTL %d", b.id, ttl)
		b.feeOK = false
		if c.do(b, false, "SetTTL", func(b *bld) { b.tb.SetTTL(ttl) }) {
			b.w.ttl = ttl
		}
	case 3: // sign
		n := 1
		if len(w.keys) > 10 && s.Pct(50) {
			n = len(w.keys)
		}
		for ; n > 0 && !b.dropped; n-- {
			k := w.keys[s.Draw(len(w.keys))]
			s.Op("builder%d Sign", b.id)
			if b.feeOK && !(b.feeKeys == 0 && len(b.w.keys) == 0) {
				b.feeOK = false
			}
			kl := append(bip32.XPrv(nil), k.lib...)
			if c.do(b, false, "Sign", func(b *bld) { b.tb.Sign(kl) }) {
				b.w.keys = append(b.w.keys, k)
			}
		}
	case 4: // minimum fee
		s.Op("builder%d MinFee", b.id)
		var fee uint
		if w.queried(c, b, "MinFee", func(b *bld) { fee = b.tb.MinFee() }) && s.Pct(60) {
			var raw []byte
			var err error
			if w.queried(c, b, "Tx.Bytes", func(b *bld) { raw, err = b.tb.Tx().Bytes() }) && err == nil {
				w.checkMinFee(b, raw, uint64(fee))
			}
		}
	case 5: // change
		j := s.Draw(len(w.addrs))
		c.change(j)
	case 6: // metadata
		if s.Pct(25) {
			s.Op("builder%d Metadata=nil", b.id)
			b.feeOK = false
			if c.do(b, false, "Metadata", func(b *bld) { b.tb.Tx().Metadata = nil }) {
				b.w.meta = nil
			}
			return
		}
		m := drawMeta(s)
		s.Op("builder%d Metadata=%.60s", b.id, m.desc)
		b.feeOK = false
		if c.do(b, false, "Metadata", func(b *bld) { b.tb.Tx().Metadata = m.mk() }) {
			b.w.meta = &m
		}
	case 7: // build
		c.build()
	case 8, 9: // queries on the unfinished transaction
		q := s.Draw(6)
		name := []string{"Bytes", "Hex", "Hash", "Fee", "Body.Bytes", "Body.Hex"}[q]
		s.Op("builder%d Tx().%s", b.id, name)
		var raw []byte
		var err error
		var fee uint
		fa, fb := drawFeeParams(s)
		if !w.queried(c, b, "Tx."+name, func(b *bld) {
			t := b.tb.Tx()
			switch q {
			case 0:
				raw, err = t.Bytes()
			case 1:
				_, err = t.Hex()
			case 2:
				_, err = t.Hash()
			case 3:
				fee, err = t.Fee(fees.NewLinearFee(fa, fb))
			case 4:
				_, err = t.Body.Bytes()
			case 5:
				_, err = t.Body.Hex()
			}
		}) {
			return
		}
		if err != nil {
			s.Violate("C05", "Tx."+name+"/error", "%s of a well-formed transaction failed: %v", name, err)
			return
		}
		if q == 3 {
			if w.queried(c, b, "Tx.Bytes", func(b *bld) { raw, err = b.tb.Tx().Bytes() }) && err == nil {
				checkFee(s, "an unfinished transaction", fa, fb, fee, raw)
			}
		}
		if q == 0 {
			if r := checkConsistent(s, "unsigned", b.tb.Tx(), raw, &b.w); r != nil {
				if d := b.w.diffBody(r); d != "" {
					s.Violate("C05", "unsigned/content", "builder%d: serialized body: %s", b.id, d)
				}
			}
		}
	case 10: // the caller reuses its own key slice
		if b.slice == nil || cap(b.slice) == 0 {
			return
		}
		s.Op("builder%d caller reuses its key slice", b.id)
		k := w.keys[s.Draw(len(w.keys))]
		sl := b.slice[:cap(b.slice)]
		sl[s.Draw(len(sl))] = k.lib
		s.Probe("key-slice-reused")
		s.Yield()
	case 11: // direct edits
		switch s.Draw(8) {
		case 0:
			fee := s.U64() >> 8
			s.Op("builder%d Tx().SetFee %d", b.id, fee)
			b.feeOK = false
			if c.do(b, false, "SetFee", func(b *bld) { b.tb.Tx().SetFee(uint(fee)) }) {
				b.w.fee = fee
			}
		case 1:
			ttl := uint32(s.U64())
			s.Op("builder%d Body.TTL=%d", b.id, ttl)
			b.feeOK = false
			if c.do(b, false, "TTL", func(b *bld) { b.tb.Tx().Body.TTL = ttl }) {
				b.w.ttl = ttl
			}
		case 2:
			if len(b.owned) == 0 {
				return
			}
			i := b.owned[s.Draw(len(b.owned))]
			if i >= len(b.w.outs) {
				return
			}
			am := w.amount()
			s.Op("builder%d edit output %d amount=%d", b.id, i, am)
			b.feeOK = false
			if c.do(b, false, "edit output", func(b *bld) { b.tb.Tx().Body.Outputs[i].Amount = uint(am) }) {
				b.w.outs[i].amt = am
				b.noReplay = true
				s.Probe("output-edited-in-place")
			}
		case 3:
			if len(b.w.outs) == 0 {
				return
			}
			s.Op("builder%d drop last output", b.id)
			b.feeOK = false
			if c.do(b, false, "drop output", func(b *bld) {
				t := b.tb.Tx()
				t.Body.Outputs = t.Body.Outputs[:len(t.Body.Outputs)-1]
			}) {
				b.w.outs = b.w.outs[:len(b.w.outs)-1]
				for len(b.owned) > 0 && b.owned[len(b.owned)-1] >= len(b.w.outs) {
					b.owned = b.owned[:len(b.owned)-1]
				}
			}
		case 4:
			if len(b.w.ins) == 0 {
				return
			}
			i := s.Draw(len(b.w.ins))
			h, am := hexHash(s), w.amount()
			s.Op("builder%d replace input %d amount=%d", b.id, i, am)
			b.feeOK = false
			if c.do(b, false, "replace input", func(b *bld) { b.tb.Tx().Body.Inputs[i] = tx.NewTxInput(h, 3, uint(am)) }) {
				b.w.ins[i] = inRec{h, 3, am}
			}
		case 5:
			if len(b.w.ins) == 0 {
				return
			}
			s.Op("builder%d drop last input", b.id)
			b.feeOK = false
			if c.do(b, false, "drop input", func(b *bld) {
				t := b.tb.Tx()
				t.Body.Inputs = t.Body.Inputs[:len(t.Body.Inputs)-1]
			}) {
				b.w.ins = b.w.ins[:len(b.w.ins)-1]
				for len(b.ownedIn) > 0 && b.ownedIn[len(b.ownedIn)-1] >= len(b.w.ins) {
					b.ownedIn = b.ownedIn[:len(b.ownedIn)-1]
				}
			}
		case 6:
			if len(b.ownedIn) == 0 {
				return
			}
			i := b.ownedIn[s.Draw(len(b.ownedIn))]
			if i >= len(b.w.ins) {
				return
			}
			r := b.w.ins[i]
			switch s.Draw(3) {
			case 0:
				r.amt = w.amount()
			case 1:
				r.idx = uint64(uint16(s.U64()))
			case 2:
				r.hash = hexHash(s)
			}
			s.Op("builder%d edit input %d", b.id, i)
			b.feeOK = false
			inside := s.Pct(50)
			if c.do(b, false, "edit input", func(b *bld) {
				in := b.tb.Tx().Body.Inputs[i]
				n := tx.NewTxInput(r.hash, uint16(r.idx), uint(r.amt))
				if inside && len(in.TxHash) == len(n.TxHash) {
					copy(in.TxHash, n.TxHash)
				} else {
					in.TxHash = n.TxHash
				}
				in.Index, in.Amount = n.Index, n.Amount
			}) {
				b.w.ins[i] = r
				b.noReplay = true
				s.Probe("input-edited-in-place")
			}
		case 7:
			// a witness of the unfinished transaction is overwritten; the next build
			// replaces it, and the transactions already built keep theirs
			if len(b.tb.Tx().Witness.Keys) == 0 {
				return
			}
			s.Op("builder%d overwrite a witness", b.id)
			c.do(b, false, "overwrite a witness", func(b *bld) {
				if l := b.tb.Tx().Witness.Keys; len(l) > 0 {
					for _, part := range [][]byte{l[0].Signature, l[0].VKey} {
						for i := range part {
							part[i] ^= 0x55
						}
					}
				}
			})
			s.Probe("witness-overwritten")
		}
	case 12:
		c.newBuilder()
	case 13: // wait
		s.Sleep(1e9)
	}
}

// queried runs a call that must not change the transaction.
func (w *bworld) queried(c *bcaller, b *bld, name string, f func(b *bld)) bool {
	before := w.snap(b)
	if !c.do(b, true, name, f) {
		return false
	}
	if after := w.snap(b); after != before {
		w.s.Violate("C04", name+"/mutates", "%s changed the transaction: before %s, after %s", name, before, after)
	}
	return true
}

func (w *bworld) snap(b *bld) string {
	t := b.tb.Tx()
	var sb bytes.Buffer
	for _, i := range t.Body.Inputs {
		fmt.Fprintf(&sb, "i%x#%d:%d ", i.TxHash, i.Index, i.Amount)
	}
	for _, o := range t.Body.Outputs {
		fmt.Fprintf(&sb, "o%x:%d ", o.Address.Bytes(), o.Amount)
	}
	fmt.Fprintf(&sb, "fee=%d ttl=%d", t.Body.Fee, t.Body.TTL)
	if t.Witness != nil {
		for _, k := range t.Witness.Keys {
			fmt.Fprintf(&sb, " w%x:%x", k.VKey, k.Signature)
		}
	}
	return sb.String()
}

func (c *bcaller) change(j int) {
	w, s, b := c.w, c.w.s, c.cur
	s.Op("builder%d AddChangeIfNeeded", b.id)
	addr, raw := w.addrs[j], w.raws[j]
	if !c.do(b, false, "AddChangeIfNeeded", func(b *bld) { b.tb.AddChangeIfNeeded(addr) }) {
		return
	}
	t := b.tb.Tx()
	I, O := total(b.w.ins), totalOut(b.w.outs)
	fee := t.Body.Fee
	F := new(big.Int).SetUint64(fee)
	need := new(big.Int).Add(O, F)
	what := fmt.Sprintf("builder%d in=%v out=%v fee=%d", b.id, I, O, fee)
	n0 := len(b.w.outs)
	if len(t.Body.Outputs) < n0 {
		s.Violate("C02", "change/outputs-lost", "%s: %d of %d requested outputs left", what, len(t.Body.Outputs), n0)
		c.drop()
		return
	}
	for i, o := range b.w.outs {
		g := t.Body.Outputs[i]
		if uint64(g.Amount) != o.amt || !bytes.Equal(g.Address.Bytes(), o.raw) {
			s.Violate("C02", "change/output-altered", "%s: requested output %d altered to %x:%d", what, i, g.Address.Bytes(), g.Amount)
			c.drop()
			return
		}
	}
	added := t.Body.Outputs[n0:]
	switch I.Cmp(need) {
	case -1:
		s.Probe("change-inputs-insufficient")
		if len(added) != 0 {
			s.Violate("C02", "change/added-when-insufficient", "%s: inputs do not cover outputs and fee, yet a change output of %d was added", what, added[0].Amount)
		}
	case 0:
		s.Probe("change-remainder-zero")
		if len(added) != 0 {
			s.Violate("C02", "change/added-when-zero", "%s: nothing remains, yet an output of %d was added", what, added[0].Amount)
		}
	case 1:
		s.Probe("change-added")
		rest := new(big.Int).Sub(I, need)
		if len(added) != 1 {
			s.Violate("C02", "change/lost", "%s: %v lovelace remain but %d change outputs were added", what, rest, len(added))
		} else if new(big.Int).SetUint64(uint64(added[0].Amount)).Cmp(rest) != 0 {
			s.Violate("C02", "change/amount", "%s: change is %d, want %v", what, added[0].Amount, rest)
		} else if !bytes.Equal(added[0].Address.Bytes(), raw) {
			s.Violate("C02", "change/address", "%s: change goes to %x, want %x", what, added[0].Address.Bytes(), raw)
		}
	}
	for _, o := range added {
		b.w.outs = append(b.w.outs, outRec{append([]byte(nil), o.Address.Bytes()...), uint64(o.Amount)})
	}
	b.w.fee = fee
	b.feeOK = true
	b.feeKeys = len(b.w.keys)
}

func (c *bcaller) drop() {
	b := c.cur
	b.busy, b.dropped = true, true // never looked at again
	for i, x := range c.mine {
		if x == b {
			c.mine = append(c.mine[:i], c.mine[i+1:]...)
			break
		}
	}
	c.cur = nil
}

func (c *bcaller) build() {
	w, s, b := c.w, c.w.s, c.cur
	s.Op("builder%d Build keys=%d", b.id, len(b.w.keys))
	var t tx.Tx
	var err error
	if !c.do(b, false, "Build", func(b *bld) { t, err = b.tb.Build() }) {
		return
	}
	if err != nil {
		s.Violate("C01,C05", "Build/error", "Build of a well-formed transaction failed: %v", err)
		return
	}
	bt := &builtTx{t: &t, w: b.w.clone(), id: w.nbuilt, settled: b.feeOK}
	w.nbuilt++
	if !s.Guard("C01,C05", "built.Bytes", func() { bt.first, err = t.Bytes() }) {
		return
	}
	if err != nil {
		s.Violate("C01,C05", "built.Bytes/error", "Bytes of a built transaction failed: %v", err)
		return
	}
	w.built = append(w.built, bt)
	w.checkBuilt(bt, "built")
	if s.Pct(10) {
		// the caller makes something else of another copy; that is its own business
		var t2 tx.Tx
		if !c.do(b, false, "Build", func(b *bld) { t2, err = b.tb.Build() }) || err != nil {
			return
		}
		s.Op("builder%d scribble on a built transaction", b.id)
		s.Probe("built-overwritten")
		for _, in := range t2.Body.Inputs {
			for i := range in.TxHash {
				in.TxHash[i] ^= 0x55
			}
			in.Index, in.Amount = in.Index+1, in.Amount/2
		}
		for i, o := range t2.Body.Outputs {
			o.Amount /= 2
			if i > 0 {
				t2.Body.Outputs[i] = t2.Body.Outputs[0]
			}
		}
		for _, k := range t2.Witness.Keys {
			for _, part := range [][]byte{k.Signature, k.VKey} {
				for i := range part {
					part[i] ^= 0x55
				}
			}
		}
		t2.Body.Fee, t2.Body.TTL, t2.Metadata, t2.Valid = t2.Body.Fee+1, t2.Body.TTL+1, "changed", false
		t2.Body.Inputs = append(t2.Body.Inputs, tx.NewTxInput(hexHash(s), 1, 1))
		s.Yield()
		w.checkBuilt(bt, "after a copy was changed")
		if !b.busy {
			w.checkBuilder(b, "after a copy was changed")
		}
	}
	if s.Pct(25) {
		fa, fb := drawFeeParams(s)
		var fee uint
		if s.Guard("C03,C04", "built.Fee", func() { fee, err = t.Fee(fees.NewLinearFee(fa, fb)) }) {
			if err != nil {
				s.Violate("C03", "built.Fee/error", "Fee of a built transaction failed: %v", err)
			} else {
				checkFee(s, "a built transaction", fa, fb, fee, bt.first)
			}
		}
	}
	if r, err := ref.ReadTx(bt.first); err == nil {
		s.Ev("built%d id=%s len=%d", bt.id, r.ID, len(bt.first))
		b.builtHash[len(b.journal)] = append([]byte(nil), r.BodyRaw...)
		if b.feeOK && len(b.w.keys) > 0 {
			n := new(big.Int).SetUint64(uint64(len(bt.first)))
			A, B := new(big.Int).SetUint64(uint64(b.pr.TxFeePerByte)), new(big.Int).SetUint64(uint64(b.pr.TxFeeFixed))
			min := new(big.Int).Add(new(big.Int).Mul(A, n), B)
			max := new(big.Int).Add(new(big.Int).Mul(A, new(big.Int).Add(n, big.NewInt(200))), B)
			F := new(big.Int).SetUint64(r.Fee)
			s.Probe("fee-checked")
			if F.Cmp(min) < 0 {
				s.Violate("C03", "fee/too-low", "builder%d: fee %v is below the minimum %v for %v bytes (a=%v b=%v, %d keys, %d inputs, %d outputs)", b.id, F, min, n, A, B, len(b.w.keys), len(r.Ins), len(r.Outs))
			}
			if F.Cmp(max) > 0 {
				s.Violate("C02,C03", "fee/too-high", "builder%d: fee %v exceeds the minimum %v by more than 200 bytes' cost (a=%v b=%v, %v bytes)", b.id, F, min, A, B, n)
			}
		}
	}
}

// checkFee compares the fee reported for a transaction with the formula over its bytes.
func checkFee(s *engine.Sim, what string, a, b, fee uint, raw []byte) {
	s.Probe("fee-on-request")
	if fee != b+a*uint(len(raw)) {
		s.Violate("C03", "fee/wrong", "Fee(perByte=%d, fixed=%d) of %s of %d bytes is %d", a, b, what, len(raw), fee)
	}
}

func cborHead(n uint64) int64 {
	switch {
	case n < 24:
		return 1
	case n < 1<<8:
		return 2
	case n < 1<<16:
		return 3
	case n < 1<<32:
		return 5
	}
	return 9
}

// checkMinFee compares the minimum fee reported by b with the formula over its
// transaction with that fee, signed by the keys given so far (or one).
func (w *bworld) checkMinFee(b *bld, raw []byte, fee uint64) {
	s := w.s
	r, err := ref.ReadTx(raw)
	if err != nil {
		return
	}
	n := uint64(len(b.w.keys))
	if n == 0 {
		n = 1
	}
	size := 2 + int64(len(r.BodyRaw)) - cborHead(r.Fee) + cborHead(fee) + 2 + cborHead(n) + 101*int64(n) + int64(len(r.MetaRaw))
	A, B := new(big.Int).SetUint64(uint64(b.pr.TxFeePerByte)), new(big.Int).SetUint64(uint64(b.pr.TxFeeFixed))
	min := new(big.Int).Add(new(big.Int).Mul(A, big.NewInt(size)), B)
	max := new(big.Int).Add(min, new(big.Int).Mul(A, big.NewInt(200)))
	F := new(big.Int).SetUint64(fee)
	s.Probe("min-fee-on-request")
	if F.Cmp(min) < 0 {
		s.Violate("C03", "minfee/too-low", "builder%d: MinFee is %v, but the transaction with it needs %v for %d bytes (a=%v b=%v, %d keys)", b.id, F, min, size, A, B, n)
	}
	if F.Cmp(max) > 0 {
		s.Violate("C03", "minfee/too-high", "builder%d: MinFee is %v, the transaction with it needs %v for %d bytes (a=%v b=%v, %d keys)", b.id, F, min, size, A, B, n)
	}
}

func sameWits(a, b []ref.Witness) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i].VKey, b[i].VKey) || !bytes.Equal(a[i].Sig, b[i].Sig) {
			return false
		}
	}
	return true
}

func sameMeta(a, b []byte) bool {
	x, err := ref.Parse(a)
	y, err2 := ref.Parse(b)
	return bytes.Equal(a, b) || err == nil && err2 == nil && descItem(x) == descItem(y)
}

func holds(ks []key, vkey []byte) bool {
	for _, k := range ks {
		if bytes.Equal(k.pub[:], vkey) {
			return true
		}
	}
	return false
}

// checkBuilt re-reads a built transaction.
func (w *bworld) checkBuilt(b *builtTx, when string) {
	s := w.s
	b.busy = true
	defer func() { b.busy = false }()
	var raw []byte
	var err error
	if !s.Guard("C04,C05", "built.Bytes", func() { raw, err = b.t.Bytes() }) {
		return
	}
	if err != nil {
		s.Violate("C04,C05", "built/bytes-error", "%s: Bytes of built transaction %d failed: %v", when, b.id, err)
		return
	}
	if f, err := ref.ReadTx(b.first); err == nil && when != "built" {
		if g, err := ref.ReadTx(raw); err == nil {
			if !sameWits(f.Wits, g.Wits) {
				s.Violate("C04", "built/witnesses-changed", "the witnesses of built transaction %d changed after it was returned (%s)", b.id, when)
			}
			if f.HasMeta != g.HasMeta || f.HasMeta && !sameMeta(f.MetaRaw, g.MetaRaw) {
				s.Violate("C04", "built/metadata-changed", "the metadata of built transaction %d changed after it was returned (%s)", b.id, when)
			}
		}
	}
	r := checkConsistent(s, "built", b.t, raw, b.w)
	if r == nil {
		return
	}
	if d := b.w.diffBody(r); d != "" {
		if when == "built" {
			props := "C05"
			if b.settled {
				props = "C02,C05"
			}
			s.Violate(props, "built/content", "built transaction %d: %s", b.id, d)
		} else {
			s.Violate("C04", "built/changed", "built transaction %d changed after it was returned (%s): %s", b.id, when, d)
		}
	} else if !bytes.Equal(raw, b.first) {
		s.Violate("C05", "built/unstable-bytes", "built transaction %d serializes differently: %x then %x", b.id, b.first, raw)
	}
	for _, wit := range r.Wits {
		if !holds(b.w.keys, wit.VKey) && holds(w.keys, wit.VKey) {
			s.Violate("C04", "built/foreign-witness", "built transaction %d is signed with key %x, which was only given to another builder", b.id, wit.VKey)
		}
	}
	checkSigned(s, "built", r, b.w.keys)
	var hx string
	if s.Guard("C05", "built.Hex", func() { hx, err = b.t.Hex() }) {
		if err != nil || hx != fmt.Sprintf("%x", raw) {
			s.Violate("C05", "built/hex", "Hex of built transaction %d is not its bytes (err=%v)", b.id, err)
		}
	}
	var bb []byte
	var err2 error
	if s.Guard("C05", "built.Body", func() { bb, err = b.t.Body.Bytes(); hx, err2 = b.t.Body.Hex() }) {
		if err != nil || err2 != nil || !bytes.Equal(bb, r.BodyRaw) || hx != fmt.Sprintf("%x", r.BodyRaw) {
			s.Violate("C05", "built/body", "the body of built transaction %d printed on its own is %x / %s, in the transaction it is %x (err=%v, %v)", b.id, bb, hx, r.BodyRaw, err, err2)
		}
	}
}

// checkBuilder compares a builder's transaction with the calls made on it.
func (w *bworld) checkBuilder(b *bld, when string) {
	s := w.s
	b.looked++
	defer func() { b.looked-- }()
	t := b.tb.Tx()
	bad := ""
	if len(t.Body.Inputs) != len(b.w.ins) {
		bad = fmt.Sprintf("%d inputs, want %d", len(t.Body.Inputs), len(b.w.ins))
	} else if len(t.Body.Outputs) != len(b.w.outs) {
		bad = fmt.Sprintf("%d outputs, want %d", len(t.Body.Outputs), len(b.w.outs))
	} else if t.Body.Fee != b.w.fee {
		bad = fmt.Sprintf("fee %d, want %d", t.Body.Fee, b.w.fee)
	} else if t.Body.TTL != b.w.ttl {
		bad = fmt.Sprintf("ttl %d, want %d", t.Body.TTL, b.w.ttl)
	} else {
		for i, in := range b.w.ins {
			g := t.Body.Inputs[i]
			if fmt.Sprintf("%x", g.TxHash) != in.hash || uint64(g.Index) != in.idx || uint64(g.Amount) != in.amt {
				bad = fmt.Sprintf("input %d is %x#%d:%d, want %v", i, g.TxHash, g.Index, g.Amount, in)
			}
		}
		for i, o := range b.w.outs {
			g := t.Body.Outputs[i]
			if !bytes.Equal(g.Address.Bytes(), o.raw) || uint64(g.Amount) != o.amt {
				bad = fmt.Sprintf("output %d is %x:%d, want %x:%d", i, g.Address.Bytes(), g.Amount, o.raw, o.amt)
			}
		}
	}
	if bad != "" {
		s.Violate("C04", "builder/foreign-change", "%s: builder%d no longer matches the calls made on it: %s", when, b.id, bad)
		b.busy, b.dropped = true, true
	}
}

func (c *bcaller) recheck() {
	w := c.w
	for _, b := range w.built {
		if !b.busy {
			w.checkBuilt(b, "later")
		}
	}
	for _, b := range w.blds {
		if !b.busy {
			w.checkBuilder(b, "later")
		}
	}
}

// restart is a crash of this caller: everything but the journal of calls is lost,
// and the journal is carried out again on a fresh builder. Optionally the pure
// queries are left out, which must make no difference.
func (c *bcaller) restart() {
	w, s, b := c.w, c.w.s, c.cur
	if b.noReplay {
		return
	}
	skip := s.Pct(50)
	s.Fault("caller-crash-restart")
	s.Ev("builder%d restart journal=%d skipQueries=%v", b.id, len(b.journal), skip)
	nb := &bld{pr: b.pr}
	c.begin(b)
	defer c.end(b)
	ok := s.Guard("C01,C04,C05", "replay", func() {
		var sl []bip32.XPrv
		for _, k := range b.keys0 {
			sl = append(sl, append(bip32.XPrv(nil), k.lib...))
		}
		nb.tb = tx.NewTxBuilder(b.pr, sl)
		for i, j := range b.journal {
			if skip && j.query {
				continue
			}
			if old, ok := b.builtHash[i+1]; ok {
				t, err := nb.tb.Build()
				if err != nil {
					s.Violate("C05", "replay/build-error", "rebuilding after a restart failed: %v", err)
					return
				}
				raw, err := t.Bytes()
				if err != nil {
					s.Violate("C05", "replay/bytes-error", "serializing after a restart failed: %v", err)
					return
				}
				r, err := ref.ReadTx(raw)
				if err != nil {
					s.Violate("C05", "replay/malformed", "transaction rebuilt after a restart is malformed: %v", err)
					return
				}
				s.Probe("rebuilt-after-restart")
				if !bytes.Equal(r.BodyRaw, old) {
					p := "C05"
					if skip {
						p = "C04,C05"
					}
					s.Violate(p, "replay/different", "builder%d: the same calls after a restart (queries skipped: %v) build a different body: %x then %x", b.id, skip, old, r.BodyRaw)
				}
				continue
			}
			j.f(nb)
		}
	})
	if !ok {
		return
	}
	// carry on with the rebuilt builder
	if s.Pct(50) {
		b.tb = nb.tb
		b.slice = nil
		w.checkBuilder(b, "restarted")
	}
}
