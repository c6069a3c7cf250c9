package worlds

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"verifsim/engine"
	"verifsim/ref"
)

// The reference chain: unspent outputs, blocks with rollback, a mempool and the
// ledger rules that concern the library.

type txin struct {
	hash string
	ix   uint64
}

type asset struct {
	unit string
	qty  uint64
}

type utxo struct {
	in     txin
	addr   string // raw bytes
	amt    uint64
	assets []asset
}

func (u *utxo) String() string { return fmt.Sprintf("%s#%d:%d", u.in.hash, u.in.ix, u.amt) }

type params struct {
	a, b, max, minU uint64
	major, minor    uint64
}

type tipRec struct{ slot, epoch, height uint64 }

type ltx struct {
	t   *ref.Tx
	ext bool // made by the environment, not by the library
}

type block struct {
	txs   []*ltx
	gone  []*utxo
	fresh []*utxo
	prev  tipRec
}

type chain struct {
	batch  int // outputs that still belong to the transaction of the last one granted
	last   txin
	bulk   bool // no state is recorded: nobody has looked yet
	s      *engine.Sim
	net    byte
	slot0  uint64
	order  map[string][]*utxo // per address, oldest first
	all    map[txin]*utxo
	seen   map[string]bool // addresses that ever received something
	hist   map[string][]string
	tips   []tipRec
	pars   []params
	blocks []*block
	pool   []*ltx
	down   bool
	nonce  int
}

func newChain(s *engine.Sim, net byte) *chain {
	c := &chain{s: s, net: net, order: map[string][]*utxo{}, all: map[txin]*utxo{}, seen: map[string]bool{}, hist: map[string][]string{}}
	c.slot0 = uint64(1000 + s.Draw(60000000))
	if s.Pct(40) {
		c.slot0 = uint64(1000 + s.Draw(2000000000))
	}
	c.tips = []tipRec{{c.slot0, c.slot0 / 432000, c.slot0 / 20}}
	c.pars = []params{c.drawParams()}
	return c
}

func (c *chain) drawParams() params {
	s := c.s
	p := params{a: 44, b: 155381, max: 16384, minU: 1000000, major: uint64(s.Draw(9)), minor: uint64(s.Draw(3))}
	if s.Pct(40) {
		p.a, p.b = uint64(s.Draw(200)), uint64(s.Draw(400000))
	}
	if s.Pct(30) {
		p.max = 16384 + uint64(s.Draw(100000))
		p.minU = uint64(s.Draw(5000000))
		if s.Pct(20) {
			p.minU <<= 20
		}
	}
	return p
}

func (c *chain) slot() uint64 { return c.slot0 + uint64(c.s.Now().Seconds()) }
func (c *chain) tip() tipRec  { return c.tips[len(c.tips)-1] }
func (c *chain) par() params  { return c.pars[len(c.pars)-1] }

func (c *chain) snapshot(addr string) string {
	var l []string
	for _, u := range c.order[addr] {
		l = append(l, u.String())
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// ver is the number of the current state of an address.
func (c *chain) ver(addr string) int {
	h := c.hist[addr]
	if len(h) == 0 {
		c.hist[addr] = []string{c.snapshot(addr)}
		return 0
	}
	return len(h) - 1
}

func (c *chain) bump(addrs map[string]bool) {
	var l []string
	for a := range addrs {
		l = append(l, a)
	}
	sort.Strings(l)
	for _, a := range l {
		sn := c.snapshot(a)
		if h := c.hist[a]; len(h) == 0 || h[len(h)-1] != sn {
			c.hist[a] = append(h, sn)
		}
	}
}

func (c *chain) add(u *utxo) {
	c.all[u.in] = u
	c.order[u.addr] = append(c.order[u.addr], u)
	c.seen[u.addr] = true
}

func (c *chain) remove(u *utxo) {
	delete(c.all, u.in)
	l := c.order[u.addr]
	for i := range l {
		if l[i] == u {
			c.order[u.addr] = append(append([]*utxo(nil), l[:i]...), l[i+1:]...)
			return
		}
	}
}

// grant puts a new output on the chain as if paid by someone else.
func (c *chain) grant(raw []byte, amt uint64, assets []asset) {
	h := ref.Blake256([]byte(fmt.Sprintf("grant %d %d", c.net, c.nonce)))
	c.nonce++
	u := &utxo{in: txin{hex.EncodeToString(h[:]), uint64(c.s.Draw(4))}, addr: string(raw), amt: amt, assets: assets}
	if c.batch > 0 && c.last.hash != "" && c.last.ix < 65535 {
		// one more output of the same transaction
		c.batch--
		u.in = txin{c.last.hash, c.last.ix + 1}
	} else if c.s.Pct(5) {
		u.in.ix = uint64([]int{255, 256, 999, 65535}[c.s.Draw(4)])
	}
	c.last = u.in
	c.add(u)
	if !c.bulk {
		c.bump(map[string]bool{u.addr: true})
	}
}

// take removes an output as if spent by someone else.
func (c *chain) take(u *utxo) {
	c.remove(u)
	c.bump(map[string]bool{u.addr: true})
}

// forge makes a block out of the mempool.
func (c *chain) forge() {
	b := &block{prev: c.tip()}
	touched := map[string]bool{}
	for _, l := range c.pool {
		ok := l.t.TTL >= c.slot()
		for _, in := range l.t.Ins {
			if c.all[txin{in.Hash, in.Index}] == nil {
				ok = false
			}
		}
		if !ok {
			continue
		}
		for _, in := range l.t.Ins {
			u := c.all[txin{in.Hash, in.Index}]
			if u == nil {
				continue
			}
			c.remove(u)
			touched[u.addr] = true
			b.gone = append(b.gone, u)
		}
		for i, o := range l.t.Outs {
			u := &utxo{in: txin{l.t.ID, uint64(i)}, addr: string(o.Addr), amt: o.Amount}
			c.add(u)
			touched[u.addr] = true
			b.fresh = append(b.fresh, u)
		}
		b.txs = append(b.txs, l)
	}
	c.pool = nil
	c.blocks = append(c.blocks, b)
	t := c.tip()
	sl := c.slot()
	if sl <= t.slot {
		sl = t.slot + 1
	}
	c.tips = append(c.tips, tipRec{sl, sl / 432000, t.height + 1})
	c.bump(touched)
	c.s.Ev("net%d block %d slot %d txs %d", c.net, t.height+1, sl, len(b.txs))
}

// rollback undoes the last n blocks; their transactions return to the mempool
// when keep is set and are lost otherwise.
func (c *chain) rollback(n int, keep bool) int {
	touched := map[string]bool{}
	done := 0
	var back []*ltx
	var prev tipRec
	for ; done < n && len(c.blocks) > 0; done++ {
		b := c.blocks[len(c.blocks)-1]
		// somebody else may have spent an output of this block meanwhile
		for _, u := range b.fresh {
			if c.all[u.in] != u {
				if done > 0 {
					goto out
				}
				return 0
			}
		}
		c.blocks = c.blocks[:len(c.blocks)-1]
		for i := len(b.fresh) - 1; i >= 0; i-- {
			c.remove(b.fresh[i])
			touched[b.fresh[i].addr] = true
		}
		for _, u := range b.gone {
			c.add(u)
			touched[u.addr] = true
		}
		back = append(append([]*ltx(nil), b.txs...), back...)
		prev = b.prev
	}
out:
	if done == 0 {
		return 0
	}
	if keep {
		c.pool = append(back, c.pool...)
	}
	c.tips = append(c.tips, prev)
	c.bump(touched)
	return done
}

// view is the set of outputs spent by the mempool and created by it.
func (c *chain) lookup(in txin) (u *utxo, spent bool) {
	u = c.all[in]
	for _, l := range c.pool {
		if l.t.ID == in.hash && in.ix < uint64(len(l.t.Outs)) {
			o := l.t.Outs[in.ix]
			u = &utxo{in: in, addr: string(o.Addr), amt: o.Amount}
		}
		for _, i := range l.t.Ins {
			if i.Hash == in.hash && i.Index == in.ix {
				spent = true
			}
		}
	}
	return
}

// verdict is the ledger's answer to a submitted transaction.
type verdict struct {
	ok    bool
	class string // why not
	msg   string
	tx    *ref.Tx
	fee   bool // the minimum fee is met under the current parameters
}

func (p params) minFee(size int) uint64 { return p.a*uint64(size) + p.b }

// judge applies the ledger rules.
func (c *chain) judge(raw []byte) verdict {
	no := func(t *ref.Tx, class, f string, a ...interface{}) verdict {
		return verdict{class: class, msg: fmt.Sprintf(f, a...), tx: t}
	}
	t, err := ref.ReadTx(raw)
	if err != nil {
		return no(nil, "malformed", "DecoderFailure: %v", err)
	}
	if !t.Valid {
		return no(t, "validity", "validity flag false")
	}
	if t.HasAux != t.HasMeta {
		return no(t, "aux", "ConflictingMetadataHash presence")
	}
	if t.HasAux {
		if h := ref.Blake256(t.MetaRaw); !bytes.Equal(h[:], t.Aux) {
			return no(t, "aux", "ConflictingMetadataHash")
		}
	}
	for i, w := range t.Wits {
		if !ref.Verify(w.VKey, t.IDBytes[:], w.Sig) {
			return no(t, "signature", "InvalidWitnessesUTXOW %d", i)
		}
	}
	if len(t.Ins) == 0 {
		return no(t, "no-inputs", "InputSetEmptyUTxO")
	}
	// rules about the contents before rules about the state, so that a defect of
	// the transaction is never hidden behind a race
	have := map[string]bool{}
	for _, w := range t.Wits {
		have[string(ref.Blake224(w.VKey))] = true
	}
	in, out := new(big.Int), new(big.Int).SetUint64(t.Fee)
	missing := false
	for _, i := range t.Ins {
		u, spent := c.lookup(txin{i.Hash, i.Index})
		if u == nil || spent {
			missing = true
			continue
		}
		in.Add(in, new(big.Int).SetUint64(u.amt))
		a, err := ref.ReadAddr([]byte(u.addr))
		if err != nil || a.Pay == nil || a.PayScript {
			return no(t, "not-spendable", "input %s#%d is not a key output", i.Hash, i.Index)
		}
		if !have[string(a.Pay)] {
			return no(t, "missing-witness", "MissingVKeyWitnessesUTXOW %x", a.Pay)
		}
	}
	for n, o := range t.Outs {
		out.Add(out, new(big.Int).SetUint64(o.Amount))
		a, err := ref.ReadAddr(o.Addr)
		if err != nil {
			return no(t, "bad-output", "output %d: %v", n, err)
		}
		if a.Kind != "byron" && a.Net != c.net {
			return no(t, "wrong-network", "WrongNetwork output %d", n)
		}
	}
	if !missing && in.Cmp(out) != 0 {
		return no(t, "balance", "ValueNotConservedUTxO consumed %v produced %v", in, out)
	}
	if missing {
		return no(t, "inputs", "BadInputsUTxO")
	}
	if t.TTL < c.slot() {
		return no(t, "ttl", "OutsideValidityIntervalUTxO ttl %d slot %d", t.TTL, c.slot())
	}
	if uint64(len(raw)) > c.par().max {
		return no(t, "size", "MaxTxSizeUTxO %d", len(raw))
	}
	if m := c.par().minFee(len(raw)); t.Fee < m {
		return no(t, "fee", "FeeTooSmallUTxO %d < %d", t.Fee, m)
	}
	return verdict{ok: true, tx: t}
}
