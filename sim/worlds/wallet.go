package worlds

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"

	"verifsim/engine"
	"verifsim/ref"
)

func init() {
	All["wallet"] = &World{Name: "wallet", Run: walletWorld, Props: []string{"C01", "C02", "C03", "C05", "C06", "C07", "C08", "C12", "C18"},
		Real: []string{"node (blockfrost backend)", "blockfrost-go client", "go-retryablehttp", "net/http client (above the transport)", "tx", "address", "bip32", "crypto", "fees", "protocol"},
		Stub: []string{"HTTP transport and network (simulated)", "Blockfrost servers, chain, mempool and ledger rules (reference model)", "clock and timers (synctest fake clock)", "wallet processes and their crashes (simulated tasks)"}}
}

const walletProps = "C01,C02,C03,C05,C06,C07,C08,C12"

// regTx is a transaction the library built for a wallet.
type regTx struct {
	id   int
	good bool // honestly built from what the node reported
	p    params
	keys []key
	w    want
	r    *ref.Tx
}

type nworld struct {
	prop    string
	s       *engine.Sim
	n       *simnet
	wallets []*wallet
	reg     map[string]*regTx
	extern  [2][]address.Address
	exraw   [2][][]byte
	watch   [2]address.Address
	closing bool
	healAt  time.Duration
	busy    int
	ntx     int
	olds    []old
}

// wallet is the durable identity (seed, password, what the owner wrote down).
type wallet struct {
	id      int
	net     byte
	ent, pw []byte
	nkeys   int
	acct    uint32
	kinds   []int
	refKeys []key
	refRaw  [][]byte
	stake   key
	inc     int
	left    int
	task    *engine.Task
}

// inc is one incarnation: what is derived and held in memory.
type incarnation struct {
	w     *nworld
	o     *wallet
	keys  []bip32.XPrv
	addrs []address.Address
	p     *peer
	nd    node.Node
}

func harden(i uint32) uint32 { return i | 1<<31 }

func walletWorld(s *engine.Sim, prop string) {
	w := &nworld{prop: prop, s: s, n: newNet(s), reg: map[string]*regTx{}}
	w.n.submitted = w.judged
	for net := byte(0); net < 2; net++ {
		for i := 0; i < 2; i++ {
			a, r := drawAddr(s, net, true)
			w.extern[net], w.exraw[net] = append(w.extern[net], a), append(w.exraw[net], r)
		}
	}
	nw := 1 + s.Draw(3)
	for i := 0; i < nw; i++ {
		o := &wallet{id: i, net: byte(s.Draw(2)), left: 2 + s.Draw(6)}
		if k := s.Draw(44); k < 40 {
			// a pool of secrets, so that the reference can remember their keys
			e := ref.Blake256([]byte(fmt.Sprintf("secret %d", k)))
			p := ref.Blake256(e[:])
			o.ent = append(o.ent, e[:16+4*(k%5)]...)
			if k%2 == 1 {
				o.pw = append(o.pw, p[:1+k%20]...)
			}
		} else {
			o.ent = s.Bytes(16 + 4*s.Draw(5))
			if s.Pct(50) {
				o.pw = s.Bytes(1 + s.Draw(20))
			}
		}
		o.nkeys = 1 + s.Draw(3)
		o.acct = uint32(s.Draw(3))
		root := ref.Root(o.ent, o.pw)
		a := root.Path(harden(1852), harden(1815), harden(o.acct))
		o.stake = keyFrom(a.Path(2, 0))
		for k := 0; k < o.nkeys; k++ {
			kk := keyFrom(a.Path(uint32(k&1), uint32(k)))
			o.refKeys = append(o.refKeys, kk)
			kind := s.Draw(3)
			o.kinds = append(o.kinds, kind)
			pay, st := ref.Blake224(kk.pub[:]), ref.Blake224(o.stake.pub[:])
			o.refRaw = append(o.refRaw, ref.MakeShelley([]string{"base", "enterprise", "pointer"}[kind], o.net, false, pay, false, st, 2498243, 27, 3))
		}
		w.wallets = append(w.wallets, o)
		c := w.n.chains[o.net]
		cnt := 1 + s.Draw(4)
		if s.Pct(6) {
			cnt = 100 + s.Draw(150) // a wallet whose transactions get long
		}
		for j := 0; j < cnt; j++ {
			c.grant(o.refRaw[s.Draw(o.nkeys)], w.amount(), nil)
		}
	}
	// an address of somebody else with many outputs and other assets
	for net := byte(0); net < 2; net++ {
		if !s.Pct(60) {
			continue
		}
		a, r := drawAddr(s, net, true)
		w.watch[net] = a
		cnt := s.Draw(6)
		if s.Pct(40) {
			cnt = []int{99, 100, 101, 150, 199, 200, 201, 250, 300}[s.Draw(9)]
			if s.Pct(10) {
				cnt = []int{499, 501, 999, 1000, 1001, 1100, 2001}[s.Draw(7)]
			}
		}
		for i := 0; i < cnt; i++ {
			w.n.chains[net].bulk = i < cnt-1
			if w.n.chains[net].batch == 0 && cnt > 1 && s.Pct(30) {
				w.n.chains[net].batch = 1 + s.Draw(9)
			}
			w.n.chains[net].grant(r, w.amount(), w.assets())
		}
		w.n.chains[net].batch = 0
	}
	for _, o := range w.wallets {
		w.start(o)
	}
	s.SetPreempt(s.Pct(25))
	s.Go("chaos", w.chaos)
	s.OnStuck(func(names []string) {
		for _, p := range w.n.peers {
			for _, c := range p.calls {
				if !c.dead && c.kind != "submit" {
					s.Violate("C07", c.kind+"/never-returned", "%s call did not return although all faults stopped", c.kind)
				}
			}
		}
	})
	s.Final(func() {
		s.Note("wallets=%d fault rate=%d%% exchanges=%d txs=%d blocks=%d", nw, w.n.rate, w.n.nexch, w.ntx, len(w.n.chains[0].blocks)+len(w.n.chains[1].blocks))
	})
}

func (w *nworld) amount() uint64 {
	s := w.s
	switch s.Draw(4) {
	case 0:
		return 1000000 * uint64(2+s.Draw(1000))
	case 1:
		return 2000000 + uint64(s.Draw(1<<30))
	case 2:
		return 1000000 + uint64(s.Draw(1<<30))*uint64(1+s.Draw(1<<20))
	}
	return 1000000 + uint64(s.Draw(3000000))
}

func (w *nworld) assets() []asset {
	var l []asset
	for w.s.Pct(25) && len(l) < 3 {
		l = append(l, asset{hex.EncodeToString(w.s.Bytes(28 + w.s.Draw(5))), 1 + w.s.U64()>>1})
	}
	return l
}

func (w *nworld) start(o *wallet) {
	o.inc++
	w.busy++
	dead := false
	var t *engine.Task
	t = w.s.Go(fmt.Sprintf("wallet%d.%d", o.id, o.inc), func() {
		w.life(o, t)
		if !dead {
			w.busy--
			dead = true
		}
	})
	t.OnCrash(func() {
		if !dead {
			w.busy--
			dead = true
		}
		for _, p := range w.n.peers {
			if c := p.calls[t.ID]; c != nil {
				c.dead = true
			}
		}
		w.n.held.dead[t.ID] = true
		w.s.Ev("wallet%d crashed", o.id)
	})
	o.task = t
}

// restore derives everything from the seed and compares with the reference.
func (w *nworld) restore(o *wallet) *incarnation {
	s := w.s
	in := &incarnation{w: w, o: o}
	ent, pw := append([]byte(nil), o.ent...), append([]byte(nil), o.pw...)
	good := s.Guard("C12", "derive", func() {
		var root bip32.XPrv
		if w.prop == "C12" {
			root = bip32.FromBip39Entropy(ent, pw)
		} else { // key stretching takes most of the time and is only C12's concern
			r := ref.Root(ent, pw)
			root = append(root, r[:]...)
		}
		acct := root.Derive(harden(1852)).Derive(harden(1815)).Derive(harden(o.acct))
		stake := acct.Derive(2).Derive(0)
		sh := stake.Public().PublicKey().Hash()
		ni := netOf(o.net)
		for k := 0; k < o.nkeys; k++ {
			key := acct.Derive(uint32(k & 1)).Derive(uint32(k))
			ph := key.Public().PublicKey().Hash()
			pay, st := address.NewKeyStakeCredential(ph[:]), address.NewKeyStakeCredential(sh[:])
			var a address.Address
			base := address.NewBaseAddress(ni, pay, st)
			switch o.kinds[k] {
			case 0:
				a = base
			case 1:
				a = base.ToEnterprise()
			default:
				a = address.NewPointerAddress(*ni, *pay, *address.NewPointer(2498243, 27, 3))
			}
			in.keys = append(in.keys, key)
			in.addrs = append(in.addrs, a)
		}
	})
	if !good {
		return nil
	}
	for k := range in.keys {
		if !bytes.Equal(in.keys[k], o.refKeys[k].ref[:]) {
			s.Violate("C12", "restored-key", "wallet%d: restored key %d differs from the BIP32-Ed25519 derivation", o.id, k)
		}
		s.Guard("C12,C10", "address-text", func() {
			if got, want := in.addrs[k].String(), ref.Text(o.refRaw[k]); got != want {
				s.Violate("C12", "restored-address", "wallet%d: restored address %d is %s, want %s", o.id, k, got, want)
			}
		})
	}
	if !bytes.Equal(ent, o.ent) || !bytes.Equal(pw, o.pw) {
		s.Violate("C12", "seed-changed", "wallet%d: deriving changed the caller's entropy or password", o.id)
	}
	pid := fmt.Sprintf("pid-%d-%d-%s", o.id, o.inc, hex.EncodeToString(s.Bytes(4)))
	if k := len(w.n.peers); k > 0 && s.Pct(15) {
		// one project for several nodes, perhaps of both networks
		pid = w.n.peers[s.Draw(k)].pid
		s.Probe("project-id-shared")
	}
	in.p = &peer{pid: pid, net: o.net, calls: map[int]*call{}}
	w.n.peers = append(w.n.peers, in.p)
	ni := *netOf(o.net)
	if s.Pct(20) {
		ni.ProtocolMagic = []uint32{uint32(s.Draw(1 << 30)), 0, 1, 764824073, 1097911063}[s.Draw(5)]
	}
	if !s.Guard(walletProps, "NewBlockfrostClient", func() { in.nd = node.NewBlockfrostClient(pid, &ni) }) {
		return nil
	}
	return in
}

func (w *nworld) life(o *wallet, t *engine.Task) {
	s := w.s
	in := w.restore(o)
	if in == nil {
		return
	}
	if s.Pct(20) {
		w.busy++
		s.Go(fmt.Sprintf("watch%d.%d", o.id, o.inc), func() {
			for i := 0; i < 1+s.Draw(3) && !w.closing; i++ {
				in.query(s.Draw(4))
				s.Sleep(time.Duration(s.Draw(20000)) * time.Millisecond)
			}
			w.busy--
		})
	}
	for o.left > 0 && !w.closing {
		o.left--
		switch k := s.Draw(10); {
		case k < 3:
			in.query(s.Draw(4))
		case k < 4:
			in.poll()
		case k < 9:
			in.pay()
		default:
			in.resubmit()
		}
		s.Sleep(time.Duration(s.Draw(30000)) * time.Millisecond)
	}
}

// ---------------------------------------------------------------- node calls

func (in *incarnation) begin(kind string) *call {
	s := in.w.s
	c := &call{kind: kind, start: s.Now()}
	in.p.calls[s.Me().ID] = c
	in.w.n.uses(s.Me().ID, in.p)
	s.Op("wallet%d %s", in.o.id, kind)
	return c
}

func (in *incarnation) done(c *call, err error) {
	s := in.w.s
	delete(in.p.calls, s.Me().ID)
	s.Ev("wallet%d %s -> err=%v", in.o.id, c.kind, err != nil)
	if in.w.healAt > 0 && c.kind != "submit" {
		from := c.start
		if in.w.healAt > from {
			from = in.w.healAt
		}
		if d := s.Now() - from; d > 120*time.Second {
			s.Violate("C07", c.kind+"/slow-recovery", "%s call returned %v after faults stopped", c.kind, d)
		}
	}
}

// clean reports that the call was made after all faults stopped.
func (in *incarnation) clean(c *call) bool { return in.w.healAt > 0 && c.start >= in.w.healAt }

func (in *incarnation) tip() (t node.NetworkTip, ok bool) {
	s, ch := in.w.s, in.w.n.chains[in.o.net]
	c := in.begin("tip")
	v0 := len(ch.tips) - 1
	var err error
	if !s.Guard("C07", "QueryTip", func() { t, err = in.nd.QueryTip() }) {
		return
	}
	in.done(c, err)
	if err != nil {
		if in.clean(c) {
			s.Violate("C07", "tip/error-without-fault", "QueryTip failed although nothing is wrong: %v", err)
		}
		return
	}
	for v := v0; v < len(ch.tips); v++ {
		r := ch.tips[v]
		if uint64(t.Slot) == r.slot && uint64(t.Epoch) == r.epoch && uint64(t.Block) == r.height {
			return t, true
		}
	}
	s.Violate("C07", "tip/wrong", "QueryTip returned %+v; the node's tip during the call was %v", t, ch.tips[v0:])
	return t, true
}

func (in *incarnation) params() (p protocol.Protocol, q params, ok bool) {
	s, ch := in.w.s, in.w.n.chains[in.o.net]
	c := in.begin("params")
	v0 := len(ch.pars) - 1
	var err error
	if !s.Guard("C07", "ProtocolParameters", func() { p, err = in.nd.ProtocolParameters() }) {
		return
	}
	in.done(c, err)
	if err != nil {
		if in.clean(c) {
			s.Violate("C07", "params/error-without-fault", "ProtocolParameters failed although nothing is wrong: %v", err)
		}
		return
	}
	for v := v0; v < len(ch.pars); v++ {
		r := ch.pars[v]
		if uint64(p.TxFeePerByte) == r.a && uint64(p.TxFeeFixed) == r.b && uint64(p.MaxTxSize) == r.max && uint64(p.MinUTXOValue) == r.minU && uint64(p.ProtocolVersion.Major) == r.major && uint64(p.ProtocolVersion.Minor) == r.minor {
			return p, r, true
		}
	}
	s.Violate("C07", "params/wrong", "ProtocolParameters returned %+v; the node's parameters during the call were %+v", p, ch.pars[v0:])
	return p, ch.par(), true
}

func (in *incarnation) utxos(a address.Address, raw []byte) (l []tx.TxInput, ok bool) {
	s, ch := in.w.s, in.w.n.chains[in.o.net]
	c := in.begin("utxos")
	c.addr = string(raw)
	v0, seen := ch.ver(c.addr), ch.seen[c.addr]
	var err error
	if !s.Guard("C07", "UTXOs", func() { l, err = in.nd.UTXOs(a) }) {
		return
	}
	in.done(c, err)
	if err != nil {
		if in.clean(c) && seen {
			s.Violate("C07", "utxos/error-without-fault", "UTXOs failed although nothing is wrong: %v", err)
		}
		return nil, false
	}
	var got []string
	for _, u := range l {
		got = append(got, fmt.Sprintf("%x#%d:%d", u.TxHash, u.Index, u.Amount))
	}
	sort.Strings(got)
	h := ch.hist[c.addr][v0:]
	big := false
	union := map[string]bool{}
	for _, sn := range h {
		if sn == strings.Join(got, ",") {
			if len(l) >= 100 {
				s.Probe("utxos-multi-page")
			}
			return l, true
		}
		m := strings.Split(sn, ",")
		if len(m) >= 100 {
			big = true
		}
		for _, x := range m {
			union[x] = true
		}
	}
	if len(h) > 1 && big {
		s.Probe("utxos-changed-while-paging")
		for _, g := range got {
			if !union[g] {
				s.Violate("C07", "utxos/wrong", "UTXOs returned %s, which the node never served during the call", g)
			}
		}
		return l, true
	}
	s.Violate("C07", "utxos/wrong", "UTXOs returned %d outputs %.200s; the node had, during the call, %.300s", len(got), strings.Join(got, ","), strings.Join(h, " | "))
	return l, true
}

func (in *incarnation) query(k int) {
	s := in.w.s
	switch k {
	case 0:
		in.tip()
	case 1:
		in.params()
	case 2:
		i := s.Draw(len(in.addrs))
		in.utxos(in.addrs[i], in.o.refRaw[i])
	default:
		if a := in.w.watch[in.o.net]; a != nil {
			in.utxos(a, in.w.rawOf(a))
		} else {
			i := s.Draw(2)
			in.utxos(in.w.extern[in.o.net][i], in.w.exraw[in.o.net][i])
		}
	}
}

// poll asks the same question again at once after the answer has changed.
func (in *incarnation) poll() {
	s, ch := in.w.s, in.w.n.chains[in.o.net]
	k, i := s.Draw(3), s.Draw(len(in.addrs))
	for n := 2 + s.Draw(2); n > 0 && !in.w.closing; n-- {
		switch k {
		case 0:
			in.tip()
			if s.Pct(70) {
				ch.forge()
			}
		case 1:
			in.params()
			if s.Pct(70) {
				s.Ev("net%d new protocol parameters", ch.net)
				ch.pars = append(ch.pars, ch.drawParams())
			}
		default:
			in.utxos(in.addrs[i], in.o.refRaw[i])
			if s.Pct(70) {
				ch.grant(in.o.refRaw[i], in.w.amount(), nil)
			}
		}
		if s.Pct(30) {
			s.Sleep(time.Duration(s.Draw(3000)) * time.Millisecond)
		}
	}
	s.Probe("polled")
}

func (w *nworld) rawOf(a address.Address) []byte {
	var b []byte
	w.s.Guard("C07,C10", "address-bytes", func() { b = a.Bytes() })
	return b
}

// submit hands a transaction to the node and checks the verdict it reports.
func (in *incarnation) submit(t tx.Tx, raw []byte, id string) bool {
	s := in.w.s
	c := in.begin("submit")
	var hash string
	var err error
	if !s.Guard("C06", "SubmitTx", func() { hash, err = in.nd.SubmitTx(t) }) {
		return false
	}
	in.done(c, err)
	accepted, n := false, 0
	var last *exchange
	for _, e := range c.ex {
		if !strings.HasSuffix(e.path, "/tx/submit") {
			continue
		}
		n++
		if !bytes.Equal(e.body, raw) {
			s.Violate("C06,C01", "submit/other-bytes", "the node was sent %d bytes that are not the serialized transaction (%d bytes)", len(e.body), len(raw))
		}
		if e.accepted && e.intact {
			accepted = true
		}
		last = e
	}
	switch {
	case err == nil && !accepted:
		s.Violate("C06", "submit/false-success", "SubmitTx reported success (%q) but no acceptance arrived: last status %d", hash, statusOf(last))
	case err == nil && hash != id:
		s.Violate("C06", "submit/wrong-id", "SubmitTx returned %q, the transaction id is %s", hash, id)
	case err != nil && accepted:
		s.Violate("C06", "submit/false-failure", "SubmitTx reported %q although the acceptance arrived intact", err.Error())
	case err != nil && hash != "":
		s.Violate("C06", "submit/id-with-error", "SubmitTx returned id %q together with error %q", hash, err.Error())
	case err != nil && last != nil && last.intact && last.status >= 400 && last.status < 500 && strings.Contains(last.token, "ref"):
		f := strings.Fields(last.token)
		if tok := f[len(f)-1]; !strings.Contains(err.Error(), tok) {
			s.Violate("C06", "submit/reason-lost", "the node rejected with %q but the error is %q", last.token, err.Error())
		}
		s.Probe("submit-rejected")
	}
	if err == nil {
		s.Probe("submit-accepted")
	}
	return err == nil
}

func statusOf(e *exchange) int {
	if e == nil {
		return 0
	}
	return e.status
}

// judged sees every decision of the ledger.
func (w *nworld) judged(c *chain, raw []byte, v *verdict) {
	s := w.s
	r := w.reg[string(raw)]
	if r == nil {
		s.Violate("C06,C01", "submit/other-bytes", "the node received %d bytes that are no transaction any wallet built", len(raw))
		return
	}
	if v.ok || !r.good {
		return
	}
	props := map[string]string{"malformed": "C05", "validity": "C05", "aux": "C05", "signature": "C01,C12", "missing-witness": "C01,C12", "not-spendable": "C12", "bad-output": "C05", "wrong-network": "C05", "balance": "C02", "no-inputs": "C05", "size": "C05"}
	if p := props[v.class]; p != "" {
		s.Violate(p, "ledger/"+v.class, "the ledger rejected an honestly built transaction: %s", v.msg)
	}
	if v.class == "fee" && v.tx.Fee < r.p.minFee(len(raw)) {
		s.Violate("C03", "ledger/fee", "the ledger rejected an honestly built transaction: %s", v.msg)
	}
}

// ---------------------------------------------------------------- payments

type pick struct {
	in  tx.TxInput
	key int
}

// pay builds and submits a payment from what the node reports.
func (in *incarnation) pay() {
	s := in.w.s
	tip, ok := in.tip()
	if !ok {
		return
	}
	pr, q, ok := in.params()
	if !ok {
		return
	}
	var have []pick
	for i := range in.addrs {
		if i > 0 && s.Pct(40) {
			break
		}
		l, ok := in.utxos(in.addrs[i], in.o.refRaw[i])
		if !ok {
			return
		}
		for _, u := range l {
			have = append(have, pick{u, i})
		}
	}
	if len(have) == 0 {
		return
	}
	n := 1 + s.Draw(len(have))
	if n > 20 && s.Pct(50) {
		n = 20
	}
	off := s.Draw(len(have))
	var use []pick
	for i := 0; i < n; i++ {
		use = append(use, have[(off+i)%len(have)])
	}
	ttl := uint32(tip.Slot) + 60 + uint32(s.Draw(3600))
	mode := "good"
	if s.Pct(12) {
		mode = []string{"expired", "short", "no-witness"}[s.Draw(3)]
	}
	if mode == "expired" {
		ttl = uint32(s.Draw(int(tip.Slot)))
	}
	in.build(pr, q, use, ttl, mode, s.Draw(4))
}

// build makes one transaction spending use and submits it. nout 0 sends everything
// to the change address.
func (in *incarnation) build(pr protocol.Protocol, q params, use []pick, ttl uint32, mode string, nout int) (accepted, built bool) {
	w, s, o := in.w, in.w.s, in.o
	r := &regTx{id: w.ntx, p: q, good: mode == "good"}
	w.ntx++
	var sum uint64
	var ks []bip32.XPrv
	seen := map[int]bool{}
	for _, u := range use {
		r.w.ins = append(r.w.ins, inRec{fmt.Sprintf("%x", u.in.TxHash), uint64(u.in.Index), uint64(u.in.Amount)})
		sum += uint64(u.in.Amount)
		if !seen[u.key] {
			seen[u.key] = true
			ks = append(ks, in.keys[u.key])
			r.keys = append(r.keys, o.refKeys[u.key])
		}
	}
	if mode == "no-witness" {
		other := drawKey(s)
		ks, r.keys = []bip32.XPrv{other.lib}, []key{other}
	}
	reserve := q.minFee(400+70*len(use)+180*len(ks)) + 1000
	if sum <= reserve {
		if nout != 0 || mode != "good" {
			return
		}
	}
	var md *meta
	if s.Pct(30) {
		m := drawMetaMap(s, 1)
		md = &m
		if nout == 0 {
			md = nil
		}
	}
	var outs []*tx.TxOutput
	for i := 0; i < nout && sum > reserve; i++ {
		j := s.Draw(2)
		am := uint64(s.Draw(int((sum-reserve)/uint64(nout)>>1)&(1<<30-1) + 1))
		if mode == "short" {
			am = sum
		}
		outs = append(outs, tx.NewTxOutput(w.extern[o.net][j], uint(am)))
		r.w.outs = append(r.w.outs, outRec{w.exraw[o.net][j], am})
	}
	if mode == "short" && nout == 0 {
		return
	}
	ci := s.Draw(len(in.addrs))
	chAddr, chRaw := in.addrs[ci], o.refRaw[ci]
	if nout == 0 {
		chAddr, chRaw = w.extern[o.net][0], w.exraw[o.net][0]
	}
	late := s.Pct(30)
	var t tx.Tx
	var raw []byte
	var err error
	s.Op("wallet%d build ins=%d outs=%d keys=%d mode=%s", o.id, len(use), nout, len(ks), mode)
	if !s.Guard("C01,C02,C03,C05,C12", "build", func() {
		var tb *tx.TxBuilder
		if late {
			tb = tx.NewTxBuilder(pr, nil)
			for _, k := range ks {
				tb.Sign(k)
			}
		} else {
			tb = tx.NewTxBuilder(pr, ks)
		}
		for i := range use {
			tb.AddInputs(&use[i].in)
		}
		tb.AddOutputs(outs...)
		tb.SetTTL(ttl)
		if md != nil {
			tb.Tx().Metadata = md.mk()
		}
		tb.AddChangeIfNeeded(chAddr)
		t, err = tb.Build()
		if err == nil {
			raw, err = t.Bytes()
		}
	}) {
		return
	}
	if err != nil {
		s.Violate("C05", "build/error", "building failed: %v", err)
		return
	}
	r.w.ttl, r.w.meta = ttl, md
	rt := checkConsistent(s, "wallet-tx", &t, raw, &r.w)
	if rt == nil {
		return
	}
	r.r = rt
	checkSigned(s, "wallet-tx", rt, r.keys)
	// fee and change are the library's choice; everything else is given
	exp := r.w.clone()
	exp.fee = rt.Fee
	if len(rt.Outs) == len(exp.outs)+1 {
		exp.outs = append(exp.outs, outRec{chRaw, rt.Outs[len(rt.Outs)-1].Amount})
	}
	if d := exp.diffBody(rt); d != "" {
		s.Violate("C02,C05", "wallet-tx/content", "built transaction: %s", d)
	}
	total := rt.Fee
	for _, x := range rt.Outs {
		total += x.Amount
	}
	if mode != "short" && total != sum && sum > reserve {
		s.Violate("C02", "wallet-tx/balance", "inputs %d, outputs plus fee %d", sum, total)
	}
	min := q.minFee(len(raw))
	if rt.Fee < min {
		s.Violate("C03", "wallet-tx/fee-low", "fee %d is below the minimum %d for %d bytes", rt.Fee, min, len(raw))
	}
	if sum <= reserve && total != sum {
		return // dust that cannot pay for itself
	}
	w.reg[string(raw)] = r
	for i := 0; i < 1+s.Draw(2); i++ {
		if accepted = in.submit(t, raw, rt.ID); accepted {
			break
		}
		if s.Pct(50) {
			s.Sleep(time.Duration(s.Draw(10000)) * time.Millisecond)
		}
	}
	in.w.lastTx(in.o, t, raw, rt.ID)
	return accepted, true
}

type old struct {
	o   *wallet
	t   tx.Tx
	raw []byte
	id  string
}

func (w *nworld) lastTx(o *wallet, t tx.Tx, raw []byte, id string) {
	w.olds = append(w.olds, old{o, t, raw, id})
}

// resubmit sends an earlier transaction again.
func (in *incarnation) resubmit() {
	var mine []old
	if in.w.ntx == 0 {
		return
	}
	for _, x := range in.w.olds {
		if x.o == in.o {
			mine = append(mine, x)
		}
	}
	if len(mine) == 0 {
		return
	}
	x := mine[in.w.s.Draw(len(mine))]
	in.submit(x.t, x.raw, x.id)
}

// ---------------------------------------------------------------- faults

func (w *nworld) chaos() {
	s := w.s
	steps := 3 + s.Draw(15)
	for i := 0; i < steps && w.busy > 0; i++ {
		s.Sleep(time.Duration(500+s.Draw(20000)) * time.Millisecond)
		c := w.n.chains[s.Draw(2)]
		switch s.Draw(12) {
		case 0, 1, 2, 3:
			w.n.chains[0].forge()
			w.n.chains[1].forge()
		case 4:
			if k := c.rollback(1+s.Draw(3), s.Pct(60)); k > 0 {
				s.Fault("chain-rollback")
			}
		case 5:
			s.Fault("partition")
			w.n.part[c.net] = true
		case 6:
			if w.n.part[0] || w.n.part[1] {
				s.Ev("partition heals")
			}
			w.n.part = [2]bool{}
		case 7:
			if !c.down {
				s.Fault("server-crash")
				c.down = true
				c.pool = nil
			} else {
				c.down = false
			}
		case 8:
			if s.Pct(40) {
				s.Ev("net%d new protocol parameters", c.net)
				c.pars = append(c.pars, c.drawParams())
			}
		case 9:
			o := w.wallets[s.Draw(len(w.wallets))]
			w.n.chains[o.net].grant(o.refRaw[s.Draw(o.nkeys)], w.amount(), nil)
		case 10:
			if a := w.watch[c.net]; a != nil {
				raw := w.rawOf(a)
				if l := c.order[string(raw)]; len(l) > 0 && s.Pct(50) {
					c.take(l[s.Draw(len(l))])
				} else {
					c.grant(raw, w.amount(), w.assets())
				}
			}
		case 11:
			o := w.wallets[s.Draw(len(w.wallets))]
			if o.task != nil && o.task.Alive() {
				s.Fault("wallet-crash")
				s.Crash(o.task)
				s.Sleep(time.Duration(s.Draw(5000)) * time.Millisecond)
				w.start(o)
			}
		}
	}
	w.close()
}

// close stops all faults, lets everything settle, and empties every wallet.
func (w *nworld) close() {
	s := w.s
	w.closing = true
	for _, c := range w.n.chains {
		c.down = false
	}
	w.n.heal()
	s.Calm()
	w.healAt = s.Now()
	s.Ev("faults stop")
	for i := 0; i < 60; i++ {
		s.Sleep(2 * time.Second)
		if i%5 == 0 {
			w.n.chains[0].forge()
			w.n.chains[1].forge()
		}
	}
	s.Sleep(time.Second)
	for _, p := range w.n.peers {
		for _, c := range p.calls {
			if !c.dead && c.kind != "submit" && c.start <= w.healAt {
				s.Violate("C07", c.kind+"/never-returned", "%s call still has not returned 120 s after faults stopped", c.kind)
			}
		}
	}
	for i := 0; i < 200 && w.busy > 0; i++ {
		s.Sleep(5 * time.Second)
	}
	if w.busy > 0 {
		return
	}
	for i := 0; i < 2; i++ {
		w.n.chains[0].forge()
		w.n.chains[1].forge()
	}
	w.n.held.check()
	for _, o := range w.wallets {
		w.sweep(o)
	}
}

func (w *nworld) sweep(o *wallet) {
	s := w.s
	o.inc++
	in := w.restore(o)
	if in == nil {
		return
	}
	c := w.n.chains[o.net]
	tip, ok := in.tip()
	if !ok {
		return
	}
	pr, q, ok := in.params()
	if !ok {
		return
	}
	var have []pick
	for i := range in.addrs {
		l, ok := in.utxos(in.addrs[i], o.refRaw[i])
		if !ok && c.seen[string(o.refRaw[i])] {
			return
		}
		for _, u := range l {
			have = append(have, pick{u, i})
		}
	}
	for len(have) > 0 {
		n := len(have)
		if n > 250 {
			n = 250
		}
		batch := have[:n]
		have = have[n:]
		acc, built := in.build(pr, q, batch, uint32(tip.Slot)+7200, "good", 0)
		if built && !acc {
			s.Violate("C12", "sweep/rejected", "wallet%d restored from its seed cannot spend its funds although no fault is active", o.id)
			return
		}
		if built {
			s.Probe("swept")
		}
		c.forge()
		if built {
			for _, u := range batch {
				if c.all[txin{fmt.Sprintf("%x", u.in.TxHash), uint64(u.in.Index)}] != nil {
					s.Violate("C12", "sweep/left", "wallet%d: an output is still unspent after the sweep was accepted", o.id)
				}
			}
		}
	}
}

var _ = network.MainNet
