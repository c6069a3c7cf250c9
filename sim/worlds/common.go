// Package worlds contains the simulated systems: real library code on one side,
// a simulated environment and reference models on the other.
package worlds

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/tx"

	"verifsim/engine"
	"verifsim/ref"
)

// World is one kind of simulated system.
type World struct {
	Name  string
	Run   func(s *engine.Sim, prop string)
	Props []string
	Real  []string
	Stub  []string
}

// All lists the worlds.
var All = map[string]*World{}

func netOf(id byte) *network.NetworkInfo {
	if id == 0 {
		return network.TestNet()
	}
	return network.MainNet()
}

// key is a signing key in library form and in reference form.
type key struct {
	lib bip32.XPrv
	ref ref.XPrv
	pub [32]byte
}

func keyFrom(r ref.XPrv) key {
	return key{lib: bip32.XPrv(append([]byte(nil), r[:]...)), ref: r, pub: r.Pub()}
}

// pattern fills b with runs of extreme or random bytes.
func pattern(s *engine.Sim, b []byte) {
	rnd := s.Bytes(len(b))
	i := 0
	for i < len(b) {
		n := 1 + s.Draw(16)
		v := s.Draw(6)
		for ; n > 0 && i < len(b); n, i = n-1, i+1 {
			switch v {
			case 0:
				b[i] = rnd[i]
			case 1:
				b[i] = 0
			case 2:
				b[i] = 0xff
			case 3:
				b[i] = 0x80
			case 4:
				b[i] = 0x7f
			default:
				b[i] = rnd[i] & 0x11
			}
		}
	}
}

// drawKey makes a valid extended private key: usually from a hashed secret,
// sometimes an imported one with extreme bytes, sometimes derived.
func drawKey(s *engine.Sim) key {
	var r ref.XPrv
	switch s.Draw(5) {
	case 0, 1:
		r = ref.Master32(s.Bytes(32))
	case 2:
		r = ref.Master32(s.Bytes(32)).Derive(uint32(s.Draw(4)))
	case 3:
		r = ref.Master32(s.Bytes(32)).Derive(1<<31 + uint32(s.Draw(4)))
	default:
		pattern(s, r[:])
		r[0] &= 0xf8
		r[31] = r[31]&0x1f | 0x40
		if s.Pct(40) {
			r[31] = r[31]&0x0f | 0x60 // as a derived key may be
		}
	}
	return keyFrom(r)
}

// drawAddr makes an address object and the raw bytes it must denote.
func drawAddr(s *engine.Sim, net byte, spendable bool) (address.Address, []byte) {
	pay, st := s.Bytes(28), s.Bytes(28)
	ps, ss := s.Pct(25), s.Pct(25)
	cred := func(script bool, h []byte) *address.StakeCredential {
		if script {
			return address.NewScriptStakeCredential(append([]byte(nil), h...))
		}
		return address.NewKeyStakeCredential(append([]byte(nil), h...))
	}
	n := netOf(net)
	kinds := 5
	if !spendable {
		kinds = 6
	}
	switch s.Draw(kinds) {
	case 0, 1:
		return address.NewBaseAddress(n, cred(ps, pay), cred(ss, st)), ref.MakeShelley("base", net, ps, pay, ss, st, 0, 0, 0)
	case 2:
		return address.NewEnterpriseAddress(n, cred(ps, pay)), ref.MakeShelley("enterprise", net, ps, pay, false, nil, 0, 0, 0)
	case 3:
		a, b, c := s.U64(), s.U64(), s.U64()
		return address.NewPointerAddress(*n, *cred(ps, pay), *address.NewPointer(a, b, c)), ref.MakeShelley("pointer", net, ps, pay, false, nil, a, b, c)
	case 4:
		var pl []byte
		if s.Pct(50) {
			pl = s.Bytes(28 + s.Draw(3))
		}
		raw := ref.MakeByron(pay, ref.ByronAttrs(pl, 0), 0)
		b := &address.ByronAddress{Hash: append([]byte(nil), pay...)}
		if pl != nil {
			b.Attributes.Payload = append(ref.Head(2, uint64(len(pl))), pl...)
		}
		return b, raw
	default:
		return address.NewRewardAddress(n, cred(ss, st)), ref.MakeShelley("reward", net, false, nil, ss, st, 0, 0, 0)
	}
}

// ---------------------------------------------------------------- metadata

// meta is a metadata value in Go form with its reference description.
type meta struct {
	mk   func() interface{} // a fresh, equal Go value each time
	desc string
}

func drawMetaVal(s *engine.Sim, depth int) meta {
	k := s.Draw(6)
	if depth <= 0 && k >= 4 {
		k -= 4
	}
	switch k {
	case 0:
		v := s.U64()
		return meta{func() interface{} { return v }, fmt.Sprintf("u%d", v)}
	case 1:
		n := s.Draw(40)
		if s.Pct(10) {
			n = 200 + s.Draw(100)
		}
		v := strings.Repeat("x", n) + fmt.Sprint(s.Draw(1000))
		return meta{func() interface{} { return v }, fmt.Sprintf("t%q", v)}
	case 2:
		v := s.Bytes(s.Draw(65))
		return meta{func() interface{} { return append([]byte{}, v...) }, fmt.Sprintf("b%x", v)}
	case 3:
		v := int64(s.Draw(1 << 20))
		return meta{func() interface{} { return -1 - v }, fmt.Sprintf("n%d", v)}
	case 4:
		n := s.Draw(4)
		var ks []meta
		for i := 0; i < n; i++ {
			ks = append(ks, drawMetaVal(s, depth-1))
		}
		return meta{func() interface{} {
			l := make([]interface{}, 0, n)
			for _, k := range ks {
				l = append(l, k.mk())
			}
			return l
		}, descList(ks)}
	}
	return drawMetaMap(s, depth)
}

func descList(ks []meta) string {
	var d []string
	for _, k := range ks {
		d = append(d, k.desc)
	}
	return "[" + strings.Join(d, ",") + "]"
}

type mdStruct struct {
	A string      `cbor:"1,keyasint"`
	B interface{} `cbor:"2,keyasint"`
	C uint64      `cbor:"721,keyasint"`
}

func drawMetaMap(s *engine.Sim, depth int) meta {
	n := s.Draw(6)
	if s.Pct(10) {
		n = 24 + s.Draw(8)
	}
	vals := make([]meta, n)
	for i := range vals {
		vals[i] = drawMetaVal(s, depth-1)
	}
	var d []string
	style := s.Draw(4)
	if style == 3 {
		v := drawMetaVal(s, depth-1)
		c := s.U64()
		a := fmt.Sprintf("s%d", s.Draw(100))
		d = []string{fmt.Sprintf("u1:t%q", a), "u2:" + v.desc, fmt.Sprintf("u721:u%d", c)}
		sort.Strings(d)
		return meta{func() interface{} { return &mdStruct{A: a, B: v.mk(), C: c} }, "{" + strings.Join(d, ",") + "}"}
	}
	base := s.Draw(700)
	uk := func(i int) uint64 { return uint64(i*base + i) }
	tk := func(i int) string { return fmt.Sprintf("%d-k%d", (i*base+i)%7, i) }
	for i, v := range vals {
		if style == 1 || style == 2 && i%2 == 1 {
			d = append(d, fmt.Sprintf("t%q:%s", tk(i), v.desc))
		} else {
			d = append(d, fmt.Sprintf("u%d:%s", uk(i), v.desc))
		}
	}
	sort.Strings(d)
	mk := func() interface{} {
		switch style {
		case 0:
			m := map[uint64]interface{}{}
			for i, v := range vals {
				m[uk(i)] = v.mk()
			}
			return m
		case 1:
			m := map[string]interface{}{}
			for i, v := range vals {
				m[tk(i)] = v.mk()
			}
			return m
		}
		m := map[interface{}]interface{}{}
		for i, v := range vals {
			if i%2 == 1 {
				m[tk(i)] = v.mk()
			} else {
				m[uk(i)] = v.mk()
			}
		}
		return m
	}
	return meta{mk, "{" + strings.Join(d, ",") + "}"}
}

func drawMeta(s *engine.Sim) meta {
	if s.Pct(85) {
		return drawMetaMap(s, 2)
	}
	return drawMetaVal(s, 2)
}

// descItem describes decoded CBOR the way meta.desc does.
func descItem(it *ref.Item) string {
	switch it.Major {
	case 0:
		return fmt.Sprintf("u%d", it.Val)
	case 1:
		return fmt.Sprintf("n%d", it.Val)
	case 2:
		return fmt.Sprintf("b%x", it.Bytes)
	case 3:
		return fmt.Sprintf("t%q", string(it.Bytes))
	case 4:
		var d []string
		for _, k := range it.Kids {
			d = append(d, descItem(k))
		}
		return "[" + strings.Join(d, ",") + "]"
	case 5:
		var d []string
		for i := 0; i+1 < len(it.Kids); i += 2 {
			d = append(d, descItem(it.Kids[i])+":"+descItem(it.Kids[i+1]))
		}
		sort.Strings(d)
		return "{" + strings.Join(d, ",") + "}"
	}
	return fmt.Sprintf("?%x", it.Raw)
}

// ---------------------------------------------------------------- tx oracle

type inRec struct {
	hash string
	idx  uint64
	amt  uint64
}

type outRec struct {
	raw []byte
	amt uint64
}

// want is what a transaction must contain.
type want struct {
	ins  []inRec
	outs []outRec
	ttl  uint32
	fee  uint64
	meta *meta
	keys []key
}

func (w *want) clone() *want {
	c := *w
	c.ins = append([]inRec(nil), w.ins...)
	c.outs = append([]outRec(nil), w.outs...)
	c.keys = append([]key(nil), w.keys...)
	return &c
}

// diffBody says how a decoded transaction differs from what it must contain.
func (w *want) diffBody(t *ref.Tx) string {
	if len(t.Ins) != len(w.ins) {
		return fmt.Sprintf("%d inputs, want %d", len(t.Ins), len(w.ins))
	}
	for i, in := range w.ins {
		if t.Ins[i].Hash != in.hash || t.Ins[i].Index != in.idx {
			return fmt.Sprintf("input %d is %s#%d, want %s#%d", i, t.Ins[i].Hash, t.Ins[i].Index, in.hash, in.idx)
		}
	}
	if len(t.Outs) != len(w.outs) {
		return fmt.Sprintf("%d outputs, want %d", len(t.Outs), len(w.outs))
	}
	for i, o := range w.outs {
		if !bytes.Equal(t.Outs[i].Addr, o.raw) || t.Outs[i].Amount != o.amt {
			return fmt.Sprintf("output %d is %x:%d, want %x:%d", i, t.Outs[i].Addr, t.Outs[i].Amount, o.raw, o.amt)
		}
	}
	if t.Fee != w.fee {
		return fmt.Sprintf("fee %d, want %d", t.Fee, w.fee)
	}
	if t.TTL != uint64(w.ttl) {
		return fmt.Sprintf("ttl %d, want %d", t.TTL, w.ttl)
	}
	return ""
}

// checkConsistent checks C05 on one serialization together with the reported hash.
func checkConsistent(s *engine.Sim, what string, t *tx.Tx, raw []byte, w *want) *ref.Tx {
	r, err := ref.ReadTx(raw)
	if err != nil {
		s.Violate("C05", what+"/malformed", "%s: serialized transaction is malformed: %v (%x)", what, err, raw)
		return nil
	}
	for _, k := range r.Keys {
		if k != 0 && k != 1 && k != 2 && k != 3 && k != 7 {
			s.Violate("C05", what+"/unknown-field", "%s: body carries unexpected field %d", what, k)
		}
	}
	for _, k := range r.WitKeys {
		if k != 0 {
			s.Violate("C05", what+"/unknown-witness", "%s: witness set carries unexpected field %d", what, k)
		}
	}
	if !r.Valid {
		s.Violate("C05", what+"/validity", "%s: validity flag is false", what)
	}
	if r.HasMeta != (w.meta != nil) {
		s.Violate("C05", what+"/metadata-presence", "%s: metadata present=%v, want %v", what, r.HasMeta, w.meta != nil)
	}
	if r.HasMeta && w.meta != nil {
		it, err := ref.Parse(r.MetaRaw)
		if err != nil {
			s.Violate("C05", what+"/metadata-malformed", "%s: metadata is malformed: %v", what, err)
		} else if d := descItem(it); d != w.meta.desc {
			s.Violate("C05", what+"/metadata-content", "%s: metadata is %s, want %s", what, d, w.meta.desc)
		}
	}
	if r.HasAux != r.HasMeta {
		s.Violate("C05", what+"/aux-presence", "%s: auxiliary data hash present=%v but metadata present=%v", what, r.HasAux, r.HasMeta)
	}
	if r.HasAux && r.HasMeta {
		h := ref.Blake256(r.MetaRaw)
		if !bytes.Equal(h[:], r.Aux) {
			s.Violate("C05", what+"/aux-hash", "%s: auxiliary data hash %x is not the hash of the metadata bytes %x", what, r.Aux, r.MetaRaw)
		}
	}
	if t != nil {
		var h [32]byte
		var herr error
		if s.Guard("C05", what+"/hash", func() { h, herr = t.Hash() }) {
			if herr != nil {
				s.Violate("C05", what+"/hash-error", "%s: Hash failed: %v", what, herr)
			} else if h != r.IDBytes {
				s.Violate("C05", what+"/hash-mismatch", "%s: Hash() is %x but the body in the serialization hashes to %s", what, h[:], r.ID)
			}
		}
	}
	return r
}

// checkSigned checks C01 on one serialization.
func checkSigned(s *engine.Sim, what string, r *ref.Tx, keys []key) {
	if len(r.Wits) != len(keys) {
		s.Violate("C01", what+"/witness-count", "%s: %d witnesses for %d signing keys", what, len(r.Wits), len(keys))
		return
	}
	for i, w := range r.Wits {
		if !bytes.Equal(w.VKey, keys[i].pub[:]) {
			s.Violate("C01", what+"/witness-key", "%s: witness %d has key %x, want %x", what, i, w.VKey, keys[i].pub[:])
		}
		if !ref.Verify(keys[i].pub[:], r.IDBytes[:], w.Sig) {
			s.Violate("C01", what+"/witness-signature", "%s: signature %d does not verify over the serialized body (tx %s)", what, i, r.ID)
		}
	}
}

func hexHash(s *engine.Sim) string {
	b := s.Bytes(32)
	if s.Pct(6) {
		pattern(s, b)
	}
	return fmt.Sprintf("%x", b)
}

// spell is h as another program may print it.
func spell(s *engine.Sim, h string) string {
	if s.Pct(5) {
		return strings.ToUpper(h)
	}
	return h
}
