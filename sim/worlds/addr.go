package worlds

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"
	"time"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/network"

	"verifsim/engine"
	"verifsim/ref"
)

func init() {
	All["addr"] = &World{Name: "addr", Run: addrWorld, Props: []string{"C10"},
		Real: []string{"address", "internal/bech32", "base58 and CBOR dependencies"},
		Stub: []string{"the channel that carries addresses (loss, duplication, reordering, damage)", "receive buffers", "caller scheduling"}}
}

// libAddr is what a library address says about itself.
func libAddr(a address.Address) (d *ref.Addr, prefix string, ok bool) {
	d = &ref.Addr{}
	cred := func(c address.StakeCredential) (bool, []byte, bool) {
		k := c.Kind == address.ScriptStakeCredentialType
		return k, append([]byte(nil), c.Payload...), k || c.Kind == address.KeyStakeCredentialType
	}
	ok = true
	switch x := a.(type) {
	case *address.BaseAddress:
		var o1, o2 bool
		d.Kind = "base"
		d.PayScript, d.Pay, o1 = cred(x.Payment)
		d.StakeScrip, d.Stake, o2 = cred(x.Stake)
		ok = o1 && o2
		prefix = x.Prefix()
	case *address.EnterpriseAddress:
		d.Kind = "enterprise"
		d.PayScript, d.Pay, ok = cred(x.Payment)
		prefix = x.Prefix()
	case *address.PointerAddress:
		d.Kind = "pointer"
		d.PayScript, d.Pay, ok = cred(x.Payment)
		d.Slot, d.Tx, d.Cert = x.Stake.Slot, x.Stake.TxIndex, x.Stake.CertIndex
		prefix = x.Prefix()
	case *address.RewardAddress:
		d.Kind = "reward"
		d.StakeScrip, d.Stake, ok = cred(x.Stake)
		prefix = x.Prefix()
	case *address.ByronAddress:
		d.Kind = "byron"
		d.Pay = append([]byte(nil), x.Hash...)
		d.Slot = uint64(x.Tag)
		prefix = x.Prefix()
	default:
		return d, "", false
	}
	return d, prefix, ok
}

func prefixOf(a *ref.Addr) string {
	if a.Kind == "byron" {
		return ""
	}
	h := "addr"
	if a.Kind == "reward" {
		h = "stake"
	}
	if a.Net == 0 {
		h += "_test"
	}
	return h
}

// sameAddr compares a library address with the address it must be. exact also
// compares the re-encoded forms.
func sameAddr(a address.Address, w *ref.Addr, exact bool) string {
	if a == nil {
		return "no address"
	}
	d, prefix, ok := libAddr(a)
	if !ok {
		return fmt.Sprintf("unknown address type %T", a)
	}
	want := *w
	want.ByronAttr = nil
	ni := a.NetworkInfo()
	if ni == nil {
		return "no network"
	}
	d.Net = ni.NetworkId
	if d.Desc() != want.Desc() {
		return fmt.Sprintf("it is %s, sent was %s", d.Desc(), want.Desc())
	}
	if m := netOf(w.Net).ProtocolMagic; ni.ProtocolMagic != m {
		return fmt.Sprintf("protocol magic %d, want %d", ni.ProtocolMagic, m)
	}
	if prefix != prefixOf(w) {
		return fmt.Sprintf("prefix %q, want %q", prefix, prefixOf(w))
	}
	if !exact {
		return ""
	}
	b := a.Bytes()
	if !bytes.Equal(b, w.Raw) {
		return fmt.Sprintf("re-encoded bytes are %x, want %x", b, w.Raw)
	}
	for i := range b {
		b[i] ^= 0xa5 // the caller reuses the buffer it was given
	}
	if t := a.String(); t != ref.Text(w.Raw) {
		return fmt.Sprintf("text is %q, want %q", t, ref.Text(w.Raw))
	}
	c, err := a.MarshalCBOR()
	if err != nil {
		return "MarshalCBOR: " + err.Error()
	}
	if !bytes.Equal(c, append(ref.Head(2, uint64(len(w.Raw))), w.Raw...)) {
		return fmt.Sprintf("CBOR form is %x, want the byte string %x", c, w.Raw)
	}
	for i := range c {
		c[i] ^= 0x5a
	}
	if b := a.Bytes(); !bytes.Equal(b, w.Raw) {
		return fmt.Sprintf("bytes changed to %x, want %x", b, w.Raw)
	}
	return ""
}

type heldAddr struct {
	a    address.Address
	w    *ref.Addr
	how  string
	text string // as persisted by the receiver
}

type aworld struct {
	s    *engine.Sim
	pool []struct {
		a   address.Address
		raw []byte
	}
	rate int
}

func addrWorld(s *engine.Sim, prop string) {
	w := &aworld{s: s, rate: []int{0, 30, 60, 90}[s.Draw(4)]}
	np := 1 + s.Draw(4)
	for i := 0; i < np; i++ {
		w.newAddr()
	}
	nt := 1 + s.Draw(4)
	for i := 0; i < nt; i++ {
		msgs := 2 + s.Draw(8)
		s.Go(fmt.Sprintf("receiver%d", i), func() { w.receiver(msgs) })
	}
	s.SetPreempt(s.Pct(50))
	s.Final(func() { s.Note("addresses=%d receivers=%d damage rate=%d%%", len(w.pool), nt, w.rate) })
}

// newAddr makes an address at the sender and checks its encodings.
func (w *aworld) newAddr() {
	s := w.s
	var a address.Address
	var raw []byte
	ok := s.Guard("C10", "construct", func() {
		if s.Pct(12) {
			pay := s.Bytes(28)
			var pl []byte
			if s.Pct(50) {
				pl = s.Bytes(20 + s.Draw(20))
			}
			magic := []uint32{1, 2, 42, 1097911063, 633343913, 4294967295}[s.Draw(6)]
			raw = ref.MakeByron(pay, ref.ByronAttrs(pl, magic), 0)
			b := &address.ByronAddress{Hash: append([]byte(nil), pay...)}
			if pl != nil {
				b.Attributes.Payload = append(ref.Head(2, uint64(len(pl))), pl...)
			}
			b.Attributes.Network = ref.Head(0, uint64(magic))
			a = b
		} else {
			a, raw = drawAddr(s, byte(s.Draw(2)), false)
		}
	})
	if !ok {
		return
	}
	m, err := ref.ReadAddr(raw)
	if err != nil {
		s.Fail("reference cannot read its own address %x: %v", raw, err)
		return
	}
	s.Op("construct %s", m.Kind)
	var diff string
	if s.Guard("C10", "encode", func() { diff = sameAddr(a, m, true) }) && diff != "" {
		s.Violate("C10", "encode/"+m.Kind, "an address made from its parts: %s", diff)
	}
	w.pool = append(w.pool, struct {
		a   address.Address
		raw []byte
	}{a, raw})
	if b, ok := a.(*address.BaseAddress); ok && s.Pct(30) {
		e := ref.MakeShelley("enterprise", m.Net, m.PayScript, m.Pay, false, nil, 0, 0, 0)
		r := ref.MakeShelley("reward", m.Net, false, nil, m.StakeScrip, m.Stake, 0, 0, 0)
		em, _ := ref.ReadAddr(e)
		rm, _ := ref.ReadAddr(r)
		s.Guard("C10", "convert", func() {
			ea, ra := b.ToEnterprise(), b.ToReward()
			if d := sameAddr(ea, em, true); d != "" {
				s.Violate("C10", "convert/enterprise", "the enterprise part of a base address: %s", d)
			}
			if d := sameAddr(ra, rm, true); d != "" {
				s.Violate("C10", "convert/reward", "the reward part of a base address: %s", d)
			}
			if d := sameAddr(b, m, true); d != "" {
				s.Violate("C10", "convert/base", "a base address after taking its parts: %s", d)
			}
			// a network of one's own has the number of one of the two and its own magic
			own := network.NetworkInfo{NetworkId: m.Net, ProtocolMagic: []uint32{0, 1, 2, 42, 764824073, 1097911063, 4294967295}[s.Draw(7)]}
			b2 := address.NewBaseAddress(&own, &b.Payment, &b.Stake)
			for i, x := range []address.Address{b2, b2.ToEnterprise(), b2.ToReward(), address.NewEnterpriseAddress(&own, &b.Payment), address.NewRewardAddress(&own, &b.Stake)} {
				if ni := x.NetworkInfo(); ni == nil || *ni != own {
					s.Violate("C10", "own-network", "an address (%d, %T) of network %+v reports the network %+v", i, x, own, ni)
				} else if y := [][]byte{raw, e, r, e, r}[i]; !bytes.Equal(x.Bytes(), y) {
					s.Violate("C10", "own-network-bytes", "an address (%d, %T) of network %+v has the bytes %x, want %x", i, x, own, x.Bytes(), y)
				}
			}
		})
	}
}

// hurtBytes damages raw bytes.
func (w *aworld) hurtBytes(b []byte) []byte {
	s := w.s
	b = append([]byte(nil), b...)
	kind := s.Draw(12)
	if len(b) == 0 {
		kind = 1
	}
	switch kind {
	case 0:
		s.Fault("truncated")
		return b[:s.Draw(len(b))]
	case 1:
		s.Fault("extended")
		return append(b, s.Bytes(1+s.Draw(30))...)
	case 2:
		s.Fault("bit-flipped")
		b[s.Draw(len(b))] ^= 1 << uint(s.Draw(8))
	case 3:
		s.Fault("substituted")
		b[s.Draw(len(b))] = byte(s.Draw(256))
	case 4:
		s.Fault("transposed")
		i := s.Draw(len(b))
		j := (i + 1) % len(b)
		b[i], b[j] = b[j], b[i]
	case 5:
		s.Fault("re-headed")
		b[0] = byte(s.Draw(256))
	case 6:
		s.Fault("wrong-network")
		b[0] = b[0]&0xf0 | byte(s.Draw(16))
	case 7:
		s.Fault("tail-zeroed")
		for i := s.Draw(len(b)); i < len(b); i++ {
			b[i] = 0
		}
	case 8:
		s.Fault("spliced")
		o := w.pool[s.Draw(len(w.pool))].raw
		return append(b[:s.Draw(len(b)+1)], o[s.Draw(len(o)):]...)
	case 9:
		s.Fault("pointer-rewritten")
		r := append([]byte{0x40 | byte(s.Draw(2))<<4 | byte(s.Draw(2))}, s.Bytes(28)...)
		for i := 0; i < 3; i++ {
			n := ref.Nat(s.U64())
			switch s.Draw(5) {
			case 0: // padded
				n = append(bytes.Repeat([]byte{0x80}, 1+s.Draw(10)), n...)
			case 1: // more than 64 bits
				n = append([]byte{0x80 | byte(1+s.Draw(127))}, ref.Nat(^uint64(0)-uint64(s.Draw(3)))...)
				n[1] |= 0x80
			case 2: // never ends
				if s.Pct(30) {
					n = bytes.Repeat([]byte{0xff}, 1+s.Draw(12))
				}
			}
			r = append(r, n...)
		}
		if s.Pct(30) {
			r = r[:29+s.Draw(len(r)-28)]
		}
		return r
	case 10:
		s.Fault("byron-rewritten")
		return w.byronVariant()
	default:
		s.Fault("doubled")
		return append(b, b...)
	}
	return b
}

// byronVariant makes Byron-like data with a right checksum around wrong content.
func (w *aworld) byronVariant() []byte {
	s := w.s
	hash := s.Bytes([]int{28, 28, 28, 0, 27, 29, 32}[s.Draw(7)])
	in := []byte{0x83}
	if s.Pct(10) {
		in[0] = []byte{0x82, 0x84, 0xa3, 0x9f}[s.Draw(4)]
	}
	if len(hash) < 24 {
		in = append(in, 0x40|byte(len(hash)))
	} else {
		in = append(in, 0x58, byte(len(hash)))
	}
	in = append(in, hash...)
	switch s.Draw(8) {
	case 0:
		in = append(in, 0xa0)
	case 1:
		in = append(in, ref.ByronAttrs(s.Bytes(s.Draw(40)), 0)...)
	case 2:
		in = append(in, ref.ByronAttrs(s.Bytes(30), uint32(s.Draw(1<<30)))...)
	case 3: // unknown attribute
		in = append(in, 0xa1, byte(s.Draw(24)), 0x43, 1, 2, 3)
	case 4: // wrong order
		in = append(in, 0xa2, 2, 0x41, 1, 1, 0x42, 0x41, 9)
	case 5: // empty values
		in = append(in, 0xa2, 1, 0x40, 2, 0x40)
	case 6: // repeated key
		in = append(in, 0xa2, 1, 0x41, 1, 1, 0x41, 2)
	default:
		in = append(in, 0xa1, 2, 0x1a, 0x41, 0x70, 0xcb, 0x17)
	}
	switch s.Draw(5) {
	case 0:
		in = append(in, ref.Head(0, s.U64())...)
	case 1:
		in = append(in, 0x18, 0) // long form of 0
	default:
		in = append(in, 0)
	}
	if s.Pct(10) {
		in = append(in, s.Bytes(1+s.Draw(4))...)
	}
	if s.Pct(10) {
		in = in[:s.Draw(len(in))]
	}
	out := ref.WrapByron(in)
	if s.Pct(15) { // a checksum of more than 32 bits with the right low part
		it, err := ref.Parse(out)
		if err == nil {
			c := it.Kids[1].Val
			out = append(out[:len(out)-len(it.Kids[1].Raw)], ref.Head(0, c+1<<32)...)
		}
	}
	if s.Pct(10) {
		out = append(out, 0)
	}
	return out
}

const soup = "qpzry9x8gf2tvdw0s3jn54khce6mua7l1bioBIOQPZ _-\x00\xc3\xa9/+=ADZadz23"

// hurtText damages a text form.
func (w *aworld) hurtText(t string) string {
	s := w.s
	b := []byte(t)
	kind := s.Draw(16)
	if len(b) == 0 {
		kind = 1
	}
	switch kind {
	case 0:
		s.Fault("truncated")
		return t[:s.Draw(len(t))]
	case 1:
		s.Fault("extended")
		return t + string(soup[s.Draw(len(soup))])
	case 2, 3, 4:
		s.Fault("substituted")
		n := 1 + s.Draw(4)
		for ; n > 0; n-- {
			b[s.Draw(len(b))] = soup[s.Draw(len(soup))]
		}
	case 5:
		s.Fault("transposed")
		i := s.Draw(len(b))
		j := (i + 1) % len(b)
		b[i], b[j] = b[j], b[i]
	case 6:
		s.Fault("character-lost")
		i := s.Draw(len(b))
		return t[:i] + t[i+1:]
	case 7:
		s.Fault("character-inserted")
		i := s.Draw(len(b) + 1)
		return t[:i] + string(soup[s.Draw(len(soup))]) + t[i:]
	case 8:
		s.Fault("case-changed")
		switch s.Draw(3) {
		case 0:
			return strings.ToUpper(t)
		case 1:
			i := s.Draw(len(b))
			return t[:i] + strings.ToUpper(t[i:])
		}
		return strings.ToLower(t)
	case 9:
		s.Fault("prefix-changed")
		if i := strings.LastIndexByte(t, '1'); i > 0 {
			return []string{"addr", "addr_test", "stake", "stake_test", "", "addr1", "addr_"}[s.Draw(7)] + t[i:]
		}
	case 10:
		s.Fault("spliced")
		o := ref.Text(w.pool[s.Draw(len(w.pool))].raw)
		return t[:s.Draw(len(t)+1)] + o[s.Draw(len(o)):]
	case 11:
		s.Fault("padded")
		return []string{" " + t, t + "\n", "\t" + t, t + " ", t + "\x00"}[s.Draw(5)]
	case 12:
		s.Fault("prefix-changed") // with a checksum that fits
		raw := w.pool[s.Draw(len(w.pool))].raw
		return ref.Bech32([]string{"addr", "addr_test", "stake", "stake_test", "addrx", "stake1"}[s.Draw(6)], raw)
	case 13, 14:
		s.Fault("wrong-padding") // with a checksum that fits
		raw := w.pool[s.Draw(len(w.pool))].raw
		hrp := hrpFor(raw)
		v := ref.Groups(raw)
		if len(v) == 0 {
			return t
		}
		switch pad := uint(5*len(v) - 8*len(raw)); {
		case pad > 0 && s.Pct(60):
			v[len(v)-1] |= byte(1 + s.Draw(1<<pad-1))
		case s.Pct(50):
			v = append(v, 0)
		default:
			v = append(v, 0, 0)
		}
		return ref.Bech32Groups(hrp, v)
	default:
		s.Fault("group-moved")
		if len(b) > 12 {
			i := s.Draw(len(b) - 8)
			g := append([]byte(nil), b[i:i+4]...)
			copy(b[i:], b[i+4:i+8])
			copy(b[i+4:], g)
		}
	}
	return string(b)
}

func hrpFor(raw []byte) string {
	h := "addr"
	if len(raw) > 0 && raw[0]>>4 >= 14 {
		h = "stake"
	}
	if len(raw) > 0 && raw[0]&15 == 0 {
		h += "_test"
	}
	return h
}

func (w *aworld) receiver(msgs int) {
	s := w.s
	buf := make([]byte, 4096)
	var held []heldAddr
	for k := 0; k < msgs; k++ {
		if len(w.pool) == 0 {
			return
		}
		if s.Pct(20) {
			w.newAddr()
		}
		src := w.pool[s.Draw(len(w.pool))]
		if len(held) > 0 && s.Pct(15) {
			s.Fault("duplicated")
			h := held[s.Draw(len(held))]
			src.a, src.raw = h.a, h.w.Raw
		}
		if s.Pct(20) {
			s.Sleep(time.Duration(s.Draw(500)) * time.Millisecond) // delay
		} else {
			s.Yield()
		}
		hurt := s.Pct(w.rate)
		if h := w.deliver(src.a, src.raw, hurt, buf); h != nil {
			held = append(held, *h)
		}
		if s.Pct(30) && len(held) > 0 {
			// restart: only the persisted text survives
			i := s.Draw(len(held))
			h := &held[i]
			var a address.Address
			var err error
			if s.Guard("C10", "restart", func() { a, err = address.NewAddress(h.text) }) {
				if err != nil {
					s.Violate("C10", "restart/refused", "the text of a received %s address is refused: %v (%s)", h.w.Kind, err, h.text)
				} else {
					h.a = a
				}
			}
		}
		w.recheck(held)
	}
	for i := range buf {
		buf[i] = 0xee
	}
	w.recheck(held)
}

func (w *aworld) recheck(held []heldAddr) {
	for _, h := range held {
		var d string
		if w.s.Guard("C10", "reread", func() { d = sameAddr(h.a, h.w, true) }) && d != "" {
			w.s.Violate("C10", "held-changed/"+h.w.Kind, "an address received earlier as %s changed: %s", h.how, d)
		}
	}
}

// deliver sends one address over the channel and judges what the receiver read.
func (w *aworld) deliver(a address.Address, raw []byte, hurt bool, buf []byte) *heldAddr {
	s := w.s
	form := s.Draw(4)
	how := []string{"text", "bytes", "hex", "cbor"}[form]
	payload := raw
	inner := hurt && s.Pct(45) // damage below the checksum or hex layer
	if inner {
		payload = w.hurtBytes(raw)
	}
	outer := hurt && !inner
	var got address.Address
	var err error
	var want *ref.Addr
	var rerr error
	var show string
	ok := true
	switch form {
	case 0:
		var t string
		if inner {
			if len(payload) > 0 && payload[0]>>4 == 8 {
				t = ref.Base58(payload)
			} else {
				t = ref.Bech32(hrpFor(payload), payload)
			}
		} else {
			ok = s.Guard("C10", "print", func() { t = a.String() })
			if ok && outer {
				t = w.hurtText(t)
				for s.Pct(15) {
					t = w.hurtText(t)
				}
			}
		}
		if !ok {
			return nil
		}
		show = t
		want, rerr = ref.ReadText(t)
		if rerr != nil && t == strings.ToUpper(t) {
			if m, e := ref.ReadText(strings.ToLower(t)); e == nil {
				want, rerr = m, nil
			}
		}
		ok = s.Guard("C10", "read-text", func() { got, err = address.NewAddress(t) })
	case 1:
		if outer {
			payload = w.hurtBytes(raw)
		}
		if len(payload) > len(buf) {
			payload = payload[:len(buf)]
		}
		n := copy(buf, payload)
		show = hex.EncodeToString(payload)
		want, rerr = ref.ReadAddr(payload)
		ok = s.Guard("C10", "read-bytes", func() { got, err = address.NewAddressFromBytes(buf[:n]) })
		if ok && !bytes.Equal(buf[:n], payload) {
			s.Violate("C10", "buffer-written", "reading an address changed the receive buffer")
		}
		// the buffer is reused at once for the next message
		copy(buf, s.Bytes(64))
	case 2:
		t := hex.EncodeToString(payload)
		if outer {
			if s.Pct(25) {
				t = strings.ToUpper(t)
			} else {
				t = w.hurtText(t)
			}
		}
		show = t
		var p []byte
		p, rerr = hex.DecodeString(t)
		if rerr == nil {
			want, rerr = ref.ReadAddr(p)
		}
		ok = s.Guard("C10", "read-hex", func() { got, err = address.NewAddressFromHex(t) })
	default:
		// the CBOR form that outputs carry; only Byron addresses can be read from it
		var c []byte
		if !s.Guard("C10", "marshal", func() { c, err = a.MarshalCBOR() }) || err != nil {
			return nil
		}
		if inner {
			c = append(ref.Head(2, uint64(len(payload))), payload...)
		} else if outer {
			c = w.hurtBytes(c)
		}
		show = hex.EncodeToString(c)
		n := copy(buf, c)
		c = append([]byte(nil), c[:n]...)
		var it *ref.Item
		it, rerr = ref.Parse(c)
		if rerr == nil {
			switch it.Major {
			case 2:
				want, rerr = ref.ReadAddr(it.Bytes)
			default:
				want, rerr = ref.ReadAddr(c)
			}
		}
		if rerr == nil && want.Kind != "byron" {
			rerr = fmt.Errorf("not a byron address")
		}
		if rerr != nil && it == nil && strings.Contains(rerr.Error(), "trailing") {
			return nil // a CBOR reader hands over one item only
		}
		b := &address.ByronAddress{}
		ok = s.Guard("C10", "read-cbor", func() { err = b.UnmarshalCBOR(buf[:n]) })
		got = b
		copy(buf, s.Bytes(64))
	}
	if !ok {
		return nil
	}
	s.Op("read %s damaged=%v ok=%v", how, hurt, err == nil)
	pristine := !hurt && rerr == nil
	switch {
	case pristine && err != nil:
		s.Violate("C10", "refused/"+how, "an intact %s address sent as %s is refused: %v (%s)", want.Kind, how, err, show)
	case rerr != nil && err == nil:
		s.Violate("C10", "damage-accepted/"+how, "damaged data (%v) sent as %s is read as an address: %s", rerr, how, show)
	case rerr == nil && err == nil:
		var d string
		if !s.Guard("C10", "inspect", func() { d = sameAddr(got, want, want.Canonical) }) {
			return nil
		}
		if d != "" {
			s.Violate("C10", "misread/"+how, "data sent as %s is misread: %s (%s)", how, d, show)
			return nil
		}
		if hurt {
			s.Probe("damage-still-valid")
		} else {
			s.Probe("intact-read-" + want.Kind)
		}
		if want.Canonical {
			return &heldAddr{a: got, w: want, how: how, text: ref.Text(want.Raw)}
		}
	case err != nil:
		s.Probe("damage-refused")
	}
	return nil
}
