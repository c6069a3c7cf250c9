package worlds

import (
	"bytes"
	"fmt"
	"time"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/crypto"

	"verifsim/engine"
	"verifsim/ref"
)

func init() {
	All["keys"] = &World{Name: "keys", Run: keysWorld, Props: []string{"C12"},
		Real: []string{"bip32", "crypto", "crypto/edwards25519", "address"},
		Stub: []string{"process crash and restart", "caller scheduling", "reference BIP32-Ed25519 on big integers"}}
}

// guarded is a byte slice inside a larger buffer, with bytes after it that nobody
// may touch.
type guarded struct {
	buf  []byte
	n    int
	want []byte
}

func guard(b []byte) *guarded {
	g := &guarded{n: len(b)}
	g.buf = append(append([]byte(nil), b...), bytes.Repeat([]byte{0xc7}, 48)...)
	g.want = append([]byte(nil), g.buf...)
	return g
}

func (g *guarded) slice() []byte { return g.buf[:g.n] }
func (g *guarded) intact() bool  { return bytes.Equal(g.buf, g.want) }

// secret is what survives a crash.
type secret struct {
	id       int
	kind     string // icarus, master32, imported
	entropy  []byte
	password []byte
	net      byte
}

func (k *secret) root() ref.XPrv {
	switch k.kind {
	case "icarus":
		return ref.Root(k.entropy, k.password)
	case "master32":
		return ref.Master32(k.entropy)
	}
	var r ref.XPrv
	copy(r[:], k.entropy)
	return r
}

// node is a key in a tree that a process holds in memory.
type knode struct {
	lib  bip32.XPrv
	ref  ref.XPrv
	path string
	copy []byte
	msgs [][]byte // signed so far
}

type kworld struct {
	s      *engine.Sim
	nonces map[string]string // R -> key and message
	nsec   int
}

func keysWorld(s *engine.Sim, prop string) {
	w := &kworld{s: s, nonces: map[string]string{}}
	var secrets []*secret
	n := 1 + s.Draw(3)
	for i := 0; i < n; i++ {
		k := &secret{id: i, net: byte(s.Draw(2))}
		switch s.Draw(5) {
		case 0, 1:
			k.kind = "icarus"
			k.entropy = s.Bytes([]int{32, 16, 20, 24, 28, 1, 0, 64}[s.Draw(8)])
			if len(k.entropy) > 0 && s.Pct(30) {
				pattern(s, k.entropy)
			}
			k.password = s.Bytes([]int{0, 5, 1, 64, 128, 129, 200}[s.Draw(7)])
			if len(k.password) > 0 && s.Pct(30) {
				pattern(s, k.password)
			}
		case 2:
			k.kind = "master32"
			k.entropy = s.Bytes(32)
			if s.Pct(30) {
				pattern(s, k.entropy)
			}
		default:
			k.kind = "imported"
			r := drawKey(s).ref
			k.entropy = r[:]
		}
		secrets = append(secrets, k)
	}
	nt := 1 + s.Draw(3)
	for i := 0; i < nt; i++ {
		k := secrets[s.Draw(len(secrets))]
		w.wallet(k, 0)
	}
	s.SetPreempt(s.Pct(50))
	s.OnStuck(func([]string) { s.Violate("C12", "never-returned", "a key operation never returned") })
	s.Final(func() { s.Note("secrets=%d wallets=%d", n, nt) })
}

// wallet starts one incarnation; a crash leads to another one after a while.
func (w *kworld) wallet(k *secret, inc int) {
	s := w.s
	ops := 3 + s.Draw(12)
	t := s.Go(fmt.Sprintf("wallet%d.%d", k.id, inc), func() { w.live(k, ops) })
	if inc < 3 && s.Pct(40) {
		after := time.Duration(s.Draw(3000)) * time.Millisecond
		s.Go("chaos", func() {
			s.Sleep(after)
			if t.Alive() {
				s.Fault("crash-restart")
				t.OnCrash(func() {})
				s.Crash(t)
				s.Sleep(time.Duration(s.Draw(1000)) * time.Millisecond)
				w.wallet(k, inc+1)
			}
		})
	}
}

func (w *kworld) index() uint32 {
	s := w.s
	switch s.Draw(6) {
	case 0:
		return uint32(s.Draw(5))
	case 1:
		return 1<<31 + uint32(s.Draw(5))
	case 2:
		return []uint32{1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 255, 256, 65535, 1 << 30, 1<<31 + 1852, 1<<31 + 1815}[s.Draw(10)]
	case 3:
		return uint32(s.Draw(1 << 30))
	case 4:
		return 1<<31 + uint32(s.Draw(1<<30))
	}
	return 1852 + uint32(s.Draw(2))<<31
}

func (w *kworld) live(k *secret, ops int) {
	s := w.s
	ent, pw := guard(k.entropy), guard(k.password)
	var root knode
	root.ref = k.root()
	var buf *guarded
	var err error
	ok := s.Guard("C12", "root", func() {
		switch k.kind {
		case "icarus":
			root.lib = bip32.FromBip39Entropy(ent.slice(), pw.slice())
		case "master32":
			root.lib, err = bip32.NewXPrv(ent.slice())
		default:
			// read from storage into a larger buffer
			buf = guard(k.entropy)
			root.lib = bip32.XPrv(buf.slice())
		}
	})
	s.Op("root %s", k.kind)
	if !ok {
		return
	}
	if err != nil {
		s.Violate("C12", "root/error", "a 32-byte secret is refused: %v", err)
		return
	}
	if !bytes.Equal(root.lib, root.ref[:]) {
		s.Violate("C12", "root/"+k.kind, "the root key made from %s entropy %x and password %x is %x, want %x", k.kind, k.entropy, k.password, []byte(root.lib), root.ref[:])
		return
	}
	root.copy = append([]byte(nil), root.lib...)
	nodes := []*knode{&root}
	for i := 0; i < ops; i++ {
		n := nodes[s.Draw(len(nodes))]
		if s.Pct(30) {
			n = nodes[len(nodes)-1]
		}
		switch s.Draw(8) {
		case 0, 1, 2:
			c := w.derive(n, w.index())
			if c == nil {
				return
			}
			nodes = append(nodes, c)
		case 3:
			w.public(n)
		case 4, 5:
			w.sign(n)
		case 6:
			w.addresses(n, k.net)
		default:
			// the standard path
			c := n
			for _, ix := range []uint32{1<<31 + 1852, 1<<31 + 1815, 1<<31 + uint32(s.Draw(3)), uint32(s.Draw(3)), uint32(s.Draw(3))} {
				if c = w.derive(c, ix); c == nil {
					return
				}
			}
			nodes = append(nodes, c)
		}
		if s.Pct(30) {
			s.Sleep(time.Duration(s.Draw(800)) * time.Millisecond)
		} else {
			s.Yield()
		}
		for _, n := range nodes {
			if !bytes.Equal(n.lib, n.copy) {
				s.Violate("C12", "key-altered", "key %q changed in memory", n.path)
				return
			}
		}
		if !ent.intact() || !pw.intact() || buf != nil && !buf.intact() {
			s.Violate("C12", "secret-altered", "the memory holding the entropy, password or imported key was written to")
			return
		}
	}
}

func (w *kworld) derive(n *knode, ix uint32) *knode {
	s := w.s
	c := &knode{path: n.path + fmt.Sprintf("/%d", ix), ref: n.ref.Derive(ix)}
	s.Op("derive %s", c.path)
	if !s.Guard("C12", "Derive", func() { c.lib = n.lib.Derive(ix) }) {
		return nil
	}
	if !bytes.Equal(c.lib, c.ref[:]) {
		s.Violate("C12", "derive", "deriving %q gives %x, a conforming implementation gives %x", c.path, []byte(c.lib), c.ref[:])
		return nil
	}
	c.copy = append([]byte(nil), c.lib...)
	return c
}

func (w *kworld) public(n *knode) {
	s := w.s
	s.Op("public %s", n.path)
	pub := n.ref.Pub()
	s.Guard("C12", "Public", func() {
		x := n.lib.Public()
		if !bytes.Equal(x, append(append([]byte(nil), pub[:]...), n.ref[64:]...)) {
			s.Violate("C12", "public", "the public key of %q is %x, want %x%x", n.path, []byte(x), pub[:], n.ref[64:])
		}
		if !bytes.Equal(x.PublicKey(), pub[:]) || !bytes.Equal(x.ChainCode(), n.ref[64:]) || !bytes.Equal(n.lib.ChainCode(), n.ref[64:]) {
			s.Violate("C12", "public-parts", "the parts of the public key of %q are wrong", n.path)
		}
		h := x.PublicKey().Hash()
		if !bytes.Equal(h[:], ref.Blake224(pub[:])) {
			s.Violate("C12", "key-hash", "the key hash of %q is %x, want %x", n.path, h[:], ref.Blake224(pub[:]))
		}
		if m := bip32.MakePublicKey(n.lib); m != pub {
			s.Violate("C12", "public", "MakePublicKey of %q is %x, want %x", n.path, m[:], pub[:])
		}
	})
}

func (w *kworld) sign(n *knode) {
	s := w.s
	msg := guard(s.Bytes([]int{32, 0, 1, 31, 33, 64, 127, 128, 200, 1000}[s.Draw(10)]))
	if s.Pct(10) {
		// a long one
		msg = guard(bytes.Repeat(s.Bytes(16), 64<<uint(s.Draw(8))))
	}
	if s.Pct(30) {
		pattern(s, msg.buf[:msg.n])
		msg.want = append([]byte(nil), msg.buf...)
	}
	if len(n.msgs) > 0 && s.Pct(50) {
		// almost the same message again
		m := append([]byte(nil), n.msgs[s.Draw(len(n.msgs))]...)
		switch k := s.Draw(4); {
		case k == 0 && len(m) > 0:
			m[len(m)-1] ^= byte(1 + s.Draw(255))
		case k == 1 && len(m) > 0:
			m[s.Draw(len(m))] ^= byte(1 + s.Draw(255))
		case k == 2 && len(m) > 0:
			m = m[:s.Draw(len(m))]
		default:
			m = append(m, s.Bytes(1+s.Draw(40))...)
		}
		msg = guard(m)
	}
	n.msgs = append(n.msgs, msg.want[:msg.n])
	s.Op("sign %s %d bytes", n.path, msg.n)
	var sig [64]byte
	if !s.Guard("C12", "Sign", func() { sig = n.lib.Sign(msg.slice()) }) {
		return
	}
	if !msg.intact() {
		s.Violate("C12", "message-altered", "signing changed the message")
	}
	pub := n.ref.Pub()
	if !ref.Verify(pub[:], msg.want[:msg.n], sig[:]) {
		s.Violate("C12", "signature", "a signature by key %q over %d bytes does not verify", n.path, msg.n)
		return
	}
	id := fmt.Sprintf("%x|%x", pub[:], msg.want[:msg.n])
	r := string(sig[:32])
	if old, ok := w.nonces[r]; ok && old != id {
		s.Violate("C12", "nonce-reused", "key %q signed different messages with the same nonce", n.path)
	}
	w.nonces[r] = id
	s.Probe("signature-verified")
}

func (w *kworld) addresses(n *knode, net byte) {
	s := w.s
	s.Op("addresses %s", n.path)
	pay, st := n.ref.Path(0, 0), n.ref.Path(2, 0)
	pp, sp := pay.Pub(), st.Pub()
	ph, sh := ref.Blake224(pp[:]), ref.Blake224(sp[:])
	var got []string
	if !s.Guard("C12", "addresses", func() {
		cred := func(x bip32.XPrv) *address.StakeCredential {
			h := x.Public().PublicKey().Hash()
			return address.NewKeyStakeCredential(h[:])
		}
		p, t := cred(n.lib.Derive(0).Derive(0)), cred(n.lib.Derive(2).Derive(0))
		nw := netOf(net)
		got = []string{address.NewBaseAddress(nw, p, t).String(), address.NewEnterpriseAddress(nw, p).String(), address.NewRewardAddress(nw, t).String()}
		if kh, err := crypto.Ed25519KeyHashFromBytes(p.Payload); err != nil || !bytes.Equal(kh[:], ph) {
			s.Violate("C12", "key-hash-parse", "the key hash is not read back")
		}
	}) {
		return
	}
	want := []string{
		ref.Text(ref.MakeShelley("base", net, false, ph, false, sh, 0, 0, 0)),
		ref.Text(ref.MakeShelley("enterprise", net, false, ph, false, nil, 0, 0, 0)),
		ref.Text(ref.MakeShelley("reward", net, false, nil, false, sh, 0, 0, 0)),
	}
	for i := range want {
		if got[i] != want[i] {
			s.Violate("C12", "address", "an address of %q is %s, want %s", n.path, got[i], want[i])
		}
	}
	s.Probe("addresses-derived")
}
