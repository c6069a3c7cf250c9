package worlds

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/crypto"

	"verifsim/engine"
	"verifsim/ref"
)

func init() {
	All["link"] = &World{Name: "link", Run: linkWorld, Props: []string{"C15", "C16", "C17"},
		Real: []string{"address (reading, variable-length naturals)", "internal/bech32", "crypto (fixed-length values)"},
		Stub: []string{"the link (fragmentation, delay, cuts, duplication, damage)", "receive buffers", "caller scheduling"}}
}

// A link carries texts, streams of naturals and frames with fixed-length values
// between tasks that share it; each receiver works on a buffer it reuses.
type lworld struct {
	s    *engine.Sim
	rate int
}

func linkWorld(s *engine.Sim, prop string) {
	w := &lworld{s: s, rate: []int{0, 30, 60, 90}[s.Draw(4)]}
	nt := 1 + s.Draw(4)
	for i := 0; i < nt; i++ {
		msgs := 2 + s.Draw(6)
		s.Go(fmt.Sprintf("receiver%d", i), func() {
			switch prop {
			case "C15":
				w.texts(msgs)
			case "C16":
				w.stream(msgs)
			case "C17":
				w.frames(msgs)
			default:
				w.texts(msgs)
				w.stream(msgs)
				w.frames(msgs)
			}
		})
	}
	s.SetPreempt(s.Pct(60))
	s.Final(func() { s.Note("receivers=%d damage rate=%d%%", nt, w.rate) })
}

func (w *lworld) delay() {
	if w.s.Pct(20) {
		w.s.Sleep(time.Duration(w.s.Draw(500)) * time.Millisecond)
	} else {
		w.s.Yield()
	}
}

// ---------------------------------------------------------------- C15

const bech = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
const typed = bech + "1bio" + "QPZRY9X8GF2TVDW0S3JN54KHCE6MUA7LBIO" + "_- ./:?"

// mistype changes up to three characters of t, which is lower case.
func (w *lworld) mistype(t string) string {
	s := w.s
	b := []byte(t)
	sep := strings.LastIndexByte(t, '1')
	area := func() int {
		switch s.Draw(6) {
		case 0: // prefix or separator
			return s.Draw(sep + 1)
		case 1: // checksum
			return len(b) - 1 - s.Draw(6)
		case 2: // the groups at either end of the data
			if s.Pct(50) {
				return sep + 1 + s.Draw(4)
			}
			return len(b) - 7 - s.Draw(4)
		}
		return sep + 1 + s.Draw(len(b)-sep-1)
	}
	kind := s.Draw(8)
	if kind == 0 {
		for try := 0; try < 20; try++ {
			i := s.Draw(len(b) - 1)
			if b[i] != b[i+1] {
				b[i], b[i+1] = b[i+1], b[i]
				s.Fault("neighbours-exchanged")
				return string(b)
			}
		}
	}
	n := 1 + s.Draw(3)
	at := map[int]bool{}
	for len(at) < n {
		i := area()
		if at[i] {
			i = (i + 1) % len(b)
			if at[i] {
				continue
			}
		}
		at[i] = true
		was := b[i]
		switch {
		case kind == 1: // letter case
			if u := strings.ToUpper(string(was)); u != string(was) {
				b[i] = u[0]
			}
		case kind == 2: // one bit of a group
			if k := strings.IndexByte(bech, was); k >= 0 && i > sep {
				b[i] = bech[k^1<<uint(s.Draw(5))]
			}
		case kind == 3:
			b[i] = typed[s.Draw(len(typed))]
		}
		for b[i] == was {
			b[i] = bech[s.Draw(32)]
		}
	}
	s.Fault(fmt.Sprintf("characters-changed-%d", n))
	return string(b)
}

// lookalikes are texts of Shelley addresses next to mistyped ones which, taken for
// base58, would denote another Shelley address.
var lookalikes = [][2]string{
	{"stake_test1urxqtwsxayajhc32mc3xca2x3r63qhedmzp8gx4gr5qsyqcma5gut", "YLakeBtest1urxqtwsxayajhc32mc3xca2x3r63qhedmzp8gx4gr5qsyqcma5gut"},
	{"stake_test1ure8pqetdnt5s39fukd6smav5zvjpqz6pgpdt35ycgqsyqcm66792", "Xtakeftest1ure8pqetdnt5s39fukd6smav5zvjpqz6pgpdtn5ycgqsyqcm66792"},
	{"stake1uya3kt7dnahvrp2y93smgsh585mc9dmqu9rz4fqhsvqsyqc7nxzdc", "6uake1uya3kt7dGahvrp2y93smgsh585mc9dmqu9rz4fqhsvqsyqc7nxzdc"},
	{"addr1w8xhnsaave5nxvfn5ppx6zcxkmeh28w3kga4kda6pdknzqgv3tggm", "25dr1w8xhnsaave5nxvfn5ppx6zcxkmeh28w3kga4kda6pdknzqgv3tggm"},
	{"stake_test1urhmh23nkjwa86cptpuqatw5uaufjxjr6s5qq4npz5qsyqcgkecyr", "ftakeht5st1urhmh23nkjwa86cptpuqatw5uaufjxjr6s5qq4npz5qsyqcgkecyr"},
	{"stake1uxyev2mjcnmnumnakpu9uv99uwtdvymfpxemm9mkvyqsyqca98pp7", "71ake1uxyev2Sjcnmnumnakpu9uv99uwtdvymfpxemm9mkvyqsyqca98pp7"},
	{"stake_test1upr25uws5gzfyukkkvtccjpzutssncwnwsxezkr33uqsyqc2ukh6a", "gEakeztest1upr25uws5gzfyukkkvtccjpzutssncwnwsxezkr33uqsyqc2ukh6a"},
}

func (w *lworld) texts(msgs int) {
	s := w.s
	for k := 0; k < msgs; k++ {
		var a address.Address
		var raw []byte
		if !s.Guard("C15", "construct", func() { a, raw = drawAddr(s, byte(s.Draw(2)), false) }) {
			return
		}
		m, err := ref.ReadAddr(raw)
		if err != nil || m.Kind == "byron" {
			continue
		}
		var t string
		if !s.Guard("C15", "print", func() { t = a.String() }) {
			return
		}
		if t != ref.Text(raw) {
			continue // C10's concern; the guarantee is about proper texts
		}
		trick := ""
		if s.Pct(2) {
			l := lookalikes[s.Draw(len(lookalikes))]
			t, trick = l[0], l[1]
			_, raw, _ = ref.UnBech32(t)
			m, _ = ref.ReadAddr(raw)
		}
		intact := func() bool {
			var got address.Address
			if !s.Guard("C15", "read-text", func() { got, err = address.NewAddress(t) }) {
				return false
			}
			s.Op("read intact %s text ok=%v", m.Kind, err == nil)
			if err != nil {
				s.Violate("C15", "refused", "the intact text %q is refused: %v", t, err)
				return false
			} else if !bytes.Equal(got.Bytes(), raw) {
				s.Violate("C15", "misread", "the intact text %q is read as %x", t, got.Bytes())
				return false
			}
			return true
		}
		early := s.Pct(40) // the intact text arrives first, or in between
		for i := 0; i < 1+s.Draw(12); i++ {
			w.delay()
			if early && s.Pct(50) && !intact() {
				return
			}
			bad := w.mistype(t)
			if trick != "" && i == 0 {
				s.Probe("base58-lookalike")
				bad = trick
			}
			if _, err := ref.ReadText(bad); err == nil {
				s.Fail("the reference reads %q", bad)
				return
			}
			var got address.Address
			if !s.Guard("C15", "read-text", func() { got, err = address.NewAddress(bad) }) {
				return
			}
			s.Op("read changed %s text ok=%v", m.Kind, err == nil)
			if err == nil {
				s.Violate("C15", "accepted/"+m.Kind, "%q, read as %T, differs from the %s address %q in at most three characters", bad, got, m.Kind, t)
				return
			}
			s.Probe("changed-text-refused")
		}
		if s.Pct(30) && !intact() {
			return
		}
	}
}

// ---------------------------------------------------------------- C16

func (w *lworld) natural() uint64 {
	s := w.s
	switch s.Draw(5) {
	case 0:
		return uint64(s.Draw(200))
	case 1: // around the widths
		return uint64(1)<<uint(7*(1+s.Draw(9))) + uint64(s.Draw(3)) - 1
	case 2:
		return ^uint64(0) - uint64(s.Draw(3))
	case 3:
		return s.U64() >> uint(s.Draw(64))
	}
	return s.U64()
}

// natAt is the reference: the natural at the start of b. more means its end has
// not arrived; wide that it does not fit 64 bits.
func natAt(b []byte) (v uint64, n int, more, wide, padded bool) {
	padded = len(b) > 1 && b[0] == 0x80
	for i, c := range b {
		if v>>57 != 0 {
			wide = true
		}
		v = v<<7 | uint64(c&0x7f)
		if c&0x80 == 0 {
			return v, i + 1, false, wide, padded
		}
	}
	return 0, 0, true, wide, padded
}

func (w *lworld) stream(msgs int) {
	s := w.s
	for k := 0; k < msgs; k++ {
		var nums []uint64
		var wire []byte
		for i := 0; i < 1+s.Draw(8); i++ {
			v := w.natural()
			var e []byte
			if !s.Guard("C16", "encode", func() { e = address.VariableNatEncode(v) }) {
				return
			}
			if !bytes.Equal(e, ref.Nat(v)) {
				s.Violate("C16", "encode", "%d is encoded as %x, want %x", v, e, ref.Nat(v))
				return
			}
			nums, wire = append(nums, v), append(wire, e...)
			for j := range e { // the sender reuses what it was given
				e[j] ^= 0xff
			}
		}
		s.Op("stream of %d naturals, %d bytes", len(nums), len(wire))
		hurt := s.Pct(w.rate)
		if hurt {
			switch s.Draw(5) {
			case 0:
				s.Fault("cut-off")
				wire = wire[:s.Draw(len(wire))]
			case 1:
				s.Fault("bit-flipped")
				wire[s.Draw(len(wire))] ^= 1 << uint(s.Draw(8))
			case 2:
				s.Fault("too-wide")
				n := ref.Nat(^uint64(0) >> uint(s.Draw(4)))
				n = append([]byte{0x81 + byte(s.Draw(126))}, n...)
				n[1] |= 0x80
				i := s.Draw(len(wire) + 1)
				wire = append(append(append([]byte(nil), wire[:i]...), n...), wire[i:]...)
			case 3:
				s.Fault("garbage")
				wire = append(wire, s.Bytes(1+s.Draw(30))...)
			case 4:
				s.Fault("byte-lost")
				i := s.Draw(len(wire))
				wire = append(append([]byte(nil), wire[:i]...), wire[i+1:]...)
			}
		}
		// the receiver: fragments arrive in a buffer with stale bytes behind them
		buf := s.Bytes(len(wire) + 16)
		have, pos, idx := 0, 0, 0
		dead := false
		for have < len(wire) && !dead {
			n := 1 + s.Draw(len(wire)-have)
			if s.Pct(50) && n > 3 {
				n = 1 + s.Draw(3)
			}
			copy(buf[have:], wire[have:have+n])
			have += n
			w.delay()
			for pos < have {
				part := buf[pos:have:have]
				if s.Pct(50) {
					part = buf[pos:have]
				}
				v, n, more, wide, padded := natAt(part)
				var gv uint64
				var gn int
				var err error
				if !s.Guard("C16", "decode", func() { gv, gn, err = address.VariableNatDecode(part) }) {
					return
				}
				if !bytes.Equal(buf[:have], wire[:have]) {
					s.Violate("C16", "buffer-written", "decoding changed the receive buffer")
					return
				}
				if more {
					s.Probe("decode-incomplete")
					if err == nil {
						s.Violate("C16", "incomplete-accepted", "%x has no end yet, but is decoded as %d (%d bytes)", part, gv, gn)
						return
					}
					break // wait for more
				}
				if wide {
					s.Probe("decode-too-wide")
					if err == nil {
						s.Violate("C16", "wide-accepted", "%x does not fit 64 bits, but is decoded as %d (%d bytes)", part[:n], gv, gn)
						return
					}
					dead = true
					break
				}
				if err != nil {
					if padded {
						dead = true // refusing a longer form than necessary is no one's loss
						break
					}
					s.Violate("C16", "refused", "%x is refused: %v", part[:n], err)
					return
				}
				if gv != v || gn != n {
					s.Violate("C16", "misread", "%x is decoded as %d (%d bytes), want %d (%d bytes)", part, gv, gn, v, n)
					return
				}
				s.Probe("decoded")
				if !hurt && (idx >= len(nums) || nums[idx] != gv) {
					s.Violate("C16", "sequence", "natural %d of the stream is read as %d", idx, gv)
					return
				}
				pos += gn
				idx++
			}
		}
		if !hurt && (idx != len(nums) || pos != len(wire)) {
			s.Violate("C16", "sequence", "%d of %d naturals were read", idx, len(nums))
		}
	}
}

// ---------------------------------------------------------------- C17

// fixed reads b as one of the fixed-length values; get returns what it holds.
var fixed = []struct {
	name string
	n    int
	read func(b []byte) (get func() []byte, err error)
}{
	{"Ed25519KeyHash", 28, func(b []byte) (func() []byte, error) {
		v, err := crypto.Ed25519KeyHashFromBytes(b)
		return func() []byte { return append([]byte(nil), v[:]...) }, err
	}},
	{"ScriptHash", 28, func(b []byte) (func() []byte, error) {
		v, err := crypto.ScriptHashFromBytes(b)
		return func() []byte { return append([]byte(nil), v[:]...) }, err
	}},
	{"TransactionHash", 32, func(b []byte) (func() []byte, error) {
		v, err := crypto.TransactionHashFromBytes(b)
		return func() []byte { return append([]byte(nil), v[:]...) }, err
	}},
	{"GenesisDelegateHash", 28, func(b []byte) (func() []byte, error) {
		v, err := crypto.GenesisDelegateHashFromBytes(b)
		return func() []byte { return append([]byte(nil), v[:]...) }, err
	}},
	{"GenesisHash", 28, func(b []byte) (func() []byte, error) {
		v, err := crypto.GenesisHashFromBytes(b)
		return func() []byte { return append([]byte(nil), v[:]...) }, err
	}},
	{"MetadataHash", 32, func(b []byte) (func() []byte, error) {
		v, err := crypto.MetadataHashFromBytes(b)
		return func() []byte { return append([]byte(nil), v[:]...) }, err
	}},
	{"VRFKeyHash", 32, func(b []byte) (func() []byte, error) {
		v, err := crypto.VRFKeyHashFromBytes(b)
		return func() []byte { return append([]byte(nil), v[:]...) }, err
	}},
	{"BlockHash", 32, func(b []byte) (func() []byte, error) {
		v, err := crypto.BlockHashFromBytes(b)
		return func() []byte { return append([]byte(nil), v[:]...) }, err
	}},
	{"VRFVKey", 32, func(b []byte) (func() []byte, error) {
		v, err := crypto.VRFVKeyFromBytes(b)
		return func() []byte { return append([]byte(nil), v[:]...) }, err
	}},
	{"KESVKey", 32, func(b []byte) (func() []byte, error) {
		v, err := crypto.KESVKeyFromBytes(b)
		return func() []byte { return append([]byte(nil), v[:]...) }, err
	}},
}

func (w *lworld) frames(msgs int) {
	s := w.s
	type held struct {
		name string
		get  func() []byte
		want []byte
	}
	var all []held
	buf := make([]byte, 1024)
	check := func() {
		for _, h := range all {
			if !bytes.Equal(h.get(), h.want) {
				s.Violate("C17", "changed/"+h.name, "a %s received earlier changed from %x to %x", h.name, h.want, h.get())
			}
		}
	}
	for k := 0; k < 2*msgs; k++ {
		f := fixed[s.Draw(len(fixed))]
		frame := s.Bytes(f.n)
		switch s.Draw(8) {
		case 0: // all alike
			for i := range frame {
				frame[i] = frame[0]
			}
			if v := []byte{0, 0, 0xff, frame[0]}[s.Draw(4)]; v != frame[0] {
				for i := range frame {
					frame[i] = v
				}
			}
		case 1: // empty at one end
			for i := s.Draw(f.n + 1); i < f.n; i++ {
				frame[i] = 0
			}
		case 2:
			for i := s.Draw(f.n + 1); i > 0; i-- {
				frame[i-1] = 0
			}
		case 3: // a value seen before
			if len(all) > 0 {
				if h := all[s.Draw(len(all))].want; len(h) == f.n {
					frame = append([]byte(nil), h...)
				}
			}
		}
		if s.Pct(w.rate) {
			switch s.Draw(6) {
			case 5:
				s.Fault("merged")
				frame = append(frame, s.Bytes([]int{28, 32, 128, 224, 256, 512}[s.Draw(6)])...)
			case 0:
				s.Fault("cut-off")
				frame = frame[:s.Draw(f.n)]
			case 1:
				s.Fault("cut-off")
				frame = frame[:f.n-1-s.Draw(4)]
			case 2:
				s.Fault("extended")
				frame = append(frame, s.Bytes(1+s.Draw(40))...)
			case 3:
				s.Fault("doubled")
				frame = append(frame, frame...)
			case 4:
				s.Fault("lost")
				frame = nil
			}
		}
		n := copy(buf, frame)
		part := buf[:n]
		if frame == nil && s.Pct(50) {
			part = nil
		} else if s.Pct(50) {
			part = buf[:n:n]
		}
		var get func() []byte
		var err error
		if !s.Guard("C17", f.name, func() { get, err = f.read(part) }) {
			return
		}
		s.Op("%s from %d bytes ok=%v", f.name, n, err == nil)
		if !bytes.Equal(buf[:n], frame) {
			s.Violate("C17", "buffer-written/"+f.name, "reading a %s changed the receive buffer", f.name)
		}
		switch {
		case n != f.n && err == nil:
			s.Violate("C17", "accepted/"+f.name, "%d bytes are taken as a %s, which has %d", n, f.name, f.n)
		case n == f.n && err != nil:
			s.Violate("C17", "refused/"+f.name, "%d bytes are refused as a %s: %v", n, f.name, err)
		case err == nil:
			s.Probe("value-read")
			if !bytes.Equal(get(), frame) {
				s.Violate("C17", "misread/"+f.name, "%x is read as the %s %x", frame, f.name, get())
			}
			all = append(all, held{f.name, get, frame})
		default:
			s.Probe("frame-refused")
		}
		w.delay()
		copy(buf, s.Bytes(64)) // the next message
		check()
	}
}
