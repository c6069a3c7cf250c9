package ref

import (
	"bytes"
	"errors"
	"fmt"
	"hash/crc32"
	"math/big"
	"strings"
)

// Addr is the meaning of an address.
type Addr struct {
	Kind       string // base pointer enterprise reward byron
	Net        byte
	PayScript  bool
	Pay        []byte
	StakeScrip bool
	Stake      []byte
	Slot, Tx   uint64
	Cert       uint64
	Raw        []byte
	Canonical  bool // Raw is the shortest encoding
	ByronAttr  []byte
}

func (a *Addr) Desc() string {
	if a == nil {
		return "nil"
	}
	return fmt.Sprintf("%s net=%d pay=%v/%x stake=%v/%x ptr=%d,%d,%d byron=%x", a.Kind, a.Net, a.PayScript, a.Pay, a.StakeScrip, a.Stake, a.Slot, a.Tx, a.Cert, a.ByronAttr)
}

func nat(b []byte) (v uint64, n int, canon bool, err error) {
	canon = true
	for i, c := range b {
		if i == 0 && c == 0x80 {
			canon = false
		}
		if v>>57 != 0 {
			return 0, 0, false, errors.New("natural too large")
		}
		v = v<<7 | uint64(c&0x7f)
		if c&0x80 == 0 {
			return v, i + 1, canon, nil
		}
	}
	return 0, 0, false, errors.New("unterminated natural")
}

// Nat encodes a variable-length natural.
func Nat(v uint64) []byte {
	out := []byte{byte(v & 0x7f)}
	for v >>= 7; v > 0; v >>= 7 {
		out = append([]byte{byte(v&0x7f) | 0x80}, out...)
	}
	return out
}

// ReadAddr decodes raw address bytes (CIP-19).
func ReadAddr(b []byte) (*Addr, error) {
	if len(b) == 0 {
		return nil, errors.New("empty")
	}
	a := &Addr{Raw: append([]byte(nil), b...), Canonical: true}
	t := b[0] >> 4
	a.Net = b[0] & 15
	if t != 8 && a.Net > 1 {
		return nil, errors.New("unknown network id")
	}
	need := func(n int) error {
		if len(b) != n {
			return fmt.Errorf("length %d, want %d", len(b), n)
		}
		return nil
	}
	switch {
	case t <= 3:
		if err := need(57); err != nil {
			return nil, err
		}
		a.Kind, a.PayScript, a.StakeScrip = "base", t&1 != 0, t&2 != 0
		a.Pay, a.Stake = a.Raw[1:29], a.Raw[29:]
	case t == 4 || t == 5:
		if len(b) < 32 {
			return nil, errors.New("short pointer address")
		}
		a.Kind, a.PayScript, a.Pay = "pointer", t&1 != 0, a.Raw[1:29]
		rest := b[29:]
		for _, p := range []*uint64{&a.Slot, &a.Tx, &a.Cert} {
			v, n, c, err := nat(rest)
			if err != nil {
				return nil, err
			}
			*p = v
			a.Canonical = a.Canonical && c
			rest = rest[n:]
		}
		if len(rest) != 0 {
			return nil, errors.New("trailing data")
		}
	case t == 6 || t == 7:
		if err := need(29); err != nil {
			return nil, err
		}
		a.Kind, a.PayScript, a.Pay = "enterprise", t&1 != 0, a.Raw[1:]
	case t == 14 || t == 15:
		if err := need(29); err != nil {
			return nil, err
		}
		a.Kind, a.StakeScrip, a.Stake = "reward", t&1 != 0, a.Raw[1:]
	case t == 8:
		return readByron(a, b)
	default:
		return nil, errors.New("unknown header")
	}
	return a, nil
}

func readByron(a *Addr, b []byte) (*Addr, error) {
	it, err := Parse(b)
	if err != nil {
		return nil, err
	}
	bad := errors.New("not a byron address")
	if it.Major != 4 || len(it.Kids) != 2 || it.Kids[0].Major != 6 || it.Kids[0].Val != 24 || it.Kids[0].Kids[0].Major != 2 || it.Kids[1].Major != 0 {
		return nil, bad
	}
	raw := it.Kids[0].Kids[0].Bytes
	if it.Kids[1].Val != uint64(crc32.ChecksumIEEE(raw)) {
		return nil, errors.New("byron checksum")
	}
	in, err := Parse(raw)
	if err != nil {
		return nil, err
	}
	if in.Major != 4 || len(in.Kids) != 3 || in.Kids[0].Major != 2 || len(in.Kids[0].Bytes) != 28 || in.Kids[1].Major != 5 || in.Kids[2].Major != 0 {
		return nil, bad
	}
	a.Kind, a.Pay = "byron", in.Kids[0].Bytes
	a.ByronAttr = in.Kids[1].Raw
	a.Net = 1
	for i := 0; i+1 < len(in.Kids[1].Kids); i += 2 {
		k := in.Kids[1].Kids[i]
		if k.Major != 0 {
			return nil, bad
		}
		if k.Val == 2 {
			a.Net = 0
		}
	}
	a.Slot = in.Kids[2].Val // address type
	a.Canonical = bytes.Equal(canon(it), it.Raw) && bytes.Equal(canon(in), in.Raw)
	return a, nil
}

// Head encodes a CBOR head in shortest form.
func Head(major byte, v uint64) []byte {
	m := major << 5
	switch {
	case v < 24:
		return []byte{m | byte(v)}
	case v < 1<<8:
		return []byte{m | 24, byte(v)}
	case v < 1<<16:
		return []byte{m | 25, byte(v >> 8), byte(v)}
	case v < 1<<32:
		return []byte{m | 26, byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
	}
	return []byte{m | 27, byte(v >> 56), byte(v >> 48), byte(v >> 40), byte(v >> 32), byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}

func canon(it *Item) []byte {
	switch it.Major {
	case 2, 3:
		return append(Head(it.Major, uint64(len(it.Bytes))), it.Bytes...)
	case 4, 5:
		n := len(it.Kids)
		if it.Major == 5 {
			n /= 2
		}
		out := Head(it.Major, uint64(n))
		for _, k := range it.Kids {
			out = append(out, canon(k)...)
		}
		return out
	case 6:
		return append(Head(6, it.Val), canon(it.Kids[0])...)
	case 7:
		return it.Raw
	}
	return Head(it.Major, it.Val)
}

// MakeByron encodes a Byron address (type 0) with the given raw attribute map.
func MakeByron(hash, attrs []byte, typ uint64) []byte {
	in := append([]byte{0x83, 0x58, 28}, hash...)
	in = append(in, attrs...)
	in = append(in, Head(0, typ)...)
	return WrapByron(in)
}

// WrapByron adds the tag and checksum around a Byron payload.
func WrapByron(in []byte) []byte {
	out := append([]byte{0x82, 0xd8, 0x18}, Head(2, uint64(len(in)))...)
	out = append(out, in...)
	return append(out, Head(0, uint64(crc32.ChecksumIEEE(in)))...)
}

// ByronAttrs makes the attribute map: payload (nil for none) and network magic (0 for none).
func ByronAttrs(payload []byte, magic uint32) []byte {
	n := 0
	var out []byte
	if payload != nil {
		n++
		inner := append(Head(2, uint64(len(payload))), payload...)
		out = append(out, 1)
		out = append(out, Head(2, uint64(len(inner)))...)
		out = append(out, inner...)
	}
	if magic != 0 {
		n++
		inner := Head(0, uint64(magic))
		out = append(out, 2)
		out = append(out, Head(2, uint64(len(inner)))...)
		out = append(out, inner...)
	}
	return append([]byte{0xa0 | byte(n)}, out...)
}

// ---- text forms

const charset = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

func polymod(v []byte) uint32 {
	gen := [5]uint32{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}
	c := uint32(1)
	for _, d := range v {
		b := c >> 25
		c = c&0x1ffffff<<5 ^ uint32(d)
		for i := 0; i < 5; i++ {
			if b>>i&1 == 1 {
				c ^= gen[i]
			}
		}
	}
	return c
}

func expand(hrp string) []byte {
	var r []byte
	for i := 0; i < len(hrp); i++ {
		r = append(r, hrp[i]>>5)
	}
	r = append(r, 0)
	for i := 0; i < len(hrp); i++ {
		r = append(r, hrp[i]&31)
	}
	return r
}

// Bech32 encodes data under hrp.
func Bech32(hrp string, data []byte) string { return Bech32Groups(hrp, Groups(data)) }

// Groups splits data into 5-bit groups, the last one padded with zero bits.
func Groups(data []byte) (v []byte) {
	acc, n := 0, 0
	for _, b := range data {
		acc = acc<<8 | int(b)
		n += 8
		for n >= 5 {
			n -= 5
			v = append(v, byte(acc>>n&31))
		}
		acc &= 1<<n - 1
	}
	if n > 0 {
		v = append(v, byte(acc<<(5-n)&31))
	}
	return v
}

// Bech32Groups writes 5-bit groups with their checksum.
func Bech32Groups(hrp string, v []byte) string {
	m := polymod(append(append(expand(hrp), v...), 0, 0, 0, 0, 0, 0)) ^ 1
	for i := 0; i < 6; i++ {
		v = append(v, byte(m>>(5*(5-i))&31))
	}
	var sb strings.Builder
	sb.WriteString(hrp + "1")
	for _, d := range v {
		sb.WriteByte(charset[d])
	}
	return sb.String()
}

// UnBech32 decodes a lower-case bech32 string.
func UnBech32(s string) (hrp string, data []byte, err error) {
	bad := errors.New("bad bech32")
	low := strings.ToLower(s)
	if low != s && strings.ToUpper(s) != s {
		return "", nil, bad
	}
	s = low
	p := strings.LastIndexByte(s, '1')
	if p < 1 || p+7 > len(s) {
		return "", nil, bad
	}
	hrp = s[:p]
	var v []byte
	for _, c := range []byte(s[p+1:]) {
		d := strings.IndexByte(charset, c)
		if d < 0 {
			return "", nil, bad
		}
		v = append(v, byte(d))
	}
	if polymod(append(expand(hrp), v...)) != 1 {
		return "", nil, bad
	}
	v = v[:len(v)-6]
	acc, n := 0, 0
	for _, d := range v {
		acc = acc<<5 | int(d)
		n += 5
		if n >= 8 {
			n -= 8
			data = append(data, byte(acc>>n))
		}
		acc &= 1<<n - 1
	}
	if n >= 5 || acc != 0 {
		return "", nil, bad
	}
	return hrp, data, nil
}

const alpha58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func Base58(b []byte) string {
	x := new(big.Int).SetBytes(b)
	var r []byte
	m := new(big.Int)
	k := big.NewInt(58)
	for x.Sign() > 0 {
		x.DivMod(x, k, m)
		r = append(r, alpha58[m.Int64()])
	}
	for _, c := range b {
		if c != 0 {
			break
		}
		r = append(r, '1')
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return string(r)
}

func UnBase58(s string) ([]byte, error) {
	x := new(big.Int)
	k := big.NewInt(58)
	for i := 0; i < len(s); i++ {
		d := strings.IndexByte(alpha58, s[i])
		if d < 0 {
			return nil, errors.New("bad base58")
		}
		x.Mul(x, k)
		x.Add(x, big.NewInt(int64(d)))
	}
	var z []byte
	for i := 0; i < len(s) && s[i] == '1'; i++ {
		z = append(z, 0)
	}
	return append(z, x.Bytes()...), nil
}

// Text is the text form of raw address bytes.
func Text(raw []byte) string {
	a, err := ReadAddr(raw)
	if err != nil {
		return ""
	}
	if a.Kind == "byron" {
		return Base58(raw)
	}
	h := "addr"
	if a.Kind == "reward" {
		h = "stake"
	}
	if a.Net == 0 {
		h += "_test"
	}
	return Bech32(h, raw)
}

// ReadText decodes any text form.
func ReadText(s string) (*Addr, error) {
	if strings.HasPrefix(s, "addr") || strings.HasPrefix(s, "stake") {
		_, d, err := UnBech32(s)
		if err != nil {
			return nil, err
		}
		return ReadAddr(d)
	}
	d, err := UnBase58(s)
	if err != nil {
		return nil, err
	}
	a, err := ReadAddr(d)
	if err == nil && a.Kind != "byron" {
		return nil, errors.New("base58 is for Byron addresses")
	}
	return a, err
}

// MakeShelley builds raw Shelley address bytes.
func MakeShelley(kind string, net byte, payScript bool, pay []byte, stScript bool, stake []byte, slot, tx, cert uint64) []byte {
	bit := func(b bool, n uint) byte {
		if b {
			return 1 << n
		}
		return 0
	}
	var out []byte
	switch kind {
	case "base":
		out = append([]byte{bit(payScript, 4) | bit(stScript, 5) | net}, pay...)
		out = append(out, stake...)
	case "pointer":
		out = append([]byte{0x40 | bit(payScript, 4) | net}, pay...)
		out = append(out, Nat(slot)...)
		out = append(out, Nat(tx)...)
		out = append(out, Nat(cert)...)
	case "enterprise":
		out = append([]byte{0x60 | bit(payScript, 4) | net}, pay...)
	case "reward":
		out = append([]byte{0xe0 | bit(stScript, 4) | net}, stake...)
	}
	return out
}
