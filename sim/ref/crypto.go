package ref

import (
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/pbkdf2"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"math/big"

	"golang.org/x/crypto/blake2b"
)

func Blake256(b []byte) [32]byte { return blake2b.Sum256(b) }

func Blake224(b []byte) []byte {
	h, err := blake2b.New(28, nil)
	if err != nil {
		panic(err)
	}
	h.Write(b)
	return h.Sum(nil)
}

// Verify checks a standard Ed25519 signature.
func Verify(pub, msg, sig []byte) bool {
	if len(pub) != 32 || len(sig) != 64 {
		return false
	}
	k := string(pub) + string(sig) + string(msg)
	slot := &verified[binary.LittleEndian.Uint64(sig)%uint64(len(verified))]
	if *slot == k {
		return true
	}
	if !ed25519.Verify(ed25519.PublicKey(pub), msg, sig) {
		return false
	}
	*slot = k
	return true
}

// verified holds what has been verified: transactions are looked at again and again
var verified [1 << 14]string

// ---- Ed25519 base point multiplication on big integers

var (
	fieldP, _ = new(big.Int).SetString("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", 16)
	curveD    = func() *big.Int {
		// -121665/121666
		n := big.NewInt(-121665)
		d := new(big.Int).ModInverse(big.NewInt(121666), fieldP)
		return n.Mod(n.Mul(n, d), fieldP)
	}()
	baseX, _ = new(big.Int).SetString("216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a", 16)
	baseY, _ = new(big.Int).SetString("6666666666666666666666666666666666666666666666666666666666666658", 16)
)

type point struct{ x, y, z, t *big.Int }

func mulm(a, b *big.Int) *big.Int { r := new(big.Int).Mul(a, b); return r.Mod(r, fieldP) }
func sub(a, b *big.Int) *big.Int  { return new(big.Int).Sub(a, b) }
func add(a, b *big.Int) *big.Int  { return new(big.Int).Add(a, b) }

// complete addition, extended coordinates, a = -1; only products are reduced
func (p *point) add(q *point) *point {
	a := mulm(sub(p.y, p.x), sub(q.y, q.x))
	b := mulm(add(p.y, p.x), add(q.y, q.x))
	c := mulm(mulm(p.t, q.t), add(curveD, curveD))
	d := mulm(add(p.z, p.z), q.z)
	e, f, g, h := sub(b, a), sub(d, c), add(d, c), add(b, a)
	return &point{mulm(e, f), mulm(g, h), mulm(f, g), mulm(e, h)}
}

var (
	baseTab  [][256]*point // baseTab[i][j] = j * 256^i * B
	pubCache = map[[32]byte][32]byte{}
)

func zero() *point { return &point{big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(0)} }

func makeTab() {
	b := &point{baseX, baseY, big.NewInt(1), mulm(baseX, baseY)}
	for i := 0; i < 32; i++ {
		var row [256]*point
		row[0] = zero()
		for j := 1; j < 256; j++ {
			row[j] = row[j-1].add(b)
		}
		baseTab = append(baseTab, row)
		b = row[255].add(b)
	}
}

// Public is the encoding of scalar * B; the scalar is 32 bytes little endian.
func Public(scalar []byte) [32]byte {
	var key [32]byte
	copy(key[:], scalar)
	if r, ok := pubCache[key]; ok {
		return r
	}
	if baseTab == nil {
		makeTab()
	}
	p := baseTab[0][key[0]]
	for i := 1; i < 32; i++ {
		if key[i] != 0 {
			p = p.add(baseTab[i][key[i]])
		}
	}
	zi := new(big.Int).ModInverse(p.z, fieldP)
	x, y := mulm(p.x, zi), mulm(p.y, zi)
	var out [32]byte
	yb := y.Bytes()
	for i := range yb {
		out[i] = yb[len(yb)-1-i]
	}
	out[31] |= byte(x.Bit(0)) << 7
	if len(pubCache) < 200000 {
		pubCache[key] = out
	}
	return out
}

// XPrv is kL || kR || chain code.
type XPrv [96]byte

type rootKey struct{ e, p string }

var rootCache = map[rootKey]XPrv{}

// Root is the Icarus master key of CIP-3.
func Root(entropy, password []byte) XPrv {
	k := rootKey{string(entropy), string(password)}
	if r, ok := rootCache[k]; ok {
		return r
	}
	b, err := pbkdf2.Key(sha512.New, string(password), entropy, 4096, 96)
	if err != nil {
		panic(err)
	}
	b[0] &= 0xf8
	b[31] &= 0x1f
	b[31] |= 0x40
	var r XPrv
	copy(r[:], b)
	if len(rootCache) < 100000 {
		rootCache[k] = r
	}
	return r
}

// Master32 is the master key made from a 32-byte secret (BIP32-Ed25519 section V.A,
// with the third highest bit cleared instead of the secret being discarded).
func Master32(secret []byte) XPrv {
	h := sha512.Sum512(secret)
	h[0] &= 0xf8
	h[31] &= 0x5f
	h[31] |= 0x40
	c := sha256.Sum256(append([]byte{1}, secret...))
	var r XPrv
	copy(r[:64], h[:])
	copy(r[64:], c[:])
	return r
}

func leInt(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func putLE(dst []byte, v *big.Int) {
	m := new(big.Int).Lsh(big.NewInt(1), uint(8*len(dst)))
	b := new(big.Int).Mod(v, m).Bytes()
	for i := range dst {
		dst[i] = 0
	}
	for i := range b {
		dst[i] = b[len(b)-1-i]
	}
}

func (k XPrv) Pub() [32]byte { return Public(k[:32]) }

// Derive is BIP32-Ed25519 child key derivation (V2, as used by Cardano).
func (k XPrv) Derive(index uint32) XPrv {
	var ser [4]byte
	binary.LittleEndian.PutUint32(ser[:], index)
	mac := func(tag byte, mid []byte) []byte {
		h := hmac.New(sha512.New, k[64:])
		h.Write([]byte{tag})
		h.Write(mid)
		h.Write(ser[:])
		return h.Sum(nil)
	}
	var z, c []byte
	if index >= 1<<31 {
		z, c = mac(0, k[:64]), mac(1, k[:64])
	} else {
		p := k.Pub()
		z, c = mac(2, p[:]), mac(3, p[:])
	}
	var r XPrv
	l := leInt(z[:28])
	l.Lsh(l, 3)
	l.Add(l, leInt(k[:32]))
	putLE(r[:32], l)
	putLE(r[32:64], new(big.Int).Add(leInt(z[32:]), leInt(k[32:64])))
	copy(r[64:], c[32:])
	return r
}

// Path derives along a path.
func (k XPrv) Path(idx ...uint32) XPrv {
	for _, i := range idx {
		k = k.Derive(i)
	}
	return k
}
