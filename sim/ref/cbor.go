// Package ref holds the independent reference models the checks compare against.
// Nothing here uses the library under test.
package ref

import (
	"errors"
	"fmt"
)

// Item is one decoded CBOR data item with its exact byte range.
type Item struct {
	Major byte
	Val   uint64 // argument: value, length, tag number, simple value
	Indef bool
	Bytes []byte // string payload
	Kids  []*Item
	Raw   []byte
}

var errCbor = errors.New("malformed cbor")

// Parse decodes exactly one item covering all of b.
func Parse(b []byte) (*Item, error) {
	it, n, err := parse(b, 0)
	if err != nil {
		return nil, err
	}
	if n != len(b) {
		return nil, fmt.Errorf("%d trailing bytes", len(b)-n)
	}
	return it, nil
}

func parse(b []byte, depth int) (*Item, int, error) {
	if len(b) == 0 || depth > 64 {
		return nil, 0, errCbor
	}
	it := &Item{Major: b[0] >> 5}
	ai := b[0] & 31
	n := 1
	switch {
	case ai < 24:
		it.Val = uint64(ai)
	case ai <= 27:
		w := 1 << (ai - 24)
		if len(b) < 1+w {
			return nil, 0, errCbor
		}
		for i := 0; i < w; i++ {
			it.Val = it.Val<<8 | uint64(b[1+i])
		}
		n += w
	case ai == 31 && it.Major >= 2 && it.Major <= 5:
		it.Indef = true
	default:
		return nil, 0, errCbor
	}
	kid := func() error {
		k, m, err := parse(b[n:], depth+1)
		if err != nil {
			return err
		}
		it.Kids = append(it.Kids, k)
		n += m
		return nil
	}
	switch it.Major {
	case 2, 3:
		if it.Indef {
			for {
				if n >= len(b) {
					return nil, 0, errCbor
				}
				if b[n] == 0xff {
					n++
					break
				}
				if err := kid(); err != nil {
					return nil, 0, err
				}
				k := it.Kids[len(it.Kids)-1]
				if k.Major != it.Major || k.Indef {
					return nil, 0, errCbor
				}
				it.Bytes = append(it.Bytes, k.Bytes...)
			}
		} else {
			if it.Val > uint64(len(b)-n) {
				return nil, 0, errCbor
			}
			it.Bytes = b[n : n+int(it.Val)]
			n += int(it.Val)
		}
	case 4, 5:
		if it.Indef {
			for {
				if n >= len(b) {
					return nil, 0, errCbor
				}
				if b[n] == 0xff {
					n++
					break
				}
				if err := kid(); err != nil {
					return nil, 0, err
				}
			}
			if it.Major == 5 && len(it.Kids)%2 != 0 {
				return nil, 0, errCbor
			}
		} else {
			if it.Val > uint64(len(b)) {
				return nil, 0, errCbor
			}
			c := int(it.Val)
			if it.Major == 5 {
				c *= 2
			}
			for i := 0; i < c; i++ {
				if err := kid(); err != nil {
					return nil, 0, err
				}
			}
		}
	case 6:
		if err := kid(); err != nil {
			return nil, 0, err
		}
	}
	it.Raw = b[:n]
	return it, n, nil
}

// Field looks up an unsigned integer key of a map.
func (it *Item) Field(k uint64) *Item {
	if it.Major != 5 {
		return nil
	}
	for i := 0; i+1 < len(it.Kids); i += 2 {
		if it.Kids[i].Major == 0 && it.Kids[i].Val == k {
			return it.Kids[i+1]
		}
	}
	return nil
}

// In, Out and Witness are the parts of a transaction a ledger looks at.
type In struct {
	Hash  string // hex
	Index uint64
}

type Out struct {
	Addr   []byte
	Amount uint64
}

type Witness struct{ VKey, Sig []byte }

// Tx is a transaction as a ledger reads it.
type Tx struct {
	Raw     []byte
	BodyRaw []byte
	MetaRaw []byte
	ID      string // hex of blake2b-256 of the body bytes
	IDBytes [32]byte
	Ins     []In
	Outs    []Out
	Fee     uint64
	HasTTL  bool
	TTL     uint64
	HasAux  bool
	Aux     []byte
	Keys    []uint64 // body keys present
	Wits    []Witness
	WitKeys []uint64
	Valid   bool
	HasMeta bool
}

// ReadTx decodes a serialized transaction.
func ReadTx(b []byte) (*Tx, error) {
	it, err := Parse(b)
	if err != nil {
		return nil, err
	}
	if it.Major != 4 || len(it.Kids) != 4 {
		return nil, errors.New("not a 4-element array")
	}
	t := &Tx{Raw: b, BodyRaw: it.Kids[0].Raw, MetaRaw: it.Kids[3].Raw}
	if err := t.readBody(it.Kids[0]); err != nil {
		return nil, err
	}
	w := it.Kids[1]
	if w.Major != 5 {
		return nil, errors.New("witness set is not a map")
	}
	for i := 0; i+1 < len(w.Kids); i += 2 {
		if w.Kids[i].Major != 0 {
			return nil, errors.New("witness set key")
		}
		t.WitKeys = append(t.WitKeys, w.Kids[i].Val)
	}
	if f := w.Field(0); f != nil {
		if f.Major != 4 {
			return nil, errors.New("vkey witnesses are not an array")
		}
		for _, k := range f.Kids {
			if k.Major != 4 || len(k.Kids) != 2 || k.Kids[0].Major != 2 || k.Kids[1].Major != 2 {
				return nil, errors.New("malformed vkey witness")
			}
			t.Wits = append(t.Wits, Witness{k.Kids[0].Bytes, k.Kids[1].Bytes})
		}
	}
	v := it.Kids[2]
	if v.Major != 7 || (v.Val != 20 && v.Val != 21) || len(v.Raw) != 1 {
		return nil, errors.New("validity flag is not a boolean")
	}
	t.Valid = v.Val == 21
	m := it.Kids[3]
	t.HasMeta = !(m.Major == 7 && m.Val == 22 && len(m.Raw) == 1)
	return t, nil
}

// ReadBody decodes serialized body bytes alone.
func ReadBody(b []byte) (*Tx, error) {
	it, err := Parse(b)
	if err != nil {
		return nil, err
	}
	t := &Tx{Raw: b, BodyRaw: b}
	return t, t.readBody(it)
}

func (t *Tx) readBody(b *Item) error {
	if b.Major != 5 {
		return errors.New("body is not a map")
	}
	t.IDBytes = Blake256(b.Raw)
	t.ID = fmt.Sprintf("%x", t.IDBytes[:])
	seen := map[uint64]bool{}
	for i := 0; i+1 < len(b.Kids); i += 2 {
		k := b.Kids[i]
		if k.Major != 0 || seen[k.Val] {
			return errors.New("bad or duplicate body key")
		}
		seen[k.Val] = true
		t.Keys = append(t.Keys, k.Val)
	}
	ins, outs, fee := b.Field(0), b.Field(1), b.Field(2)
	if ins == nil || outs == nil || fee == nil {
		return errors.New("body lacks inputs, outputs or fee")
	}
	if ins.Major != 4 || outs.Major != 4 || fee.Major != 0 {
		return errors.New("body field has wrong type")
	}
	for _, k := range ins.Kids {
		if k.Major != 4 || len(k.Kids) != 2 || k.Kids[0].Major != 2 || k.Kids[1].Major != 0 {
			return errors.New("malformed input")
		}
		t.Ins = append(t.Ins, In{fmt.Sprintf("%x", k.Kids[0].Bytes), k.Kids[1].Val})
	}
	for _, k := range outs.Kids {
		if k.Major != 4 || len(k.Kids) != 2 || k.Kids[1].Major != 0 {
			return errors.New("malformed output")
		}
		a := k.Kids[0]
		if a.Major != 2 {
			return errors.New("malformed output: address is not a byte string")
		}
		t.Outs = append(t.Outs, Out{a.Bytes, k.Kids[1].Val})
	}
	t.Fee = fee.Val
	if f := b.Field(3); f != nil {
		if f.Major != 0 {
			return errors.New("ttl type")
		}
		t.HasTTL, t.TTL = true, f.Val
	}
	if f := b.Field(7); f != nil {
		if f.Major != 2 {
			return errors.New("auxiliary data hash type")
		}
		t.HasAux, t.Aux = true, f.Bytes
	}
	return nil
}
