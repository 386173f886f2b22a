package vref

import (
	"encoding/binary"
	"errors"
	"math/big"
)

// VarInt is the one canonical encoding of v.
func VarInt(v uint64) []byte {
	switch {
	case v < 0xfd:
		return []byte{byte(v)}
	case v < 1<<16:
		b := []byte{0xfd, 0, 0}
		binary.LittleEndian.PutUint16(b[1:], uint16(v))
		return b
	case v < 1<<32:
		b := make([]byte, 5)
		b[0] = 0xfe
		binary.LittleEndian.PutUint32(b[1:], uint32(v))
		return b
	}
	b := make([]byte, 9)
	b[0] = 0xff
	binary.LittleEndian.PutUint64(b[1:], v)
	return b
}

// VarBytes is a length-prefixed byte string.
func VarBytes(b []byte) []byte { return append(VarInt(uint64(len(b))), b...) }

// EncPt encodes a point.
func EncPt(p Pt) []byte { return append(VarBytes(p.X.Bytes()), VarBytes(p.Y.Bytes())...) }

// EncInt encodes an integer.
func EncInt(i *big.Int) []byte {
	s := byte(0)
	if i.Sign() < 0 {
		s = 1
	}
	return VarBytes(append([]byte{s}, i.Bytes()...))
}

var errShort = errors.New("vref: short or malformed")

// Dec decodes a stream; after a failure Err is set and everything is zero.
type Dec struct {
	B   []byte
	Err error
}

func (d *Dec) take(n uint64) []byte {
	if d.Err != nil || uint64(len(d.B)) < n {
		d.Err = errShort
		return nil
	}
	r := d.B[:n]
	d.B = d.B[n:]
	return r
}

// VarInt reads one.
func (d *Dec) VarInt() uint64 {
	b := d.take(1)
	if b == nil {
		return 0
	}
	var v, min uint64
	switch b[0] {
	case 0xfd:
		if c := d.take(2); c != nil {
			v, min = uint64(binary.LittleEndian.Uint16(c)), 0xfd
		}
	case 0xfe:
		if c := d.take(4); c != nil {
			v, min = uint64(binary.LittleEndian.Uint32(c)), 1<<16
		}
	case 0xff:
		if c := d.take(8); c != nil {
			v, min = binary.LittleEndian.Uint64(c), 1<<32
		}
	default:
		v = uint64(b[0])
	}
	if v < min {
		d.Err = errShort
	}
	return v
}

// VarBytes reads one.
func (d *Dec) VarBytes() []byte { return d.take(d.VarInt()) }

// Pt reads a point.
func (d *Dec) Pt() Pt {
	x := d.VarBytes()
	y := d.VarBytes()
	return Pt{new(big.Int).SetBytes(x), new(big.Int).SetBytes(y)}
}

// Int reads an integer.
func (d *Dec) Int() *big.Int {
	b := d.VarBytes()
	if len(b) == 0 {
		d.Err = errShort
		return new(big.Int)
	}
	r := new(big.Int).SetBytes(b[1:])
	if b[0] == 1 {
		r.Neg(r)
	}
	return r
}

func cat(bs ...[]byte) (r []byte) {
	for _, b := range bs {
		r = append(r, b...)
	}
	return
}
