package btcec

// VField gives the monitors access to field values; it is compiled in by
// overlay only. Operations that the package's own tests use are called directly,
// others if they are there.
type VField struct{ f fieldVal }

func (v *VField) Zero()                 { v.f.Zero() }
func (v *VField) Set(a *VField)         { v.f.Set(&a.f) }
func (v *VField) SetInt(n uint)         { v.f.SetInt(n) }
func (v *VField) SetHex(s string)       { v.f.SetHex(s) }
func (v *VField) Normalize()            { v.f.Normalize() }
func (v *VField) String() string        { return v.f.String() }
func (v *VField) IsZero() bool          { return v.f.IsZero() }
func (v *VField) IsOdd() bool           { return v.f.IsOdd() }
func (v *VField) Equals(a *VField) bool { return v.f.Equals(&a.f) }
func (v *VField) Negate(m uint32)       { v.f.Negate(m) }
func (v *VField) AddInt(n uint)         { v.f.AddInt(n) }
func (v *VField) Add(a *VField)         { v.f.Add(&a.f) }
func (v *VField) Add2(a, b *VField)     { v.f.Add2(&a.f, &b.f) }
func (v *VField) MulInt(n uint)         { v.f.MulInt(n) }
func (v *VField) Mul(a *VField)         { v.f.Mul(&a.f) }
func (v *VField) Square()               { v.f.Square() }
func (v *VField) Inverse()              { v.f.Inverse() }

func (v *VField) SetBytes(b *[32]byte) bool {
	x, ok := interface{}(&v.f).(interface{ SetBytes(*[32]byte) *fieldVal })
	if ok {
		x.SetBytes(b)
	}
	return ok
}

func (v *VField) SetByteSlice(b []byte) bool {
	x, ok := interface{}(&v.f).(interface{ SetByteSlice([]byte) *fieldVal })
	if ok {
		x.SetByteSlice(b)
	}
	return ok
}

func (v *VField) PutBytes(b *[32]byte) bool {
	x, ok := interface{}(&v.f).(interface{ PutBytes(*[32]byte) })
	if ok {
		x.PutBytes(b)
	}
	return ok
}

func (v *VField) Bytes() (*[32]byte, bool) {
	x, ok := interface{}(&v.f).(interface{ Bytes() *[32]byte })
	if ok {
		return x.Bytes(), true
	}
	return nil, false
}

func (v *VField) NegateVal(a *VField, m uint32) bool {
	x, ok := interface{}(&v.f).(interface {
		NegateVal(*fieldVal, uint32) *fieldVal
	})
	if ok {
		x.NegateVal(&a.f, m)
	}
	return ok
}

func (v *VField) Mul2(a, b *VField) bool {
	x, ok := interface{}(&v.f).(interface {
		Mul2(*fieldVal, *fieldVal) *fieldVal
	})
	if ok {
		x.Mul2(&a.f, &b.f)
	}
	return ok
}

func (v *VField) SquareVal(a *VField) bool {
	x, ok := interface{}(&v.f).(interface{ SquareVal(*fieldVal) *fieldVal })
	if ok {
		x.SquareVal(&a.f)
	}
	return ok
}
