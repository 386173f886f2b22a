package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"errors"
	"fmt"
	"math/big"

	"github.com/mit-dci/zksigma/btcec"

	"vref"
)

func init() {
	register(&Check{ID: "C19", Level: "exploration",
		Rule:  "plaintexts of every length from 0 to 300 and some long ones, of special contents and in buffers with spare capacity, encrypted to keys with special private keys; every bit of a ciphertext flipped, every truncation, extensions at every place, parts exchanged between ciphertexts, blocks exchanged, the ephemeral key replaced with its negative and others; ciphertexts read and written by an independent implementation of the format, among them authentic ones with any padding. Non-trivial: a distinct ciphertext decided",
		Run:   runC19,
		Floor: map[string]int64{"round trips": 1500, "read by the reference": 1500, "written by the reference": 500, "bit flips refused": 25000, "truncations refused": 4000, "extensions refused": 3000, "exchanges refused": 2000, "other keys refused": 1200, "shared secrets": 1500, "short shared secrets": 30, "buffers left alone": 1500, "ephemeral keys": 1500, "hostile paddings": 256, "authentic ciphertexts with another header": 48, "authentic ciphertexts that are no full blocks": 60, "repeated encryptions": 500}})
}

// kdf derives the two keys; x without leading zeros as the library does, or with
// them as the format it is compatible with does.
func kdf(x *big.Int, padded bool) (e, m []byte) {
	b := x.Bytes()
	if padded {
		b = pad32(x)
	}
	h := sha512.Sum512(b)
	return h[:32], h[32:]
}

func ctHead(q vref.Pt) []byte {
	b := append([]byte{2, 0xca, 0, 32}, pad32(q.X)...)
	return append(append(b, 0, 32), pad32(q.Y)...)
}

// refSeal makes an authentic ciphertext of padded plaintext.
func refSeal(eph *big.Int, to vref.Pt, iv, padded []byte, pad bool) []byte {
	return refSealAs(eph, to, iv, ctHead(vref.MulG(eph)), padded, pad)
}

// refSealAs is refSeal with the given header in place of the right one.
func refSealAs(eph *big.Int, to vref.Pt, iv, head, padded []byte, pad bool) []byte {
	ke, km := kdf(vref.Secp{}.Mul(to, eph).X, pad)
	out := append(bytes.Clone(iv), head...)
	bl, _ := aes.NewCipher(ke)
	n := len(padded) / 16 * 16
	ct := make([]byte, n)
	cipher.NewCBCEncrypter(bl, iv).CryptBlocks(ct, padded[:n])
	out = append(append(out, ct...), padded[n:]...) // a last block that is not full as it is
	h := hmac.New(sha256.New, km)
	h.Write(out)
	return h.Sum(out)
}

func pkcs(b []byte) []byte {
	n := 16 - len(b)%16
	return append(bytes.Clone(b), bytes.Repeat([]byte{byte(n)}, n)...)
}

// refOpen reads a ciphertext.
func refOpen(d *big.Int, b []byte) ([]byte, error) {
	if len(b) < 16+70+16+32 || (len(b)-118)%16 != 0 {
		return nil, errors.New("length")
	}
	q := vref.Pt{X: new(big.Int).SetBytes(b[20:52]), Y: new(big.Int).SetBytes(b[54:86])}
	if !bytes.Equal(b[16:86], ctHead(q)) || !(vref.Secp{}).OnCurve(q) {
		return nil, errors.New("header")
	}
	for _, pad := range []bool{false, true} {
		ke, km := kdf(vref.Secp{}.Mul(q, d).X, pad)
		h := hmac.New(sha256.New, km)
		h.Write(b[:len(b)-32])
		if !hmac.Equal(h.Sum(nil), b[len(b)-32:]) {
			continue
		}
		bl, _ := aes.NewCipher(ke)
		pt := make([]byte, len(b)-118)
		cipher.NewCBCDecrypter(bl, b[:16]).CryptBlocks(pt, b[86:len(b)-32])
		n := int(pt[len(pt)-1])
		if n < 1 || n > 16 || !bytes.Equal(pkcs(pt[:len(pt)-n]), pt) {
			return nil, errors.New("padding")
		}
		return pt[:len(pt)-n], nil
	}
	return nil, errors.New("mac")
}

type cryptMon struct {
	*C
	fr *freshness
	iv *bitStats
}

func (m *cryptMon) refused(d *big.Int, b []byte, counter, f string, a ...interface{}) {
	in := bytes.Clone(b)
	got, err := btcec.Decrypt(privKey(d), in)
	m.Check(err != nil, "tamper", "%s is accepted and gives %x: %x", fmt.Sprintf(f, a...), clipb(got), clipb(b))
	m.Check(got == nil || err == nil, "tamper", "%s gives an error and plaintext", fmt.Sprintf(f, a...))
	m.Check(bytes.Equal(in, b), "changed", "decryption changes its input")
	m.Count(counter, 1)
	m.Distinct(b)
}

// seal encrypts and watches everything about it.
func (m *cryptMon) seal(d *big.Int, pt []byte) []byte {
	q := vref.MulG(d)
	room := m.R.IntN(40)
	buf := append(bytes.Clone(pt), m.Bytes(room)...)
	snap := bytes.Clone(buf)
	k := pubKey(q)
	ct, err := btcec.Encrypt(k, buf[:len(pt)])
	if !m.Check(err == nil && ct != nil, "encrypt", "encrypting %d bytes to the key of %x: %v", len(pt), d, err) {
		return nil
	}
	m.Check(bytes.Equal(buf, snap), "changed", "encrypting %d bytes changes the caller's buffer from %x to %x", len(pt), clipb(snap), clipb(buf))
	m.Check(rp2(k).Eq(q), "changed", "encrypting changes the key")
	m.Count("buffers left alone", 1)
	// the result shares no memory with the input
	in := bytes.Clone(ct)
	for i := range buf {
		buf[i] ^= 0xff
	}
	m.Check(bytes.Equal(in, ct), "changed", "the ciphertext shares memory with the plaintext")
	p := privKey(d)
	got, err := btcec.Decrypt(p, ct)
	m.Check(err == nil && bytes.Equal(got, pt), "round trip", "%x encrypted to the key of %x decrypts to %x, %v", clipb(pt), d, clipb(got), err)
	m.Check(bytes.Equal(in, ct), "changed", "decryption changes its input")
	m.Check(p.D.Cmp(d) == 0, "changed", "decryption changes the key")
	for i := range got {
		got[i] ^= 0x55
	}
	m.Check(bytes.Equal(in, ct), "changed", "the plaintext shares memory with the ciphertext")
	again, err := btcec.Decrypt(privKey(d), ct)
	m.Check(err == nil && bytes.Equal(again, pt), "round trip", "decrypting again gives %x, %v", clipb(again), err)
	m.Count("round trips", 1)
	m.Check(len(ct) == 118+len(pt)/16*16+16, "layout", "%d bytes become %d", len(pt), len(ct))
	ref, err := refOpen(d, ct)
	m.Check(err == nil && bytes.Equal(ref, pt), "layout", "the reference reads the ciphertext of %x as %x, %v", clipb(pt), clipb(ref), err)
	m.Count("read by the reference", 1)
	if len(ct) >= 86 {
		m.fr.note(m.C, "ephemeral", "the ephemeral key", ct[20:52])
		m.fr.note(m.C, "iv", "the initialization vector", ct[:16])
		m.fr.note(m.C, "first block", "the first block", ct[86:102])
		m.fr.note(m.C, "ciphertext", "the ciphertext", ct)
		m.iv.add(new(big.Int).SetBytes(append(bytes.Clone(ct[:16]), ct[:16]...)))
		m.Count("ephemeral keys", 1)
		if len(pt) >= 16 {
			for i := 0; i+16 <= len(pt); i += 16 {
				m.Check(!bytes.Contains(ct, pt[i:i+16]), "plain", "the ciphertext contains 16 bytes of the plaintext")
			}
		}
		seen := map[string]bool{}
		for i := 86; i+48 <= len(ct); i += 16 {
			b := string(ct[i : i+16])
			m.Check(!seen[b], "pattern", "the ciphertext of %d bytes has the same block twice", len(pt))
			seen[b] = true
		}
	}
	m.Distinct(ct)
	return ct
}

// others decrypts with keys that are not the right one.
func (m *cryptMon) others(d *big.Int, ct []byte) {
	ks := []*big.Int{one(), new(big.Int).Sub(vref.N, two(1)), new(big.Int).Add(d, one()), new(big.Int).Sub(d, one()), new(big.Int).Lsh(d, 1), new(big.Int).Mul(d, lambda), new(big.Int).ModInverse(d, vref.N), m.NonZero(vref.N), m.Uni(vref.N), new(big.Int).Xor(d, two(uint(m.R.IntN(256))))}
	for _, k := range ks {
		k.Mod(k, vref.N)
		if k.Sign() == 0 || k.Cmp(d) == 0 || new(big.Int).Add(k, d).Cmp(vref.N) == 0 {
			continue // the negative of a key has the same shared secrets
		}
		got, err := btcec.Decrypt(privKey(k), ct)
		m.Check(err == btcec.ErrInvalidMAC && got == nil, "other key", "a ciphertext for the key of %x decrypts with %x to %x, %v", d, k, clipb(got), err)
		m.Count("other keys refused", 1)
	}
}

func (c *C) plain(n int) []byte {
	b := make([]byte, n)
	switch c.R.IntN(6) {
	case 0:
	case 1:
		for i := range b {
			b[i] = byte(16 - n%16)
		}
	case 2:
		for i := range b {
			b[i] = 16
		}
	case 3: // looks padded
		c.src.Read(b)
		for i := max(0, n-5); i < n; i++ {
			b[i] = 5
		}
	case 4:
		for i := range b {
			b[i] = 0xff
		}
	default:
		c.src.Read(b)
	}
	return b
}

func secret(c *C, a, b *big.Int) {
	p, q := vref.MulG(a), vref.MulG(b)
	x := vref.Secp{}.Mul(q, a).X
	ka, kb := privKey(a), privKey(b)
	pa, pb := pubKey(p), pubKey(q)
	s1 := btcec.GenerateSharedSecret(ka, pb)
	s2 := btcec.GenerateSharedSecret(kb, pa)
	c.Check(bytes.Equal(s1, s2), "secret", "%x and %x derive %x and %x", a, b, s1, s2)
	c.Check(new(big.Int).SetBytes(s1).Cmp(x) == 0, "secret", "%x and %x derive %x, not %x", a, b, s1, x)
	c.Check(ka.D.Cmp(a) == 0 && kb.D.Cmp(b) == 0 && rp2(pa).Eq(p) && rp2(pb).Eq(q), "changed", "a key exchange changes the keys")
	c.Count("shared secrets", 1)
	if x.BitLen() <= 248 {
		c.Count("short shared secrets", 1)
	}
	c.Distinct(a, b)
}

func runC19(w *W) {
	reuse(w, 1, w.Scale(4, 40), 40, "SharedSecret", "Encrypt", "Decrypt")
	fr := newFreshness()
	iv := &bitStats{}
	mon := func(c *C) *cryptMon { return &cryptMon{c, fr, iv} }
	for part := 0; part < 8; part++ {
		w.Case(fmt.Sprintf("lengths/%d", part), func(c *C) {
			m := mon(c)
			for n := part; n <= 300; n += 8 {
				c.Step(n)
				for j := 0; j < w.Scale(2, 10); j++ {
					d := c.NonZero(vref.N)
					if ct := m.seal(d, c.plain(n)); ct != nil && n < 60 {
						m.others(d, ct)
					}
				}
			}
			for _, n := range []int{511, 512, 1000, 4095, 4096, 65535, 65536, 1<<20 + part} {
				m.seal(c.NonZero(vref.N), c.plain(n+part))
			}
			c.Sample("plaintexts of %d, %d… bytes", part, part+8)
		})
	}
	for part := 0; part < 16; part++ {
		w.Case(fmt.Sprintf("keys/%d", part), func(c *C) {
			m := mon(c)
			for i, d := range specials() {
				if i%16 != part || d.Sign() == 0 {
					continue
				}
				c.Step(i)
				m.seal(d, c.plain(c.R.IntN(70)))
				secret(c, d, c.NonZero(vref.N))
				if i%8 == part%8 {
					// written by another implementation
					pt := c.plain(c.R.IntN(70))
					e := c.NonZero(vref.N)
					if x := (vref.Secp{}).Mul(vref.MulG(d), e).X; x.BitLen() > 248 {
						ct := refSeal(e, vref.MulG(d), c.Bytes(16), pkcs(pt), true)
						got, err := btcec.Decrypt(privKey(d), ct)
						c.Check(err == nil && bytes.Equal(got, pt), "interop", "a ciphertext of another implementation decrypts to %x, %v", got, err)
						c.Count("written by the reference", 1)
					}
				}
			}
		})
	}
	for i := 0; i < w.Scale(16, 400); i++ {
		w.Case(fmt.Sprintf("exchange/%d", i), func(c *C) {
			for j := 0; j < 40; j++ {
				secret(c, c.NonZero(vref.N), c.NonZero(vref.N))
				// a short shared secret
				x := hexInt(pick(c, shortG))
				a := c.NonZero(vref.N)
				b := new(big.Int).ModInverse(a, vref.N)
				b.Mul(b, x).Mod(b, vref.N)
				secret(c, a, b)
				pt := c.plain(c.R.IntN(40))
				e := c.NonZero(vref.N)
				if x := (vref.Secp{}).Mul(vref.MulG(a), e).X; x.BitLen() > 248 {
					ct := refSeal(e, vref.MulG(a), c.Bytes(16), pkcs(pt), true)
					got, err := btcec.Decrypt(privKey(a), ct)
					c.Check(err == nil && bytes.Equal(got, pt), "interop", "a ciphertext of another implementation decrypts to %x, %v", got, err)
					c.Count("written by the reference", 1)
				}
			}
		})
	}
	for i := 0; i < w.Scale(16, 160); i++ {
		w.Case(fmt.Sprintf("tamper/%d", i), func(c *C) {
			m := mon(c)
			d := c.NonZero(vref.N)
			pt := c.plain([]int{0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 64, 100, 5, 160, 200, 80}[i%16])
			ct := m.seal(d, pt)
			if ct == nil {
				return
			}
			for j := range ct {
				c.Step(j)
				for b := 0; b < 8; b++ {
					t := bytes.Clone(ct)
					t[j] ^= 1 << uint(b)
					m.refused(d, t, "bit flips refused", "the ciphertext of %d bytes with bit %d of byte %d flipped", len(pt), b, j)
				}
				t := bytes.Clone(ct)
				t[j] ^= byte(1 + c.R.IntN(255))
				t[c.R.IntN(len(t))] ^= byte(1 + c.R.IntN(255))
				if !bytes.Equal(t, ct) {
					m.refused(d, t, "bit flips refused", "the ciphertext of %d bytes with two bytes changed", len(pt))
				}
				m.refused(d, ct[:j], "truncations refused", "the first %d bytes of a ciphertext of %d", j, len(ct))
				m.refused(d, ct[len(ct)-j:], "truncations refused", "the last %d bytes of a ciphertext of %d", j, len(ct))
				// cut out
				n := 1 + c.R.IntN(len(ct)-j)
				if n == len(ct) {
					n--
				}
				m.refused(d, append(bytes.Clone(ct[:j]), ct[j+n:]...), "truncations refused", "a ciphertext of %d without the %d bytes from %d", len(ct), n, j)
				// put in
				for _, n := range []int{1, 16} {
					x := c.Bytes(n)
					if c.Flip() {
						x = make([]byte, n)
					}
					t := append(append(bytes.Clone(ct[:j]), x...), ct[j:]...)
					m.refused(d, t, "extensions refused", "a ciphertext of %d with %d bytes put in at %d", len(ct), n, j)
				}
			}
			for n := 1; n <= 64; n++ {
				for _, x := range [][]byte{make([]byte, n), c.Bytes(n), bytes.Repeat([]byte{0xff}, n)} {
					m.refused(d, append(bytes.Clone(ct), x...), "extensions refused", "a ciphertext of %d with %d bytes at the end", len(ct), n)
					m.refused(d, append(bytes.Clone(x), ct...), "extensions refused", "a ciphertext of %d with %d bytes at the start", len(ct), n)
				}
			}
			m.refused(d, append(bytes.Clone(ct), ct...), "extensions refused", "a ciphertext twice")
			m.refused(d, nil, "truncations refused", "nothing")
			// zeroed parts
			for j := 0; j < len(ct); j += 2 {
				n := min(1+c.R.IntN(32), len(ct)-j)
				for _, v := range []byte{0, 0xff} {
					t := bytes.Clone(ct)
					copy(t[j:], bytes.Repeat([]byte{v}, n))
					if !bytes.Equal(t, ct) {
						m.refused(d, t, "exchanges refused", "a ciphertext with bytes %d to %d set to %x", j, j+n, v)
					}
				}
			}
		})
	}
	for i := 0; i < w.Scale(24, 600); i++ {
		w.Case(fmt.Sprintf("parts/%d", i), func(c *C) {
			m := mon(c)
			d := c.NonZero(vref.N)
			n := c.R.IntN(80)
			pt := c.plain(n)
			a, b := m.seal(d, pt), m.seal(d, pt)
			x := m.seal(d, c.plain(n))
			o := c.NonZero(vref.N)
			y := m.seal(o, pt)
			if a == nil || b == nil || x == nil || y == nil {
				return
			}
			m.others(d, a)
			end := len(a) - 32
			cuts := [][2]int{{0, 16}, {16, 86}, {20, 52}, {54, 86}, {86, end}, {end, end + 32}, {0, 86}, {16, end}, {0, end}, {86, end + 32}, {end - 16, end}, {86, 102}, {end, end + 16}, {end + 16, end + 32}}
			for _, src := range [][]byte{b, x, y} {
				if len(src) != len(a) {
					continue
				}
				for _, k := range cuts {
					t := bytes.Clone(a)
					copy(t[k[0]:k[1]], src[k[0]:k[1]])
					m.refused(d, t, "exchanges refused", "a ciphertext with bytes %d to %d of another", k[0], k[1])
				}
			}
			if o.Cmp(d) != 0 && new(big.Int).Add(o, d).Cmp(vref.N) != 0 {
				m.refused(d, y, "exchanges refused", "a ciphertext for another key")
			}
			// the ephemeral key replaced with others, the negative above all: same secret
			q := vref.Pt{X: new(big.Int).SetBytes(a[20:52]), Y: new(big.Int).SetBytes(a[54:86])}
			for name, e := range map[string]vref.Pt{"its negative": vref.Secp{}.Neg(q), "its phi": phi(q), "its double": vref.Secp{}.Add(q, q), "G": vref.G, "H": vref.H, "the receiver's": vref.MulG(d), "(0,0)": vref.ID(),
				"(x+p,y)": {X: new(big.Int).Add(q.X, vref.P), Y: q.Y}, "(y,x)": {X: q.Y, Y: q.X}, "(x,0)": {X: q.X, Y: new(big.Int)}, "(x,p)": {X: q.X, Y: vref.P}} {
				t := bytes.Clone(a)
				copy(t[16:86], ctHead(e))
				m.refused(d, t, "exchanges refused", "a ciphertext with the ephemeral key replaced with %s", name)
			}
			// blocks exchanged, dropped, doubled
			for j := 86; j+16 <= end; j += 16 {
				for k := 86; k+16 <= end; k += 16 {
					if j == k {
						continue
					}
					t := bytes.Clone(a)
					copy(t[j:j+16], a[k:k+16])
					copy(t[k:k+16], a[j:j+16])
					m.refused(d, t, "exchanges refused", "a ciphertext with blocks %d and %d exchanged", j, k)
				}
				m.refused(d, append(bytes.Clone(a[:j]), a[j+16:]...), "exchanges refused", "a ciphertext without block %d", j)
				m.refused(d, append(bytes.Clone(a[:j+16]), a[j:]...), "exchanges refused", "a ciphertext with block %d twice", j)
			}
		})
	}
	// an authentic sender with hostile padding: any answer but a panic, and never
	// bytes that are not there
	w.Case("padding", func(c *C) {
		for v := 0; v < 256; v++ {
			for _, n := range []int{16, 32, 48, 272} {
				d, e := c.NonZero(vref.N), c.NonZero(vref.N)
				p := c.Bytes(n)
				p[n-1] = byte(v)
				pt, err := btcec.Decrypt(privKey(d), refSeal(e, vref.MulG(d), c.Bytes(16), p, false))
				c.Check(err != nil || bytes.HasPrefix(p, pt), "padding", "padding byte %d of %d gives %x, %v", v, n, pt, err)
				c.Count("hostile paddings", 1)
			}
		}
		for n := 0; n < 80; n++ { // an authentic sender whose data are no full blocks
			if n%16 == 0 && n > 0 {
				continue
			}
			d := c.NonZero(vref.N)
			pt, err := btcec.Decrypt(privKey(d), refSeal(c.NonZero(vref.N), vref.MulG(d), c.Bytes(16), c.Bytes(n), false))
			c.Check(err != nil && pt == nil, "padding", "an authentic ciphertext with %d bytes of data gives %x, %v", n, pt, err)
			c.Count("authentic ciphertexts that are no full blocks", 1)
		}
		for j := range ctHead(vref.G) { // an authentic sender with another header
			if j >= 4 && j < 36 || j >= 38 {
				continue
			}
			for bit := 0; bit < 8; bit++ {
				d, e := c.NonZero(vref.N), c.NonZero(vref.N)
				head := ctHead(vref.MulG(e))
				head[j] ^= 1 << uint(bit)
				pt, err := btcec.Decrypt(privKey(d), refSealAs(e, vref.MulG(d), c.Bytes(16), head, pkcs(c.Bytes(5)), false))
				c.Check(err != nil && pt == nil, "layout", "an authentic ciphertext with bit %d of header byte %d flipped gives %x, %v", bit, j, pt, err)
				c.Count("authentic ciphertexts with another header", 1)
			}
		}
		for n := 0; n < 40; n++ { // no full block
			d := c.NonZero(vref.N)
			b := refSeal(one(), vref.MulG(d), c.Bytes(16), nil, false)
			btcec.Decrypt(privKey(d), append(b[:len(b)-n%33:len(b)-n%33], make([]byte, n)...))
		}
	})
	// the same plaintext to the same key
	for i := 0; i < w.Scale(6, 60); i++ {
		w.Case(fmt.Sprintf("repeat/%d", i), func(c *C) {
			d := c.NonZero(vref.N)
			pt := c.plain([]int{0, 5, 16, 40, 100, 300}[i%6])
			k := pubKey(vref.MulG(d))
			st, ex := &bitStats{}, &bitStats{}
			quarter := map[string]int{}
			for j := 0; j < 150; j++ {
				c.Step(j)
				ct, err := btcec.Encrypt(k, pt)
				if err != nil || len(ct) < 118 {
					c.Violation("encrypt", "%v", err)
					return
				}
				st.add(new(big.Int).SetBytes(append(bytes.Clone(ct[:16]), ct[86:102]...)))
				ex.add(new(big.Int).SetBytes(ct[20:52]))
				for q := 0; q < 16; q += 8 {
					quarter[fmt.Sprintf("%d %x", q, ct[q:q+8])]++
				}
				c.Count("repeated encryptions", 1)
			}
			for x, n := range quarter {
				c.Check(n == 1, "repeated", "eight bytes of the initialization vector (at %s) occur %d times in 150 encryptions of the same plaintext", x, n)
			}
			for _, s := range []*bitStats{st, ex} {
				bit, sg := s.worst()
				c.Check(sg < 7, "iv bits", "bit %d of initialization vector and first block, or of the ephemeral key, is set in %d of %d encryptions of the same plaintext", bit, s.ones[bit], s.n)
			}
			c.Distinct("repeat", d)
		})
	}
	w.Each("bits", func(c *C) {
		if iv.n < 200 {
			return
		}
		bit, s := iv.worst()
		c.Check(s < 8, "iv bits", "bit %d of the initialization vectors is off balance by %.1f standard deviations over %d", bit, s, iv.n)
	})
}
