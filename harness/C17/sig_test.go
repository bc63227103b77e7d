//overlay: common/crypto
package crypto

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"
)

var vfOrder, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
var vfP, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)

func vfB32(v *big.Int) []byte { b := v.Bytes(); return append(make([]byte, 32-len(b)), b...) }

// TestVerifFormats: a signature keeps R, S and V across every format
func TestVerifFormats(t *testing.T) {
	r := vfRand()
	hints := vfHints()
	for i := 0; i < vfN(4000, 60000); i++ {
		vfCase(t)
		n := []int{0, 1, 63, 64, 65, 66, 65, 65, 64, 130}[r.Intn(10)]
		raw := vfBytes(r, n)
		if n == 65 {
			raw[64] = []byte{0, 1, 2, 3, 4, 27, 28, 255, 0x80, byte(r.Intn(256))}[r.Intn(10)]
			if len(hints) > 0 && r.Intn(2) == 0 {
				h := byte(hints[r.Intn(len(hints))].Int64())
				raw[[]int{64, 0, 31, 32, 63}[r.Intn(5)]] = h
			}
			if r.Intn(4) == 0 {
				raw[0], raw[32] = 0, 0
			}
		}
		keep := append([]byte(nil), raw...)
		vfNoPanic(t, fmt.Sprintf("%x", raw), func() {
			s, err := ParseSignature(raw)
			if (err == nil) != (n == 64 || n == 65) {
				vfFail(t, "ParseSignature of %d bytes: %v", n, err)
				return
			}
			if err == nil {
				if s.HasV() != (n == 65) {
					vfFail(t, "ParseSignature of %d bytes: HasV %v", n, s.HasV())
				}
				if b, err := s.SerializeRS(); err != nil || !bytes.Equal(b, keep[:64]) {
					vfFail(t, "SerializeRS of %x: %x (%v)", keep, b, err)
				}
				b, err := s.SerializeRSV()
				if (err == nil) != (n == 65) || n == 65 && !bytes.Equal(b, keep) {
					vfFail(t, "SerializeRSV of %x: %x (%v)", keep, b, err)
				}
				b, err = s.SerializeVRS()
				if (err == nil) != (n == 65) || n == 65 && !bytes.Equal(b, append([]byte{keep[64]}, keep[:64]...)) {
					vfFail(t, "SerializeVRS of %x: %x (%v)", keep, b, err)
				}
				if n == 65 {
					s2, err := ParseSignatureVRS(b)
					if err != nil || !s2.HasV() {
						vfFail(t, "ParseSignatureVRS(%x): %v", b, err)
					} else if b2, err := s2.SerializeRSV(); err != nil || !bytes.Equal(b2, keep) {
						vfFail(t, "ParseSignatureVRS(%x).SerializeRSV: %x (%v) want %x", b, b2, err, keep)
					}
				}
			}
			if _, err := ParseSignatureVRS(raw); (err == nil) != (n == 65) {
				vfFail(t, "ParseSignatureVRS of %d bytes: %v", n, err)
			}
		})
	}
}

// TestVerifSign: the signer's key, and no other, is recovered and verified
func TestVerifSign(t *testing.T) {
	r := vfRand()
	for i := 0; i < vfN(300, 5000); i++ {
		vfCase(t)
		k := new(big.Int).Rand(r, vfOrder)
		if i < 5 {
			k.SetInt64(int64(i))
		} else if i < 8 {
			k.Sub(vfOrder, big.NewInt(int64(i-4)))
		}
		if k.Sign() == 0 {
			k.SetInt64(1)
		}
		kb := vfB32(k)
		vfNoPanic(t, fmt.Sprintf("key %x", kb), func() {
			in := append([]byte(nil), kb...)
			sk, err := ParsePrivateKey(in)
			if err != nil {
				vfFail(t, "ParsePrivateKey(%x): %v", kb, err)
				return
			}
			in[0] ^= 0xff
			if !bytes.Equal(sk.Bytes(), kb) {
				vfFail(t, "private key %x reads back as %x", kb, sk.Bytes())
			}
			sk.Bytes()[3] ^= 1
			if !bytes.Equal(sk.Bytes(), kb) {
				vfFail(t, "private key %x changed through Bytes()", kb)
			}
			pk := sk.PublicKey()
			u := pk.SerializeUncompressed()
			pk2, err := ParsePublicKey(u)
			if err != nil || !pk2.Equal(pk) || !bytes.Equal(pk2.SerializeCompressed(), pk.SerializeCompressed()) || !bytes.Equal(pk2.SerializeUncompressed(), u) {
				vfFail(t, "public key of %x: uncompressed %x reads as %v (%v)", kb, u, pk2, err)
			}
			pk3, err := ParsePublicKey(pk.SerializeCompressed())
			if err != nil || !pk3.Equal(pk) || !bytes.Equal(pk3.SerializeUncompressed(), u) {
				vfFail(t, "public key of %x: compressed %x reads as %v (%v)", kb, pk.SerializeCompressed(), pk3, err)
			}
			// on the curve
			x, y := new(big.Int).SetBytes(u[1:33]), new(big.Int).SetBytes(u[33:])
			rhs := new(big.Int).Exp(x, big.NewInt(3), vfP)
			rhs.Add(rhs, big.NewInt(7)).Mod(rhs, vfP)
			if u[0] != 4 || new(big.Int).Exp(y, big.NewInt(2), vfP).Cmp(rhs) != 0 {
				vfFail(t, "public key of %x: %x is not a point of the curve", kb, u)
			}
			h := vfBytes(r, []int{32, 32, 32, 1, 20, 31}[r.Intn(6)])
			if r.Intn(8) == 0 {
				h = make([]byte, 32)
			}
			s, err := NewSignature(h, sk)
			if err != nil || !s.HasV() {
				vfFail(t, "NewSignature(%x): %v", h, err)
				return
			}
			rp, err := s.RecoverPublicKey(h)
			if err != nil || !rp.Equal(pk) {
				vfFail(t, "key %x hash %x: recovered %v (%v)", kb, h, rp, err)
			}
			if !s.Verify(h, pk) {
				vfFail(t, "key %x hash %x: signature %v does not verify", kb, h, s)
			}
			vrs, _ := s.SerializeVRS()
			if s2, err := ParseSignatureVRS(vrs); err != nil || !s2.Verify(h, pk) {
				vfFail(t, "key %x hash %x: signature read from V|R|S %x does not verify (%v)", kb, h, vrs, err)
			}
			h2 := append([]byte(nil), h...)
			h2[r.Intn(len(h2))] ^= 1 << uint(r.Intn(8))
			if s.Verify(h2, pk) {
				vfFail(t, "signature of %x verifies for %x", h, h2)
			}
			rsv, _ := s.SerializeRSV()
			bad := append([]byte(nil), rsv...)
			bad[r.Intn(64)] ^= 1 << uint(r.Intn(8))
			if bs, _ := ParseSignature(bad); bs.Verify(h, pk) {
				vfFail(t, "changed signature %x verifies", bad)
			}
			_, other := GenerateKeyPair()
			if s.Verify(h, other) || s.Verify(h, nil) || s.Verify(nil, pk) || s.Verify(make([]byte, 33), pk) {
				vfFail(t, "signature %x verifies for another key or for no hash", rsv)
			}
			rs, _ := ParseSignature(rsv[:64])
			if rs.Verify(h, pk) {
				vfFail(t, "signature without V verifies")
			}
			if _, err := rs.RecoverPublicKey(h); err == nil {
				vfFail(t, "key recovered without V")
			}
			for _, n := range []int{0, 33, 40} {
				if _, err := s.RecoverPublicKey(make([]byte, n)); err == nil {
					vfFail(t, "key recovered from a hash of %d bytes", n)
				}
				if _, err := NewSignature(make([]byte, n), sk); err == nil {
					vfFail(t, "hash of %d bytes signed", n)
				}
			}
			if _, err := NewSignature(h, nil); err == nil {
				vfFail(t, "signed without a key")
			}
		})
	}
	for n := 0; n < 140; n++ {
		vfCase(t)
		b := vfBytes(r, n)
		vfNoPanic(t, fmt.Sprint(n), func() {
			if _, err := ParsePublicKey(b); (err == nil) != (n == 33 || n == 65) {
				vfFail(t, "ParsePublicKey of %d bytes: %v", n, err)
			}
			if _, err := ParsePrivateKey(b); (err == nil) != (n == 32) {
				vfFail(t, "ParsePrivateKey of %d bytes: %v", n, err)
			}
		})
	}
}
