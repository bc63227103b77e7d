//overlay: common/intconv
package intconv

import (
	"bytes"
	"math/big"
	"testing"
)

// reference: shortest two's complement, computed by trying lengths
func vfTwos(v *big.Int) []byte {
	for n := uint(1); ; n++ {
		h := new(big.Int).Lsh(big.NewInt(1), 8*n-1)
		if v.Cmp(h) < 0 && v.Cmp(new(big.Int).Neg(h)) >= 0 {
			w := new(big.Int).Set(v)
			if w.Sign() < 0 {
				w.Add(w, new(big.Int).Lsh(big.NewInt(1), 8*n))
			}
			b := w.Bytes()
			return append(make([]byte, int(n)-len(b)), b...)
		}
	}
}

func vfOne(t *testing.T, v *big.Int) {
	vfCase(t)
	want := vfTwos(v)
	vfNoPanic(t, v.String(), func() {
		keep := new(big.Int).Set(v)
		if g := BigIntToBytes(v); !bytes.Equal(g, want) {
			vfFail(t, "BigIntToBytes(%s)=%x want %x", v, g, want)
		}
		if v.Cmp(keep) != 0 {
			vfFail(t, "BigIntToBytes(%s) changed its argument to %s", keep, v)
		}
		for _, pad := range []int{0, 1, 3, 9} {
			f := byte(0)
			if v.Sign() < 0 {
				f = 0xff
			}
			in := append(bytes.Repeat([]byte{f}, pad), want...)
			in0 := append([]byte(nil), in...)
			var o big.Int
			o.SetInt64(77)
			if g := BigIntSetBytes(&o, in); g.Cmp(v) != 0 || g != &o {
				vfFail(t, "BigIntSetBytes(%x)=%s want %s", in, g, v)
			}
			if !bytes.Equal(in, in0) {
				vfFail(t, "BigIntSetBytes changed its input %x", in0)
			}
			if len(in) <= 8 {
				if g := BytesToInt64(in); big.NewInt(g).Cmp(v) != 0 {
					vfFail(t, "BytesToInt64(%x)=%d want %s", in, g, v)
				}
				if g := BytesToUint64(in); v.Sign() >= 0 && new(big.Int).SetUint64(g).Cmp(v) != 0 {
					vfFail(t, "BytesToUint64(%x)=%d want %s", in, g, v)
				} else if v.Sign() < 0 && int64(g) != v.Int64() {
					vfFail(t, "BytesToUint64(%x)=%d want %d", in, g, uint64(v.Int64()))
				}
			}
		}
		if v.IsInt64() {
			if g := Int64ToBytes(v.Int64()); !bytes.Equal(g, want) {
				vfFail(t, "Int64ToBytes(%s)=%x want %x", v, g, want)
			}
		}
		if v.IsUint64() {
			if g := Uint64ToBytes(v.Uint64()); !bytes.Equal(g, want) {
				vfFail(t, "Uint64ToBytes(%s)=%x want %x", v, g, want)
			}
			if g := BytesToUint64(want); g != v.Uint64() {
				vfFail(t, "BytesToUint64(%x)=%d want %s", want, g, v)
			}
			sz := v.Bytes()
			if len(sz) == 0 {
				sz = []byte{0}
			}
			if g := SizeToBytes(v.Uint64()); !bytes.Equal(g, sz) {
				vfFail(t, "SizeToBytes(%s)=%x want %x", v, g, sz)
			}
			if g := BytesToSize(sz); g != v.Uint64() {
				vfFail(t, "BytesToSize(%x)=%d want %s", sz, g, v)
			}
		}
	})
}

func TestVerifIntBytes(t *testing.T) {
	for _, v := range vfInts() {
		vfOne(t, v)
	}
	for i := int64(-70000); i <= 70000; i++ {
		vfOne(t, big.NewInt(i))
	}
	r := vfRand()
	for i := 0; i < vfN(60000, 3000000); i++ {
		v := vfRandBig(r, []int{64, 72, 200, 1100}[r.Intn(4)])
		if i < 3 {
			vfSample("%s -> %x", v, BigIntToBytes(v))
		}
		vfOne(t, v)
	}
	if g := BigIntToBytes(nil); !bytes.Equal(g, []byte{0}) {
		vfFail(t, "BigIntToBytes(nil)=%x", g)
	}
	if g := BigIntSetBytes(new(big.Int), nil); g.Sign() != 0 {
		vfFail(t, "BigIntSetBytes(nil)=%s", g)
	}
	if BytesToInt64(nil) != 0 || BytesToUint64(nil) != 0 || BytesToSize(nil) != 0 {
		vfFail(t, "empty input is not zero")
	}
}
