//overlay: common
package common

import (
	"encoding/json"
	"math/big"
	"strings"
	"testing"

	"github.com/icon-project/btp/common/codec"
)

type vfJ interface {
	json.Marshaler
	String() string
}

func vfType(t *testing.T, v *big.Int, bits int, signed bool, m vfJ, un func(b []byte) (*big.Int, error), want bool) {
	s := "0x" + v.Text(16)
	if v.Sign() < 0 {
		s = "-0x" + new(big.Int).Neg(v).Text(16)
	}
	if want {
		if m.String() != s {
			vfFail(t, "%d-bit String of %s is %q", bits, v, m.String())
		}
		j, err := json.Marshal(m)
		if err != nil || string(j) != `"`+s+`"` {
			vfFail(t, "%d-bit JSON of %s is %s, %v", bits, v, j, err)
		}
	}
	g, err := un([]byte(`"` + s + `"`))
	if (err == nil) != want || (want && g.Cmp(v) != 0) {
		vfFail(t, "%d-bit (signed %v) JSON %q parsed as %v, %v", bits, signed, s, g, err)
	}
}

func TestVerifHexTypes(t *testing.T) {
	r := vfRand()
	var vs []*big.Int
	vs = append(vs, vfInts()...)
	for i := 0; i < vfN(3000, 200000); i++ {
		vs = append(vs, vfRandBig(r, []int{16, 32, 64, 66, 200}[r.Intn(5)]))
	}
	for _, v := range vs {
		vfCase(t)
		v := v
		vfNoPanic(t, v.String(), func() {
			in := func(bits int, signed bool) bool {
				if signed {
					h := new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
					return v.Cmp(h) < 0 && v.Cmp(new(big.Int).Neg(h)) >= 0
				}
				return v.Sign() >= 0 && v.BitLen() <= bits
			}
			vfType(t, v, 16, true, HexInt16{int16(v.Int64())}, func(b []byte) (*big.Int, error) {
				var o HexInt16
				err := json.Unmarshal(b, &o)
				return big.NewInt(int64(o.Value)), err
			}, in(16, true))
			vfType(t, v, 16, false, HexUint16{uint16(v.Int64())}, func(b []byte) (*big.Int, error) {
				var o HexUint16
				err := json.Unmarshal(b, &o)
				return big.NewInt(int64(o.Value)), err
			}, in(16, false))
			vfType(t, v, 32, true, HexInt32{int32(v.Int64())}, func(b []byte) (*big.Int, error) {
				var o HexInt32
				err := json.Unmarshal(b, &o)
				return big.NewInt(int64(o.Value)), err
			}, in(32, true))
			vfType(t, v, 32, false, HexUint32{uint32(v.Int64())}, func(b []byte) (*big.Int, error) {
				var o HexUint32
				err := json.Unmarshal(b, &o)
				return big.NewInt(int64(o.Value)), err
			}, in(32, false))
			vfType(t, v, 64, true, HexInt64{v.Int64()}, func(b []byte) (*big.Int, error) {
				var o HexInt64
				err := json.Unmarshal(b, &o)
				return big.NewInt(o.Value), err
			}, in(64, true))
			vfType(t, v, 64, false, HexUint64{v.Uint64()}, func(b []byte) (*big.Int, error) {
				var o HexUint64
				err := json.Unmarshal(b, &o)
				return new(big.Int).SetUint64(o.Value), err
			}, in(64, false))
			var h HexInt
			h.Set(v)
			vfType(t, v, 0, true, h, func(b []byte) (*big.Int, error) {
				var o HexInt
				err := json.Unmarshal(b, &o)
				return &o.Int, err
			}, true)
			c := h.Clone()
			if c.Cmp(v) != 0 {
				vfFail(t, "clone of %s is %s", v, &c.Int)
			}
			var o HexInt
			o.SetBytes(h.Bytes())
			if o.Cmp(v) != 0 {
				vfFail(t, "bytes round trip of %s gives %s", v, &o.Int)
			}
			bs, err := codec.RLP.MarshalToBytes(&h)
			var p HexInt
			if err == nil {
				_, err = codec.RLP.UnmarshalFromBytes(bs, &p)
			}
			if err != nil || p.Cmp(v) != 0 {
				vfFail(t, "RLP round trip of %s gives %s, %v (%x)", v, &p.Int, err, bs)
			}
			if in(64, true) {
				a := HexInt64{v.Int64()}
				var b HexInt64
				bs, err := codec.RLP.MarshalToBytes(&a)
				if err == nil {
					_, err = codec.RLP.UnmarshalFromBytes(bs, &b)
				}
				if err != nil || b != a {
					vfFail(t, "RLP round trip of %s gives %v, %v", v, b, err)
				}
			}
			if in(64, false) {
				a := HexUint64{v.Uint64()}
				var b HexUint64
				bs, err := codec.RLP.MarshalToBytes(&a)
				if err == nil {
					_, err = codec.RLP.UnmarshalFromBytes(bs, &b)
				}
				if err != nil || b != a {
					vfFail(t, "RLP round trip of %s gives %v, %v", v, b, err)
				}
			}
			if in(32, false) {
				a := HexUint32{uint32(v.Uint64())}
				var b HexUint32
				bs, err := codec.RLP.MarshalToBytes(&a)
				if err == nil {
					_, err = codec.RLP.UnmarshalFromBytes(bs, &b)
				}
				if err != nil || b != a {
					vfFail(t, "RLP round trip of %s gives %v, %v", v, b, err)
				}
			}
			if in(16, false) {
				a := HexUint16{uint16(v.Uint64())}
				var b HexUint16
				bs, err := codec.RLP.MarshalToBytes(&a)
				if err == nil {
					_, err = codec.RLP.UnmarshalFromBytes(bs, &b)
				}
				if err != nil || b != a {
					vfFail(t, "RLP round trip of %s gives %v, %v", v, b, err)
				}
			}
		})
	}
	_ = strings.TrimSpace
}
