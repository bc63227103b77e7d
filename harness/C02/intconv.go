//overlay: common/intconv
package intconv

import (
	"math/big"
	"math/rand"
	"strings"
	"testing"
)

func vfText(v *big.Int) string {
	if v.Sign() < 0 {
		return "-0x" + new(big.Int).Neg(v).Text(16)
	}
	return "0x" + v.Text(16)
}

// vfVariant: other texts of the same number (upper case, leading zeros)
func vfVariant(r *rand.Rand, s string) string {
	neg := strings.HasPrefix(s, "-")
	d := strings.TrimPrefix(strings.TrimPrefix(s, "-"), "0x")
	if r.Intn(2) == 0 {
		d = strings.ToUpper(d)
	}
	if r.Intn(2) == 0 {
		d = strings.Repeat("0", r.Intn(20)) + d
	}
	if neg {
		return "-0x" + d
	}
	return "0x" + d
}

func vfOne(t *testing.T, r *rand.Rand, v *big.Int) {
	vfCase(t)
	s := vfText(v)
	vfNoPanic(t, s, func() {
		if g := FormatBigInt(v); g != s {
			vfFail(t, "FormatBigInt(%s)=%q want %q", v, g, s)
		}
		for k := 0; k < 2; k++ {
			x := s
			if k == 1 {
				x = vfVariant(r, s)
			}
			var o big.Int
			o.SetInt64(-5)
			if err := ParseBigInt(&o, x); err != nil || o.Cmp(v) != 0 {
				vfFail(t, "ParseBigInt(%q)=%s,%v want %s", x, &o, err, v)
			}
			for _, bits := range []int{8, 16, 32, 64} {
				h := new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
				fits := v.Cmp(h) < 0 && v.Cmp(new(big.Int).Neg(h)) >= 0
				g, err := ParseInt(x, bits)
				if (err == nil) != fits || (fits && big.NewInt(g).Cmp(v) != 0) {
					vfFail(t, "ParseInt(%q,%d)=%d,%v want %s (fits %v)", x, bits, g, err, v, fits)
				}
				ufits := v.Sign() >= 0 && v.BitLen() <= bits
				if v.Sign() == 0 && strings.HasPrefix(x, "-") {
					continue
				}
				u, err := ParseUint(x, bits)
				if (err == nil) != ufits || (ufits && new(big.Int).SetUint64(u).Cmp(v) != 0) {
					vfFail(t, "ParseUint(%q,%d)=%d,%v want %s (fits %v)", x, bits, u, err, v, ufits)
				}
			}
		}
		if v.IsInt64() {
			if g := FormatInt(v.Int64()); g != s {
				vfFail(t, "FormatInt(%s)=%q", v, g)
			}
		}
		if v.IsUint64() {
			if g := FormatUint(v.Uint64()); g != s {
				vfFail(t, "FormatUint(%s)=%q", v, g)
			}
		}
	})
}

func TestVerifHexText(t *testing.T) {
	r := vfRand()
	for _, v := range vfInts() {
		vfOne(t, r, v)
	}
	for i := int64(-70000); i <= 70000; i++ {
		vfOne(t, r, big.NewInt(i))
	}
	for i := 0; i < vfN(30000, 1000000); i++ {
		v := vfRandBig(r, []int{64, 66, 200, 1100}[r.Intn(4)])
		if i < 3 {
			vfSample("%s", FormatBigInt(v))
		}
		vfOne(t, r, v)
	}
	// any text at all: a returned number is within range, malformed digits are refused
	al := "0123456789abcdefABCDEFxX-+_ gG.ob\x00"
	for i := 0; i < vfN(200000, 5000000); i++ {
		n := r.Intn(24)
		var sb strings.Builder
		switch r.Intn(3) {
		case 0:
			sb.WriteString("0x")
		case 1:
			sb.WriteString("-0x")
		}
		for k := 0; k < n; k++ {
			if r.Intn(5) > 0 {
				sb.WriteByte(al[r.Intn(22)])
			} else {
				sb.WriteByte(al[r.Intn(len(al))])
			}
		}
		s := sb.String()
		vfCase(t)
		vfNoPanic(t, s, func() {
			for _, bits := range []int{8, 16, 32, 64} {
				if g, err := ParseInt(s, bits); err == nil && bits < 64 && (g >= 1<<(bits-1) || g < -1<<(bits-1)) {
					vfFail(t, "ParseInt(%q,%d)=%d is out of range", s, bits, g)
				}
				if g, err := ParseUint(s, bits); err == nil && bits < 64 && g >= 1<<bits {
					vfFail(t, "ParseUint(%q,%d)=%d is out of range", s, bits, g)
				}
			}
			o := big.NewInt(12345)
			err := ParseBigInt(o, s)
			d := strings.TrimPrefix(s, "-")
			if len(d) > 2 && d[:2] == "0x" {
				d = d[2:]
			}
			hexok := strings.Trim(d, "0123456789abcdefABCDEF") == ""
			if (err == nil) != hexok {
				vfFail(t, "ParseBigInt(%q): err %v", s, err)
			}
			if err == nil && d != "" {
				w, _ := new(big.Int).SetString(d, 16)
				if strings.HasPrefix(s, "-") {
					w.Neg(w)
				}
				if o.Cmp(w) != 0 {
					vfFail(t, "ParseBigInt(%q)=%s want %s", s, o, w)
				}
			}
			if err != nil && o.Int64() != 12345 {
				vfFail(t, "ParseBigInt(%q) failed and changed the number to %s", s, o)
			}
		})
	}
}
