//overlay: chain/icon/client
package client

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"
	"testing"
)

func TestVerifClientAddress(t *testing.T) {
	r := vfRand()
	for i := 0; i < vfN(5000, 80000); i++ {
		vfCase(t)
		b := vfBytes(r, []int{21, 21, 21, 0, 1, 20, 22, 40}[r.Intn(8)])
		if len(b) > 0 && r.Intn(8) > 0 {
			b[0] = byte(r.Intn(3))
		}
		vfNoPanic(t, fmt.Sprintf("%x", b), func() {
			a := NewAddress(b)
			want := Address("")
			if len(b) == 21 && b[0] == 0 {
				want = Address("hx" + hex.EncodeToString(b[1:]))
			} else if len(b) == 21 && b[0] == 1 {
				want = Address("cx" + hex.EncodeToString(b[1:]))
			}
			if a != want {
				vfFail(t, "NewAddress(%x)=%s want %s", b, a, want)
			}
			if want != "" {
				v, err := a.Value()
				if err != nil || !bytes.Equal(v, b) {
					vfFail(t, "%s.Value()=%x (%v)", a, v, err)
				}
				v, err = Address(string(a[:2]) + strings.ToUpper(string(a[2:]))).Value()
				if err != nil || !bytes.Equal(v, b) {
					vfFail(t, "%s in upper case: Value()=%x (%v)", a, v, err)
				}
			}
			h := NewHexBytes(b)
			if v, err := h.Value(); err != nil || !bytes.Equal(v, b) || string(h) != "0x"+hex.EncodeToString(b) {
				vfFail(t, "NewHexBytes(%x)=%s reads as %x (%v)", b, h, v, err)
			}
		})
		s := []byte([]string{"cx", "hx", "0x", "Hx", "h", ""}[r.Intn(6)] + hex.EncodeToString(vfBytes(r, []int{0, 1, 19, 20, 20, 20, 21, 100}[r.Intn(8)])))
		if len(s) > 0 && r.Intn(3) == 0 {
			s = s[:len(s)-1]
		}
		if len(s) > 0 && r.Intn(3) == 0 {
			s[r.Intn(len(s))] = byte(r.Intn(256))
		}
		x := string(s)
		vfNoPanic(t, fmt.Sprintf("%q", x), func() {
			_, err := Address(x).Value()
			ok := len(x) == 42 && (x[:2] == "cx" || x[:2] == "hx") && strings.Trim(x[2:], "0123456789abcdefABCDEF") == ""
			if (err == nil) != ok {
				vfFail(t, "Address(%q).Value(): %v", x, err)
			}
			v, err := HexBytes(x).Value()
			ok = x == "" || len(x)%2 == 0 && strings.HasPrefix(x, "0x") && strings.Trim(x[2:], "0123456789abcdefABCDEF") == ""
			if (err == nil) != ok || x == "" && v != nil {
				vfFail(t, "HexBytes(%q).Value(): %x %v", x, v, err)
			}
		})
	}
}
