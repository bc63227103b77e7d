//overlay: chain/ethbr/client
package client

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"
	"testing"
)

func TestVerifEthAddress(t *testing.T) {
	r := vfRand()
	for i := 0; i < vfN(5000, 80000); i++ {
		vfCase(t)
		s := []byte([]string{"cx", "hx", "0x", "Hx", "h", ""}[r.Intn(6)] + hex.EncodeToString(vfBytes(r, []int{0, 1, 19, 20, 20, 20, 21, 100}[r.Intn(8)])))
		if len(s) > 0 && r.Intn(3) == 0 {
			s = s[:len(s)-1]
		}
		if len(s) > 0 && r.Intn(3) == 0 {
			s[r.Intn(len(s))] = byte(r.Intn(256))
		}
		x := string(s)
		vfNoPanic(t, fmt.Sprintf("%q", x), func() {
			b, err := Address(x).Value()
			ok := len(x) == 42 && (x[:2] == "cx" || x[:2] == "hx") && strings.Trim(x[2:], "0123456789abcdefABCDEF") == ""
			if (err == nil) != ok {
				vfFail(t, "Address(%q).Value(): %v", x, err)
			}
			if ok {
				want, _ := hex.DecodeString(x[2:])
				c := byte(0)
				if x[0] == 'c' {
					c = 1
				}
				if !bytes.Equal(b, append([]byte{c}, want...)) {
					vfFail(t, "Address(%q).Value()=%x", x, b)
				}
			}
			v, err := HexBytes(x).Value()
			ok = x == "" || len(x)%2 == 0 && strings.HasPrefix(x, "0x") && strings.Trim(x[2:], "0123456789abcdefABCDEF") == ""
			if (err == nil) != ok || x == "" && v != nil {
				vfFail(t, "HexBytes(%q).Value(): %x %v", x, v, err)
			}
			if ok && x != "" {
				if want, _ := hex.DecodeString(x[2:]); !bytes.Equal(v, want) {
					vfFail(t, "HexBytes(%q).Value()=%x", x, v)
				}
			}
		})
	}
}
