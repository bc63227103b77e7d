//overlay: common
package common

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"github.com/icon-project/btp/common/codec"
	"github.com/icon-project/btp/common/crypto"
)

func vfPad(c byte, id []byte) []byte {
	if len(id) > 20 {
		return nil
	}
	return append(append([]byte{c}, make([]byte, 20-len(id))...), id...)
}

func vfIsHex(s string) bool { return strings.Trim(s, "0123456789abcdefABCDEF") == "" }

func vfDirty() *Address {
	a := new(Address)
	for i := range a {
		a[i] = 0xee
	}
	a[0] = 1
	return a
}

func TestVerifAddress(t *testing.T) {
	r := vfRand()
	for i := 0; i < vfN(4000, 80000); i++ {
		vfCase(t)
		n := []int{0, 1, 2, 19, 20, 20, 20, 20, r.Intn(21), r.Intn(21)}[r.Intn(10)]
		id := vfBytes(r, n)
		if n > 0 && r.Intn(3) == 0 {
			for k := 0; k < 1+r.Intn(n); k++ {
				id[k] = 0
			}
		}
		c := r.Intn(2) == 1
		tb := byte(0)
		px := "hx"
		if c {
			tb, px = 1, "cx"
		}
		want := vfPad(tb, id)
		text := px + hex.EncodeToString(want[1:])
		vfNoPanic(t, fmt.Sprintf("%v %x", c, id), func() {
			in := append([]byte{}, id...)
			chk := func(how string, a *Address, err error) {
				if err != nil || !bytes.Equal(a[:], want) {
					vfFail(t, "%s (contract=%v id=%x): %x (%v) want %x", how, c, id, a[:], err, want)
				}
			}
			a := vfDirty()
			chk("SetTypeAndID", a, a.SetTypeAndID(c, in))
			a2 := vfDirty()
			chk("SetBytes", a2, a2.SetBytes(append([]byte{tb}, in...)))
			if c {
				chk("NewContractAddress", NewContractAddress(in), nil)
			} else {
				chk("NewAccountAddress", NewAccountAddress(in), nil)
			}
			chk("NewAddress", NewAddress(want), nil)
			if a.String() != text || a.IsContract() != c || !bytes.Equal(a.Bytes(), want) || !bytes.Equal(a.ID(), want[1:]) {
				vfFail(t, "address %x: text %s id %x contract %v", want, a, a.ID(), a.IsContract())
			}
			for _, s := range []string{text, px + strings.ToUpper(text[2:]), px + hex.EncodeToString(id), px + strings.TrimLeft(text[2:], "0")} {
				b := vfDirty()
				chk("SetString "+s, b, b.SetString(s))
			}
			if !c {
				for _, s := range []string{text[2:], "0x" + text[2:]} {
					b := vfDirty()
					chk("SetString "+s, b, b.SetString(s))
				}
			}
			js, err := json.Marshal(a)
			if err != nil || string(js) != `"`+text+`"` {
				vfFail(t, "json of %s: %s (%v)", text, js, err)
			}
			b := vfDirty()
			chk("json", b, json.Unmarshal(js, b))
			rb, err := codec.RLP.MarshalToBytes(a)
			if err != nil || !bytes.Equal(rb, append([]byte{0x95}, want...)) {
				vfFail(t, "rlp of %s: %x (%v)", text, rb, err)
			}
			b = vfDirty()
			_, err = codec.RLP.UnmarshalFromBytes(rb, b)
			chk("rlp", b, err)
			o := vfDirty()
			o.SetBytes(want)
			if !a.Equal(o) || !o.Equal(a) {
				vfFail(t, "%s is not equal to itself", text)
			}
			o[r.Intn(21)] ^= 1 << uint(r.Intn(8))
			if a.Equal(o) || a.Equal(nil) || (*Address)(nil).Equal(a) || !(*Address)(nil).Equal(nil) {
				vfFail(t, "%s is equal to %s or to nil", text, o)
			}
		})
	}
	// refused inputs leave the address as it was
	bad := []string{"hx0g", "cx" + strings.Repeat("0", 39) + "x", "zz00", "hx 1", "0X12", "h", "x"}
	for i := 0; i < vfN(1000, 10000); i++ {
		b := []byte("hx" + hex.EncodeToString(vfBytes(r, 20)))
		b[r.Intn(len(b))] = byte(r.Intn(256))
		bad = append(bad, string(b))
	}
	for _, h := range vfStrHints() {
		bad = append(bad, string(h))
	}
	for _, s := range bad {
		vfCase(t)
		vfNoPanic(t, s, func() {
			a, d := vfDirty(), vfDirty()
			err := a.SetString(s)
			body := s
			if len(s) >= 2 && (s[:2] == "cx" || s[:2] == "hx" || s[:2] == "0x") {
				body = s[2:]
			}
			if (err == nil) != vfIsHex(body) {
				vfFail(t, "SetString(%q): %v", s, err)
			}
			if err != nil && *a != *d {
				vfFail(t, "refused SetString(%q) changed the address", s)
			}
		})
	}
	for c := 0; c < 256; c++ {
		for _, n := range []int{0, 1, 20, 21} {
			vfCase(t)
			b := append([]byte{byte(c)}, vfBytes(r, n)...)
			vfNoPanic(t, fmt.Sprintf("%x", b), func() {
				a, d := vfDirty(), vfDirty()
				err := a.SetBytes(b)
				if (err == nil) != (c <= 1) {
					vfFail(t, "SetBytes(%x): %v", b, err)
				}
				if err != nil && *a != *d {
					vfFail(t, "refused SetBytes(%x) changed the address", b)
				}
			})
		}
	}
	for _, b := range [][]byte{nil, {}} {
		vfNoPanic(t, "SetBytes of nothing", func() {
			if err := vfDirty().SetBytes(b); err == nil {
				vfFail(t, "SetBytes of no bytes accepted")
			}
		})
	}
	for i := 0; i < vfN(20, 200); i++ {
		vfCase(t)
		_, pk := crypto.GenerateKeyPair()
		h := crypto.SHA3Sum256(pk.SerializeUncompressed()[1:])
		if a := NewAccountAddressFromPublicKey(pk); !bytes.Equal(a[:], append([]byte{0}, h[12:]...)) {
			vfFail(t, "address of key %s: %s", pk, a)
		}
	}
}
