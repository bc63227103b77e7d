//overlay: common/types
package types

import (
	"math/rand"
	"strings"
	"testing"
)

func vfWord(r *rand.Rand, min int) string {
	n := min + r.Intn(5)
	if r.Intn(10) == 0 {
		n = 42
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefxyz0123456789-_AZ:%"[r.Intn(25)]
	}
	return string(b)
}

func TestVerifBtpAddress(t *testing.T) {
	r := vfRand()
	for i := 0; i < vfN(20000, 300000); i++ {
		vfCase(t)
		p := strings.Replace([]string{"btp", "http", vfWord(r, 1)}[r.Intn(3)], ":", "", -1)
		if p == "" {
			p = "b"
		}
		id, ch, ac := vfWord(r, 0), []string{"icon", "iconee", "bsc", vfWord(r, 1)}[r.Intn(4)], vfWord(r, 0)
		if r.Intn(3) == 0 {
			ac = strings.Repeat(".", r.Intn(3)) + ac
		}
		net := id + "." + ch
		if r.Intn(3) == 0 {
			id, net = "", ch
		}
		s := p + "://" + net + "/" + ac
		a := BtpAddress(s)
		vfNoPanic(t, s, func() {
			if a.Protocol() != p || a.NetworkAddress() != net || a.BlockChain() != ch || a.NetworkID() != id || a.Account() != ac || a.ContractAddress() != ac || a.String() != s {
				vfFail(t, "%q: protocol %q network %q id %q chain %q account %q %q", s, a.Protocol(), a.NetworkAddress(), a.NetworkID(), a.BlockChain(), a.Account(), a.ContractAddress())
			}
			ok := p == "btp" && (ch == "icon" || ch == "iconee") && ac != ""
			if (ValidateBtpAddress(a) == nil) != ok {
				vfFail(t, "ValidateBtpAddress(%q): %v", s, ValidateBtpAddress(a))
			}
			var b BtpAddress
			if err := b.Set(s); err != nil || b != a {
				vfFail(t, "Set(%q): %q %v", s, b, err)
			}
		})
		// anything else: no crash, no parts without a protocol
		g := []byte(s)
		for k := r.Intn(4); k >= 0 && len(g) > 0; k-- {
			q := r.Intn(len(g))
			if r.Intn(2) == 0 {
				g[q] = "/:.x"[r.Intn(4)]
			} else {
				g = append(g[:q:q], g[q+1:]...)
			}
		}
		vfNoPanic(t, string(g), func() {
			b := BtpAddress(g)
			i := strings.Index(string(g), "://")
			want := ""
			if i > 0 {
				want = string(g[:i])
			}
			if b.Protocol() != want {
				vfFail(t, "%q: protocol %q", g, b.Protocol())
			}
			if want == "" && (b.NetworkAddress() != "" || b.Account() != "" || b.BlockChain() != "" || b.NetworkID() != "" || b.ContractAddress() != "" || ValidateBtpAddress(b) == nil) {
				vfFail(t, "%q: parts without a protocol", g)
			}
			if want != "" {
				f := strings.SplitN(string(g)+"/////", "/", 5)
				if b.NetworkAddress() != f[2] || b.Account() != f[3] {
					vfFail(t, "%q: network %q account %q", g, b.NetworkAddress(), b.Account())
				}
			}
		})
	}
}
