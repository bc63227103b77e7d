// overlay: chain/icon/client
package client

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"golang.org/x/crypto/sha3"
)

// an independent serializer: the text of a value, and whether it has one
func vfSer(v interface{}) (string, bool) {
	switch q := v.(type) {
	case nil:
		return `\0`, true
	case string:
		return vfEsc(q), true
	case float64:
		return strconv.FormatInt(int64(q), 10), true
	case []interface{}:
		var l []string
		for _, e := range q {
			s, ok := vfSer(e)
			if !ok {
				return "", false
			}
			l = append(l, s)
		}
		return "[" + strings.Join(l, ".") + "]", true
	case map[string]interface{}:
		s, ok := vfSerMap(q, nil, nil)
		return "{" + s + "}", ok
	}
	return "", false
}

func vfEsc(s string) string {
	out := ""
	for _, c := range []byte(s) {
		if strings.IndexByte(`\{}[].`, c) >= 0 {
			out += `\`
		}
		out += string([]byte{c})
	}
	return out
}

func vfSerMap(m map[string]interface{}, in, ex map[string]bool) (string, bool) {
	var ks, l []string
	for k := range m {
		if (in == nil || in[k]) && (ex == nil || !ex[k]) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		s, ok := vfSer(m[k])
		if !ok {
			return "", false
		}
		l = append(l, vfEsc(k)+"."+s)
	}
	return strings.Join(l, "."), true
}

var vfAlpha = []string{"a", "b", "B", "0", "1", "_", "-", "~", "!", " ", ".", "\\", "{", "}", "[", "]", "\x00", "\xff", "é", "\n", "\"", "^", "Z", "z", "|", "/", "+", ":"}

func vfStr(r *rand.Rand, min int) string {
	hs := vfStrHints()
	if len(hs) > 0 && r.Intn(8) == 0 {
		if s := hs[r.Intn(len(hs))]; len(s) >= min {
			return string(s)
		}
	}
	s := ""
	for n := min + r.Intn(6); n > 0; n-- {
		if r.Intn(12) == 0 {
			s += string([]byte{byte(r.Intn(256))})
		} else {
			s += vfAlpha[r.Intn(len(vfAlpha))]
		}
	}
	return s
}

func vfVal(r *rand.Rand, d int, bad bool) interface{} {
	k := r.Intn(7)
	if d <= 0 && k >= 5 {
		k = r.Intn(5)
	}
	switch k {
	case 0:
		return nil
	case 1, 2:
		return vfStr(r, 0)
	case 3:
		return float64(r.Intn(2000000) - 1000000)
	case 4:
		if bad {
			return []interface{}{true, int(1), []byte("a"), []string{"a"}, map[string]string{"a": "b"}, json.Number("1"), int64(3), false, map[string]bool{}}[r.Intn(9)]
		}
		return float64(r.Int63n(1 << 52))
	case 5:
		l := []interface{}{}
		for n := r.Intn(5); n > 0; n-- {
			e := vfVal(r, d-1, bad)
			if s, ok := e.(string); ok && s == "" && len(l) == 0 {
				e = "x" // a list that starts with an empty text is outside the property
			}
			l = append(l, e)
		}
		return l
	}
	return vfMap(r, d-1, bad)
}

func vfMap(r *rand.Rand, d int, bad bool) map[string]interface{} {
	m := map[string]interface{}{}
	for n := r.Intn(6); n > 0; n-- {
		k := vfStr(r, 0)
		if r.Intn(3) == 0 && len(m) > 0 {
			for q := range m {
				k = q + vfAlpha[r.Intn(len(vfAlpha))]
				break
			}
		}
		m[k] = vfVal(r, d, bad)
	}
	return m
}

func vfFilter(r *rand.Rand, m map[string]interface{}) map[string]bool {
	if r.Intn(2) == 0 {
		return nil
	}
	f := map[string]bool{}
	for k := range m {
		switch r.Intn(3) {
		case 0:
			f[k] = true
		case 1:
			f[k] = false
		}
	}
	return f
}

func TestVerifSerialize(t *testing.T) {
	r := vfRand()
	for k := 0; k < vfN(20000, 300000); k++ {
		vfCase(t)
		m := vfMap(r, 4, k%3 == 0)
		in, ex := vfFilter(r, m), vfFilter(r, m)
		what := fmt.Sprintf("SerializeMap(%#v, %v, %v)", m, in, ex)
		want, ok := vfSerMap(m, in, ex)
		vfNoPanic(t, what, func() {
			got, err := SerializeMap(m, in, ex)
			if (err == nil) != ok {
				vfFail(t, "%s = error %v, want ok %v", what, err, ok)
			} else if ok && string(got) != want {
				vfFail(t, "%s = %q, want %q", what, got, want)
			}
		})
		if ok {
			b, err := json.Marshal(m)
			if err != nil {
				continue
			}
			var back map[string]interface{}
			if json.Unmarshal(b, &back) != nil {
				continue
			}
			want, ok := vfSerMap(back, in, ex)
			what = fmt.Sprintf("SerializeJSON(%q, %v, %v)", b, in, ex)
			vfNoPanic(t, what, func() {
				got, err := SerializeJSON(b, in, ex)
				if (err == nil) != ok || ok && string(got) != want {
					vfFail(t, "%s = %q %v, want %q %v", what, got, err, want, ok)
				}
			})
		}
		if k < 3 {
			vfSample("%s = %q %v", what, want, ok)
		}
	}
	for _, s := range []string{"", "{", "[]", "1", `"a"`, `{"a":1`, `{"a":1}}`, `nul`, `{"a":True}`} {
		vfNoPanic(t, "SerializeJSON "+s, func() {
			if b, err := SerializeJSON([]byte(s), nil, nil); err == nil {
				vfFail(t, "SerializeJSON(%q) = %q, want an error", s, b)
			}
		})
	}
}

type vfWallet struct {
	seen [][]byte
	sig  []byte
	err  error
}

func (w *vfWallet) Sign(d []byte) ([]byte, error) {
	w.seen = append(w.seen, append([]byte(nil), d...))
	return w.sig, w.err
}
func (w *vfWallet) Address() string { return "hx0000000000000000000000000000000000000001" }

func vfHex(r *rand.Rand, n int) string {
	b := make([]byte, n)
	r.Read(b)
	return hex.EncodeToString(b)
}

func TestVerifSign(t *testing.T) {
	r := vfRand()
	c := &Client{}
	for k := 0; k < vfN(3000, 40000); k++ {
		vfCase(t)
		p := &TransactionParam{
			Version: HexInt("0x3"), FromAddress: Address("hx" + vfHex(r, 20)), ToAddress: Address("cx" + vfHex(r, 20)),
			StepLimit: HexInt("0x" + vfHex(r, 1+r.Intn(5))), NetworkID: HexInt("0x" + vfHex(r, 1)), Timestamp: HexInt("0x1"),
		}
		if r.Intn(2) == 0 {
			p.Value = HexInt("0x" + vfHex(r, 1+r.Intn(8)))
		}
		if r.Intn(2) == 0 {
			p.Nonce = HexInt("0x" + vfHex(r, 1))
		}
		if r.Intn(2) == 0 {
			p.Signature = vfStr(r, 1)
		}
		if r.Intn(2) == 0 {
			p.TxHash = HexBytes("0x" + vfHex(r, 32))
		}
		bad := false
		switch r.Intn(4) {
		case 0:
			p.DataType = "call"
			p.Data = &CallData{Method: "handleRelayMessage", Params: &BMCRelayMethodParams{Prev: "btp://0x1.icon/cx" + vfHex(r, 20), Messages: base64.URLEncoding.EncodeToString(vfBytes(r, r.Intn(200)))}}
		case 1:
			p.DataType, p.Data = "message", "0x"+vfHex(r, r.Intn(20))
		case 2:
			p.DataType, p.Data = "call", vfMap(r, 3, false)
		}
		if r.Intn(20) == 0 {
			bad, p.Data = true, map[string]interface{}{"a": r.Intn(2) == 0}
		}
		w := &vfWallet{sig: vfBytes(r, 65)}
		if r.Intn(10) == 0 {
			w.err = errors.New("refused")
		}
		for round := 0; round < 2; round++ { // the second time with the signature of the first
			before := *p
			n := len(w.seen)
			what := fmt.Sprintf("SignTransaction(%+v) round %d", *p, round)
			t0 := time.Now().UnixNano() / 1000
			vfNoPanic(t, what, func() {
				err := c.SignTransaction(w, p)
				if (err != nil) != (bad || w.err != nil) {
					vfFail(t, "%s = %v", what, err)
					return
				}
				if err != nil {
					return
				}
				ts, e := p.Timestamp.Value()
				if e != nil || ts < t0 || ts > time.Now().UnixNano()/1000 {
					vfFail(t, "%s: timestamp %s, want microseconds from %d on", what, p.Timestamp, t0)
				}
				// the fields as the node reads them
				m := map[string]interface{}{"version": string(before.Version), "from": string(before.FromAddress), "to": string(before.ToAddress),
					"stepLimit": string(before.StepLimit), "nid": string(before.NetworkID), "timestamp": string(p.Timestamp)}
				if before.Value != "" {
					m["value"] = string(before.Value)
				}
				if before.Nonce != "" {
					m["nonce"] = string(before.Nonce)
				}
				if before.DataType != "" {
					m["dataType"] = before.DataType
				}
				if before.Data != nil {
					b, _ := json.Marshal(before.Data)
					var d interface{}
					json.Unmarshal(b, &d)
					m["data"] = d
				}
				txt, _ := vfSerMap(m, nil, nil)
				h := sha3.Sum256([]byte("icx_sendTransaction." + txt))
				if string(p.TxHash) != "0x"+hex.EncodeToString(h[:]) {
					vfFail(t, "%s: hash %s, want %x of %q", what, p.TxHash, h, txt)
				}
				if len(w.seen) != n+1 || !bytes.Equal(w.seen[n], h[:]) {
					vfFail(t, "%s: the wallet signed %x, want %x", what, w.seen[n:], h)
				}
				if p.Signature != base64.StdEncoding.EncodeToString(w.sig) {
					vfFail(t, "%s: signature %s, want that of the wallet %x", what, p.Signature, w.sig)
				}
				q := before
				q.Timestamp, q.Signature, q.TxHash = p.Timestamp, p.Signature, p.TxHash
				if fmt.Sprintf("%+v", q) != fmt.Sprintf("%+v", *p) {
					vfFail(t, "%s changed other fields: %+v", what, *p)
				}
			})
		}
	}
}
