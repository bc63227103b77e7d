//overlay: chain/icon
package icon

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"sync"
	"testing"
	"time"

	"github.com/icon-project/btp/common/log"
	"github.com/icon-project/btp/common/types"
)

type vfWallet struct{}

func (vfWallet) Sign(data []byte) ([]byte, error) { return make([]byte, 65), nil }
func (vfWallet) Address() string                  { return "hx0000000000000000000000000000000000000001" }

type vfRM struct{ b []byte }

func (r vfRM) Id() int       { return 7 }
func (r vfRM) Bytes() []byte { return r.b }
func (r vfRM) Size() int64   { return int64(len(r.b)) }

type vfTx struct {
	To     string `json:"to"`
	Nid    string `json:"nid"`
	Data   struct {
		Method string `json:"method"`
		Params struct {
			Prev string `json:"_prev"`
			Msg  string `json:"_msg"`
			Idx  string `json:"_idx"`
		} `json:"params"`
	} `json:"data"`
	hash string
}

// vfNode is an ICON node that accepts, delays or rejects transactions by script.
type vfNode struct {
	mu     sync.Mutex
	script []string // per request: ok, overflow, expired, dup, fail
	n      int
	acc    []vfTx
	polled []string
}

func (nd *vfNode) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	nd.mu.Lock()
	defer nd.mu.Unlock()
	b, _ := io.ReadAll(r.Body)
	var q struct {
		ID     interface{}     `json:"id"`
		Method string          `json:"method"`
		Params json.RawMessage `json:"params"`
	}
	json.Unmarshal(b, &q)
	w.Header().Set("Content-Type", "application/json")
	reply := func(res interface{}, code int, msg string) {
		m := map[string]interface{}{"jsonrpc": "2.0", "id": q.ID}
		if code != 0 {
			m["error"] = map[string]interface{}{"code": code, "message": msg}
		} else {
			m["result"] = res
		}
		json.NewEncoder(w).Encode(m)
	}
	switch q.Method {
	case "icx_sendTransaction":
		var tx vfTx
		json.Unmarshal(q.Params, &tx)
		act := "ok"
		if nd.n < len(nd.script) {
			act = nd.script[nd.n]
		}
		nd.n++
		tx.hash = fmt.Sprintf("0x%064x", nd.n)
		switch act {
		case "ok":
			nd.acc = append(nd.acc, tx)
			reply(tx.hash, 0, "")
		case "overflow":
			reply(nil, -31001, "E2001:TransactionPoolOverflow")
		case "expired":
			reply(nil, -31000, "E2002:Expired")
		case "dup":
			tx.hash = "dup"
			nd.acc = append(nd.acc, tx)
			reply(nil, -31000, "E2000:Duplicate")
		case "short":
			reply(nil, -31000, "E20")
		default:
			reply(nil, -31000, "E2005:Invalid")
		}
	case "icx_getTransactionResult":
		var p struct {
			Hash string `json:"txHash"`
		}
		json.Unmarshal(q.Params, &p)
		nd.polled = append(nd.polled, p.Hash)
		reply(map[string]interface{}{"status": "0x1"}, 0, "")
	case "icx_call":
		reply(map[string]interface{}{"tx_seq": "0x0", "rx_seq": "0x0", "verifier": map[string]interface{}{"height": "0x1", "extra": "0x"}}, 0, "")
	}
}

const (
	vfSrc = types.BtpAddress("btp://0x1.eth/0x00000000000000000000000000000000000000aa")
	vfDst = types.BtpAddress("btp://0x7.icon/cx00000000000000000000000000000000000000bb")
)

func vfRelayCase(t *testing.T, msg []byte, script []string) {
	nd := &vfNode{script: script}
	sv := httptest.NewServer(nd)
	defer sv.Close()
	l := log.New()
	l.SetLevel(log.PanicLevel)
	s := NewSender(vfSrc, vfDst, vfWallet{}, sv.URL, map[string]interface{}{}, l)
	ch, err := s.Start()
	if err != nil {
		vfFail(t, "start: %v", err)
	}
	desc := fmt.Sprintf("message of %d bytes, node script %v", len(msg), script)
	orig := append([]byte(nil), msg...)
	var id int
	vfNoPanic(t, desc, func() { id, err = s.Relay(vfRM{msg}) })
	vfCase(t)
	if !bytes.Equal(orig, msg) {
		vfFail(t, "%s: the relay message was changed", desc)
	}
	nd.mu.Lock()
	acc := append([]vfTx(nil), nd.acc...)
	nd.mu.Unlock()
	var joined []byte
	n := len(acc)
	for i, tx := range acc {
		p, e := base64.URLEncoding.DecodeString(tx.Data.Params.Msg)
		if e != nil {
			vfFail(t, "%s: transaction %d carries no base64 payload: %v", desc, i, e)
		}
		joined = append(joined, p...)
		if len(tx.Data.Params.Msg) > txMaxDataSize {
			vfFail(t, "%s: transaction %d carries %d bytes of encoded payload", desc, i, len(tx.Data.Params.Msg))
		}
		if tx.Data.Params.Prev != string(vfSrc) || tx.To != "cx00000000000000000000000000000000000000bb" || tx.Nid != "0x7" {
			vfFail(t, "%s: transaction %d goes to %s nid %s for %s", desc, i, tx.To, tx.Nid, tx.Data.Params.Prev)
		}
	}
	idx := func(tx vfTx) string { return tx.Data.Params.Idx }
	if err != nil {
		if n > 0 && (acc[n-1].Data.Method != "handleFragment" || idx(acc[n-1]) == "0x0") {
			vfFail(t, "%s: reported as failed (%v) but delivered", desc, err)
		}
		fails := false
		for _, a := range script {
			if a == "fail" || a == "short" {
				fails = true
			}
		}
		if !fails {
			vfFail(t, "%s: %v", desc, err)
		}
	} else {
		if n == 0 {
			vfFail(t, "%s: no transaction and no error", desc)
		}
		if n == 1 {
			if acc[0].Data.Method != "handleRelayMessage" {
				vfFail(t, "%s: one transaction, method %s", desc, acc[0].Data.Method)
			}
		} else {
			for i, tx := range acc {
				want := fmt.Sprintf("0x%x", n-1-i)
				if i == 0 {
					want = fmt.Sprintf("-0x%x", n-1)
				}
				if tx.Data.Method != "handleFragment" || idx(tx) != want {
					vfFail(t, "%s: transaction %d of %d is %s with index %s, expected %s", desc, i, n, tx.Data.Method, idx(tx), want)
				}
			}
		}
		if !bytes.Equal(joined, orig) {
			vfFail(t, "%s: the payloads of %d transactions join to %d other bytes", desc, n, len(joined))
		}
		if id != 7 {
			vfFail(t, "%s: id %d", desc, id)
		}
		select {
		case <-ch:
		case <-time.After(10 * time.Second):
			vfFail(t, "%s: no result", desc)
		}
		nd.mu.Lock()
		h := ""
		if len(nd.polled) > 0 {
			h = nd.polled[0]
		}
		nd.mu.Unlock()
		if last := acc[n-1].hash; (last != "dup" && h != last) || len(h) != 66 {
			vfFail(t, "%s: the result of transaction %q was asked, the last one is %q", desc, h, last)
		}
	}
}

func vfPayload(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func TestVerifFragments(t *testing.T) {
	r := vfRand()
	lim := NewSender(vfSrc, vfDst, vfWallet{}, "http://127.0.0.1:1", map[string]interface{}{}, log.New()).TxSizeLimit()
	sizes := []int{0, 1, 1000, lim - 1, lim, lim + 1, 2*lim - 1, 2 * lim, 2*lim + 1, 3*lim + 77, 4 * lim}
	if vfThorough() {
		sizes = append(sizes, 9*lim+3, 10*lim, 17*lim-1)
		for i := 0; i < 40; i++ {
			sizes = append(sizes, r.Intn(6*lim))
		}
	}
	for _, h := range vfHints() {
		if h.IsInt64() && h.Sign() > 0 && h.Cmp(big.NewInt(int64(8*lim))) < 0 {
			k := int(h.Int64())
			sizes = append(sizes, k)
		}
	}
	done := map[int]bool{}
	for _, n := range sizes {
		if !done[n] {
			done[n] = true
			vfRelayCase(t, vfPayload(r, n), nil)
		}
	}
	vfSample("limit %d, sizes %v", lim, sizes)
	// faults at each transaction of a four-fragment delivery
	big4 := vfPayload(r, 3*lim+5)
	for k := 0; k < 4; k++ {
		for _, f := range []string{"fail", "expired", "dup", "short"} {
			sc := []string{"ok", "ok", "ok", "ok"}
			sc[k] = f
			vfRelayCase(t, big4, sc)
		}
	}
	small := vfPayload(r, 100)
	for _, sc := range [][]string{{"fail"}, {"expired", "expired", "ok"}, {"dup"}, {"short"}, {"overflow", "expired", "ok"}, {"overflow", "fail"}} {
		vfRelayCase(t, small, sc)
	}
	if vfThorough() {
		for i := 0; i < 30; i++ {
			var sc []string
			for k := 0; k < 5; k++ {
				sc = append(sc, []string{"ok", "ok", "expired", "fail", "dup", "overflow"}[r.Intn(6)])
			}
			vfRelayCase(t, vfPayload(r, r.Intn(4*lim)), sc)
		}
	}
}
