// overlay: chain/icon
package icon

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"sync"
	"testing"
	"time"

	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common/errors"
	"github.com/icon-project/btp/common/jsonrpc"
	"github.com/icon-project/btp/common/log"
	"github.com/icon-project/btp/common/types"
)

type vfWallet struct{}

func (vfWallet) Sign(data []byte) ([]byte, error) { return make([]byte, 65), nil }
func (vfWallet) Address() string                  { return "hx0000000000000000000000000000000000000001" }

func TestVerifMap(t *testing.T) {
	r := vfRand()
	for k := 0; k < vfN(5000, 50000); k++ {
		vfCase(t)
		var err error
		switch r.Intn(6) {
		case 0:
			err = fmt.Errorf("e")
		case 1:
			err = &jsonrpc.Error{Code: jsonrpc.ErrorCode(-31000 - r.Intn(9)), Message: []string{"", "E", "E2000", "E2000:dup", "E2002:x", "E2003", "E2004", "xxxxxxx"}[r.Intn(8)]}
		case 2:
			err = errors.Errorc(errors.Code(r.Intn(100)), "c")
		}
		var txr *client.TransactionResult
		code := int64(r.Intn(140) - 20)
		text := client.HexInt(fmt.Sprintf("%#x", code))
		if code < 0 {
			text = client.HexInt(fmt.Sprintf("-%#x", -code))
		}
		if r.Intn(8) == 0 {
			text, code = []client.HexInt{"zz", "0xzz", "0x2g", "x20"}[r.Intn(4)], 0
		}
		want, ok := int64(-1), true
		if r.Intn(8) != 0 {
			txr = &client.TransactionResult{Status: []client.HexInt{"0x0", "0x1", "0x0", "0x2", "", "0x10", "1"}[r.Intn(7)]}
			if r.Intn(5) != 0 {
				b, _ := json.Marshal(map[string]interface{}{"code": text, "message": "m"})
				json.Unmarshal([]byte(`{"failure":`+string(b)+`}`), txr)
			}
			if txr.Status != "0x1" {
				ok = false
				if txr.Failure != nil && code >= 32 && code <= 99 {
					want = code - 32
				}
			}
		}
		what := fmt.Sprintf("result %+v failure code %s error %v", txr, text, err)
		vfNoPanic(t, what, func() {
			e := mapErrorWithTransactionResult(txr, err)
			if (e == nil) != (err == nil && ok) {
				vfFail(t, "%s: %v", what, e)
			}
			if err == nil && !ok {
				c, has := errors.CoderOf(e)
				if has != (want >= 0) || has && int64(c.ErrorCode()) != want {
					vfFail(t, "%s: error %v, want code %d", what, e, want)
				}
			}
			if m := client.MapError(err); (m == nil) != (err == nil) {
				vfFail(t, "error %v is mapped to %v", err, m)
			}
		})
		c := r.Intn(120)
		if e := client.NewRevertError(c); e == nil || errors.CodeOf(e) != errors.Code(c) {
			vfFail(t, "revert error of %d: %v", c, e)
		}
	}
}

type vfNode struct {
	sync.Mutex
	result, status interface{}
	pending        int
	fail           bool
}

func (n *vfNode) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	n.Lock()
	defer n.Unlock()
	var jr jsonrpc.Request
	json.NewDecoder(q.Body).Decode(&jr)
	w.Header().Set("Content-Type", "application/json")
	switch jr.Method {
	case "icx_getTransactionResult":
		if n.pending > 0 {
			n.pending--
			w.WriteHeader(400)
			fmt.Fprintf(w, `{"jsonrpc":"2.0","id":1,"error":{"code":%d,"message":"pending"}}`, -31002-n.pending%2)
			return
		}
		json.NewEncoder(w).Encode(map[string]interface{}{"jsonrpc": "2.0", "id": 1, "result": n.result})
	case "icx_call":
		if n.fail {
			w.WriteHeader(500)
			return
		}
		json.NewEncoder(w).Encode(map[string]interface{}{"jsonrpc": "2.0", "id": 1, "result": n.status})
	}
}

func vfHex(v int64) string {
	if v < 0 {
		return fmt.Sprintf("-%#x", -v)
	}
	return fmt.Sprintf("%#x", v)
}

func TestVerifResult(t *testing.T) {
	r := vfRand()
	n := &vfNode{}
	srv := httptest.NewServer(n)
	defer srv.Close()
	l := log.New()
	l.SetLevel(log.PanicLevel)
	s := NewSender("btp://0x1.icon/cx01", "btp://0x2.icon/cx02", vfWallet{}, srv.URL, nil, l).(*sender)
	for k := 0; k < vfN(300, 3000); k++ {
		vfCase(t)
		code := int64(r.Intn(140))
		ok := r.Intn(3) == 0
		res := map[string]interface{}{"status": "0x1"}
		if !ok {
			res["status"] = "0x0"
			if r.Intn(6) != 0 {
				res["failure"] = map[string]interface{}{"code": vfHex(code), "message": "m"}
			} else {
				code = 0
			}
		}
		tx, rx, h := r.Int63n(1<<40), r.Int63n(1<<40), r.Int63n(1<<40)
		extra := vfBytes(r, r.Intn(5))
		n.Lock()
		n.result = res
		n.status = map[string]interface{}{"tx_seq": vfHex(tx), "rx_seq": vfHex(rx), "verifier": map[string]interface{}{"height": vfHex(h), "extra": "0x" + hex.EncodeToString(extra)}}
		n.fail = r.Intn(4) == 0
		n.pending = 0
		if k%100 == 50 {
			n.pending = 2
		}
		n.Unlock()
		id := r.Intn(1000)
		what := fmt.Sprintf("result %v of message %d (status unavailable: %v)", res, id, n.fail)
		done := make(chan bool)
		var got []types.SenderMessage
		go func() {
			defer close(done)
			vfNoPanic(t, what, func() { s.result(id, &client.TransactionHashParam{Hash: "0x01"}) })
		}()
	loop:
		for {
			select {
			case m := <-s.sc:
				got = append(got, m)
			case <-done:
				break loop
			case <-time.After(20 * time.Second):
				vfFail(t, "%s: no result", what)
			}
		}
		if !ok && code >= 32 && code <= 99 {
			if len(got) == 0 {
				vfFail(t, "%s: no relay result", what)
			}
			rr, is := got[0].(*types.RelayResult)
			if !is || rr.Id != id || int64(rr.Err) != code-32 {
				vfFail(t, "%s: relay result %+v", what, got[0])
			}
			got = got[1:]
		}
		for i, m := range got {
			b, is := m.(*types.BMCLinkStatus)
			if !is || i > 0 || b == nil || n.fail {
				vfFail(t, "%s: link was sent %T %+v", what, m, m)
			}
			if b.TxSeq != tx || b.RxSeq != rx || b.Verifier.Height != h || hex.EncodeToString(b.Verifier.Extra) != hex.EncodeToString(extra) {
				vfFail(t, "status tx %d rx %d height %d extra %x was read as %+v", tx, rx, h, extra, *b)
			}
		}
		if !n.fail && len(got) == 0 {
			vfFail(t, "%s: no status", what)
		}
	}
}
