// overlay: chain/ethbr
package ethbr

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	ethtypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"

	"github.com/icon-project/btp/chain/ethbr/binding"
	"github.com/icon-project/btp/chain/ethbr/client"
	"github.com/icon-project/btp/common/log"
	"github.com/icon-project/btp/common/types"
)

type vfEth struct {
	sync.Mutex
	tx      map[string]interface{}
	receipt interface{}
	revert  string
	noerr   bool
	status  string
	fail    bool
	getStat string
	noRcpt  bool
	pending int
}

func (n *vfEth) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	n.Lock()
	defer n.Unlock()
	var jr struct {
		ID     interface{}
		Method string
		Params []json.RawMessage
	}
	json.NewDecoder(q.Body).Decode(&jr)
	w.Header().Set("Content-Type", "application/json")
	out := map[string]interface{}{"jsonrpc": "2.0", "id": jr.ID}
	bad := func(m string) { out["error"] = map[string]interface{}{"code": 3, "message": m} }
	switch jr.Method {
	case "eth_chainId":
		out["result"] = "0x1"
	case "eth_getTransactionByHash":
		m := map[string]interface{}{}
		for k, v := range n.tx {
			m[k] = v
		}
		if n.pending > 0 {
			n.pending--
			delete(m, "blockNumber")
			delete(m, "blockHash")
		}
		out["result"] = m
	case "eth_getTransactionReceipt":
		if n.noRcpt || n.pending > 0 {
			bad("no receipt")
		} else {
			out["result"] = n.receipt
		}
	case "eth_call":
		if strings.Contains(string(jr.Params[0]), n.getStat) {
			if n.fail {
				bad("no status")
			} else {
				out["result"] = n.status
			}
		} else if n.noerr {
			out["result"] = "0x"
		} else {
			bad(n.revert)
		}
	}
	json.NewEncoder(w).Encode(out)
}

type vfW struct{}

func (vfW) Sign(data []byte) ([]byte, error) { return nil, nil }
func (vfW) Address() string                  { return "0x00" }

func TestVerifEthResult(t *testing.T) {
	r := vfRand()
	n := &vfEth{}
	srv := httptest.NewServer(n)
	defer srv.Close()
	l := log.New()
	l.SetLevel(log.PanicLevel)
	a, err := abi.JSON(strings.NewReader(binding.BMCABI))
	if err != nil {
		t.Fatal(err)
	}
	n.getStat = hex.EncodeToString(a.Methods["getStatus"].ID)
	key, _ := crypto.ToECDSA(common.LeftPadBytes([]byte{7}, 32))
	to := common.HexToAddress("0x01")
	tx, err := ethtypes.SignTx(ethtypes.NewTransaction(1, to, big.NewInt(0), 21000, big.NewInt(1), []byte{1, 2, 3, 4}), ethtypes.NewEIP155Signer(big.NewInt(1)), key)
	if err != nil {
		t.Fatal(err)
	}
	b, _ := tx.MarshalJSON()
	json.Unmarshal(b, &n.tx)
	n.tx["blockNumber"] = "0x1"
	n.tx["blockHash"] = common.Hash{1}.Hex()
	n.tx["from"] = crypto.PubkeyToAddress(key.PublicKey).Hex()
	s := NewSender("btp://0x1.icon/cx01", "btp://0x2.eth/0x0000000000000000000000000000000000000001", vfW{}, srv.URL, nil, l).(*sender)
	for k := 0; k < vfN(300, 3000); k++ {
		vfCase(t)
		ok := r.Intn(3) == 0
		st := uint64(0)
		if ok {
			st = 1
		}
		want := -1
		text := ""
		switch r.Intn(6) {
		case 0:
			text, want = "execution reverted", 25
		case 1:
			text, want = "execution reverted: x", 25
		case 2:
			text = fmt.Sprintf("execution reverted: x%d: m", r.Intn(50))
		case 3:
			c := -1 - r.Intn(50)
			text = fmt.Sprintf("execution reverted: %d: m", c)
		default:
			want = r.Intn(80)
			text = "execution reverted: " + strconv.Itoa(want) + ": m" + []string{"", ": more"}[r.Intn(2)]
		}
		stats := binding.TypesLinkStats{RxSeq: big.NewInt(r.Int63()), TxSeq: big.NewInt(r.Int63()), Verifier: binding.TypesVerifierStats{Height: big.NewInt(r.Int63()), Extra: vfBytes(r, r.Intn(5))}, CurrentHeight: big.NewInt(1)}
		packed, err := a.Methods["getStatus"].Outputs.Pack(stats)
		if err != nil {
			t.Fatal(err)
		}
		rc, _ := (&ethtypes.Receipt{Status: st, TxHash: tx.Hash(), Logs: []*ethtypes.Log{}}).MarshalJSON()
		n.Lock()
		n.receipt = json.RawMessage(rc)
		n.revert = text
		n.noerr = r.Intn(8) == 0
		n.noRcpt = r.Intn(8) == 0
		if k%100 == 50 {
			n.pending, n.noRcpt = 2, false
		}
		n.status = "0x" + hex.EncodeToString(packed)
		n.fail = r.Intn(4) == 0
		n.Unlock()
		if ok || n.noerr || n.noRcpt {
			want = -1
		}
		id := r.Intn(1000)
		what := fmt.Sprintf("transaction status %d, revert message %q (none: %v, no receipt: %v), message %d", st, text, n.noerr, n.noRcpt, id)
		vfNoPanic(t, what, func() {
			res, err := s.GetResult(&client.TransactionHashParam{Hash: tx.Hash()})
			if (err == nil) != (ok && !n.noRcpt) || err == nil && res == nil {
				vfFail(t, "%s: error %v", what, err)
			}
		})
		done := make(chan bool)
		var got []types.SenderMessage
		go func() {
			defer close(done)
			vfNoPanic(t, what, func() { s.result(id, &client.TransactionHashParam{Hash: tx.Hash()}) })
		}()
	loop:
		for {
			select {
			case m := <-s.sc:
				got = append(got, m)
			case <-done:
				break loop
			case <-time.After(20 * time.Second):
				vfFail(t, "%s: no result", what)
			}
		}
		if want >= 0 {
			if len(got) == 0 {
				vfFail(t, "%s: no relay result", what)
			}
			rr, is := got[0].(*types.RelayResult)
			if !is || rr.Id != id || int(rr.Err) != want {
				vfFail(t, "%s: relay result %+v", what, got[0])
			}
			got = got[1:]
		}
		for i, m := range got {
			b, is := m.(*types.BMCLinkStatus)
			if !is || i > 0 || b == nil || n.fail {
				vfFail(t, "%s: link was sent %T %+v", what, m, m)
			}
			if b.TxSeq != stats.TxSeq.Int64() || b.RxSeq != stats.RxSeq.Int64() || b.Verifier.Height != stats.Verifier.Height.Int64() || hex.EncodeToString(b.Verifier.Extra) != hex.EncodeToString(stats.Verifier.Extra) {
				vfFail(t, "status %+v was read as %+v", stats, *b)
			}
		}
		if !n.fail && len(got) == 0 {
			vfFail(t, "%s: no status", what)
		}
	}
}
