// overlay: chain/icon/btp2
package btp2

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"testing"
	"time"

	"github.com/gorilla/websocket"

	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common/codec"
	"github.com/icon-project/btp/common/link"
	"github.com/icon-project/btp/common/log"
	"github.com/icon-project/btp/common/mbt"
	"github.com/icon-project/btp/common/types"
)

// a node which serves BTP blocks
type vfBlock struct {
	height, sn int64
	msgs       [][]byte
}
type vfNode struct {
	start, offset int64
	blocks        []vfBlock
	srv           *httptest.Server
}

func (n *vfNode) header(b vfBlock) []byte {
	return codec.RLP.MustMarshalToBytes(&client.BTPBlockHeader{MainHeight: b.height, NetworkID: 1, UpdateNumber: b.sn<<1 | (b.height & 1), MessageCount: int64(len(b.msgs))})
}

func vfStart(n *vfNode) {
	mux := http.NewServeMux()
	mux.HandleFunc("/api/btp", func(w http.ResponseWriter, r *http.Request) {
		up := websocket.Upgrader{}
		c, err := up.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		defer c.Close()
		var req client.BTPRequest
		if c.ReadJSON(&req) != nil {
			return
		}
		h, _ := req.Height.Value()
		c.WriteJSON(map[string]interface{}{"code": 0})
		for _, b := range n.blocks {
			if b.height >= h {
				if c.WriteJSON(map[string]string{"header": base64.StdEncoding.EncodeToString(n.header(b))}) != nil {
					return
				}
			}
		}
		c.ReadMessage()
	})
	mux.HandleFunc("/api", func(w http.ResponseWriter, r *http.Request) {
		var req struct {
			Method string
			ID     interface{}
			Params struct {
				Height client.HexInt
				Data   struct{ Method string }
			}
		}
		json.NewDecoder(r.Body).Decode(&req)
		var res interface{}
		h, _ := req.Params.Height.Value()
		var blk vfBlock
		for _, b := range n.blocks {
			if b.height == h {
				blk = b
			}
		}
		switch req.Method {
		case "icx_call":
			res = "0x1"
			if req.Params.Data.Method == "getBTPLinkOffset" {
				res = fmt.Sprintf("0x%x", n.offset)
			}
		case "btp_getNetworkInfo":
			res = map[string]string{"startHeight": fmt.Sprintf("0x%x", n.start)}
		case "btp_getMessages":
			l := []string{}
			for _, m := range blk.msgs {
				l = append(l, base64.StdEncoding.EncodeToString(m))
			}
			res = l
		case "btp_getHeader":
			res = base64.StdEncoding.EncodeToString(n.header(blk))
		case "btp_getProof":
			res = base64.StdEncoding.EncodeToString([]byte(fmt.Sprintf("proof%d", h)))
		}
		w.Header().Set("Content-Type", "application/json")
		json.NewEncoder(w).Encode(map[string]interface{}{"jsonrpc": "2.0", "id": req.ID, "result": res})
	})
	n.srv = httptest.NewServer(mux)
}

func vfLimit(r *rand.Rand) int64 {
	switch r.Intn(5) {
	case 0:
		return int64(r.Intn(40)) - 10
	case 1:
		return 1 << 40
	}
	return int64(r.Intn(600))
}

func vfLog() log.Logger {
	l := log.New()
	l.SetLevel(log.PanicLevel)
	return l
}

func vfNext(t *testing.T, c <-chan link.ReceiveStatus) link.ReceiveStatus {
	select {
	case rs := <-c:
		return rs
	case <-time.After(20 * time.Second):
		vfFail(t, "no receive status for a new block")
		return nil
	}
}

func TestVerifBtp2(t *testing.T) {
	r := vfRand()
	n := &vfNode{}
	vfStart(n)
	defer n.srv.Close()
	for k := 0; k < vfN(60, 600); k++ {
		vfCase(t)
		h0 := int64(1 + r.Intn(1000))
		s0 := int64(r.Intn(3) * r.Intn(100))
		n.start = h0 - 5
		if r.Intn(4) == 0 {
			n.start = h0
		}
		n.blocks = nil
		h, sn := h0, s0
		nb := 1 + r.Intn(5)
		if n.start == h0 { // the first block of a network has no message to relay
			n.blocks = append(n.blocks, vfBlock{height: h0 + 1})
			h++
		}
		for i := 0; i < nb; i++ {
			h += int64(1 + r.Intn(3))
			b := vfBlock{height: h, sn: sn}
			for j := r.Intn(9); j > 0; j-- {
				b.msgs = append(b.msgs, vfBytes(r, r.Intn(40)))
			}
			sn += int64(len(b.msgs))
			n.blocks = append(n.blocks, b)
		}
		blocks := n.blocks[len(n.blocks)-nb:]
		bls := &types.BMCLinkStatus{RxSeq: s0, TxSeq: int64(r.Intn(9))}
		bls.Verifier.Height = h0
		tx := bls.TxSeq
		b := NewBTP2("btp://0x1.icon/cx0000000000000000000000000000000000000001", "btp://0x2.icon/cx02", n.srv.URL+"/api", vfLog())
		st := *bls
		c, err := b.Start(&st)
		if err != nil {
			vfFail(t, "Start: %v", err)
		}
		var rss []link.ReceiveStatus
		for i := range blocks {
			rs := vfNext(t, c)
			if rs.Height() != blocks[i].height || rs.Seq() != blocks[i].sn+int64(len(blocks[i].msgs)) {
				vfFail(t, "block %d with messages %d..%d reported as height %d seq %d", blocks[i].height, blocks[i].sn+1, blocks[i].sn+int64(len(blocks[i].msgs)), rs.Height(), rs.Seq())
			}
			rss = append(rss, rs)
		}
		skip := 0
		if r.Intn(4) == 0 { // the destination is ahead: some blocks are delivered already
			skip = r.Intn(nb)
			if skip > 0 {
				bls.Verifier.Height = blocks[skip-1].height
				bls.RxSeq = rss[skip-1].Seq()
			}
		}
		for i := skip; i < nb; i++ {
			bus, err := b.BuildBlockUpdate(bls, 1<<40)
			rest := blocks[i:]
			if err != nil || len(bus) != len(rest) {
				vfFail(t, "status height %d seq %d: %d block updates for %d blocks (%v)", bls.Verifier.Height, bls.RxSeq, len(bus), len(rest), err)
			}
			for j, bu := range bus {
				if bu.TargetHeight() != rest[j].height || bu.SrcHeight() != bls.Verifier.Height || bu.ProofHeight() != rest[j].height || bu.Type() != link.TypeBlockUpdate {
					vfFail(t, "block update %d of height %d for block %d", j, bu.TargetHeight(), rest[j].height)
				}
			}
			items := []link.RelayMessageItem{bus[0]}
			rx := bls.RxSeq
			bus[0].UpdateBMCLinkStatus(bls)
			if bls.Verifier.Height != blocks[i].height || bls.RxSeq != rx || bls.TxSeq != tx {
				vfFail(t, "block update leaves status %+v", *bls)
			}
			full, err := mbt.NewMerkleBinaryTree(mbt.HashFuncByUID("eth"), blocks[i].msgs)
			if err != nil {
				t.Fatal(err)
			}
			first := blocks[i].sn
			for bls.RxSeq < rss[i].Seq() {
				limit := vfLimit(r)
				mp, err := b.BuildMessageProof(bls, limit)
				if err != nil || mp == nil {
					vfFail(t, "block %d (%d..%d) at rxSeq %d limit %d: no proof (%v)", blocks[i].height, first+1, rss[i].Seq(), bls.RxSeq, limit, err)
				}
				p := &mbt.MerkleBinaryTreeProof{}
				if _, err := codec.RLP.UnmarshalFromBytes(mp.(*MessageProof).Payload(), p); err != nil {
					vfFail(t, "payload: %v", err)
				}
				p.SetHashFunc(mbt.HashFuncByUID("eth"))
				root, left, total, err := p.Root()
				if err != nil || !bytes.Equal(root, full.Root()) || total != len(blocks[i].msgs) || int64(left) != bls.RxSeq-first {
					vfFail(t, "block %d at rxSeq %d: proof starts at message %d of %d (%v)", blocks[i].height, bls.RxSeq, left, total, err)
				}
				if len(p.Contents) == 0 || mp.LastSeqNum() != bls.RxSeq+int64(len(p.Contents)) || mp.LastSeqNum() > rss[i].Seq() {
					vfFail(t, "block %d (%d..%d) at rxSeq %d: proof of %d messages says last %d", blocks[i].height, first+1, rss[i].Seq(), bls.RxSeq, len(p.Contents), mp.LastSeqNum())
				}
				for j, m := range p.Contents {
					if !bytes.Equal(m, blocks[i].msgs[left+j]) {
						vfFail(t, "block %d: message %d is %x", blocks[i].height, left+j, m)
					}
				}
				if limit > 1<<39 && mp.LastSeqNum() != rss[i].Seq() {
					vfFail(t, "block %d (%d..%d) at rxSeq %d: proof without limit ends at %d", blocks[i].height, first+1, rss[i].Seq(), bls.RxSeq, mp.LastSeqNum())
				}
				if mp.StartSeqNum() != bls.RxSeq || mp.Len() != int64(len(mp.(*MessageProof).Payload())) || mp.Type() != link.TypeMessageProof {
					vfFail(t, "message proof starts at %d, status at %d", mp.StartSeqNum(), bls.RxSeq)
				}
				items = append(items, mp)
				mp.UpdateBMCLinkStatus(bls)
				if bls.Verifier.Height != blocks[i].height || bls.RxSeq != mp.LastSeqNum() || bls.TxSeq != tx {
					vfFail(t, "message proof up to %d leaves status %+v", mp.LastSeqNum(), *bls)
				}
			}
			if mp, err := b.BuildMessageProof(bls, 1<<40); err != nil || mp != nil {
				vfFail(t, "block %d: a proof after the last message (%v)", blocks[i].height, err)
			}
			if hs := b.GetHeightForSeq(bls.RxSeq); len(blocks[i].msgs) > 0 && hs != blocks[i].height {
				vfFail(t, "last message %d of block %d is reported in block %d", bls.RxSeq, blocks[i].height, hs)
			}
			bs, err := b.BuildRelayMessage(items)
			if err != nil {
				vfFail(t, "BuildRelayMessage: %v", err)
			}
			rm := &BTPRelayMessage{}
			if _, err := codec.RLP.UnmarshalFromBytes(bs, rm); err != nil || len(rm.Messages) != len(items) {
				vfFail(t, "relay message of %d items: %d (%v)", len(items), len(rm.Messages), err)
			}
			for j, it := range items {
				want, typ := []byte(nil), RelayMessageTypeMessageProof
				if j == 0 {
					want, typ = it.(*blockUpdate).Payload(), RelayMessageTypeBlockUpdate
					u := &client.BTPBlockUpdate{}
					if _, err := codec.RLP.UnmarshalFromBytes(want, u); err != nil || !bytes.Equal(u.BTPBlockHeader, n.header(blocks[i])) || string(u.BTPBlockProof) != fmt.Sprintf("proof%d", blocks[i].height) {
						vfFail(t, "block update of %d carries another header or proof (%v)", blocks[i].height, err)
					}
				} else {
					want = it.(*MessageProof).Payload()
				}
				if rm.Messages[j].Type != typ || !bytes.Equal(rm.Messages[j].Payload, want) {
					vfFail(t, "relay message item %d has type %d or another payload", j, rm.Messages[j].Type)
				}
			}
		}
	}
}
