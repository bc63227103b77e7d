// overlay: chain/icon/bridge
package bridge

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"testing"
	"time"

	"github.com/gorilla/websocket"

	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common/codec"
	"github.com/icon-project/btp/common/link"
	"github.com/icon-project/btp/common/log"
	"github.com/icon-project/btp/common/types"
)

// a node which serves BTP blocks
type vfBlock struct {
	height, sn int64
	msgs       [][]byte
}
type vfNode struct {
	start, offset int64
	blocks        []vfBlock
	srv           *httptest.Server
}

func (n *vfNode) header(b vfBlock) []byte {
	return codec.RLP.MustMarshalToBytes(&client.BTPBlockHeader{MainHeight: b.height, NetworkID: 1, UpdateNumber: b.sn<<1 | (b.height & 1), MessageCount: int64(len(b.msgs))})
}

func vfStart(n *vfNode) {
	mux := http.NewServeMux()
	mux.HandleFunc("/api/btp", func(w http.ResponseWriter, r *http.Request) {
		up := websocket.Upgrader{}
		c, err := up.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		defer c.Close()
		var req client.BTPRequest
		if c.ReadJSON(&req) != nil {
			return
		}
		h, _ := req.Height.Value()
		c.WriteJSON(map[string]interface{}{"code": 0})
		for _, b := range n.blocks {
			if b.height >= h {
				if c.WriteJSON(map[string]string{"header": base64.StdEncoding.EncodeToString(n.header(b))}) != nil {
					return
				}
			}
		}
		c.ReadMessage()
	})
	mux.HandleFunc("/api", func(w http.ResponseWriter, r *http.Request) {
		var req struct {
			Method string
			ID     interface{}
			Params struct {
				Height client.HexInt
				Data   struct{ Method string }
			}
		}
		json.NewDecoder(r.Body).Decode(&req)
		var res interface{}
		h, _ := req.Params.Height.Value()
		var blk vfBlock
		for _, b := range n.blocks {
			if b.height == h {
				blk = b
			}
		}
		switch req.Method {
		case "icx_call":
			res = "0x1"
			if req.Params.Data.Method == "getBTPLinkOffset" {
				res = fmt.Sprintf("0x%x", n.offset)
			}
		case "btp_getNetworkInfo":
			res = map[string]string{"startHeight": fmt.Sprintf("0x%x", n.start)}
		case "btp_getMessages":
			l := []string{}
			for _, m := range blk.msgs {
				l = append(l, base64.StdEncoding.EncodeToString(m))
			}
			res = l
		case "btp_getHeader":
			res = base64.StdEncoding.EncodeToString(n.header(blk))
		case "btp_getProof":
			res = base64.StdEncoding.EncodeToString([]byte(fmt.Sprintf("proof%d", h)))
		}
		w.Header().Set("Content-Type", "application/json")
		json.NewEncoder(w).Encode(map[string]interface{}{"jsonrpc": "2.0", "id": req.ID, "result": res})
	})
	n.srv = httptest.NewServer(mux)
}

func vfLimit(r *rand.Rand) int64 {
	switch r.Intn(5) {
	case 0:
		return int64(r.Intn(40)) - 10
	case 1:
		return 1 << 40
	}
	return int64(r.Intn(600))
}

func vfLog() log.Logger {
	l := log.New()
	l.SetLevel(log.PanicLevel)
	return l
}

func vfNext(t *testing.T, c <-chan link.ReceiveStatus) link.ReceiveStatus {
	select {
	case rs := <-c:
		return rs
	case <-time.After(20 * time.Second):
		vfFail(t, "no receive status for a new block")
		return nil
	}
}

func TestVerifBridge(t *testing.T) {
	r := vfRand()
	n := &vfNode{}
	vfStart(n)
	defer n.srv.Close()
	for k := 0; k < vfN(60, 600); k++ {
		vfCase(t)
		h0 := int64(2 + r.Intn(1000))
		n.offset = int64(r.Intn(3) * r.Intn(50))
		n.start = h0 - 5
		n.blocks = nil
		if r.Intn(4) == 0 {
			n.start = h0 - 1
			n.blocks = append(n.blocks, vfBlock{height: h0})
		}
		sn := int64(r.Intn(3) * r.Intn(100)) // first message is number sn of the network, sequence sn+offset+1 of the link
		h := h0
		nb := 1 + r.Intn(5)
		total := int64(0)
		for i := 0; i < nb; i++ {
			b := vfBlock{height: h, sn: sn}
			if n.start == h0-1 {
				b.height++
			}
			h += int64(1 + r.Intn(3))
			for j := r.Intn(9); j > 0; j-- {
				b.msgs = append(b.msgs, vfBytes(r, r.Intn(40)))
			}
			sn += int64(len(b.msgs))
			total += int64(len(b.msgs))
			n.blocks = append(n.blocks, b)
		}
		blocks := n.blocks[len(n.blocks)-nb:]
		last := func(i int) int64 { return n.offset + blocks[i].sn + int64(len(blocks[i].msgs)) }
		// the destination may have a part of the first block already
		bls := &types.BMCLinkStatus{RxSeq: n.offset + blocks[0].sn + int64(r.Intn(len(blocks[0].msgs)+1)), TxSeq: int64(r.Intn(9))}
		tx := bls.TxSeq
		bls.Verifier.Height = h0
		const dst = "btp://0x2.icon/cx02"
		b := NewBridge("btp://0x1.icon/cx0000000000000000000000000000000000000001", dst, n.srv.URL+"/api", vfLog())
		st := *bls
		c, err := b.Start(&st)
		if err != nil {
			vfFail(t, "Start: %v", err)
		}
		for i := range blocks {
			rs := vfNext(t, c)
			if rs.Height() != blocks[i].height || rs.Seq() != last(i) {
				vfFail(t, "block %d with last message %d reported as height %d seq %d", blocks[i].height, last(i), rs.Height(), rs.Seq())
			}
		}
		skip := 0
		if r.Intn(4) == 0 {
			skip = r.Intn(nb)
			if skip > 0 {
				bls.Verifier.Height = blocks[skip-1].height
				bls.RxSeq = last(skip - 1)
			}
		}
		for i := skip; i < nb; i++ {
			bus, err := b.BuildBlockUpdate(bls, 1<<40)
			rest := blocks[i:]
			if bls.Verifier.Height == blocks[i].height && bls.RxSeq == last(i) { // the first block is delivered
				rest = blocks[i+1:]
			}
			if err != nil || len(bus) != len(rest) {
				vfFail(t, "status height %d seq %d: %d block updates for %d blocks (%v)", bls.Verifier.Height, bls.RxSeq, len(bus), len(rest), err)
			}
			for j, bu := range bus {
				if bu.TargetHeight() != rest[j].height || bu.SrcHeight() != bls.Verifier.Height || bu.ProofHeight() != rest[j].height || bu.Type() != link.TypeBlockUpdate {
					vfFail(t, "block update %d of height %d for block %d", j, bu.TargetHeight(), rest[j].height)
				}
			}
			if len(rest) < nb-i {
				continue
			}
			rx := bls.RxSeq
			bus[0].UpdateBMCLinkStatus(bls)
			if bls.Verifier.Height != blocks[i].height || bls.RxSeq != rx || bls.TxSeq != tx {
				vfFail(t, "block update leaves status %+v", *bls)
			}
			for bls.RxSeq < last(i) {
				limit := vfLimit(r)
				mp, err := b.BuildMessageProof(bls, limit)
				if err != nil || mp == nil {
					vfFail(t, "block %d (last %d) at rxSeq %d limit %d: no proof (%v)", blocks[i].height, last(i), bls.RxSeq, limit, err)
				}
				bs, err := b.BuildRelayMessage([]link.RelayMessageItem{bus[0], mp})
				if err != nil {
					vfFail(t, "BuildRelayMessage: %v", err)
				}
				rm, rc, evs := &BridgeRelayMessage{}, &Receipt{}, []*Event{}
				if _, err := codec.RLP.UnmarshalFromBytes(bs, rm); err != nil || len(rm.Receipts) != 1 {
					vfFail(t, "relay message with %d receipts (%v)", len(rm.Receipts), err)
				}
				if _, err := codec.RLP.UnmarshalFromBytes(rm.Receipts[0], rc); err != nil || rc.Height != blocks[i].height {
					vfFail(t, "receipt of height %d in block %d (%v)", rc.Height, blocks[i].height, err)
				}
				if _, err := codec.RLP.UnmarshalFromBytes(rc.Events, &evs); err != nil {
					vfFail(t, "events: %v", err)
				}
				if len(evs) == 0 || mp.LastSeqNum() != bls.RxSeq+int64(len(evs)) || mp.LastSeqNum() > last(i) {
					vfFail(t, "block %d (last %d) at rxSeq %d: proof of %d messages says last %d", blocks[i].height, last(i), bls.RxSeq, len(evs), mp.LastSeqNum())
				}
				for j, e := range evs {
					seq := bls.RxSeq + 1 + int64(j)
					if e.Sequence != seq || e.Next != dst || !bytes.Equal(e.Message, blocks[i].msgs[seq-n.offset-blocks[i].sn-1]) {
						vfFail(t, "block %d: event %+v in place of message %d", blocks[i].height, *e, seq)
					}
				}
				if limit > 1<<39 && mp.LastSeqNum() != last(i) {
					vfFail(t, "block %d (last %d) at rxSeq %d: proof without limit ends at %d", blocks[i].height, last(i), bls.RxSeq, mp.LastSeqNum())
				}
				if mp.StartSeqNum() != bls.RxSeq || mp.Type() != link.TypeMessageProof {
					vfFail(t, "message proof starts at %d, status at %d", mp.StartSeqNum(), bls.RxSeq)
				}
				mp.UpdateBMCLinkStatus(bls)
				if bls.Verifier.Height != blocks[i].height || bls.RxSeq != mp.LastSeqNum() || bls.TxSeq != tx {
					vfFail(t, "message proof up to %d leaves status %+v", mp.LastSeqNum(), *bls)
				}
			}
			if i == nb-1 {
				if mp, err := b.BuildMessageProof(bls, 1<<40); err != nil || mp != nil {
					vfFail(t, "block %d: a proof after the last message (%v)", blocks[i].height, err)
				}
			}
			if hs := b.GetHeightForSeq(bls.RxSeq); rx < last(i) && hs != blocks[i].height {
				vfFail(t, "last message %d of block %d is reported in block %d", bls.RxSeq, blocks[i].height, hs)
			}
		}
	}
}
