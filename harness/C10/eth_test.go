// overlay: chain/ethbr
package ethbr

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/ethereum/go-ethereum/rlp"

	"github.com/icon-project/btp/chain/ethbr/client"
	"github.com/icon-project/btp/common/codec"
	"github.com/icon-project/btp/common/link"
	"github.com/icon-project/btp/common/log"
	"github.com/icon-project/btp/common/types"
)

func TestVerifEthbr(t *testing.T) {
	r := vfRand()
	l := log.New()
	l.SetLevel(log.PanicLevel)
	const dst = types.BtpAddress("btp://0x2.icon/cx02")
	for k := 0; k < vfN(2000, 20000); k++ {
		vfCase(t)
		b := NewEthBridge("btp://0x1.eth/0x01", dst, "http://127.0.0.1:1", l)
		h, seq := int64(1+r.Intn(1000)), int64(r.Intn(3)*r.Intn(100))
		bls := &types.BMCLinkStatus{RxSeq: seq, TxSeq: int64(r.Intn(9))}
		bls.Verifier.Height = h
		tx := bls.TxSeq
		nb := 1 + r.Intn(4)
		type ev struct {
			e     *client.Event
			index int64
		}
		var blocks [][]ev
		var rss []link.ReceiveStatus
		for i := 0; i < nb; i++ {
			h += int64(1 + r.Intn(3))
			var rps []*client.ReceiptProof
			var evs []ev
			idx := int64(0)
			for j := 1 + r.Intn(4); j > 0; j-- {
				idx += int64(1 + r.Intn(3))
				rp := &client.ReceiptProof{Index: idx, Height: h}
				for m := 1 + r.Intn(4); m > 0; m-- {
					seq++
					e := &client.Event{Next: dst, Sequence: big.NewInt(seq), Message: vfBytes(r, 1+r.Intn(30))}
					rp.Events = append(rp.Events, e)
					evs = append(evs, ev{e, idx})
				}
				rps = append(rps, rp)
			}
			rs, err := newReceiveStatus(h, seq, rps)
			if err != nil || rs.Height() != h || rs.Seq() != seq {
				vfFail(t, "status of height %d seq %d: %d %d", h, seq, rs.Height(), rs.Seq())
			}
			b.rss = append(b.rss, rs)
			rss = append(rss, rs)
			blocks = append(blocks, evs)
		}
		skip := 0
		if r.Intn(4) == 0 {
			skip = r.Intn(nb)
			if skip > 0 {
				bls.Verifier.Height = rss[skip-1].Height()
				bls.RxSeq = rss[skip-1].Seq()
			}
		}
		if r.Intn(3) == 0 { // a part of the block is delivered already
			bls.RxSeq += int64(r.Intn(len(blocks[skip])))
		}
		vfNoPanic(t, "ethbr", func() {
			for i := skip; i < nb; i++ {
				last := rss[i].Seq()
				first := last - int64(len(blocks[i]))
				bus, err := b.BuildBlockUpdate(bls, 1<<40)
				if err != nil || len(bus) != nb-i {
					vfFail(t, "status height %d seq %d: %d block updates for %d blocks (%v)", bls.Verifier.Height, bls.RxSeq, len(bus), nb-i, err)
				}
				for j, bu := range bus {
					if bu.TargetHeight() != rss[i+j].Height() || bu.SrcHeight() != bls.Verifier.Height || bu.Type() != link.TypeBlockUpdate {
						vfFail(t, "block update %d of height %d for block %d", j, bu.TargetHeight(), rss[i+j].Height())
					}
				}
				rx := bls.RxSeq
				bus[0].UpdateBMCLinkStatus(bls)
				if bls.Verifier.Height != rss[i].Height() || bls.RxSeq != rx || bls.TxSeq != tx {
					vfFail(t, "block update leaves status %+v", *bls)
				}
				for bls.RxSeq < last {
					limit := []int64{0, -5, 1 << 40, int64(r.Intn(100)), int64(r.Intn(40))}[r.Intn(5)]
					mp, err := b.BuildMessageProof(bls, limit)
					if err != nil || mp == nil {
						vfFail(t, "block %d (%d..%d) at rxSeq %d limit %d: no proof (%v)", rss[i].Height(), first+1, last, bls.RxSeq, limit, err)
					}
					bs, err := b.BuildRelayMessage([]link.RelayMessageItem{bus[0], mp})
					if err != nil {
						vfFail(t, "BuildRelayMessage: %v", err)
					}
					rm := &client.RelayMessage{}
					if _, err := codec.RLP.UnmarshalFromBytes(bs, rm); err != nil {
						vfFail(t, "relay message: %v", err)
					}
					var got []ev
					for _, rb := range rm.Receipts {
						rc := &client.Receipt{}
						if _, err := codec.RLP.UnmarshalFromBytes(rb, rc); err != nil || rc.Height != rss[i].Height() {
							vfFail(t, "receipt of height %d in block %d (%v)", rc.Height, rss[i].Height(), err)
						}
						var evs []*client.Event
						if err := rlp.DecodeBytes(rc.Events, &evs); err != nil {
							vfFail(t, "events: %v", err)
						}
						for _, e := range evs {
							got = append(got, ev{e, rc.Index})
						}
					}
					if len(got) == 0 || mp.LastSeqNum() != bls.RxSeq+int64(len(got)) || mp.LastSeqNum() > last {
						vfFail(t, "block %d (%d..%d) at rxSeq %d limit %d: proof of %d messages says last %d", rss[i].Height(), first+1, last, bls.RxSeq, limit, len(got), mp.LastSeqNum())
					}
					for j, g := range got {
						w := blocks[i][bls.RxSeq-first+int64(j)]
						if g.index != w.index || g.e.Sequence.Cmp(w.e.Sequence) != 0 || g.e.Next != w.e.Next || !bytes.Equal(g.e.Message, w.e.Message) {
							vfFail(t, "block %d: event %+v of receipt %d in place of %+v of receipt %d", rss[i].Height(), *g.e, g.index, *w.e, w.index)
						}
					}
					if limit > 1<<39 && mp.LastSeqNum() != last {
						vfFail(t, "block %d (%d..%d) at rxSeq %d: proof without limit ends at %d", rss[i].Height(), first+1, last, bls.RxSeq, mp.LastSeqNum())
					}
					if mp.StartSeqNum() != bls.RxSeq || mp.Type() != link.TypeMessageProof {
						vfFail(t, "message proof starts at %d, status at %d", mp.StartSeqNum(), bls.RxSeq)
					}
					mp.UpdateBMCLinkStatus(bls)
					if bls.Verifier.Height != rss[i].Height() || bls.RxSeq != mp.LastSeqNum() || bls.TxSeq != tx {
						vfFail(t, "message proof up to %d leaves status %+v", mp.LastSeqNum(), *bls)
					}
				}
				if i == nb-1 {
					if mp, err := b.BuildMessageProof(bls, 1<<40); err != nil || mp != nil {
						vfFail(t, "block %d: a proof after the last message (%v)", rss[i].Height(), err)
					}
				}
				if hs := b.GetHeightForSeq(bls.RxSeq); hs != rss[i].Height() {
					vfFail(t, "last message %d of block %d is reported in block %d", bls.RxSeq, rss[i].Height(), hs)
				}
			}
		})
	}
}
