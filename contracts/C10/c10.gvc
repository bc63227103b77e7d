property C10

extern (common/codec.bytesWrapper).MarshalToBytes(c, v) (r, err)
  note deterministic encoding (property C03)
  ensures err == nil ==> dt(r) == rlp(v)
extern (common/codec.bytesWrapper).MustMarshalToBytes(c, v) (r)
  note deterministic encoding (property C03)
  ensures dt(r) == rlp(v)
extern (*encoding/base64.Encoding).DecodeString(e, s) (r, err)
  note standard library: deterministic; the receivers only use StdEncoding
  ensures err == nil ==> dt(r) == b64std(s)

// ---- bridge
func chain/icon/bridge.newReceiveStatus(height, rx, sn, msgs, next) (r, err)
  ensures [status] err == nil ==> r != nil && r.rp != nil && r.height == height && r.seq == sn + len(msgs) - 1
  ensures [count] err == nil ==> len(r.rp.Events) == ite(rx < sn, len(msgs), ite(rx < sn + len(msgs), sn + len(msgs) - 1 - rx, 0))
  ensures [receipt] err == nil ==> r.rp.Height == height && r.rp.Index == 0
  ensures [event] err == nil && 0 <= jj && jj < len(r.rp.Events) ==> r.rp.Events[jj] != nil && r.rp.Events[jj].Sequence == r.seq - len(r.rp.Events) + 1 + jj && r.rp.Events[jj].Next == next && dt(r.rp.Events[jj].Message) == b64std(msgs[len(msgs) - len(r.rp.Events) + jj])
  loop (i int, s int64) i >= 0 && s == sn + i
  loop (i int, es []*chain/icon/bridge.Event) i >= 0 && len(es) == ite(rx < sn, i, ite(rx < sn + i, sn + i - 1 - rx, 0))
  loop (i int, es []*chain/icon/bridge.Event) 0 <= jj && jj < len(es) ==> es[jj] != nil && es[jj].Sequence == sn + i - len(es) + jj && es[jj].Next == next && dt(es[jj].Message) == b64std(msgs[i - len(es) + jj])

func chain/icon/bridge.NewMessageProof(bs, ls, rp) (m, err)
  optional
  requires bs != nil && rp != nil
  let rm = as(unrlp(dt(m.payload)), "*chain/icon/bridge.BridgeRelayMessage")
  let rc = as(unrlp(dt(rm.Receipts[0])), "*chain/icon/bridge.Receipt")
  ensures [status] err == nil ==> m != nil && m.nextBls != nil && m.startSeq == bs.RxSeq && m.lastSeq == ls && m.nextBls.RxSeq == ls && m.nextBls.TxSeq == bs.TxSeq && m.nextBls.Verifier.Height == bs.Verifier.Height && m.it == 3
  ensures [payload] err == nil ==> is(unrlp(dt(m.payload)), "*chain/icon/bridge.BridgeRelayMessage") && rm != nil && len(rm.Receipts) == 1
  ensures [receipt] err == nil ==> is(unrlp(dt(rm.Receipts[0])), "*chain/icon/bridge.Receipt") && rc != nil && rc.Index == rp.Index && rc.Height == rp.Height
  ensures [events] err == nil ==> is(unrlp(dt(rc.Events)), "[]*chain/icon/bridge.Event") && dt(as(unrlp(dt(rc.Events)), "[]*chain/icon/bridge.Event")) == dt(rp.Events)

func (*chain/icon/bridge.bridge).BuildMessageProof(b, bls, limit) (r, err)
  requires b != nil && bls != nil && bok(dt(b.rss), len(b.rss))
  let k = bfind(dt(b.rss), 0, bls.RxSeq + 1)
  let rs = b.rss[k]
  let m = as(r, "*chain/icon/bridge.MessageProof")
  let rm = as(unrlp(dt(m.payload)), "*chain/icon/bridge.BridgeRelayMessage")
  let rc = as(unrlp(dt(rm.Receipts[0])), "*chain/icon/bridge.Receipt")
  let evs = as(unrlp(dt(rc.Events)), "[]*chain/icon/bridge.Event")
  ensures [none] k < 0 ==> r == nil && err == nil
  ensures [some] k >= 0 && err == nil ==> is(r, "*chain/icon/bridge.MessageProof") && m != nil && m.nextBls != nil && len(rm.Receipts) == 1
  ensures [progress] k >= 0 && err == nil ==> m.startSeq == bls.RxSeq && bls.RxSeq < m.lastSeq && m.lastSeq <= rs.seq
  ensures [next] k >= 0 && err == nil ==> m.nextBls.RxSeq == m.lastSeq && m.nextBls.TxSeq == bls.TxSeq && m.nextBls.Verifier.Height == bls.Verifier.Height
  ensures [events] k >= 0 && err == nil ==> dt(evs) == sub(dt(rs.rp.Events), bls.RxSeq - rs.seq + len(rs.rp.Events), m.lastSeq - rs.seq + len(rs.rp.Events))
  ensures [height] k >= 0 && err == nil ==> rc.Height == rs.height && rc.Index == rs.rp.Index
  loop (i int) i >= -1 && bfind(dt(b.rss), 0, bls.RxSeq + 1) == bfind(dt(b.rss), i + 1, bls.RxSeq + 1)
  loop (i int64, t *chain/icon/bridge.ReceiptProof) t != nil && i >= bls.RxSeq - b.rss[bfind(dt(b.rss), 0, bls.RxSeq + 1)].seq + len(b.rss[bfind(dt(b.rss), 0, bls.RxSeq + 1)].rp.Events)
  loop (i int64, t *chain/icon/bridge.ReceiptProof) dt(t.Events) == sub(dt(b.rss[bfind(dt(b.rss), 0, bls.RxSeq + 1)].rp.Events), bls.RxSeq - b.rss[bfind(dt(b.rss), 0, bls.RxSeq + 1)].seq + len(b.rss[bfind(dt(b.rss), 0, bls.RxSeq + 1)].rp.Events), i)
  loop (i int64, t *chain/icon/bridge.ReceiptProof) t.Height == b.rss[bfind(dt(b.rss), 0, bls.RxSeq + 1)].height && t.Index == b.rss[bfind(dt(b.rss), 0, bls.RxSeq + 1)].rp.Index
  loop (t *chain/icon/bridge.ReceiptProof, n int) n == 8 * len(t.Events)
func (*chain/icon/bridge.bridge).updateReceiveStatus(b, bs) ()
  optional
  requires b != nil && bs != nil && bok(dt(b.rss), len(b.rss))
  modifies b
  ensures [kept] dt(b.rss) == sub(old(dt(b.rss)), bcov(old(dt(b.rss)), old(len(b.rss)), bs.Verifier.Height, bs.RxSeq), old(len(b.rss)))
  ensures [ok] bok(dt(b.rss), len(b.rss))
  loop (i int) i >= -1 && i < len(b.rss) && bcov(dt(b.rss), len(b.rss), bs.Verifier.Height, bs.RxSeq) == bcov(dt(b.rss), i + 1, bs.Verifier.Height, bs.RxSeq)

// ---- btp2
extern common/mbt.NewMerkleBinaryTree(f, cs) (m, err)
  note proved in C05
  ensures err == nil ==> m != nil && dt(m.contents) == dt(cs)
extern (*common/mbt.MerkleBinaryTree).Len(m) (r)
  note proved in C05
  ensures r == len(m.contents)
extern (*common/mbt.MerkleBinaryTree).Proof(m, i, j) (p, err)
  note proof for the contents i..j (C06)
  ensures iff(err == nil, 1 <= i && i <= j && j <= len(m.contents))
  ensures err == nil ==> p != nil && *p == proofof(*m, i, j)

func chain/icon/btp2.newReceiveStatus(height, seq, msgs) (r, err)
  ensures [status] err == nil ==> r != nil && r.mt != nil && r.height == height && r.seq == seq && len(r.mt.contents) == len(msgs)
  ensures [message] err == nil && 0 <= jj && jj < len(msgs) ==> dt(r.mt.contents[jj]) == b64std(msgs[jj])
  loop (i int, es [][]byte) i >= 0 && len(es) == i
  loop (i int, es [][]byte) 0 <= jj && jj < i ==> dt(es[jj]) == b64std(msgs[jj])

func (*chain/icon/btp2.btp2).updateReceiveStatus(b, bs) ()
  optional
  requires b != nil && bs != nil && tok(dt(b.rss), len(b.rss))
  modifies b
  ensures [kept] dt(b.rss) == sub(old(dt(b.rss)), tcov(old(dt(b.rss)), old(len(b.rss)), bs.Verifier.Height, bs.RxSeq), old(len(b.rss)))
  loop (i int) i >= -1 && i < len(b.rss) && tcov(dt(b.rss), len(b.rss), bs.Verifier.Height, bs.RxSeq) == tcov(dt(b.rss), i + 1, bs.Verifier.Height, bs.RxSeq)

func (*chain/icon/btp2.btp2).BuildMessageProof(b, bls, limit) (r, err)
  requires b != nil && bls != nil && tok(dt(b.rss), len(b.rss))
  let k = tfind(dt(b.rss), 0, bls.Verifier.Height)
  let rs = b.rss[k]
  let m = as(r, "*chain/icon/btp2.MessageProof")
  let first = rs.seq - len(rs.mt.contents)
  ensures [none] k < 0 || bls.RxSeq == rs.seq ==> r == nil && err == nil
  ensures [some] k >= 0 && first <= bls.RxSeq && bls.RxSeq < rs.seq ==> err == nil
  ensures [proof] k >= 0 && bls.RxSeq != rs.seq && err == nil ==> is(r, "*chain/icon/btp2.MessageProof") && m != nil && m.nextBls != nil && m.it == 3
  ensures [progress] k >= 0 && bls.RxSeq != rs.seq && err == nil ==> first <= bls.RxSeq && m.startSeq == bls.RxSeq && bls.RxSeq < m.lastSeq && m.lastSeq <= rs.seq
  ensures [next] k >= 0 && bls.RxSeq != rs.seq && err == nil ==> m.nextBls.RxSeq == m.lastSeq && m.nextBls.TxSeq == bls.TxSeq && m.nextBls.Verifier.Height == bls.Verifier.Height
  ensures [messages] k >= 0 && bls.RxSeq != rs.seq && err == nil ==> dt(m.payload) == rlp(ifc("common/mbt.MerkleBinaryTreeProof", proofof(*rs.mt, bls.RxSeq - first + 1, m.lastSeq - first)))
  loop (i int) i >= -1 && tfind(dt(b.rss), 0, bls.Verifier.Height) == tfind(dt(b.rss), i + 1, bls.Verifier.Height)
  loop (i int64) i >= bls.RxSeq - b.rss[tfind(dt(b.rss), 0, bls.Verifier.Height)].seq + len(b.rss[tfind(dt(b.rss), 0, bls.Verifier.Height)].mt.contents) + 1

method (common/link.RelayMessageItem).Type(x) (r)
  note dispatches to the receiver's own items
  ensures is(x, "*chain/icon/btp2.blockUpdate") ==> r == as(x, "*chain/icon/btp2.blockUpdate").blockProof.relayMessageItem.it
  ensures is(x, "*chain/icon/btp2.MessageProof") ==> r == as(x, "*chain/icon/btp2.MessageProof").it

func (*chain/icon/btp2.btp2).BuildRelayMessage(b, rmis) (r, err)
  requires b != nil
  domain titems(dt(rmis), len(rmis))
  let m = as(unrlp(dt(r)), "*chain/icon/btp2.BTPRelayMessage")
  ensures [message] err == nil ==> is(unrlp(dt(r)), "*chain/icon/btp2.BTPRelayMessage") && m != nil && len(m.Messages) == len(rmis)
  ensures [item] err == nil && 0 <= jj && jj < len(rmis) ==> m.Messages[jj] != nil && dt(m.Messages[jj].Payload) == tpay(rmis[jj]) && m.Messages[jj].Type == ite(is(rmis[jj], "*chain/icon/btp2.blockUpdate"), 1, 2)
  loop (i int, bm *chain/icon/btp2.BTPRelayMessage) i >= 0 && bm != nil && len(bm.Messages) == i
  loop (i int, bm *chain/icon/btp2.BTPRelayMessage) 0 <= jj && jj < i ==> bm.Messages[jj] != nil && dt(bm.Messages[jj].Payload) == tpay(rmis[jj]) && bm.Messages[jj].Type == ite(is(rmis[jj], "*chain/icon/btp2.blockUpdate"), 1, 2)

// ---- ethbr
extern github.com/ethereum/go-ethereum/rlp.EncodeToBytes(v) (r, err)
  note deterministic encoding
  ensures err == nil ==> dt(r) == erlp(v)

func (*chain/ethbr.ethbr).updateReceiveStatus(b, bs) ()
  optional
  requires b != nil && bs != nil && eok(dt(b.rss), len(b.rss))
  modifies b
  ensures [kept] dt(b.rss) == sub(old(dt(b.rss)), ecov(old(dt(b.rss)), old(len(b.rss)), bs.Verifier.Height, bs.RxSeq), old(len(b.rss)))
  ensures [ok] eok(dt(b.rss), len(b.rss))
  loop (i int) i >= -1 && i < len(b.rss) && ecov(dt(b.rss), len(b.rss), bs.Verifier.Height, bs.RxSeq) == ecov(dt(b.rss), i + 1, bs.Verifier.Height, bs.RxSeq)

func chain/ethbr.NewMessageProof(bs, ls, rps) (m, err)
  optional
  requires bs != nil && eokr(dt(rps), len(rps))
  let rm = as(unrlp(dt(m.payload)), "*chain/ethbr/client.RelayMessage")
  ensures [status] err == nil ==> m != nil && m.nextBls != nil && m.startSeq == bs.RxSeq && m.lastSeq == ls && m.nextBls.RxSeq == ls && m.nextBls.TxSeq == bs.TxSeq && m.nextBls.Verifier.Height == bs.Verifier.Height && m.it == 3
  ensures [payload] err == nil ==> is(unrlp(dt(m.payload)), "*chain/ethbr/client.RelayMessage") && rm != nil
  ensures [events] err == nil ==> erflat(dt(rm.Receipts), len(rm.Receipts)) == eflat(dt(rps), len(rps))
  loop (i int, rm *chain/ethbr/client.RelayMessage) i >= 0 && rm != nil && erflat(dt(rm.Receipts), len(rm.Receipts)) == eflat(dt(rps), i)

func (*chain/ethbr.receiveStatus).numOfEvents(r) (n)
  optional
  requires r != nil && eokr(dt(r.rps), len(r.rps))
  ensures [count] n == ecnt(*r)
  loop (i int, n int) i >= -1 && n == len(eflat(dt(r.rps), i + 1))

// ---- what applying an item does to the link status
func (*chain/icon/btp2.relayMessageItem).UpdateBMCLinkStatus(c, bls) (err)
  requires c != nil && bls != nil && c.nextBls != nil
  modifies bls
  ensures [applied] err == nil && bls.RxSeq == c.nextBls.RxSeq && bls.TxSeq == c.nextBls.TxSeq && bls.Verifier.Height == c.nextBls.Verifier.Height
func (*chain/icon/bridge.relayMessageItem).UpdateBMCLinkStatus(c, bls) (err)
  requires c != nil && bls != nil && c.nextBls != nil
  modifies bls
  ensures [applied] err == nil && bls.RxSeq == c.nextBls.RxSeq && bls.TxSeq == c.nextBls.TxSeq && bls.Verifier.Height == c.nextBls.Verifier.Height
func (*chain/ethbr.relayMessageItem).UpdateBMCLinkStatus(c, bls) (err)
  requires c != nil && bls != nil && c.nextBls != nil
  modifies bls
  ensures [applied] err == nil && bls.RxSeq == c.nextBls.RxSeq && bls.TxSeq == c.nextBls.TxSeq && bls.Verifier.Height == c.nextBls.Verifier.Height
func chain/icon/btp2.NewBlockUpdate(bs, h, v) (r)
  requires bs != nil
  ensures [next] r != nil && r.blockProof.relayMessageItem.nextBls != nil && r.blockProof.relayMessageItem.nextBls.Verifier.Height == h && r.blockProof.relayMessageItem.nextBls.RxSeq == bs.RxSeq && r.blockProof.relayMessageItem.nextBls.TxSeq == bs.TxSeq
  ensures [heights] r.srcHeight == bs.Verifier.Height && r.targetHeight == h && r.blockProof.ph == h && r.blockProof.relayMessageItem.it == 1
  ensures [payload] dt(r.blockProof.relayMessageItem.payload) == rlp(v)
func chain/icon/bridge.NewBlockUpdate(bs, h) (r)
  requires bs != nil
  ensures [next] r != nil && r.blockProof.relayMessageItem.nextBls != nil && r.blockProof.relayMessageItem.nextBls.Verifier.Height == h && r.blockProof.relayMessageItem.nextBls.RxSeq == bs.RxSeq && r.blockProof.relayMessageItem.nextBls.TxSeq == bs.TxSeq
  ensures [heights] r.srcHeight == bs.Verifier.Height && r.targetHeight == h && r.blockProof.ph == h && r.blockProof.relayMessageItem.it == 1
func chain/ethbr.NewBlockUpdate(bs, h) (r)
  requires bs != nil
  ensures [next] r != nil && r.blockProof.relayMessageItem.nextBls != nil && r.blockProof.relayMessageItem.nextBls.Verifier.Height == h && r.blockProof.relayMessageItem.nextBls.RxSeq == bs.RxSeq && r.blockProof.relayMessageItem.nextBls.TxSeq == bs.TxSeq
  ensures [heights] r.srcHeight == bs.Verifier.Height && r.targetHeight == h && r.blockProof.ph == h && r.blockProof.relayMessageItem.it == 1

// one block update per status not covered yet, in order
func (*chain/icon/bridge.bridge).BuildBlockUpdate(b, bls, limit) (r, err)
  requires b != nil && bls != nil && bok(dt(b.rss), len(b.rss))
  modifies b
  let n = bcov(old(dt(b.rss)), old(len(b.rss)), bls.Verifier.Height, bls.RxSeq)
  ensures [count] err == nil && len(r) == old(len(b.rss)) - n
  ensures [each] 0 <= jj && jj < len(r) ==> is(r[jj], "*chain/icon/bridge.blockUpdate") && as(r[jj], "*chain/icon/bridge.blockUpdate") != nil && as(r[jj], "*chain/icon/bridge.blockUpdate").targetHeight == old(dt(b.rss))[n + jj].height
  loop (i int, o []common/link.BlockUpdate) i >= -1 && len(o) == i + 1
  loop (o []common/link.BlockUpdate) 0 <= jj && jj < len(o) ==> is(o[jj], "*chain/icon/bridge.blockUpdate") && as(o[jj], "*chain/icon/bridge.blockUpdate") != nil && as(o[jj], "*chain/icon/bridge.blockUpdate").targetHeight == b.rss[jj].height
func (*chain/ethbr.ethbr).BuildBlockUpdate(b, bls, limit) (r, err)
  requires b != nil && bls != nil && eok(dt(b.rss), len(b.rss))
  modifies b
  let n = ecov(old(dt(b.rss)), old(len(b.rss)), bls.Verifier.Height, bls.RxSeq)
  ensures [count] err == nil && len(r) == old(len(b.rss)) - n
  ensures [each] 0 <= jj && jj < len(r) ==> is(r[jj], "*chain/ethbr.blockUpdate") && as(r[jj], "*chain/ethbr.blockUpdate") != nil && as(r[jj], "*chain/ethbr.blockUpdate").targetHeight == old(dt(b.rss))[n + jj].height
  loop (i int, o []common/link.BlockUpdate) i >= -1 && len(o) == i + 1
  loop (o []common/link.BlockUpdate) 0 <= jj && jj < len(o) ==> is(o[jj], "*chain/ethbr.blockUpdate") && as(o[jj], "*chain/ethbr.blockUpdate") != nil && as(o[jj], "*chain/ethbr.blockUpdate").targetHeight == b.rss[jj].height
