property C11

method (common/link.ReceiveStatus).Height(r) (h)
  note a receive status does not change
  ensures h == rsh(r)
method (common/link.ReceiveStatus).Seq(r) (s)
  note a receive status does not change
  ensures s == rsq(r)
method (common/link.Receiver).BuildRelayMessage(r, items) (m, err)
  note what is built depends on the items only
  ensures err == nil ==> dt(m) == built(r, dt(items))
method (common/link.Receiver).GetHeightForSeq(r, s) (h)
  note no effect on the link
method (common/link.Receiver).BuildMessageProof(r, bls, limit) (mp, err)
  note no effect on the link
method (common/link.Receiver).BuildBlockProof(r, bls, h) (bp, err)
  note no effect on the link
method (common/link.Receiver).BuildBlockUpdate(r, bls, limit) (bus, err)
  note no effect on the link; no nil block update
  ensures err == nil ==> nonnil(dt(bus), len(bus))
method (common/link.RelayMessageItem).UpdateBMCLinkStatus(i, bls) (err)
  note ghost: the items applied, in order
  modifies bls, ghost_got
  ensures ghost_got == old(ghost_got) + unit(i)
method (common/link.RelayMessageItem).Len(i) (n)
method (common/link.BlockProof).ProofHeight(i) (n)
method (common/types.Sender).Relay(s, rm) (id, err)
  note ghost: the messages handed over, in order
  modifies ghost_sent
  ensures ghost_sent == old(ghost_sent) + unit(rm)
method (common/types.Sender).TxSizeLimit(s) (n)
method (common/types.Sender).GetStatus(s) (b, err)
  ensures err == nil ==> b != nil
extern math/rand.Int() (r)
  ensures r >= 0

func (*common/link.Link).clearRelayMessage(l, bls) ()
  requires l != nil && bls != nil
  domain rmok(l.r, dt(l.rms), len(l.rms))
  modifies l
  ensures [kept] dt(l.rms) == sub(old(dt(l.rms)), mcov(old(dt(l.rms)), old(len(l.rms)), bls.Verifier.Height, bls.RxSeq), old(len(l.rms)))
  ensures [only] l.rss == old(l.rss) && l.rmi == old(l.rmi) && l.r == old(l.r) && l.s == old(l.s)
  loop (i int) i >= -1 && i < len(l.rms) && mcov(dt(l.rms), len(l.rms), bls.Verifier.Height, bls.RxSeq) == mcov(dt(l.rms), i + 1, bls.Verifier.Height, bls.RxSeq)

func (*common/link.Link).clearReceiveStatus(l, bls) ()
  requires l != nil && bls != nil
  domain nonnil(dt(l.rss), len(l.rss))
  modifies l
  ensures [kept] dt(l.rss) == sub(old(dt(l.rss)), rcov(old(dt(l.rss)), old(len(l.rss)), bls.Verifier.Height, bls.RxSeq), old(len(l.rss)))
  ensures [only] l.rms == old(l.rms) && l.rmi == old(l.rmi)
  loop (i int) i >= -1 && i < len(l.rss) && rcov(dt(l.rss), len(l.rss), bls.Verifier.Height, bls.RxSeq) == rcov(dt(l.rss), i + 1, bls.Verifier.Height, bls.RxSeq)

func (*common/link.Link).removeRelayMessage(l, id) ()
  requires l != nil && l.l != nil
  domain rmok(l.r, dt(l.rms), len(l.rms))
  modifies l
  ensures [built] rmok(l.r, dt(l.rms), len(l.rms))
  ensures [kept] dt(l.rms) == sub(old(dt(l.rms)), mfind(old(dt(l.rms)), 0, id) + 1, old(len(l.rms)))
  ensures [only] l.rss == old(l.rss) && l.rmi == old(l.rmi) && l.r == old(l.r) && l.s == old(l.s)
  loop (i int) i >= -1 && mfind(dt(l.rms), 0, id) == mfind(dt(l.rms), i + 1, id)

func (*common/link.Link).searchRelayMessage(l, id) (r)
  requires l != nil
  domain rmok(l.r, dt(l.rms), len(l.rms))
  let k = mfind(dt(l.rms), 0, id)
  ensures [found] k >= 0 ==> r == l.rms[k]
  ensures [none] k < 0 ==> r == nil
  loop (i int) i >= -1 && mfind(dt(l.rms), 0, id) == mfind(dt(l.rms), i + 1, id)

func (*common/link.Link).appendRelayMessage(l, bls) (r, err)
  optional
  requires l != nil && bls != nil && l.rmi != nil && l.r != nil
  modifies l
  ensures [items] err == nil ==> rflat(dt(r), len(r)) == old(qflat(dt(l.rmi.rmis), len(l.rmi.rmis)))
  ensures [built] err == nil ==> rmok(l.r, dt(r), len(r))
  ensures [status] err == nil && 0 <= jj && jj < len(r) ==> *r[jj].bls == *bls
  ensures [empty] err == nil ==> len(l.rmi.rmis) == 1 && len(l.rmi.rmis[0]) == 0 && l.rmi.size == 0
  ensures [kept] err != nil ==> *l.rmi == old(*l.rmi)
  ensures [only] l.rms == old(l.rms) && l.rss == old(l.rss) && l.r == old(l.r) && l.s == old(l.s) && l.rmi != nil
  loop (i int, o []*common/link.relayMessage) i >= -1 && rflat(dt(o), len(o)) == qflat(dt(l.rmi.rmis), i + 1)
  loop (o []*common/link.relayMessage) rmok(l.r, dt(o), len(o))
  loop (o []*common/link.relayMessage) 0 <= jj && jj < len(o) ==> *o[jj].bls == *bls

func (*common/link.Link).sendRelayMessage(l, bls) (err)
  optional
  requires l != nil && bls != nil && l.rmi != nil && l.r != nil && l.s != nil
  requires sok(l.r, ghost_sent, len(ghost_sent)) && rmok(l.r, dt(l.rms), len(l.rms))
  modifies l, ghost_sent
  ensures [sent] err == nil ==> sflat(ghost_sent, len(ghost_sent)) == old(sflat(ghost_sent, len(ghost_sent)) + qflat(dt(l.rmi.rmis), len(l.rmi.rmis)))
  ensures [built] sok(l.r, ghost_sent, len(ghost_sent)) && rmok(l.r, dt(l.rms), len(l.rms))
  ensures [kept] err == nil ==> rflat(dt(l.rms), len(l.rms)) == old(rflat(dt(l.rms), len(l.rms)) + qflat(dt(l.rmi.rmis), len(l.rmi.rmis)))
  ensures [empty] err == nil ==> len(l.rmi.rmis) == 1 && len(l.rmi.rmis[0]) == 0 && l.rmi.size == 0
  ensures [none] err != nil ==> ghost_sent == old(ghost_sent) && *l.rmi == old(*l.rmi) && l.rms == old(l.rms)
  ensures [only] l.rss == old(l.rss) && l.r == old(l.r) && l.s == old(l.s) && l.rmi != nil
  loop (i int, o outer:[]*common/link.relayMessage) i >= -1 && sflat(ghost_sent, len(ghost_sent)) == old(sflat(ghost_sent, len(ghost_sent))) + rflat(dt(o), i + 1)
  loop (i int, o outer:[]*common/link.relayMessage) rflat(dt(l.rms), len(l.rms)) == old(rflat(dt(l.rms), len(l.rms))) + rflat(dt(o), i + 1)
  loop () sok(l.r, ghost_sent, len(ghost_sent)) && rmok(l.r, dt(l.rms), len(l.rms))

func (*common/link.Link).buildMessageProof(l, bls) (err)
  optional
  requires l != nil && bls != nil && l.rmi != nil && l.r != nil && l.s != nil && len(l.rmi.rmis) > 0
  requires ghost_got == sflat(ghost_sent, len(ghost_sent)) + qflat(dt(l.rmi.rmis), len(l.rmi.rmis))
  modifies l, bls, ghost_got
  ensures [once] ghost_got == sflat(ghost_sent, len(ghost_sent)) + qflat(dt(l.rmi.rmis), len(l.rmi.rmis))
  ensures [only] l.rss == old(l.rss) && l.rms == old(l.rms) && l.r == old(l.r) && l.s == old(l.s) && l.rmi != nil && len(l.rmi.rmis) > 0

func (*common/link.Link).buildBlockProof(l, bls, height) (err)
  optional
  requires l != nil && bls != nil && l.rmi != nil && l.r != nil && l.s != nil && len(l.rmi.rmis) > 0
  requires ghost_got == sflat(ghost_sent, len(ghost_sent)) + qflat(dt(l.rmi.rmis), len(l.rmi.rmis))
  modifies l, bls, ghost_got
  ensures [once] ghost_got == sflat(ghost_sent, len(ghost_sent)) + qflat(dt(l.rmi.rmis), len(l.rmi.rmis))
  ensures [only] l.rss == old(l.rss) && l.rms == old(l.rms) && l.r == old(l.r) && l.s == old(l.s) && l.rmi != nil && len(l.rmi.rmis) > 0

func (*common/link.Link).buildProof(l, bls, bu) (err)
  optional
  requires l != nil && bls != nil && l.rmi != nil && l.r != nil && l.s != nil && len(l.rmi.rmis) > 0
  requires nonnil(dt(l.rss), len(l.rss))
  requires ghost_got == sflat(ghost_sent, len(ghost_sent)) + qflat(dt(l.rmi.rmis), len(l.rmi.rmis))
  requires sok(l.r, ghost_sent, len(ghost_sent)) && rmok(l.r, dt(l.rms), len(l.rms))
  modifies l, bls, ghost_got, ghost_sent
  ensures [once] ghost_got == sflat(ghost_sent, len(ghost_sent)) + qflat(dt(l.rmi.rmis), len(l.rmi.rmis))
  ensures [built] sok(l.r, ghost_sent, len(ghost_sent)) && rmok(l.r, dt(l.rms), len(l.rms))
  ensures [only] l.rss == old(l.rss) && l.r == old(l.r) && l.s == old(l.s) && l.rmi != nil && len(l.rmi.rmis) > 0
  loop () l.rss == old(l.rss) && l.r == old(l.r) && l.s == old(l.s) && l.rmi != nil && len(l.rmi.rmis) > 0
  loop () ghost_got == sflat(ghost_sent, len(ghost_sent)) + qflat(dt(l.rmi.rmis), len(l.rmi.rmis))
  loop () sok(l.r, ghost_sent, len(ghost_sent)) && rmok(l.r, dt(l.rms), len(l.rms))

func (*common/link.Link).checkStatus(l, bls) (err)
  requires l != nil && bls != nil && l.rmi != nil && l.r != nil && l.s != nil && len(l.rmi.rmis) > 0
  requires nonnil(dt(l.rss), len(l.rss))
  requires ghost_got == sflat(ghost_sent, len(ghost_sent)) + qflat(dt(l.rmi.rmis), len(l.rmi.rmis))
  requires sok(l.r, ghost_sent, len(ghost_sent)) && rmok(l.r, dt(l.rms), len(l.rms))
  modifies l, bls, ghost_got, ghost_sent
  ensures [once] ghost_got == sflat(ghost_sent, len(ghost_sent)) + qflat(dt(l.rmi.rmis), len(l.rmi.rmis))
  ensures [built] sok(l.r, ghost_sent, len(ghost_sent)) && rmok(l.r, dt(l.rms), len(l.rms))
  ensures [only] l.rss == old(l.rss) && l.r == old(l.r) && l.s == old(l.s) && l.rmi != nil && len(l.rmi.rmis) > 0
  loop () l.rss == old(l.rss) && l.r == old(l.r) && l.s == old(l.s) && l.rmi != nil && len(l.rmi.rmis) > 0
  loop () ghost_got == sflat(ghost_sent, len(ghost_sent)) + qflat(dt(l.rmi.rmis), len(l.rmi.rmis))
  loop () sok(l.r, ghost_sent, len(ghost_sent)) && rmok(l.r, dt(l.rms), len(l.rms))

func (*common/link.Link).BuildRelayMessage(l, bls) (err)
  requires l != nil && bls != nil && l.rmi != nil && l.r != nil && l.s != nil && len(l.rmi.rmis) > 0
  requires nonnil(dt(l.rss), len(l.rss))
  requires ghost_got == sflat(ghost_sent, len(ghost_sent)) + qflat(dt(l.rmi.rmis), len(l.rmi.rmis))
  requires sok(l.r, ghost_sent, len(ghost_sent)) && rmok(l.r, dt(l.rms), len(l.rms))
  modifies l, bls, ghost_got, ghost_sent
  ensures [once] ghost_got == sflat(ghost_sent, len(ghost_sent)) + qflat(dt(l.rmi.rmis), len(l.rmi.rmis))
  ensures [all] err == nil ==> ghost_got == sflat(ghost_sent, len(ghost_sent))
  ensures [built] sok(l.r, ghost_sent, len(ghost_sent)) && rmok(l.r, dt(l.rms), len(l.rms))
  ensures [only] l.rss == old(l.rss) && l.r == old(l.r) && l.s == old(l.s) && l.rmi != nil && len(l.rmi.rmis) > 0
  loop () l.rss == old(l.rss) && l.r == old(l.r) && l.s == old(l.s) && l.rmi != nil && len(l.rmi.rmis) > 0
  loop () ghost_got == sflat(ghost_sent, len(ghost_sent)) + qflat(dt(l.rmi.rmis), len(l.rmi.rmis))
  loop () sok(l.r, ghost_sent, len(ghost_sent)) && rmok(l.r, dt(l.rms), len(l.rms))
  loop (i int) i >= 0 ==> qflat(dt(l.rmi.rmis), len(l.rmi.rmis)) == none

func (*common/link.Link).result(l, rr) (err)
  requires l != nil && rr != nil && l.rmi != nil && l.r != nil && l.s != nil && l.l != nil && len(l.rmi.rmis) > 0
  requires nonnil(dt(l.rss), len(l.rss))
  requires ghost_got == sflat(ghost_sent, len(ghost_sent)) + qflat(dt(l.rmi.rmis), len(l.rmi.rmis))
  requires sok(l.r, ghost_sent, len(ghost_sent)) && rmok(l.r, dt(l.rms), len(l.rms))
  modifies l, ghost_got, ghost_sent
  domain rr.Err != 28
  ensures [verified] rr.Err == 27 ==> dt(l.rms) == sub(old(dt(l.rms)), mfind(old(dt(l.rms)), 0, rr.Id) + 1, old(len(l.rms)))
  ensures [once] ghost_got == sflat(ghost_sent, len(ghost_sent)) + qflat(dt(l.rmi.rmis), len(l.rmi.rmis))
  ensures [built] sok(l.r, ghost_sent, len(ghost_sent)) && rmok(l.r, dt(l.rms), len(l.rms))
