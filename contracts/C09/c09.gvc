property C09

extern (*encoding/base64.Encoding).EncodeToString(e, b) (r)
  note standard library: the relay only uses URLEncoding
  ensures r == b64(b)

extern (common/types.BtpAddress).Account(a) (r)
  ensures r == btpaccount(a)
extern (common/types.BtpAddress).NetworkID(a) (r)
  ensures r == btpnid(a)

method (common/types.RelayMessage).Bytes(rm) (r)
  note the bytes of a relay message do not change between calls
  ensures dt(r) == rmbytes(rm)

method (chain/icon/client.Wallet).Address(w) (r)
  ensures r == waddr(w)

extern (*chain/icon/client.Client).SignTransaction(c, w, p) (err)
  note signing changes only the timestamp, hash and signature of the transaction
  modifies p
  ensures p.Data == old(p.Data) && p.DataType == old(p.DataType) && p.ToAddress == old(p.ToAddress)
  ensures p.FromAddress == old(p.FromAddress) && p.NetworkID == old(p.NetworkID)

extern (*chain/icon/client.Client).SendTransaction(c, p) (txh, err)
  note the node: success, or the report that it has this very transaction already, means accepted; it returns the transaction hash
  modifies ghost_tx
  ensures err == nil || isdup(err) ==> ghost_tx == old(ghost_tx) + unit(*p)
  ensures err != nil && !isdup(err) ==> ghost_tx == old(ghost_tx)
  ensures err == nil ==> txh != nil && *txh == p.TxHash
  ensures err != nil && is(err, "*common/jsonrpc.Error") ==> !isnil(as(err, "*common/jsonrpc.Error"))

extern chain/icon/client.MapError(err) (r)
  ensures iff(r == nil, err == nil)

func (*chain/icon.sender).sendTransaction(s, p) (r, err)
  optional
  ghost tx
  requires s != nil && p != nil && s.c != nil && s.w != nil && s.l != nil
  modifies p, ghost_tx
  ensures [accepted] err == nil ==> ghost_tx == old(ghost_tx) + unit(*p)
  ensures [rejected] err != nil ==> ghost_tx == old(ghost_tx)
  ensures [hash] err == nil ==> r != nil && r.Hash == p.TxHash
  ensures [payload] p.Data == old(p.Data) && p.DataType == old(p.DataType) && p.ToAddress == old(p.ToAddress)
  ensures [sender] p.FromAddress == old(p.FromAddress) && p.NetworkID == old(p.NetworkID)
  loop () ghost_tx == old(ghost_tx)
  loop () p.Data == old(p.Data) && p.DataType == old(p.DataType) && p.ToAddress == old(p.ToAddress)
  loop () p.FromAddress == old(p.FromAddress) && p.NetworkID == old(p.NetworkID)

func (*chain/icon.sender)._relay(s, rm) (r, err)
  ghost tx
  requires s != nil && s.c != nil && s.w != nil && s.l != nil && rm != nil
  requires len(ghost_tx) == 0
  modifies ghost_tx
  let m = rmbytes(rm)
  let n = len(ghost_tx)
  ensures [whole] err == nil && n == 1 ==> isrelay(ghost_tx[0], s.src, m) && len(relayp(ghost_tx[0]).Messages) <= 524288
  ensures [count] err == nil ==> n >= 1
  ensures [order] err == nil && n >= 2 ==> fragok(ghost_tx, n, s.src, n - 1)
  ensures [joined] err == nil && n >= 2 ==> fragcat(ghost_tx, n) == m
  ensures [unfinished] err != nil && n >= 1 ==> fragidx(ghost_tx[n-1]) != 0
  ensures [hash] err == nil ==> r != nil && r.Hash == ghost_tx[n-1].TxHash
  loop (msg []byte) fragcat(ghost_tx, len(ghost_tx)) + dt(msg) == rmbytes(rm)
  loop (idx int) len(ghost_tx) + idx == 0 - fragidx(ghost_tx[0]) && len(ghost_tx) >= 1
  loop () fragok(ghost_tx, len(ghost_tx), s.src, 0 - fragidx(ghost_tx[0]))
  loop (msg []byte, idx int, lim const) idx*lim <= len(msg) && len(msg) < (idx+1)*lim
