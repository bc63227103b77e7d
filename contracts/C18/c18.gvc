property C18

extern common/errors.CoderOf(e) (c, ok)
  note uses reflection; checked by the harness for chains of wrapped errors
  ensures iff(ok, hascode(e))
  ensures ok ==> c != nil && ccode(c) == errcode(e)
method (common/errors.ErrorCoder).ErrorCode(c) (r)
  ensures r == ccode(c)

func chain/icon/client.NewRevertError(code) (r)
  ensures [code] code >= 0 ==> isbase(r) && errcode(r) == code && !isnil(as(r, "*common/errors.baseError"))
  ensures [none] code < 0 ==> r == nil

func chain/ethbr/client.NewRevertError(code) (r)
  ensures [code] code >= 0 ==> isbase(r) && errcode(r) == code && !isnil(as(r, "*common/errors.baseError"))
  ensures [none] code < 0 ==> r == nil

extern (chain/icon/client.HexInt).Value(i) (v, err)
  note see C02
  ensures v == hexv(i) && iff(err == nil, hexok(i))
extern (chain/icon/client.HexBytes).Value(i) (v, err)
  note see C02
  ensures err == nil ==> dt(v) == hexb(i)

func chain/icon/client.MapError(err) (r)
  requires is(err, "*common/jsonrpc.Error") ==> !isnil(as(err, "*common/jsonrpc.Error"))
  requires is(err, "*net/url.Error") ==> !isnil(as(err, "*net/url.Error"))
  ensures [none] iff(r == nil, err == nil)

func chain/icon.mapErrorWithTransactionResult(txr, err) (r)
  requires is(err, "*common/jsonrpc.Error") ==> !isnil(as(err, "*common/jsonrpc.Error"))
  requires is(err, "*net/url.Error") ==> !isnil(as(err, "*net/url.Error"))
  let failed = err == nil && txr != nil && txr.Status != "0x1"
  let revert = failed && txr.Failure != nil && hexv(txr.Failure.CodeValue) >= 32 && hexv(txr.Failure.CodeValue) <= 99
  ensures [none] iff(r == nil, err == nil && !failed)
  ensures [revert] revert ==> isbase(r) && errcode(r) == hexv(txr.Failure.CodeValue) - 32
  ensures [other] failed && !revert ==> !isbase(r) && !hascode(r)

extern (*chain/icon/client.Client).GetTransactionResult(c, p) (txr, err)
  note the node; ghost: the outcome it reports, and whether it is still at work
  modifies ghost_ok, ghost_code, ghost_busy
  ensures iff(ghost_busy, is(err, "*common/jsonrpc.Error") && (as(err, "*common/jsonrpc.Error").Code == 0 - 31002 || as(err, "*common/jsonrpc.Error").Code == 0 - 31003))
  ensures iff(err == nil, txr != nil)
  ensures is(err, "*common/jsonrpc.Error") ==> !isnil(as(err, "*common/jsonrpc.Error"))
  ensures is(err, "*net/url.Error") ==> !isnil(as(err, "*net/url.Error"))
  ensures iff(ghost_ok, err == nil && txr.Status == "0x1")
  ensures err == nil && txr.Status != "0x1" && txr.Failure != nil && hexv(txr.Failure.CodeValue) >= 32 && hexv(txr.Failure.CodeValue) <= 99 ==> ghost_code == hexv(txr.Failure.CodeValue) - 32
  ensures !(err == nil && txr.Status != "0x1" && txr.Failure != nil && hexv(txr.Failure.CodeValue) >= 32 && hexv(txr.Failure.CodeValue) <= 99) ==> ghost_code == 0 - 1

func (*chain/icon.sender).GetResult(s, txh) (r, err)
  requires s != nil && s.c != nil && txh != nil
  modifies ghost_ok, ghost_code, ghost_busy
  ensures [waits] !ghost_busy
  ensures [outcome] iff(err == nil, ghost_ok)
  ensures [success] err == nil ==> r != nil && r.Status == "0x1"
  ensures [revert] ghost_code >= 0 ==> isbase(err) && errcode(err) == ghost_code
  ensures [other] !ghost_ok && ghost_code < 0 && isbase(err) ==> r == nil
  loop () true

extern (*chain/icon/client.Client).Call(c, p, r) (err)
  note the node: the answer is decoded into r
  modifies r, ghost_status
  ensures is(r, "*chain/icon/client.BMCStatus") ==> ghost_status == *as(r, "*chain/icon/client.BMCStatus")
  ensures is(err, "*common/jsonrpc.Error") ==> !isnil(as(err, "*common/jsonrpc.Error"))
  ensures is(err, "*net/url.Error") ==> !isnil(as(err, "*net/url.Error"))

extern (common/types.BtpAddress).Account(a) (r)
method (chain/icon/client.Wallet).Address(w) (r)

func (*chain/icon.sender).GetStatus(s) (r, err)
  requires s != nil && s.c != nil && s.w != nil
  modifies ghost_status
  ensures [none] err == nil ==> r != nil
  ensures [seqs] err == nil ==> r.TxSeq == hexv(ghost_status.TxSeq) && r.RxSeq == hexv(ghost_status.RxSeq)
  ensures [verifier] err == nil ==> r.Verifier.Height == hexv(ghost_status.Verifier.Height) && dt(r.Verifier.Extra) == hexb(ghost_status.Verifier.Extra)

func (*chain/icon.sender).result(s, id, txh) ()
  requires s != nil && s.c != nil && s.w != nil && s.l != nil && txh != nil
  modifies ghost_ok, ghost_code, ghost_busy, ghost_out, ghost_status
  let n = old(len(ghost_out))
  ensures [before] sub(ghost_out, 0, n) == old(ghost_out)
  ensures [success] ghost_ok ==> statusonly(ghost_out, n)
  ensures [revert] ghost_code >= 0 ==> len(ghost_out) > n && isresult(ghost_out[n], id, ghost_code) && statusonly(ghost_out, n + 1)


extern net/http.NewRequest(m, u, b) (r, err)
  ensures err == nil ==> r != nil
extern (*net/http.Client).Do(c, r) (resp, err)
  note the node; ghost: the HTTP status of its answer
  modifies ghost_http
  ensures err == nil ==> resp != nil && ext("net/http.Response", "Body", resp) != nil && ghost_http == ext("net/http.Response", "StatusCode", resp)

func (*common/jsonrpc.Client).Do(c, method, reqPtr, respPtr) (r, err)
  requires c != nil && c.hc != nil
  modifies ghost_http
  ensures [http] err == nil ==> ghost_http == 200
  ensures [rpc] err == nil ==> r != nil && r.Error == nil

extern (*chain/ethbr/client.Client).GetTransaction(c, h) (tx, pending, err)
  note the node; ghost: whether it is still at work
  modifies ghost_busy
  ensures iff(ghost_busy, err == nil && pending)
extern (*chain/ethbr/client.Client).GetTransactionReceipt(c, h) (tx, err)
  note the node; ghost: the outcome it reports
  modifies ghost_ok
  ensures err == nil ==> tx != nil
  ensures iff(ghost_ok, err == nil && ext("github.com/ethereum/go-ethereum/core/types.Receipt", "Status", tx) != 0)
extern (*chain/ethbr/client.Client).GetRevertMessage(c, h) (m, err)
  note the node

func (*chain/ethbr.sender).GetResult(s, txh) (r, err)
  requires s != nil && s.c != nil && txh != nil && !ghost_ok
  modifies ghost_ok, ghost_busy
  ensures [waits] !ghost_busy
  ensures [outcome] iff(err == nil, ghost_ok)
  ensures [success] err == nil ==> r != nil
  loop () !ghost_ok

extern (*chain/ethbr/binding.BMCCaller).GetStatus(c, o, l) (st, err)
  note the generated binding: the answer of the contract
  modifies ghost_eth
  ensures err == nil ==> st.TxSeq != nil && st.RxSeq != nil && st.Verifier.Height != nil && ghost_eth == st

func (*chain/ethbr.sender).GetStatus(s) (r, err)
  requires s != nil && s.bmc != nil && s.l != nil
  modifies ghost_eth
  ensures [none] err == nil ==> r != nil
  ensures [status] err == nil && fits(*ghost_eth.TxSeq) && fits(*ghost_eth.RxSeq) && fits(*ghost_eth.Verifier.Height) ==> r.TxSeq == *ghost_eth.TxSeq && r.RxSeq == *ghost_eth.RxSeq && r.Verifier.Height == *ghost_eth.Verifier.Height && dt(r.Verifier.Extra) == dt(ghost_eth.Verifier.Extra)

func (*chain/ethbr.sender).result(s, id, txh) ()
  requires s != nil && s.c != nil && s.bmc != nil && s.l != nil && txh != nil && !ghost_ok
  modifies ghost_ok, ghost_busy, ghost_out, ghost_eth
  let n = old(len(ghost_out))
  ensures [before] sub(ghost_out, 0, n) == old(ghost_out)
  ensures [success] ghost_ok ==> statusonly(ghost_out, n)
  ensures [failure] statusonly(ghost_out, n) || statusonly(ghost_out, n + 1)
