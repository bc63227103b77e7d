property C12

extern (*bytes.Buffer).WriteByte(b, c) (err)
  modifies b
  ensures err == nil && *b == old(*b) + unit(c)
extern (*bytes.Buffer).Write(b, p) (n, err)
  modifies b
  ensures err == nil && *b == old(*b) + dt(p)
extern (*bytes.Buffer).Len(b) (r)
  ensures r == len(*b)
extern (*bytes.Buffer).Bytes(b) (r)
  ensures dt(r) == *b
extern strconv.FormatInt(v, base) (r)
  ensures base == 10 ==> r == dectext(v)
extern sort.Strings(q)
  modifies q
  ensures dt(q) == sorted(old(dt(q)))

func chain/icon/client.serializeString(s) (r)
  fuel 1
  ensures [escaped] dt(r) == esc(s)
  loop (i int, b bytes.Buffer) b == esc(sub(s, 0, i))

func chain/icon/client.serializeList(q) (r, err)
  fuel 1
  ensures [ok] iff(err == nil, okl(dt(q)))
  ensures [text] err == nil ==> dt(r) == serl(dt(q))
  loop (i int, b bytes.Buffer) b == serl(sub(dt(q), 0, i))
  loop (i int) okl(sub(dt(q), 0, i))

func chain/icon/client.serializeValue(v) (r, err)
  ensures [ok] iff(err == nil, okv(v))
  ensures [text] err == nil ==> dt(r) == serv(v)

func chain/icon/client.serializeDict(d, in, ex) (r, err)
  fuel 1
  ensures [ok] iff(err == nil, dictok(d, in, ex))
  ensures [text] err == nil ==> dt(r) == dict(d, in, ex)
  loop (i int, ks keys, q []string) dt(q) == sub(ks, 0, i)
  loop (i int, b bytes.Buffer) b == serd(sub(ckeys(d), 0, i), d, in, ex)
  loop (i int) okd(sub(ckeys(d), 0, i), d, in, ex)

func chain/icon/client.SerializeMap(d, in, ex) (r, err)
  ensures [ok] iff(err == nil, dictok(d, in, ex))
  ensures [text] err == nil ==> dt(r) == dict(d, in, ex)

extern encoding/json.Unmarshal(b, p) (err)
  note the map a JSON text stands for
  modifies p
  ensures err == nil && is(p, "*map[string]interface{}") ==> *as(p, "*map[string]interface{}") == jsonmap(dt(b))
  ensures is(p, "*map[string]interface{}") ==> iff(err == nil, jsonok(dt(b)))

func chain/icon/client.SerializeJSON(s, in, ex) (r, err)
  ensures [ok] iff(err == nil, jsonok(dt(s)) && dictok(jsonmap(dt(s)), in, ex))
  ensures [text] err == nil ==> dt(r) == dict(jsonmap(dt(s)), in, ex)

extern encoding/json.Marshal(v) (b, err)
  note the JSON text of a transaction depends on its fields, not on its hash
  ensures err == nil && is(v, "*chain/icon/client.TransactionParam") ==> dt(b) == txjson(as(v, "*chain/icon/client.TransactionParam").Version, as(v, "*chain/icon/client.TransactionParam").FromAddress, as(v, "*chain/icon/client.TransactionParam").ToAddress, as(v, "*chain/icon/client.TransactionParam").Value, as(v, "*chain/icon/client.TransactionParam").StepLimit, as(v, "*chain/icon/client.TransactionParam").Timestamp, as(v, "*chain/icon/client.TransactionParam").NetworkID, as(v, "*chain/icon/client.TransactionParam").Nonce, as(v, "*chain/icon/client.TransactionParam").Signature, as(v, "*chain/icon/client.TransactionParam").DataType, as(v, "*chain/icon/client.TransactionParam").Data)
extern common/crypto.SHA3Sum256(b) (r)
  note the hash function
  ensures dt(r) == sha3(dt(b))
method (chain/icon/client.Wallet).Sign(w, d) (sig, err)
  note the wallet
  ensures err == nil ==> dt(sig) == sigof(w, dt(d))
extern (*encoding/base64.Encoding).EncodeToString(e, b) (r)
  ensures r == b64(dt(b))
extern encoding/hex.EncodeToString(b) (r)
  ensures r == hextext(dt(b))
extern chain/icon/client.NewHexInt(v) (r)
  note see C02
extern time.Now() (r)
extern (time.Time).UnixNano(t) (r)

func (*chain/icon/client.Client).SignTransaction(c, w, p) (err)
  requires w != nil && p != nil
  modifies p
  let text = dict(jsonmap(txjson(p.Version, p.FromAddress, p.ToAddress, p.Value, p.StepLimit, p.Timestamp, p.NetworkID, p.Nonce, old(p.Signature), p.DataType, p.Data)), nomap(), mapput(nomap(), "signature", true))
  let hash = sha3("icx_sendTransaction." + text)
  ensures [hash] err == nil ==> p.TxHash == "0x" + hextext(hash)
  ensures [signature] err == nil ==> p.Signature == b64(sigof(w, hash))
  ensures [rest] p.Version == old(p.Version) && p.FromAddress == old(p.FromAddress) && p.ToAddress == old(p.ToAddress) && p.Value == old(p.Value) && p.StepLimit == old(p.StepLimit) && p.NetworkID == old(p.NetworkID) && p.Nonce == old(p.Nonce) && p.DataType == old(p.DataType) && p.Data == old(p.Data)
