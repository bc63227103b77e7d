property C13

extern golang.org/x/crypto/scrypt.Key(pw, salt, n, r, p, l) (k, err)
  note the key derivation function: panics on parameters that are not positive
  requires r >= 1 && p >= 1 && l >= 1
  ensures iff(err == nil, kdfok(n, r, p, l))
  ensures err == nil ==> len(k) == l && dt(k) == kdf(dt(pw), dt(salt), n, r, p, l)
  ensures n == 65536 && r == 8 && p == 1 ==> err == nil
extern crypto/aes.NewCipher(k) (b, err)
  note standard library: accepts 16, 24 and 32 byte keys
  ensures iff(err == nil, len(k) == 16 || len(k) == 24 || len(k) == 32)
  ensures err == nil ==> b != nil && blkkey(b) == dt(k)
method (crypto/cipher.Block).BlockSize(b) (n)
  ensures n == 16
extern crypto/cipher.NewCTR(b, iv) (s)
  note standard library: panics unless the IV has the block size
  requires len(iv) == 16
  modifies ghost_sid, ghost_skey, ghost_siv, ghost_spos
  ensures s != nil && ghost_sid == s && ghost_skey == blkkey(b) && ghost_siv == dt(iv) && ghost_spos == 0
method (crypto/cipher.Stream).XORKeyStream(s, d, x) ()
  requires s == ghost_sid && len(d) >= len(x)
  modifies d, ghost_spos
  ensures ghost_spos == old(ghost_spos) + len(x)
  ensures sub(dt(d), 0, len(x)) == ctr(ghost_skey, ghost_siv, old(ghost_spos), dt(x)) && sub(dt(d), len(x), len(d)) == sub(dt(old(d)), len(x), len(d))
extern golang.org/x/crypto/sha3.NewLegacyKeccak256() (h)
  note a fresh hash
  modifies ghost_hid, ghost_hbuf
  ensures h != nil && ghost_hid == h && len(ghost_hbuf) == 0
method (hash.Hash).Write(h, b) (n, err)
  requires h == ghost_hid
  modifies ghost_hbuf
  ensures err == nil && n == len(b) && ghost_hbuf == old(ghost_hbuf) + dt(b)
method (hash.Hash).Sum(h, b) (r)
  requires h == ghost_hid
  ensures r != nil && dt(r) == dt(b) + keccak(ghost_hbuf)
extern common/crypto.SHA3Sum256(b) (r)
  note the hash function
  ensures len(r) == 32 && dt(r) == sha3(dt(b))
extern io.ReadFull(r, b) (n, err)
  note fills the buffer or reports an error
  modifies b
extern encoding/json.Unmarshal(b, p) (err)
  note standard library, on the store and its parameters
  modifies p
  ensures is(p, "*common/wallet.AES128CTRParams") ==> iff(err == nil, ivok(dt(b)))
  ensures is(p, "*common/wallet.AES128CTRParams") && err == nil ==> dt(as(p, "*common/wallet.AES128CTRParams").IV) == ivof(dt(b))
  ensures is(p, "*common/wallet.ScryptParams") ==> iff(err == nil, kpok(dt(b)))
  ensures is(p, "*common/wallet.ScryptParams") && err == nil ==> as(p, "*common/wallet.ScryptParams").DKLen == kplen(dt(b)) && as(p, "*common/wallet.ScryptParams").N == kpn(dt(b)) && as(p, "*common/wallet.ScryptParams").R == kpr(dt(b)) && as(p, "*common/wallet.ScryptParams").P == kpp(dt(b)) && dt(as(p, "*common/wallet.ScryptParams").Salt) == kpsalt(dt(b))
  ensures is(p, "*common/wallet.KeyStoreData") ==> iff(err == nil, ksok(dt(b)))
  ensures is(p, "*common/wallet.KeyStoreData") && err == nil ==> *as(p, "*common/wallet.KeyStoreData") == ksof(dt(b))
extern encoding/json.Marshal(v) (b, err)
  note standard library: what is written for the store and its parameters reads back the same
  ensures is(v, "*common/wallet.AES128CTRParams") && err == nil ==> ivok(dt(b)) && ivof(dt(b)) == dt(as(v, "*common/wallet.AES128CTRParams").IV)
  ensures is(v, "*common/wallet.ScryptParams") && err == nil ==> kpok(dt(b)) && as(v, "*common/wallet.ScryptParams").DKLen == kplen(dt(b)) && as(v, "*common/wallet.ScryptParams").N == kpn(dt(b)) && as(v, "*common/wallet.ScryptParams").R == kpr(dt(b)) && as(v, "*common/wallet.ScryptParams").P == kpp(dt(b)) && dt(as(v, "*common/wallet.ScryptParams").Salt) == kpsalt(dt(b))
  ensures is(v, "*common/wallet.KeyStoreData") && err == nil ==> ksok(dt(b)) && ksof(dt(b)) == *as(v, "*common/wallet.KeyStoreData")
extern github.com/gofrs/uuid.NewV4() (u, err)
  note a random identifier
extern github.com/gofrs/uuid.Must(u, err) (r)
  note panics when the system has no randomness
extern (github.com/gofrs/uuid.UUID).String(u) (r)
  note text of an identifier
extern github.com/haltingstate/secp256k1-go.PubkeyFromSeckey(k) (r)
  note curve library, on a valid secret key
  requires len(k) == 32
  ensures r != nil && len(r) == 33 && dt(r) == pubof(k)
extern github.com/haltingstate/secp256k1-go.UncompressPubkey(k) (r)
  note curve library, on a valid public key
  ensures r != nil && len(r) == 65 && dt(r) == uncomp(k)
extern reflect.ValueOf(i) (v)
  note reflection: the value of a pointer is nil exactly when the pointer is
  ensures is(i, "*common.Address") ==> iff(vnil(v), as(i, "*common.Address") == nil)
extern (reflect.Value).IsNil(v) (r)
  ensures r == vnil(v)
extern common/errors.Errorf(m, a) (r)
  note an error value
  ensures r != nil
extern common/errors.New(m) (r)
  note an error value
  ensures r != nil
extern common/wallet.NewEvmWalletFromPrivateKey(k) (w, err)
  note wraps the key
  ensures w != nil && err == nil
extern common/wallet.DecryptEvmKeyStore(d, pw) (k, err)
  note go-ethereum's keystore
  ensures err == nil ==> k != nil

func common/crypto.ParsePrivateKey(b) (k, err)
  ensures [accept] iff(err == nil, len(b) == 32)
  ensures [value] err == nil ==> k != nil && dt(k.bytes) == dt(b)
func (*common/crypto.PrivateKey).Bytes(k) (r)
  requires k != nil
  domain len(k.bytes) == 32
  ensures [value] r != nil && dt(r) == dt(k.bytes)
func (*common/crypto.PrivateKey).PublicKey(k) (p)
  requires k != nil
  domain len(k.bytes) == 32
  ensures [value] p != nil && dt(p.bytes) == pubof(k.bytes)
func (*common/crypto.PublicKey).SerializeUncompressed(k) (r)
  requires k != nil
  ensures r != nil && len(r) == 65 && dt(r) == uncomp(k.bytes)
func (*common.Address).SetTypeAndID(a, ic, id) (err)
  requires a != nil
  modifies a
  domain len(id) == 20
  ensures err == nil && dt(*a) == ite(ic, "\x01", "\x00") + dt(id)
func (*common.Address).SetBytes(a, b) (err)
  requires a != nil
  modifies a
  domain len(b) == 21 && b[0] <= 1
  ensures [exact] err == nil && dt(*a) == dt(b)
func (*common.Address).Bytes(a) (r)
  requires a != nil
  ensures [value] dt(r) == dt(*a)
func (*common.Address).Equal(a, b) (r)
  ensures [value] iff(r, (a == nil && b == nil) || (a != nil && b != nil && dt(*a) == dt(*b)))
func common.NewAccountAddressFromPublicKey(k) (a)
  requires k != nil
  ensures [value] a != nil && dt(*a) == addrof(k.bytes)
extern (*common.Address).String(a) (r)
  note text of an address, for the error only

func (*common/wallet.ScryptParams).Init(p) (err)
  requires p != nil
  modifies p
  ensures [params] err == nil ==> p.DKLen == 32 && p.N == 65536 && p.R == 8 && p.P == 1
func (*common/wallet.ScryptParams).Key(p, pw) (k, err)
  requires p != nil
  ensures [accept] iff(err == nil, p.DKLen >= 32 && p.R >= 1 && p.P >= 1 && kdfok(p.N, p.R, p.P, p.DKLen))
  ensures [value] err == nil ==> len(k) == p.DKLen && dt(k) == kdf(dt(pw), dt(p.Salt), p.N, p.R, p.P, p.DKLen)
func common/wallet.SHA3SumKeccak256(data) (r)
  modifies ghost_hid, ghost_hbuf
  domain len(data) == 2
  ensures [value] dt(r) == keccak(dt(data[0]) + dt(data[1]))
  loop (i int) ghost_hbuf == ite(i == 0, "", ite(i == 1, dt(data[0]), dt(data[0]) + dt(data[1])))

func common/wallet.DecryptICONKeyStore(ks, pw) (k, err)
  requires ks != nil
  modifies ghost_hid, ghost_hbuf, ghost_sid, ghost_skey, ghost_siv, ghost_spos
  let c = ks.Crypto
  ensures [accept] iff(err == nil, c.Cipher == "aes-128-ctr" && c.KDF == "scrypt" && opens(dt(c.CipherParams), dt(c.CipherText), dt(c.KDFParams), dt(c.MAC), dt(ks.Address), dt(pw)))
  ensures [key] err == nil ==> k != nil && dt(k.bytes) == plain(dt(c.CipherParams), dt(c.CipherText), dt(c.KDFParams), dt(pw))
  ensures [refused] err != nil ==> k == nil

func common/wallet.EncryptKeyAsKeyStore(s, pw) (b, err)
  requires s != nil
  domain len(s.bytes) == 32
  modifies ghost_hid, ghost_hbuf, ghost_sid, ghost_skey, ghost_siv, ghost_spos
  let ks = ksof(dt(b))
  let c = ks.Crypto
  ensures [store] err == nil ==> ksok(dt(b)) && ks.CoinType == "icx" && ks.Version == 3 && c.Cipher == "aes-128-ctr" && c.KDF == "scrypt"
  ensures [address] err == nil ==> dt(ks.Address) == addrof(pubof(s.bytes))
  ensures [opens] err == nil ==> opens(dt(c.CipherParams), dt(c.CipherText), dt(c.KDFParams), dt(c.MAC), dt(ks.Address), dt(pw))
  ensures [trip] err == nil ==> plain(dt(c.CipherParams), dt(c.CipherText), dt(c.KDFParams), dt(pw)) == dt(s.bytes)

func common/wallet.NewKeyStoreData(b) (k, err)
  ensures [accept] iff(err == nil, ksok(dt(b)))
  ensures [value] err == nil ==> k != nil && *k == ksof(dt(b))
func common/wallet.ReadAddressFromKeyStore(b) (a, err)
  ensures [accept] iff(err == nil, ksok(dt(b)) && ksof(dt(b)).CoinType == "icx")
  ensures [value] err == nil ==> a != nil && dt(*a) == dt(ksof(dt(b)).Address)
func common/wallet.NewIcxWalletFromPrivateKey(k) (w, err)
  requires k != nil
  domain len(k.bytes) == 32
  ensures [pair] err == nil && w != nil && w.skey != nil && w.pkey != nil && dt(w.skey.bytes) == dt(k.bytes) && dt(w.pkey.bytes) == pubof(k.bytes)
func common/wallet.DecryptKeyStore(b, pw) (w, err)
  modifies ghost_hid, ghost_hbuf, ghost_sid, ghost_skey, ghost_siv, ghost_spos
  let ks = ksof(dt(b))
  let c = ks.Crypto
  ensures [icon] ksok(dt(b)) && ks.CoinType == "icx" ==> iff(err == nil, c.Cipher == "aes-128-ctr" && c.KDF == "scrypt" && opens(dt(c.CipherParams), dt(c.CipherText), dt(c.KDFParams), dt(c.MAC), dt(ks.Address), dt(pw)))
  ensures [wallet] ksok(dt(b)) && ks.CoinType == "icx" && err == nil ==> is(w, "*common/wallet.softwareWallet") && dt(as(w, "*common/wallet.softwareWallet").skey.bytes) == plain(dt(c.CipherParams), dt(c.CipherText), dt(c.KDFParams), dt(pw))
  ensures [other] ksok(dt(b)) && !(ks.CoinType == "icx" || ks.CoinType == "evm" || ks.CoinType == "") ==> err != nil
  ensures [broken] !ksok(dt(b)) ==> err != nil

method (common/wallet.Wallet).ECDH(w, p) (r, err)
  note the key agreement of the wallet
  ensures iff(err == nil, ecdhok(w, dt(p)))
  ensures err == nil ==> dt(r) == ecdh(w, dt(p))
method (common/wallet.Wallet).PublicKey(w) (r)
  ensures dt(r) == walpub(w)
extern common/crypto.HKDF(s, salt, info, n) (k, err)
  note the key derivation function
  requires n >= 0
  ensures err == nil && n == len(k) && dt(k) == hkdf(dt(s), dt(salt), dt(info), n)

func (*common/wallet.Encrypted).Aes128CTRStream(e, w) (s, err)
  optional
  requires e != nil && w != nil
  modifies ghost_sid, ghost_skey, ghost_siv, ghost_spos
  let k = hkdf(ecdh(w, sub(dt(e.Param), 4, len(e.Param))), sub(dt(e.Param), 0, 4), "BTP_SECRET_HKDF", 32)
  ensures iff(err == nil, len(e.Param) >= 4 && ecdhok(w, sub(dt(e.Param), 4, len(e.Param))))
  ensures err == nil ==> s == ghost_sid && s != nil && ghost_skey == sub(k, 0, 16) && ghost_siv == sub(k, 16, 32) && ghost_spos == 0
func (*common/wallet.Encrypted).Decrypt(e, w) (r, err)
  requires e != nil && w != nil
  modifies ghost_sid, ghost_skey, ghost_siv, ghost_spos
  let from = sub(dt(e.Param), 4, len(e.Param))
  ensures [accept] iff(err == nil, len(e.Param) >= 4 && ecdhok(w, from))
  ensures [value] err == nil ==> dt(r) == unseal(sub(dt(e.Param), 0, 4), ecdh(w, from), "BTP_SECRET_HKDF", dt(e.CipherText))
func common/wallet.NewEncrypted(w, pub, b) (e, err)
  domain len(pub) < 1099511627776 && len(b) < 1099511627776
  requires w != nil
  modifies ghost_sid, ghost_skey, ghost_siv, ghost_spos
  ensures [sender] err == nil ==> e != nil && len(e.Param) >= 4 && sub(dt(e.Param), 4, len(e.Param)) == walpub(w)
  ensures [trip] err == nil ==> unseal(sub(dt(e.Param), 0, 4), ecdh(w, dt(pub)), "BTP_SECRET_HKDF", dt(e.CipherText)) == dt(b)
