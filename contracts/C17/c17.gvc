property C17

extern github.com/haltingstate/secp256k1-go.Sign(m, k) (r)
  note curve library: signing yields R|S|V with V 0..3, from which the signer's key is recovered and verified
  requires m != nil && len(k) == 32
  ensures len(r) == 65 && r != nil && r[64] <= 3
  ensures recovers(m, r) && recov(m, r) == pubof(k)
  ensures verifies(m, r, pubof(k))
extern github.com/haltingstate/secp256k1-go.RecoverPubkey(m, s) (r)
  note curve library: nil when nothing can be recovered, 33 bytes otherwise
  requires len(s) == 65
  ensures iff(r != nil, recovers(m, s))
  ensures r == nil ==> len(r) == 0
  ensures r != nil ==> len(r) == 33 && dt(r) == recov(m, s)
extern github.com/haltingstate/secp256k1-go.VerifySignature(m, s, k) (r)
  note curve library: refuses other lengths by a panic
  requires m != nil && s != nil && k != nil && len(s) == 65 && len(k) == 33
  ensures r == 0 || r == 1
  ensures iff(r == 1, verifies(m, s, k))
extern github.com/haltingstate/secp256k1-go.PubkeyFromSeckey(k) (r)
  note curve library, on a valid secret key
  requires len(k) == 32
  ensures r != nil && len(r) == 33 && dt(r) == pubof(k)
extern github.com/haltingstate/secp256k1-go.UncompressPubkey(k) (r)
  note curve library, on a valid public key
  ensures r != nil && len(r) == 65 && dt(r) == uncomp(k)

func common/crypto.ParseSignature(b) (s, err)
  ensures [accept] iff(err == nil, len(b) == 64 || len(b) == 65)
  ensures [refused] err != nil ==> s == nil
  ensures [rsv] len(b) == 65 ==> s != nil && s.hasV && dt(s.bytes) == dt(b)
  ensures [rs] len(b) == 64 ==> s != nil && !s.hasV && len(s.bytes) == 65 && rs(s.bytes) == dt(b)

func common/crypto.ParseSignatureVRS(b) (s, err)
  ensures [accept] iff(err == nil, len(b) == 65)
  ensures [refused] err != nil ==> s == nil
  ensures [value] err == nil ==> s != nil && s.hasV && dt(s.bytes) == rsv(b)

func (*common/crypto.Signature).HasV(s) (r)
  requires s != nil
  ensures r == s.hasV

func (*common/crypto.Signature).SerializeRS(s) (b, err)
  requires s != nil
  domain len(s.bytes) == 65
  ensures [value] err == nil && dt(b) == rs(s.bytes)

func (*common/crypto.Signature).SerializeVRS(s) (b, err)
  requires s != nil
  domain len(s.bytes) == 65
  hint orders(s.bytes)
  ensures [accept] iff(err == nil, s.hasV)
  ensures [value] err == nil ==> dt(b) == vrs(s.bytes) && rsv(b) == dt(s.bytes)

func (*common/crypto.Signature).SerializeRSV(s) (b, err)
  requires s != nil
  ensures [accept] iff(err == nil, s.hasV)
  ensures [value] err == nil ==> dt(b) == dt(s.bytes)

func common/crypto.NewSignature(h, k) (s, err)
  domain k != nil ==> len(k.bytes) == 32
  ensures [accept] iff(err == nil, 1 <= len(h) && len(h) <= 32 && k != nil)
  ensures [refused] err != nil ==> s == nil
  ensures [recover] err == nil ==> s != nil && s.hasV && len(s.bytes) == 65 && recovers(h, s.bytes) && recov(h, s.bytes) == pubof(k.bytes)
  ensures [verify] err == nil ==> verifies(h, s.bytes, pubof(k.bytes))

func (*common/crypto.Signature).RecoverPublicKey(s, h) (k, err)
  requires s != nil
  domain s.hasV ==> len(s.bytes) == 65
  ensures [accept] iff(err == nil, s.hasV && 1 <= len(h) && len(h) <= 32 && recovers(h, s.bytes))
  ensures [value] err == nil ==> k != nil && dt(k.bytes) == recov(h, s.bytes)

func (*common/crypto.Signature).Verify(s, h, k) (r)
  requires s != nil
  domain s.hasV ==> len(s.bytes) == 65
  domain k != nil ==> len(k.bytes) == 33 && k.bytes != nil
  ensures [value] iff(r, s.hasV && 1 <= len(h) && len(h) <= 32 && k != nil && verifies(h, s.bytes, k.bytes))

func common/crypto.ParsePublicKey(b) (k, err)
  ensures [accept] iff(err == nil, len(b) == 33 || len(b) == 65)
  ensures [refused] iff(err != nil, k == nil)
  ensures [compressed] len(b) == 33 ==> dt(k.bytes) == dt(b)
  ensures [uncompressed] len(b) == 65 ==> dt(k.bytes) == comp(b)

func common/crypto.uncompToCompPublicKey(b) (r)
  optional
  requires len(b) == 65
  ensures r != nil && dt(r) == comp(b)

func (*common/crypto.PublicKey).SerializeCompressed(k) (r)
  requires k != nil
  ensures r == k.bytes

func (*common/crypto.PublicKey).SerializeUncompressed(k) (r)
  requires k != nil
  ensures dt(r) == uncomp(k.bytes)

func (*common/crypto.PublicKey).Equal(k, l) (r)
  requires k != nil && l != nil
  ensures [value] r == (dt(k.bytes) == dt(l.bytes))

func (*common/crypto.PrivateKey).PublicKey(k) (p)
  requires k != nil
  domain len(k.bytes) == 32
  ensures [value] p != nil && dt(p.bytes) == pubof(k.bytes)

func (*common/crypto.PrivateKey).Bytes(k) (r)
  requires k != nil
  domain len(k.bytes) == 32
  ensures [value] r != nil && dt(r) == dt(k.bytes)

func common/crypto.ParsePrivateKey(b) (k, err)
  ensures [accept] iff(err == nil, len(b) == 32)
  ensures [value] err == nil ==> k != nil && dt(k.bytes) == dt(b)

func (*common/wallet.softwareWallet).Sign(w, h) (b, err)
  requires w != nil
  domain w.skey != nil && len(w.skey.bytes) == 32
  ensures [accept] iff(err == nil, 1 <= len(h) && len(h) <= 32)
  ensures [sig] err == nil ==> len(b) == 65 && recovers(h, dt(b)) && recov(h, dt(b)) == pubof(w.skey.bytes)

func common/wallet.NewIcxWalletFromPrivateKey(k) (w, err)
  requires k != nil
  domain len(k.bytes) == 32
  ensures [pair] err == nil ==> w != nil && w.skey != nil && w.pkey != nil && dt(w.skey.bytes) == dt(k.bytes) && dt(w.pkey.bytes) == pubof(k.bytes)

func (*common/wallet.softwareWallet).PublicKey(w) (b)
  requires w != nil && w.pkey != nil
  ensures [value] dt(b) == dt(w.pkey.bytes)
