property C14

extern encoding/hex.EncodeToString(b) (r)
  note standard library: two lower case digits per byte
  ensures r == hexenc(b)
extern encoding/hex.DecodeString(s) (r, err)
  note standard library: accepts exactly even-length hexadecimal text
  ensures iff(err == nil, ishex(s) && len(s) % 2 == 0)
  ensures err == nil ==> r != nil && dt(r) == hexdec(s)
extern encoding/hex.Decode(d, s) (n, err)
  note standard library: accepts exactly even-length hexadecimal text; the destination must hold half its length
  requires len(d) >= len(s) / 2
  modifies d
  ensures iff(err == nil, ishex(s) && len(s) % 2 == 0)
  ensures err == nil ==> n == len(s) / 2 && sub(dt(d), 0, n) == hexdec(s) && sub(dt(d), n, len(d)) == sub(dt(old(d)), n, len(d))

func (*common.Address).IsContract(a) (r)
  requires a != nil
  ensures [value] r == (a[0] == 1)
func (*common.Address).String(a) (r)
  requires a != nil
  ensures [value] r == addrtext(*a)
func (*common.Address).Bytes(a) (r)
  requires a != nil
  ensures [value] dt(r) == dt(*a)
func (*common.Address).ID(a) (r)
  requires a != nil
  ensures [value] dt(r) == sub(*a, 1, 21)
func (*common.Address).SetTypeAndID(a, ic, id) (err)
  requires a != nil
  modifies a
  ensures [accept] iff(err == nil, id != nil)
  ensures [value] err == nil ==> isaddr(*a, ic, id)
  ensures [kept] err != nil ==> *a == old(*a)
func (*common.Address).SetBytes(a, b) (err)
  requires a != nil
  modifies a
  ensures [accept] iff(err == nil, len(b) >= 1 && (b[0] == 0 || b[0] == 1))
  ensures [value] err == nil ==> isaddr(*a, b[0] == 1, sub(b, 1, len(b)))
  ensures [exact] err == nil && len(b) == 21 ==> dt(*a) == dt(b)
  ensures [kept] err != nil ==> *a == old(*a)
func (*common.Address).SetString(a, s) (err)
  requires a != nil
  modifies a
  let t = even(unpre(s))
  ensures [accept] iff(err == nil, ishex(t))
  ensures [value] err == nil ==> isaddr(*a, iscx(s), hexdec(t))
  ensures [kept] err != nil ==> *a == old(*a)
func (*common.Address).Equal(a, b) (r)
  ensures [value] iff(r, (a == nil && b == nil) || (a != nil && b != nil && dt(*a) == dt(*b)))
func common.NewAccountAddress(b) (a)
  ensures [value] a != nil && (b != nil ==> isaddr(*a, false, b))
func common.NewContractAddress(b) (a)
  ensures [value] a != nil && (b != nil ==> isaddr(*a, true, b))
func common.NewAddress(b) (a)
  ensures [value] a != nil && (len(b) == 21 && b[0] <= 1 ==> dt(*a) == dt(b))

func (chain/icon/client.Address).Value(a) (b, err)
  ensures [accept] iff(err == nil, len(a) == 42 && (iscx(a) || ishx(a)) && ishex(sub(a, 2, 42)))
  ensures [value] err == nil ==> len(b) == 21 && b[0] == ite(iscx(a), 1, 0) && sub(b, 1, 21) == hexdec(sub(a, 2, 42))
func chain/icon/client.NewAddress(b) (a)
  ensures [value] len(b) == 21 && b[0] <= 1 ==> a == addrtext(b)
  ensures [refused] !(len(b) == 21 && b[0] <= 1) ==> a == ""
func (chain/icon/client.HexBytes).Value(h) (b, err)
  ensures [accept] iff(err == nil, len(h) == 0 || (is0x(h) && ishex(sub(h, 2, len(h))) && len(h) % 2 == 0))
  ensures [value] err == nil && len(h) > 0 ==> dt(b) == hexdec(sub(h, 2, len(h)))
  ensures [none] len(h) == 0 ==> b == nil
func chain/icon/client.NewHexBytes(b) (h)
  ensures [value] is0x(h) && sub(h, 2, len(h)) == hexenc(b)
func (chain/ethbr/client.Address).Value(a) (b, err)
  ensures [accept] iff(err == nil, len(a) == 42 && (iscx(a) || ishx(a)) && ishex(sub(a, 2, 42)))
  ensures [value] err == nil ==> len(b) == 21 && b[0] == ite(iscx(a), 1, 0) && sub(b, 1, 21) == hexdec(sub(a, 2, 42))
func (chain/ethbr/client.HexBytes).Value(h) (b, err)
  ensures [accept] iff(err == nil, len(h) == 0 || (is0x(h) && ishex(sub(h, 2, len(h))) && len(h) % 2 == 0))
  ensures [value] err == nil && len(h) > 0 ==> dt(b) == hexdec(sub(h, 2, len(h)))
  ensures [none] len(h) == 0 ==> b == nil

extern reflect.ValueOf(i) (v)
  note reflection: the value of a pointer is nil exactly when the pointer is
  ensures is(i, "*common.Address") ==> iff(vnil(v), as(i, "*common.Address") == nil)
extern (reflect.Value).IsNil(v) (r)
  ensures r == vnil(v)

extern strings.Index(s, t) (r)
  note standard library
  ensures len(t) == 3 && t[0] == 58 && t[1] == 47 && t[2] == 47 ==> r == ixp(s)
extern strings.Split(s, c) (r)
  note standard library, for a one-character separator
  ensures len(c) == 1 ==> (len(r) <= 3 ==> nparts(s, c[0]) == len(r)) && (len(r) > 3 ==> nparts(s, c[0]) == 4) && len(r) >= 1
  ensures len(c) == 1 ==> r[0] == part(s, c[0], 0)
  ensures len(c) == 1 && len(r) > 1 ==> r[1] == part(s, c[0], 1)
  ensures len(c) == 1 && len(r) > 2 ==> r[2] == part(s, c[0], 2)
  ensures len(c) == 1 && len(r) > 3 ==> r[3] == part(s, c[0], 3)

func (common/types.BtpAddress).Protocol(a) (r)
  ensures [value] r == proto(a)
func (common/types.BtpAddress).NetworkAddress(a) (r)
  ensures [value] r == netof(a)
func (common/types.BtpAddress).network(a) (i, c)
  optional
  ensures [value] i == nidof(netof(a)) && c == chainof(netof(a))
func (common/types.BtpAddress).BlockChain(a) (r)
  ensures [value] r == chainof(netof(a))
func (common/types.BtpAddress).NetworkID(a) (r)
  ensures [value] r == nidof(netof(a))
func (common/types.BtpAddress).Account(a) (r)
  ensures [value] r == acctof(a)
func (common/types.BtpAddress).ContractAddress(a) (r)
  ensures [value] r == acctof(a)
func common/types.ValidateBtpAddress(a) (err)
  ensures [value] iff(err == nil, proto(a) == "btp" && (chainof(netof(a)) == "icon" || chainof(netof(a)) == "iconee") && len(acctof(a)) >= 1)
