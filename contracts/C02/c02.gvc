property C02

extern encoding/hex.EncodeToString(b) (r)
  note standard library: two lower case digits per byte
  ensures r == hexenc(b)

extern encoding/hex.DecodeString(s) (r, err)
  note standard library: accepts exactly even-length hexadecimal text
  ensures iff(err == nil, ishex(s) && len(s) % 2 == 0)
  ensures err == nil ==> len(r)*2 == len(s) && be(r) == hexval(s)

extern strconv.ParseInt(s, base, bits) (r, err)
  note standard library, base 0: a 0x text is accepted exactly when it fits
  ensures err == nil && bits >= 1 ==> 0 - pow2(bits-1) <= r && r < pow2(bits-1)
  ensures base == 0 && ishexnum(s) ==> iff(err == nil, 0 - pow2(bits-1) <= hexnum(s) && hexnum(s) < pow2(bits-1))
  ensures base == 0 && ishexnum(s) && err == nil ==> r == hexnum(s)
  ensures iff(err == nil, parseok(s, base, bits))
  ensures err == nil ==> r == parseint(s, base)

extern strconv.ParseUint(s, base, bits) (r, err)
  note standard library, base 0: a 0x text without sign is accepted exactly when it fits
  ensures err == nil && bits >= 1 ==> r < pow2(bits)
  ensures base == 0 && ishexnum(s) && !hasneg(s) ==> iff(err == nil, hexnum(s) < pow2(bits))
  ensures base == 0 && hasneg(s) ==> err != nil
  ensures base == 0 && ishexnum(s) && err == nil ==> r == hexnum(s)

func common/intconv.encodeHexNumber(neg, b) (r)
  optional
  ensures [value] hexnum(r) == ite(neg, 0 - be(b), be(b))
  ensures [form] ishexnum(r)
  ensures [canonical] len(b) == 0 || (len(b) == 1 && b[0] == 0 && !neg) || b[0] != 0 ==> canonhex(r)

func common/intconv.decodeHexNumber(s) (neg, bs, err)
  optional
  ensures [sign] neg == hasneg(s)
  ensures [accepts] iff(err == nil, ishex(un0x(unneg(s))))
  ensures [value] err == nil ==> be(bs) == hexval(un0x(unneg(s)))
  ensures [width] err == nil ==> len(bs) == (len(un0x(unneg(s))) + 1) / 2

func common/intconv.FormatBigInt(i) (r)
  requires i != nil
  ensures [value] ishexnum(r) && hexnum(r) == *i
  ensures [canonical] canonhex(r)

func common/intconv.FormatInt(v) (r)
  arith exact
  ensures [value] ishexnum(r) && hexnum(r) == v
  ensures [canonical] canonhex(r)

func common/intconv.FormatUint(v) (r)
  arith exact
  ensures [value] ishexnum(r) && hexnum(r) == v
  ensures [canonical] canonhex(r)

func common/intconv.ParseBigInt(i, s) (err)
  requires i != nil
  modifies i
  ensures [exact] ishexnum(s) ==> err == nil && *i == hexnum(s)
  ensures [accepts] iff(err == nil, ishex(un0x(unneg(s))))
  ensures [kept] err != nil ==> *i == old(*i)

func common/intconv.ParseInt(s, bits) (r, err)
  arith exact
  requires bits == 8 || bits == 16 || bits == 32 || bits == 64
  hint pow2(7)
  hint pow2(15)
  hint pow2(31)
  hint pow2(63)
  ensures [range] err == nil ==> 0 - pow2(bits-1) <= r && r < pow2(bits-1)
  ensures [exact] ishexnum(s) && err == nil ==> r == hexnum(s)
  ensures [fits] ishexnum(s) ==> iff(err == nil, 0 - pow2(bits-1) <= hexnum(s) && hexnum(s) < pow2(bits-1))

func common/intconv.ParseUint(s, bits) (r, err)
  arith exact
  requires bits == 8 || bits == 16 || bits == 32 || bits == 64
  hint pow2(8)
  hint pow2(16)
  hint pow2(32)
  hint pow2(64)
  ensures [range] err == nil ==> 0 <= r && r < pow2(bits)
  ensures [exact] ishexnum(s) && err == nil ==> r == hexnum(s)
  ensures [fits] ishexnum(s) && !hasneg(s) ==> iff(err == nil, hexnum(s) < pow2(bits))
  ensures [sign] hasneg(s) ==> err != nil

func (common.HexInt16).String(i) (r)
  ensures [value] ishexnum(r) && hexnum(r) == i.Value && canonhex(r)
func (common.HexUint16).String(i) (r)
  ensures [value] ishexnum(r) && hexnum(r) == i.Value && canonhex(r)
func (common.HexInt32).String(i) (r)
  ensures [value] ishexnum(r) && hexnum(r) == i.Value && canonhex(r)
func (common.HexUint32).String(i) (r)
  ensures [value] ishexnum(r) && hexnum(r) == i.Value && canonhex(r)
func (common.HexInt64).String(i) (r)
  ensures [value] ishexnum(r) && hexnum(r) == i.Value && canonhex(r)
func (common.HexUint64).String(i) (r)
  ensures [value] ishexnum(r) && hexnum(r) == i.Value && canonhex(r)
func (common.HexInt).String(i) (r)
  ensures [value] ishexnum(r) && hexnum(r) == i.Int && canonhex(r)
