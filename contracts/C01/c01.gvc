property C01

func common/intconv.Int64ToBytes(v) (r)
  arith exact
  unroll 10
  ensures [value] sbe(r) == v
  ensures [shortest] smin(r)
  ensures [size] 1 <= len(r) && len(r) <= 8

func common/intconv.Uint64ToBytes(v) (r)
  arith exact
  unroll 11
  ensures [value] sbe(r) == v
  ensures [nonneg] r[0] < 128
  ensures [shortest] smin(r)
  ensures [size] 1 <= len(r) && len(r) <= 9

func common/intconv.SizeToBytes(v) (r)
  arith exact
  unroll 10
  ensures [value] be(r) == v
  ensures [shortest] len(r) == 1 || r[0] != 0
  ensures [size] 1 <= len(r) && len(r) <= 8

func common/intconv.BytesToInt64(bs) (r)
  arith exact
  unroll 10
  domain len(bs) <= 8
  ensures [value] r == sbe(bs)

func common/intconv.BytesToUint64(bs) (r)
  arith exact
  unroll 11
  domain len(bs) <= 8 || (len(bs) == 9 && bs[0] == 0)
  ensures [value] sbe(bs) >= 0 ==> r == sbe(bs)
  ensures [negative] sbe(bs) < 0 ==> r == sbe(bs) + p256(8)

func common/intconv.BytesToSize(bs) (r)
  arith exact
  unroll 10
  domain len(bs) <= 8
  ensures [value] r == be(bs)

func common/intconv.BigIntToBytes(i) (r)
  ensures [value] i != nil ==> sbe(r) == *i
  ensures [nil] i == nil ==> sbe(r) == 0 && len(r) == 1
  ensures [shortest] i != nil ==> len(r) == 1 || 2 * *i >= p256(len(r)-1) || 2 * *i < -p256(len(r)-1)

func common/intconv.BigIntSetBytes(i, bs) (r)
  requires i != nil
  modifies *i
  ensures [value] *i == sbe(bs)
  ensures [result] r == i
