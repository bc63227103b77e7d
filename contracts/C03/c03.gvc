property C03

extern io.ReadFull(r, b) (n, err)
  note a reader delivers the bytes it has and then reports the end
  modifies b, ghost_in
  ensures iff(err == nil, len(old(ghost_in)) >= len(b))
  ensures err == nil ==> n == len(b) && dt(b) == sub(old(ghost_in), 0, len(b)) && ghost_in == sub(old(ghost_in), len(b), len(old(ghost_in)))
  ensures err != nil ==> len(ghost_in) == 0

extern io.CopyN(w, r, n) (k, err)
  note only used to discard; a reader delivers the bytes it has and then reports the end
  modifies ghost_in
  ensures n >= 0 ==> iff(err == nil, len(old(ghost_in)) >= n)
  ensures n >= 0 && err == nil ==> ghost_in == sub(old(ghost_in), n, len(old(ghost_in)))
  ensures err != nil ==> len(ghost_in) == 0

extern io.LimitReader(r, n) (l)
  ensures limn(l) == n

extern io/ioutil.ReadAll(r) (b, err)
  note used on a LimitReader only: reads to the limit or to the end
  modifies ghost_in
  ensures err == nil && b != nil
  ensures limn(r) >= 0 && limn(r) <= len(old(ghost_in)) ==> dt(b) == sub(old(ghost_in), 0, limn(r)) && ghost_in == sub(old(ghost_in), limn(r), len(old(ghost_in)))
  ensures limn(r) > len(old(ghost_in)) ==> dt(b) == old(ghost_in) && len(ghost_in) == 0

extern common/errors.Wrapf(e, m, a) (r)
  ensures iff(r == nil, e == nil)
extern common/errors.Wrap(e, m) (r)
  ensures iff(r == nil, e == nil)
extern common/errors.WithStack(e) (r)
  ensures iff(r == nil, e == nil)

method (io.Writer).Write(w, b) (n, err)
  note the io.Writer convention: what it reports as written has been written, less than asked only with an error
  modifies ghost_out
  ensures 0 <= n && n <= len(b) && (err == nil ==> n == len(b))
  ensures ghost_out == old(ghost_out) + sub(dt(b), 0, n)

func (*common/codec.rlpReader).readAll(r, b) (err)
  optional
  ghost in
  requires r != nil
  modifies b, ghost_in
  ensures iff(err == nil, len(old(ghost_in)) >= len(b))
  ensures err == nil ==> dt(b) == sub(old(ghost_in), 0, len(b)) && ghost_in == sub(old(ghost_in), len(b), len(old(ghost_in)))

func (*common/codec.rlpReader).readSize(r, b) (n, err)
  optional
  arith exact
  ghost in
  requires r != nil && 1 <= len(b) && len(b) <= 8
  modifies b, ghost_in
  ensures iff(err == nil, len(old(ghost_in)) >= len(b) && be(sub(old(ghost_in), 0, len(b))) < 9223372036854775808)
  ensures err == nil ==> n == be(sub(old(ghost_in), 0, len(b))) && dt(b) == sub(old(ghost_in), 0, len(b)) && ghost_in == sub(old(ghost_in), len(b), len(old(ghost_in)))

func (*common/codec.rlpReader).readN(r, size) (b, err)
  optional
  ghost in
  requires r != nil && size >= 0
  modifies ghost_in
  ensures iff(err == nil, len(old(ghost_in)) >= size)
  ensures err == nil ==> b != nil && dt(b) == sub(old(ghost_in), 0, size) && ghost_in == sub(old(ghost_in), size, len(old(ghost_in)))

func (*common/codec.rlpReader).readMore(r, org, size) (b, err)
  optional
  ghost in
  requires r != nil && size >= 0
  modifies ghost_in
  ensures iff(err == nil, len(old(ghost_in)) >= size)
  ensures err == nil ==> dt(b) == dt(org) + sub(old(ghost_in), 0, size) && ghost_in == sub(old(ghost_in), size, len(old(ghost_in)))

func (*common/codec.rlpReader).skipN(r, size) (err)
  optional
  ghost in
  requires r != nil && size >= 0
  modifies ghost_in
  ensures iff(err == nil, len(old(ghost_in)) >= size)
  ensures err == nil ==> ghost_in == sub(old(ghost_in), size, len(old(ghost_in)))

func (*common/codec.rlpReader).ReadBytes(r) (b, err)
  ghost in
  requires r != nil
  modifies ghost_in
  let s = old(ghost_in)
  ensures [accept] iff(err == nil, whole(s) && tag(s) < 192)
  ensures [value] err == nil ==> b != nil && dt(b) == sub(s, hk(s), hk(s) + pl(s)) && ghost_in == sub(s, hk(s) + pl(s), len(s))
  ensures [null] isnull(s) ==> err == global("common/codec.ErrNilValue") && b == nil && ghost_in == sub(s, 2, len(s))

func (*common/codec.rlpReader).ReadRaw(r) (b, err)
  ghost in
  requires r != nil
  modifies ghost_in
  let s = old(ghost_in)
  ensures [accept] iff(err == nil, whole(s))
  ensures [value] err == nil ==> dt(b) == sub(s, 0, hk(s) + pl(s)) && ghost_in == sub(s, hk(s) + pl(s), len(s))

func (*common/codec.rlpReader).skipOne(r) (err)
  optional
  ghost in
  requires r != nil
  modifies ghost_in
  let s = old(ghost_in)
  ensures [accept] iff(err == nil, whole(s))
  ensures [value] err == nil ==> ghost_in == sub(s, hk(s) + pl(s), len(s))

func (*common/codec.rlpReader).ReadList(r) (l, err)
  ghost in
  requires r != nil
  modifies ghost_in
  let s = old(ghost_in)
  ensures [null] isnull(s) ==> err == global("common/codec.ErrNilValue") && ghost_in == sub(s, 2, len(s))
  ensures [accept] !isnull(s) ==> iff(err == nil, headed(s) && tag(s) >= 192)
  ensures [value] err == nil ==> ghost_in == sub(s, hk(s), len(s)) && is(l, "*common/codec.rlpReader")
  ensures [limit] err == nil ==> is(as(l, "*common/codec.rlpReader").reader, "*common/codec.listReader") && as(as(l, "*common/codec.rlpReader").reader, "*common/codec.listReader").LimitedReader.N == pl(s)

func (*common/codec.rlpWriter).writeAll(w, b) (err)
  optional
  ghost out
  requires w != nil && w.writer != nil
  modifies ghost_out
  ensures err == nil ==> ghost_out == old(ghost_out) + dt(b)
  loop (i int) 0 <= i && i <= len(b) && ghost_out == old(ghost_out) + sub(dt(b), 0, i)

func (*common/codec.rlpWriter).WriteBytes(w, b) (err)
  ghost out
  requires w != nil && w.writer != nil
  modifies w, ghost_out
  let e = sub(ghost_out, len(old(ghost_out)), len(ghost_out))
  ensures [prefix] err == nil ==> len(ghost_out) >= len(old(ghost_out)) && sub(ghost_out, 0, len(old(ghost_out))) == old(ghost_out)
  ensures [null] err == nil && b == nil ==> isnull(e) && len(e) == 2
  ensures [item] err == nil && b != nil ==> isbytesitem(e, dt(b))

func (*common/codec.rlpWriter).writeList(w, b) (err)
  optional
  ghost out
  requires w != nil && w.writer != nil
  modifies ghost_out
  let e = sub(ghost_out, len(old(ghost_out)), len(ghost_out))
  ensures [prefix] err == nil ==> len(ghost_out) >= len(old(ghost_out)) && sub(ghost_out, 0, len(old(ghost_out))) == old(ghost_out)
  ensures [item] err == nil ==> isitem(192, e, dt(b))

func (*common/codec.rlpWriter).WriteNull(w) (err)
  ghost out
  requires w != nil && w.writer != nil
  modifies w, ghost_out
  ensures [null] err == nil ==> ghost_out == old(ghost_out) + unit(248) + unit(0)

func (*common/codec.rlpWriter).WriteRaw(w, b) (err)
  ghost out
  requires w != nil && w.writer != nil
  modifies w, ghost_out
  ensures [raw] err == nil ==> ghost_out == old(ghost_out) + dt(b)

extern (*bytes.Buffer).Bytes(b) (r)
  note the content of a list under construction
  ensures dt(r) == bufbytes(*b)

func (*common/codec.rlpWriter).Close(w) (err)
  ghost out
  requires w != nil && (w.parent != nil ==> w.parent.buffer != nil && w.parent.writer != nil && w.parent.writer.writer != nil)
  modifies w, ghost_out
  let e = sub(ghost_out, len(old(ghost_out)), len(ghost_out))
  ensures [top] old(w.parent) == nil ==> err == nil && ghost_out == old(ghost_out)
  ensures [prefix] err == nil ==> len(ghost_out) >= len(old(ghost_out)) && sub(ghost_out, 0, len(old(ghost_out))) == old(ghost_out)
  ensures [list] err == nil && old(w.parent) != nil ==> isitem(192, e, bufbytes(*old(w.parent).buffer)) && w.parent == nil
  ensures [pairs] old(w.parent) != nil && old(w.parent).isMap && old(w.parent).cnt % 2 != 0 ==> err != nil

extern (*io.LimitedReader).Read(l, p) (n, err)
  modifies l, p

func (*common/codec.listReader).Read(l, p) (n, err)
  optional
  requires l != nil
  modifies l, p
  ensures [ends] err == global("io.EOF") ==> l.LimitedReader.N <= 0
