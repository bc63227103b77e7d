property C15

extern common/errors.New(m) (r)
  note an error value
  ensures r != nil
extern common/errors.Errorf(m, a) (r)
  note an error value
  ensures r != nil
method (common/db.Bucket).Get(b, k) (v, err)
  note the store below the layer
  ensures err == nil && dt(k) == ghost_k ==> iff(v != nil, ghost_has) && (ghost_has ==> dt(v) == ghost_val)
method (common/db.Bucket).Has(b, k) (r)
  note the store below the layer
  ensures dt(k) == ghost_k ==> r == ghost_has
method (common/db.Bucket).Set(b, k, v) (err)
  note the store below the layer
  modifies ghost_has, ghost_val
  ensures err == nil && dt(k) == ghost_k ==> ghost_has && ghost_val == dt(v)
  ensures err != nil || dt(k) != ghost_k ==> ghost_has == old(ghost_has) && ghost_val == old(ghost_val)
method (common/db.Bucket).Delete(b, k) (err)
  note the store below the layer
  modifies ghost_has, ghost_val
  ensures err == nil && dt(k) == ghost_k ==> !ghost_has
  ensures err != nil || dt(k) != ghost_k ==> ghost_has == old(ghost_has)
  ensures ghost_val == old(ghost_val)

func (*common/db.mapBucket).Get(t, k) (v, err)
  requires t != nil
  modifies t
  ensures [value] err == nil && iff(v != nil, has(t.real, dt(k))) && (v != nil ==> dt(v) == mget(t.real, dt(k)))
  ensures [kept] t.real == old(t.real)
func (*common/db.mapBucket).Has(t, k) (r)
  requires t != nil
  modifies t
  ensures [value] r == has(t.real, dt(k)) && t.real == old(t.real)
func (*common/db.mapBucket).Set(t, k, v) (err)
  requires t != nil && t.real != nil
  modifies t
  ensures [value] err == nil ==> has(t.real, dt(k)) && mget(t.real, dt(k)) == dt(v)
  ensures [accepted] len(k) > 0 ==> err == nil
  ensures [others] dt(k) != ghost_k ==> has(t.real, ghost_k) == has(old(t.real), ghost_k) && get(t.real, ghost_k) == get(old(t.real), ghost_k)
  ensures [refused] err != nil ==> t.real == old(t.real)
func (*common/db.mapBucket).Delete(t, k) (err)
  requires t != nil && t.real != nil
  modifies t
  ensures [value] err == nil && !has(t.real, dt(k))
  ensures [others] dt(k) != ghost_k ==> has(t.real, ghost_k) == has(old(t.real), ghost_k) && get(t.real, ghost_k) == get(old(t.real), ghost_k)

func (*common/db.layerBucket).Get(b, k) (v, err)
  requires b != nil && b.real != nil
  modifies b
  ensures [value] err == nil && dt(k) == ghost_k ==> iff(v != nil, shas(b.data, ghost_k, ghost_has)) && (v != nil ==> dt(v) == sval(b.data, ghost_k, ghost_val))
  ensures [own] own(b.data, dt(k)) ==> err == nil
  ensures [kept] b.data == old(b.data) && b.real == old(b.real)
func (*common/db.layerBucket).Has(b, k) (r)
  requires b != nil && b.real != nil
  modifies b
  ensures [value] dt(k) == ghost_k ==> r == shas(b.data, ghost_k, ghost_has)
  ensures [kept] b.data == old(b.data) && b.real == old(b.real)
func (*common/db.layerBucket).Set(b, k, v) (err)
  requires b != nil && b.real != nil
  modifies b, ghost_has, ghost_val
  ensures [value] err == nil && dt(k) == ghost_k ==> shas(b.data, ghost_k, ghost_has) && sval(b.data, ghost_k, ghost_val) == dt(v)
  ensures [others] err != nil || dt(k) != ghost_k ==> shas(b.data, ghost_k, ghost_has) == shas(old(b.data), ghost_k, old(ghost_has)) && sval(b.data, ghost_k, ghost_val) == sval(old(b.data), ghost_k, old(ghost_val))
  ensures [apart] old(b.data) != nil ==> ghost_has == old(ghost_has) && ghost_val == old(ghost_val) && b.data != nil
  ensures [null] v == nil ==> err != nil
  ensures [accepted] v != nil && old(b.data) != nil ==> err == nil
  ensures [real] b.real == old(b.real) && iff(b.data == nil, old(b.data) == nil)
func (*common/db.layerBucket).Delete(b, k) (err)
  requires b != nil && b.real != nil
  modifies b, ghost_has, ghost_val
  ensures [value] err == nil && dt(k) == ghost_k ==> !shas(b.data, ghost_k, ghost_has)
  ensures [others] err != nil || dt(k) != ghost_k ==> shas(b.data, ghost_k, ghost_has) == shas(old(b.data), ghost_k, old(ghost_has)) && sval(b.data, ghost_k, ghost_val) == sval(old(b.data), ghost_k, old(ghost_val))
  ensures [apart] old(b.data) != nil ==> err == nil && ghost_has == old(ghost_has) && ghost_val == old(ghost_val) && b.data != nil
  ensures [real] b.real == old(b.real) && iff(b.data == nil, old(b.data) == nil)
func (*common/db.layerBucket).Flush(b, write) (err)
  requires b != nil && b.real != nil
  modifies b, ghost_has, ghost_val
  ensures [written] err == nil && write ==> b.data == nil && ghost_has == shas(old(b.data), ghost_k, old(ghost_has)) && (ghost_has ==> ghost_val == sval(old(b.data), ghost_k, old(ghost_val)))
  ensures [dropped] !write ==> err == nil && b.data == nil && ghost_has == old(ghost_has) && ghost_val == old(ghost_val)
  ensures [failed] err != nil ==> shas(b.data, ghost_k, ghost_has) == shas(old(b.data), ghost_k, old(ghost_has)) && (shas(b.data, ghost_k, ghost_has) ==> sval(b.data, ghost_k, ghost_val) == sval(old(b.data), ghost_k, old(ghost_val)))
  ensures [real] b.real == old(b.real)
  loop (i int, q keys) i >= 0 && i <= len(q)
  loop (i int, q keys) ghost_has == ite(seen(q, i, ghost_k), shas(old(b.data), ghost_k, old(ghost_has)), old(ghost_has))
  loop (i int, q keys) ghost_has ==> ghost_val == ite(seen(q, i, ghost_k), sval(old(b.data), ghost_k, old(ghost_val)), old(ghost_val))
  loop (i int, q keys) seen(q, i, ghost_k) ==> own(old(b.data), ghost_k)

func common/db.internalKey(id, k) (r)
  optional
  domain len(id) < 1099511627776 && len(k) < 1099511627776
  ensures [value] dt(r) == dt(id) + dt(k)
extern (*github.com/syndtr/goleveldb/leveldb.DB).Get(d, k, o) (v, err)
  note goleveldb: the value of a key, ErrNotFound when it has none
  ensures dt(k) == ghost_k && err == nil ==> ghost_has && v != nil && dt(v) == ghost_val
  ensures dt(k) == ghost_k && err == global("github.com/syndtr/goleveldb/leveldb.ErrNotFound") ==> !ghost_has
extern (*github.com/syndtr/goleveldb/leveldb.DB).Has(d, k, o) (r, err)
  note goleveldb
  ensures dt(k) == ghost_k && err == nil ==> r == ghost_has
  ensures err != nil ==> ghost_fail
extern (*github.com/syndtr/goleveldb/leveldb.DB).Put(d, k, v, o) (err)
  note goleveldb
  modifies ghost_has, ghost_val
  ensures err == nil && dt(k) == ghost_k ==> ghost_has && ghost_val == dt(v)
  ensures err != nil || dt(k) != ghost_k ==> ghost_has == old(ghost_has) && ghost_val == old(ghost_val)
extern (*github.com/syndtr/goleveldb/leveldb.DB).Delete(d, k, o) (err)
  note goleveldb
  modifies ghost_has, ghost_val
  ensures err == nil && dt(k) == ghost_k ==> !ghost_has
  ensures err != nil || dt(k) != ghost_k ==> ghost_has == old(ghost_has) && ghost_val == old(ghost_val)
func (*common/db.goLevelBucket).Get(b, k) (v, err)
  requires b != nil && b.db != nil
  domain len(b.id) < 1099511627776 && len(k) < 1099511627776
  ensures [value] err == nil && dt(b.id) + dt(k) == ghost_k ==> iff(v != nil, ghost_has) && (ghost_has ==> dt(v) == ghost_val)
func (*common/db.goLevelBucket).Set(b, k, v) (err)
  requires b != nil && b.db != nil
  domain len(b.id) < 1099511627776 && len(k) < 1099511627776
  modifies ghost_has, ghost_val
  ensures [value] err == nil && dt(b.id) + dt(k) == ghost_k ==> ghost_has && ghost_val == dt(v)
  ensures [others] err != nil || dt(b.id) + dt(k) != ghost_k ==> ghost_has == old(ghost_has) && ghost_val == old(ghost_val)
func (*common/db.goLevelBucket).Delete(b, k) (err)
  requires b != nil && b.db != nil
  domain len(b.id) < 1099511627776 && len(k) < 1099511627776
  modifies ghost_has, ghost_val
  ensures [value] err == nil && dt(b.id) + dt(k) == ghost_k ==> !ghost_has
  ensures [others] err != nil || dt(b.id) + dt(k) != ghost_k ==> ghost_has == old(ghost_has) && ghost_val == old(ghost_val)
func (*common/db.goLevelBucket).Has(b, k) (r)
  requires b != nil && b.db != nil
  domain len(b.id) < 1099511627776 && len(k) < 1099511627776
  ensures [value] dt(b.id) + dt(k) == ghost_k && r ==> ghost_has
  ensures [found] dt(b.id) + dt(k) == ghost_k && ghost_has && !ghost_fail ==> r
method (common/db.Database).GetBucket(d, id) (r, err)
  note the database below the layer
  ensures err == nil ==> r != nil
func (*common/db.layerDB).GetBucket(l, id) (b, err)
  requires l != nil && l.real != nil && l.buckets != nil
  modifies l
  ensures [same] has(old(l.buckets), dt(id)) ==> err == nil && l.buckets == old(l.buckets)
  ensures [layer] err == nil && !old(l.flushed) && !has(old(l.buckets), dt(id)) ==> is(b, "*common/db.layerBucket") && has(l.buckets, dt(id))
  ensures [fresh] err == nil && !old(l.flushed) && !has(old(l.buckets), dt(id)) ==> as(b, "*common/db.layerBucket").data != nil && as(b, "*common/db.layerBucket").real != nil && !has(as(b, "*common/db.layerBucket").data, ghost_k)
  ensures [kept] l.flushed == old(l.flushed) && l.real == old(l.real)
