property C08
ignore common/mpt.MptLink.ptr

method (common/codec.Decoder).Decode(d, p) (err)
  note the list of byte strings of the encoded node (C03)
  modifies p
  ensures is(p, "*[][]byte") && err == nil ==> dt(*as(p, "*[][]byte")) == rlpl(ghost_enc)
  ensures is(p, "*[][]byte") ==> iff(err == nil, rlpok(ghost_enc))

func (*common/mpt.MptHeader).IsLeaf(h) (r)
  requires h != nil
  ensures iff(r, mod(div(h.Prefix, 32), 2) == 1)

func (*common/mpt.MptNode).RLPDecodeSelf(n, d) (err)
  requires n != nil && d != nil
  modifies n
  let l = rlpl(ghost_enc)
  ensures [accepts] iff(err == nil, nodeok(ghost_enc))
  domain n.Header == nil
  ensures [content] err == nil ==> node(*n, l)
  loop (i int, q []*common/mpt.MptLink) links(dt(q), rlpl(ghost_enc), i)
  loop (q []*common/mpt.MptLink) len(q) == 16

extern (common/codec.bytesWrapper).UnmarshalFromBytes(c, b, v) (rest, err)
  note decodes with RLPDecodeSelf of the value: the node is the one whose content the contract of RLPDecodeSelf describes
  modifies v
  ensures is(v, "*common/mpt.MptNode") ==> iff(err == nil, decodes(dt(b)))
  ensures is(v, "*common/mpt.MptNode") && err == nil ==> *as(v, "*common/mpt.MptNode") == nodeof(dt(b)) && nwf(nodeof(dt(b)))
extern common/crypto.SHA3Sum256(b) (r)
  note the hash function
  ensures dt(r) == sha3(dt(b))

func common/mpt.NewMptProof(bl) (mp, err)
  fuel 1
  ensures [accepts] iff(err == nil, proof(dt(bl)))
  ensures [nodes] err == nil ==> mp != nil && len(mp.Nodes) == len(bl) && len(mp.Hashes) == len(bl) && nodes(dt(mp.Nodes), dt(bl), len(bl)) && hashes(dt(mp.Hashes), dt(bl), len(bl))
  loop (q []common/mpt.MptNode, i int) nodes(dt(q), dt(bl), i)
  loop (h [][]byte, i int) hashes(dt(h), dt(bl), i)
  loop (q []common/mpt.MptNode) len(q) == len(bl)
  loop (h [][]byte) len(h) == len(bl)
  loop (i int) oks(dt(bl), i) && allwf(dt(bl), i)
  loop (i int) i < len(bl) ==> linked(dt(bl), i)
  loop (i int) i == len(bl) ==> linked(dt(bl), i-1) && (i == 0 || nleaf(nodeof(at(dt(bl), i-1))))
  loop (k int, j outer) !among(dt(nodeof(at(dt(bl), j)).Link), k, sha3(at(dt(bl), j+1)))

func (*common/mpt.MptProof).Leaf(mp) (n)
  requires mp != nil && len(mp.Nodes) > 0
  ensures [last] n != nil && *n == mp.Nodes[len(mp.Nodes)-1]
