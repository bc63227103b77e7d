property C06

extern fnvalue:[][]byte->[]byte(f, l) (r)
  note the tree's hash function: deterministic, never empty
  ensures len(l) == 1 ==> dt(r) == h1(f, dt(l[0]))
  ensures len(l) == 2 ==> dt(r) == h2(f, dt(l[0]), dt(l[1]))
  ensures len(r) > 0

func common/mbt.NumberToLevel(n) (r)
  optional
  domain n >= 0
  ensures [level] r == ntl(n)
  loop (m int, l int) m >= 0 && ntl(n) == l + bits(m)

func (*common/mbt.node).lazyAdd(n, k, h) (r)
  optional
  requires n != nil && k >= 1
  domain okn(n.hashFunc, *n) && len(h) >= 1
  modifies n
  ensures [shape] r != nil && ps(old(n.hashFunc), *r, false)
  ensures [nums] nums(*r) == old(nums(*n)) + unit(k)
  ensures [vals] vals(*r) == old(vals(*n)) + unit(dt(h))
  ensures [count] r.numOfLeaf == old(n.numOfLeaf) + k

func (*common/mbt.node).ensureHash(n, force) ()
  optional
  requires n != nil && n.hashFunc != fnnil
  domain okn(n.hashFunc, *n) && !force
  modifies n
  ensures [shape] old(n.level) >= 1 ==> ps(old(n.hashFunc), *n, true)
  ensures [same] nums(*n) == old(nums(*n)) && vals(*n) == old(vals(*n)) && n.level == old(n.level) && n.numOfLeaf == old(n.numOfLeaf) && n.hashFunc == old(n.hashFunc)
  ensures [same0] old(n.level) == 0 ==> *n == old(*n)

func (*common/mbt.node).verify(n) (err)
  optional
  requires n != nil
  requires ps(n.hashFunc, *n, true) || (n.level == 0 && n.l == nil)
  ensures [verified] n.level >= 1 ==> iff(err == nil, vs(*n))

func (*common/mbt.MerkleBinaryTreeProof).Root(p) (h, left, total, err)
  requires p != nil && p.hashFunc != fnnil
  ensures [sound] err == nil && total == len(truth) && dt(h) == mroot(p.hashFunc, truth) && 0 <= jj && jj < len(p.Contents) ==> left + jj < len(truth) && h1(p.hashFunc, dt(p.Contents[jj])) == truth[left+jj]
  ensures [left] err == nil ==> left >= 0 && left + len(p.Contents) <= total
  loop (r *common/mbt.node) r != nil && okn(p.hashFunc, *r)
  loop (r *common/mbt.node, left int) r.numOfLeaf == left
  loop (r *common/mbt.node, left outer, total int) r.numOfLeaf == left + total
  loop (r *common/mbt.node, i int) i >= 0 && nums(*r) == numsL(dt(p.ProofInLeft), i) && vals(*r) == valsL(dt(p.ProofInLeft), i)
  loop (r *common/mbt.node, i int) i >= 0 && nums(*r) == numsL(dt(p.ProofInLeft), len(p.ProofInLeft)) + ones(i) && vals(*r) == valsL(dt(p.ProofInLeft), len(p.ProofInLeft)) + hleaves(p.hashFunc, dt(p.Contents), i)
  loop (r *common/mbt.node, i int) i >= 0 && nums(*r) == numsL(dt(p.ProofInLeft), len(p.ProofInLeft)) + ones(len(p.Contents)) + numsL(dt(p.ProofInRight), i) && vals(*r) == valsL(dt(p.ProofInLeft), len(p.ProofInLeft)) + hleaves(p.hashFunc, dt(p.Contents), len(p.Contents)) + valsL(dt(p.ProofInRight), i)
  loop (left int, i int) i >= 0 && left >= i && left == sum(numsL(dt(p.ProofInLeft), i), i)
  loop (i int) i >= 0 && pnok(dt(p.ProofInLeft), i)
  loop (i int) i >= 0 && pnok(dt(p.ProofInRight), i)
