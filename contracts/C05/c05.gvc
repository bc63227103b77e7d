property C05

extern fnvalue:[][]byte->[]byte(f, l) (r)
  note the tree's hash function: deterministic, never empty
  ensures len(l) == 1 ==> dt(r) == h1(f, dt(l[0]))
  ensures len(l) == 2 ==> dt(r) == h2(f, dt(l[0]), dt(l[1]))
  ensures len(r) > 0

func (*common/mbt.node).add(n, h) (r)
  optional
  requires n != nil && n.hashFunc != fnnil
  requires n.level == 0 || wf(n.hashFunc, *n, true)
  requires n.level == 0 ==> n.l == nil && n.r == nil
  modifies n
  ensures [wf] r != nil && wf(old(n.hashFunc), *r, true)
  ensures [level] old(n.level) == 0 ==> r.level == 1
  ensures [grow] old(n.level) >= 1 ==> r.level == old(n.level) + ite(old(n.numOfLeaf) == pow2(old(n.level) - 1), 1, 0)
  ensures [count] old(n.level) >= 1 ==> r.numOfLeaf == old(n.numOfLeaf) + 1
  ensures [leaf] old(n.level) == 0 ==> leaves(*r) == unit(dt(h))
  ensures [append] old(n.level) >= 1 ==> leaves(*r) == old(leaves(*n)) + unit(dt(h))

func (*common/mbt.node).lazyAdd(n, k, h) (r)
  optional
  requires n != nil && n.hashFunc != fnnil
  domain k == 1
  domain n.level == 0 || wf(n.hashFunc, *n, false)
  domain n.level == 0 ==> n.l == nil && n.r == nil
  modifies n
  ensures [wf] r != nil && wf(old(n.hashFunc), *r, false)
  ensures [level] old(n.level) == 0 ==> r.level == 1
  ensures [grow] old(n.level) >= 1 ==> r.level == old(n.level) + ite(old(n.numOfLeaf) == pow2(old(n.level) - 1), 1, 0)
  ensures [count] old(n.level) >= 1 ==> r.numOfLeaf == old(n.numOfLeaf) + 1
  ensures [leaf] old(n.level) == 0 ==> leaves(*r) == unit(dt(h))
  ensures [append] old(n.level) >= 1 ==> leaves(*r) == old(leaves(*n)) + unit(dt(h))

func (*common/mbt.node).ensureHash(n, force) ()
  optional
  requires n != nil && n.hashFunc != fnnil
  domain wf(n.hashFunc, *n, false)
  modifies n
  ensures [wf] wf(old(n.hashFunc), *n, true)
  ensures [same] leaves(*n) == old(leaves(*n)) && n.level == old(n.level) && n.numOfLeaf == old(n.numOfLeaf)

func (*common/mbt.node).path(n, num) (p)
  optional
  requires n != nil && n.hashFunc != fnnil
  requires wf(n.hashFunc, *n, true) && 1 <= num && num <= n.numOfLeaf
  ensures [fold] foldp(n.hashFunc, leaves(*n)[num-1], dt(p), len(p)) == dt(n.h)

func common/mbt.NewMerkleBinaryTree(f, cs) (m, err)
  ensures [ok] err == nil ==> m != nil && m.hashFunc == f && dt(m.contents) == dt(cs) && treeok(*m)
  loop (m *common/mbt.MerkleBinaryTree, i int) m.root != nil && building(f, *m.root, dt(cs), i)
  loop (root *common/mbt.node, i int) root != nil && building(f, *root, dt(cs), i)

func (*common/mbt.MerkleBinaryTree).Add(m, c) (err)
  requires m != nil && treeok(*m)
  modifies m
  ensures [ok] err == nil ==> treeok(*m) && m.hashFunc == old(m.hashFunc) && dt(m.contents) == old(dt(m.contents)) + unit(c)
  ensures [err] err != nil ==> *m == old(*m)
  ensures [accepts] c != nil ==> err == nil

func (*common/mbt.MerkleBinaryTree).Root(m) (r)
  requires m != nil && treeok(*m)
  ensures [root] len(m.contents) >= 1 ==> dt(r) == mroot(m.hashFunc, hleaves(m.hashFunc, dt(m.contents), len(m.contents)))
  ensures [empty] len(m.contents) == 0 ==> r == nil

func (*common/mbt.MerkleBinaryTree).Len(m) (r)
  requires m != nil
  ensures r == len(m.contents)

func (*common/mbt.MerkleBinaryTree).Get(m, num) (r, err)
  requires m != nil
  ensures [content] err == nil ==> 1 <= num && num <= len(m.contents) && r == m.contents[num-1]
  ensures [ok] 1 <= num && num <= len(m.contents) ==> err == nil

func (*common/mbt.MerkleBinaryTree).Path(m, num) (p, err)
  requires m != nil && treeok(*m)
  ensures [ok] iff(err == nil, 1 <= num && num <= len(m.contents))
  ensures [content] err == nil ==> p != nil && p.Content == m.contents[num-1] && p.hashFunc == m.hashFunc
  hint hleaves(m.hashFunc, dt(m.contents), len(m.contents))[num-1]
  ensures [root] err == nil ==> foldp(m.hashFunc, h1(m.hashFunc, dt(p.Content)), dt(p.Path), len(p.Path)) == mroot(m.hashFunc, hleaves(m.hashFunc, dt(m.contents), len(m.contents)))

func (*common/mbt.MerkleBinaryTreePath).Root(p) (r)
  requires p != nil && p.hashFunc != fnnil
  ensures [fold] dt(r) == foldp(p.hashFunc, h1(p.hashFunc, dt(p.Content)), dt(p.Path), len(p.Path))
  loop (h []byte, i int) i >= 0 && dt(h) == foldp(p.hashFunc, h1(p.hashFunc, dt(p.Content)), dt(p.Path), i)
