property C07

extern common/crypto.SHA3Sum256(b) (r)
  note the hash function
  ensures r != nil && dt(r) == sha3(dt(b))
extern common/errors.New(m) (r)
  note an error value
  ensures r != nil
extern common/errors.Wrap(e, m) (r)
  ensures iff(r == nil, e == nil)
extern common/errors.Wrapf(e, m, a) (r)
  ensures iff(r == nil, e == nil)
extern (common/errors.Code).New(c, m) (r)
  note an error value
  ensures r != nil
method (common/mta.Node).Hash(n) (r)
  requires wfn(n)
  ensures r != nil && dt(r) == nhash(n)
method (common/db.Bucket).Get(b, k) (r, err)
  note what is stored under a hash is the text of that hash
  ensures err == nil && len(r) == 64 ==> dt(r) == pre(dt(k)) && sha3(dt(r)) == dt(k)

func (*common/mta.hashNode).Hash(n) (r)
  domain n != nil
  ensures [value] dt(r) == dt(n.hashValue)
func (*common/mta.branchNode).Hash(n) (r)
  domain n != nil && bok(*n)
  modifies n
  ensures [value] r != nil && dt(r) == old(kids(*n))
  ensures [kept] bok(*n) && n.left == old(n.left) && n.right == old(n.right)
func (*common/mta.dataNode).Hash(n) (r)
  domain n != nil && dok(*n)
  modifies n
  ensures [value] dt(r) == sha3(dt(old(n.data)))
  ensures [kept] dok(*n) && n.data == old(n.data)

func (*common/mta.Accumulator).Verify(a, ws, h) (err)
  requires a != nil
  domain len(h) == 32 && wok(dt(ws), len(ws)) && rok(dt(a.roots), len(a.roots))
  ensures [value] iff(err == nil, len(ws) < len(a.roots) && a.roots[len(ws)] != nil && nhash(a.roots[len(ws)]) == fold(dt(ws), len(ws), dt(h)))
  fuel 1
  loop (b []byte) len(b) == 64
  loop (i int, g []byte) len(g) == 32 && dt(g) == fold(dt(ws), i, dt(h))

method (common/mta.Node).WitnessFor(n, d, i, w) (m, ws, err)
  requires wfn(n)
  ensures err == nil && 0 <= d && d <= 62 ==> m != nil && wfn(m) && nhash(m) == nhash(n)
  ensures err == nil && 0 <= d && d <= 62 ==> len(ws) == len(w) + d && sub(dt(ws), 0, len(w)) == dt(w)
  ensures err == nil && 0 <= d && d <= 62 && len(w) == 0 ==> wok(dt(ws), len(ws)) && fold(dt(ws), len(ws), leafh(nhash(n), d, i)) == nhash(n)
func (*common/mta.branchNode).WitnessFor(n, d, i, w) (m, ws, err)
  requires n != nil
  domain bok(*n) && 0 <= d && d <= 62
  modifies n
  let h = old(kids(*n))
  ensures [node] err == nil ==> m != nil && wfn(m) && nhash(m) == h
  ensures [len] err == nil ==> len(ws) == len(w) + d && sub(dt(ws), 0, len(w)) == dt(w)
  ensures [witness] err == nil && len(w) == 0 ==> wok(dt(ws), len(ws)) && fold(dt(ws), len(ws), leafh(h, d, i)) == h
func (*common/mta.hashNode).WitnessFor(n, d, i, w) (m, ws, err)
  requires n != nil && n.bucket != nil
  domain len(n.hashValue) == 32 && 0 <= d && d <= 62
  let h = dt(n.hashValue)
  ensures [node] err == nil ==> m != nil && wfn(m) && nhash(m) == h
  ensures [len] err == nil ==> len(ws) == len(w) + d && sub(dt(ws), 0, len(w)) == dt(w)
  ensures [witness] err == nil && len(w) == 0 ==> wok(dt(ws), len(ws)) && fold(dt(ws), len(ws), leafh(h, d, i)) == h
func (*common/mta.hashNode).resolve(n) (m, err)
  optional
  requires n != nil && n.bucket != nil
  domain len(n.hashValue) == 32
  ensures err == nil ==> m != nil && wfn(m) && nhash(m) == dt(n.hashValue)
func (*common/mta.dataNode).WitnessFor(n, d, i, w) (m, ws, err)
  requires n != nil
  domain dok(*n) && 0 <= d && d <= 62
  let h = sha3(dt(n.data))
  ensures [node] err == nil ==> m != nil && wfn(m) && nhash(m) == h
  ensures [len] err == nil ==> len(ws) == len(w) + d && sub(dt(ws), 0, len(w)) == dt(w)
  ensures [witness] err == nil && len(w) == 0 ==> wok(dt(ws), len(ws)) && fold(dt(ws), len(ws), leafh(h, d, i)) == h

func (*common/mta.Accumulator).addNode(a, h, n, w) (ws)
  optional
  fuel 1
  requires a != nil && n != nil && 0 <= h
  domain fold(dt(w), len(w), ghost_leaf) == nhash(n) && h <= len(a.roots) && wfn(n) && rok(dt(a.roots), len(a.roots)) && wok(dt(w), len(w))
  modifies a
  let k = h + len(ws) - len(w)
  ensures [count] a.length == old(a.length) + 1
  ensures [slot] len(ws) >= len(w) && k == slot(dt(old(a.roots)), h) && len(a.roots) == ite(k == len(old(a.roots)), k + 1, len(old(a.roots)))
  ensures [below] sub(dt(a.roots), 0, h) == sub(dt(old(a.roots)), 0, h) && gone(dt(a.roots), h, k)
  ensures [above] k < ghost_j && ghost_j < len(old(a.roots)) ==> a.roots[ghost_j] == old(a.roots)[ghost_j]
  ensures [sound] rok(dt(a.roots), len(a.roots)) && wok(dt(ws), len(ws)) && sub(dt(ws), 0, len(w)) == dt(w)
  ensures [root] a.roots[k] != nil && nhash(a.roots[k]) == fold(dt(ws), len(ws), ghost_leaf)
func (*common/mta.Accumulator).AddNode(a, n) (ws)
  fuel 1
  requires a != nil && n != nil
  domain ghost_leaf == nhash(n) && wfn(n) && rok(dt(a.roots), len(a.roots))
  modifies a
  ensures [count] a.length == old(a.length) + 1
  ensures [slot] len(ws) == slot(dt(old(a.roots)), 0) && len(a.roots) == ite(len(ws) == len(old(a.roots)), len(ws) + 1, len(old(a.roots)))
  ensures [below] gone(dt(a.roots), 0, len(ws))
  ensures [above] len(ws) < ghost_j && ghost_j < len(old(a.roots)) ==> a.roots[ghost_j] == old(a.roots)[ghost_j]
  ensures [sound] rok(dt(a.roots), len(a.roots)) && wok(dt(ws), len(ws))
  ensures [root] a.roots[len(ws)] != nil && nhash(a.roots[len(ws)]) == fold(dt(ws), len(ws), ghost_leaf)
func (*common/mta.Accumulator).AddHash(a, h) (ws)
  fuel 1
  requires a != nil
  domain ghost_leaf == dt(h) && len(h) == 32 && rok(dt(a.roots), len(a.roots))
  modifies a
  ensures [count] a.length == old(a.length) + 1
  ensures [witness] len(ws) < len(a.roots) && a.roots[len(ws)] != nil && nhash(a.roots[len(ws)]) == fold(dt(ws), len(ws), dt(h))
func (*common/mta.Accumulator).AddData(a, d) (ws)
  fuel 1
  requires a != nil
  domain ghost_leaf == sha3(dt(d)) && rok(dt(a.roots), len(a.roots))
  modifies a
  ensures [count] a.length == old(a.length) + 1
  ensures [witness] len(ws) < len(a.roots) && a.roots[len(ws)] != nil && nhash(a.roots[len(ws)]) == fold(dt(ws), len(ws), sha3(dt(d)))

func (*common/mta.Accumulator).WitnessFor(a, i) (w, err)
  fuel 1
  requires a != nil
  domain len(a.roots) <= 62 && rok(dt(a.roots), len(a.roots))
  modifies a
  let r = dt(old(a.roots))
  ensures [refused] i < 0 || i >= old(a.length) ==> err != nil
  ensures [tree] err == nil ==> len(w) == tree(r, len(old(a.roots)), i)
  ensures [root] err == nil ==> 0 <= len(w) && len(w) < len(a.roots) && len(a.roots) == len(old(a.roots)) && a.roots[len(w)] != nil && nhash(a.roots[len(w)]) == nhash(r[len(w)])
  ensures [witness] err == nil ==> wok(dt(w), len(w)) && fold(dt(w), len(w), leaf(r, len(old(a.roots)), i)) == nhash(r[len(w)])
  ensures [others] err == nil && ghost_j != len(w) && 0 <= ghost_j && ghost_j < len(old(a.roots)) ==> a.roots[ghost_j] == old(a.roots)[ghost_j]
  loop (o int, x int64) 0 <= o && o <= len(old(a.roots)) && tree(dt(old(a.roots)), o, x) == tree(dt(old(a.roots)), len(old(a.roots)), i) && leaf(dt(old(a.roots)), o, x) == leaf(dt(old(a.roots)), len(old(a.roots)), i)

func common/mta.WitnessesToHashes(w) (r)
  ensures [value] len(r) == len(w) && hashesof(dt(w), dt(r), len(w))
  loop (n int, q [][]byte) len(q) == len(w) && hashesof(dt(w), dt(q), n)
func common/mta.HashesToWitness(hs, i) (r)
  domain i >= 0
  ensures [hashes] len(r) == len(hs) && hashesof(dt(r), dt(hs), len(hs))
  ensures [dirs] dirs(dt(r), len(hs), i)
  loop (n int, q []common/mta.Witness) len(q) == len(hs) && hashesof(dt(q), dt(hs), n) && dirs(dt(q), n, i)
  loop (n int, x int64) x == div(i, pow2(n)) && x >= 0

extern common/mta.GetHeightFromWitness(ws, n) (r)
  note the index a witness claims (bit operations; bounded check in the harness)
  ensures r == hfw(dt(ws), n)
extern common/mta.GetDepthByHeightAndAccLength(i, n) (r)
  note the height of the tree of a leaf (bit operations; bounded check in the harness)
  ensures r >= 0
func (*common/mta.Accumulator).VerifyWithAccLength(a, ws, h, n) (err)
  fuel 1
  requires a != nil
  domain len(a.roots) <= 62 && len(h) == 32 && wok(dt(ws), len(ws)) && rok(dt(a.roots), len(a.roots)) && a.length >= 0
  modifies a
  ensures [same] old(a.length) == n ==> iff(err == nil, len(ws) < len(old(a.roots)) && old(a.roots)[len(ws)] != nil && nhash(old(a.roots)[len(ws)]) == fold(dt(ws), len(ws), dt(h)))
  ensures [newer] old(a.length) != n && (hfw(dt(ws), n) < 0 || hfw(dt(ws), n) >= old(a.length)) ==> err != nil
