//overlay: common/mbt
package mbt

import (
	"bytes"
	"fmt"
	"testing"
)

func vfHashes(f HashFunc, cs [][]byte) [][]byte {
	var hs [][]byte
	for _, c := range cs {
		hs = append(hs, f(c))
	}
	return hs
}
func vfRoot(f HashFunc, hs [][]byte) []byte {
	if len(hs) == 1 {
		return hs[0]
	}
	k := 1
	for 2*k < len(hs) {
		k *= 2
	}
	return f(vfRoot(f, hs[:k]), vfRoot(f, hs[k:]))
}

// vfJudge: an accepted proof for the true root and the true total must carry the true contents at its position.
func vfJudge(t *testing.T, what string, p *MerkleBinaryTreeProof, root []byte, cs [][]byte) {
	vfNoPanic(t, what, func() {
		h, left, total, err := p.Root()
		if err != nil || !bytes.Equal(h, root) || total != len(cs) {
			return
		}
		if left < 0 || left+len(p.Contents) > len(cs) {
			vfFail(t, "%s: accepted at position %d with %d contents of %d", what, left, len(p.Contents), len(cs))
		}
		for i, c := range p.Contents {
			if !bytes.Equal(c, cs[left+i]) {
				vfFail(t, "%s: accepted content %d is %x, the tree has %x there", what, left+i, c, cs[left+i])
			}
		}
	})
}

func TestVerifProof(t *testing.T) {
	r := vfRand()
	f := HashFuncByUID("eth")
	max := vfN(36, 70)
	for n := 1; n <= max; n++ {
		var cs [][]byte
		for i := 0; i < n; i++ {
			cs = append(cs, []byte(fmt.Sprintf("message %d", i*i)))
		}
		m, err := NewMerkleBinaryTree(f, cs)
		if err != nil {
			vfFail(t, "%v", err)
		}
		hs := vfHashes(f, cs)
		root := vfRoot(f, hs)
		for b := -1; b <= n+1; b++ {
			for e := -1; e <= n+1; e++ {
				vfCase(t)
				what := fmt.Sprintf("contents %d..%d of %d", b, e, n)
				vfNoPanic(t, what, func() {
					p, err := m.Proof(b, e)
					if (err == nil) != (1 <= b && b <= e && e <= n) {
						vfFail(t, "Proof of %s: %v", what, err)
					}
					if err != nil {
						return
					}
					if len(p.Contents) != e-b+1 {
						vfFail(t, "Proof of %s has %d contents", what, len(p.Contents))
					}
					for i, c := range p.Contents {
						if !bytes.Equal(c, cs[b-1+i]) {
							vfFail(t, "Proof of %s: content %d is %q", what, i, c)
						}
					}
					h, left, total, err := p.Root()
					if err != nil || !bytes.Equal(h, root) || left != b-1 || total != n {
						vfFail(t, "Proof of %s: Root() = %x, %d, %d, %v; want %x, %d, %d", what, h, left, total, err, root, b-1, n)
					}
				})
				if b < 1 || e > n || b > e {
					continue
				}
				if n <= 12 || r.Intn(8) == 0 {
					vfForge(t, r.Intn, m, f, cs, root, b, e)
					vfRedistribute(t, r.Intn, m, f, cs, root, b, e)
				}
			}
		}
	}
}

func vfClone(p *MerkleBinaryTreeProof, f HashFunc) *MerkleBinaryTreeProof {
	q := &MerkleBinaryTreeProof{}
	cp := func(l []ProofNode) []ProofNode {
		var o []ProofNode
		for _, n := range l {
			o = append(o, ProofNode{n.NumOfLeaf, append([]byte(nil), n.Value...)})
		}
		return o
	}
	q.ProofInLeft, q.ProofInRight = cp(p.ProofInLeft), cp(p.ProofInRight)
	for _, c := range p.Contents {
		q.Contents = append(q.Contents, append([]byte(nil), c...))
	}
	q.SetHashFunc(f)
	return q
}

func vfForge(t *testing.T, rnd func(int) int, m *MerkleBinaryTree, f HashFunc, cs [][]byte, root []byte, b, e int) {
	p, _ := m.Proof(b, e)
	hs := vfHashes(f, cs)
	for k := 0; k < 12; k++ {
		vfCase(t)
		q := vfClone(p, f)
		what := fmt.Sprintf("forged proof (%d) of %d..%d of %d", k, b, e, len(cs))
		side := &q.ProofInLeft
		if rnd(2) == 1 {
			side = &q.ProofInRight
		}
		switch k {
		case 0, 1, 2: // counts
			if len(*side) > 0 {
				(*side)[rnd(len(*side))].NumOfLeaf += []int{1, -1, 2, -2, 1 << 40, -1 << 40}[rnd(6)]
			}
			if len(*side) > 1 {
				(*side)[rnd(len(*side))].NumOfLeaf += []int{1, -1, 2, -2}[rnd(4)]
			}
		case 3: // leaf value as content: a branch passed off as one content
			i := rnd(len(cs))
			j := i + 1 + rnd(len(cs)-i)
			if j-i >= 2 {
				w := 1
				for 2*w < j-i {
					w *= 2
				}
				q.Contents[rnd(len(q.Contents))] = append(append([]byte(nil), vfRoot(f, hs[i:i+w])...), vfRoot(f, hs[i+w:j])...)
			}
		case 4: // drop a content, widen a neighbour
			q.Contents = q.Contents[1:]
			*side = append(*side, ProofNode{1, hs[rnd(len(hs))]})
		case 5: // swap contents
			q.Contents[0], q.Contents[len(q.Contents)-1] = q.Contents[len(q.Contents)-1], q.Contents[0]
		case 6: // shift everything: claim another position
			q.ProofInLeft = append([]ProofNode{{0, hs[0]}}, q.ProofInLeft...)
		case 7: // empty or short values
			if len(*side) > 0 {
				(*side)[rnd(len(*side))].Value = nil
			}
		case 8:
			q.ProofInLeft, q.ProofInRight = q.ProofInRight, q.ProofInLeft
		case 9: // whole subtree as one right node
			q.ProofInRight = []ProofNode{{len(cs) - e, vfRoot(f, hs[e-1:])}}
		case 10:
			q.ProofInLeft = nil
			q.ProofInRight = nil
			q.Contents = nil
		case 11: // one opaque node for everything plus compensation
			q.ProofInLeft = []ProofNode{{len(cs) - len(q.Contents), root}}
			q.ProofInRight = nil
		}
		vfJudge(t, what, q, root, cs)
	}
}

// vfRedistribute: the nodes of a true proof with every other distribution of the same total over them (drawn at random when there are many).
func vfRedistribute(t *testing.T, rnd func(int) int, m *MerkleBinaryTree, f HashFunc, cs [][]byte, root []byte, b, e int) {
	p, _ := m.Proof(b, e)
	q := vfClone(p, f)
	var ns []*int
	sum := 0
	for i := range q.ProofInLeft {
		ns = append(ns, &q.ProofInLeft[i].NumOfLeaf)
		sum += q.ProofInLeft[i].NumOfLeaf
	}
	for i := range q.ProofInRight {
		ns = append(ns, &q.ProofInRight[i].NumOfLeaf)
		sum += q.ProofInRight[i].NumOfLeaf
	}
	budget := vfN(120, 2000)
	judge := func() {
		vfCase(t)
		what := fmt.Sprintf("forged counts in the proof of %d..%d of %d:", b, e, len(cs))
		for _, n := range ns {
			what += fmt.Sprint(" ", *n)
		}
		vfJudge(t, what, q, root, cs)
	}
	var rec func(i, rest int)
	rec = func(i, rest int) {
		if budget <= 0 {
			return
		}
		if i == len(ns)-1 {
			*ns[i] = rest
			budget--
			judge()
			return
		}
		for c := 1; c <= rest-(len(ns)-1-i); c++ {
			*ns[i] = c
			rec(i+1, rest-c)
		}
	}
	if len(ns) == 0 {
		return
	}
	if sum <= 11 {
		rec(0, sum)
		return
	}
	for k := 0; k < budget; k++ {
		rest := sum
		for i := range ns {
			left := len(ns) - 1 - i
			c := rest
			if left > 0 {
				// powers of two are the interesting counts
				c = 1 << rnd(5)
				if rnd(4) == 0 {
					c += rnd(3)
				}
				if c > rest-left {
					c = rest - left
				}
			}
			*ns[i] = c
			rest -= c
		}
		judge()
	}
}
