//overlay: common/mbt
package mbt

import (
	"bytes"
	"fmt"
	"testing"
)

func vfRoot(f HashFunc, hs [][]byte) []byte {
	if len(hs) == 1 {
		return hs[0]
	}
	k := 1
	for 2*k < len(hs) {
		k *= 2
	}
	return f(vfRoot(f, hs[:k]), vfRoot(f, hs[k:]))
}

func vfContents(n int) [][]byte {
	var cs [][]byte
	for i := 0; i < n; i++ {
		cs = append(cs, []byte(fmt.Sprintf("message %d", i*i)))
	}
	return cs
}

func TestVerifTree(t *testing.T) {
	max := vfN(70, 300)
	for _, h := range vfHints() {
		if h.IsInt64() && h.Int64() > 70 && h.Int64() < 3000 {
			max = int(h.Int64()) + 2
			break
		}
	}
	for _, f := range []HashFunc{HashFuncByUID("icon"), HashFuncByUID("eth")} {
		inc, err := NewMerkleBinaryTree(f, nil)
		if err != nil || inc.Root() != nil || inc.Len() != 0 {
			vfFail(t, "empty tree: %v root %x len %d", err, inc.Root(), inc.Len())
		}
		all := vfContents(max)
		var hs [][]byte
		for n := 1; n <= max; n++ {
			vfCase(t)
			cs := all[:n]
			hs = append(hs, f(cs[n-1]))
			want := vfRoot(f, hs)
			vfNoPanic(t, fmt.Sprintf("%d contents", n), func() {
				m, err := NewMerkleBinaryTree(f, append([][]byte(nil), cs...))
				if err != nil || !bytes.Equal(m.Root(), want) || m.Len() != n {
					vfFail(t, "batch tree of %d contents: root %x want %x (len %d, %v)", n, m.Root(), want, m.Len(), err)
				}
				if err := inc.Add(cs[n-1]); err != nil || !bytes.Equal(inc.Root(), want) || inc.Len() != n {
					vfFail(t, "incremental tree of %d contents: root %x want %x (len %d, %v)", n, inc.Root(), want, inc.Len(), err)
				}
				for k := n + 1; k <= n+3 && k <= max; k++ { // grow a batch tree
					if err := m.Add(all[k-1]); err != nil {
						vfFail(t, "Add: %v", err)
					}
					m2, _ := NewMerkleBinaryTree(f, append([][]byte(nil), all[:k]...))
					if !bytes.Equal(m.Root(), m2.Root()) {
						vfFail(t, "batch tree of %d grown to %d contents: root %x want %x", n, k, m.Root(), m2.Root())
					}
				}
				for num := -1; num <= n+1; num++ {
					p, err := inc.Path(num)
					g, gerr := inc.Get(num)
					if (err == nil) != (num >= 1 && num <= n) || (gerr == nil) != (err == nil) {
						vfFail(t, "Path/Get(%d) of %d contents: %v %v", num, n, err, gerr)
					}
					if err != nil {
						continue
					}
					if !bytes.Equal(p.Content, cs[num-1]) || !bytes.Equal(g, cs[num-1]) || !bytes.Equal(p.Root(), want) {
						vfFail(t, "Path(%d) of %d contents: content %q, root %x want %x", num, n, p.Content, p.Root(), want)
					}
					// the path is the only one: another content or another position does not lead to the root
					q := &MerkleBinaryTreePath{Content: []byte("forged"), Path: p.Path}
					q.SetHashFunc(f)
					if bytes.Equal(q.Root(), want) {
						vfFail(t, "Path(%d) of %d contents accepts a forged content", num, n)
					}
					var mn []MerkleNode
					for _, e := range p.Path {
						d := DirLeft
						if e.Right {
							d = DirRight
						}
						mn = append(mn, MerkleNode{Dir: d, Value: e.Value})
					}
					if !bytes.Equal(RootByMerkleNode(f, f(p.Content), mn), want) {
						vfFail(t, "RootByMerkleNode(%d of %d)", num, n)
					}
				}
			})
		}
		if inc.Add(nil) == nil || inc.Len() != max || !bytes.Equal(inc.Root(), vfRoot(f, hs)) {
			vfFail(t, "Add(nil) must be rejected and leave the tree alone")
		}
	}
}
