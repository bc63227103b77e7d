// overlay: common/mpt
package mpt

import (
	"bytes"
	"fmt"
	"math/rand"
	"testing"

	"golang.org/x/crypto/sha3"
)

// an independent encoder
func vfLen(base byte, n int) []byte {
	if n < 56 {
		return []byte{base + byte(n)}
	}
	var l []byte
	for k := n; k > 0; k >>= 8 {
		l = append([]byte{byte(k)}, l...)
	}
	return append([]byte{base + 55 + byte(len(l))}, l...)
}

func vfEnc(l [][]byte) []byte {
	var b []byte
	for _, e := range l {
		if len(e) == 1 && e[0] < 0x80 {
			b = append(b, e[0])
		} else {
			b = append(append(b, vfLen(0x80, len(e))...), e...)
		}
	}
	return append(vfLen(0xc0, len(b)), b...)
}

func vfSha(b []byte) []byte {
	h := sha3.Sum256(b)
	return h[:]
}

// an oracle on the lists
func vfLeaf(l [][]byte) bool { return len(l) == 2 && len(l[0]) > 0 && l[0][0]&0x20 != 0 }

func vfProof(ls [][][]byte) bool {
	for i, l := range ls {
		if !(len(l) == 17 || len(l) == 2 && len(l[0]) > 0) {
			return false
		}
		if vfLeaf(l) != (i == len(ls)-1) {
			return false
		}
		if i < len(ls)-1 {
			h, ok := vfSha(vfEnc(ls[i+1])), false
			if len(l) == 2 {
				ok = bytes.Equal(l[1], h)
			} else {
				for _, e := range l[:16] {
					ok = ok || bytes.Equal(e, h)
				}
			}
			if !ok {
				return false
			}
		}
	}
	return len(ls) > 0
}

func vfNode(r *rand.Rand, next []byte) [][]byte {
	hdr := append([]byte{byte(r.Intn(256))}, vfBytes(r, r.Intn(5))...)
	switch {
	case next == nil: // leaf
		hdr[0] |= 0x20
		return [][]byte{hdr, vfBytes(r, r.Intn(80))}
	case r.Intn(3) == 0: // extension
		hdr[0] &^= 0x20
		return [][]byte{hdr, next}
	}
	l := make([][]byte, 17)
	for i := range l {
		if r.Intn(2) == 0 {
			l[i] = vfBytes(r, 32)
		}
	}
	l[r.Intn(16)] = next
	if r.Intn(6) == 0 {
		l[r.Intn(16)] = next
	}
	return l
}

func vfCheck(t *testing.T, ls [][][]byte) {
	vfCase(t)
	var bl [][]byte
	for _, l := range ls {
		bl = append(bl, vfEnc(l))
	}
	what := fmt.Sprintf("NewMptProof(%x)", bl)
	want := vfProof(ls)
	vfNoPanic(t, what, func() {
		mp, err := NewMptProof(bl)
		if (err == nil) != want {
			vfFail(t, "%s = error %v, want accepted %v", what, err, want)
			return
		}
		if err != nil {
			return
		}
		if len(mp.Nodes) != len(ls) || len(mp.Hashes) != len(ls) {
			vfFail(t, "%s: %d nodes, %d hashes", what, len(mp.Nodes), len(mp.Hashes))
			return
		}
		for i, l := range ls {
			n := mp.Nodes[i]
			ok := bytes.Equal(mp.Hashes[i], vfSha(bl[i]))
			if len(l) == 2 {
				ok = ok && n.Header != nil && n.Header.Prefix == l[0][0] && bytes.Equal(n.Header.Nibbles, l[0][1:]) && n.Header.IsLeaf() == vfLeaf(l)
				if vfLeaf(l) {
					ok = ok && bytes.Equal(n.Data, l[1])
				} else {
					ok = ok && len(n.Link) == 1 && bytes.Equal(n.Link[0].Hash, l[1])
				}
			} else {
				ok = ok && n.Header == nil && len(n.Link) == 16 && bytes.Equal(n.Data, l[16])
				for k := 0; ok && k < 16; k++ {
					ok = bytes.Equal(n.Link[k].Hash, l[k])
				}
			}
			if !ok {
				vfFail(t, "%s: node %d is %+v with hash %x", what, i, n, mp.Hashes[i])
				return
			}
		}
		if f := mp.Leaf(); f != &mp.Nodes[len(ls)-1] && !bytes.Equal(f.Data, ls[len(ls)-1][1]) {
			vfFail(t, "%s: leaf %+v", what, f)
		}
	})
}

func TestVerifProof(t *testing.T) {
	r := vfRand()
	vfCheck(t, nil)
	for k := 0; k < vfN(4000, 60000); k++ {
		// a proof, from the leaf up
		ls := [][][]byte{vfNode(r, nil)}
		for n := r.Intn(6); n > 0; n-- {
			ls = append([][][]byte{vfNode(r, vfSha(vfEnc(ls[0])))}, ls...)
		}
		vfCheck(t, ls)
		// and with one thing wrong
		i := r.Intn(len(ls))
		l := append([][]byte(nil), ls[i]...)
		bad := append([][][]byte(nil), ls...)
		switch r.Intn(11) {
		case 0: // a node too many, at the end or elsewhere
			bad = append(bad[:i:i], append([][][]byte{vfNode(r, nil)}, bad[i:]...)...)
		case 1:
			bad = append(bad, vfNode(r, nil))
		case 2: // a node missing
			bad = append(bad[:i:i], bad[i+1:]...)
		case 3: // the list has another length
			bad[i] = l[:r.Intn(len(l))]
		case 4:
			bad[i] = append(l, nil)
		case 5: // a byte changed
			j := r.Intn(len(l))
			if len(l[j]) > 0 {
				l[j] = append([]byte(nil), l[j]...)
				l[j][r.Intn(len(l[j]))] ^= 1 << uint(r.Intn(8))
			}
			bad[i] = l
		case 6: // no header
			if len(l) == 2 {
				l[0] = nil
			}
			bad[i] = l
		case 7: // the last is no leaf
			bad[len(bad)-1] = vfNode(r, vfBytes(r, 32))
		case 8: // an element shortened
			j := r.Intn(len(l))
			if len(l[j]) > 0 {
				l[j] = l[j][:len(l[j])-1]
			}
			bad[i] = l
		case 10: // the value of a branch names the next node, and no link does
			if len(l) == 17 && i+1 < len(ls) {
				for m, h := 0, vfSha(vfEnc(ls[i+1])); m < 16; m++ {
					if bytes.Equal(l[m], h) {
						l[m], l[16] = nil, h
					}
				}
			}
			bad[i] = l
		case 9: // two exchanged
			j := r.Intn(len(ls))
			bad[i], bad[j] = bad[j], bad[i]
		}
		// the other links still hold
		if r.Intn(2) == 0 {
			for j := i - 1; j >= 0 && j+1 < len(bad); j-- {
				l := append([][]byte(nil), bad[j]...)
				if j+1 >= len(ls) {
					continue
				}
				old := vfSha(vfEnc(ls[j+1]))
				for m := range l {
					if bytes.Equal(l[m], old) {
						l[m] = vfSha(vfEnc(bad[j+1]))
					}
				}
				bad[j] = l
			}
		}
		vfCheck(t, bad)
		if k < 2 {
			vfSample("proof of %d nodes: %v; changed: %v", len(ls), vfProof(ls), vfProof(bad))
		}
	}
	// bytes that encode no list of texts
	for k := 0; k < vfN(3000, 30000); k++ {
		vfCase(t)
		b := vfBytes(r, r.Intn(40))
		if len(b) > 0 && r.Intn(2) == 0 {
			b[0] = 0xc0 + byte(r.Intn(56))
		}
		vfNoPanic(t, fmt.Sprintf("NewMptProof([%x])", b), func() {
			NewMptProof([][]byte{b})
		})
	}
}
