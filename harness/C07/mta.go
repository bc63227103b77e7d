// overlay: common/mta
package mta

import (
	"bytes"
	"fmt"
	"math/rand"
	"testing"

	"github.com/icon-project/btp/common/crypto"
	"github.com/icon-project/btp/common/db"
)

func vfH2(l, r []byte) []byte { return crypto.SHA3Sum256(append(append([]byte(nil), l...), r...)) }

func vfTop(ls [][]byte) []byte {
	if len(ls) == 1 {
		return ls[0]
	}
	return vfH2(vfTop(ls[:len(ls)/2]), vfTop(ls[len(ls)/2:]))
}

// vfRoots: the roots of the trees over the leaves, biggest first over the first leaves
func vfRoots(ls [][]byte) [][]byte {
	var r [][]byte
	for b := 0; 1<<uint(b) <= len(ls); b++ {
		r = append(r, nil)
	}
	at := 0
	for b := len(r) - 1; b >= 0; b-- {
		if len(ls)&(1<<uint(b)) != 0 {
			r[b] = vfTop(ls[at : at+1<<uint(b)])
			at += 1 << uint(b)
		}
	}
	return r
}

// vfWit: the witness of a leaf, from the leaf up
func vfWit(ls [][]byte, idx int) []Witness {
	at := 0
	for b := 40; b >= 0; b-- {
		if len(ls)&(1<<uint(b)) == 0 {
			continue
		}
		if idx < at+1<<uint(b) {
			var ws []Witness
			t, i := ls[at:at+1<<uint(b)], idx-at
			for len(t) > 1 {
				n := len(t) / 2
				if i < n {
					ws = append([]Witness{{Right, vfTop(t[n:])}}, ws...)
					t = t[:n]
				} else {
					ws = append([]Witness{{Left, vfTop(t[:n])}}, ws...)
					t, i = t[n:], i-n
				}
			}
			return ws
		}
		at += 1 << uint(b)
	}
	return nil
}

func vfSame(a, b []Witness) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Direction != b[i].Direction || !bytes.Equal(a[i].HashValue, b[i].HashValue) {
			return false
		}
	}
	return true
}

func vfNewAcc() *Accumulator {
	bk, _ := db.NewMapDB().GetBucket("")
	return &Accumulator{KeyForState: []byte("s"), Bucket: bk}
}

func vfCheckRoots(t *testing.T, a *Accumulator, ls [][]byte, what string) {
	want := vfRoots(ls)
	ok := len(want) == len(a.roots) && a.Len() == int64(len(ls))
	for i := 0; ok && i < len(want); i++ {
		if want[i] == nil {
			ok = a.roots[i] == nil
		} else {
			ok = a.roots[i] != nil && bytes.Equal(a.roots[i].Hash(), want[i])
		}
	}
	if !ok {
		vfFail(t, "%s: accumulator of %d leaves has length %d and roots %v, want %x", what, len(ls), a.Len(), a.roots, want)
	}
}

func vfLeaves(r *rand.Rand, n int) (ds, hs [][]byte) {
	for i := 0; i < n; i++ {
		d := vfBytes(r, r.Intn(40))
		ds, hs = append(ds, d), append(hs, crypto.SHA3Sum256(d))
	}
	return
}

// TestVerifGrow: roots, witnesses and recovery at every length
func TestVerifGrow(t *testing.T) {
	r := vfRand()
	for round := 0; round < vfN(6, 100); round++ {
		n := []int{1, 2, 3, 8, 33, 70, 130}[r.Intn(7)]
		ds, hs := vfLeaves(r, n)
		a := vfNewAcc()
		for i := 0; i < n; i++ {
			vfCase(t)
			var w []Witness
			if r.Intn(2) == 0 {
				w = a.AddData(ds[i])
			} else {
				w = a.AddHash(hs[i])
			}
			ls := hs[:i+1]
			vfCheckRoots(t, a, ls, "after adding")
			if !vfSame(w, vfWit(ls, i)) {
				vfFail(t, "adding leaf %d gave witness %v, want %v", i, w, vfWit(ls, i))
			}
			if err := a.Verify(w, hs[i]); err != nil {
				vfFail(t, "the witness of the leaf just added (%d) is refused: %v", i, err)
			}
			if r.Intn(6) == 0 {
				if err := a.Flush(); err != nil {
					vfFail(t, "flush of %d leaves: %v", i+1, err)
				}
				b := &Accumulator{KeyForState: a.KeyForState, Bucket: a.Bucket}
				if err := b.Recover(); err != nil {
					vfFail(t, "recovery of %d leaves: %v", i+1, err)
				}
				vfCheckRoots(t, b, ls, "recovered")
				if r.Intn(2) == 0 {
					a = b
				} else if x := r.Intn(i + 1); true {
					w, err := b.WitnessFor(int64(x))
					if err != nil || !vfSame(w, vfWit(ls, x)) {
						vfFail(t, "recovered accumulator of %d leaves, WitnessFor(%d): %v %v", i+1, x, w, err)
					}
				}
			}
			for _, x := range []int{0, i, r.Intn(i + 1), r.Intn(i + 1), -1, -7, i + 1, i + 3} {
				vfNoPanic(t, fmt.Sprintf("WitnessFor(%d) of %d leaves", x, i+1), func() {
					w, err := a.WitnessFor(int64(x))
					if x < 0 || x > i {
						if err == nil {
							vfFail(t, "WitnessFor(%d) of %d leaves: %v", x, i+1, w)
						}
						if nd, err := a.GetNode(int64(x)); err == nil {
							vfFail(t, "GetNode(%d) of %d leaves: %v", x, i+1, nd)
						}
						return
					}
					if err != nil {
						// a leaf added by its hash is not resolved further; trees of hashes are
						vfFail(t, "WitnessFor(%d) of %d leaves: %v", x, i+1, err)
						return
					}
					if !vfSame(w, vfWit(ls, x)) {
						vfFail(t, "WitnessFor(%d) of %d leaves: %v, want %v", x, i+1, w, vfWit(ls, x))
					}
					vfCheckRoots(t, a, ls, "after WitnessFor")
					if nd, err := a.GetNode(int64(x)); err != nil || !bytes.Equal(nd.Hash(), hs[x]) {
						vfFail(t, "GetNode(%d) of %d leaves: %v %v", x, i+1, nd, err)
					}
					if w2 := HashesToWitness(WitnessesToHashes(w), int64(x)); !vfSame(w, w2) {
						vfFail(t, "witness %v of leaf %d, by its hashes: %v", w, x, w2)
					}
					if h := GetHeightFromWitness(w, int64(i+1)); h != int64(x) {
						vfFail(t, "GetHeightFromWitness of leaf %d of %d: %d", x, i+1, h)
					}
					if d := GetDepthByHeightAndAccLength(int64(x), int64(i+1)); d != len(w) {
						vfFail(t, "GetDepthByHeightAndAccLength(%d, %d): %d, want %d", x, i+1, d, len(w))
					}
					if err := a.Verify(w, hs[x]); err != nil {
						vfFail(t, "Verify of the witness of leaf %d of %d: %v", x, i+1, err)
					}
					bad := append([]Witness(nil), w...)
					h := hs[x]
					k := r.Intn(len(w) + 1)
					what := ""
					switch {
					case k == len(w):
						h = crypto.SHA3Sum256(h)
						what = "another leaf"
					case r.Intn(3) == 0:
						bad[k].Direction = 1 - bad[k].Direction
						what = fmt.Sprintf("direction %d turned", k)
						if bytes.Equal(h, bad[k].HashValue) {
							return
						}
					case r.Intn(2) == 0:
						hv := append([]byte(nil), bad[k].HashValue...)
						hv[r.Intn(32)] ^= 1 << uint(r.Intn(8))
						bad[k].HashValue = hv
						what = fmt.Sprintf("hash %d altered", k)
					case r.Intn(2) == 0:
						bad = bad[:k]
						what = "cut short"
					default:
						bad = append(bad, Witness{Direction(r.Intn(2)), vfBytes(r, 32)})
						what = "one more"
					}
					if a.Verify(bad, h) == nil && !vfDup(ls, h) {
						vfFail(t, "Verify accepts the witness of leaf %d of %d with %s: %v for %x", x, i+1, what, bad, h)
					}
				})
			}
		}
	}
}

func vfDup(ls [][]byte, h []byte) bool {
	c := 0
	for _, x := range ls {
		if bytes.Equal(x, h) {
			c++
		}
	}
	return c > 1
}

// TestVerifLengths: witnesses of one length against an accumulator of another
func TestVerifLengths(t *testing.T) {
	r := vfRand()
	max := vfN(24, 70)
	_, hs := vfLeaves(r, max)
	for i := range hs {
		hs[i] = crypto.SHA3Sum256([]byte(fmt.Sprint("leaf", i)))
	}
	acc := []*Accumulator{vfNewAcc()}
	for n := 1; n <= max; n++ {
		a := vfNewAcc()
		for i := 0; i < n; i++ {
			a.AddHash(hs[i])
		}
		acc = append(acc, a)
	}
	for n := 1; n <= max; n++ {
		for m := 1; m <= max; m++ {
			for x := 0; x < n && x < m; x++ {
				vfCase(t)
				w := vfWit(hs[:m], x)
				vfNoPanic(t, fmt.Sprintf("leaf %d, witness of length %d, accumulator of %d", x, m, n), func() {
					if err := acc[n].VerifyWithAccLength(append([]Witness(nil), w...), hs[x], int64(m)); err != nil {
						vfFail(t, "leaf %d with its witness of length %d is refused by the accumulator of length %d: %v", x, m, n, err)
					}
					if acc[n].VerifyWithAccLength(append([]Witness(nil), w...), hs[(x+1)%max], int64(m)) == nil {
						vfFail(t, "leaf %d with the witness of leaf %d of length %d is accepted by the accumulator of length %d", x+1, x, m, n)
					}
					if m <= n {
						v, err := acc[n].WitnessForWithAccLength(int64(x), int64(m))
						if err != nil || !vfSame(v, w) {
							vfFail(t, "WitnessForWithAccLength(%d, %d) of length %d: %v %v, want %v", x, m, n, v, err, w)
						}
					}
				})
			}
			if m > n {
				x := n + r.Intn(m-n)
				if acc[n].VerifyWithAccLength(vfWit(hs[:m], x), hs[x], int64(m)) == nil {
					vfFail(t, "leaf %d of length %d is accepted by the accumulator of length %d", x, m, n)
				}
			}
		}
	}
	// witnesses out of nowhere
	for i := 0; i < vfN(20000, 300000); i++ {
		vfCase(t)
		n, m := 1+r.Intn(max), r.Intn(max+3)
		w := make([]Witness, r.Intn(8))
		for k := range w {
			w[k] = Witness{Direction(r.Intn(2)), vfBytes(r, 32)}
		}
		vfNoPanic(t, fmt.Sprintf("witness %v of length %d, accumulator of %d", w, m, n), func() {
			x := hs[r.Intn(max)]
			if len(w) > 0 && acc[n].VerifyWithAccLength(w, x, int64(m)) == nil {
				// a random hash below a root: only when none of it was used
				k := GetDepthByHeightAndAccLength(GetHeightFromWitness(w, int64(m)), int64(n))
				if k > 0 || m <= n {
					vfFail(t, "random witness %v of length %d is accepted by the accumulator of length %d for %x", w, m, n, x)
				}
			}
		})
	}
}

// TestVerifExt: heights and offset of the extended accumulator
func TestVerifExt(t *testing.T) {
	r := vfRand()
	for round := 0; round < vfN(20, 200); round++ {
		bk, _ := db.NewMapDB().GetBucket("")
		off := int64([]int{0, 1, 7, 1000}[r.Intn(4)])
		a := NewExtAccumulator([]byte("s"), bk, off)
		n := 1 + r.Intn(40)
		ds, hs := vfLeaves(r, n)
		for i := range ds {
			ds[i] = append(ds[i], []byte(fmt.Sprint(i))...)
			hs[i] = crypto.SHA3Sum256(ds[i])
			w := a.AddHash(hs[i])
			if r.Intn(2) == 0 && !vfSame(w, vfWit(hs[:i+1], i)) {
				vfFail(t, "ExtAccumulator.AddHash %d: %v", i, w)
			}
		}
		if a.Height() != off+int64(n) {
			vfFail(t, "height %d with offset %d after %d leaves", a.Height(), off, n)
		}
		if err := a.Flush(); err != nil {
			vfFail(t, "flush: %v", err)
		}
		b := NewExtAccumulator([]byte("s"), bk, off)
		if err := b.Recover(); err != nil {
			vfFail(t, "recovery: %v", err)
		}
		vfCheckRoots(t, &b.Accumulator, hs, "recovered")
		if b.Height() != a.Height() {
			vfFail(t, "recovered height %d, was %d", b.Height(), a.Height())
		}
		for i := 0; i < 20; i++ {
			vfCase(t)
			m := 1 + r.Intn(n)
			x := r.Intn(m)
			ahead := int64(0)
			if m == n || r.Intn(4) == 0 {
				// a height not reached yet stands for the current one
				m, ahead = n, int64(r.Intn(20))
			}
			vfNoPanic(t, fmt.Sprintf("WitnessForAt %d %d", x, m), func() {
				at, w, err := b.WitnessForAt(off+int64(x)+1, off+int64(m)+ahead, off)
				if err != nil || at != off+int64(m) || !vfSame(w, vfWit(hs[:m], x)) {
					vfFail(t, "WitnessForAt(%d, %d, %d): %d %v %v, want %v", off+int64(x)+1, off+int64(m), off, at, w, err, vfWit(hs[:m], x))
					return
				}
				if err := b.VerifyAt(w, hs[x], at, off); err != nil {
					vfFail(t, "VerifyAt of leaf %d at %d: %v", x, m, err)
				}
				if n > 1 && b.VerifyAt(w, hs[(x+1)%n], at, off) == nil {
					vfFail(t, "VerifyAt accepts another leaf than %d at %d", x, m)
				}
				if nd, err := b.GetNode(off + int64(x) + 1); err != nil || !bytes.Equal(nd.Hash(), hs[x]) {
					vfFail(t, "GetNode(%d) with offset %d: %v", off+int64(x)+1, off, err)
				}
				if _, w, err := b.WitnessForAt(off, off+int64(n), off); err == nil {
					vfFail(t, "WitnessForAt(%d) before the first leaf (offset %d): %v", off, off, w)
				}
			})
		}
	}
}
