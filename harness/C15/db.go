// overlay: common/db
package db

import (
	"bytes"
	"errors"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"testing"
)

// vfOpen: a database of each kind
func vfOpen(t *testing.T, kind int) (Database, func()) {
	switch kind {
	case 0:
		return NewMapDB(), func() {}
	case 1:
		dir, err := ioutil.TempDir("", "vfdb")
		if err != nil {
			t.Fatal(err)
		}
		d, err := NewGoLevelDB("level", dir)
		if err != nil {
			t.Fatal(err)
		}
		return d, func() { d.Close(); os.RemoveAll(dir) }
	}
	dir, err := ioutil.TempDir("", "vfdb")
	if err != nil {
		t.Fatal(err)
	}
	d, err := NewBadgerDB("badger", dir)
	if err != nil {
		t.Fatal(err)
	}
	return d, func() { d.Close(); os.RemoveAll(dir) }
}

func vfKey(r *rand.Rand) []byte {
	k := vfBytes(r, 1+r.Intn(3))
	for i := range k {
		k[i] &= 0x83
	}
	return k
}

// vfScrub: a caller goes on using its own buffers
func vfScrub(bs ...[]byte) {
	for _, b := range bs {
		for i := range b {
			b[i] ^= 0x55
		}
	}
}

func vfCheckBucket(t *testing.T, b Bucket, m map[string]string, k string, what string) {
	kb := []byte(k)
	v, err := b.Get(kb)
	w, ok := m[k]
	if err != nil || (v != nil) != ok || string(v) != w {
		vfFail(t, "%s: Get(%x) = %x (nil %v), %v, want %x (present %v)", what, k, v, v == nil, err, w, ok)
	}
	vfScrub(v)
	if v2, _ := b.Get(kb); string(v2) != w {
		vfFail(t, "%s: Get(%x) = %x after the result of an earlier Get was changed, want %x", what, k, v2, w)
	}
	if h := b.Has(kb); h != ok {
		vfFail(t, "%s: Has(%x) = %v, want %v", what, k, h, ok)
	}
}

// vfOps: random operations on a bucket and on a map
func vfOps(t *testing.T, r *rand.Rand, b Bucket, m map[string]string, n int, what string) {
	for i := 0; i < n; i++ {
		vfCase(t)
		k := vfKey(r)
		ks := string(k)
		switch r.Intn(4) {
		case 0, 1:
			v := vfBytes(r, []int{0, 1, 2, 32, 100}[r.Intn(5)])
			vs := string(v)
			if err := b.Set(k, v); err != nil {
				vfFail(t, "%s: Set(%x, %x): %v", what, ks, vs, err)
			}
			m[ks] = vs
			vfScrub(k, v)
		case 2:
			if err := b.Delete(k); err != nil {
				vfFail(t, "%s: Delete(%x): %v", what, ks, err)
			}
			delete(m, ks)
			vfScrub(k)
		}
		vfCheckBucket(t, b, m, ks, what)
		vfCheckBucket(t, b, m, string(vfKey(r)), what)
	}
}

func vfCheckAll(t *testing.T, b Bucket, m map[string]string, seen map[string]bool, what string) {
	for k := range m {
		seen[k] = true
	}
	for k := range seen {
		vfCheckBucket(t, b, m, k, what)
	}
}

func TestVerifBuckets(t *testing.T) {
	r := vfRand()
	for kind := 0; kind < 3; kind++ {
		for round := 0; round < vfN([]int{30, 4, 2}[kind], []int{500, 40, 20}[kind]); round++ {
			func() {
				d, fin := vfOpen(t, kind)
				defer fin()
				ids := []BucketID{"X", "Y"}
				var bs []Bucket
				ms := []map[string]string{{}, {}}
				for _, id := range ids {
					b, err := d.GetBucket(id)
					if err != nil {
						t.Fatal(err)
					}
					bs = append(bs, b)
				}
				for i := 0; i < 6; i++ {
					x := r.Intn(2)
					what := fmt.Sprintf("%T bucket %s", d, ids[x])
					if r.Intn(3) == 0 {
						bs[x], _ = d.GetBucket(ids[x])
					}
					vfOps(t, r, bs[x], ms[x], 12, what)
					vfCheckAll(t, bs[1-x], ms[1-x], map[string]bool{}, fmt.Sprintf("%T bucket %s", d, ids[1-x]))
				}
				// an empty key is refused or works, it does not crash
				for _, id := range []BucketID{"", "Z"} {
					b, _ := d.GetBucket(id)
					vfNoPanic(t, fmt.Sprintf("%T bucket %q, empty key", d, id), func() {
						if err := b.Set([]byte{}, []byte{1}); err == nil {
							if v, err := b.Get([]byte{}); err != nil || !bytes.Equal(v, []byte{1}) {
								vfFail(t, "%T bucket %q: Get of an empty key: %x %v", d, id, v, err)
							}
						} else {
							b.Get([]byte{})
							if b.Has([]byte{}) {
								vfFail(t, "%T bucket %q: has an empty key which it refused", d, id)
							}
						}
						b.Delete([]byte{})
					})
				}
			}()
		}
	}
}

func vfCopy(m map[string]string) map[string]string {
	n := map[string]string{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// TestVerifLayer: a layer over each kind of database
func TestVerifLayer(t *testing.T) {
	r := vfRand()
	for kind := 0; kind < 3; kind++ {
		for round := 0; round < vfN([]int{60, 4, 2}[kind], []int{1000, 40, 20}[kind]); round++ {
			func() {
				d, fin := vfOpen(t, kind)
				defer fin()
				ids := []BucketID{"X", "Y", "Z"}
				below := []map[string]string{{}, {}, {}}
				for x, id := range ids {
					b, _ := d.GetBucket(id)
					vfOps(t, r, b, below[x], 8, "below")
				}
				l := NewLayerDB(d)
				top := []map[string]string{vfCopy(below[0]), vfCopy(below[1]), vfCopy(below[2])}
				seen := map[string]bool{}
				var held []Bucket
				for i := 0; i < 8; i++ {
					x := r.Intn(2)
					b, err := l.GetBucket(ids[x])
					if err != nil {
						vfFail(t, "layer: GetBucket: %v", err)
						return
					}
					held = append(held, b)
					vfOps(t, r, b, top[x], 6, "layer")
					if err := b.Set([]byte{1}, nil); err == nil {
						vfFail(t, "layer: a nil value is accepted")
					}
				}
				for x, id := range ids[:2] {
					b, _ := d.GetBucket(id)
					for k := range top[x] {
						seen[k] = true
					}
					vfCheckAll(t, b, below[x], seen, "below an unflushed layer")
				}
				write := r.Intn(3) != 0
				if err := l.Flush(write); err != nil {
					vfFail(t, "layer: Flush(%v): %v", write, err)
				}
				for x, id := range ids {
					want := top[x]
					if !write {
						want = below[x]
					}
					b, _ := d.GetBucket(id)
					vfCheckAll(t, b, want, seen, fmt.Sprintf("below a layer after Flush(%v)", write))
					b2, _ := l.GetBucket(id)
					vfCheckAll(t, b2, want, seen, fmt.Sprintf("layer after Flush(%v)", write))
					// from now on the layer writes through
					vfOps(t, r, b2, want, 6, "layer after flush")
					vfCheckAll(t, b, want, seen, "below, written through")
				}
			}()
		}
	}
}

type vfBad struct {
	Bucket
	at, n int
}

func (b *vfBad) tick() error {
	b.n++
	if b.n == b.at {
		return errors.New("full")
	}
	return nil
}

func (b *vfBad) Set(k, v []byte) error {
	if err := b.tick(); err != nil {
		return err
	}
	return b.Bucket.Set(k, v)
}

func (b *vfBad) Delete(k []byte) error {
	if err := b.tick(); err != nil {
		return err
	}
	return b.Bucket.Delete(k)
}

// TestVerifFailedFlush: nothing is lost when the store below fails, and the flush can be repeated
func TestVerifFailedFlush(t *testing.T) {
	r := vfRand()
	for round := 0; round < vfN(300, 5000); round++ {
		vfCase(t)
		real, _ := NewMapDB().GetBucket("X")
		m := map[string]string{}
		vfOps(t, r, real, m, 8, "below")
		bad := &vfBad{Bucket: real, at: 1 + r.Intn(8)}
		bk := &layerBucket{data: map[string][]byte{}, real: bad}
		seen := map[string]bool{}
		for k := range m {
			seen[k] = true
		}
		vfOps(t, r, bk, m, 10, "layer")
		err := bk.Flush(true)
		vfCheckAll(t, bk, m, seen, fmt.Sprintf("layer after Flush = %v", err))
		if err != nil {
			if err := bk.Flush(true); err != nil {
				vfFail(t, "repeated Flush: %v", err)
			}
		} else if bad.n >= bad.at {
			vfFail(t, "Flush ignores a failure of the store below")
		}
		vfCheckAll(t, real, m, seen, "below after Flush")
	}
}
