//overlay: common/codec
package codec

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"testing"
)

// reference encoder, written from the RLP definition
func vfItem(off byte, p []byte) []byte {
	if len(p) <= 55 {
		return append([]byte{off + byte(len(p))}, p...)
	}
	l := new(big.Int).SetInt64(int64(len(p))).Bytes()
	return append(append([]byte{off + 55 + byte(len(l))}, l...), p...)
}

func vfB(p []byte) []byte {
	if len(p) == 1 && p[0] < 0x80 {
		return []byte{p[0]}
	}
	return vfItem(0x80, p)
}

func vfL(items ...[]byte) []byte { return vfItem(0xc0, bytes.Join(items, nil)) }

var vfNull = []byte{0xf8, 0}

func vfNum(v *big.Int) []byte {
	for n := uint(1); ; n++ {
		h := new(big.Int).Lsh(big.NewInt(1), 8*n-1)
		if v.Cmp(h) < 0 && v.Cmp(new(big.Int).Neg(h)) >= 0 {
			w := new(big.Int).Set(v)
			if w.Sign() < 0 {
				w.Add(w, new(big.Int).Lsh(big.NewInt(1), 8*n))
			}
			b := w.Bytes()
			return vfB(append(make([]byte, int(n)-len(b)), b...))
		}
	}
}

func vfRef(v reflect.Value) []byte {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return []byte{1}
		}
		return []byte{0}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return vfNum(big.NewInt(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return vfNum(new(big.Int).SetUint64(v.Uint()))
	case reflect.String:
		return vfB([]byte(v.String()))
	case reflect.Ptr:
		if v.IsNil() {
			return vfNull
		}
		return vfRef(v.Elem())
	case reflect.Slice:
		if v.IsNil() {
			return vfNull
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return vfB(v.Bytes())
		}
		fallthrough
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			reflect.Copy(reflect.ValueOf(b), v)
			return vfB(b)
		}
		var l [][]byte
		for i := 0; i < v.Len(); i++ {
			l = append(l, vfRef(v.Index(i)))
		}
		return vfL(l...)
	case reflect.Struct:
		var l [][]byte
		for i := 0; i < v.NumField(); i++ {
			l = append(l, vfRef(v.Field(i)))
		}
		return vfL(l...)
	case reflect.Map:
		if v.IsNil() {
			return vfNull
		}
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool {
			switch ks[i].Kind() {
			case reflect.String:
				return ks[i].String() < ks[j].String()
			case reflect.Uint16:
				return ks[i].Uint() < ks[j].Uint()
			}
			return ks[i].Int() < ks[j].Int()
		})
		var l [][]byte
		for _, k := range ks {
			l = append(l, vfRef(k), vfRef(v.MapIndex(k)))
		}
		return vfL(l...)
	}
	panic(v.Kind())
}

type vfIn struct {
	A int8
	B []byte
}
type vfMid struct {
	S  string
	P  *vfIn
	L  []vfIn
	LP []*vfIn
}
type vfBig struct {
	A int64
	B uint64
	C string
	D []byte
	E []int16
	F *vfMid
	G map[string]uint32
	H bool
	I [4]byte
	J [3]uint16
	K [][]byte
	M map[int]string
	N map[uint16][]int64
	O *uint64
}

var vfTypes = []reflect.Type{
	reflect.TypeOf(vfBig{}), reflect.TypeOf(vfMid{}), reflect.TypeOf(vfIn{}), reflect.TypeOf([][]byte{}),
	reflect.TypeOf([]int64{}), reflect.TypeOf(""), reflect.TypeOf(uint64(0)), reflect.TypeOf(int64(0)), reflect.TypeOf([]vfMid{}),
	reflect.TypeOf(map[string]int{}), reflect.TypeOf([]byte{}), reflect.TypeOf(int32(0)), reflect.TypeOf(true), reflect.TypeOf([33]byte{}),
}

func vfLen(r *rand.Rand) int {
	switch r.Intn(12) {
	case 0:
		return 0
	case 1:
		return 54 + r.Intn(4)
	case 2:
		return 253 + r.Intn(6)
	case 3:
		return r.Intn(400)
	}
	return r.Intn(5)
}

func vfFill(r *rand.Rand, v reflect.Value, d int) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := int64(r.Uint64()) >> uint(r.Intn(64))
		if r.Intn(4) == 0 {
			x = int64(1)<<uint(r.Intn(63)) - int64(r.Intn(3))
		}
		if r.Intn(2) == 0 {
			x = -x
		}
		v.SetInt(x)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x := r.Uint64() >> uint(r.Intn(64))
		if r.Intn(4) == 0 {
			x = uint64(1)<<uint(r.Intn(64)) - uint64(r.Intn(3))
		}
		v.SetUint(x)
	case reflect.String:
		v.SetString(string(vfRB(r)))
	case reflect.Ptr:
		if r.Intn(3) > 0 {
			v.Set(reflect.New(v.Type().Elem()))
			vfFill(r, v.Elem(), d+1)
		}
	case reflect.Slice:
		if r.Intn(6) == 0 {
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes(vfRB(r))
			return
		}
		n := vfLen(r)
		if d > 1 && n > 20 {
			n = 20
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			vfFill(r, v.Index(i), d+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			vfFill(r, v.Field(i), d+1)
		}
	case reflect.Map:
		if r.Intn(6) == 0 {
			return
		}
		m := reflect.MakeMap(v.Type())
		for n := r.Intn(6); n > 0; n-- {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			vfFill(r, k, d+1)
			vfFill(r, e, d+1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	}
}

func vfRB(r *rand.Rand) []byte {
	b := make([]byte, vfLen(r))
	r.Read(b)
	if len(b) == 1 {
		b[0] = []byte{0, 1, 0x7f, 0x80, 0xff}[r.Intn(5)]
	}
	return b
}

func vfTrip(t *testing.T, v reflect.Value, r *rand.Rand) []byte {
	vfCase(t)
	want := vfRef(v)
	d := fmt.Sprintf("%s %+v", v.Type(), v.Interface())
	if len(d) > 300 {
		d = d[:300] + "..."
	}
	vfNoPanic(t, d, func() {
		got, err := RLP.MarshalToBytes(v.Interface())
		if err != nil || !bytes.Equal(got, want) {
			vfFail(t, "encoding %s: err %v\n got %x\nwant %x", d, err, got, want)
		}
		var w bytes.Buffer
		if err := RLP.Marshal(&w, v.Interface()); err != nil || !bytes.Equal(w.Bytes(), want) {
			vfFail(t, "Marshal to a writer gives %x (err %v), want %x", w.Bytes(), err, want)
		}
		extra := make([]byte, r.Intn(4))
		r.Read(extra)
		o := reflect.New(v.Type())
		rest, err := RLP.UnmarshalFromBytes(append(append([]byte(nil), want...), extra...), o.Interface())
		if err != nil {
			if err == ErrNilValue && bytes.Equal(want, vfNull) {
				return
			}
			vfFail(t, "decoding %x (%s): %v", want, d, err)
		} else if !bytes.Equal(rest, extra) {
			vfFail(t, "decoding %x|%x: left over %x", want, extra, rest)
		} else if !reflect.DeepEqual(o.Elem().Interface(), v.Interface()) {
			vfFail(t, "decoding %x: got %+v want %s", want, o.Elem().Interface(), d)
		}
		in := append(append([]byte(nil), want...), extra...)
		if raw, err := (&rlpReader{reader: bytes.NewReader(in)}).ReadRaw(); err != nil || !bytes.Equal(raw, want) {
			vfFail(t, "ReadRaw of %.100x... (%d bytes) gives %d bytes (%v)", want, len(want), len(raw), err)
		}
		sk := &rlpReader{reader: bytes.NewReader(in)}
		if err := sk.Skip(1); err != nil {
			vfFail(t, "Skip of %.100x... (%d bytes): %v", want, len(want), err)
		} else if rest, _ := io.ReadAll(sk.reader); !bytes.Equal(rest, extra) {
			vfFail(t, "Skip of %.100x... (%d bytes) leaves %.100x want %x", want, len(want), rest, extra)
		}
	})
	return want
}

func vfDec(t *testing.T, b []byte, ty reflect.Type) (o reflect.Value, rest []byte, err error) {
	o = reflect.New(ty)
	vfNoPanic(t, fmt.Sprintf("%x as %s", b, ty), func() { rest, err = RLP.UnmarshalFromBytes(b, o.Interface()) })
	return
}

func TestVerifRoundTrip(t *testing.T) {
	r := vfRand()
	for i := 0; i < vfN(3000, 60000); i++ {
		ty := vfTypes[i%len(vfTypes)]
		v := reflect.New(ty).Elem()
		vfFill(r, v, 0)
		vfTrip(t, v, r)
	}
	for _, n := range []int{0, 1, 2, 54, 55, 56, 57, 254, 255, 256, 257, 65534, 65535, 65536, 65537, 65538, 70000, 1<<24 - 1, 1 << 24} {
		if n > 100000 && !vfThorough() && n != 1<<24 {
			continue
		}
		v := reflect.New(reflect.TypeOf([]byte{})).Elem()
		v.SetBytes(make([]byte, n))
		vfTrip(t, v, r)
		w := reflect.ValueOf([][]byte{make([]byte, n), {1}})
		vfTrip(t, w, r)
		if n <= 70000 {
			x := make([]int8, n)
			vfTrip(t, reflect.ValueOf(x), r)
		}
	}
	sized := func(n int) {
		m, a := map[int]int{}, make([]string, n)
		for i := 0; i < n; i++ {
			m[i] = i * i
			a[i] = "e"
		}
		vfTrip(t, reflect.ValueOf(m), r)
		vfTrip(t, reflect.ValueOf(a), r)
	}
	for n := 0; n < 300; n++ {
		sized(n)
	}
	for _, h := range vfHints() {
		if h.IsInt64() {
			if n := h.Int64(); n >= 0 && n < 3000 {
				for _, m := range []int64{n - 1, n, n + 1, n / 2, n/2 + 1, 2 * n} {
					if m >= 0 {
						sized(int(m))
					}
				}
			}
			vfTrip(t, reflect.ValueOf(h.Int64()), r)
			vfTrip(t, reflect.ValueOf([]int64{h.Int64(), 1}), r)
			if n := h.Int64(); n >= 0 && n < 1<<20 {
				for _, m := range []int64{n - 1, n, n + 1} {
					if m >= 0 {
						vfTrip(t, reflect.ValueOf(bytes.Repeat([]byte{7}, int(m))), r)
						vfTrip(t, reflect.ValueOf([]string{string(make([]byte, m)), "x"}), r)
					}
				}
			}
		}
	}
}

// an encoding cut short is refused at every cut
func TestVerifTruncated(t *testing.T) {
	r := vfRand()
	for i := 0; i < vfN(700, 6000); i++ {
		ty := vfTypes[i%len(vfTypes)]
		v := reflect.New(ty).Elem()
		vfFill(r, v, 0)
		b := vfRef(v)
		step := 1
		if len(b) > 300 {
			step = len(b)/300 + 1
		}
		for k := 0; k < len(b); k += step {
			vfCase(t)
			if o, _, err := vfDec(t, b[:k], ty); err == nil {
				vfFail(t, "%x is %x cut to %d bytes, decoded as %s without an error: %+v", b[:k], b, k, ty, o.Elem().Interface())
			}
		}
	}
}

// whatever the bytes, the decoder answers, consumes a prefix, and allocates no more than the input justifies
func TestVerifArbitrary(t *testing.T) {
	r := vfRand()
	var pool [][]byte
	for i := 0; i < 60; i++ {
		v := reflect.New(vfTypes[i%len(vfTypes)]).Elem()
		vfFill(r, v, 0)
		pool = append(pool, vfRef(v))
	}
	for tag := 0; tag < 256; tag++ {
		for _, f := range []byte{0, 1, 0x7f, 0x80, 0xff} {
			pool = append(pool, append([]byte{byte(tag)}, bytes.Repeat([]byte{f}, 9)...), append([]byte{0xc9, byte(tag)}, bytes.Repeat([]byte{f}, 8)...))
			pool = append(pool, []byte{byte(tag), f}, []byte{byte(tag)})
		}
	}
	try := func(b []byte) {
		for _, ty := range vfTypes {
			vfCase(t)
			in := append([]byte(nil), b...)
			o, rest, err := vfDec(t, in, ty)
			if err == nil && (len(rest) > len(b) || !bytes.Equal(rest, b[len(b)-len(rest):])) {
				vfFail(t, "%x as %s: left over %x is not the end of the input", b, ty, rest)
			}
			if err == nil {
				c, _ := RLP.MarshalToBytes(o.Elem().Interface())
				o2, _, err2 := vfDec(t, c, ty)
				if err2 != nil && !(err2 == ErrNilValue && bytes.Equal(c, vfNull)) || err2 == nil && !reflect.DeepEqual(o2.Elem().Interface(), o.Elem().Interface()) {
					vfFail(t, "%x as %s decodes to %+v, which encodes to %x and decodes to %+v (%v)", b, ty, o.Elem().Interface(), c, o2.Elem().Interface(), err2)
				}
			}
		}
	}
	for _, b := range pool {
		try(b)
	}
	for i := 0; i < vfN(2500, 60000); i++ {
		b := append([]byte(nil), pool[r.Intn(len(pool))]...)
		for k := r.Intn(4); k >= 0 && len(b) > 0; k-- {
			switch r.Intn(4) {
			case 0:
				b[r.Intn(len(b))] = byte(r.Intn(256))
			case 1:
				b = b[:r.Intn(len(b))]
			case 2:
				b[r.Intn(len(b))] = []byte{0xb8, 0xbf, 0xf8, 0xff, 0xc0, 0x80, 0xbb, 0xfb}[r.Intn(8)]
			case 3:
				p := r.Intn(len(b))
				b = append(b[:p:p], append(vfBytes(r, r.Intn(5)), b[p:]...)...)
			}
		}
		if len(b) > 2000 {
			b = b[:2000]
		}
		try(b)
	}
	for _, b := range [][]byte{{0xbb, 0x3f, 0xff, 0xff, 0xff}, {0xba, 0xff, 0xff, 0xff, 1}, {0xc9, 0xbb, 0x3f, 0xff, 0xff, 0xff}, {0xbf, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}} {
		for _, ty := range []reflect.Type{reflect.TypeOf([]byte{}), reflect.TypeOf([][]byte{}), reflect.TypeOf("")} {
			var m0, m1 runtime.MemStats
			runtime.ReadMemStats(&m0)
			_, _, err := vfDec(t, b, ty)
			runtime.ReadMemStats(&m1)
			if m1.TotalAlloc-m0.TotalAlloc > 8<<20 {
				vfFail(t, "decoding the %d bytes %x as %s allocated %d bytes", len(b), b, ty, m1.TotalAlloc-m0.TotalAlloc)
			}
			if err == nil {
				vfFail(t, "decoding %x as %s: no error", b, ty)
			}
		}
	}
}

type vfSlow struct {
	b []byte
	r *rand.Rand
}

func (s *vfSlow) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := 1 + s.r.Intn(3)
	if n > len(p) {
		n = len(p)
	}
	if n > len(s.b) {
		n = len(s.b)
	}
	copy(p, s.b[:n])
	s.b = s.b[n:]
	return n, nil
}

// streams of several items, with partial reads, the manual list interface, skipping and raw items
func TestVerifStream(t *testing.T) {
	r := vfRand()
	for i := 0; i < vfN(500, 10000); i++ {
		vfCase(t)
		var vs []reflect.Value
		var stream bytes.Buffer
		vfNoPanic(t, "stream", func() {
			e := RLP.NewEncoder(&stream)
			for k := 1 + r.Intn(5); k > 0; k-- {
				v := reflect.New(vfTypes[r.Intn(len(vfTypes))]).Elem()
				vfFill(r, v, 1)
				if bytes.Equal(vfRef(v), vfNull) {
					continue
				}
				vs = append(vs, v)
				if err := e.Encode(v.Interface()); err != nil {
					vfFail(t, "encode %+v: %v", v.Interface(), err)
				}
			}
			all := stream.Bytes()
			d := RLP.NewDecoder(&vfSlow{append([]byte(nil), all...), r})
			rr := &rlpReader{reader: bytes.NewReader(all)}
			sk := &rlpReader{reader: bytes.NewReader(all)}
			for _, v := range vs {
				o := reflect.New(v.Type())
				if err := d.Decode(o.Interface()); err != nil || !reflect.DeepEqual(o.Elem().Interface(), v.Interface()) {
					vfFail(t, "stream %x: item %+v read as %+v (%v)", all, v.Interface(), o.Elem().Interface(), err)
					return
				}
				raw, err := rr.ReadRaw()
				if err != nil || !bytes.Equal(raw, vfRef(v)) {
					vfFail(t, "stream %x: raw item %x want %x (%v)", all, raw, vfRef(v), err)
					return
				}
			}
			if err := sk.Skip(len(vs)); err != nil {
				vfFail(t, "stream %x: Skip(%d): %v", all, len(vs), err)
			} else if rest, _ := io.ReadAll(sk.reader); len(rest) != 0 {
				vfFail(t, "stream %x: Skip(%d) leaves %x", all, len(vs), rest)
			}
			if err := d.Decode(new(int)); err == nil {
				vfFail(t, "stream %x: an item after the end", all)
			}
		})
		// EncodeList / EncodeMulti
		a, b := int64(r.Uint64()), vfRB(r)
		var buf bytes.Buffer
		enc := NewEncoder(&rlpWriter{writer: &buf})
		in := &vfIn{3, []byte("in")}
		var np *vfIn
		if err := enc.EncodeListOf(a, b, in, np, []byte(nil)); err != nil {
			vfFail(t, "EncodeListOf: %v", err)
		}
		want := vfL(vfNum(big.NewInt(a)), vfB(b), vfL([]byte{3}, vfB([]byte("in"))), vfNull, vfNull)
		if !bytes.Equal(buf.Bytes(), want) {
			vfFail(t, "EncodeListOf gives %x want %x", buf.Bytes(), want)
		}
		var a2 int64
		var b2 []byte
		var in2, np2 *vfIn
		nb := []byte("x")
		np2 = &vfIn{}
		dec := NewDecoder(&rlpReader{reader: bytes.NewReader(append(want, 5))})
		if err := dec.DecodeListOf(&a2, &b2, &in2, &np2, &nb); err != nil || a2 != a || !bytes.Equal(b2, b) || !reflect.DeepEqual(in2, in) || np2 != nil || nb != nil {
			vfFail(t, "DecodeListOf(%x): %v %x %+v %+v %v (%v)", want, a2, b2, in2, np2, nb, err)
		}
		var five int
		if err := dec.Decode(&five); err != nil || five != 5 {
			vfFail(t, "item after a list: %d (%v)", five, err)
		}
	}
}
