// overlay: common/link
package link

import (
	"bytes"
	"fmt"
	"math/rand"
	"testing"
	"time"

	"github.com/icon-project/btp/chain"
	"github.com/icon-project/btp/common/errors"
	"github.com/icon-project/btp/common/log"
	"github.com/icon-project/btp/common/types"
)

type vfStatus struct{ h, s int64 }

func (s vfStatus) Height() int64 { return s.h }
func (s vfStatus) Seq() int64    { return s.s }

type vfItem struct {
	w        *vfWorld
	id       int
	t        MessageItemType
	size     int64
	h, seq   int64
	ph       int64
	from, to int64
}

func (i *vfItem) Type() MessageItemType { return i.t }
func (i *vfItem) Len() int64            { return i.size }
func (i *vfItem) UpdateBMCLinkStatus(b *types.BMCLinkStatus) error {
	i.w.applied = append(i.w.applied, i.id)
	switch i.t {
	case TypeBlockUpdate:
		b.Verifier.Height = i.h
	case TypeMessageProof:
		b.RxSeq = i.seq
	}
	return nil
}
func (i *vfItem) ProofHeight() int64  { return i.ph }
func (i *vfItem) SrcHeight() int64    { return i.h }
func (i *vfItem) TargetHeight() int64 { return i.h }
func (i *vfItem) StartSeqNum() int64  { return i.from }
func (i *vfItem) LastSeqNum() int64   { return i.to }

type vfSent struct {
	id    int
	items string
	bls   types.BMCLinkStatus
	msg   *relayMessage
}

// a world is a receiver and a sender
type vfWorld struct {
	t        *testing.T
	r        *rand.Rand
	seen     []vfStatus
	applied  []int
	sent     []vfSent
	limit    int
	maxItem  int
	next     int
	failAt   int
	relayErr int
	ph       int64
	bproof   bool
	status   types.BMCLinkStatus
	cur      *types.BMCLinkStatus
	what     string
}

func (w *vfWorld) item(t MessageItemType) *vfItem {
	w.next++
	return &vfItem{w: w, id: w.next, t: t, size: int64(1 + w.r.Intn(w.maxItem)), ph: w.ph}
}
func (w *vfWorld) Start(bls *types.BMCLinkStatus) (<-chan ReceiveStatus, error) { return nil, nil }
func (w *vfWorld) Stop()                                                        {}
func (w *vfWorld) GetStatus() (ReceiveStatus, error)                            { return w.seen[len(w.seen)-1], nil }
func (w *vfWorld) GetHeightForSeq(seq int64) int64 {
	for _, s := range w.seen {
		if seq < s.s {
			return s.h
		}
	}
	return 0
}
func (w *vfWorld) BuildBlockUpdate(bls *types.BMCLinkStatus, limit int64) ([]BlockUpdate, error) {
	var o []BlockUpdate
	n := 1 + w.r.Intn(3)
	for _, s := range w.seen {
		if s.h > bls.Verifier.Height && len(o) < n {
			i := w.item(TypeBlockUpdate)
			i.h = s.h
			o = append(o, i)
		}
	}
	if len(o) == 0 {
		return nil, errors.New("no block")
	}
	return o, nil
}
func (w *vfWorld) BuildBlockProof(bls *types.BMCLinkStatus, height int64) (BlockProof, error) {
	if !w.bproof {
		return nil, nil
	}
	return w.item(TypeBlockProof), nil
}
func (w *vfWorld) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (MessageProof, error) {
	for _, s := range w.seen {
		if s.h == bls.Verifier.Height {
			if s.s <= bls.RxSeq {
				return nil, nil
			}
			i := w.item(TypeMessageProof)
			i.seq = bls.RxSeq + 1 + w.r.Int63n(s.s-bls.RxSeq)
			return i, nil
		}
	}
	return nil, nil
}
func vfEnc(l []RelayMessageItem) string {
	o := ""
	for _, i := range l {
		o += fmt.Sprintf("%d,", i.(*vfItem).id)
	}
	return o
}
func (w *vfWorld) BuildRelayMessage(l []RelayMessageItem) ([]byte, error) {
	if w.failAt > 0 {
		w.failAt--
		if w.failAt == 0 {
			return nil, errors.New("no message")
		}
	}
	return []byte("<" + vfEnc(l) + ">"), nil
}

type vfSender struct{ *vfWorld }

func (w vfSender) Start() (<-chan types.SenderMessage, error) { return nil, nil }
func (w vfSender) GetStatus() (*types.BMCLinkStatus, error) {
	b := w.status
	return &b, nil
}
func (w vfSender) GetMarginForLimit() int64 { return 0 }
func (w vfSender) TxSizeLimit() int         { return w.limit }
func (w vfSender) Relay(m types.RelayMessage) (int, error) {
	rm := m.(*relayMessage)
	e := string(m.Bytes())
	s := vfSent{id: m.Id(), items: e[1 : len(e)-1], bls: *w.cur, msg: rm}
	if len(s.items) == 0 {
		vfFail(w.t, "%s: an empty relay message was sent", w.what)
	}
	if vfEnc(rm.RelayMessageItems()) != s.items {
		vfFail(w.t, "%s: message %q holds items %s", w.what, e, vfEnc(rm.RelayMessageItems()))
	}
	if m.Size() != int64(len(e)) {
		vfFail(w.t, "%s: message of %d bytes says size %d", w.what, len(e), m.Size())
	}
	w.sent = append(w.sent, s)
	if w.relayErr > 0 && w.r.Intn(w.relayErr) == 0 {
		return 0, errors.New("not relayed")
	}
	return m.Id(), nil
}

func vfLink(w *vfWorld) *Link {
	l := NewLink(&chain.Config{Src: chain.BaseConfig{Address: "btp://0x1.icon/cx00"}, Dst: chain.BaseConfig{Address: "btp://0x2.icon/cx00"}}, w, log.New()).(*Link)
	l.s = vfSender{w}
	l.limitSize = int64(w.limit)
	return l
}

func vfCheck(w *vfWorld, all bool) {
	want := ""
	for _, i := range w.applied {
		want += fmt.Sprintf("%d,", i)
	}
	got := ""
	for _, s := range w.sent {
		got += s.items
	}
	if got != want && (all || len(got) > len(want) || want[:len(got)] != got) {
		vfFail(w.t, "%s: items applied to the status: %s items sent: %s", w.what, want, got)
	}
	for _, s := range w.sent {
		b := s.msg.BMCLinkStatus()
		if b.RxSeq != s.bls.RxSeq || b.Verifier.Height != s.bls.Verifier.Height {
			vfFail(w.t, "%s: message of items %s was sent at status height %d rxSeq %d, but remembers height %d rxSeq %d", w.what, s.items, s.bls.Verifier.Height, s.bls.RxSeq, b.Verifier.Height, b.RxSeq)
		}
	}
}

func vfWorldOf(t *testing.T, r *rand.Rand) *vfWorld {
	w := &vfWorld{t: t, r: r, limit: []int{0, 5, 20, 100, 100000}[r.Intn(5)], maxItem: []int{1, 10, 60}[r.Intn(3)], bproof: r.Intn(2) == 0, ph: int64(r.Intn(3) - 1)}
	if r.Intn(3) == 0 {
		w.relayErr = 1 + r.Intn(3)
	}
	if r.Intn(3) == 0 {
		w.failAt = 1 + r.Intn(6)
	}
	return w
}

func TestVerifBuild(t *testing.T) {
	r := vfRand()
	for k := 0; k < vfN(3000, 40000); k++ {
		vfCase(t)
		w := vfWorldOf(t, r)
		bls := &types.BMCLinkStatus{}
		w.cur = bls
		l := vfLink(w)
		h, s := int64(r.Intn(5)), int64(0)
		bls.Verifier.Height = h
		w.what = fmt.Sprintf("limit %d items up to %d block proofs %v proof height %d fail at %d", w.limit, w.maxItem, w.bproof, w.ph, w.failAt)
		vfNoPanic(t, w.what, func() {
			for b := 0; b < 1+r.Intn(5); b++ {
				for n := 1 + r.Intn(2); n > 0; n-- {
					h += 1 + int64(r.Intn(3))
					s += int64(r.Intn(4))
					w.seen = append(w.seen, vfStatus{h, s})
					w.what += fmt.Sprintf(" (height %d seq %d)", h, s)
					l.rss = append(l.rss, vfStatus{h, s})
				}
				err := l.BuildRelayMessage(bls)
				if err == nil && w.failAt > 0 || w.failAt == 0 && err == nil {
					vfCheck(w, true)
				} else {
					vfCheck(w, false)
				}
			}
			w.failAt, w.relayErr = 0, 0
			for bls.Verifier.Height < h {
				if err := l.BuildRelayMessage(bls); err != nil {
					vfFail(t, "%s: %v", w.what, err)
				}
				vfCheck(w, true)
			}
			h++
			w.seen = append(w.seen, vfStatus{h, s + 2})
			l.rss = append(l.rss, vfStatus{h, s + 2})
			if err := l.BuildRelayMessage(bls); err != nil {
				vfFail(t, "%s: %v", w.what, err)
			}
			vfCheck(w, true)
			if bls.RxSeq != s+2 {
				vfFail(t, "%s: all blocks built, rxSeq is %d, the last message is %d", w.what, bls.RxSeq, s+2)
			}
		})
	}
}

// the link starts inside a block
func TestVerifRestart(t *testing.T) {
	r := vfRand()
	for k := 0; k < vfN(1000, 10000); k++ {
		vfCase(t)
		w := vfWorldOf(t, r)
		w.failAt, w.relayErr = 0, 0
		n := int64(1 + r.Intn(5))
		h := int64(1 + r.Intn(3))
		w.seen = []vfStatus{{h, n}}
		bls := &types.BMCLinkStatus{RxSeq: r.Int63n(n + 1)}
		bls.Verifier.Height = h
		w.cur = bls
		l := vfLink(w)
		l.rss = append(l.rss, w.seen[0])
		w.what = fmt.Sprintf("limit %d, start at height %d rxSeq %d of %d", w.limit, h, bls.RxSeq, n)
		vfNoPanic(t, w.what, func() {
			if err := l.checkStatus(bls); err != nil {
				vfFail(t, "%s: %v", w.what, err)
			}
			vfCheck(w, true)
		})
	}
}

func vfIds(l []*relayMessage) string {
	o := ""
	for _, m := range l {
		o += fmt.Sprintf("%d ", m.Id())
	}
	return o
}

func TestVerifClear(t *testing.T) {
	r := vfRand()
	for k := 0; k < vfN(3000, 30000); k++ {
		vfCase(t)
		w := vfWorldOf(t, r)
		l := vfLink(w)
		h, s := int64(r.Intn(3)), int64(0)
		n := r.Intn(6)
		for j := 0; j < n; j++ {
			b := &types.BMCLinkStatus{RxSeq: s}
			b.Verifier.Height = h
			l.rms = append(l.rms, &relayMessage{id: 100 + j, bls: b, message: []byte{byte(j)}})
			l.rss = append(l.rss, vfStatus{h, s})
			h += int64(r.Intn(3))
			s += int64(r.Intn(3))
		}
		q := &types.BMCLinkStatus{RxSeq: int64(r.Intn(10))}
		q.Verifier.Height = int64(r.Intn(10))
		what := fmt.Sprintf("status height %d rxSeq %d, messages", q.Verifier.Height, q.RxSeq)
		m, c := 0, 0
		for j, x := range l.rms {
			what += fmt.Sprintf(" (%d/%d)", x.bls.Verifier.Height, x.bls.RxSeq)
			if x.bls.Verifier.Height <= q.Verifier.Height && x.bls.RxSeq <= q.RxSeq {
				m = j + 1
			}
		}
		c = m
		rms := append([]*relayMessage{}, l.rms...)
		rss := append([]ReceiveStatus{}, l.rss...)
		id := 99 + r.Intn(n+2)
		vfNoPanic(t, what, func() {
			if x := l.searchRelayMessage(id); (x == nil) != (id < 100 || id >= 100+n) || x != nil && x.id != id {
				vfFail(t, "%s: search of %d", what, id)
			}
			l.clearRelayMessage(q)
			l.clearReceiveStatus(q)
		})
		if vfIds(l.rms) != vfIds(rms[m:]) {
			vfFail(t, "%s: messages kept: %s want %s", what, vfIds(l.rms), vfIds(rms[m:]))
		}
		if fmt.Sprint(l.rss) != fmt.Sprint(rss[c:]) {
			vfFail(t, "%s: receive statuses kept: %v want %v", what, l.rss, rss[c:])
		}
		// results: each twice, which a lock held would block
		l.rms = rms
		for z := 0; z < 2; z++ {
			id := 99 + r.Intn(n+2)
			want := l.rms
			for j, x := range l.rms {
				if x.id == id {
					want = l.rms[j+1:]
				}
			}
			ids := vfIds(want)
			done := make(chan bool)
			go func() {
				defer close(done)
				vfNoPanic(t, fmt.Sprintf("result of %d", id), func() {
					if err := l.result(&types.RelayResult{Id: id, Err: BMVAlreadyVerified}); err != nil {
						t.Errorf("result: %v", err)
					}
				})
			}()
			select {
			case <-done:
			case <-time.After(10 * time.Second):
				vfFail(t, "result number %d does not return", z+1)
			}
			if vfIds(l.rms) != ids {
				vfFail(t, "messages %safter result %d already verified: %s, want %s", vfIds(rms), id, vfIds(l.rms), ids)
			}
		}
	}
}

// a block witness which is too old and blocks which cannot be verified
func TestVerifResult(t *testing.T) {
	r := vfRand()
	for k := 0; k < vfN(500, 5000); k++ {
		vfCase(t)
		w := vfWorldOf(t, r)
		w.failAt, w.relayErr = 0, 0
		w.seen = []vfStatus{{2, 3}, {5, 6}}
		l := vfLink(w)
		l.rss = append(l.rss, w.seen[0], w.seen[1])
		w.cur = &types.BMCLinkStatus{}
		w.what = fmt.Sprintf("limit %d results", w.limit)
		for z := 0; z < 3; z++ {
			code := []errors.Code{BMVNotVerifiable, BMVRevertInvalidBlockWitnessOld, BMVAlreadyVerified}[r.Intn(3)]
			id := 7
			if len(l.rms) > 0 {
				id = l.rms[r.Intn(len(l.rms))].id
			}
			done := make(chan bool)
			go func() {
				defer close(done)
				vfNoPanic(t, fmt.Sprintf("limit %d result of %d: %d", w.limit, id, code), func() {
					if err := l.result(&types.RelayResult{Id: id, Err: code}); err != nil {
						t.Errorf("result: %v", err)
					}
				})
			}()
			select {
			case <-done:
			case <-time.After(10 * time.Second):
				vfFail(t, "result %d does not return", code)
			}
			want, got := "", ""
			for _, i := range w.applied {
				want += fmt.Sprintf("%d,", i)
			}
			for _, s := range w.sent {
				got += s.items
			}
			if got != want {
				vfFail(t, "%s: items applied to the status: %s items sent: %s", w.what, want, got)
			}
			for _, m := range l.rms {
				if !bytes.Contains([]byte(fmt.Sprint(vfSentIds(w))), []byte(fmt.Sprintf(" %d ", m.id))) {
					vfFail(t, "%s: remembers message %d which was not sent", w.what, m.id)
				}
			}
		}
	}
}
func vfSentIds(w *vfWorld) string {
	o := " "
	for _, s := range w.sent {
		o += fmt.Sprintf("%d ", s.id)
	}
	return o
}
