// overlay: common/errors
package errors

import (
	"fmt"
	"testing"
)

func TestVerifCode(t *testing.T) {
	r := vfRand()
	for k := 0; k < vfN(5000, 50000); k++ {
		vfCase(t)
		var e, first error
		code, has := Code(0), false
		c := Code(r.Intn(3000))
		what := ""
		switch r.Intn(4) {
		case 0:
			what = "nil"
		case 1:
			e, what = fmt.Errorf("x"), "plain"
		case 2:
			e, what, code, has = NewBase(c, "b"), fmt.Sprintf("base %d", c), c, true
		case 3:
			e, what, code, has = Errorc(c, "b"), fmt.Sprintf("coded %d", c), c, true
		}
		first = e
		vfNoPanic(t, what, func() {
			for n := r.Intn(5); n > 0; n-- {
				c := Code(r.Intn(3000))
				switch r.Intn(6) {
				case 0:
					e, what = Wrap(e, "m"), what+" wrap"
				case 1:
					e, what = Wrapf(e, "m%d", 1), what+" wrapf"
				case 2:
					e, what, code, has = Wrapc(e, c, "m"), what+fmt.Sprintf(" wrapc %d", c), c, true
				case 3:
					e, what, code, has = c.Wrapf(e, "m%d", 1), what+fmt.Sprintf(" wrapcf %d", c), c, true
				case 4:
					if e != nil {
						e, what = WithStack(e), what+" stack"
					}
				case 5:
					if e != nil {
						e, what, code, has = WithCode(e, c), what+fmt.Sprintf(" withcode %d", c), c, true
					}
				}
			}
			co, ok := CoderOf(e)
			if ok != has || ok && co.ErrorCode() != code {
				vfFail(t, "%s: has code %v want %v %d", what, ok, has, code)
			}
			if CodeOf(e) != code {
				vfFail(t, "%s: code %d want %d", what, CodeOf(e), code)
			}
			if code.Equals(e) != (e != nil) || (code + 1).Equals(e) {
				vfFail(t, "%s: equality with code %d", what, code)
			}
			if first != nil && !Is(e, first) {
				vfFail(t, "%s: is not the error it was made of", what)
			}
			if Is(e, ErrTimeout) {
				vfFail(t, "%s: is an unrelated error", what)
			}
		})
	}
}
