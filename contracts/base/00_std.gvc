extern github.com/pkg/errors.New(m) (r)
  ensures r != nil
extern github.com/pkg/errors.Errorf(f, a) (r)
  ensures r != nil
extern github.com/pkg/errors.Wrap(e, m) (r)
  ensures iff(r == nil, e == nil)
extern github.com/pkg/errors.Wrapf(e, m, a) (r)
  ensures iff(r == nil, e == nil)
extern github.com/pkg/errors.WithStack(e) (r)
  ensures iff(r == nil, e == nil)
extern errors.New(m) (r)
  ensures r != nil
extern fmt.Errorf(f, a) (r)
  note an error of fmt, not one of the relay's own types
  ensures r != nil && fmterr(r)
extern fmt.Sprintf(f, a) (r)
extern fmt.Sprint(a) (r)
extern fmt.Println(a) (n, err)
extern fmt.Printf(f, a) (n, err)
