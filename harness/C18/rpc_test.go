// overlay: common/jsonrpc
package jsonrpc

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"sync"
	"testing"
)

func TestVerifDo(t *testing.T) {
	r := vfRand()
	var mu sync.Mutex
	var status int
	var body, ct, method, params string
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		mu.Lock()
		defer mu.Unlock()
		var jr Request
		json.NewDecoder(q.Body).Decode(&jr)
		method, params = jr.Method, string(jr.Params)
		if ct != "" {
			w.Header().Set("Content-Type", ct)
		}
		w.WriteHeader(status)
		fmt.Fprint(w, body)
	}))
	defer srv.Close()
	c := NewJsonRpcClient(&http.Client{}, srv.URL)
	for k := 0; k < vfN(2000, 20000); k++ {
		vfCase(t)
		mu.Lock()
		status = []int{200, 200, 200, 400, 404, 500, 503, 201}[r.Intn(8)]
		ct = []string{"application/json", "application/json; charset=utf-8", "text/plain", ""}[r.Intn(4)]
		val := r.Intn(1000)
		code := -32000 - r.Intn(800)
		good, rpcErr := false, false
		switch r.Intn(9) {
		case 0:
			body = ""
		case 1:
			body = "null"
		case 2:
			body = "<html>"
		case 3:
			body = `{"jsonrpc":"2.0","id":1,"error":null,"result":` + fmt.Sprint(val) + `}`
			good = true
		case 4, 5, 6:
			body = `{"jsonrpc":"2.0","id":1,"result":` + fmt.Sprint(val) + `}`
			good = true
		case 7:
			body = fmt.Sprintf(`{"jsonrpc":"2.0","id":1,"error":{"code":%d,"message":"m%d","data":%d}}`, code, val, val)
			rpcErr = true
		case 8:
			body = fmt.Sprintf(`{"jsonrpc":"2.0","id":1,"result":5,"error":{"code":%d,"message":"m%d"}}`, code, val)
			rpcErr = true
		}
		what := fmt.Sprintf("HTTP %d %s %q", status, ct, body)
		mu.Unlock()
		vfNoPanic(t, what, func() {
			got := -1
			var resp *Response
			var err error
			if r.Intn(2) == 0 {
				resp, err = c.Do(fmt.Sprintf("m%d", val), map[string]int{"a": val}, &got)
				mu.Lock()
				if method != fmt.Sprintf("m%d", val) || params != fmt.Sprintf(`{"a":%d}`, val) {
					vfFail(t, "request m%d %d arrives as %s %s", val, val, method, params)
				}
				mu.Unlock()
			} else {
				resp, err = c.Do("x", nil, nil)
				got = val
			}
			if (err == nil) != (good && status == 200) {
				vfFail(t, "%s: error %v", what, err)
			}
			if err == nil && (resp == nil || resp.Error != nil || got != val) {
				vfFail(t, "%s: result %d response %+v", what, got, resp)
			}
			if rpcErr && (status == 200 || len(ct) > 10 && ct[:4] == "appl") {
				e, ok := err.(*Error)
				if !ok || int(e.Code) != code || e.Message != fmt.Sprintf("m%d", val) {
					vfFail(t, "%s: error %v", what, err)
				}
			}
		})
	}
	srv.Close()
	if _, err := c.Do("x", nil, nil); err == nil {
		vfFail(t, "no server: no error")
	}
}
