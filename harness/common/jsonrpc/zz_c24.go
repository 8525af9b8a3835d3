package jsonrpc

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"strconv"

	"github.com/icon-project/btp/common"
	zzv "github.com/icon-project/btp/common/zzv"
)

// What the node answers, and what it was asked.
type zzNode24 struct {
	status int
	ctype  string
	body   []byte
	fail   bool

	asked  int
	method string
	header http.Header
	req    []byte
}

var zzNow24 *zzNode24

type zzBody24 struct {
	*bytes.Reader
}

func (b *zzBody24) Close() error { return nil }

//verif:replace net/http.NewRequest
func zzRequest24(method, url string, body io.Reader) (*http.Request, error) {
	b, err := ioutil.ReadAll(body)
	if err != nil {
		return nil, err
	}
	return &http.Request{Method: method, Header: http.Header{}, Body: &zzBody24{bytes.NewReader(b)}}, nil
}

//verif:replace (*net/http.Client).Do
func zzDo24(c *http.Client, r *http.Request) (*http.Response, error) {
	n := zzNow24
	n.asked++
	if n.fail {
		return nil, errors.New("connection refused")
	}
	n.method, n.header = r.Method, r.Header
	n.req, _ = ioutil.ReadAll(r.Body)
	h := http.Header{}
	if n.ctype != "" {
		h["Content-Type"] = []string{n.ctype}
	}
	return &http.Response{StatusCode: n.status, Status: strconv.Itoa(n.status), Header: h, Body: &zzBody24{bytes.NewReader(n.body)}}, nil
}

func (n *zzNode24) serve() (*Client, func()) {
	if zzv.Symbolic() {
		zzNow24 = n
		return NewJsonRpcClient(&http.Client{}, "http://node"), func() {}
	}
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		n.asked++
		n.method, n.header = r.Method, r.Header
		n.req, _ = ioutil.ReadAll(r.Body)
		if n.ctype != "" {
			w.Header().Set("Content-Type", n.ctype)
		} else {
			w.Header()["Content-Type"] = nil
		}
		w.WriteHeader(n.status)
		w.Write(n.body)
	}))
	if n.fail {
		s.Close()
	}
	return NewJsonRpcClient(&http.Client{}, s.URL), s.Close
}

func zzText24(n string, lo, hi int) string {
	s := zzv.Str(n, zzv.Choose(n+"l", lo, hi))
	for i := 0; i < len(s); i++ {
		b := s[i]
		zzv.Assume(zzv.And(b >= 0x20, b <= 0x7e, b != '"', b != '\\', b != '<', b != '>', b != '&'))
	}
	return s
}

type zzParam24 struct {
	A string `json:"a"`
	B string `json:"b,omitempty"`
}

type zzBad24 struct{}

func (zzBad24) MarshalJSON() ([]byte, error) { return nil, errors.New("no JSON") }

var zzStatus24 = []int{200, 400, 404, 500, 503}
var zzType24 = []string{"application/json", "application/json; charset=utf-8", "text/plain", ""}

// The request names the method and carries the parameters.
func VH_C24_request() {
	n := &zzNode24{status: 200, ctype: zzType24[0], body: []byte(`{"jsonrpc":"2.0","result":"x","id":1}`)}
	c, stop := n.serve()
	defer stop()
	c.CustomHeader["X-Key"] = "k"
	pre := 0
	c.Pre = func(r *http.Request) error { pre++; r.Header.Set("X-Pre", "p"); return nil }
	m := zzText24("m", 0, 2)
	p := &zzParam24{A: zzText24("a", 0, 2), B: zzText24("b", 0, 1)}
	var res string
	_, err := c.Do(m, p, &res)
	zzv.Assert(err == nil && res == "x", "the result is handed out")
	zzv.Assert(n.asked == 1 && pre == 1, "a call is one request")
	zzv.Assert(n.method == "POST", "a request is posted")
	zzv.Assert(n.header.Get("Content-Type") == "application/json" && n.header.Get("X-Key") == "k" && n.header.Get("X-Pre") == "p", "a request has its headers")
	var q map[string]interface{}
	zzv.Assert(json.Unmarshal(n.req, &q) == nil, "a request is a JSON object")
	zzv.Assert(q["jsonrpc"] == "2.0" && q["method"] == m && q["id"] != nil, "a request names its version, method and id")
	a, ok := q["params"].(map[string]interface{})
	zzv.Assert(ok && a["a"] == p.A, "a request carries the parameters")
	b, ok := a["b"]
	zzv.Assert(ok == (p.B != "") && (!ok || b == p.B), "a request carries the parameters")
	_, err = c.Do(m, nil, nil)
	zzv.Assert(err == nil && json.Unmarshal(n.req, &q) == nil, "a call may have no parameters and no result")
	zzv.Reach("asked")
}

// A result is handed out unchanged.
func VH_C24_result() {
	r := zzText24("r", 0, 2)
	var js string
	kind := zzv.Choose("kind", 0, 3)
	js = `"` + r + `"`
	switch kind {
	case 1:
		js = `{"a":"` + r + `","b":"y"}`
	case 2:
		js = `["` + r + `","z"]`
	case 3:
		js = strconv.Itoa(zzv.Choose("num", 0, 3) * 123456789)
	}
	n := &zzNode24{status: 200, ctype: zzType24[zzv.Choose("ct", 0, 3)], body: []byte(`{"jsonrpc":"2.0","result":` + js + `,"id":1}`)}
	c, stop := n.serve()
	defer stop()
	switch kind {
	case 0:
		var s string
		x, err := c.Do("m", nil, &s)
		zzv.Assert(err == nil && s == r && x.Result == r, "the result is handed out")
		var p zzParam24
		_, err = c.Do("m", nil, &p)
		zzv.Assert(err != nil, "a result of another type is an error")
	case 1:
		var p zzParam24
		_, err := c.Do("m", nil, &p)
		zzv.Assert(err == nil && p.A == r && p.B == "y", "the result is handed out")
	case 2:
		var l []string
		_, err := c.Do("m", nil, &l)
		zzv.Assert(err == nil && len(l) == 2 && l[0] == r && l[1] == "z", "the result is handed out")
	case 3:
		var i int64
		_, err := c.Do("m", nil, &i)
		zzv.Assert(err == nil && strconv.FormatInt(i, 10) == js, "the result is handed out")
	}
	zzv.Reach("result")
}

// An error of the node is handed out with its code, whatever the status.
func VH_C24_error() {
	code := []int{-31000, -32600, -30000, 0, 5}[zzv.Choose("code", 0, 4)] - zzv.Choose("c", 0, 9)
	msg := zzText24("msg", 0, 2)
	extra := []string{"", `,"result":"x"`, `,"result":null`}[zzv.Choose("x", 0, 2)]
	st := zzStatus24[zzv.Choose("st", 0, 4)]
	ct := 0
	if st != 200 {
		ct = zzv.Choose("ct", 0, 3)
	}
	n := &zzNode24{status: st, ctype: zzType24[ct], body: []byte(`{"jsonrpc":"2.0","error":{"code":` + strconv.Itoa(code) + `,"message":"` + msg + `"},"id":1` + extra + `}`)}
	c, stop := n.serve()
	defer stop()
	res := "old"
	x, err := c.Do("m", nil, &res)
	zzv.Assert(err != nil && res == "old", "an error is no result")
	e, ok := err.(*Error)
	if st == 200 || ct < 2 {
		zzv.Assert(ok && int(e.Code) == code && e.Message == msg, "an error is handed out with its code and message")
		zzv.Assert(x != nil && x.Error == e, "the answer tells the error")
		zzv.Reach("error")
	} else {
		h, hok := err.(*common.HttpError)
		zzv.Assert(!ok && hok && h.StatusCode() == st, "another answer is an error of the transport")
		zzv.Reach("status")
	}
	zzv.Assert(err.Error() != "", "an error has a text")
}

// Whatever the node answers, it is an error unless it is a result.
func VH_C24_hostile() {
	st := zzStatus24[zzv.Choose("st", 0, 4)]
	ct := zzv.Choose("ct", 0, 3)
	if st == 404 || st == 503 {
		zzv.Assume(ct == 0)
	}
	var body []byte
	k := zzv.Choose("k", 0, 10)
	l := []string{"null", "{}", "[]", `""`, "7", `{"error":null}`, `{"error":{}}`, `{"error":"x"}`, `{"result":"x"}`, `{"result":`}
	if k < len(l) {
		body = []byte(l[k])
	} else {
		body = zzv.Bytes("body", zzv.Choose("bl", 0, 1))
		for _, b := range body {
			zzv.Assume(zzv.And(b < 0x80, b >= 0x20))
		}
	}
	n := &zzNode24{status: st, ctype: zzType24[ct], body: body}
	c, stop := n.serve()
	defer stop()
	res := "old"
	_, err := c.Do("m", nil, &res)
	if st != 200 {
		zzv.Assert(err != nil, "an answer with another status is an error")
	}
	if k == 8 && st == 200 {
		zzv.Assert(err == nil && res == "x", "a result is handed out")
	} else if k < len(l) && k != 1 && k != 5 {
		zzv.Assert(err != nil, "an answer that is no result is an error")
	}
	if err != nil {
		zzv.Assert(err.Error() != "", "an error has a text")
		zzv.Assert(res == "old", "an error is no result")
		zzv.Reach("error")
	} else {
		zzv.Reach("answer")
	}
}

func VH_C24_unreachable() {
	n := &zzNode24{status: 200, fail: true}
	c, stop := n.serve()
	if zzv.Symbolic() {
		defer stop()
	}
	x, err := c.Do("m", nil, nil)
	zzv.Assert(err != nil && x == nil, "a node that cannot be reached is an error")
	_, ok := err.(*Error)
	zzv.Assert(!ok, "a node that cannot be reached has told nothing")
	c.Pre = func(r *http.Request) error { return errors.New("not now") }
	n.asked = 0
	_, err = c.Do("m", nil, nil)
	zzv.Assert(err != nil && n.asked == 0, "a request that is held back is an error")
	_, err = c.Do("m", zzBad24{}, nil)
	zzv.Assert(err != nil && n.asked == 0, "parameters that cannot be sent are an error")
	zzv.Reach("unreachable")
}
