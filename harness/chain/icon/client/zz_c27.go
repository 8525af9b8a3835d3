package client

import (
	"encoding/hex"
	"encoding/json"

	"github.com/icon-project/btp/common/jsonrpc"
	"github.com/icon-project/btp/common/types"
	zzv "github.com/icon-project/btp/common/zzv"
	"github.com/icon-project/btp/common/zzv/znode"
)

// The node: what it was asked, and the JSON text it answers.
var (
	zzAsked27  []string
	zzParams27 []json.RawMessage
	zzReply27  string
)

//verif:replace (*github.com/icon-project/btp/common/jsonrpc.Client).Do
func zzDo27(c *jsonrpc.Client, method string, req, resp interface{}) (*jsonrpc.Response, error) {
	b, err := json.Marshal(req)
	if err != nil {
		return nil, err
	}
	zzAsked27 = append(zzAsked27, method)
	zzParams27 = append(zzParams27, b)
	if zzReply27 == "" {
		return nil, &jsonrpc.Error{Code: -31004, Message: "no"}
	}
	return nil, json.Unmarshal([]byte(zzReply27), resp)
}

func zzClient27(reply string) (*Client, func()) {
	zzAsked27, zzParams27, zzReply27 = nil, nil, reply
	if zzv.Symbolic() {
		return NewClient("http://127.0.0.1:1", znode.L{}), func() {}
	}
	url, stop := znode.Serve(func(m string, p json.RawMessage) (interface{}, int, string) {
		zzAsked27 = append(zzAsked27, m)
		zzParams27 = append(zzParams27, append(json.RawMessage(nil), p...))
		if zzReply27 == "" {
			return nil, -31004, "no"
		}
		return json.RawMessage(zzReply27), 0, ""
	}, nil, false)
	return NewClient(url, znode.L{}), stop
}

func zzHexDigit27(c byte) bool {
	return zzv.Or(zzv.And(c >= '0', c <= '9'), zzv.Or(zzv.And(c >= 'a', c <= 'f'), zzv.And(c >= 'A', c <= 'F')))
}

func zzIsHex27(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		ok = zzv.And(ok, zzHexDigit27(s[i]))
	}
	return ok
}

func VH_C27_hexbytes() {
	b := zzv.Bytes("b", zzv.Choose("l", 0, 5))
	s := NewHexBytes(b)
	zzv.Assert(string(s) == "0x"+hex.EncodeToString(b), "bytes are written in 0x form")
	r, err := s.Value()
	zzv.Assert(err == nil && zzv.BytesEq(r, b), "bytes are read back from their text")
	r, err = HexBytes("").Value()
	zzv.Assert(err == nil && len(r) == 0, "no text is no bytes")
	zzv.Reach("hexbytes")
}

func VH_C27_hexbytes_text() {
	m := 5
	if zzv.Thorough() {
		m = 7
	}
	n := zzv.Choose("n", 0, m)
	s := zzv.Str("s", n)
	ok := n == 0
	if n >= 2 && n%2 == 0 {
		ok = zzv.And(zzv.And(s[0] == '0', s[1] == 'x'), zzIsHex27(s[2:]))
	}
	r, err := HexBytes(s).Value()
	zzv.Assert((err == nil) == ok, "a text is read exactly if it is bytes in 0x form")
	if err == nil {
		if n > 0 {
			zzv.Assert(len(r) == n/2-1, "a text is read as a whole")
		}
		zzv.Reach("read")
	} else {
		zzv.Reach("refused")
	}
}

func VH_C27_address() {
	id := zzv.Bytes("id", 20)
	k := zzv.Choose("k", 0, 1)
	b := append([]byte{byte(k)}, id...)
	a := NewAddress(b)
	zzv.Assert(string(a) == []string{"hx", "cx"}[k]+hex.EncodeToString(id), "an address is written with its kind")
	r, err := a.Value()
	zzv.Assert(err == nil && zzv.BytesEq(r, b), "an address is read back from its text")
	zzv.Assert(NewAddress(append([]byte{zzv.U8("o")&0x7f + 2}, id...)) == "", "an address has one of two kinds")
	zzv.Assert(NewAddress(b[:20]) == "" && NewAddress(append(b, 0)) == "" && NewAddress(nil) == "", "an address has 21 bytes")
	zzv.Reach("address")
}

func VH_C27_address_text() {
	l := []int{0, 1, 2, 3, 4, 40, 41, 42, 43, 44, 46}[zzv.Choose("l", 0, 10)]
	t := make([]byte, l)
	for i := range t {
		t[i] = '7'
	}
	// any characters at the begin, in the middle and at the end
	at := []int{0, 1, 2, 20, 39, 41, 42}
	bs := zzv.Bytes("c", len(at))
	for i, p := range at {
		zzv.Assume(bs[i] < 0x80)
		if p < l {
			t[p] = bs[i]
		}
	}
	s := string(t)
	ok := false
	if l == 42 {
		ok = zzv.And(zzv.And(zzv.Or(s[0] == 'c', s[0] == 'h'), s[1] == 'x'), zzIsHex27(s[2:]))
	}
	r, err := Address(s).Value()
	zzv.Assert((err == nil) == ok, "a text is read exactly if it is an address")
	if err == nil {
		zzv.Assert(len(r) == 21 && (r[0] == 1) == (s[0] == 'c') && r[0] <= 1, "an address is read with its kind")
		zzv.Reach("read")
	} else {
		zzv.Reach("refused")
	}
}

func VH_C27_hexint() {
	v := zzv.I64("v")
	h := NewHexInt(v)
	r, err := h.Value()
	zzv.Assert(err == nil && r == v, "an integer is read back from its text")
	i, err := h.Int()
	zzv.Assert((err == nil) == (v == int64(int32(v))), "an integer fits or is refused")
	if err == nil {
		zzv.Assert(i == int(v), "an int is read back from its text")
	}
	b, err := h.BigInt()
	zzv.Assert(err == nil && b.IsInt64() && b.Int64() == v, "a big integer is read back from its text")
	zzv.Reach("hexint")
}

// zzText27 is a JSON text with arbitrary characters that need no escape.
func zzText27(n string, max int) string {
	s := zzv.Str(n, zzv.Choose(n+"l", 0, max))
	for i := 0; i < len(s); i++ {
		zzv.Assume(zzv.And(zzv.And(s[i] >= 0x20, s[i] < 0x7f), zzv.And(s[i] != '"', s[i] != '\\')))
		zzv.Assume(zzv.And(zzv.And(s[i] != '<', s[i] != '>'), s[i] != '&'))
	}
	return s
}

const (
	zzFrom27 = "hx1111111111111111111111111111111111111111"
	zzSrc27  = types.BtpAddress("btp://0x1.icon/cx2222222222222222222222222222222222222222")
	zzDst27  = types.BtpAddress("btp://0x3.icon/cx4444444444444444444444444444444444444444")
)

type zzCall27 struct {
	From     string `json:"from"`
	To       string `json:"to"`
	DataType string `json:"dataType"`
	Data     struct {
		Method string            `json:"method"`
		Params map[string]string `json:"params"`
	} `json:"data"`
}

func zzCalled27() *zzCall27 {
	zzv.Assert(len(zzAsked27) == 1 && zzAsked27[0] == "icx_call", "the node is asked once")
	p := &zzCall27{}
	zzv.Assert(json.Unmarshal(zzParams27[0], p) == nil, "the node is asked with an object")
	return p
}

// The status of a link is what the BMC tells, or an error.
func VH_C27_status() {
	f := zzv.Choose("f", 0, 3)
	v := []string{"0x1", "0x2", "0x3", "0x0405"}
	v[f] = zzText27("t", 4)
	c, stop := zzClient27(`{"tx_seq":"` + v[0] + `","rx_seq":"` + v[1] + `","verifier":{"height":"` + v[2] + `","extra":"` + v[3] + `"},"relays":[],"cur_height":"0x9"}`)
	defer stop()
	ls, err := c.GetStatus(zzFrom27, zzSrc27, zzDst27)
	p := zzCalled27()
	zzv.Assert(p.From == zzFrom27 && p.To == zzDst27.Account() && p.DataType == "call" && p.Data.Method == "getStatus" &&
		len(p.Data.Params) == 1 && p.Data.Params["_link"] == string(zzSrc27), "the BMC of the destination is asked for the link of the source")
	tx, e1 := HexInt(v[0]).Value()
	rx, e2 := HexInt(v[1]).Value()
	h, e3 := HexInt(v[2]).Value()
	x, e4 := HexBytes(v[3]).Value()
	ok := e1 == nil && e2 == nil && e3 == nil && e4 == nil
	zzv.Assert((err == nil) == ok, "a status is refused exactly if part of it is not readable")
	if err == nil {
		zzv.Assert(ls.TxSeq == tx && ls.RxSeq == rx && ls.Verifier.Height == h && zzv.BytesEq(ls.Verifier.Extra, x), "a status is what the BMC tells")
		zzv.Reach("status")
	} else {
		zzv.Assert(ls == nil, "no status without success")
		zzv.Reach("refused")
	}
}

func VH_C27_link_number() {
	t := zzText27("t", 4)
	c, stop := zzClient27(`"` + t + `"`)
	defer stop()
	k := zzv.Choose("k", 0, 1)
	var v int64
	var err error
	if k == 0 {
		v, err = c.GetBTPLinkNetworkId(zzSrc27, zzDst27)
	} else {
		v, err = c.GetBTPLinkOffset(zzSrc27, zzDst27)
	}
	p := zzCalled27()
	zzv.Assert(p.To == zzSrc27.Account() && p.Data.Method == []string{"getBTPLinkNetworkId", "getBTPLinkOffset"}[k] &&
		len(p.Data.Params) == 1 && p.Data.Params["_link"] == string(zzDst27), "the BMC of the source is asked for its link to the destination")
	w, e := HexInt(t).Value()
	zzv.Assert((err == nil) == (e == nil), "a number is read or refused")
	if err == nil {
		zzv.Assert(v == w, "a number is read as told")
		zzv.Reach("read")
	} else {
		zzv.Reach("refused")
	}
}

// What is asked of the node by height, network, hash or index is asked with
// these, and its answer is given as it is.
func VH_C27_requests() {
	h, id := NewHexInt(zzv.I64("h")&0x7fff), NewHexInt(zzv.I64("id")&0xff)
	hash := NewHexBytes(zzv.Bytes("hash", 3))
	b := zzText27("r", 2)
	b64 := []string{"", "AQ==", "AQID", "/+8="}[zzv.Choose("b64", 0, 3)]
	raw := [][]byte{nil, {1}, {1, 2, 3}, {0xff, 0xef}}[map[string]int{"": 0, "AQ==": 1, "AQID": 2, "/+8=": 3}[b64]]
	fail := zzv.Choose("fail", 0, 1) == 1
	k := zzv.Choose("k", 0, 9)
	reply := []string{`"` + b + `"`, `["` + b + `","y"]`, `"` + b + `"`, `{"startHeight":"` + b + `","networkName":"n","open":"0x1"}`, `{"height":7}`,
		`"` + b64 + `"`, `"` + b64 + `"`, `"` + b64 + `"`, `["` + b64 + `","AQ=="]`, `[["` + b64 + `"],[]]`}[k]
	if fail {
		reply = ""
	}
	c, stop := zzClient27(reply)
	defer stop()
	bp := &BTPBlockParam{Height: h, NetworkId: id}
	hp := &BlockHeightParam{Height: h}
	var err error
	same, method := true, ""
	want := map[string]string{}
	switch k {
	case 0:
		method, want = "btp_getHeader", map[string]string{"height": string(h), "networkID": string(id)}
		var r string
		r, err = c.GetBTPHeader(bp)
		same = r == b
	case 1:
		method, want = "btp_getMessages", map[string]string{"height": string(h), "networkID": string(id)}
		var r []string
		r, err = c.GetBTPMessage(bp)
		same = len(r) == 2 && r[0] == b && r[1] == "y"
	case 2:
		method, want = "btp_getProof", map[string]string{"height": string(h), "networkID": string(id)}
		var r string
		r, err = c.GetBTPProof(bp)
		same = r == b
	case 3:
		method, want = "btp_getNetworkInfo", map[string]string{"height": string(h), "id": string(id)}
		var r *BTPNetworkInfo
		r, err = c.GetBTPNetworkInfo(&BTPNetworkInfoParam{Height: h, Id: id})
		same = r != nil && string(r.StartHeight) == b
	case 4:
		method, want = "icx_getBlockByHeight", map[string]string{"height": string(h)}
		var r *Block
		r, err = c.GetBlockByHeight(hp)
		same = r != nil && r.Height == 7
	case 5:
		method, want = "icx_getBlockHeaderByHeight", map[string]string{"height": string(h)}
		var r []byte
		r, err = c.GetBlockHeaderByHeight(hp)
		same = zzv.BytesEq(r, raw)
	case 6:
		method, want = "icx_getVotesByHeight", map[string]string{"height": string(h)}
		var r []byte
		r, err = c.GetVotesByHeight(hp)
		same = zzv.BytesEq(r, raw)
	case 7:
		method, want = "icx_getDataByHash", map[string]string{"hash": string(hash)}
		var r []byte
		r, err = c.GetDataByHash(&DataHashParam{Hash: hash})
		same = zzv.BytesEq(r, raw)
	case 8:
		method, want = "icx_getProofForResult", map[string]string{"hash": string(hash), "index": string(id)}
		var r [][]byte
		r, err = c.GetProofForResult(&ProofResultParam{BlockHash: hash, Index: id})
		same = len(r) == 2 && zzv.BytesEq(r[0], raw) && zzv.BytesEq(r[1], []byte{1})
	case 9:
		method, want = "icx_getProofForEvents", map[string]string{"hash": string(hash), "index": string(id)}
		var r [][][]byte
		r, err = c.GetProofForEvents(&ProofEventsParam{BlockHash: hash, Index: id, Events: []HexInt{"0x0", h}})
		same = len(r) == 2 && len(r[0]) == 1 && len(r[1]) == 0 && zzv.BytesEq(r[0][0], raw)
	}
	zzv.Assert(len(zzAsked27) == 1 && zzAsked27[0] == method, "the node is asked for the right thing")
	var got map[string]interface{}
	zzv.Assert(json.Unmarshal(zzParams27[0], &got) == nil, "parameters are an object")
	for n, v := range want {
		s, ok := got[n].(string)
		zzv.Assert(ok && s == v, "the node is asked with the parameters given")
	}
	if k == 9 {
		l, ok := got["events"].([]interface{})
		zzv.Assert(ok && len(l) == 2 && l[0] == "0x0" && l[1] == string(h) && len(got) == 3, "the node is asked for the events given")
	} else {
		zzv.Assert(len(got) == len(want), "the node is asked with no other parameters")
	}
	zzv.Assert((err != nil) == fail, "a refusal is an error")
	if fail {
		zzv.Reach("refused")
	} else {
		zzv.Assert(same, "the answer is given as it is")
		zzv.Reach("answered")
	}
}

// A call that waits for a transaction tells the result of that transaction.
func VH_C27_results() {
	hash := NewHexBytes(zzv.Bytes("hash", 2))
	st := []string{"0x0", "0x1"}[zzv.Choose("st", 0, 1)]
	fail := zzv.Choose("fail", 0, 1) == 1
	reply := `{"status":"` + st + `","txHash":"` + string(hash) + `","failure":{"code":"0x20","message":"m"}}`
	if fail {
		reply = ""
	}
	c, stop := zzClient27(reply)
	defer stop()
	k := zzv.Choose("k", 0, 1)
	var r *TransactionResult
	var err error
	if k == 0 {
		r, err = c.GetTransactionResult(&TransactionHashParam{Hash: hash})
	} else {
		r, err = c.WaitTransactionResult(&TransactionHashParam{Hash: hash})
	}
	zzv.Assert(len(zzAsked27) == 1 && zzAsked27[0] == []string{"icx_getTransactionResult", "icx_waitTransactionResult"}[k] &&
		string(zzParams27[0]) == `{"txHash":"`+string(hash)+`"}`, "the result of this transaction is asked for")
	zzv.Assert((err != nil) == fail, "a refusal is an error")
	if !fail {
		zzv.Assert(string(r.Status) == st && r.TxHash == hash && r.Failure != nil && r.Failure.CodeValue == "0x20" && r.Failure.MessageValue == "m", "the result is given as told")
	}
	zzv.Reach("result")
}
