package client

import (
	"encoding/base64"
	"encoding/json"
	"errors"

	"github.com/icon-project/btp/common/crypto"
	zzv "github.com/icon-project/btp/common/zzv"
)

// zzEsc21 is a text as the ICON transaction specification writes it.
func zzEsc21(s string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		b := s[i]
		if zzv.Or(b == '\\', b == '.', b == '{', b == '}', b == '[', b == ']') {
			r += "\\"
		}
		r += string([]byte{b})
	}
	return r
}

// zzText21 serializes a value after the ICON transaction specification; the
// keys of an object are given in their order.
type zzObj21 struct {
	k []string
	v []interface{}
}

func zzText21(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "\\0"
	case string:
		return zzEsc21(x)
	case []interface{}:
		r := "["
		for i, e := range x {
			if i > 0 {
				r += "."
			}
			r += zzText21(e)
		}
		return r + "]"
	case zzObj21:
		return "{" + zzBody21(x) + "}"
	}
	panic("kind")
}

func zzBody21(o zzObj21) string {
	r := ""
	for i, k := range o.k {
		if i > 0 {
			r += "."
		}
		r += zzEsc21(k) + "." + zzText21(o.v[i])
	}
	return r
}

// zzPlain21 gives the value to the code: objects as maps, filled in any order.
func zzPlain21(v interface{}) interface{} {
	switch x := v.(type) {
	case []interface{}:
		r := make([]interface{}, len(x))
		for i := range x {
			r[i] = zzPlain21(x[i])
		}
		return r
	case zzObj21:
		m := make(map[string]interface{})
		for i := range x.k {
			m[x.k[len(x.k)-1-i]] = zzPlain21(x.v[len(x.k)-1-i])
		}
		return m
	}
	return v
}

func zzVal21(n string, depth int, nonEmpty bool) interface{} {
	hi := 3
	if depth == 0 {
		hi = 1
	}
	switch zzv.Choose(n+"k", 0, hi) {
	case 0:
		return nil
	case 1:
		lo := 0
		if nonEmpty {
			lo = 1
		}
		m := 1 + depth
		return zzv.Str(n, zzv.Choose(n+"l", lo, m))
	case 2:
		l := make([]interface{}, zzv.Choose(n+"n", 0, 2))
		for i := range l {
			l[i] = zzVal21(n+string(rune('a'+i)), depth-1, i == 0)
		}
		return l
	}
	return zzDict21(n, depth-1, 2)
}

func zzDict21(n string, depth, max int) zzObj21 {
	c := zzv.Choose(n+"n", 0, max)
	o := zzObj21{}
	for i := 0; i < c; i++ {
		k := zzv.Str(n+"key", zzv.Choose(n+"kl", 0, 1))
		if i > 0 {
			zzv.Assume(o.k[i-1] < k)
		}
		o.k = append(o.k, k)
		o.v = append(o.v, zzVal21(n+"v"+string(rune('0'+i)), depth, false))
	}
	return o
}

func VH_C21_serialized() {
	zzv.MapOrder(true)
	d := 1
	if zzv.Thorough() {
		d = 2
	}
	o := zzDict21("d", d, 1)
	bs, err := SerializeMap(zzPlain21(o).(map[string]interface{}), nil, nil)
	zzv.Assert(err == nil, "texts, lists, objects and null can be serialized")
	zzv.Assert(string(bs) == zzBody21(o), "a value is serialized as the ICON transaction specification tells")
	zzv.Reach("serialized")
}

func VH_C21_order() {
	zzv.MapOrder(true)
	o := zzObj21{}
	for i := zzv.Choose("n", 2, 3); i > 0; i-- {
		k := zzSafe21("k", 0, 2)
		if len(o.k) > 0 {
			zzv.Assume(o.k[len(o.k)-1] < k)
		}
		o.k, o.v = append(o.k, k), append(o.v, string(rune('0'+i)))
	}
	bs, err := SerializeMap(zzPlain21(o).(map[string]interface{}), nil, nil)
	zzv.Assert(err == nil && string(bs) == zzBody21(o), "the entries are serialized in the order of their keys")
	zzv.Reach("ordered")
}

// Only the entries of the outermost object are left out.
func VH_C21_excluded() {
	zzv.MapOrder(true)
	s, a, b := zzSafe21("s", 1, 1), zzSafe21("a", 1, 1), zzv.Str("b", 1)
	m := map[string]interface{}{
		"signature": s,
		"value":     a,
		"data":      map[string]interface{}{"signature": b},
	}
	bs, err := SerializeMap(m, nil, map[string]bool{"signature": true})
	zzv.Assert(err == nil && string(bs) == "data.{signature."+zzEsc21(b)+"}.value."+zzEsc21(a), "only the outer signature is left out")
	bs, err = SerializeMap(m, map[string]bool{"signature": true, "value": true}, map[string]bool{"value": true})
	zzv.Assert(err == nil && string(bs) == "signature."+zzEsc21(s), "only the included entries are serialized")
	zzv.Reach("excluded")
}

func VH_C21_json() {
	js := []byte(`{"signature":"x","value":"a.b","data":{"b":["{","\\"],"a":null}}`)
	bs, err := SerializeJSON(js, nil, map[string]bool{"signature": true})
	zzv.Assert(err == nil && string(bs) == `data.{a.\0.b.[\{.\\]}.value.a\.b`, "a JSON object is serialized like the map it stands for")
	_, err = SerializeJSON([]byte(`{"a":true}`), nil, nil)
	zzv.Assert(err != nil, "a value of another kind is refused")
	_, err = SerializeJSON([]byte(`{"d":{"l":["a",true]}}`), nil, nil)
	zzv.Assert(err != nil, "a value of another kind is refused at any depth")
	_, err = SerializeJSON([]byte(`{"a":`), nil, nil)
	zzv.Assert(err != nil, "broken JSON is refused")
	zzv.Reach("json")
}

type zzWallet21 struct {
	asked []byte
	sig   []byte
	err   error
}

func (w *zzWallet21) Sign(data []byte) ([]byte, error) {
	w.asked = append([]byte{}, data...)
	return w.sig, w.err
}
func (w *zzWallet21) Address() string { return "hx0" }

// zzSafe21 is a text without the characters that are escaped.
func zzSafe21(n string, lo, hi int) string {
	s := zzv.Str(n, zzv.Choose(n+"l", lo, hi))
	for i := 0; i < len(s); i++ {
		b := s[i]
		zzv.Assume(zzv.And(b != '\\', b != '.', b != '{', b != '}', b != '[', b != ']'))
	}
	return s
}

func zzStr21(n string, lo, hi int) string {
	s := zzSafe21(n, lo, hi)
	for i := 0; i < len(s); i++ {
		b := s[i]
		zzv.Assume(zzv.And(b >= 0x20, b <= 0x7e, b != '"', b != '\\', b != '<', b != '>', b != '&'))
	}
	return s
}

// zzSent21 reads the transaction back from what the client would send.
func zzSent21(p *TransactionParam) (string, map[string]interface{}) {
	js, err := json.Marshal(p)
	zzv.Assert(err == nil, "a transaction can be sent")
	var m map[string]interface{}
	zzv.Assert(json.Unmarshal(js, &m) == nil, "a transaction is a JSON object")
	keys := []string{"data", "dataType", "from", "nid", "nonce", "stepLimit", "timestamp", "to", "value", "version"}
	o := zzObj21{}
	n := 0
	for _, k := range keys {
		if v, ok := m[k]; ok {
			n++
			o.k = append(o.k, k)
			o.v = append(o.v, zzObjOf21(v))
		}
	}
	_, ok := m["signature"]
	zzv.Assert(ok && len(m) == n+1, "a transaction holds the fields of an ICON transaction and a signature")
	return "icx_sendTransaction." + zzBody21(o), m
}

func zzObjOf21(v interface{}) interface{} {
	switch x := v.(type) {
	case []interface{}:
		r := make([]interface{}, len(x))
		for i := range x {
			r[i] = zzObjOf21(x[i])
		}
		return r
	case map[string]interface{}:
		o := zzObj21{}
		for _, k := range []string{"_idx", "_msg", "_prev", "method", "params", "signature"} {
			if e, ok := x[k]; ok {
				o.k = append(o.k, k)
				o.v = append(o.v, zzObjOf21(e))
			}
		}
		zzv.Assert(len(o.k) == len(x), "known keys only")
		return o
	}
	return v
}

func zzTx21() *TransactionParam {
	opt := zzv.Choose("opt", 0, 1)
	p := &TransactionParam{
		Version:     HexInt(zzStr21("ver", 1, 1)),
		FromAddress: Address(zzStr21("from", 1, 1)),
		ToAddress:   Address(zzStr21("to", 1, 1)),
		Value:       HexInt(zzStr21("val", opt, opt)),
		StepLimit:   HexInt(zzStr21("step", 1, 1)),
		NetworkID:   HexInt(zzStr21("nid", 1, 1)),
		Nonce:       HexInt(zzStr21("nonce", 1-opt, 1-opt)),
		Signature:   zzStr21("old", 0, 1),
	}
	any := zzv.Str("any", 1)
	zzv.Assume(zzv.And(any[0] >= 0x20, any[0] <= 0x7e, any[0] != '"', any[0] != '\\', any[0] != '<', any[0] != '>', any[0] != '&'))
	switch zzv.Choose("data", 0, 4) {
	case 0:
		p.DataType = "deploy"
	case 1:
		p.DataType = "call"
		p.Data = CallData{Method: zzStr21("meth", 1, 1), Params: BMCRelayMethodParams{Prev: any, Messages: zzStr21("msg", 0, 1)}}
	case 2:
		p.DataType = "call"
		p.Data = CallData{Method: "m", Params: BMCFragmentMethodParams{Prev: "p", Messages: any, Index: HexInt(zzStr21("idx", 1, 1))}}
	case 3:
		p.DataType = zzStr21("dt", 1, 1)
		p.Data = map[string]interface{}{"signature": zzStr21("in", 0, 1)}
	}
	return p
}

// What is signed is the hash of everything sent but the signature.
func VH_C21_signed() {
	zzv.Assume(len(crypto.SHA3Sum256(nil)) == 32)
	c := &Client{}
	p := zzTx21()
	w := &zzWallet21{sig: zzv.Bytes("sig", zzv.Choose("sigl", 1, 3))}
	zzv.Assert(c.SignTransaction(w, p) == nil, "a transaction is signed")
	text, m := zzSent21(p)
	h := crypto.SHA3Sum256([]byte(text))
	zzv.Assert(zzv.BytesEq(w.asked, h), "the hash of the transaction as sent is signed")
	hb, err := p.TxHash.Value()
	zzv.Assert(err == nil && zzv.BytesEq(hb, h), "the transaction's hash is the signed one")
	sig, ok := m["signature"].(string)
	zzv.Assert(ok && sig == base64.StdEncoding.EncodeToString(w.sig), "the signature is sent in base64")
	zzv.Reach("signed")

	// signed again, as after an expiry: the old signature has no part in it
	w2 := &zzWallet21{sig: []byte{1}}
	zzv.Assert(c.SignTransaction(w2, p) == nil, "a transaction is signed again")
	text2, _ := zzSent21(p)
	zzv.Assert(zzv.BytesEq(w2.asked, crypto.SHA3Sum256([]byte(text2))), "the hash of the transaction as sent is signed again")
}

func VH_C21_refused() {
	c := &Client{}
	p := zzTx21()
	old := p.Signature
	w := &zzWallet21{err: errors.New("no key")}
	zzv.Assert(c.SignTransaction(w, p) != nil, "a wallet that does not sign is reported")
	zzv.Assert(p.Signature == old, "a transaction is not signed without the wallet")
	zzv.Reach("refused")
}
