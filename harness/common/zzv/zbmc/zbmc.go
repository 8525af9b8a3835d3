// Package zbmc is the destination side of an ICON relay: a node that accepts
// transactions to the BMC and tells their results, as scripted.
package zbmc

import (
	"encoding/json"
	"sync"

	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common/jsonrpc"
	"github.com/icon-project/btp/common/types"
	zzv "github.com/icon-project/btp/common/zzv"
	"github.com/icon-project/btp/common/zzv/znode"
	"github.com/icon-project/btp/common/zzv/zrelay"
)

const (
	Src = types.BtpAddress("btp://0x1.icon/cx01")
	Dst = types.BtpAddress("btp://0x2.icon/cx02")
)

// Tx is a transaction the node was given.
type Tx struct {
	Method, Prev, Msg, Idx string
	From, To, Nid, Step    string
	Stamp, Sig             string
	Extra                  bool // has fields it should not have
}

// Answer of the node: an error if Code is not 0, otherwise a result.
type Answer struct {
	Code    int
	Message string
	Hash    string // of a transaction
	Status  string // of a result
	Failure string // code of a result, none if empty
}

var (
	Sends   []Answer // to transactions, in turn; the last one repeats
	Results []Answer // to questions for a result, in turn; the last one repeats
	Status  *client.BMCStatus
	Txs     []Tx
	Asked   []string // hashes asked for
	Queried []string // links the status was asked for
	Signed  [][]byte
	mtx     sync.Mutex
)

func Reset() {
	Sends, Results, Status, Txs, Asked, Queried, Signed = nil, nil, nil, nil, nil, nil, nil
}

type Wallet struct{}

func (Wallet) Address() string { return "hxaa" }
func (Wallet) Sign(d []byte) ([]byte, error) {
	Signed = append(Signed, append([]byte{}, d...))
	return []byte{byte(len(Signed)), 1, 2}, nil
}

func pick(l []Answer, n int) Answer {
	if n > len(l) {
		n = len(l)
	}
	return l[n-1]
}

func sent(t Tx) Answer {
	defer zrelay.Lock(&mtx)()
	Txs = append(Txs, t)
	return pick(Sends, len(Txs))
}

func asked(h string) Answer {
	defer zrelay.Lock(&mtx)()
	Asked = append(Asked, h)
	return pick(Results, len(Asked))
}

func status(link string) *client.BMCStatus {
	defer zrelay.Lock(&mtx)()
	Queried = append(Queried, link)
	return Status
}

//verif:replace (*github.com/icon-project/btp/common/jsonrpc.Client).Do
func zzDo(c *jsonrpc.Client, method string, req, resp interface{}) (*jsonrpc.Response, error) {
	var a Answer
	switch method {
	case "icx_sendTransaction":
		p := req.(*client.TransactionParam)
		t := Tx{From: string(p.FromAddress), To: string(p.ToAddress), Nid: string(p.NetworkID), Step: string(p.StepLimit), Stamp: string(p.Timestamp), Sig: p.Signature}
		t.Extra = p.Value != "" || p.Nonce != "" || p.DataType != "call" || p.Version != "0x3"
		d := p.Data.(*client.CallData)
		t.Method = d.Method
		switch m := d.Params.(type) {
		case *client.BMCRelayMethodParams:
			t.Prev, t.Msg = m.Prev, m.Messages
		case *client.BMCFragmentMethodParams:
			t.Prev, t.Msg, t.Idx = m.Prev, m.Messages, string(m.Index)
		default:
			panic("unexpected params")
		}
		if a = sent(t); a.Code == 0 {
			*(resp.(*client.HexBytes)) = client.HexBytes(a.Hash)
		}
	case "icx_getTransactionResult":
		if a = asked(string(req.(*client.TransactionHashParam).Hash)); a.Code == 0 {
			r := resp.(*client.TransactionResult)
			r.Status = client.HexInt(a.Status)
			if a.Failure != "" {
				r.Failure = &struct {
					CodeValue    client.HexInt `json:"code"`
					MessageValue string        `json:"message"`
				}{client.HexInt(a.Failure), "failed"}
			}
		}
	case "icx_call":
		p := req.(*client.CallParam)
		d := p.Data.(client.CallData)
		if d.Method != "getStatus" || p.ToAddress != "cx02" {
			panic("unexpected call")
		}
		st := status(d.Params.(client.BMCStatusParams).Target)
		if st == nil {
			a = Answer{Code: -31004, Message: "not found"}
		} else {
			*(resp.(*client.BMCStatus)) = *st
		}
	default:
		panic("unexpected method")
	}
	if a.Code != 0 {
		return nil, &jsonrpc.Error{Code: jsonrpc.ErrorCode(a.Code), Message: a.Message}
	}
	return nil, nil
}

// Node gives the endpoint of the destination chain.
func Node() (string, func()) {
	if zzv.Symbolic() {
		return "http://node", func() {}
	}
	return znode.Serve(func(method string, params json.RawMessage) (interface{}, int, string) {
		switch method {
		case "icx_sendTransaction":
			var p struct {
				From, To, Nid, StepLimit, Timestamp, Signature string
				Version, Value, Nonce, DataType                string
				Data                                           struct {
					Method string
					Params struct {
						Prev string `json:"_prev"`
						Msg  string `json:"_msg"`
						Idx  string `json:"_idx"`
					}
				}
			}
			json.Unmarshal(params, &p)
			d := p.Data
			a := sent(Tx{Method: d.Method, Prev: d.Params.Prev, Msg: d.Params.Msg, Idx: d.Params.Idx, From: p.From, To: p.To,
				Nid: p.Nid, Step: p.StepLimit, Stamp: p.Timestamp, Sig: p.Signature,
				Extra: p.Value != "" || p.Nonce != "" || p.DataType != "call" || p.Version != "0x3"})
			return a.Hash, a.Code, a.Message
		case "icx_getTransactionResult":
			var p struct{ TxHash string }
			json.Unmarshal(params, &p)
			a := asked(p.TxHash)
			r := map[string]interface{}{"status": a.Status}
			if a.Failure != "" {
				r["failure"] = map[string]string{"code": a.Failure, "message": "failed"}
			}
			return r, a.Code, a.Message
		case "icx_call":
			var p struct {
				Data struct {
					Params struct {
						Link string `json:"_link"`
					}
				}
			}
			json.Unmarshal(params, &p)
			if st := status(p.Data.Params.Link); st != nil {
				return st, 0, ""
			}
		}
		return nil, -31004, "not found"
	}, nil, false)
}
