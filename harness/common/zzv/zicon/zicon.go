// Package zicon is the source side of an ICON relay: an ICON node with BTP
// blocks. Symbolically
// the node answers through replaced client calls; natively it is a real HTTP
// and websocket server.
package zicon

import (
	"encoding/base64"
	"encoding/json"
	"io"
	"net"
	"net/http"
	"sync"
	"time"

	"github.com/gorilla/websocket"

	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common/codec"
	"github.com/icon-project/btp/common/jsonrpc"
	"github.com/icon-project/btp/common/mbt"
	"github.com/icon-project/btp/common/types"
	zzv "github.com/icon-project/btp/common/zzv"
	"github.com/icon-project/btp/common/zzv/znode"
	"github.com/icon-project/btp/common/zzv/zrelay"
)

const (
	Src = types.BtpAddress("btp://0x1.icon/cx01")
	Dst = types.BtpAddress("btp://0x2.icon/cx02")
)

type Block struct {
	H    int64
	SN   int64 // number of messages before this block
	Msgs [][]byte
	Big  int // further bytes of its proof
}

var (
	Chain       []Block
	Start       int64
	Nid         = int64(0x12)
	Offset      int64  // of the link: sequence of the first message of the network, less one
	FaultMethod string // the FaultAt'th call of this method fails
	FaultAt     int
	DropAt      int // the connection breaks before this notification
	calls       int
	mtx         sync.Mutex
)

func Reset() {
	Chain, Start, Offset, FaultMethod, FaultAt, DropAt, calls = nil, 5, 0, "", 0, 0, 0
}

func (b Block) Root() []byte {
	if len(b.Msgs) == 0 {
		return nil
	}
	t, err := mbt.NewMerkleBinaryTree(mbt.HashFuncByUID("eth"), b.Msgs)
	if err != nil {
		return nil
	}
	return t.Root()
}

func (b Block) Header() []byte {
	return codec.RLP.MustMarshalToBytes(&client.BTPBlockHeader{
		MainHeight: b.H, Round: 1, NextProofContextHash: []byte{1, 2}, NetworkID: Nid,
		UpdateNumber: b.SN<<1 | b.H&1, MessageCount: int64(len(b.Msgs)), MessagesRoot: []byte{byte(b.H)},
	})
}

func (b Block) Proof() []byte { return append([]byte{0xc1, byte(b.H)}, make([]byte, b.Big)...) }

func block(h int64) *Block {
	for i := range Chain {
		if Chain[i].H == h {
			return &Chain[i]
		}
	}
	return nil
}

func answer(method string, callMethod string, h int64) (interface{}, bool) {
	zzv.Jitter()
	defer zrelay.Lock(&mtx)()
	if !zzv.Symbolic() && method == "btp_getHeader" {
		time.Sleep(30 * time.Millisecond) // let the receiver get ahead of the link
	}
	if method == FaultMethod {
		calls++
		if calls == FaultAt {
			return nil, false
		}
	}
	b := block(h)
	switch {
	case method == "icx_call" && callMethod == "getBTPLinkNetworkId":
		return string(client.NewHexInt(Nid)), true
	case method == "icx_call" && callMethod == "getBTPLinkOffset":
		return string(client.NewHexInt(Offset)), true
	case method == "btp_getNetworkInfo":
		return &client.BTPNetworkInfo{StartHeight: client.NewHexInt(Start)}, true
	case method == "btp_getMessages" && b != nil:
		r := make([]string, 0)
		for _, m := range b.Msgs {
			r = append(r, base64.StdEncoding.EncodeToString(m))
		}
		return r, true
	case method == "btp_getHeader" && b != nil:
		return base64.StdEncoding.EncodeToString(b.Header()), true
	case method == "btp_getProof" && b != nil:
		return base64.StdEncoding.EncodeToString(b.Proof()), true
	}
	return nil, false
}

//verif:replace (*github.com/icon-project/btp/common/jsonrpc.Client).Do
func zzDo(c *jsonrpc.Client, method string, req, resp interface{}) (*jsonrpc.Response, error) {
	var h int64
	cm := ""
	switch p := req.(type) {
	case *client.BTPBlockParam:
		h, _ = p.Height.Value()
	case *client.CallParam:
		cm = p.Data.(client.CallData).Method
	}
	r, ok := answer(method, cm, h)
	if !ok {
		return nil, &jsonrpc.Error{Code: -31004, Message: "not found"}
	}
	switch t := resp.(type) {
	case *string:
		*t = r.(string)
	case *client.HexInt:
		*t = client.HexInt(r.(string))
	case *[]string:
		*t = r.([]string)
	case **client.BTPNetworkInfo:
		*t = r.(*client.BTPNetworkInfo)
	case *client.BTPNetworkInfo:
		*t = *(r.(*client.BTPNetworkInfo))
	default:
		panic("unexpected result type")
	}
	return nil, nil
}

func notes(p *client.BTPRequest) []*client.BTPNotification {
	h0, _ := p.Height.Value()
	var r []*client.BTPNotification
	for _, b := range Chain {
		if b.H >= h0 {
			r = append(r, &client.BTPNotification{Header: base64.StdEncoding.EncodeToString(b.Header())})
		}
	}
	if DropAt > 0 && DropAt <= len(r) {
		r = r[:DropAt-1]
	}
	return r
}

// The websocket connection: one request, then the notifications; those behind
// a Close may have been buffered already and are still read.

var (
	wsNotes  []*client.BTPNotification
	wsNote   *client.BTPNotification
	wsClosed bool
)

//verif:replace (*github.com/gorilla/websocket.Dialer).Dial
func zzDial(d *websocket.Dialer, url string, h http.Header) (*websocket.Conn, *http.Response, error) {
	wsClosed = false
	return &websocket.Conn{}, nil, nil
}

//verif:replace (*github.com/gorilla/websocket.Conn).WriteJSON
func zzWriteJSON(c *websocket.Conn, v interface{}) error {
	wsNotes = notes(v.(*client.BTPRequest))
	return nil
}

//verif:replace (*github.com/gorilla/websocket.Conn).ReadJSON
func zzReadJSON(c *websocket.Conn, v interface{}) error {
	v.(*client.WSResponse).Code = 0
	return nil
}

//verif:replace (*github.com/gorilla/websocket.Conn).NextReader
func zzNextReader(c *websocket.Conn) (int, io.Reader, error) {
	if len(wsNotes) > 0 {
		wsNote, wsNotes = wsNotes[0], wsNotes[1:]
		return websocket.TextMessage, nil, nil
	}
	if !wsClosed && DropAt == 0 {
		<-make(chan int)
	}
	return 0, nil, io.ErrUnexpectedEOF
}

//verif:replace encoding/json.NewDecoder
func zzNewDecoder(r io.Reader) *json.Decoder { return &json.Decoder{} }

//verif:replace (*encoding/json.Decoder).Decode
func zzDecode(d *json.Decoder, v interface{}) error {
	*(v.(*client.BTPNotification)) = *wsNote
	return nil
}

//verif:replace (*github.com/gorilla/websocket.Conn).WriteMessage
func zzWriteMessage(c *websocket.Conn, t int, b []byte) error { return nil }

//verif:replace (*github.com/gorilla/websocket.Conn).LocalAddr
func zzLocalAddr(c *websocket.Conn) net.Addr { return &net.UnixAddr{Name: "local", Net: "unix"} }

//verif:replace (*github.com/gorilla/websocket.Conn).Close
func zzClose(c *websocket.Conn) error {
	wsClosed = true
	return nil
}

// Node gives the endpoint of the source chain.
func Node() (string, func()) {
	if zzv.Symbolic() {
		return "http://node", func() {}
	}
	return znode.Serve(func(method string, params json.RawMessage) (interface{}, int, string) {
		var p struct {
			Height client.HexInt `json:"height"`
			Data   struct {
				Method string `json:"method"`
			} `json:"data"`
		}
		json.Unmarshal(params, &p)
		h, _ := p.Height.Value()
		r, ok := answer(method, p.Data.Method, h)
		if !ok {
			return nil, -31004, "not found"
		}
		return r, 0, ""
	}, func(path string, req json.RawMessage) []interface{} {
		p := &client.BTPRequest{}
		json.Unmarshal(req, p)
		var r []interface{}
		for _, n := range notes(p) {
			r = append(r, n)
		}
		return r
	}, DropAt > 0)
}
