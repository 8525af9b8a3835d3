package main

import (
	"context"
	"encoding/json"
	"errors"
	"io"
	"math/big"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"

	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	ethcommon "github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/rpc"

	"github.com/icon-project/btp/chain"
	"github.com/icon-project/btp/chain/ethbr/binding"
	"github.com/icon-project/btp/common/jsonrpc"
	"github.com/icon-project/btp/common/log"
	"github.com/icon-project/btp/common/types"
	zzv "github.com/icon-project/btp/common/zzv"
	"github.com/icon-project/btp/common/zzv/znode"
)

// zzCall26 is a request some node got.
type zzCall26 struct {
	at                     string // endpoint
	method, from, to, link string
}

var (
	zzCalls26 []zzCall26
	zzMtx26   sync.Mutex
	zzWant26  int // requests for the network before one is answered
	zzNets26  int
	zzGo26    chan struct{}
)

type zzP26 struct {
	From string `json:"from"`
	To   string `json:"to"`
	Data struct {
		Method string `json:"method"`
		Params struct {
			Target string `json:"_link"`
		} `json:"params"`
	} `json:"data"`
}

// zzAnswer26 answers a request of an ICON client: the status of the link, but
// not the network, which ends the link.
func zzAnswer26(at, method string, params []byte) (string, error) {
	var p zzP26
	json.Unmarshal(params, &p)
	m := method
	if method == "icx_call" {
		m = p.Data.Method
	}
	zzMtx26.Lock()
	zzCalls26 = append(zzCalls26, zzCall26{at, m, p.From, p.To, p.Data.Params.Target})
	if m == "getStatus" {
		zzMtx26.Unlock()
		return `{"tx_seq":"0x0","rx_seq":"0x0","verifier":{"height":"0x5","extra":"0x"}}`, nil
	}
	zzNets26++
	if zzNets26 == zzWant26 {
		close(zzGo26)
	}
	zzMtx26.Unlock()
	<-zzGo26
	return "", errors.New("no network")
}

//verif:replace (*github.com/icon-project/btp/common/jsonrpc.Client).Do
func zzDo26(c *jsonrpc.Client, method string, req, resp interface{}) (*jsonrpc.Response, error) {
	b, err := json.Marshal(req)
	if err != nil {
		return nil, err
	}
	s, err := zzAnswer26(c.Endpoint, method, b)
	if err != nil {
		return nil, err
	}
	return nil, json.Unmarshal([]byte(s), resp)
}

//verif:replace github.com/icon-project/btp/common/log.WithFields
func zzFields26(log.Fields) log.Logger { return znode.L{} }

//verif:replace github.com/icon-project/btp/common/log.SetGlobalLogger
func zzGlobal26(log.Logger) {}

//verif:replace log.SetOutput
func zzStdlog26(w io.Writer) {}

//verif:replace context.WithTimeout
func zzTimeout26(c context.Context, d int64) (context.Context, context.CancelFunc) {
	return c, func() {}
}

//verif:replace github.com/ethereum/go-ethereum/rpc.Dial
func zzDial26(url string) (*rpc.Client, error) {
	zzMtx26.Lock()
	zzCalls26 = append(zzCalls26, zzCall26{at: url, method: "eth_chainId"})
	zzMtx26.Unlock()
	zzEth26 = url
	return &rpc.Client{}, nil
}

var zzEth26 string
var zzTo26 ethcommon.Address

//verif:replace (*github.com/ethereum/go-ethereum/ethclient.Client).ChainID
func zzChain26(c *ethclient.Client, ctx context.Context) (*big.Int, error) { return big.NewInt(1), nil }

//verif:replace github.com/icon-project/btp/chain/ethbr/binding.NewBMC
func zzBMC26(a ethcommon.Address, b bind.ContractBackend) (*binding.BMC, error) {
	zzTo26 = a
	return &binding.BMC{}, nil
}

//verif:replace (*github.com/icon-project/btp/chain/ethbr/binding.BMCCaller).GetStatus
func zzStatus26(c *binding.BMCCaller, o *bind.CallOpts, link string) (binding.TypesLinkStats, error) {
	zzMtx26.Lock()
	zzCalls26 = append(zzCalls26, zzCall26{at: zzEth26, method: "eth_call", to: zzTo26.Hex(), link: link})
	zzMtx26.Unlock()
	return binding.TypesLinkStats{}, errors.New("no status")
}

func zzNode26(name string) (string, func()) {
	if zzv.Symbolic() {
		return name, func() {}
	}
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var req struct {
			ID     interface{}     `json:"id"`
			Method string          `json:"method"`
			Params json.RawMessage `json:"params"`
		}
		json.NewDecoder(r.Body).Decode(&req)
		w.Header().Set("Content-Type", "application/json")
		out := map[string]interface{}{"jsonrpc": "2.0", "id": req.ID}
		if strings.HasPrefix(req.Method, "eth_") {
			c := zzCall26{at: "http://" + r.Host, method: req.Method}
			var p []struct {
				To   string `json:"to"`
				Data string `json:"data"`
				In   string `json:"input"`
			}
			json.Unmarshal(req.Params, &p)
			if len(p) > 0 {
				c.to = ethcommon.HexToAddress(p[0].To).Hex()
				d := ethcommon.FromHex(p[0].Data + p[0].In)
				for _, l := range []types.BtpAddress{zzA26, zzB26, zzE26} {
					if strings.Contains(string(d), l.String()) {
						c.link = l.String()
					}
				}
			}
			zzMtx26.Lock()
			zzCalls26 = append(zzCalls26, c)
			zzMtx26.Unlock()
			if req.Method == "eth_chainId" {
				out["result"] = "0x1"
			} else {
				out["error"] = map[string]interface{}{"code": -32000, "message": "no status"}
			}
		} else if s, err := zzAnswer26("http://"+r.Host, req.Method, req.Params); err != nil {
			out["error"] = map[string]interface{}{"code": -32000, "message": err.Error()}
		} else {
			out["result"] = json.RawMessage(s)
		}
		json.NewEncoder(w).Encode(out)
	}))
	return s.URL, s.CloseClientConnections
}

type zzWallet26 string

func (w zzWallet26) Address() string               { return string(w) }
func (w zzWallet26) Sign([]byte) ([]byte, error)   { return nil, errors.New("no") }
func (w zzWallet26) PublicKey() []byte             { return nil }
func (w zzWallet26) ECDH(p []byte) ([]byte, error) { return nil, errors.New("no") }

const (
	zzA26 = types.BtpAddress("btp://0x1.icon/cx0000000000000000000000000000000000000001")
	zzB26 = types.BtpAddress("btp://0x2.icon/cx0000000000000000000000000000000000000002")
	zzE26 = types.BtpAddress("btp://0x3.eth/0x0000000000000000000000000000000000000003")
)

func zzReset26(want int) {
	zzCalls26, zzWant26, zzNets26, zzGo26 = nil, want, 0, make(chan struct{})
}

func zzHas26(c zzCall26) bool {
	zzMtx26.Lock()
	defer zzMtx26.Unlock()
	n := 0
	for _, x := range zzCalls26 {
		if x == c {
			n++
		}
	}
	return n == 1
}

func zzName26(n string, l int) string {
	s := zzv.Str(n, l)
	for i := range s {
		zzv.Assume(zzv.Or(zzv.And(s[i] >= '0', s[i] <= '9'), zzv.And(s[i] >= 'a', s[i] <= 'z')))
	}
	return s
}

// zzAddr26 is any ICON address.
func zzAddr26(n string) types.BtpAddress {
	return types.BtpAddress("btp://0x" + zzName26(n+"n", 1) + ".icon/cx" + zzName26(n+"c", 2))
}

func VH_C26_direction() {
	a, sa := zzNode26("http://a")
	b, sb := zzNode26("http://b")
	defer sa()
	defer sb()
	d := zzv.Choose("d", 0, 2)
	aa, ab := zzAddr26("a"), zzAddr26("b")
	wa, wb := "hx"+zzName26("wa", 2), "hx"+zzName26("wb", 2)
	cfg := &Config{LogLevel: "panic", ConsoleLevel: "panic"}
	cfg.Src = chain.BaseConfig{Address: aa, Endpoint: a, BridgeMode: zzv.Choose("m", 0, 1) == 1}
	cfg.Dst = chain.BaseConfig{Address: ab, Endpoint: b, BridgeMode: zzv.Choose("m", 0, 1) == 1}
	cfg.Direction = []string{"front", "reverse", "both"}[d]
	want := 1
	if d == 2 {
		want = 2
	}
	zzReset26(want)
	err := NewLink(cfg, zzWallet26(wa), zzWallet26(wb), nil)
	zzv.Assert(err != nil, "the end of a link ends the relay with its error")
	if d != 1 {
		zzv.Assert(zzHas26(zzCall26{b, "getStatus", wb, ab.Account(), aa.String()}), "to the front, the destination is asked for the link of the source with the wallet of the destination")
		zzv.Assert(zzHas26(zzCall26{a, "getBTPLinkNetworkId", "", aa.Account(), ab.String()}), "to the front, the source is watched for the destination")
	}
	if d != 0 {
		zzv.Assert(zzHas26(zzCall26{a, "getStatus", wa, aa.Account(), ab.String()}), "in reverse, the source is asked for the link of the destination with the wallet of the source")
		zzv.Assert(zzHas26(zzCall26{b, "getBTPLinkNetworkId", "", ab.Account(), aa.String()}), "in reverse, the destination is watched for the source")
	}
	zzMtx26.Lock()
	zzv.Assert(len(zzCalls26) == 2*want, "nothing else is asked")
	zzMtx26.Unlock()
	zzv.Reach("wired")
}

func VH_C26_unknown_direction() {
	s := zzv.Str("d", zzv.Choose("l", 0, 5))
	zzv.Assume(s != "front" && s != "reverse" && s != "both")
	zzReset26(1)
	cfg := &Config{LogLevel: "panic", ConsoleLevel: "panic"}
	cfg.Src = chain.BaseConfig{Address: zzA26, Endpoint: "http://127.0.0.1:1"}
	cfg.Dst = chain.BaseConfig{Address: zzB26, Endpoint: "http://127.0.0.1:1"}
	cfg.Direction = s
	zzv.Assert(NewLink(cfg, zzWallet26("hx0a"), zzWallet26("hx0b"), nil) != nil, "an unknown direction is refused")
	zzv.Assert(len(zzCalls26) == 0, "an unknown direction relays nothing")
	zzv.Reach("refused")
}
