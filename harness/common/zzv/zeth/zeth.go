// Package zeth is the source side of an Ethereum relay: a node with blocks of
// BMC messages. Symbolically it answers through replaced client calls; natively
// it is a real JSON-RPC server.
package zeth

import (
	"context"
	"encoding/json"
	"errors"
	"math/big"
	"strings"
	"sync"

	"github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/rpc"

	"github.com/icon-project/btp/chain/ethbr/binding"
	"github.com/icon-project/btp/chain/ethbr/client"
	btpTypes "github.com/icon-project/btp/common/types"
	zzv "github.com/icon-project/btp/common/zzv"
	"github.com/icon-project/btp/common/zzv/znode"
	"github.com/icon-project/btp/common/zzv/zrelay"
)

const (
	Src = btpTypes.BtpAddress("btp://0x1.eth/0x00000000000000000000000000000000000000aa")
	Dst = btpTypes.BtpAddress("btp://0x2.icon/cx02")
)

// Event is a Message event of the BMC.
type Event struct {
	Tx   uint
	Next string
	Seq  *big.Int
	Msg  []byte
	Bad  bool // data that does not decode
}

type Block struct {
	H   int64
	Evs []Event
}

var (
	Chain       []Block
	Head        int64  // when the relay starts
	Ends        bool   // no more blocks: not found; otherwise the node does not answer
	FaultMethod string // the FaultAt'th call of this method fails
	FaultAt     int
	FaultNum    int // this many times
	calls       int
	mtx         sync.Mutex
)

func Reset() {
	Chain, Head, Ends, FaultMethod, FaultAt, FaultNum, calls = nil, 0, false, "", 0, 1, 0
}

var errNode = errors.New("node failure")

func fault(method string) bool {
	if method != FaultMethod {
		return false
	}
	calls++
	return calls >= FaultAt && calls < FaultAt+FaultNum
}

func block(h int64) *Block {
	for i := range Chain {
		if Chain[i].H == h {
			return &Chain[i]
		}
	}
	return nil
}

func header(b *Block) *types.Header {
	return &types.Header{Number: big.NewInt(b.H), Difficulty: big.NewInt(1), Extra: []byte{}, ParentHash: common.Hash{byte(b.H)}}
}

// ---- event data: real ABI encoding natively, a table symbolically

var table []Event

func data(e Event) []byte {
	if zzv.Symbolic() {
		table = append(table, e)
		return []byte{byte(len(table) - 1)}
	}
	if e.Bad {
		return []byte{1, 2, 3}
	}
	str, _ := abi.NewType("string", "", nil)
	num, _ := abi.NewType("uint256", "", nil)
	byt, _ := abi.NewType("bytes", "", nil)
	d, err := abi.Arguments{{Type: str}, {Type: num}, {Type: byt}}.Pack(e.Next, e.Seq, e.Msg)
	if err != nil {
		panic(err)
	}
	return d
}

//verif:replace github.com/icon-project/btp/chain/ethbr/binding.UnpackEventLog
func zzUnpack(d []byte) (*binding.BMCMessage, error) {
	e := table[d[0]]
	if e.Bad {
		return nil, errNode
	}
	return &binding.BMCMessage{Next: e.Next, Seq: new(big.Int).Set(e.Seq), Msg: e.Msg}, nil
}

const topic = "37be353f216cf7e33639101fd610c542e6a0c0109173fa1c1d8b04d34edb7c1b"

func logs(b *Block) []types.Log {
	var r []types.Log
	for i, e := range b.Evs {
		r = append(r, types.Log{Address: common.Address{19: 0xaa}, Topics: []common.Hash{common.HexToHash(topic)},
			Data: data(e), BlockNumber: uint64(b.H), TxIndex: e.Tx, Index: uint(i)})
	}
	return r
}

//verif:replace github.com/ethereum/go-ethereum/crypto.Keccak256Hash
func zzKeccak(d ...[]byte) common.Hash { return common.Hash{7} }

//verif:replace (*github.com/ethereum/go-ethereum/core/types.Header).Hash
func zzHash(h *types.Header) common.Hash { return common.Hash{byte(h.Number.Int64()), 1} }

//verif:replace github.com/ethereum/go-ethereum/rpc.Dial
func zzDial(url string) (*rpc.Client, error) { return &rpc.Client{}, nil }

//verif:replace context.WithTimeout
func zzTimeout(c context.Context, d int64) (context.Context, context.CancelFunc) {
	return c, func() {}
}

//verif:replace (*github.com/ethereum/go-ethereum/ethclient.Client).ChainID
func zzChainID(c *ethclient.Client, ctx context.Context) (*big.Int, error) { return big.NewInt(1), nil }

//verif:replace (*github.com/ethereum/go-ethereum/ethclient.Client).BlockNumber
func zzBlockNumber(c *ethclient.Client, ctx context.Context) (uint64, error) {
	if fault("eth_blockNumber") {
		return 0, errNode
	}
	return uint64(Head), nil
}

//verif:replace (*github.com/ethereum/go-ethereum/ethclient.Client).HeaderByNumber
func zzHeader(c *ethclient.Client, ctx context.Context, n *big.Int) (*types.Header, error) {
	if fault("eth_getBlockByNumber") {
		return nil, errNode
	}
	b := block(n.Int64())
	if b == nil {
		if !Ends {
			<-make(chan int)
		}
		return nil, ethereum.NotFound
	}
	return header(b), nil
}

//verif:replace (*github.com/ethereum/go-ethereum/ethclient.Client).FilterLogs
func zzLogs(c *ethclient.Client, ctx context.Context, q ethereum.FilterQuery) ([]types.Log, error) {
	if fault("eth_getLogs") {
		return nil, errNode
	}
	zzv.Assert(q.BlockHash != nil && len(q.Addresses) == 1 && q.Addresses[0] == common.Address{19: 0xaa}, "logs of the BMC in the block")
	b := block(int64(q.BlockHash[0]))
	return logs(b), nil
}

// ---- encoding of events as the destination decodes it

func Item(b []byte) []byte {
	if len(b) == 1 && b[0] < 0x80 {
		return []byte{b[0]}
	}
	return append(head(0x80, len(b)), b...)
}

func head(base byte, n int) []byte {
	if n < 56 {
		return []byte{base + byte(n)}
	}
	if n < 256 {
		return []byte{base + 56, byte(n)}
	}
	return []byte{base + 57, byte(n >> 8), byte(n)}
}

// List is the encoding of a list of encoded items.
func List(b []byte) []byte { return append(head(0xc0, len(b)), b...) }

func EncEvent(next string, seq *big.Int, msg []byte) []byte {
	var b []byte
	b = append(b, Item([]byte(next))...)
	b = append(b, Item(seq.Bytes())...)
	b = append(b, Item(msg)...)
	return List(b)
}

//verif:replace github.com/ethereum/go-ethereum/rlp.EncodeToBytes
func zzRlp(v interface{}) ([]byte, error) {
	switch t := v.(type) {
	case *client.Event:
		return EncEvent(string(t.Next), t.Sequence, t.Message), nil
	case []*client.Event:
		var b []byte
		for _, e := range t {
			b = append(b, EncEvent(string(e.Next), e.Sequence, e.Message)...)
		}
		return List(b), nil
	}
	panic("unexpected type to encode")
}

// Node gives the endpoint of the source chain.
func Node() (string, func()) {
	table = nil
	if zzv.Symbolic() {
		return "http://node", func() {}
	}
	done := make(chan struct{})
	hashes := map[common.Hash]int64{}
	for i := range Chain {
		hashes[header(&Chain[i]).Hash()] = Chain[i].H
	}
	url, stop := znode.Serve(func(method string, params json.RawMessage) (interface{}, int, string) {
		unlock := zrelay.Lock(&mtx)
		defer func() { unlock() }()
		if fault(method) {
			return nil, -32000, "node failure"
		}
		switch method {
		case "eth_chainId":
			return "0x1", 0, ""
		case "eth_blockNumber":
			return "0x" + big.NewInt(Head).Text(16), 0, ""
		case "eth_getBlockByNumber":
			var a []interface{}
			json.Unmarshal(params, &a)
			n, _ := new(big.Int).SetString(strings.TrimPrefix(a[0].(string), "0x"), 16)
			b := block(n.Int64())
			if b == nil {
				if !Ends {
					unlock()
					unlock = func() {}
					<-done
				}
				return nil, 0, ""
			}
			return header(b), 0, ""
		case "eth_getLogs":
			var a []struct {
				BlockHash common.Hash      `json:"blockHash"`
				Address   []common.Address `json:"address"`
				Topics    [][]common.Hash  `json:"topics"`
			}
			json.Unmarshal(params, &a)
			h, ok := hashes[a[0].BlockHash]
			if !ok || len(a[0].Address) != 1 || a[0].Address[0] != (common.Address{19: 0xaa}) || len(a[0].Topics) != 1 ||
				a[0].Topics[0][0] != crypto.Keccak256Hash([]byte("Message(string,uint256,bytes)")) {
				return nil, -32602, "unexpected query"
			}
			ls := logs(block(h))
			if ls == nil {
				ls = []types.Log{}
			}
			return ls, 0, ""
		}
		return nil, -32601, "no method"
	}, nil, false)
	return url, func() { close(done); stop() }
}
