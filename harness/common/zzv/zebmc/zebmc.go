// Package zebmc is the destination side of an Ethereum relay: a node that
// accepts transactions to the BMC and tells their results, as scripted.
package zebmc

import (
	"context"
	"crypto/ecdsa"
	"encoding/json"
	"errors"
	"math/big"
	"strings"
	"sync"

	"github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/rpc"

	"github.com/icon-project/btp/chain/ethbr/binding"
	btpTypes "github.com/icon-project/btp/common/types"
	"github.com/icon-project/btp/common/wallet"
	zzv "github.com/icon-project/btp/common/zzv"
	"github.com/icon-project/btp/common/zzv/znode"
	"github.com/icon-project/btp/common/zzv/zrelay"
)

const (
	Src = btpTypes.BtpAddress("btp://0x1.icon/cx01")
	Dst = btpTypes.BtpAddress("btp://0x2.eth/0x00000000000000000000000000000000000000bb")
)

var to = common.Address{19: 0xbb}

// Tx is a transaction the node was given.
type Tx struct {
	Prev string
	Msg  []byte
}

// State of a transaction.
const (
	Mined = iota
	Pending
	Missing // not known to the node
)

type Link struct {
	Tx, Rx, Height int64
	Extra          []byte
}

var (
	SendErr string   // refused with this if not empty
	States  []int    // told in turn; the last one repeats
	Receipt int      // 0 failed, 1 success, 2 not found
	Revert  string   // what the call answers; it succeeds if empty
	Status  *Link    // of the link; fails if nil
	Txs     []Tx     // transactions received
	Hashes  []string // of them
	Asked   []string // hashes asked for
	Again   []Tx     // calls executed again
	Queried []string // links the status was asked for
	raw     map[common.Hash]*types.Transaction
	data    []Tx // symbolically: data of a transaction is an index here
	mtx     sync.Mutex
)

func Reset() {
	SendErr, States, Receipt, Revert, Status = "", []int{Mined}, 1, "", nil
	Txs, Hashes, Asked, Again, Queried, data = nil, nil, nil, nil, nil, nil
	raw = map[common.Hash]*types.Transaction{}
}

func Wallet() *wallet.EvmWallet {
	if zzv.Symbolic() {
		return &wallet.EvmWallet{}
	}
	k, err := crypto.GenerateKey()
	if err != nil {
		panic(err)
	}
	return &wallet.EvmWallet{Skey: k, Pkey: &k.PublicKey}
}

func state() int {
	n := len(Asked)
	if n > len(States) {
		n = len(States)
	}
	return States[n-1]
}

//verif:replace github.com/ethereum/go-ethereum/rpc.Dial
func zzDial(url string) (*rpc.Client, error) { return &rpc.Client{}, nil }

//verif:replace context.WithTimeout
func zzTimeout(c context.Context, d int64) (context.Context, context.CancelFunc) {
	return c, func() {}
}

//verif:replace github.com/icon-project/btp/chain/ethbr/binding.NewBMC
func zzNewBMC(a common.Address, b bind.ContractBackend) (*binding.BMC, error) {
	zzv.Assert(a == to, "the BMC of the destination is used")
	return &binding.BMC{}, nil
}

//verif:replace github.com/ethereum/go-ethereum/accounts/abi/bind.NewKeyedTransactorWithChainID
func zzOpts(k *ecdsa.PrivateKey, id *big.Int) (*bind.TransactOpts, error) {
	return &bind.TransactOpts{}, nil
}

//verif:replace (*github.com/ethereum/go-ethereum/ethclient.Client).ChainID
func zzChainID(c *ethclient.Client, ctx context.Context) (*big.Int, error) { return big.NewInt(1), nil }

//verif:replace (*github.com/ethereum/go-ethereum/ethclient.Client).SuggestGasPrice
func zzGas(c *ethclient.Client, ctx context.Context) (*big.Int, error) { return big.NewInt(7), nil }

func hash(b byte) common.Hash { return common.Hash{0: b, 31: 9} }

//verif:replace (*github.com/icon-project/btp/chain/ethbr/binding.BMCTransactor).HandleRelayMessage
func zzRelay(b *binding.BMCTransactor, o *bind.TransactOpts, prev string, msg []byte) (*types.Transaction, error) {
	if SendErr != "" {
		return nil, errors.New(SendErr)
	}
	t := Tx{prev, append([]byte{}, msg...)}
	Txs = append(Txs, t)
	data = append(data, t)
	tx := types.NewTx(&types.LegacyTx{Nonce: uint64(len(data)), To: &to, Value: big.NewInt(0), Gas: o.GasLimit, GasPrice: o.GasPrice, Data: []byte{byte(len(data))}})
	h := hash(byte(len(data)))
	raw[h] = tx
	Hashes = append(Hashes, h.Hex())
	return tx, nil
}

//verif:replace (*github.com/ethereum/go-ethereum/core/types.Transaction).Hash
func zzTxHash(t *types.Transaction) common.Hash { return hash(t.Data()[0]) }

//verif:replace github.com/ethereum/go-ethereum/core/types.Sender
func zzSender(s types.Signer, t *types.Transaction) (common.Address, error) {
	return common.Address{19: 0xcc}, nil
}

//verif:replace (*github.com/ethereum/go-ethereum/core/types.Transaction).ChainId
func zzTxChain(t *types.Transaction) *big.Int { return big.NewInt(1) }

//verif:replace (*github.com/ethereum/go-ethereum/ethclient.Client).TransactionByHash
func zzTx(c *ethclient.Client, ctx context.Context, h common.Hash) (*types.Transaction, bool, error) {
	Asked = append(Asked, h.Hex())
	st := state()
	t, ok := raw[h]
	if !ok || st == Missing {
		return nil, false, ethereum.NotFound
	}
	return t, st == Pending, nil
}

//verif:replace (*github.com/ethereum/go-ethereum/ethclient.Client).TransactionReceipt
func zzReceipt(c *ethclient.Client, ctx context.Context, h common.Hash) (*types.Receipt, error) {
	zzv.Assert(state() == Mined, "no receipt of a pending transaction is asked for")
	if _, ok := raw[h]; !ok || Receipt == 2 {
		return nil, ethereum.NotFound
	}
	return &types.Receipt{Status: uint64(Receipt), TxHash: h}, nil
}

//verif:replace (*github.com/ethereum/go-ethereum/ethclient.Client).CallContract
func zzCall(c *ethclient.Client, ctx context.Context, m ethereum.CallMsg, n *big.Int) ([]byte, error) {
	if m.To == nil || *m.To != to || len(m.Data) != 1 {
		return nil, errors.New("unexpected call")
	}
	Again = append(Again, data[m.Data[0]-1])
	if Revert != "" {
		return nil, errors.New(Revert)
	}
	return nil, nil
}

//verif:replace (*github.com/icon-project/btp/chain/ethbr/binding.BMCCaller).GetStatus
func zzStatus(b *binding.BMCCaller, o *bind.CallOpts, link string) (binding.TypesLinkStats, error) {
	Queried = append(Queried, link)
	if Status == nil {
		return binding.TypesLinkStats{}, errors.New("no link")
	}
	return binding.TypesLinkStats{RxSeq: big.NewInt(Status.Rx), TxSeq: big.NewInt(Status.Tx), CurrentHeight: big.NewInt(99),
		Verifier: binding.TypesVerifierStats{Height: big.NewInt(Status.Height), Extra: Status.Extra}}, nil
}

// Node gives the endpoint of the destination chain.
func Node() (string, func()) {
	if zzv.Symbolic() {
		return "http://node", func() {}
	}
	ab, err := abi.JSON(strings.NewReader(binding.BMCABI))
	if err != nil {
		panic(err)
	}
	unpack := func(d []byte) Tx {
		v, err := ab.Methods["handleRelayMessage"].Inputs.Unpack(d[4:])
		if err != nil {
			panic(err)
		}
		return Tx{v[0].(string), v[1].([]byte)}
	}
	return znode.Serve(func(method string, params json.RawMessage) (interface{}, int, string) {
		defer zrelay.Lock(&mtx)()
		var a []json.RawMessage
		json.Unmarshal(params, &a)
		switch method {
		case "eth_chainId":
			return "0x1", 0, ""
		case "eth_gasPrice":
			return "0x7", 0, ""
		case "eth_getTransactionCount":
			return hexutil.EncodeUint64(uint64(len(Txs))), 0, ""
		case "eth_getBlockByNumber":
			return &types.Header{Number: big.NewInt(9), Difficulty: big.NewInt(1), Extra: []byte{}}, 0, ""
		case "eth_getCode":
			return "0x60", 0, ""
		case "eth_sendRawTransaction":
			if SendErr != "" {
				return nil, -32000, SendErr
			}
			var b hexutil.Bytes
			json.Unmarshal(a[0], &b)
			tx := new(types.Transaction)
			if err := tx.UnmarshalBinary(b); err != nil || tx.To() == nil || *tx.To() != to {
				return nil, -32000, "unexpected transaction"
			}
			Txs = append(Txs, unpack(tx.Data()))
			Hashes = append(Hashes, tx.Hash().Hex())
			raw[tx.Hash()] = tx
			return tx.Hash(), 0, ""
		case "eth_getTransactionByHash":
			var h common.Hash
			json.Unmarshal(a[0], &h)
			Asked = append(Asked, h.Hex())
			st := state()
			tx, ok := raw[h]
			if !ok || st == Missing {
				return nil, 0, ""
			}
			b, _ := tx.MarshalJSON()
			var m map[string]interface{}
			json.Unmarshal(b, &m)
			if st == Mined {
				m["blockNumber"], m["blockHash"] = "0x5", hash(1)
			}
			return m, 0, ""
		case "eth_getTransactionReceipt":
			var h common.Hash
			json.Unmarshal(a[0], &h)
			if _, ok := raw[h]; !ok || Receipt == 2 || state() != Mined {
				return nil, 0, ""
			}
			return &types.Receipt{Status: uint64(Receipt), TxHash: h, Logs: []*types.Log{}, BlockNumber: big.NewInt(5)}, 0, ""
		case "eth_call":
			var m struct {
				To    common.Address
				Data  hexutil.Bytes
				Input hexutil.Bytes
			}
			json.Unmarshal(a[0], &m)
			if m.Data == nil {
				m.Data = m.Input
			}
			if m.To != to {
				return nil, -32000, "unexpected call"
			}
			if string(m.Data[:4]) == string(ab.Methods["getStatus"].ID) {
				v, err := ab.Methods["getStatus"].Inputs.Unpack(m.Data[4:])
				if err != nil {
					panic(err)
				}
				Queried = append(Queried, v[0].(string))
				if Status == nil {
					return nil, -32000, "no link"
				}
				o, err := ab.Methods["getStatus"].Outputs.Pack(binding.TypesLinkStats{RxSeq: big.NewInt(Status.Rx), TxSeq: big.NewInt(Status.Tx), CurrentHeight: big.NewInt(99),
					Verifier: binding.TypesVerifierStats{Height: big.NewInt(Status.Height), Extra: Status.Extra}})
				if err != nil {
					panic(err)
				}
				return hexutil.Bytes(o), 0, ""
			}
			Again = append(Again, unpack(m.Data))
			if Revert != "" {
				return nil, -32000, Revert
			}
			return "0x", 0, ""
		}
		return nil, -32601, "no method " + method
	}, nil, false)
}
