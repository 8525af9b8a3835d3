package main

import (
	"reflect"

	"github.com/icon-project/btp/chain"
	"github.com/icon-project/btp/chain/ethbr"
	"github.com/icon-project/btp/chain/icon/bridge"
	"github.com/icon-project/btp/chain/icon/btp2"
	zzv "github.com/icon-project/btp/common/zzv"
	"github.com/icon-project/btp/common/zzv/znode"
)

// The receiver for a chain, by the mode of the chain that is watched.
func VH_C26_receiver() {
	e, se := zzNode26("http://e")
	defer se()
	zzReset26(1)
	l := znode.L{}
	cfg := chain.Config{
		Src: chain.BaseConfig{Address: zzA26, Endpoint: "http://127.0.0.1:1", BridgeMode: zzv.Choose("m", 0, 1) == 1},
		Dst: chain.BaseConfig{Address: zzB26, Endpoint: "http://127.0.0.1:2", BridgeMode: zzv.Choose("m", 0, 1) == 1},
	}
	r := newReceiver("icon", cfg, l)
	if cfg.Src.BridgeMode {
		zzv.Assert(reflect.TypeOf(r) == reflect.TypeOf(bridge.NewBridge(zzA26, zzB26, "", l)), "bridge mode of the source uses the bridge")
	} else {
		zzv.Assert(reflect.TypeOf(r) == reflect.TypeOf(btp2.NewBTP2(zzA26, zzB26, "", l)), "without bridge mode of the source BTP blocks are used")
	}
	cfg.Src = chain.BaseConfig{Address: zzE26, Endpoint: e, BridgeMode: zzv.Choose("m", 0, 1) == 1}
	r = newReceiver([]string{"eth", "hardhat"}[zzv.Choose("k", 0, 1)], cfg, l)
	zzv.Assert(zzHas26(zzCall26{at: e, method: "eth_chainId"}), "an Ethereum chain is watched at its endpoint")
	x, sx := zzNode26("http://x")
	defer sx()
	zzv.Assert(reflect.TypeOf(r) == reflect.TypeOf(ethbr.NewEthBridge(zzE26, zzB26, x, l)), "an Ethereum chain is watched by its bridge")
	zzv.Reach("receiver")
}

func VH_C26_sender() {
	e, se := zzNode26("http://e")
	defer se()
	zzReset26(1)
	l := znode.L{}
	src := chain.BaseConfig{Address: zzA26, Endpoint: "http://127.0.0.1:1"}
	dst := chain.BaseConfig{Address: zzE26, Endpoint: e}
	s := newSender([]string{"eth", "hardhat"}[zzv.Choose("k", 0, 1)], src, dst, zzWallet26("0x0e"), l)
	s.GetStatus()
	zzv.Assert(zzHas26(zzCall26{at: e, method: "eth_chainId"}), "an Ethereum chain is reached at its endpoint")
	zzv.Assert(zzHas26(zzCall26{at: e, method: "eth_call", to: zzE26.Account(), link: zzA26.String()}), "the BMC of the destination is asked for the link of the source")
	zzv.Reach("sender")
}

func VH_C26_unknown_chain() {
	n := zzv.Str("c", zzv.Choose("l", 0, 4))
	zzv.Assume(n != "icon" && n != "eth")
	zzReset26(1)
	l := znode.L{}
	cfg := chain.Config{Src: chain.BaseConfig{Address: zzA26}, Dst: chain.BaseConfig{Address: zzB26}}
	func() {
		defer func() { zzv.Assert(recover() != nil, "an unknown blockchain cannot be watched") }()
		zzv.Assert(newReceiver(n, cfg, l) == nil, "an unknown blockchain cannot be watched")
	}()
	func() {
		defer func() { zzv.Assert(recover() != nil, "an unknown blockchain cannot be relayed to") }()
		zzv.Assert(newSender(n, cfg.Src, cfg.Dst, zzWallet26("hx0a"), l) == nil, "an unknown blockchain cannot be relayed to")
	}()
	zzv.Reach("unknown")
}
