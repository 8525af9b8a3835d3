package main

import (
	"crypto/rand"
	"errors"
	"io/ioutil"
	"os"

	"github.com/gofrs/uuid"

	"github.com/icon-project/btp/common/crypto"
	"github.com/icon-project/btp/common/wallet"
	zzv "github.com/icon-project/btp/common/zzv"
	_ "github.com/icon-project/btp/common/zzv/zkey"
)

//verif:replace github.com/gofrs/uuid.NewV4
func zzUuid23() (uuid.UUID, error) { return uuid.UUID{}, nil }

//verif:replace (github.com/gofrs/uuid.UUID).String
func zzUuidStr23(u uuid.UUID) string { return "00000000-0000-0000-0000-000000000000" }

var zzKeys23 byte

//verif:replace github.com/haltingstate/secp256k1-go.GenerateKeyPair
func zzPair23() ([]byte, []byte) {
	zzKeys23++
	sec := make([]byte, 32)
	sec[5], sec[31] = zzKeys23, 1
	k, _ := crypto.ParsePrivateKey(sec)
	return k.PublicKey().SerializeCompressed(), sec
}

var zzFile23 = map[string][]byte{}

//verif:replace os.ReadFile
func zzRead23(n string) ([]byte, error) {
	if b, ok := zzFile23[n]; ok {
		return append([]byte{}, b...), nil
	}
	return nil, errors.New("no such file")
}

type zzFixed23 struct{ n byte }

func (r *zzFixed23) Read(b []byte) (int, error) {
	r.n++
	for i := range b {
		b[i] = r.n
	}
	return len(b), nil
}

// zzSecret23 gives a password in the way of the configuration: a file that
// exists or not, or the password itself, or nothing.
func zzSecret23(n, dir string) (secret, pass string, pw []byte, ok bool) {
	text := zzv.Bytes(n, 2)
	for _, b := range text {
		zzv.Assume(zzv.And(b >= 'a', b <= 'z'))
	}
	switch zzv.Choose(n+"how", 0, 3) {
	case 0:
		return "", "", []byte(DefaultKeyStorePass), true
	case 1:
		return "", string(text), text, true
	case 2:
		f := dir + "/" + n
		if zzv.Symbolic() {
			zzFile23[f] = text
		} else {
			ioutil.WriteFile(f, text, 0600)
		}
		return f, "other", text, true
	}
	return dir + "/absent", "other", nil, false
}

func VH_C23_relay_wallet() {
	zzv.BigHeap()
	dir := "/scratch"
	if zzv.Symbolic() {
		rand.Reader = &zzFixed23{}
	} else {
		d, err := ioutil.TempDir("", "zz")
		zzv.Assert(err == nil, "scratch")
		defer os.RemoveAll(d)
		dir = d
	}
	c := &Config{}
	var sp, dp []byte
	var sok, dok bool
	c.Src.KeySecret, c.Src.KeyStorePass, sp, sok = zzSecret23("src", dir)
	c.Dst.KeySecret, c.Dst.KeyStorePass, dp, dok = zzSecret23("dst", dir)
	given := zzv.Choose("given", 0, 2)
	if given > 0 && dok {
		k, _ := crypto.GenerateKeyPair()
		ks, err := wallet.EncryptKeyAsKeyStore(k, dp)
		zzv.Assert(err == nil, "a key can be stored")
		if given == 2 {
			ks, err = wallet.EncryptKeyAsKeyStore(k, append([]byte("x"), dp...))
			zzv.Assert(err == nil, "a key can be stored")
		}
		c.Dst.KeyStoreData = ks
	} else {
		given = 0
	}
	old := string(c.Dst.KeyStoreData)
	err := c.EnsureWallet()
	if !sok || !dok {
		zzv.Assert(err != nil, "a secret that cannot be read is reported")
		zzv.Reach("unreadable")
		return
	}
	if given == 2 {
		zzv.Assert(err != nil, "a keystore that cannot be opened is reported")
		zzv.Reach("closed")
		return
	}
	zzv.Assert(err == nil, "a wallet is ensured")
	zzv.Assert(given == 0 || string(c.Dst.KeyStoreData) == old, "a given keystore is kept")
	sw, err := c.Wallet(c.Src.KeyStorePass, c.Src.KeySecret, c.Src.KeyStoreData)
	zzv.Assert(err == nil, "the wallet of the source is opened")
	dw, err := c.Wallet(c.Dst.KeyStorePass, c.Dst.KeySecret, c.Dst.KeyStoreData)
	zzv.Assert(err == nil, "the wallet of the destination is opened")
	zzv.Assert(sw.Address() != dw.Address(), "the wallets are of different keys")
	x, err := wallet.DecryptKeyStore(c.Src.KeyStoreData, sp)
	zzv.Assert(err == nil && x.Address() == sw.Address(), "the keystore of the source has the configured password")
	x, err = wallet.DecryptKeyStore(c.Dst.KeyStoreData, dp)
	zzv.Assert(err == nil && x.Address() == dw.Address(), "the keystore of the destination has the configured password")
	zzv.Reach("wallets")
}
