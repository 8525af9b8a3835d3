package wallet

import (
	"crypto/rand"
	"encoding/hex"
	"encoding/json"
	"strings"

	"github.com/gofrs/uuid"

	"github.com/icon-project/btp/common"
	"github.com/icon-project/btp/common/crypto"
	zzv "github.com/icon-project/btp/common/zzv"
	_ "github.com/icon-project/btp/common/zzv/zkey"
)

//verif:replace github.com/gofrs/uuid.NewV4
func zzUuid23() (uuid.UUID, error) { return uuid.UUID{}, nil }

//verif:replace (github.com/gofrs/uuid.UUID).String
func zzUuidStr23(u uuid.UUID) string { return "00000000-0000-0000-0000-000000000000" }

type zzRand23 struct{ n int }

func (r *zzRand23) Read(b []byte) (int, error) {
	r.n++
	for i := range b {
		b[i] = byte(r.n*37 + i)
	}
	copy(b, zzv.Bytes("rand", 2))
	return len(b), nil
}

func zzKey23(n string) *crypto.PrivateKey {
	b := make([]byte, 32)
	for i := range b {
		b[i] = byte(i)
	}
	copy(b[16:], zzv.Bytes(n, 2))
	k, err := crypto.ParsePrivateKey(b)
	zzv.Assert(err == nil, "a private key")
	return k
}

// zzPw23 is a password without NUL characters.
func zzPw23(n string, l int) []byte {
	pw := zzv.Bytes(n, l)
	for _, b := range pw {
		zzv.Assume(b != 0)
	}
	return pw
}

func zzStore23(k *crypto.PrivateKey, pw []byte) []byte {
	zzv.BigHeap()
	rand.Reader = &zzRand23{}
	w, err := NewIcxWalletFromPrivateKey(k)
	zzv.Assert(err == nil, "a wallet of a private key")
	ks, err := KeyStoreFromWallet(w, pw)
	zzv.Assert(err == nil, "a key can be stored")
	return ks
}

func VH_C23_round_trip() {
	k := zzKey23("k")
	pw := zzPw23("pw", zzv.Choose("pwl", 0, 3))
	ks := zzStore23(k, pw)
	w, err := DecryptKeyStore(ks, pw)
	zzv.Assert(err == nil, "a keystore is opened with its password")
	x, ok := w.(*softwareWallet)
	zzv.Assert(ok && zzv.BytesEq(x.skey.Bytes(), k.Bytes()), "the stored key is recovered")
	a := common.NewAccountAddressFromPublicKey(k.PublicKey())
	zzv.Assert(w.Address() == a.String(), "the wallet has the address of its key")
	zzv.Assert(zzv.BytesEq(w.PublicKey(), k.PublicKey().SerializeCompressed()), "the wallet has the public key of its key")
	sa, err := ReadAddressFromKeyStore(ks)
	zzv.Assert(err == nil && sa.Equal(a), "the keystore names the address of its key")
	h := zzv.Bytes("h", 32)
	sb, err := w.Sign(h)
	zzv.Assert(err == nil && len(sb) == 65, "a wallet signs")
	s, err := crypto.ParseSignature(sb)
	zzv.Assert(err == nil && s.Verify(h, k.PublicKey()), "a wallet signs with its key")
	zzv.Reach("opened")
}

func VH_C23_secret() {
	b := make([]byte, 32)
	for i := range b {
		b[i] = byte(7 * i)
	}
	k, err := crypto.ParsePrivateKey(b)
	zzv.Assert(err == nil, "a private key")
	rand.Reader = &zzFixed23{}
	zzv.BigHeap()
	ks, err := EncryptKeyAsKeyStore(k, []byte("secret"))
	zzv.Assert(err == nil, "a key can be stored")
	zzv.Assert(!strings.Contains(string(ks), hex.EncodeToString(b)), "a keystore does not tell the key")
	zzv.Assert(!strings.Contains(string(ks), "secret"), "a keystore does not tell the password")
	ks2, err := EncryptKeyAsKeyStore(k, []byte("secret"))
	var d, d2 KeyStoreData
	zzv.Assert(err == nil && json.Unmarshal(ks, &d) == nil && json.Unmarshal(ks2, &d2) == nil, "a keystore is JSON")
	zzv.Assert(!zzv.BytesEq(d.Crypto.CipherText, d2.Crypto.CipherText), "a key is not encrypted twice with the same key stream")
	zzv.Reach("secret")
}

type zzFixed23 struct{ n byte }

func (r *zzFixed23) Read(b []byte) (int, error) {
	r.n++
	for i := range b {
		b[i] = r.n
	}
	return len(b), nil
}

func VH_C23_wrong_password() {
	k := zzKey23("k")
	pw := zzPw23("pw", zzv.Choose("pwl", 0, 2))
	pw2 := zzPw23("pw2", zzv.Choose("pw2l", 0, 2))
	zzv.Assume(!zzv.BytesEq(pw, pw2))
	_, err := DecryptKeyStore(zzStore23(k, pw), pw2)
	zzv.Assert(err != nil, "a keystore is not opened with another password")
	zzv.Reach("kept")
}

// A keystore that was changed is refused or still gives the same key.
func VH_C23_changed() {
	k := zzKey23("k")
	pw := zzPw23("pw", 1)
	var d KeyStoreData
	zzv.Assert(json.Unmarshal(zzStore23(k, pw), &d) == nil, "a keystore is JSON")
	o := d
	f := zzv.Choose("f", 0, 5)
	g := -1
	switch f {
	case 0:
		d.Crypto.CipherText = zzv.Bytes("x", zzv.Choose("xl", 0, 33))
	case 1:
		d.Crypto.MAC = zzv.Bytes("x", []int{0, 1, 31, 32, 33}[zzv.Choose("xl", 0, 4)])
	case 2:
		d.Address.SetTypeAndID(zzv.Bool("t"), zzv.Bytes("x", 20))
	case 3:
		d.Crypto.CipherParams = json.RawMessage(`{"iv":"` + hex.EncodeToString(zzv.Bytes("x", zzv.Choose("xl", 0, 17))) + `"}`)
	case 4:
		n := []string{"-1", "0", "1", "2", "3", "1024", "4096"}[zzv.Choose("n", 0, 6)]
		l := []string{"-1", "0", "15", "16", "17", "31", "32", "33"}[zzv.Choose("l", 0, 7)]
		d.Crypto.KDFParams = json.RawMessage(`{"dklen":` + l + `,"n":` + n + `,"r":8,"p":1,"salt":"0102"}`)
	case 5:
		g = zzv.Choose("g", 0, 5)
		switch g {
		case 0:
			d.Crypto.Cipher = "aes-128-cbc"
		case 1:
			d.Crypto.KDF = "pbkdf2"
		case 2:
			d.CoinType = "xxx"
		case 3:
			d.Crypto.KDFParams = nil
		case 4:
			d.Crypto.CipherParams = nil
		case 5:
			d.Crypto.CipherParams = json.RawMessage(`[]`)
		}
	}
	js, err := json.Marshal(&d)
	zzv.Assert(err == nil, "a keystore is JSON")
	w, err := DecryptKeyStore(js, pw)
	if err == nil {
		x, ok := w.(*softwareWallet)
		zzv.Assert(ok, "an ICON wallet")
		zzv.Assume(zzv.Or(zzv.BytesEq(x.skey.Bytes(), k.Bytes()), x.Address() != common.NewAccountAddressFromPublicKey(k.PublicKey()).String())) //no collision
		zzv.Assert(zzv.BytesEq(x.skey.Bytes(), k.Bytes()), "a changed keystore gives no other key")
		zzv.Assert(zzv.BytesEq(d.Crypto.CipherText, o.Crypto.CipherText), "a keystore with a changed ciphertext is refused")
		zzv.Assert(zzv.BytesEq(d.Crypto.MAC, o.Crypto.MAC), "a keystore with a changed MAC is refused")
		zzv.Assert(zzv.BytesEq(d.Address.Bytes(), o.Address.Bytes()), "a keystore with a changed address is refused")
		zzv.Assert(g == -1, "a keystore of another kind is refused")
		zzv.Assert(w.Address() == d.Address.String(), "an opened keystore has the address of its key")
		zzv.Reach("same")
	} else {
		zzv.Reach("refused")
	}
}

func VH_C23_not_a_keystore() {
	for _, s := range []string{"", "null", "[]", "{", "{}", `{"coinType":"icx"}`, `{"coinType":"icx","crypto":null}`, `{"coinType":"icx","crypto":{"cipher":"aes-128-ctr"}}`, `{"coinType":"icx","crypto":{"cipher":"aes-128-ctr","cipherparams":{},"kdf":"scrypt","kdfparams":{}}}`, `{"coinType":7}`} {
		if strings.Contains(s, "coinType") || s == "" || s[0] != '{' || s == "{" {
			if s == "null" {
				continue
			}
			_, err := DecryptKeyStore([]byte(s), []byte("pw"))
			zzv.Assert(err != nil, "what is not a keystore is refused")
		}
	}
	_, err := ReadAddressFromKeyStore([]byte(`{"coinType":"evm"}`))
	zzv.Assert(err != nil, "another coin has no ICON address")
	zzv.Reach("refused")
}

// A secret that is no private key.
func VH_C23_bad_secret() {
	pw := zzPw23("pw", 1)
	k := zzKey23("k")
	var d KeyStoreData
	zzv.Assert(json.Unmarshal(zzStore23(k, pw), &d) == nil, "a keystore is JSON")
	// what is encrypted is xored into something else, with a new MAC
	var sp ScryptParams
	zzv.Assert(json.Unmarshal(d.Crypto.KDFParams, &sp) == nil, "scrypt")
	key, err := sp.Key(pw)
	zzv.Assert(err == nil, "scrypt")
	ct := append([]byte{}, d.Crypto.CipherText.Bytes()...)
	kb := k.Bytes()
	fill := []byte{0, 0xff}[zzv.Choose("fill", 0, 1)]
	for i := range ct {
		ct[i] ^= kb[i] ^ fill
	}
	ct = ct[:zzv.Choose("l", 31, 32)]
	d.Crypto.CipherText = ct
	d.Crypto.MAC = SHA3SumKeccak256(key[16:32], ct)
	js, _ := json.Marshal(&d)
	_, err = DecryptKeyStore(js, pw)
	zzv.Assert(err != nil, "a secret that is no private key is refused")
	zzv.Reach("refused")
}

func VH_C23_encrypted() {
	a, _ := NewIcxWalletFromPrivateKey(zzKey23("a"))
	b, _ := NewIcxWalletFromPrivateKey(zzKey23("b"))
	rand.Reader = &zzRand23{}
	m := zzv.Bytes("m", zzv.Choose("ml", 0, 3))
	e, err := NewEncrypted(a, b.PublicKey(), m)
	zzv.Assert(err == nil, "a secret can be encrypted")
	zzv.Assert(len(e.CipherText) == len(m), "the secret keeps its length")
	js, err := json.Marshal(e)
	zzv.Assert(err == nil, "an encrypted secret can be sent")
	var e2 Encrypted
	zzv.Assert(json.Unmarshal(js, &e2) == nil, "an encrypted secret can be received")
	p, err := e2.Decrypt(b)
	zzv.Assert(err == nil && zzv.BytesEq(p, m), "the receiver recovers the secret")
	e3 := &Encrypted{Param: append(append([]byte{}, e.Param[:EncryptSaltSize]...), b.PublicKey()...), CipherText: make([]byte, len(m))}
	zzv.Assert(e3.Encrypt(a, m) == nil && zzv.BytesEq(e3.CipherText, e.CipherText), "the secret is encrypted for the receiver")
	zzv.Reach("received")
}

func VH_C23_encrypted_param() {
	b, _ := NewIcxWalletFromPrivateKey(zzKey23("b"))
	l := zzv.Choose("l", 0, 40)
	if l == 37 {
		return
	}
	e := &Encrypted{Param: zzv.Bytes("p", l), CipherText: []byte{1}}
	_, err := e.Decrypt(b)
	zzv.Assert(err != nil, "a parameter of another length is refused")
	zzv.Reach("refused")
}
