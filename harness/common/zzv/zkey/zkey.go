// Package zkey stands in for elliptic curve arithmetic, the key derivation
// and the block cipher while a harness is executed symbolically. The stand-ins
// are ideal: one-way, collision-free, and a signature is valid for nothing but
// what was signed. A replay runs the real libraries.
package zkey

import (
	"bytes"
	"crypto/cipher"
	"errors"
	"hash"
	"io"

	"golang.org/x/crypto/sha3"

	zzv "github.com/icon-project/btp/common/zzv"
)

type signed struct{ sig, msg, sec []byte }
type pair struct{ pub, sec []byte }

var sigs []signed
var pairs []pair

func h(tag byte, d ...[]byte) []byte {
	b := []byte{0xa5, tag}
	for _, x := range d {
		b = append(b, byte(len(x)))
		b = append(b, x...)
	}
	r := sha3.Sum256(b)
	return r[:]
}

var order = []byte{
	0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe,
	0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41}

// ValidSec tells whether the bytes are a private key.
func ValidSec(b []byte) bool {
	if len(b) != 32 {
		return false
	}
	s := string(b)
	return s != string(make([]byte, 32)) && s < string(order)
}

//verif:replace github.com/haltingstate/secp256k1-go.VerifySeckey
func zzVerifySeckey(b []byte) int {
	if len(b) != 32 {
		return -1
	}
	if !ValidSec(b) {
		return -2
	}
	return 1
}

//verif:replace github.com/haltingstate/secp256k1-go.PubkeyFromSeckey
func zzPubkeyFromSeckey(sec []byte) []byte {
	if !ValidSec(sec) {
		panic("always ensure seckey is valid")
	}
	for _, p := range pairs {
		if bytes.Equal(p.sec, sec) {
			return append([]byte{}, p.pub...)
		}
	}
	x := h(1, sec)
	pub := append([]byte{2 + h(2, sec)[31]&1}, x...)
	pairs = append(pairs, pair{pub, append([]byte{}, sec...)})
	return append([]byte{}, pub...)
}

//verif:replace github.com/haltingstate/secp256k1-go.UncompressPubkey
func zzUncompressPubkey(pub []byte) []byte {
	if len(pub) != 33 || pub[0]&0xfe != 2 {
		panic("cannot uncompress invalid pubkey")
	}
	y := h(3, pub)
	y[31] = y[31]&0xfe | pub[0]&1
	r := append([]byte{4}, pub[1:]...)
	return append(r, y...)
}

//verif:replace github.com/haltingstate/secp256k1-go.Sign
func zzSign(msg, sec []byte) []byte {
	if !ValidSec(sec) {
		panic("Attempting to sign with invalid seckey")
	}
	if msg == nil {
		panic("Sign, message nil")
	}
	s := h(5, msg, sec)
	s[0] &= 0x7f
	sig := append(h(4, msg, sec), s...)
	sig = append(sig, h(6, msg, sec)[0]&1)
	sigs = append(sigs, signed{append([]byte{}, sig...), append([]byte{}, msg...), append([]byte{}, sec...)})
	return sig
}

//verif:replace github.com/haltingstate/secp256k1-go.RecoverPubkey
func zzRecoverPubkey(msg, sig []byte) []byte {
	if len(sig) != 65 {
		panic("RecoverPubkey")
	}
	for _, s := range sigs {
		if bytes.Equal(s.sig, sig) && bytes.Equal(s.msg, msg) {
			return zzPubkeyFromSeckey(s.sec)
		}
	}
	if sig[0] == 0xff {
		return nil
	}
	return append([]byte{2}, h(7, msg, sig)...)
}

//verif:replace github.com/haltingstate/secp256k1-go.ECDH
func zzECDH(pub, sec []byte) []byte {
	if len(sec) != 32 || len(pub) != 33 || pub[0]&0xfe != 2 {
		panic("ECDH")
	}
	for _, p := range pairs {
		if bytes.Equal(p.pub, pub) {
			a, b := p.sec, sec
			if string(b) < string(a) {
				a, b = b, a
			}
			return append([]byte{2}, h(8, a, b)...)
		}
	}
	return append([]byte{2}, h(9, pub, sec)...)
}

//verif:replace golang.org/x/crypto/scrypt.Key
func zzScrypt(pw, salt []byte, n, r, p, l int) ([]byte, error) {
	if n <= 1 || n&(n-1) != 0 || r < 1 || p < 1 {
		return nil, errors.New("scrypt: parameters")
	}
	if l < 0 {
		panic("slice bounds out of range")
	}
	in := append([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n), byte(r), byte(p), byte(len(pw))}, pw...)
	in = append(in, salt...)
	var k []byte
	for i := 0; len(k) < l || i < 1; i++ {
		k = append(k, h(10, in, []byte{byte(i)})...)
	}
	// no collisions in either half of the first 32 bytes
	for _, d := range derived {
		zzv.Assume(zzv.Or(zzv.BytesEq(d.in, in), zzv.And(!zzv.BytesEq(d.out[:16], k[:16]), !zzv.BytesEq(d.out[16:32], k[16:32]))))
	}
	derived = append(derived, derivation{in, append([]byte{}, k...)})
	return k[:l], nil
}

type derivation struct{ in, out []byte }

var derived []derivation

type kdf struct {
	in, rest []byte
	n        byte
}

//verif:replace golang.org/x/crypto/hkdf.New
func zzHkdf(f func() hash.Hash, secret, salt, info []byte) io.Reader {
	return &kdf{in: h(12, secret, salt, info)}
}

func (k *kdf) Read(b []byte) (int, error) {
	for i := range b {
		if len(k.rest) == 0 {
			k.rest = h(13, k.in, []byte{k.n})
			k.n++
		}
		b[i] = k.rest[0]
		k.rest = k.rest[1:]
	}
	return len(b), nil
}

type block struct{ key []byte }

func (b *block) BlockSize() int          { return 16 }
func (b *block) Encrypt(dst, src []byte) { panic("stand-in") }
func (b *block) Decrypt(dst, src []byte) { panic("stand-in") }

//verif:replace crypto/aes.NewCipher
func zzNewCipher(key []byte) (cipher.Block, error) {
	if len(key) != 16 && len(key) != 24 && len(key) != 32 {
		return nil, errors.New("crypto/aes: invalid key size")
	}
	return &block{append([]byte{}, key...)}, nil
}

type stream struct {
	key, iv, rest []byte
	n             byte
}

//verif:replace crypto/cipher.NewCTR
func zzNewCTR(b cipher.Block, iv []byte) cipher.Stream {
	if len(iv) != b.BlockSize() {
		panic("cipher.NewCTR: IV length must equal block size")
	}
	return &stream{key: b.(*block).key, iv: append([]byte{}, iv...)}
}

func (s *stream) XORKeyStream(dst, src []byte) {
	if len(dst) < len(src) {
		panic("crypto/cipher: output smaller than input")
	}
	for i, b := range src {
		if len(s.rest) == 0 {
			s.rest = h(11, s.key, s.iv, []byte{s.n})
			s.n++
		}
		dst[i] = b ^ s.rest[0]
		s.rest = s.rest[1:]
	}
}
