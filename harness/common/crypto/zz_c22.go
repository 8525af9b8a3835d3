package crypto

import (
	zzv "github.com/icon-project/btp/common/zzv"
	_ "github.com/icon-project/btp/common/zzv/zkey"
)

func VH_C22_signature_forms() {
	l := zzv.Choose("l", 0, 67)
	b := zzv.Bytes("b", l)
	s, err := ParseSignature(b)
	zzv.Assert((err == nil) == (l == 64 || l == 65), "a signature has 64 bytes without or 65 bytes with V")
	v, verr := ParseSignatureVRS(b)
	zzv.Assert((verr == nil) == (l == 65), "a signature in VRS form has 65 bytes")
	if err != nil {
		zzv.Reach("refused")
		return
	}
	zzv.Assert(s.HasV() == (l == 65), "a signature knows whether it has V")
	rs, err := s.SerializeRS()
	zzv.Assert(err == nil && zzv.BytesEq(rs, b[:64]), "R and S are the first 64 bytes")
	rsv, err := s.SerializeRSV()
	zzv.Assert((err == nil) == (l == 65), "the RSV form needs V")
	vrs, err2 := s.SerializeVRS()
	zzv.Assert((err2 == nil) == (l == 65), "the VRS form needs V")
	if l == 64 {
		_, err = s.RecoverPublicKey(b[:32])
		zzv.Assert(err != nil, "no key can be recovered without V")
		zzv.Reach("RS")
		return
	}
	zzv.Assert(zzv.BytesEq(rsv, b), "a signature is recovered from its RSV form")
	zzv.Assert(len(vrs) == 65 && vrs[0] == b[64] && zzv.BytesEq(vrs[1:], b[:64]), "V comes first in the VRS form")
	zzv.Assert(v.HasV(), "a signature in VRS form has V")
	x, err := v.SerializeRSV()
	zzv.Assert(err == nil && zzv.BytesEq(x, append(append([]byte{}, b[1:]...), b[0])), "the VRS form is V, R and S")
	w, err := ParseSignatureVRS(vrs)
	zzv.Assert(err == nil, "the VRS form is parsed")
	y, err := w.SerializeRSV()
	zzv.Assert(err == nil && zzv.BytesEq(y, b), "a signature is recovered from its VRS form")
	zzv.Assert(s.String() != w.String() == false, "equal signatures print alike")
	zzv.Reach("RSV")
}

func zzKey22(n string) *PrivateKey {
	b := make([]byte, 32)
	for i := range b {
		b[i] = byte(i)
	}
	copy(b[16:], zzv.Bytes(n, 2))
	k, err := ParsePrivateKey(b)
	zzv.Assert(err == nil, "a number below the order of the curve is a private key")
	zzv.Assert(zzv.BytesEq(k.Bytes(), b), "a private key is recovered from its bytes")
	return k
}

func VH_C22_private_key() {
	l := zzv.Choose("l", 30, 34)
	b := zzv.Bytes("b", l)
	k, err := ParsePrivateKey(b)
	if l != 32 {
		zzv.Assert(err != nil, "a private key has 32 bytes")
		return
	}
	if err != nil {
		zzv.Assert(zzv.Or(b[0] == 0, b[0] == 0xff), "a number below the order of the curve is a private key")
		return
	}
	c := append([]byte{}, b...)
	zzv.Assert(zzv.BytesEq(k.Bytes(), c), "a private key is recovered from its bytes")
	b[3] ^= 1
	k.Bytes()[0] ^= 1
	zzv.Assert(zzv.BytesEq(k.Bytes(), c), "a private key is not changed through the bytes given or got")
	zzv.Assert(len(k.PublicKey().SerializeCompressed()) == 33, "a private key has a public key")
	zzv.Reach("private")
}

func VH_C22_public_key() {
	p := zzKey22("k").PublicKey()
	c := p.SerializeCompressed()
	u := p.SerializeUncompressed()
	zzv.Assert(len(c) == 33 && len(u) == 65 && u[0] == 4, "the forms of a public key have 33 and 65 bytes")
	p1, err := ParsePublicKey(append([]byte{}, c...))
	zzv.Assert(err == nil && p1.Equal(p) && p.Equal(p1), "a public key is recovered from its compressed form")
	p2, err := ParsePublicKey(u)
	zzv.Assert(err == nil && p2.Equal(p), "a public key is recovered from its uncompressed form")
	zzv.Assert(zzv.BytesEq(p2.SerializeCompressed(), c), "a public key is recovered from its uncompressed form")
	q := zzKey22("k").PublicKey()
	zzv.Assert(p.Equal(q) == zzv.BytesEq(c, q.SerializeCompressed()), "public keys are equal exactly if their bytes are")
	zzv.Reach("public")
}

func VH_C22_public_key_length() {
	l := zzv.Choose("l", 0, 67)
	b := zzv.Bytes("b", l)
	p, err := ParsePublicKey(b)
	zzv.Assert((err == nil) == (l == 33 || l == 65), "a public key has 33 or 65 bytes")
	if err == nil {
		c := p.SerializeCompressed()
		if l == 33 {
			zzv.Assert(zzv.BytesEq(c, b), "a compressed public key is kept")
		} else {
			zzv.Assert(len(c) == 33 && c[0] == 2+b[64]&1 && zzv.BytesEq(c[1:], b[1:33]), "the compressed form is the parity of y and x")
		}
		zzv.Reach("parsed")
		d := zzv.Bytes("d", 33)
		q, err := ParsePublicKey(d)
		zzv.Assert(err == nil && p.Equal(q) == zzv.BytesEq(c, d) && q.Equal(p) == zzv.BytesEq(c, d), "public keys are equal exactly if their bytes are")
	}
}

func VH_C22_sign_and_verify() {
	k, k2 := zzKey22("k"), zzKey22("k")
	n := zzv.Choose("n", 0, 33)
	if n > 2 && n < 31 {
		return
	}
	h := zzv.Bytes("h", n)
	s, err := NewSignature(h, k)
	zzv.Assert((err == nil) == (n > 0 && n <= 32), "a hash of 1 to 32 bytes can be signed")
	_, err = NewSignature(h, nil)
	zzv.Assert(err != nil, "nothing is signed without a key")
	if s == nil {
		return
	}
	p := k.PublicKey()
	zzv.Assert(s.HasV(), "a signature has V")
	zzv.Assert(s.Verify(h, p), "a signature is valid for what was signed")
	r, err := s.RecoverPublicKey(h)
	zzv.Assert(err == nil && r.Equal(p), "the signer's public key is recovered")
	b, _ := s.SerializeVRS()
	s2, err := ParseSignatureVRS(b)
	zzv.Assert(err == nil && s2.Verify(h, p), "a signature is valid after a round trip")
	zzv.Assert(!s.Verify(h, nil), "nothing is valid without a key")
	zzv.Assert(!s.Verify(nil, p), "nothing is valid without a hash")
	zzv.Assert(!s.Verify(append(make([]byte, 33-n), h...), p), "a hash of more than 32 bytes is refused")
	_, err = s.RecoverPublicKey(nil)
	zzv.Assert(err != nil, "no key is recovered without a hash")
	_, err = s.RecoverPublicKey(make([]byte, 33))
	zzv.Assert(err != nil, "no key is recovered for a hash of more than 32 bytes")
	p2 := k2.PublicKey()
	zzv.Assert(s.Verify(h, p2) == p2.Equal(p), "a signature is not valid for another key")
	h2 := append([]byte{}, h...)
	h2[n-1] ^= 1
	zzv.Assert(!s.Verify(h2, p), "a signature is not valid for another hash")
	zzv.Reach("signed")
}

// Arbitrary signatures do not crash and are not taken for valid.
func VH_C22_foreign() {
	l := []int{64, 65}[zzv.Choose("l", 0, 1)]
	b := zzv.Bytes("b", l)
	s, err := ParseSignature(b)
	zzv.Assert(err == nil, "a signature is parsed")
	h := zzv.Bytes("h", 32)
	k := zzKey22("k")
	zzv.Assert(!s.Verify(h, k.PublicKey()), "what was not signed is not valid")
	s.RecoverPublicKey(h)
	zzv.Assert((*Signature)(nil).String() == "[empty]", "no signature prints as empty")
	zzv.Reach("foreign")
}
