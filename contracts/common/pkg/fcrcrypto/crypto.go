package fcrcrypto

import (
	"encoding/hex"
	"encoding/json"
	"math/rand"

	"github.com/ipsn/go-secp256k1"
)

//gv:props C02
//gv:nopanic C02.no-panic
func contract_KeyVersionBytesRoundTrip(v uint32) {
	k := DecodeKeyVersion(v)
	b := k.EncodeKeyVersionAsBytes()
	r, err := DecodeKeyVersionFromBytes(b)
	gvEnsures("C02.key-version-bytes-round-trip", func() bool {
		return err == nil && len(b) == 4 && r.EncodeKeyVersion() == v && k.EncodeKeyVersion() == v && r.Equals(k) && !r.NotEquals(k) && r.EqualsRaw(v) && !r.NotEqualsRaw(v)
	})
}

//gv:props C02
//gv:nopanic C02.no-panic
func contract_KeyVersionDistinct(v, w uint32) {
	a, b := DecodeKeyVersion(v), DecodeKeyVersion(w)
	gvEnsures("C02.key-versions-equal-iff-same-number", func() bool {
		return a.Equals(b) == (v == w) && a.NotEquals(b) == (v != w) && a.EqualsRaw(w) == (v == w) && a.NotEqualsRaw(w) == (v != w)
	})
}

//gv:target (*KeyVersion).NextKeyVersion
//gv:props C02
//gv:nopanic C02.no-panic
//gv:frame C02.frame
func contract_NextKeyVersion(k *KeyVersion) {
	gvRequires(func() bool { return k != nil && k.ver < 0xffffffff })
	r := k.NextKeyVersion()
	gvEnsures("C02.next-key-version-is-larger", func() bool { return r.ver == k.ver+1 && InitialKeyVersion().ver == 1 })
}

//gv:target DecodeKeyVersionFromBytes
//gv:props C02
//gv:nopanic C02.no-panic
//gv:frame C02.frame
func contract_DecodeKeyVersionFromBytes(b []byte) {
	r, err := DecodeKeyVersionFromBytes(b)
	gvEnsures("C02.key-version-needs-4-bytes", func() bool { return (err == nil) == (len(b) >= 4) && (err == nil) == (r != nil) })
	gvEnsures("C02.key-version-big-endian", func() bool {
		return err != nil || r.ver == uint32(b[0])<<24|uint32(b[1])<<16|uint32(b[2])<<8|uint32(b[3])
	})
}

// any string may arrive as a signature
//gv:target ExtractKeyVersionFromMessage
//gv:props C02
//gv:nopanic C02.extract-key-version-no-panic
//gv:frame C02.frame
func contract_ExtractKeyVersionFromMessage(signature string) {
	raw, e := hex.DecodeString(signature)
	r, err := ExtractKeyVersionFromMessage(signature)
	gvEnsures("C02.extract-key-version-result-or-error", func() bool { return (err == nil) == (r != nil) })
	gvEnsures("C02.extract-key-version-rejects-malformed", func() bool { return err != nil || e == nil && (len(raw) == 0 || len(raw) >= 4) })
	gvEnsures("C02.extract-key-version-accepts-framed", func() bool { return e != nil || len(raw) < 4 || err == nil })
	gvEnsures("C02.extract-key-version-first-4-bytes", func() bool {
		return err != nil || len(raw) < 4 || r.ver == uint32(raw[0])<<24|uint32(raw[1])<<16|uint32(raw[2])<<8|uint32(raw[3])
	})
}

func specZero32() []byte { return make([]byte, 32) }

// a key pair as the constructors of this package make it: either a usable private key or a public key
func specKeyPair(k *KeyPair) bool {
	return k != nil && (k.pubKey != nil && len(k.pubKey) == secp256k1PublicKeyBytes || k.pubKey == nil && specUsable(k))
}

func specUsable(k *KeyPair) bool {
	_, err := secp256k1.Sign(specZero32(), k.pKey)
	return err == nil
}

//gv:props C02
//gv:nopanic C02.no-panic
//gv:inline common/pkg/fcrcrypto.SignMessage
func contract_SignThenVerify(k *KeyPair, v *KeyVersion, msg []byte) {
	gvRequires(func() bool {
		return k != nil && v != nil && k.alg.algorithm == SigAlgEcdsaSecP256K1Blake2b && specUsable(k) && k.pubKey == nil
	})
	s, err := SignMessage(k, v, msg)
	gvEnsures("C02.signing-succeeds", func() bool { return err == nil })
	kv, err2 := ExtractKeyVersionFromMessage(s)
	gvEnsures("C02.signature-carries-key-version", func() bool { return err2 == nil && kv.ver == v.ver })
	ok, err3 := VerifyMessage(k, s, msg)
	gvEnsures("C02.own-signature-verifies", func() bool { return err3 == nil && ok })
}

// the public key alone, as published, verifies what the private key signed
//gv:props C02
//gv:nopanic C02.no-panic
//gv:inline common/pkg/fcrcrypto.SignMessage
func contract_SignThenVerifyPublished(k *KeyPair, v *KeyVersion, msg []byte) {
	gvRequires(func() bool {
		return k != nil && v != nil && k.alg.algorithm == SigAlgEcdsaSecP256K1Blake2b && specUsable(k) && k.pubKey == nil
	})
	s, err := SignMessage(k, v, msg)
	ps, err1 := k.EncodePublicKey()
	pub, err2 := DecodePublicKey(ps)
	gvEnsures("C02.public-key-published", func() bool { return err == nil && err1 == nil && err2 == nil && pub != nil && pub.pKey == nil })
	ok, err3 := VerifyMessage(pub, s, msg)
	gvEnsures("C02.signature-verifies-under-published-key", func() bool { return err3 == nil && ok })
}

//gv:target VerifyMessage
//gv:props C02
//gv:nopanic C02.verify-no-panic
//gv:modifies pubKey.pubKey
//gv:frame C02.frame
func contract_VerifyMessage(pubKey *KeyPair, signature string, msg []byte) {
	gvRequires(func() bool { return specKeyPair(pubKey) })
	raw, e := hex.DecodeString(signature)
	ok, err := VerifyMessage(pubKey, signature, msg)
	gvEnsures("C02.rejects-unframed-signature", func() bool { return !ok || e == nil && len(raw) > 4 })
	gvEnsures("C02.error-is-not-acceptance", func() bool { return err == nil || !ok })
	gvEnsures("C02.accepts-iff-curve-accepts", func() bool {
		if !ok {
			return true
		}
		sig := raw[4:]
		if len(sig) == 65 {
			sig = sig[:64]
		}
		return secp256k1.VerifySignature(pubKey.pubKey, RetrievalV1Hash(msg), sig)
	})
}

//gv:props C02
//gv:nopanic C02.no-panic
func contract_PrivateKeyRoundTrip(k *KeyPair) {
	gvRequires(func() bool {
		return k != nil && k.alg.algorithm == SigAlgEcdsaSecP256K1Blake2b && len(k.pKey) == secp256k1PrivateKeyBytes
	})
	r, err := DecodePrivateKey(k.EncodePrivateKey())
	gvEnsures("C02.private-key-round-trip", func() bool { return err == nil && r.alg == k.alg && gvBytesEq(r.pKey, k.pKey) })
	raw, err1 := k.EncodeRawPrivateKey()
	r2, err2 := DecodeRawPrivateKey(raw)
	gvEnsures("C02.raw-private-key-round-trip", func() bool { return err1 == nil && err2 == nil && r2.alg == k.alg && gvBytesEq(r2.pKey, k.pKey) })
}

//gv:target DecodePrivateKey
//gv:props C02
//gv:nopanic C02.decode-key-no-panic
//gv:frame C02.frame
func contract_DecodePrivateKey(s string) {
	raw, e := hex.DecodeString(s)
	k, err := DecodePrivateKey(s)
	gvEnsures("C02.key-or-error", func() bool { return (err == nil) == (k != nil) })
	gvEnsures("C02.decode-private-key-well-formed-only", func() bool {
		return (err == nil) == (e == nil && len(raw) == 33 && raw[0] == SigAlgEcdsaSecP256K1Blake2b)
	})
	gvEnsures("C02.decoded-private-key", func() bool { return err != nil || gvBytesEq(k.pKey, raw[1:]) && k.pubKey == nil })
}

//gv:target DecodePublicKey
//gv:props C02
//gv:nopanic C02.decode-key-no-panic
//gv:frame C02.frame
func contract_DecodePublicKey(s string) {
	raw, e := hex.DecodeString(s)
	k, err := DecodePublicKey(s)
	gvEnsures("C02.key-or-error", func() bool { return (err == nil) == (k != nil) })
	gvEnsures("C02.decode-public-key-well-formed-only", func() bool {
		return (err == nil) == (e == nil && len(raw) == 66 && raw[0] == SigAlgEcdsaSecP256K1Blake2b)
	})
	gvEnsures("C02.decoded-public-key", func() bool { return err != nil || gvBytesEq(k.pubKey, raw[1:]) && k.pKey == nil })
}

// a key pair sent as JSON carries its public key and never its private key
//gv:props C02
//gv:nopanic C02.no-panic
func contract_KeyPairJSON(k KeyPair) {
	gvRequires(func() bool { return specKeyPair(&k) && k.alg.algorithm == SigAlgEcdsaSecP256K1Blake2b })
	b, err := json.Marshal(k)
	var r KeyPair
	err2 := json.Unmarshal(b, &r)
	pub, _ := k.EncodePublicKey()
	got, err3 := r.EncodePublicKey()
	gvEnsures("C02.key-pair-json-round-trip", func() bool { return err == nil && err2 == nil && err3 == nil && pub == got })
	gvEnsures("C02.key-pair-json-has-no-private-key", func() bool { return r.pKey == nil })
}

//gv:target RetrievalV1Verify
//gv:props C02
//gv:nopanic C02.no-panic
//gv:frame C02.frame
func contract_RetrievalV1Verify(signature, msg, hashed []byte) {
	ok, err := RetrievalV1Verify(signature, msg, hashed)
	gvEnsures("C02.error-is-not-acceptance", func() bool { return err == nil || !ok })
	gvEnsures("C02.recovered-key-must-hash-to-expected", func() bool {
		p, e := secp256k1.RecoverPubkey(RetrievalV1Hash(msg), signature)
		return !ok || e == nil && gvBytesEq(RetrievalV1Hash(append([]byte{SigAlgEcdsaSecP256K1Blake2b}, p...)), hashed)
	})
}

//gv:props C02
//gv:nopanic C02.no-panic
func contract_SignThenRecover(k *KeyPair, msg []byte) {
	gvRequires(func() bool {
		return k != nil && k.alg.algorithm == SigAlgEcdsaSecP256K1Blake2b && specUsable(k) && k.pubKey == nil
	})
	sig, err := k.Sign(msg)
	h, err2 := k.HashPublicKey()
	ok, err3 := RetrievalV1Verify(sig, msg, h)
	gvEnsures("C02.own-signature-recovers-own-key", func() bool { return err == nil && err2 == nil && err3 == nil && ok })
}

//gv:target secp256k1GenerateKeyFromSeed
//gv:props C02
//gv:nopanic C02.no-panic
//gv:nofalsify
func contract_GenerateKey() {
	b, err := secp256k1GenerateKeyFromSeed(nil)
	gvEnsures("C02.generated-key-has-32-bytes", func() bool { return err != nil || len(b) == secp256k1PrivateKeyBytes })
}

//gv:gentype KeyPair genKeyPair
//gv:gentype KeySigAlg genAlg
func genAlg(r *rand.Rand) interface{} {
	if r.Intn(10) == 0 {
		return KeySigAlg{uint8(r.Intn(4))}
	}
	return KeySigAlg{SigAlgEcdsaSecP256K1Blake2b}
}
func genKeyPair(r *rand.Rand) interface{} {
	k := KeyPair{alg: genAlg(r).(KeySigAlg)}
	b := make([]byte, 32)
	r.Read(b)
	if r.Intn(4) == 0 {
		for i := 0; i < 24; i++ {
			b[i] = 0
		}
	}
	switch r.Intn(6) {
	case 0:
		k.pubKey = secp256k1PublicKey(b)
	case 1:
		k.pubKey = b
	default:
		k.pKey = b
	}
	return k
}

//gv:gentype string genCryptoStr
func genCryptoStr(r *rand.Rand) interface{} {
	n := []int{0, 1, 2, 3, 4, 5, 33, 34, 66, 67, 69, 100}[r.Intn(12)]
	b := make([]byte, n)
	r.Read(b)
	if n > 0 && r.Intn(2) == 0 {
		b[0] = byte(r.Intn(3))
	}
	s := hex.EncodeToString(b)
	if r.Intn(8) == 0 {
		s += "z"
	}
	return s
}

// SpecSigner: a key pair holding a usable private key, as the constructors make it
func SpecSigner(k *KeyPair) bool {
	return k != nil && k.alg.algorithm == SigAlgEcdsaSecP256K1Blake2b && specUsable(k) && k.pubKey == nil
}

// SpecKeyPair: a key pair as the constructors make it
func SpecKeyPair(k *KeyPair) bool { return specKeyPair(k) }

// SpecPublicKey: a public key as decoding makes it
func SpecPublicKey(k *KeyPair) bool {
	return k != nil && k.pubKey != nil && len(k.pubKey) == secp256k1PublicKeyBytes
}

// SpecSameKey: the same public or private key bytes
func SpecSameKey(a, b *KeyPair) bool {
	return a.alg == b.alg && gvBytesEq(a.pKey, b.pKey) && (a.pubKey == nil) == (b.pubKey == nil) && (a.pubKey == nil || gvBytesEq(a.pubKey, b.pubKey))
}

// what callers rely on when signing; that the result verifies is C02's SignVerify
//gv:target SignMessage
//gv:props C02,C12
//gv:modular
//gv:nopanic C02.no-panic
//gv:frame C02.sign-frame
func contract_SignMessageCall(privKey *KeyPair, keyVer *KeyVersion, msg []byte) {
	gvRequires(func() bool { return SpecSigner(privKey) && keyVer != nil })
	SignMessage(privKey, keyVer, msg)
}

// what callers rely on when verifying; that it accepts only signatures made with the key is C02's
// Verify
//
//gv:target VerifyMessage
//gv:props C02,C12,C16
//gv:modular
//gv:onrequest
//gv:nopanic C02.no-panic
//gv:modifies pubKey.*
//gv:frame C02.verify-frame
func contract_VerifyMessageCall(pubKey *KeyPair, signature string, msg []byte) {
	gvRequires(func() bool { return SpecKeyPair(pubKey) })
	VerifyMessage(pubKey, signature, msg)
	gvEnsures("C02.key-stays-usable", func() bool { return SpecKeyPair(pubKey) })
}
