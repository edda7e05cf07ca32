package cidoffer

import (
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmerkletree"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/cbergoon/merkletree"
)

var gvIDs []string

func specNode(n *nodeid.NodeID) bool { return n != nil && len(n.ToBytes()) == 32 }

func specCIDs(cids []cid.ContentID) bool {
	return gvForall(0, len(cids), func(i int) bool { return len(cids[i].ToBytes()) == 32 })
}

func specHolds(cids []cid.ContentID, id *cid.ContentID) bool {
	return gvExists(0, len(cids), func(i int) bool { return gvBytesEq(cids[i].ToBytes(), id.ToBytes()) })
}

// SpecOffer: an offer as the constructors make it
func SpecOffer(c *CIDOffer) bool {
	return c != nil && specNode(c.providerID) && len(c.cids) > 0 && specCIDs(c.cids)
}

// list holds the identifiers, in order
func inv_list(list []merkletree.Content, cids []cid.ContentID, n int) bool {
	return gvForall(0, n, func(i int) bool {
		c, ok := list[i].(cid.ContentID)
		return ok && gvBytesEq(c.ToBytes(), cids[i].ToBytes())
	})
}

//gv:target NewCIDOffer
//gv:props C05
//gv:nopanic C05.new-offer-no-panic
//gv:frame C05.new-offer-frame
//gv:use inv_list
func contract_NewCIDOffer(providerID *nodeid.NodeID, cids []cid.ContentID, price uint64, expiry int64, qos uint64) {
	gvRequires(func() bool { return specNode(providerID) && specCIDs(cids) })
	c, err := NewCIDOffer(providerID, cids, price, expiry, qos)
	gvEnsures("C05.offer-needs-identifiers", func() bool { return (err == nil) == (len(cids) > 0) && (c == nil) == (err != nil) })
	gvEnsures("C05.offer-holds-what-it-was-made-with", func() bool {
		return c == nil || c.providerID == providerID && gvSame(c.cids, cids) && c.price == price && c.expiry == expiry && c.qos == qos && c.signature == ""
	})
	gvEnsures("C05.offer-getters", func() bool {
		return c == nil || c.GetProviderID() == providerID && gvSame(c.GetCIDs(), cids) && c.GetPrice() == price && c.GetExpiry() == expiry && c.GetQoS() == qos && c.GetSignature() == ""
	})
	gvEnsures("C05.offer-root-is-its-tree's", func() bool { return c == nil || c.merkleTree != nil && c.merkleRoot == c.merkleTree.GetMerkleRoot() })
}

// a signed offer verifies, and so does every sub-offer made from it, with a proof bound to the identifier
//gv:props C05
//gv:nopanic C05.no-panic
//gv:use inv_list
//gv:inline common/pkg/fcrcrypto.SignMessage (*common/pkg/cidoffer.CIDOffer).Verify (*common/pkg/cidoffer.CIDOffer).GenerateSubCIDOffer
func contract_SignedOffer(providerID *nodeid.NodeID, cids []cid.ContentID, price uint64, expiry int64, qos uint64, key *fcrcrypto.KeyPair, ver *fcrcrypto.KeyVersion, id *cid.ContentID) {
	gvRequires(func() bool {
		return specNode(providerID) && specCIDs(cids) && id != nil && len(id.ToBytes()) == 32 && ver != nil && fcrcrypto.SpecSigner(key)
	})
	c, err := NewCIDOffer(providerID, cids, price, expiry, qos)
	if err != nil {
		return
	}
	err = c.Sign(key, ver)
	gvEnsures("C05.signing-succeeds", func() bool { return err == nil })
	err = c.Verify(key)
	gvEnsures("C05.signed-offer-verifies", func() bool { return err == nil })
	sub, err := c.GenerateSubCIDOffer(id)
	held := specHolds(cids, id)
	gvEnsures("C05.sub-offer-for-held-identifier", func() bool { return !held || err == nil })
	if err != nil || sub == nil {
		gvEnsures("C05.sub-offer-or-error", func() bool { return err != nil })
		return
	}
	gvEnsures("C05.sub-offer-copies-offer", func() bool {
		return sub.providerID == providerID && sub.subCID == id && sub.price == price && sub.expiry == expiry && sub.qos == qos && sub.signature == c.signature && sub.merkleRoot == c.merkleRoot
	})
	err = sub.Verify(key)
	gvEnsures("C05.sub-offer-verifies", func() bool { return err == nil })
	err = sub.VerifyMerkleProof()
	gvEnsures("C05.sub-offer-proof-verifies", func() bool { return !held || err == nil })
	gvEnsures("C05.no-proof-for-other-identifier", func() bool { return held || err != nil || hex.EncodeToString(id.ToBytes()) == c.merkleRoot })
}

//gv:target (*CIDOffer).Sign
//gv:props C05
//gv:nopanic C05.no-panic
//gv:modifies c.signature
//gv:frame C05.sign-frame
//gv:inline common/pkg/fcrcrypto.SignMessage
func contract_Sign(c *CIDOffer, privKey *fcrcrypto.KeyPair, keyVer *fcrcrypto.KeyVersion) {
	gvRequires(func() bool { return c != nil && specNode(c.providerID) && keyVer != nil && fcrcrypto.SpecSigner(privKey) })
	raw, e := c.MarshalToSign()
	want, e2 := fcrcrypto.SignMessage(privKey, keyVer, raw)
	err := c.Sign(privKey, keyVer)
	gvEnsures("C05.signing-succeeds", func() bool { return err == nil && e == nil && e2 == nil })
	gvEnsures("C05.signs-signing-bytes", func() bool { return err != nil || c.signature == want })
}

//gv:target (*CIDOffer).Verify
//gv:props C05
//gv:nopanic C05.no-panic
//gv:modifies pubKey.*
//gv:frame C05.verify-frame
func contract_Verify(c *CIDOffer, pubKey *fcrcrypto.KeyPair) {
	gvRequires(func() bool { return c != nil && specNode(c.providerID) && fcrcrypto.SpecKeyPair(pubKey) })
	raw, e := c.MarshalToSign()
	ok, e2 := fcrcrypto.VerifyMessage(pubKey, c.signature, raw)
	err := c.Verify(pubKey)
	gvEnsures("C05.accepts-exactly-valid-signature", func() bool { return (err == nil) == (e == nil && e2 == nil && ok) })
}

//gv:target (*SubCIDOffer).Verify
//gv:props C05
//gv:nopanic C05.no-panic
//gv:modifies pubKey.*
//gv:frame C05.verify-frame
func contract_SubVerify(c *SubCIDOffer, pubKey *fcrcrypto.KeyPair) {
	gvRequires(func() bool { return c != nil && specNode(c.providerID) && fcrcrypto.SpecKeyPair(pubKey) })
	raw, e := c.MarshalToSign()
	ok, e2 := fcrcrypto.VerifyMessage(pubKey, c.signature, raw)
	err := c.Verify(pubKey)
	gvEnsures("C05.accepts-exactly-valid-signature", func() bool { return (err == nil) == (e == nil && e2 == nil && ok) })
}

//gv:target (*SubCIDOffer).VerifyMerkleProof
//gv:props C05
//gv:nopanic C05.no-panic
//gv:frame C05.verify-frame
func contract_VerifyMerkleProof(c *SubCIDOffer) {
	gvRequires(func() bool { return c != nil && c.subCID != nil })
	p, id, root := c.merkleProof, c.subCID, c.merkleRoot
	ok := p.VerifyContent(id, root)
	err := c.VerifyMerkleProof()
	gvEnsures("C05.proof-checked-for-own-identifier-and-root", func() bool { return (err == nil) == ok })
}

// the signed bytes determine the provider, the identifiers' root, price, expiry and quality of service
//gv:props C05
//gv:nopanic C05.no-panic
func contract_SignedBytesCover(a, b *CIDOffer) {
	gvRequires(func() bool { return a != nil && b != nil && specNode(a.providerID) && specNode(b.providerID) })
	ra, e1 := a.MarshalToSign()
	rb, e2 := b.MarshalToSign()
	gvEnsures("C05.signing-bytes-exist", func() bool { return e1 == nil && e2 == nil })
	gvEnsures("C05.signing-bytes-cover-offer", func() bool {
		return gvBytesEq(ra, rb) == (gvBytesEq(a.providerID.ToBytes(), b.providerID.ToBytes()) && a.merkleRoot == b.merkleRoot && a.price == b.price && a.expiry == b.expiry && a.qos == b.qos)
	})
}

//gv:props C05
//gv:nopanic C05.no-panic
func contract_SubSignedBytesCover(a *CIDOffer, b *SubCIDOffer) {
	gvRequires(func() bool { return a != nil && b != nil && specNode(a.providerID) && specNode(b.providerID) })
	ra, e1 := a.MarshalToSign()
	rb, e2 := b.MarshalToSign()
	gvEnsures("C05.signing-bytes-exist", func() bool { return e1 == nil && e2 == nil })
	gvEnsures("C05.sub-offer-signing-bytes-cover-offer", func() bool {
		return gvBytesEq(ra, rb) == (gvBytesEq(a.providerID.ToBytes(), b.providerID.ToBytes()) && a.merkleRoot == b.merkleRoot && a.price == b.price && a.expiry == b.expiry && a.qos == b.qos)
	})
}

// ---- C07

// h and the first n identifiers one after the other
func specRecCat(h string, ids []string, n int) string {
	if n <= 0 {
		return h
	}
	return specRecCat(h, ids, n-1) + ids[n-1]
}

func specU64(v uint64) string {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, v)
	return string(b)
}

// what is hashed for the digest of c
func specDigestInput(c *CIDOffer, ids []string) string {
	return specRecCat(string(c.providerID.ToBytes()), ids, len(ids)) + specU64(c.price) + specU64(uint64(c.expiry)) + specU64(c.qos)
}

//gv:target (*CIDOffer).GetMessageDigest
//gv:props C07
//gv:nopanic C07.digest-no-panic
//gv:frame C07.digest-frame
//gv:use inv_digest
func contract_GetMessageDigest(c *CIDOffer) {
	gvRequires(func() bool { return SpecOffer(c) })
	gvIDs = gvSnapF(len(c.cids), func(i int) string { return string(c.cids[i].ToBytes()) })
	d := c.GetMessageDigest()
	gvEnsures("C07.digest-of-exactly-the-contents", func() bool { return d == sha512.Sum512_256([]byte(specDigestInput(c, gvIDs))) })
}

func inv_digest(c *CIDOffer, b []byte, n int) bool {
	return string(b) == specRecCat(string(c.providerID.ToBytes()), gvIDs, n+1)
}

//gv:props C07
//gv:nopanic C07.digest-text-no-panic
func contract_DigestText(d [CIDOfferDigestSize]byte) {
	s := EncodeMessageDigest(d)
	gvEnsures("C07.digest-text-round-trip", func() bool { return DecodeMessageDigest(s) == d })
}

//gv:target DecodeMessageDigest
//gv:props C07
//gv:nopanic C07.digest-text-no-panic
//gv:frame C07.digest-text-frame
func contract_DecodeMessageDigest(s string) {
	b, e := base64.StdEncoding.DecodeString(s)
	d := DecodeMessageDigest(s)
	gvEnsures("C07.digest-text-decoded", func() bool {
		return e != nil || len(b) != len(d) || gvForall(0, len(d), func(i int) bool { return d[i] == b[i] })
	})
}

//gv:props C07
//gv:nopanic C07.json-no-panic
//gv:use inv_list
func contract_OfferJSONRoundTrip(providerID *nodeid.NodeID, cids []cid.ContentID, price uint64, expiry int64, qos uint64, sig string) {
	gvRequires(func() bool { return specNode(providerID) && specCIDs(cids) })
	c, err := NewCIDOffer(providerID, cids, price, expiry, qos)
	if err != nil {
		return
	}
	c.SetSignature(sig)
	p, err := json.Marshal(c)
	var r CIDOffer
	err2 := json.Unmarshal(p, &r)
	gvEnsures("C07.offer-json-accepts-own", func() bool { return err == nil && err2 == nil })
	gvEnsures("C07.offer-json-keeps-provider", func() bool { return err2 != nil || r.providerID != nil && gvBytesEq(r.providerID.ToBytes(), providerID.ToBytes()) })
	gvEnsures("C07.offer-json-keeps-terms", func() bool {
		return err2 != nil || r.price == price && r.expiry == expiry && r.qos == qos && r.signature == sig
	})
	gvEnsures("C07.offer-json-keeps-identifiers", func() bool {
		return err2 != nil || len(r.cids) == len(cids) && gvForall(0, len(cids), func(i int) bool { return gvBytesEq(r.cids[i].ToBytes(), cids[i].ToBytes()) })
	})
	gvEnsures("C07.offer-json-keeps-root", func() bool { return err2 != nil || r.merkleRoot == c.merkleRoot })
}

//gv:target (*CIDOffer).UnmarshalJSON
//gv:props C07
//gv:nopanic C07.json-no-panic
//gv:modifies c.*
//gv:frame C07.json-frame
//gv:use inv_list
func contract_UnmarshalJSON(c *CIDOffer, p []byte) {
	gvRequires(func() bool { return c != nil })
	j := cidOfferJson{}
	e := json.Unmarshal(p, &j)
	_, e2 := nodeid.NewNodeIDFromHexString(j.ProviderID)
	_, e3 := cid.MapStringToCID(j.CIDs)
	err := c.UnmarshalJSON(p)
	gvEnsures("C07.offer-json-refuses-malformed", func() bool { return (err == nil) == (e == nil && e2 == nil && e3 == nil && len(j.CIDs) > 0) })
	gvEnsures("C07.offer-json-whole", func() bool { return err != nil || SpecOffer(c) && c.merkleTree != nil && c.merkleRoot == c.merkleTree.GetMerkleRoot() })
}

//gv:props C07
//gv:nopanic C07.json-no-panic
func contract_SubOfferJSONRoundTrip(c SubCIDOffer) {
	gvRequires(func() bool {
		return specNode(c.providerID) && c.subCID != nil && len(c.subCID.ToBytes()) == 32 && c.merkleProof != nil && fcrmerkletree.SpecShort(c.merkleProof)
	})
	p, err := json.Marshal(c)
	var r SubCIDOffer
	err2 := json.Unmarshal(p, &r)
	gvEnsures("C07.sub-offer-json-accepts-own", func() bool { return err == nil && err2 == nil })
	gvEnsures("C07.sub-offer-json-keeps-identifiers", func() bool {
		return err2 != nil || r.providerID != nil && gvBytesEq(r.providerID.ToBytes(), c.providerID.ToBytes()) && r.subCID != nil && gvBytesEq(r.subCID.ToBytes(), c.subCID.ToBytes())
	})
	gvEnsures("C07.sub-offer-json-keeps-terms", func() bool {
		return err2 != nil || r.price == c.price && r.expiry == c.expiry && r.qos == c.qos && r.signature == c.signature && r.merkleRoot == c.merkleRoot
	})
	gvEnsures("C07.sub-offer-json-keeps-proof", func() bool { return err2 != nil || r.merkleProof != nil && fcrmerkletree.SpecSameProof(r.merkleProof, c.merkleProof) })
}

//gv:target (*SubCIDOffer).UnmarshalJSON
//gv:props C07
//gv:nopanic C07.json-no-panic
//gv:modifies c.*
//gv:frame C07.json-frame
func contract_SubUnmarshalJSON(c *SubCIDOffer, p []byte) {
	gvRequires(func() bool { return c != nil })
	j := subCIDOfferJson{}
	e := json.Unmarshal(p, &j)
	_, e2 := nodeid.NewNodeIDFromHexString(j.ProviderID)
	_, e3 := cid.NewContentIDFromHexString(j.SubCID)
	err := c.UnmarshalJSON(p)
	gvEnsures("C07.sub-offer-json-refuses-malformed", func() bool { return (err == nil) == (e == nil && e2 == nil && e3 == nil) })
	gvEnsures("C07.sub-offer-json-whole", func() bool { return err != nil || c.providerID != nil && c.subCID != nil && c.merkleProof != nil })
}

// SpecSub: a sub-offer with all its parts
func SpecSub(s *SubCIDOffer) bool {
	return s != nil && s.providerID != nil && s.subCID != nil && s.merkleProof != nil
}

// SpecHasTree: the tree of a constructed offer is kept with it
func SpecHasTree(c *CIDOffer) bool { return c.merkleTree != nil && fcrmerkletree.SpecTree(c.merkleTree) }

//gv:target (*CIDOffer).GenerateSubCIDOffer
//gv:props C05,C11
//gv:modular
//gv:nopanic C05.sub-offer-no-panic
//gv:fresh 0
func contract_GenerateSubCIDOffer(c *CIDOffer, id *cid.ContentID) {
	gvRequires(func() bool { return SpecOffer(c) && SpecHasTree(c) && id != nil })
	sub, err := c.GenerateSubCIDOffer(id)
	gvEnsures("C05.sub-offer-or-error", func() bool { return (err == nil) == (sub != nil) })
	gvEnsures("C05.sub-offer-complete", func() bool { return sub == nil || SpecSub(sub) })
	gvEnsures("C05.sub-offer-of-the-content-and-offer", func() bool {
		return sub == nil || sub.subCID == id && sub.providerID == c.providerID && sub.price == c.price && sub.expiry == c.expiry && sub.qos == c.qos && sub.signature == c.signature && sub.merkleRoot == c.merkleRoot
	})
}

// what callers rely on: a digest is made without a crash and changes nothing
//gv:target (*CIDOffer).GetMessageDigest
//gv:props C07
//gv:modular
//gv:nopanic C07.digest-no-panic
//gv:frame C07.digest-frame
//gv:use inv_digestCall
func contract_GetMessageDigestCall(c *CIDOffer) {
	gvRequires(func() bool { return SpecProvider(c) })
	c.GetMessageDigest()
}

func inv_digestCall(c *CIDOffer) bool { return SpecProvider(c) }

// what callers rely on, proved with C05's contract of Verify for what is accepted
//gv:target (*CIDOffer).Verify
//gv:props C05,C12
//gv:modular
//gv:nopanic C05.no-panic
//gv:modifies pubKey.*
//gv:frame C05.verify-frame
func contract_VerifyCall(c *CIDOffer, pubKey *fcrcrypto.KeyPair) {
	gvRequires(func() bool { return c != nil && fcrcrypto.SpecKeyPair(pubKey) })
	err := c.Verify(pubKey)
	gvEnsures("C05.verified-offer-names-a-provider", func() bool { return err != nil || c.providerID != nil })
	gvEnsures("C05.key-stays-usable", func() bool { return fcrcrypto.SpecKeyPair(pubKey) })
}

// SpecProvider: the offer names a provider
func SpecProvider(c *CIDOffer) bool { return c != nil && c.providerID != nil }
