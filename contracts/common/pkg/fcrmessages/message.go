package fcrmessages

import (
	"encoding/json"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmerkletree"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
)

func specSameSigned(a, b *FCRMessage) bool {
	return a.messageType == b.messageType && a.protocolVersion == b.protocolVersion &&
		gvBytesEq(a.messageBody, b.messageBody) && len(a.protocolSupported) == len(b.protocolSupported) &&
		gvForall(0, len(a.protocolSupported), func(i int) bool { return a.protocolSupported[i] == b.protocolSupported[i] })
}

// the bytes that are signed determine everything in the message but the signature
//gv:props C03
//gv:nopanic C03.no-panic
func contract_SignedBytesCover(a, b *FCRMessage) {
	gvRequires(func() bool { return a != nil && b != nil })
	ra, e1 := a.MarshalToSign()
	rb, e2 := b.MarshalToSign()
	gvEnsures("C03.signing-bytes-exist", func() bool { return e1 == nil && e2 == nil })
	gvEnsures("C03.signing-bytes-cover-message", func() bool { return !gvBytesEq(ra, rb) || specSameSigned(a, b) })
	gvEnsures("C03.signing-bytes-ignore-signature", func() bool {
		return a.messageType != b.messageType || a.protocolVersion != b.protocolVersion || !gvSame(a.messageBody, b.messageBody) ||
			!gvSame(a.protocolSupported, b.protocolSupported) || (a.protocolSupported == nil) != (b.protocolSupported == nil) ||
			(a.messageBody == nil) != (b.messageBody == nil) || gvBytesEq(ra, rb)
	})
}

//gv:target (*FCRMessage).Sign
//gv:props C03
//gv:nopanic C03.no-panic
//gv:modifies fcrMsg.signature
//gv:frame C03.sign-frame
//gv:inline common/pkg/fcrcrypto.SignMessage
func contract_Sign(fcrMsg *FCRMessage, privKey *fcrcrypto.KeyPair, keyVer *fcrcrypto.KeyVersion) {
	gvRequires(func() bool { return fcrMsg != nil && keyVer != nil && fcrcrypto.SpecSigner(privKey) })
	raw, e := fcrMsg.MarshalToSign()
	want, e2 := fcrcrypto.SignMessage(privKey, keyVer, raw)
	err := fcrMsg.Sign(privKey, keyVer)
	gvEnsures("C03.signing-succeeds", func() bool { return err == nil && e == nil && e2 == nil })
	gvEnsures("C03.signs-signing-bytes", func() bool { return err != nil || fcrMsg.signature == want })
}

//gv:props C03
//gv:nopanic C03.no-panic
//gv:inline common/pkg/fcrcrypto.SignMessage (*common/pkg/fcrmessages.FCRMessage).Sign (*common/pkg/fcrmessages.FCRMessage).Verify
func contract_SignedVerifies(m *FCRMessage, privKey *fcrcrypto.KeyPair, keyVer *fcrcrypto.KeyVersion) {
	gvRequires(func() bool { return m != nil && keyVer != nil && fcrcrypto.SpecSigner(privKey) })
	m.Sign(privKey, keyVer)
	err := m.Verify(privKey)
	kv, err2 := fcrcrypto.ExtractKeyVersionFromMessage(m.GetSignature())
	gvEnsures("C03.signed-message-verifies", func() bool { return err == nil })
	gvEnsures("C03.signed-message-names-key-version", func() bool { return err2 == nil && kv.EncodeKeyVersion() == keyVer.EncodeKeyVersion() })
}

//gv:target (*FCRMessage).Verify
//gv:props C03
//gv:nopanic C03.no-panic
//gv:modifies pubKey.*
//gv:frame C03.verify-frame
func contract_Verify(fcrMsg *FCRMessage, pubKey *fcrcrypto.KeyPair) {
	gvRequires(func() bool { return fcrMsg != nil && fcrcrypto.SpecKeyPair(pubKey) })
	raw, e := fcrMsg.MarshalToSign()
	sig := fcrMsg.signature
	ok, e2 := fcrcrypto.VerifyMessage(pubKey, sig, raw)
	err := fcrMsg.Verify(pubKey)
	gvEnsures("C03.accepts-exactly-valid-signature", func() bool { return (err == nil) == (e == nil && e2 == nil && ok) })
	gvEnsures("C03.verify-keeps-signature", func() bool { return fcrMsg.signature == sig })
	gvEnsures("C03.unsigned-never-verifies", func() bool { return err != nil || sig != "" })
}

//gv:props C03
//gv:nopanic C03.no-panic
func contract_BytesRoundTrip(m *FCRMessage) {
	gvRequires(func() bool { return m != nil })
	b, err := m.FCRMsgToBytes()
	r, err2 := FCRMsgFromBytes(b)
	gvEnsures("C03.bytes-round-trip", func() bool { return err == nil && err2 == nil && r != nil && specSameMsg(r, m) })
}

//gv:target FCRMsgFromBytes
//gv:props C03
//gv:nopanic C03.from-bytes-no-panic
//gv:frame C03.from-bytes-frame
func contract_FCRMsgFromBytes(data []byte) {
	r, err := FCRMsgFromBytes(data)
	gvEnsures("C03.from-bytes-result-or-error", func() bool { return (err == nil) == (r != nil) })
	gvEnsures("C03.from-bytes-refuses-non-json", func() bool { return err != nil || json.Valid(data) })
}

//gv:target CreateFCRMessage
//gv:props C03
//gv:nopanic C03.no-panic
//gv:frame C03.create-frame
func contract_CreateFCRMessage(msgType int32, msgBody []byte) {
	m := CreateFCRMessage(msgType, msgBody)
	gvEnsures("C03.created-unsigned", func() bool {
		return m != nil && m.signature == "" && m.messageType == msgType && gvBytesEq(m.messageBody, msgBody) && m.protocolVersion == protocolVersion
	})
	gvEnsures("C03.getters", func() bool {
		return m.GetMessageType() == m.messageType && m.GetProtocolVersion() == m.protocolVersion && gvSame(m.GetMessageBody(), m.messageBody) &&
			gvSame(m.GetProtocolSupported(), m.protocolSupported) && m.GetSignature() == m.signature
	})
}


// what callers rely on, proved with C03's contract of Verify for what is accepted
//gv:target (*FCRMessage).Verify
//gv:props C03,C12
//gv:modular
//gv:nopanic C03.no-panic
//gv:modifies pubKey.*
//gv:frame C03.verify-frame
func contract_VerifyCall(fcrMsg *FCRMessage, pubKey *fcrcrypto.KeyPair) {
	gvRequires(func() bool { return fcrMsg != nil && fcrcrypto.SpecKeyPair(pubKey) })
	fcrMsg.Verify(pubKey)
	gvEnsures("C03.key-stays-usable", func() bool { return fcrcrypto.SpecKeyPair(pubKey) })
}

func specSingle(offers []cidoffer.CIDOffer, n int) bool {
	return gvForall(0, n, func(j int) bool { return len(offers[j].GetCIDs()) == 1 })
}

func inv_single(offers []cidoffer.CIDOffer, i int) bool { return specSingle(offers, i+1) }

// what handlers rely on; the field-by-field behaviour is C04's round trip contracts
//gv:target DecodeProviderPublishDHTOfferRequest
//gv:props C04,C12
//gv:modular
//gv:nopanic C04.decode-no-panic
//gv:frame C04.decode-frame
//gv:fresh 0 2
//gv:use inv_single
func contract_DecodePublishDHTCall(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	id, _, offers, err := DecodeProviderPublishDHTOfferRequest(fcrMsg)
	gvEnsures("C04.publication-names-its-sender", func() bool { return err != nil || id != nil && len(id.ToBytes()) == 32 })
	gvEnsures("C04.published-offers-single", func() bool { return err != nil || specSingle(offers, len(offers)) })
}

//gv:target DecodeGatewayListDHTOfferResponse
//gv:props C04,C12
//gv:modular
//gv:nopanic C04.decode-no-panic
//gv:frame C04.decode-frame
//gv:fresh 0
func contract_DecodeListDHTCall(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	DecodeGatewayListDHTOfferResponse(fcrMsg)
}

//gv:target EncodeGatewayListDHTOfferAck
//gv:props C04,C12
//gv:modular
//gv:nopanic C04.encode-no-panic
//gv:frame C04.encode-frame
//gv:fresh 0
func contract_EncodeListAckCall(acks []FCRMessage) {
	m, err := EncodeGatewayListDHTOfferAck(acks)
	gvEnsures("C04.message-or-error", func() bool { return (err == nil) == (m != nil) })
}

//gv:target EncodeProviderPublishDHTOfferResponse
//gv:props C04,C12
//gv:modular
//gv:nopanic C04.encode-no-panic
//gv:frame C04.encode-frame
//gv:fresh 0
func contract_EncodePublishDHTAckCall(nonce int64, sig string) {
	m, err := EncodeProviderPublishDHTOfferResponse(nonce, sig)
	gvEnsures("C04.message-or-error", func() bool { return (err == nil) == (m != nil) })
}

// what callers rely on when signing; that the result verifies is C03's SignVerify
//gv:target (*FCRMessage).Sign
//gv:props C03,C12
//gv:modular
//gv:nopanic C03.no-panic
//gv:modifies fcrMsg.signature
//gv:frame C03.sign-frame
//gv:inline common/pkg/fcrcrypto.SignMessage
func contract_SignCall(fcrMsg *FCRMessage, privKey *fcrcrypto.KeyPair, keyVer *fcrcrypto.KeyVersion) {
	gvRequires(func() bool { return fcrMsg != nil && fcrcrypto.SpecSigner(privKey) && keyVer != nil })
	fcrMsg.Sign(privKey, keyVer)
}

//gv:target EncodeGatewayListDHTOfferRequest
//gv:props C04,C12
//gv:modular
//gv:nopanic C04.encode-no-panic
//gv:frame C04.encode-frame
//gv:fresh 0
func contract_EncodeListRequestCall(gatewayID *nodeid.NodeID, cidMin *cid.ContentID, cidMax *cid.ContentID, blockHash string, receipt string, root string, proof *fcrmerkletree.FCRMerkleProof) {
	gvRequires(func() bool { return gatewayID != nil && cidMin != nil && cidMax != nil && proof != nil })
	m, err := EncodeGatewayListDHTOfferRequest(gatewayID, cidMin, cidMax, blockHash, receipt, root, proof)
	gvEnsures("C04.message-or-error", func() bool { return (err == nil) == (m != nil) })
}
