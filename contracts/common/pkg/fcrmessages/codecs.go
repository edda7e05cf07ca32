package fcrmessages

import (
	"encoding/json"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmerkletree"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
)

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ClientDHTDiscoverOfferRequest-no-panic
func contract_ClientDHTDiscoverOfferRequest(pieceCID *cid.ContentID, nonce int64, gatewaysDigests [][]string, gatewayIDs []nodeid.NodeID, paychAddr string, voucher string) {
	gvRequires(func() bool { return pieceCID != nil && len(pieceCID.ToBytes()) == 32 && gvForall(0, len(gatewayIDs), func(i int) bool { return len(gatewayIDs[i].ToBytes()) == 32 }) })
	m, err := EncodeClientDHTDiscoverOfferRequest(pieceCID, nonce, gatewaysDigests, gatewayIDs, paychAddr, voucher)
	gvEnsures("C04.ClientDHTDiscoverOfferRequest-encodes", func() bool { return err == nil && m != nil && m.messageType == ClientDHTDiscoverOfferRequestType && m.protocolVersion == protocolVersion })
	d0, d1, d2, d3, d4, d5, err2 := DecodeClientDHTDiscoverOfferRequest(m)
	gvEnsures("C04.ClientDHTDiscoverOfferRequest-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ClientDHTDiscoverOfferRequest-keeps-pieceCID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), pieceCID.ToBytes()) })
	gvEnsures("C04.ClientDHTDiscoverOfferRequest-keeps-nonce", func() bool { return err != nil || err2 != nil || d1 == nonce })
	gvEnsures("C04.ClientDHTDiscoverOfferRequest-keeps-gatewaysDigests", func() bool { return err != nil || err2 != nil || len(d2) == len(gatewaysDigests) && gvSameJSON(d2, gatewaysDigests) })
	gvEnsures("C04.ClientDHTDiscoverOfferRequest-keeps-gatewayIDs", func() bool { return err != nil || err2 != nil || len(d3) == len(gatewayIDs) && gvForall(0, len(gatewayIDs), func(i int) bool { return gvBytesEq(d3[i].ToBytes(), gatewayIDs[i].ToBytes()) }) })
	gvEnsures("C04.ClientDHTDiscoverOfferRequest-keeps-paychAddr", func() bool { return err != nil || err2 != nil || d4 == paychAddr })
	gvEnsures("C04.ClientDHTDiscoverOfferRequest-keeps-voucher", func() bool { return err != nil || err2 != nil || d5 == voucher })
}

//gv:target DecodeClientDHTDiscoverOfferRequest
//gv:props C04
//gv:nopanic C04.ClientDHTDiscoverOfferRequest-decode-no-panic
//gv:frame C04.ClientDHTDiscoverOfferRequest-decode-frame
func contract_ClientDHTDiscoverOfferRequest_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, _, _, _, _, _, err := DecodeClientDHTDiscoverOfferRequest(fcrMsg)
	gvEnsures("C04.ClientDHTDiscoverOfferRequest-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ClientDHTDiscoverOfferRequestType })
	gvEnsures("C04.ClientDHTDiscoverOfferRequest-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.ClientDHTDiscoverOfferRequest-accepted-is-complete", func() bool { return err != nil || r0 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ClientDHTDiscoverOfferResponse-no-panic
func contract_ClientDHTDiscoverOfferResponse(pieceCID *cid.ContentID, nonce int64, gatewayIDs []nodeid.NodeID, response []FCRMessage, paymentRequired bool, paymentChannel string) {
	gvRequires(func() bool { return pieceCID != nil && len(pieceCID.ToBytes()) == 32 && gvForall(0, len(gatewayIDs), func(i int) bool { return len(gatewayIDs[i].ToBytes()) == 32 }) })
	m, err := EncodeClientDHTDiscoverOfferResponse(pieceCID, nonce, gatewayIDs, response, paymentRequired, paymentChannel)
	gvEnsures("C04.ClientDHTDiscoverOfferResponse-encodes", func() bool { return err == nil && m != nil && m.messageType == ClientDHTDiscoverOfferResponseType && m.protocolVersion == protocolVersion })
	d0, d1, d2, d3, d4, d5, err2 := DecodeClientDHTDiscoverOfferResponse(m)
	gvEnsures("C04.ClientDHTDiscoverOfferResponse-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ClientDHTDiscoverOfferResponse-keeps-pieceCID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), pieceCID.ToBytes()) })
	gvEnsures("C04.ClientDHTDiscoverOfferResponse-keeps-nonce", func() bool { return err != nil || err2 != nil || d1 == nonce })
	gvEnsures("C04.ClientDHTDiscoverOfferResponse-keeps-gatewayIDs", func() bool { return err != nil || err2 != nil || len(d2) == len(gatewayIDs) && gvForall(0, len(gatewayIDs), func(i int) bool { return gvBytesEq(d2[i].ToBytes(), gatewayIDs[i].ToBytes()) }) })
	gvEnsures("C04.ClientDHTDiscoverOfferResponse-keeps-response", func() bool { return err != nil || err2 != nil || len(d3) == len(response) && gvSameJSON(d3, response) })
	gvEnsures("C04.ClientDHTDiscoverOfferResponse-keeps-paymentRequired", func() bool { return err != nil || err2 != nil || d4 == paymentRequired })
	gvEnsures("C04.ClientDHTDiscoverOfferResponse-keeps-paymentChannel", func() bool { return err != nil || err2 != nil || d5 == paymentChannel })
}

//gv:target DecodeClientDHTDiscoverOfferResponse
//gv:props C04
//gv:nopanic C04.ClientDHTDiscoverOfferResponse-decode-no-panic
//gv:frame C04.ClientDHTDiscoverOfferResponse-decode-frame
func contract_ClientDHTDiscoverOfferResponse_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, _, _, _, _, _, err := DecodeClientDHTDiscoverOfferResponse(fcrMsg)
	gvEnsures("C04.ClientDHTDiscoverOfferResponse-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ClientDHTDiscoverOfferResponseType })
	gvEnsures("C04.ClientDHTDiscoverOfferResponse-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.ClientDHTDiscoverOfferResponse-accepted-is-complete", func() bool { return err != nil || r0 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ClientDHTDiscoverRequest-no-panic
func contract_ClientDHTDiscoverRequest(pieceCID *cid.ContentID, nonce int64, ttl int64, numDHT int64, incrementalResults bool, paychAddr string, voucher string) {
	gvRequires(func() bool { return pieceCID != nil && len(pieceCID.ToBytes()) == 32 })
	m, err := EncodeClientDHTDiscoverRequest(pieceCID, nonce, ttl, numDHT, incrementalResults, paychAddr, voucher)
	gvEnsures("C04.ClientDHTDiscoverRequest-encodes", func() bool { return err == nil && m != nil && m.messageType == ClientDHTDiscoverRequestType && m.protocolVersion == protocolVersion })
	d0, d1, d2, d3, d4, d5, d6, err2 := DecodeClientDHTDiscoverRequest(m)
	gvEnsures("C04.ClientDHTDiscoverRequest-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ClientDHTDiscoverRequest-keeps-pieceCID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), pieceCID.ToBytes()) })
	gvEnsures("C04.ClientDHTDiscoverRequest-keeps-nonce", func() bool { return err != nil || err2 != nil || d1 == nonce })
	gvEnsures("C04.ClientDHTDiscoverRequest-keeps-ttl", func() bool { return err != nil || err2 != nil || d2 == ttl })
	gvEnsures("C04.ClientDHTDiscoverRequest-keeps-numDHT", func() bool { return err != nil || err2 != nil || d3 == numDHT })
	gvEnsures("C04.ClientDHTDiscoverRequest-keeps-incrementalResults", func() bool { return err != nil || err2 != nil || d4 == incrementalResults })
	gvEnsures("C04.ClientDHTDiscoverRequest-keeps-paychAddr", func() bool { return err != nil || err2 != nil || d5 == paychAddr })
	gvEnsures("C04.ClientDHTDiscoverRequest-keeps-voucher", func() bool { return err != nil || err2 != nil || d6 == voucher })
}

//gv:target DecodeClientDHTDiscoverRequest
//gv:props C04
//gv:nopanic C04.ClientDHTDiscoverRequest-decode-no-panic
//gv:frame C04.ClientDHTDiscoverRequest-decode-frame
func contract_ClientDHTDiscoverRequest_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, _, _, _, _, _, _, err := DecodeClientDHTDiscoverRequest(fcrMsg)
	gvEnsures("C04.ClientDHTDiscoverRequest-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ClientDHTDiscoverRequestType })
	gvEnsures("C04.ClientDHTDiscoverRequest-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.ClientDHTDiscoverRequest-accepted-is-complete", func() bool { return err != nil || r0 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ClientDHTDiscoverRequestV2-no-panic
func contract_ClientDHTDiscoverRequestV2(pieceCID *cid.ContentID, nonce int64, ttl int64, numDHT int64, incrementalResults bool, paychAddr string, voucher string) {
	gvRequires(func() bool { return pieceCID != nil && len(pieceCID.ToBytes()) == 32 })
	m, err := EncodeClientDHTDiscoverRequestV2(pieceCID, nonce, ttl, numDHT, incrementalResults, paychAddr, voucher)
	gvEnsures("C04.ClientDHTDiscoverRequestV2-encodes", func() bool { return err == nil && m != nil && m.messageType == ClientDHTDiscoverRequestV2Type && m.protocolVersion == protocolVersion })
	d0, d1, d2, d3, d4, d5, d6, err2 := DecodeClientDHTDiscoverRequestV2(m)
	gvEnsures("C04.ClientDHTDiscoverRequestV2-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ClientDHTDiscoverRequestV2-keeps-pieceCID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), pieceCID.ToBytes()) })
	gvEnsures("C04.ClientDHTDiscoverRequestV2-keeps-nonce", func() bool { return err != nil || err2 != nil || d1 == nonce })
	gvEnsures("C04.ClientDHTDiscoverRequestV2-keeps-ttl", func() bool { return err != nil || err2 != nil || d2 == ttl })
	gvEnsures("C04.ClientDHTDiscoverRequestV2-keeps-numDHT", func() bool { return err != nil || err2 != nil || d3 == numDHT })
	gvEnsures("C04.ClientDHTDiscoverRequestV2-keeps-incrementalResults", func() bool { return err != nil || err2 != nil || d4 == incrementalResults })
	gvEnsures("C04.ClientDHTDiscoverRequestV2-keeps-paychAddr", func() bool { return err != nil || err2 != nil || d5 == paychAddr })
	gvEnsures("C04.ClientDHTDiscoverRequestV2-keeps-voucher", func() bool { return err != nil || err2 != nil || d6 == voucher })
}

//gv:target DecodeClientDHTDiscoverRequestV2
//gv:props C04
//gv:nopanic C04.ClientDHTDiscoverRequestV2-decode-no-panic
//gv:frame C04.ClientDHTDiscoverRequestV2-decode-frame
func contract_ClientDHTDiscoverRequestV2_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, _, _, _, _, _, _, err := DecodeClientDHTDiscoverRequestV2(fcrMsg)
	gvEnsures("C04.ClientDHTDiscoverRequestV2-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ClientDHTDiscoverRequestV2Type })
	gvEnsures("C04.ClientDHTDiscoverRequestV2-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.ClientDHTDiscoverRequestV2-accepted-is-complete", func() bool { return err != nil || r0 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ClientDHTDiscoverResponse-no-panic
func contract_ClientDHTDiscoverResponse(contacted []nodeid.NodeID, response []FCRMessage, unContactable []nodeid.NodeID, nonce int64, paymentRequired bool, paymentChannel string) {
	gvRequires(func() bool { return gvForall(0, len(contacted), func(i int) bool { return len(contacted[i].ToBytes()) == 32 }) && gvForall(0, len(unContactable), func(i int) bool { return len(unContactable[i].ToBytes()) == 32 }) })
	m, err := EncodeClientDHTDiscoverResponse(contacted, response, unContactable, nonce, paymentRequired, paymentChannel)
	gvEnsures("C04.ClientDHTDiscoverResponse-encodes", func() bool { return err == nil && m != nil && m.messageType == ClientDHTDiscoverResponseType && m.protocolVersion == protocolVersion })
	d0, d1, d2, d3, d4, d5, err2 := DecodeClientDHTDiscoverResponse(m)
	gvEnsures("C04.ClientDHTDiscoverResponse-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ClientDHTDiscoverResponse-keeps-contacted", func() bool { return err != nil || err2 != nil || len(d0) == len(contacted) && gvForall(0, len(contacted), func(i int) bool { return gvBytesEq(d0[i].ToBytes(), contacted[i].ToBytes()) }) })
	gvEnsures("C04.ClientDHTDiscoverResponse-keeps-response", func() bool { return err != nil || err2 != nil || len(d1) == len(response) && gvSameJSON(d1, response) })
	gvEnsures("C04.ClientDHTDiscoverResponse-keeps-unContactable", func() bool { return err != nil || err2 != nil || len(d2) == len(unContactable) && gvForall(0, len(unContactable), func(i int) bool { return gvBytesEq(d2[i].ToBytes(), unContactable[i].ToBytes()) }) })
	gvEnsures("C04.ClientDHTDiscoverResponse-keeps-nonce", func() bool { return err != nil || err2 != nil || d3 == nonce })
	gvEnsures("C04.ClientDHTDiscoverResponse-keeps-paymentRequired", func() bool { return err != nil || err2 != nil || d4 == paymentRequired })
	gvEnsures("C04.ClientDHTDiscoverResponse-keeps-paymentChannel", func() bool { return err != nil || err2 != nil || d5 == paymentChannel })
}

//gv:target DecodeClientDHTDiscoverResponse
//gv:props C04
//gv:nopanic C04.ClientDHTDiscoverResponse-decode-no-panic
//gv:frame C04.ClientDHTDiscoverResponse-decode-frame
func contract_ClientDHTDiscoverResponse_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	_, _, _, _, _, _, err := DecodeClientDHTDiscoverResponse(fcrMsg)
	gvEnsures("C04.ClientDHTDiscoverResponse-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ClientDHTDiscoverResponseType })
	gvEnsures("C04.ClientDHTDiscoverResponse-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ClientDHTDiscoverResponseV2-no-panic
func contract_ClientDHTDiscoverResponseV2(contacted []nodeid.NodeID, response []FCRMessage, unContactable []nodeid.NodeID, nonce int64, paymentRequired bool, paymentChannel string) {
	gvRequires(func() bool { return gvForall(0, len(contacted), func(i int) bool { return len(contacted[i].ToBytes()) == 32 }) && gvForall(0, len(unContactable), func(i int) bool { return len(unContactable[i].ToBytes()) == 32 }) })
	m, err := EncodeClientDHTDiscoverResponseV2(contacted, response, unContactable, nonce, paymentRequired, paymentChannel)
	gvEnsures("C04.ClientDHTDiscoverResponseV2-encodes", func() bool { return err == nil && m != nil && m.messageType == ClientDHTDiscoverResponseV2Type && m.protocolVersion == protocolVersion })
	d0, d1, d2, d3, d4, d5, err2 := DecodeClientDHTDiscoverResponseV2(m)
	gvEnsures("C04.ClientDHTDiscoverResponseV2-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ClientDHTDiscoverResponseV2-keeps-contacted", func() bool { return err != nil || err2 != nil || len(d0) == len(contacted) && gvForall(0, len(contacted), func(i int) bool { return gvBytesEq(d0[i].ToBytes(), contacted[i].ToBytes()) }) })
	gvEnsures("C04.ClientDHTDiscoverResponseV2-keeps-response", func() bool { return err != nil || err2 != nil || len(d1) == len(response) && gvSameJSON(d1, response) })
	gvEnsures("C04.ClientDHTDiscoverResponseV2-keeps-unContactable", func() bool { return err != nil || err2 != nil || len(d2) == len(unContactable) && gvForall(0, len(unContactable), func(i int) bool { return gvBytesEq(d2[i].ToBytes(), unContactable[i].ToBytes()) }) })
	gvEnsures("C04.ClientDHTDiscoverResponseV2-keeps-nonce", func() bool { return err != nil || err2 != nil || d3 == nonce })
	gvEnsures("C04.ClientDHTDiscoverResponseV2-keeps-paymentRequired", func() bool { return err != nil || err2 != nil || d4 == paymentRequired })
	gvEnsures("C04.ClientDHTDiscoverResponseV2-keeps-paymentChannel", func() bool { return err != nil || err2 != nil || d5 == paymentChannel })
}

//gv:target DecodeClientDHTDiscoverResponseV2
//gv:props C04
//gv:nopanic C04.ClientDHTDiscoverResponseV2-decode-no-panic
//gv:frame C04.ClientDHTDiscoverResponseV2-decode-frame
func contract_ClientDHTDiscoverResponseV2_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	_, _, _, _, _, _, err := DecodeClientDHTDiscoverResponseV2(fcrMsg)
	gvEnsures("C04.ClientDHTDiscoverResponseV2-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ClientDHTDiscoverResponseV2Type })
	gvEnsures("C04.ClientDHTDiscoverResponseV2-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ClientDHTOfferAckRequest-no-panic
func contract_ClientDHTOfferAckRequest(pieceCID *cid.ContentID, gatewayID *nodeid.NodeID) {
	gvRequires(func() bool { return pieceCID != nil && len(pieceCID.ToBytes()) == 32 && gatewayID != nil && len(gatewayID.ToBytes()) == 32 })
	m, err := EncodeClientDHTOfferAckRequest(pieceCID, gatewayID)
	gvEnsures("C04.ClientDHTOfferAckRequest-encodes", func() bool { return err == nil && m != nil && m.messageType == ClientDHTOfferAckRequestType && m.protocolVersion == protocolVersion })
	d0, d1, err2 := DecodeClientDHTOfferAckRequest(m)
	gvEnsures("C04.ClientDHTOfferAckRequest-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ClientDHTOfferAckRequest-keeps-pieceCID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), pieceCID.ToBytes()) })
	gvEnsures("C04.ClientDHTOfferAckRequest-keeps-gatewayID", func() bool { return err != nil || err2 != nil || d1 != nil && gvBytesEq(d1.ToBytes(), gatewayID.ToBytes()) })
}

//gv:target DecodeClientDHTOfferAckRequest
//gv:props C04
//gv:nopanic C04.ClientDHTOfferAckRequest-decode-no-panic
//gv:frame C04.ClientDHTOfferAckRequest-decode-frame
func contract_ClientDHTOfferAckRequest_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, r1, err := DecodeClientDHTOfferAckRequest(fcrMsg)
	gvEnsures("C04.ClientDHTOfferAckRequest-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ClientDHTOfferAckRequestType })
	gvEnsures("C04.ClientDHTOfferAckRequest-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.ClientDHTOfferAckRequest-accepted-is-complete", func() bool { return err != nil || r0 != nil && r1 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ClientDHTOfferAckResponse-no-panic
func contract_ClientDHTOfferAckResponse(pieceCID *cid.ContentID, gatewayID *nodeid.NodeID, found bool, publishDHTOfferRequest *FCRMessage, publishDHTOfferResponse *FCRMessage) {
	gvRequires(func() bool { return pieceCID != nil && len(pieceCID.ToBytes()) == 32 && gatewayID != nil && len(gatewayID.ToBytes()) == 32 && publishDHTOfferRequest != nil && publishDHTOfferResponse != nil })
	m, err := EncodeClientDHTOfferAckResponse(pieceCID, gatewayID, found, publishDHTOfferRequest, publishDHTOfferResponse)
	gvEnsures("C04.ClientDHTOfferAckResponse-encodes", func() bool { return err == nil && m != nil && m.messageType == ClientDHTOfferAckResponseType && m.protocolVersion == protocolVersion })
	d0, d1, d2, d3, d4, err2 := DecodeClientDHTOfferAckResponse(m)
	gvEnsures("C04.ClientDHTOfferAckResponse-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ClientDHTOfferAckResponse-keeps-pieceCID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), pieceCID.ToBytes()) })
	gvEnsures("C04.ClientDHTOfferAckResponse-keeps-gatewayID", func() bool { return err != nil || err2 != nil || d1 != nil && gvBytesEq(d1.ToBytes(), gatewayID.ToBytes()) })
	gvEnsures("C04.ClientDHTOfferAckResponse-keeps-found", func() bool { return err != nil || err2 != nil || d2 == found })
	gvEnsures("C04.ClientDHTOfferAckResponse-keeps-publishDHTOfferRequest", func() bool { return err != nil || err2 != nil || d3 != nil && specSameMsg(d3, publishDHTOfferRequest) })
	gvEnsures("C04.ClientDHTOfferAckResponse-keeps-publishDHTOfferResponse", func() bool { return err != nil || err2 != nil || d4 != nil && specSameMsg(d4, publishDHTOfferResponse) })
}

//gv:target DecodeClientDHTOfferAckResponse
//gv:props C04
//gv:nopanic C04.ClientDHTOfferAckResponse-decode-no-panic
//gv:frame C04.ClientDHTOfferAckResponse-decode-frame
func contract_ClientDHTOfferAckResponse_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, r1, _, r3, r4, err := DecodeClientDHTOfferAckResponse(fcrMsg)
	gvEnsures("C04.ClientDHTOfferAckResponse-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ClientDHTOfferAckResponseType })
	gvEnsures("C04.ClientDHTOfferAckResponse-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.ClientDHTOfferAckResponse-accepted-is-complete", func() bool { return err != nil || r0 != nil && r1 != nil && r3 != nil && r4 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ClientEstablishmentRequest-no-panic
func contract_ClientEstablishmentRequest(clientID *nodeid.NodeID, challenge string, ttl int64) {
	gvRequires(func() bool { return clientID != nil && len(clientID.ToBytes()) == 32 })
	m, err := EncodeClientEstablishmentRequest(clientID, challenge, ttl)
	gvEnsures("C04.ClientEstablishmentRequest-encodes", func() bool { return err == nil && m != nil && m.messageType == ClientEstablishmentRequestType && m.protocolVersion == protocolVersion })
	d0, d1, d2, err2 := DecodeClientEstablishmentRequest(m)
	gvEnsures("C04.ClientEstablishmentRequest-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ClientEstablishmentRequest-keeps-clientID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), clientID.ToBytes()) })
	gvEnsures("C04.ClientEstablishmentRequest-keeps-challenge", func() bool { return err != nil || err2 != nil || d1 == challenge })
	gvEnsures("C04.ClientEstablishmentRequest-keeps-ttl", func() bool { return err != nil || err2 != nil || d2 == ttl })
}

//gv:target DecodeClientEstablishmentRequest
//gv:props C04
//gv:nopanic C04.ClientEstablishmentRequest-decode-no-panic
//gv:frame C04.ClientEstablishmentRequest-decode-frame
func contract_ClientEstablishmentRequest_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, _, _, err := DecodeClientEstablishmentRequest(fcrMsg)
	gvEnsures("C04.ClientEstablishmentRequest-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ClientEstablishmentRequestType })
	gvEnsures("C04.ClientEstablishmentRequest-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.ClientEstablishmentRequest-accepted-is-complete", func() bool { return err != nil || r0 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ClientEstablishmentResponse-no-panic
func contract_ClientEstablishmentResponse(gatewayID *nodeid.NodeID, challenge string) {
	gvRequires(func() bool { return gatewayID != nil && len(gatewayID.ToBytes()) == 32 })
	m, err := EncodeClientEstablishmentResponse(gatewayID, challenge)
	gvEnsures("C04.ClientEstablishmentResponse-encodes", func() bool { return err == nil && m != nil && m.messageType == ClientEstablishmentResponseType && m.protocolVersion == protocolVersion })
	d0, d1, err2 := DecodeClientEstablishmentResponse(m)
	gvEnsures("C04.ClientEstablishmentResponse-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ClientEstablishmentResponse-keeps-gatewayID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), gatewayID.ToBytes()) })
	gvEnsures("C04.ClientEstablishmentResponse-keeps-challenge", func() bool { return err != nil || err2 != nil || d1 == challenge })
}

//gv:target DecodeClientEstablishmentResponse
//gv:props C04
//gv:nopanic C04.ClientEstablishmentResponse-decode-no-panic
//gv:frame C04.ClientEstablishmentResponse-decode-frame
func contract_ClientEstablishmentResponse_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, _, err := DecodeClientEstablishmentResponse(fcrMsg)
	gvEnsures("C04.ClientEstablishmentResponse-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ClientEstablishmentResponseType })
	gvEnsures("C04.ClientEstablishmentResponse-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.ClientEstablishmentResponse-accepted-is-complete", func() bool { return err != nil || r0 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ClientStandardDiscoverOfferRequest-no-panic
func contract_ClientStandardDiscoverOfferRequest(pieceCID *cid.ContentID, nonce int64, ttl int64, offerDigests []string, paychAddr string, voucher string) {
	gvRequires(func() bool { return pieceCID != nil && len(pieceCID.ToBytes()) == 32 })
	m, err := EncodeClientStandardDiscoverOfferRequest(pieceCID, nonce, ttl, offerDigests, paychAddr, voucher)
	gvEnsures("C04.ClientStandardDiscoverOfferRequest-encodes", func() bool { return err == nil && m != nil && m.messageType == ClientStandardDiscoverOfferRequestType && m.protocolVersion == protocolVersion })
	d0, d1, d2, d3, d4, d5, err2 := DecodeClientStandardDiscoverOfferRequest(m)
	gvEnsures("C04.ClientStandardDiscoverOfferRequest-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ClientStandardDiscoverOfferRequest-keeps-pieceCID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), pieceCID.ToBytes()) })
	gvEnsures("C04.ClientStandardDiscoverOfferRequest-keeps-nonce", func() bool { return err != nil || err2 != nil || d1 == nonce })
	gvEnsures("C04.ClientStandardDiscoverOfferRequest-keeps-ttl", func() bool { return err != nil || err2 != nil || d2 == ttl })
	gvEnsures("C04.ClientStandardDiscoverOfferRequest-keeps-offerDigests", func() bool { return err != nil || err2 != nil || len(d3) == len(offerDigests) && gvForall(0, len(offerDigests), func(i int) bool { return d3[i] == offerDigests[i] }) })
	gvEnsures("C04.ClientStandardDiscoverOfferRequest-keeps-paychAddr", func() bool { return err != nil || err2 != nil || d4 == paychAddr })
	gvEnsures("C04.ClientStandardDiscoverOfferRequest-keeps-voucher", func() bool { return err != nil || err2 != nil || d5 == voucher })
}

//gv:target DecodeClientStandardDiscoverOfferRequest
//gv:props C04
//gv:nopanic C04.ClientStandardDiscoverOfferRequest-decode-no-panic
//gv:frame C04.ClientStandardDiscoverOfferRequest-decode-frame
func contract_ClientStandardDiscoverOfferRequest_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, _, _, _, _, _, err := DecodeClientStandardDiscoverOfferRequest(fcrMsg)
	gvEnsures("C04.ClientStandardDiscoverOfferRequest-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ClientStandardDiscoverOfferRequestType })
	gvEnsures("C04.ClientStandardDiscoverOfferRequest-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.ClientStandardDiscoverOfferRequest-accepted-is-complete", func() bool { return err != nil || r0 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ClientStandardDiscoverOfferResponse-no-panic
func contract_ClientStandardDiscoverOfferResponse(pieceCID *cid.ContentID, nonce int64, found bool, offers []cidoffer.SubCIDOffer, fundedPaymentChannel []bool, paymentRequired bool, paymentChannel string) {
	gvRequires(func() bool { return pieceCID != nil && len(pieceCID.ToBytes()) == 32 && specOffersOKSub(offers) })
	m, err := EncodeClientStandardDiscoverOfferResponse(pieceCID, nonce, found, offers, fundedPaymentChannel, paymentRequired, paymentChannel)
	gvEnsures("C04.ClientStandardDiscoverOfferResponse-encodes", func() bool { return err == nil && m != nil && m.messageType == ClientStandardDiscoverOfferResponseType && m.protocolVersion == protocolVersion })
	d0, d1, d2, d3, d4, d5, d6, err2 := DecodeClientStandardDiscoverOfferResponse(m)
	gvEnsures("C04.ClientStandardDiscoverOfferResponse-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ClientStandardDiscoverOfferResponse-keeps-pieceCID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), pieceCID.ToBytes()) })
	gvEnsures("C04.ClientStandardDiscoverOfferResponse-keeps-nonce", func() bool { return err != nil || err2 != nil || d1 == nonce })
	gvEnsures("C04.ClientStandardDiscoverOfferResponse-keeps-found", func() bool { return err != nil || err2 != nil || d2 == found })
	gvEnsures("C04.ClientStandardDiscoverOfferResponse-keeps-offers", func() bool { return err != nil || err2 != nil || len(d3) == len(offers) && gvSameJSON(d3, offers) })
	gvEnsures("C04.ClientStandardDiscoverOfferResponse-keeps-fundedPaymentChannel", func() bool { return err != nil || err2 != nil || len(d4) == len(fundedPaymentChannel) && gvForall(0, len(fundedPaymentChannel), func(i int) bool { return d4[i] == fundedPaymentChannel[i] }) })
	gvEnsures("C04.ClientStandardDiscoverOfferResponse-keeps-paymentRequired", func() bool { return err != nil || err2 != nil || d5 == paymentRequired })
	gvEnsures("C04.ClientStandardDiscoverOfferResponse-keeps-paymentChannel", func() bool { return err != nil || err2 != nil || d6 == paymentChannel })
}

//gv:target DecodeClientStandardDiscoverOfferResponse
//gv:props C04
//gv:nopanic C04.ClientStandardDiscoverOfferResponse-decode-no-panic
//gv:frame C04.ClientStandardDiscoverOfferResponse-decode-frame
func contract_ClientStandardDiscoverOfferResponse_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, _, _, _, _, _, _, err := DecodeClientStandardDiscoverOfferResponse(fcrMsg)
	gvEnsures("C04.ClientStandardDiscoverOfferResponse-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ClientStandardDiscoverOfferResponseType })
	gvEnsures("C04.ClientStandardDiscoverOfferResponse-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.ClientStandardDiscoverOfferResponse-accepted-is-complete", func() bool { return err != nil || r0 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ClientStandardDiscoverRequest-no-panic
func contract_ClientStandardDiscoverRequest(pieceCID *cid.ContentID, nonce int64, ttl int64, paychAddr string, voucher string) {
	gvRequires(func() bool { return pieceCID != nil && len(pieceCID.ToBytes()) == 32 })
	m, err := EncodeClientStandardDiscoverRequest(pieceCID, nonce, ttl, paychAddr, voucher)
	gvEnsures("C04.ClientStandardDiscoverRequest-encodes", func() bool { return err == nil && m != nil && m.messageType == ClientStandardDiscoverRequestType && m.protocolVersion == protocolVersion })
	d0, d1, d2, d3, d4, err2 := DecodeClientStandardDiscoverRequest(m)
	gvEnsures("C04.ClientStandardDiscoverRequest-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ClientStandardDiscoverRequest-keeps-pieceCID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), pieceCID.ToBytes()) })
	gvEnsures("C04.ClientStandardDiscoverRequest-keeps-nonce", func() bool { return err != nil || err2 != nil || d1 == nonce })
	gvEnsures("C04.ClientStandardDiscoverRequest-keeps-ttl", func() bool { return err != nil || err2 != nil || d2 == ttl })
	gvEnsures("C04.ClientStandardDiscoverRequest-keeps-paychAddr", func() bool { return err != nil || err2 != nil || d3 == paychAddr })
	gvEnsures("C04.ClientStandardDiscoverRequest-keeps-voucher", func() bool { return err != nil || err2 != nil || d4 == voucher })
}

//gv:target DecodeClientStandardDiscoverRequest
//gv:props C04
//gv:nopanic C04.ClientStandardDiscoverRequest-decode-no-panic
//gv:frame C04.ClientStandardDiscoverRequest-decode-frame
func contract_ClientStandardDiscoverRequest_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, _, _, _, _, err := DecodeClientStandardDiscoverRequest(fcrMsg)
	gvEnsures("C04.ClientStandardDiscoverRequest-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ClientStandardDiscoverRequestType })
	gvEnsures("C04.ClientStandardDiscoverRequest-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.ClientStandardDiscoverRequest-accepted-is-complete", func() bool { return err != nil || r0 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ClientStandardDiscoverRequestV2-no-panic
func contract_ClientStandardDiscoverRequestV2(pieceCID *cid.ContentID, nonce int64, ttl int64, paychAddr string, voucher string) {
	gvRequires(func() bool { return pieceCID != nil && len(pieceCID.ToBytes()) == 32 })
	m, err := EncodeClientStandardDiscoverRequestV2(pieceCID, nonce, ttl, paychAddr, voucher)
	gvEnsures("C04.ClientStandardDiscoverRequestV2-encodes", func() bool { return err == nil && m != nil && m.messageType == ClientStandardDiscoverRequestV2Type && m.protocolVersion == protocolVersion })
	d0, d1, d2, d3, d4, err2 := DecodeClientStandardDiscoverRequestV2(m)
	gvEnsures("C04.ClientStandardDiscoverRequestV2-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ClientStandardDiscoverRequestV2-keeps-pieceCID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), pieceCID.ToBytes()) })
	gvEnsures("C04.ClientStandardDiscoverRequestV2-keeps-nonce", func() bool { return err != nil || err2 != nil || d1 == nonce })
	gvEnsures("C04.ClientStandardDiscoverRequestV2-keeps-ttl", func() bool { return err != nil || err2 != nil || d2 == ttl })
	gvEnsures("C04.ClientStandardDiscoverRequestV2-keeps-paychAddr", func() bool { return err != nil || err2 != nil || d3 == paychAddr })
	gvEnsures("C04.ClientStandardDiscoverRequestV2-keeps-voucher", func() bool { return err != nil || err2 != nil || d4 == voucher })
}

//gv:target DecodeClientStandardDiscoverRequestV2
//gv:props C04
//gv:nopanic C04.ClientStandardDiscoverRequestV2-decode-no-panic
//gv:frame C04.ClientStandardDiscoverRequestV2-decode-frame
func contract_ClientStandardDiscoverRequestV2_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, _, _, _, _, err := DecodeClientStandardDiscoverRequestV2(fcrMsg)
	gvEnsures("C04.ClientStandardDiscoverRequestV2-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ClientStandardDiscoverRequestV2Type })
	gvEnsures("C04.ClientStandardDiscoverRequestV2-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.ClientStandardDiscoverRequestV2-accepted-is-complete", func() bool { return err != nil || r0 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ClientStandardDiscoverResponse-no-panic
func contract_ClientStandardDiscoverResponse(pieceCID *cid.ContentID, nonce int64, found bool, offers []cidoffer.SubCIDOffer, fundedPaymentChannel []bool) {
	gvRequires(func() bool { return pieceCID != nil && len(pieceCID.ToBytes()) == 32 && specOffersOKSub(offers) })
	m, err := EncodeClientStandardDiscoverResponse(pieceCID, nonce, found, offers, fundedPaymentChannel)
	gvEnsures("C04.ClientStandardDiscoverResponse-encodes", func() bool { return err == nil && m != nil && m.messageType == ClientStandardDiscoverResponseType && m.protocolVersion == protocolVersion })
	d0, d1, d2, d3, d4, err2 := DecodeClientStandardDiscoverResponse(m)
	gvEnsures("C04.ClientStandardDiscoverResponse-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ClientStandardDiscoverResponse-keeps-pieceCID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), pieceCID.ToBytes()) })
	gvEnsures("C04.ClientStandardDiscoverResponse-keeps-nonce", func() bool { return err != nil || err2 != nil || d1 == nonce })
	gvEnsures("C04.ClientStandardDiscoverResponse-keeps-found", func() bool { return err != nil || err2 != nil || d2 == found })
	gvEnsures("C04.ClientStandardDiscoverResponse-keeps-offers", func() bool { return err != nil || err2 != nil || len(d3) == len(offers) && gvSameJSON(d3, offers) })
	gvEnsures("C04.ClientStandardDiscoverResponse-keeps-fundedPaymentChannel", func() bool { return err != nil || err2 != nil || len(d4) == len(fundedPaymentChannel) && gvForall(0, len(fundedPaymentChannel), func(i int) bool { return d4[i] == fundedPaymentChannel[i] }) })
}

//gv:target DecodeClientStandardDiscoverResponse
//gv:props C04
//gv:nopanic C04.ClientStandardDiscoverResponse-decode-no-panic
//gv:frame C04.ClientStandardDiscoverResponse-decode-frame
func contract_ClientStandardDiscoverResponse_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, _, _, _, _, err := DecodeClientStandardDiscoverResponse(fcrMsg)
	gvEnsures("C04.ClientStandardDiscoverResponse-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ClientStandardDiscoverResponseType })
	gvEnsures("C04.ClientStandardDiscoverResponse-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.ClientStandardDiscoverResponse-accepted-is-complete", func() bool { return err != nil || r0 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ClientStandardDiscoverResponseV2-no-panic
func contract_ClientStandardDiscoverResponseV2(pieceCID *cid.ContentID, nonce int64, found bool, offersDigests []string, fundedPaymentChannel []bool, paymentRequired bool, paymentChannel string) {
	gvRequires(func() bool { return pieceCID != nil && len(pieceCID.ToBytes()) == 32 })
	m, err := EncodeClientStandardDiscoverResponseV2(pieceCID, nonce, found, offersDigests, fundedPaymentChannel, paymentRequired, paymentChannel)
	gvEnsures("C04.ClientStandardDiscoverResponseV2-encodes", func() bool { return err == nil && m != nil && m.messageType == ClientStandardDiscoverResponseV2Type && m.protocolVersion == protocolVersion })
	d0, d1, d2, d3, d4, d5, d6, err2 := DecodeClientStandardDiscoverResponseV2(m)
	gvEnsures("C04.ClientStandardDiscoverResponseV2-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ClientStandardDiscoverResponseV2-keeps-pieceCID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), pieceCID.ToBytes()) })
	gvEnsures("C04.ClientStandardDiscoverResponseV2-keeps-nonce", func() bool { return err != nil || err2 != nil || d1 == nonce })
	gvEnsures("C04.ClientStandardDiscoverResponseV2-keeps-found", func() bool { return err != nil || err2 != nil || d2 == found })
	gvEnsures("C04.ClientStandardDiscoverResponseV2-keeps-offersDigests", func() bool { return err != nil || err2 != nil || len(d3) == len(offersDigests) && gvForall(0, len(offersDigests), func(i int) bool { return d3[i] == offersDigests[i] }) })
	gvEnsures("C04.ClientStandardDiscoverResponseV2-keeps-fundedPaymentChannel", func() bool { return err != nil || err2 != nil || len(d4) == len(fundedPaymentChannel) && gvForall(0, len(fundedPaymentChannel), func(i int) bool { return d4[i] == fundedPaymentChannel[i] }) })
	gvEnsures("C04.ClientStandardDiscoverResponseV2-keeps-paymentRequired", func() bool { return err != nil || err2 != nil || d5 == paymentRequired })
	gvEnsures("C04.ClientStandardDiscoverResponseV2-keeps-paymentChannel", func() bool { return err != nil || err2 != nil || d6 == paymentChannel })
}

//gv:target DecodeClientStandardDiscoverResponseV2
//gv:props C04
//gv:nopanic C04.ClientStandardDiscoverResponseV2-decode-no-panic
//gv:frame C04.ClientStandardDiscoverResponseV2-decode-frame
func contract_ClientStandardDiscoverResponseV2_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, _, _, _, _, _, _, err := DecodeClientStandardDiscoverResponseV2(fcrMsg)
	gvEnsures("C04.ClientStandardDiscoverResponseV2-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ClientStandardDiscoverResponseV2Type })
	gvEnsures("C04.ClientStandardDiscoverResponseV2-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.ClientStandardDiscoverResponseV2-accepted-is-complete", func() bool { return err != nil || r0 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.GatewayAdminForceRefreshRequest-no-panic
func contract_GatewayAdminForceRefreshRequest(refresh bool) {
	m, err := EncodeGatewayAdminForceRefreshRequest(refresh)
	gvEnsures("C04.GatewayAdminForceRefreshRequest-encodes", func() bool { return err == nil && m != nil && m.messageType == GatewayAdminForceRefreshRequestType && m.protocolVersion == protocolVersion })
	d0, err2 := DecodeGatewayAdminForceRefreshRequest(m)
	gvEnsures("C04.GatewayAdminForceRefreshRequest-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.GatewayAdminForceRefreshRequest-keeps-refresh", func() bool { return err != nil || err2 != nil || d0 == refresh })
}

//gv:target DecodeGatewayAdminForceRefreshRequest
//gv:props C04
//gv:nopanic C04.GatewayAdminForceRefreshRequest-decode-no-panic
//gv:frame C04.GatewayAdminForceRefreshRequest-decode-frame
func contract_GatewayAdminForceRefreshRequest_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	_, err := DecodeGatewayAdminForceRefreshRequest(fcrMsg)
	gvEnsures("C04.GatewayAdminForceRefreshRequest-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == GatewayAdminForceRefreshRequestType })
	gvEnsures("C04.GatewayAdminForceRefreshRequest-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.GatewayAdminForceRefreshResponse-no-panic
func contract_GatewayAdminForceRefreshResponse(refreshed bool) {
	m, err := EncodeGatewayAdminForceRefreshResponse(refreshed)
	gvEnsures("C04.GatewayAdminForceRefreshResponse-encodes", func() bool { return err == nil && m != nil && m.messageType == GatewayAdminForceRefreshResponseType && m.protocolVersion == protocolVersion })
	d0, err2 := DecodeGatewayAdminForceRefreshResponse(m)
	gvEnsures("C04.GatewayAdminForceRefreshResponse-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.GatewayAdminForceRefreshResponse-keeps-refreshed", func() bool { return err != nil || err2 != nil || d0 == refreshed })
}

//gv:target DecodeGatewayAdminForceRefreshResponse
//gv:props C04
//gv:nopanic C04.GatewayAdminForceRefreshResponse-decode-no-panic
//gv:frame C04.GatewayAdminForceRefreshResponse-decode-frame
func contract_GatewayAdminForceRefreshResponse_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	_, err := DecodeGatewayAdminForceRefreshResponse(fcrMsg)
	gvEnsures("C04.GatewayAdminForceRefreshResponse-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == GatewayAdminForceRefreshResponseType })
	gvEnsures("C04.GatewayAdminForceRefreshResponse-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.GatewayAdminGetReputationRequest-no-panic
func contract_GatewayAdminGetReputationRequest(clientID *nodeid.NodeID) {
	gvRequires(func() bool { return clientID != nil && len(clientID.ToBytes()) == 32 })
	m, err := EncodeGatewayAdminGetReputationRequest(clientID)
	gvEnsures("C04.GatewayAdminGetReputationRequest-encodes", func() bool { return err == nil && m != nil && m.messageType == GatewayAdminGetReputationRequestType && m.protocolVersion == protocolVersion })
	d0, err2 := DecodeGatewayAdminGetReputationRequest(m)
	gvEnsures("C04.GatewayAdminGetReputationRequest-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.GatewayAdminGetReputationRequest-keeps-clientID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), clientID.ToBytes()) })
}

//gv:target DecodeGatewayAdminGetReputationRequest
//gv:props C04
//gv:nopanic C04.GatewayAdminGetReputationRequest-decode-no-panic
//gv:frame C04.GatewayAdminGetReputationRequest-decode-frame
func contract_GatewayAdminGetReputationRequest_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, err := DecodeGatewayAdminGetReputationRequest(fcrMsg)
	gvEnsures("C04.GatewayAdminGetReputationRequest-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == GatewayAdminGetReputationRequestType })
	gvEnsures("C04.GatewayAdminGetReputationRequest-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.GatewayAdminGetReputationRequest-accepted-is-complete", func() bool { return err != nil || r0 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.GatewayAdminGetReputationResponse-no-panic
func contract_GatewayAdminGetReputationResponse(clientID *nodeid.NodeID, reputation int64, exists bool) {
	gvRequires(func() bool { return clientID != nil && len(clientID.ToBytes()) == 32 })
	m, err := EncodeGatewayAdminGetReputationResponse(clientID, reputation, exists)
	gvEnsures("C04.GatewayAdminGetReputationResponse-encodes", func() bool { return err == nil && m != nil && m.messageType == GatewayAdminGetReputationResponseType && m.protocolVersion == protocolVersion })
	d0, d1, d2, err2 := DecodeGatewayAdminGetReputationResponse(m)
	gvEnsures("C04.GatewayAdminGetReputationResponse-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.GatewayAdminGetReputationResponse-keeps-clientID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), clientID.ToBytes()) })
	gvEnsures("C04.GatewayAdminGetReputationResponse-keeps-reputation", func() bool { return err != nil || err2 != nil || d1 == reputation })
	gvEnsures("C04.GatewayAdminGetReputationResponse-keeps-exists", func() bool { return err != nil || err2 != nil || d2 == exists })
}

//gv:target DecodeGatewayAdminGetReputationResponse
//gv:props C04
//gv:nopanic C04.GatewayAdminGetReputationResponse-decode-no-panic
//gv:frame C04.GatewayAdminGetReputationResponse-decode-frame
func contract_GatewayAdminGetReputationResponse_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, _, _, err := DecodeGatewayAdminGetReputationResponse(fcrMsg)
	gvEnsures("C04.GatewayAdminGetReputationResponse-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == GatewayAdminGetReputationResponseType })
	gvEnsures("C04.GatewayAdminGetReputationResponse-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.GatewayAdminGetReputationResponse-accepted-is-complete", func() bool { return err != nil || r0 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.GatewayAdminInitialiseKeyRequest-no-panic
func contract_GatewayAdminInitialiseKeyRequest(nodeID *nodeid.NodeID, privateKey *fcrcrypto.KeyPair, keyVersion *fcrcrypto.KeyVersion) {
	gvRequires(func() bool { return nodeID != nil && len(nodeID.ToBytes()) == 32 && privateKey != nil && specPrivateKey(privateKey) && keyVersion != nil })
	m, err := EncodeGatewayAdminInitialiseKeyRequest(nodeID, privateKey, keyVersion)
	gvEnsures("C04.GatewayAdminInitialiseKeyRequest-encodes", func() bool { return err == nil && m != nil && m.messageType == GatewayAdminInitialiseKeyRequestType && m.protocolVersion == protocolVersion })
	d0, d1, d2, err2 := DecodeGatewayAdminInitialiseKeyRequest(m)
	gvEnsures("C04.GatewayAdminInitialiseKeyRequest-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.GatewayAdminInitialiseKeyRequest-keeps-nodeID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), nodeID.ToBytes()) })
	gvEnsures("C04.GatewayAdminInitialiseKeyRequest-keeps-privateKey", func() bool { return err != nil || err2 != nil || d1 != nil && d1.EncodePrivateKey() == privateKey.EncodePrivateKey() })
	gvEnsures("C04.GatewayAdminInitialiseKeyRequest-keeps-keyVersion", func() bool { return err != nil || err2 != nil || d2 != nil && d2.EncodeKeyVersion() == keyVersion.EncodeKeyVersion() })
}

//gv:target DecodeGatewayAdminInitialiseKeyRequest
//gv:props C04
//gv:nopanic C04.GatewayAdminInitialiseKeyRequest-decode-no-panic
//gv:frame C04.GatewayAdminInitialiseKeyRequest-decode-frame
func contract_GatewayAdminInitialiseKeyRequest_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, r1, r2, err := DecodeGatewayAdminInitialiseKeyRequest(fcrMsg)
	gvEnsures("C04.GatewayAdminInitialiseKeyRequest-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == GatewayAdminInitialiseKeyRequestType })
	gvEnsures("C04.GatewayAdminInitialiseKeyRequest-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.GatewayAdminInitialiseKeyRequest-accepted-is-complete", func() bool { return err != nil || r0 != nil && r1 != nil && r2 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.GatewayAdminInitialiseKeyRequestV2-no-panic
func contract_GatewayAdminInitialiseKeyRequestV2(nodeID *nodeid.NodeID, privateKey *fcrcrypto.KeyPair, keyVersion *fcrcrypto.KeyVersion, walletPrivateKey string, lotusAP string, lotusAuthToken string) {
	gvRequires(func() bool { return nodeID != nil && len(nodeID.ToBytes()) == 32 && privateKey != nil && specPrivateKey(privateKey) && keyVersion != nil })
	m, err := EncodeGatewayAdminInitialiseKeyRequestV2(nodeID, privateKey, keyVersion, walletPrivateKey, lotusAP, lotusAuthToken)
	gvEnsures("C04.GatewayAdminInitialiseKeyRequestV2-encodes", func() bool { return err == nil && m != nil && m.messageType == GatewayAdminInitialiseKeyRequestV2Type && m.protocolVersion == protocolVersion })
	d0, d1, d2, d3, d4, d5, err2 := DecodeGatewayAdminInitialiseKeyRequestV2(m)
	gvEnsures("C04.GatewayAdminInitialiseKeyRequestV2-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.GatewayAdminInitialiseKeyRequestV2-keeps-nodeID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), nodeID.ToBytes()) })
	gvEnsures("C04.GatewayAdminInitialiseKeyRequestV2-keeps-privateKey", func() bool { return err != nil || err2 != nil || d1 != nil && d1.EncodePrivateKey() == privateKey.EncodePrivateKey() })
	gvEnsures("C04.GatewayAdminInitialiseKeyRequestV2-keeps-keyVersion", func() bool { return err != nil || err2 != nil || d2 != nil && d2.EncodeKeyVersion() == keyVersion.EncodeKeyVersion() })
	gvEnsures("C04.GatewayAdminInitialiseKeyRequestV2-keeps-walletPrivateKey", func() bool { return err != nil || err2 != nil || d3 == walletPrivateKey })
	gvEnsures("C04.GatewayAdminInitialiseKeyRequestV2-keeps-lotusAP", func() bool { return err != nil || err2 != nil || d4 == lotusAP })
	gvEnsures("C04.GatewayAdminInitialiseKeyRequestV2-keeps-lotusAuthToken", func() bool { return err != nil || err2 != nil || d5 == lotusAuthToken })
}

//gv:target DecodeGatewayAdminInitialiseKeyRequestV2
//gv:props C04
//gv:nopanic C04.GatewayAdminInitialiseKeyRequestV2-decode-no-panic
//gv:frame C04.GatewayAdminInitialiseKeyRequestV2-decode-frame
func contract_GatewayAdminInitialiseKeyRequestV2_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, r1, r2, _, _, _, err := DecodeGatewayAdminInitialiseKeyRequestV2(fcrMsg)
	gvEnsures("C04.GatewayAdminInitialiseKeyRequestV2-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == GatewayAdminInitialiseKeyRequestV2Type })
	gvEnsures("C04.GatewayAdminInitialiseKeyRequestV2-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.GatewayAdminInitialiseKeyRequestV2-accepted-is-complete", func() bool { return err != nil || r0 != nil && r1 != nil && r2 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.GatewayAdminInitialiseKeyResponse-no-panic
func contract_GatewayAdminInitialiseKeyResponse(success bool) {
	m, err := EncodeGatewayAdminInitialiseKeyResponse(success)
	gvEnsures("C04.GatewayAdminInitialiseKeyResponse-encodes", func() bool { return err == nil && m != nil && m.messageType == GatewayAdminInitialiseKeyResponseType && m.protocolVersion == protocolVersion })
	d0, err2 := DecodeGatewayAdminInitialiseKeyResponse(m)
	gvEnsures("C04.GatewayAdminInitialiseKeyResponse-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.GatewayAdminInitialiseKeyResponse-keeps-success", func() bool { return err != nil || err2 != nil || d0 == success })
}

//gv:target DecodeGatewayAdminInitialiseKeyResponse
//gv:props C04
//gv:nopanic C04.GatewayAdminInitialiseKeyResponse-decode-no-panic
//gv:frame C04.GatewayAdminInitialiseKeyResponse-decode-frame
func contract_GatewayAdminInitialiseKeyResponse_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	_, err := DecodeGatewayAdminInitialiseKeyResponse(fcrMsg)
	gvEnsures("C04.GatewayAdminInitialiseKeyResponse-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == GatewayAdminInitialiseKeyResponseType })
	gvEnsures("C04.GatewayAdminInitialiseKeyResponse-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.GatewayAdminListDHTOfferRequest-no-panic
func contract_GatewayAdminListDHTOfferRequest(refresh bool) {
	m, err := EncodeGatewayAdminListDHTOfferRequest(refresh)
	gvEnsures("C04.GatewayAdminListDHTOfferRequest-encodes", func() bool { return err == nil && m != nil && m.messageType == GatewayAdminListDHTOfferRequestType && m.protocolVersion == protocolVersion })
	d0, err2 := DecodeGatewayAdminListDHTOfferRequest(m)
	gvEnsures("C04.GatewayAdminListDHTOfferRequest-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.GatewayAdminListDHTOfferRequest-keeps-refresh", func() bool { return err != nil || err2 != nil || d0 == refresh })
}

//gv:target DecodeGatewayAdminListDHTOfferRequest
//gv:props C04
//gv:nopanic C04.GatewayAdminListDHTOfferRequest-decode-no-panic
//gv:frame C04.GatewayAdminListDHTOfferRequest-decode-frame
func contract_GatewayAdminListDHTOfferRequest_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	_, err := DecodeGatewayAdminListDHTOfferRequest(fcrMsg)
	gvEnsures("C04.GatewayAdminListDHTOfferRequest-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == GatewayAdminListDHTOfferRequestType })
	gvEnsures("C04.GatewayAdminListDHTOfferRequest-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.GatewayAdminListDHTOfferResponse-no-panic
func contract_GatewayAdminListDHTOfferResponse(refreshed bool) {
	m, err := EncodeGatewayAdminListDHTOfferResponse(refreshed)
	gvEnsures("C04.GatewayAdminListDHTOfferResponse-encodes", func() bool { return err == nil && m != nil && m.messageType == GatewayAdminListDHTOfferResponseType && m.protocolVersion == protocolVersion })
	d0, err2 := DecodeGatewayAdminListDHTOfferResponse(m)
	gvEnsures("C04.GatewayAdminListDHTOfferResponse-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.GatewayAdminListDHTOfferResponse-keeps-refreshed", func() bool { return err != nil || err2 != nil || d0 == refreshed })
}

//gv:target DecodeGatewayAdminListDHTOfferResponse
//gv:props C04
//gv:nopanic C04.GatewayAdminListDHTOfferResponse-decode-no-panic
//gv:frame C04.GatewayAdminListDHTOfferResponse-decode-frame
func contract_GatewayAdminListDHTOfferResponse_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	_, err := DecodeGatewayAdminListDHTOfferResponse(fcrMsg)
	gvEnsures("C04.GatewayAdminListDHTOfferResponse-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == GatewayAdminListDHTOfferResponseType })
	gvEnsures("C04.GatewayAdminListDHTOfferResponse-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.GatewayAdminSetReputationRequest-no-panic
func contract_GatewayAdminSetReputationRequest(clientID *nodeid.NodeID, reputation int64) {
	gvRequires(func() bool { return clientID != nil && len(clientID.ToBytes()) == 32 })
	m, err := EncodeGatewayAdminSetReputationRequest(clientID, reputation)
	gvEnsures("C04.GatewayAdminSetReputationRequest-encodes", func() bool { return err == nil && m != nil && m.messageType == GatewayAdminSetReputationRequestType && m.protocolVersion == protocolVersion })
	d0, d1, err2 := DecodeGatewayAdminSetReputationRequest(m)
	gvEnsures("C04.GatewayAdminSetReputationRequest-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.GatewayAdminSetReputationRequest-keeps-clientID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), clientID.ToBytes()) })
	gvEnsures("C04.GatewayAdminSetReputationRequest-keeps-reputation", func() bool { return err != nil || err2 != nil || d1 == reputation })
}

//gv:target DecodeGatewayAdminSetReputationRequest
//gv:props C04
//gv:nopanic C04.GatewayAdminSetReputationRequest-decode-no-panic
//gv:frame C04.GatewayAdminSetReputationRequest-decode-frame
func contract_GatewayAdminSetReputationRequest_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, _, err := DecodeGatewayAdminSetReputationRequest(fcrMsg)
	gvEnsures("C04.GatewayAdminSetReputationRequest-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == GatewayAdminSetReputationRequestType })
	gvEnsures("C04.GatewayAdminSetReputationRequest-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.GatewayAdminSetReputationRequest-accepted-is-complete", func() bool { return err != nil || r0 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.GatewayAdminSetReputationResponse-no-panic
func contract_GatewayAdminSetReputationResponse(clientID *nodeid.NodeID, reputation int64, exists bool) {
	gvRequires(func() bool { return clientID != nil && len(clientID.ToBytes()) == 32 })
	m, err := EncodeGatewayAdminSetReputationResponse(clientID, reputation, exists)
	gvEnsures("C04.GatewayAdminSetReputationResponse-encodes", func() bool { return err == nil && m != nil && m.messageType == GatewayAdminSetReputationResponseType && m.protocolVersion == protocolVersion })
	d0, d1, d2, err2 := DecodeGatewayAdminSetReputationResponse(m)
	gvEnsures("C04.GatewayAdminSetReputationResponse-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.GatewayAdminSetReputationResponse-keeps-clientID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), clientID.ToBytes()) })
	gvEnsures("C04.GatewayAdminSetReputationResponse-keeps-reputation", func() bool { return err != nil || err2 != nil || d1 == reputation })
	gvEnsures("C04.GatewayAdminSetReputationResponse-keeps-exists", func() bool { return err != nil || err2 != nil || d2 == exists })
}

//gv:target DecodeGatewayAdminSetReputationResponse
//gv:props C04
//gv:nopanic C04.GatewayAdminSetReputationResponse-decode-no-panic
//gv:frame C04.GatewayAdminSetReputationResponse-decode-frame
func contract_GatewayAdminSetReputationResponse_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, _, _, err := DecodeGatewayAdminSetReputationResponse(fcrMsg)
	gvEnsures("C04.GatewayAdminSetReputationResponse-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == GatewayAdminSetReputationResponseType })
	gvEnsures("C04.GatewayAdminSetReputationResponse-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.GatewayAdminSetReputationResponse-accepted-is-complete", func() bool { return err != nil || r0 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.GatewayDHTDiscoverOfferRequest-no-panic
func contract_GatewayDHTDiscoverOfferRequest(pieceCID *cid.ContentID, nonce int64, offerDigests []string, paychAddr string, voucher string) {
	gvRequires(func() bool { return pieceCID != nil && len(pieceCID.ToBytes()) == 32 })
	m, err := EncodeGatewayDHTDiscoverOfferRequest(pieceCID, nonce, offerDigests, paychAddr, voucher)
	gvEnsures("C04.GatewayDHTDiscoverOfferRequest-encodes", func() bool { return err == nil && m != nil && m.messageType == GatewayDHTDiscoverOfferRequestType && m.protocolVersion == protocolVersion })
	d0, d1, d2, d3, d4, err2 := DecodeGatewayDHTDiscoverOfferRequest(m)
	gvEnsures("C04.GatewayDHTDiscoverOfferRequest-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.GatewayDHTDiscoverOfferRequest-keeps-pieceCID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), pieceCID.ToBytes()) })
	gvEnsures("C04.GatewayDHTDiscoverOfferRequest-keeps-nonce", func() bool { return err != nil || err2 != nil || d1 == nonce })
	gvEnsures("C04.GatewayDHTDiscoverOfferRequest-keeps-offerDigests", func() bool { return err != nil || err2 != nil || len(d2) == len(offerDigests) && gvForall(0, len(offerDigests), func(i int) bool { return d2[i] == offerDigests[i] }) })
	gvEnsures("C04.GatewayDHTDiscoverOfferRequest-keeps-paychAddr", func() bool { return err != nil || err2 != nil || d3 == paychAddr })
	gvEnsures("C04.GatewayDHTDiscoverOfferRequest-keeps-voucher", func() bool { return err != nil || err2 != nil || d4 == voucher })
}

//gv:target DecodeGatewayDHTDiscoverOfferRequest
//gv:props C04
//gv:nopanic C04.GatewayDHTDiscoverOfferRequest-decode-no-panic
//gv:frame C04.GatewayDHTDiscoverOfferRequest-decode-frame
func contract_GatewayDHTDiscoverOfferRequest_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, _, _, _, _, err := DecodeGatewayDHTDiscoverOfferRequest(fcrMsg)
	gvEnsures("C04.GatewayDHTDiscoverOfferRequest-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == GatewayDHTDiscoverOfferRequestType })
	gvEnsures("C04.GatewayDHTDiscoverOfferRequest-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.GatewayDHTDiscoverOfferRequest-accepted-is-complete", func() bool { return err != nil || r0 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.GatewayDHTDiscoverOfferResponse-no-panic
func contract_GatewayDHTDiscoverOfferResponse(pieceCID *cid.ContentID, nonce int64, found bool, offers []cidoffer.SubCIDOffer, fundedPaymentChannel []bool, paymentRequired bool, paymentChannel string) {
	gvRequires(func() bool { return pieceCID != nil && len(pieceCID.ToBytes()) == 32 && specOffersOKSub(offers) })
	m, err := EncodeGatewayDHTDiscoverOfferResponse(pieceCID, nonce, found, offers, fundedPaymentChannel, paymentRequired, paymentChannel)
	gvEnsures("C04.GatewayDHTDiscoverOfferResponse-encodes", func() bool { return err == nil && m != nil && m.messageType == GatewayDHTDiscoverOfferResponseType && m.protocolVersion == protocolVersion })
	d0, d1, d2, d3, d4, d5, d6, err2 := DecodeGatewayDHTDiscoverOfferResponse(m)
	gvEnsures("C04.GatewayDHTDiscoverOfferResponse-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.GatewayDHTDiscoverOfferResponse-keeps-pieceCID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), pieceCID.ToBytes()) })
	gvEnsures("C04.GatewayDHTDiscoverOfferResponse-keeps-nonce", func() bool { return err != nil || err2 != nil || d1 == nonce })
	gvEnsures("C04.GatewayDHTDiscoverOfferResponse-keeps-found", func() bool { return err != nil || err2 != nil || d2 == found })
	gvEnsures("C04.GatewayDHTDiscoverOfferResponse-keeps-offers", func() bool { return err != nil || err2 != nil || len(d3) == len(offers) && gvSameJSON(d3, offers) })
	gvEnsures("C04.GatewayDHTDiscoverOfferResponse-keeps-fundedPaymentChannel", func() bool { return err != nil || err2 != nil || len(d4) == len(fundedPaymentChannel) && gvForall(0, len(fundedPaymentChannel), func(i int) bool { return d4[i] == fundedPaymentChannel[i] }) })
	gvEnsures("C04.GatewayDHTDiscoverOfferResponse-keeps-paymentRequired", func() bool { return err != nil || err2 != nil || d5 == paymentRequired })
	gvEnsures("C04.GatewayDHTDiscoverOfferResponse-keeps-paymentChannel", func() bool { return err != nil || err2 != nil || d6 == paymentChannel })
}

//gv:target DecodeGatewayDHTDiscoverOfferResponse
//gv:props C04
//gv:nopanic C04.GatewayDHTDiscoverOfferResponse-decode-no-panic
//gv:frame C04.GatewayDHTDiscoverOfferResponse-decode-frame
func contract_GatewayDHTDiscoverOfferResponse_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, _, _, _, _, _, _, err := DecodeGatewayDHTDiscoverOfferResponse(fcrMsg)
	gvEnsures("C04.GatewayDHTDiscoverOfferResponse-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == GatewayDHTDiscoverOfferResponseType })
	gvEnsures("C04.GatewayDHTDiscoverOfferResponse-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.GatewayDHTDiscoverOfferResponse-accepted-is-complete", func() bool { return err != nil || r0 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.GatewayDHTDiscoverRequest-no-panic
func contract_GatewayDHTDiscoverRequest(gatewayID *nodeid.NodeID, pieceCID *cid.ContentID, nonce int64, ttl int64, paychAddr string, voucher string) {
	gvRequires(func() bool { return gatewayID != nil && len(gatewayID.ToBytes()) == 32 && pieceCID != nil && len(pieceCID.ToBytes()) == 32 })
	m, err := EncodeGatewayDHTDiscoverRequest(gatewayID, pieceCID, nonce, ttl, paychAddr, voucher)
	gvEnsures("C04.GatewayDHTDiscoverRequest-encodes", func() bool { return err == nil && m != nil && m.messageType == GatewayDHTDiscoverRequestType && m.protocolVersion == protocolVersion })
	d0, d1, d2, d3, d4, d5, err2 := DecodeGatewayDHTDiscoverRequest(m)
	gvEnsures("C04.GatewayDHTDiscoverRequest-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.GatewayDHTDiscoverRequest-keeps-gatewayID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), gatewayID.ToBytes()) })
	gvEnsures("C04.GatewayDHTDiscoverRequest-keeps-pieceCID", func() bool { return err != nil || err2 != nil || d1 != nil && gvBytesEq(d1.ToBytes(), pieceCID.ToBytes()) })
	gvEnsures("C04.GatewayDHTDiscoverRequest-keeps-nonce", func() bool { return err != nil || err2 != nil || d2 == nonce })
	gvEnsures("C04.GatewayDHTDiscoverRequest-keeps-ttl", func() bool { return err != nil || err2 != nil || d3 == ttl })
	gvEnsures("C04.GatewayDHTDiscoverRequest-keeps-paychAddr", func() bool { return err != nil || err2 != nil || d4 == paychAddr })
	gvEnsures("C04.GatewayDHTDiscoverRequest-keeps-voucher", func() bool { return err != nil || err2 != nil || d5 == voucher })
}

//gv:target DecodeGatewayDHTDiscoverRequest
//gv:props C04
//gv:nopanic C04.GatewayDHTDiscoverRequest-decode-no-panic
//gv:frame C04.GatewayDHTDiscoverRequest-decode-frame
func contract_GatewayDHTDiscoverRequest_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, r1, _, _, _, _, err := DecodeGatewayDHTDiscoverRequest(fcrMsg)
	gvEnsures("C04.GatewayDHTDiscoverRequest-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == GatewayDHTDiscoverRequestType })
	gvEnsures("C04.GatewayDHTDiscoverRequest-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.GatewayDHTDiscoverRequest-accepted-is-complete", func() bool { return err != nil || r0 != nil && r1 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.GatewayDHTDiscoverRequestV2-no-panic
func contract_GatewayDHTDiscoverRequestV2(gatewayID *nodeid.NodeID, pieceCID *cid.ContentID, nonce int64, ttl int64, paychAddr string, voucher string) {
	gvRequires(func() bool { return gatewayID != nil && len(gatewayID.ToBytes()) == 32 && pieceCID != nil && len(pieceCID.ToBytes()) == 32 })
	m, err := EncodeGatewayDHTDiscoverRequestV2(gatewayID, pieceCID, nonce, ttl, paychAddr, voucher)
	gvEnsures("C04.GatewayDHTDiscoverRequestV2-encodes", func() bool { return err == nil && m != nil && m.messageType == GatewayDHTDiscoverRequestV2Type && m.protocolVersion == protocolVersion })
	d0, d1, d2, d3, d4, d5, err2 := DecodeGatewayDHTDiscoverRequestV2(m)
	gvEnsures("C04.GatewayDHTDiscoverRequestV2-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.GatewayDHTDiscoverRequestV2-keeps-gatewayID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), gatewayID.ToBytes()) })
	gvEnsures("C04.GatewayDHTDiscoverRequestV2-keeps-pieceCID", func() bool { return err != nil || err2 != nil || d1 != nil && gvBytesEq(d1.ToBytes(), pieceCID.ToBytes()) })
	gvEnsures("C04.GatewayDHTDiscoverRequestV2-keeps-nonce", func() bool { return err != nil || err2 != nil || d2 == nonce })
	gvEnsures("C04.GatewayDHTDiscoverRequestV2-keeps-ttl", func() bool { return err != nil || err2 != nil || d3 == ttl })
	gvEnsures("C04.GatewayDHTDiscoverRequestV2-keeps-paychAddr", func() bool { return err != nil || err2 != nil || d4 == paychAddr })
	gvEnsures("C04.GatewayDHTDiscoverRequestV2-keeps-voucher", func() bool { return err != nil || err2 != nil || d5 == voucher })
}

//gv:target DecodeGatewayDHTDiscoverRequestV2
//gv:props C04
//gv:nopanic C04.GatewayDHTDiscoverRequestV2-decode-no-panic
//gv:frame C04.GatewayDHTDiscoverRequestV2-decode-frame
func contract_GatewayDHTDiscoverRequestV2_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, r1, _, _, _, _, err := DecodeGatewayDHTDiscoverRequestV2(fcrMsg)
	gvEnsures("C04.GatewayDHTDiscoverRequestV2-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == GatewayDHTDiscoverRequestV2Type })
	gvEnsures("C04.GatewayDHTDiscoverRequestV2-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.GatewayDHTDiscoverRequestV2-accepted-is-complete", func() bool { return err != nil || r0 != nil && r1 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.GatewayDHTDiscoverResponse-no-panic
func contract_GatewayDHTDiscoverResponse(pieceCID *cid.ContentID, nonce int64, found bool, offers []cidoffer.SubCIDOffer, fundedPaymentChannel []bool) {
	gvRequires(func() bool { return pieceCID != nil && len(pieceCID.ToBytes()) == 32 && specOffersOKSub(offers) })
	m, err := EncodeGatewayDHTDiscoverResponse(pieceCID, nonce, found, offers, fundedPaymentChannel)
	gvEnsures("C04.GatewayDHTDiscoverResponse-encodes", func() bool { return err == nil && m != nil && m.messageType == GatewayDHTDiscoverResponseType && m.protocolVersion == protocolVersion })
	d0, d1, d2, d3, d4, err2 := DecodeGatewayDHTDiscoverResponse(m)
	gvEnsures("C04.GatewayDHTDiscoverResponse-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.GatewayDHTDiscoverResponse-keeps-pieceCID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), pieceCID.ToBytes()) })
	gvEnsures("C04.GatewayDHTDiscoverResponse-keeps-nonce", func() bool { return err != nil || err2 != nil || d1 == nonce })
	gvEnsures("C04.GatewayDHTDiscoverResponse-keeps-found", func() bool { return err != nil || err2 != nil || d2 == found })
	gvEnsures("C04.GatewayDHTDiscoverResponse-keeps-offers", func() bool { return err != nil || err2 != nil || len(d3) == len(offers) && gvSameJSON(d3, offers) })
	gvEnsures("C04.GatewayDHTDiscoverResponse-keeps-fundedPaymentChannel", func() bool { return err != nil || err2 != nil || len(d4) == len(fundedPaymentChannel) && gvForall(0, len(fundedPaymentChannel), func(i int) bool { return d4[i] == fundedPaymentChannel[i] }) })
}

//gv:target DecodeGatewayDHTDiscoverResponse
//gv:props C04
//gv:nopanic C04.GatewayDHTDiscoverResponse-decode-no-panic
//gv:frame C04.GatewayDHTDiscoverResponse-decode-frame
func contract_GatewayDHTDiscoverResponse_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, _, _, _, _, err := DecodeGatewayDHTDiscoverResponse(fcrMsg)
	gvEnsures("C04.GatewayDHTDiscoverResponse-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == GatewayDHTDiscoverResponseType })
	gvEnsures("C04.GatewayDHTDiscoverResponse-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.GatewayDHTDiscoverResponse-accepted-is-complete", func() bool { return err != nil || r0 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.GatewayDHTDiscoverResponseV2-no-panic
func contract_GatewayDHTDiscoverResponseV2(pieceCID *cid.ContentID, nonce int64, found bool, offers []string, fundedPaymentChannel []bool, paymentRequired bool, paymentChannel string) {
	gvRequires(func() bool { return pieceCID != nil && len(pieceCID.ToBytes()) == 32 })
	m, err := EncodeGatewayDHTDiscoverResponseV2(pieceCID, nonce, found, offers, fundedPaymentChannel, paymentRequired, paymentChannel)
	gvEnsures("C04.GatewayDHTDiscoverResponseV2-encodes", func() bool { return err == nil && m != nil && m.messageType == GatewayDHTDiscoverResponseV2Type && m.protocolVersion == protocolVersion })
	d0, d1, d2, d3, d4, d5, d6, err2 := DecodeGatewayDHTDiscoverResponseV2(m)
	gvEnsures("C04.GatewayDHTDiscoverResponseV2-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.GatewayDHTDiscoverResponseV2-keeps-pieceCID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), pieceCID.ToBytes()) })
	gvEnsures("C04.GatewayDHTDiscoverResponseV2-keeps-nonce", func() bool { return err != nil || err2 != nil || d1 == nonce })
	gvEnsures("C04.GatewayDHTDiscoverResponseV2-keeps-found", func() bool { return err != nil || err2 != nil || d2 == found })
	gvEnsures("C04.GatewayDHTDiscoverResponseV2-keeps-offers", func() bool { return err != nil || err2 != nil || len(d3) == len(offers) && gvForall(0, len(offers), func(i int) bool { return d3[i] == offers[i] }) })
	gvEnsures("C04.GatewayDHTDiscoverResponseV2-keeps-fundedPaymentChannel", func() bool { return err != nil || err2 != nil || len(d4) == len(fundedPaymentChannel) && gvForall(0, len(fundedPaymentChannel), func(i int) bool { return d4[i] == fundedPaymentChannel[i] }) })
	gvEnsures("C04.GatewayDHTDiscoverResponseV2-keeps-paymentRequired", func() bool { return err != nil || err2 != nil || d5 == paymentRequired })
	gvEnsures("C04.GatewayDHTDiscoverResponseV2-keeps-paymentChannel", func() bool { return err != nil || err2 != nil || d6 == paymentChannel })
}

//gv:target DecodeGatewayDHTDiscoverResponseV2
//gv:props C04
//gv:nopanic C04.GatewayDHTDiscoverResponseV2-decode-no-panic
//gv:frame C04.GatewayDHTDiscoverResponseV2-decode-frame
func contract_GatewayDHTDiscoverResponseV2_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, _, _, _, _, _, _, err := DecodeGatewayDHTDiscoverResponseV2(fcrMsg)
	gvEnsures("C04.GatewayDHTDiscoverResponseV2-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == GatewayDHTDiscoverResponseV2Type })
	gvEnsures("C04.GatewayDHTDiscoverResponseV2-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.GatewayDHTDiscoverResponseV2-accepted-is-complete", func() bool { return err != nil || r0 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.GatewayListDHTOfferAck-no-panic
func contract_GatewayListDHTOfferAck(publishedDHTOffersAck []FCRMessage) {
	m, err := EncodeGatewayListDHTOfferAck(publishedDHTOffersAck)
	gvEnsures("C04.GatewayListDHTOfferAck-encodes", func() bool { return err == nil && m != nil && m.messageType == GatewayListDHTOfferAckType && m.protocolVersion == protocolVersion })
	d0, err2 := DecodeGatewayListDHTOfferAck(m)
	gvEnsures("C04.GatewayListDHTOfferAck-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.GatewayListDHTOfferAck-keeps-publishedDHTOffersAck", func() bool { return err != nil || err2 != nil || len(d0) == len(publishedDHTOffersAck) && gvSameJSON(d0, publishedDHTOffersAck) })
}

//gv:target DecodeGatewayListDHTOfferAck
//gv:props C04
//gv:nopanic C04.GatewayListDHTOfferAck-decode-no-panic
//gv:frame C04.GatewayListDHTOfferAck-decode-frame
func contract_GatewayListDHTOfferAck_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	_, err := DecodeGatewayListDHTOfferAck(fcrMsg)
	gvEnsures("C04.GatewayListDHTOfferAck-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == GatewayListDHTOfferAckType })
	gvEnsures("C04.GatewayListDHTOfferAck-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.GatewayListDHTOfferRequest-no-panic
func contract_GatewayListDHTOfferRequest(gatewayID *nodeid.NodeID, cidMin *cid.ContentID, cidMax *cid.ContentID, blockHash string, transactionReceipt string, merkleRoot string, merkleProof *fcrmerkletree.FCRMerkleProof) {
	gvRequires(func() bool { return gatewayID != nil && len(gatewayID.ToBytes()) == 32 && cidMin != nil && len(cidMin.ToBytes()) == 32 && cidMax != nil && len(cidMax.ToBytes()) == 32 && merkleProof != nil && fcrmerkletree.SpecShort(merkleProof) })
	m, err := EncodeGatewayListDHTOfferRequest(gatewayID, cidMin, cidMax, blockHash, transactionReceipt, merkleRoot, merkleProof)
	gvEnsures("C04.GatewayListDHTOfferRequest-encodes", func() bool { return err == nil && m != nil && m.messageType == GatewayListDHTOfferRequestType && m.protocolVersion == protocolVersion })
	d0, d1, d2, d3, d4, d5, d6, err2 := DecodeGatewayListDHTOfferRequest(m)
	gvEnsures("C04.GatewayListDHTOfferRequest-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.GatewayListDHTOfferRequest-keeps-gatewayID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), gatewayID.ToBytes()) })
	gvEnsures("C04.GatewayListDHTOfferRequest-keeps-cidMin", func() bool { return err != nil || err2 != nil || d1 != nil && gvBytesEq(d1.ToBytes(), cidMin.ToBytes()) })
	gvEnsures("C04.GatewayListDHTOfferRequest-keeps-cidMax", func() bool { return err != nil || err2 != nil || d2 != nil && gvBytesEq(d2.ToBytes(), cidMax.ToBytes()) })
	gvEnsures("C04.GatewayListDHTOfferRequest-keeps-blockHash", func() bool { return err != nil || err2 != nil || d3 == blockHash })
	gvEnsures("C04.GatewayListDHTOfferRequest-keeps-transactionReceipt", func() bool { return err != nil || err2 != nil || d4 == transactionReceipt })
	gvEnsures("C04.GatewayListDHTOfferRequest-keeps-merkleRoot", func() bool { return err != nil || err2 != nil || d5 == merkleRoot })
	gvEnsures("C04.GatewayListDHTOfferRequest-keeps-merkleProof", func() bool { return err != nil || err2 != nil || d6 != nil && fcrmerkletree.SpecSameProof(d6, merkleProof) })
}

//gv:target DecodeGatewayListDHTOfferRequest
//gv:props C04
//gv:nopanic C04.GatewayListDHTOfferRequest-decode-no-panic
//gv:frame C04.GatewayListDHTOfferRequest-decode-frame
func contract_GatewayListDHTOfferRequest_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, r1, r2, _, _, _, r6, err := DecodeGatewayListDHTOfferRequest(fcrMsg)
	gvEnsures("C04.GatewayListDHTOfferRequest-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == GatewayListDHTOfferRequestType })
	gvEnsures("C04.GatewayListDHTOfferRequest-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.GatewayListDHTOfferRequest-accepted-is-complete", func() bool { return err != nil || r0 != nil && r1 != nil && r2 != nil && r6 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.GatewayListDHTOfferResponse-no-panic
func contract_GatewayListDHTOfferResponse(publishedDHTOffers []FCRMessage) {
	m, err := EncodeGatewayListDHTOfferResponse(publishedDHTOffers)
	gvEnsures("C04.GatewayListDHTOfferResponse-encodes", func() bool { return err == nil && m != nil && m.messageType == GatewayListDHTOfferResponseType && m.protocolVersion == protocolVersion })
	d0, err2 := DecodeGatewayListDHTOfferResponse(m)
	gvEnsures("C04.GatewayListDHTOfferResponse-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.GatewayListDHTOfferResponse-keeps-publishedDHTOffers", func() bool { return err != nil || err2 != nil || len(d0) == len(publishedDHTOffers) && gvSameJSON(d0, publishedDHTOffers) })
}

//gv:target DecodeGatewayListDHTOfferResponse
//gv:props C04
//gv:nopanic C04.GatewayListDHTOfferResponse-decode-no-panic
//gv:frame C04.GatewayListDHTOfferResponse-decode-frame
func contract_GatewayListDHTOfferResponse_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	_, err := DecodeGatewayListDHTOfferResponse(fcrMsg)
	gvEnsures("C04.GatewayListDHTOfferResponse-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == GatewayListDHTOfferResponseType })
	gvEnsures("C04.GatewayListDHTOfferResponse-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.GatewayNotifyProviderGroupCIDOfferSupportRequest-no-panic
func contract_GatewayNotifyProviderGroupCIDOfferSupportRequest(gatewayID *nodeid.NodeID, groupCIDOfferSupported bool) {
	gvRequires(func() bool { return gatewayID != nil && len(gatewayID.ToBytes()) == 32 })
	m, err := EncodeGatewayNotifyProviderGroupCIDOfferSupportRequest(gatewayID, groupCIDOfferSupported)
	gvEnsures("C04.GatewayNotifyProviderGroupCIDOfferSupportRequest-encodes", func() bool { return err == nil && m != nil && m.messageType == GatewayNotifyProviderGroupCIDOfferSupportedRequestType && m.protocolVersion == protocolVersion })
	d0, d1, err2 := DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest(m)
	gvEnsures("C04.GatewayNotifyProviderGroupCIDOfferSupportRequest-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.GatewayNotifyProviderGroupCIDOfferSupportRequest-keeps-gatewayID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), gatewayID.ToBytes()) })
	gvEnsures("C04.GatewayNotifyProviderGroupCIDOfferSupportRequest-keeps-groupCIDOfferSupported", func() bool { return err != nil || err2 != nil || d1 == groupCIDOfferSupported })
}

//gv:target DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest
//gv:props C04
//gv:nopanic C04.GatewayNotifyProviderGroupCIDOfferSupportRequest-decode-no-panic
//gv:frame C04.GatewayNotifyProviderGroupCIDOfferSupportRequest-decode-frame
func contract_GatewayNotifyProviderGroupCIDOfferSupportRequest_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, _, err := DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest(fcrMsg)
	gvEnsures("C04.GatewayNotifyProviderGroupCIDOfferSupportRequest-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == GatewayNotifyProviderGroupCIDOfferSupportedRequestType })
	gvEnsures("C04.GatewayNotifyProviderGroupCIDOfferSupportRequest-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.GatewayNotifyProviderGroupCIDOfferSupportRequest-accepted-is-complete", func() bool { return err != nil || r0 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.GatewayNotifyProviderGroupCIDOfferSupportResponse-no-panic
func contract_GatewayNotifyProviderGroupCIDOfferSupportResponse(acknowledged bool) {
	m, err := EncodeGatewayNotifyProviderGroupCIDOfferSupportResponse(acknowledged)
	gvEnsures("C04.GatewayNotifyProviderGroupCIDOfferSupportResponse-encodes", func() bool { return err == nil && m != nil && m.messageType == GatewayNotifyProviderGroupCIDOfferSupportedResponseType && m.protocolVersion == protocolVersion })
	d0, err2 := DecodeGatewayNotifyProviderGroupCIDOfferSupportResponse(m)
	gvEnsures("C04.GatewayNotifyProviderGroupCIDOfferSupportResponse-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.GatewayNotifyProviderGroupCIDOfferSupportResponse-keeps-acknowledged", func() bool { return err != nil || err2 != nil || d0 == acknowledged })
}

//gv:target DecodeGatewayNotifyProviderGroupCIDOfferSupportResponse
//gv:props C04
//gv:nopanic C04.GatewayNotifyProviderGroupCIDOfferSupportResponse-decode-no-panic
//gv:frame C04.GatewayNotifyProviderGroupCIDOfferSupportResponse-decode-frame
func contract_GatewayNotifyProviderGroupCIDOfferSupportResponse_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	_, err := DecodeGatewayNotifyProviderGroupCIDOfferSupportResponse(fcrMsg)
	gvEnsures("C04.GatewayNotifyProviderGroupCIDOfferSupportResponse-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == GatewayNotifyProviderGroupCIDOfferSupportedResponseType })
	gvEnsures("C04.GatewayNotifyProviderGroupCIDOfferSupportResponse-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.GatewayPingRequest-no-panic
func contract_GatewayPingRequest(gatewayID *nodeid.NodeID, nonce int64, ttl int64) {
	gvRequires(func() bool { return gatewayID != nil && len(gatewayID.ToBytes()) == 32 })
	m, err := EncodeGatewayPingRequest(gatewayID, nonce, ttl)
	gvEnsures("C04.GatewayPingRequest-encodes", func() bool { return err == nil && m != nil && m.messageType == GatewayPingRequestType && m.protocolVersion == protocolVersion })
	d0, d1, d2, err2 := DecodeGatewayPingRequest(m)
	gvEnsures("C04.GatewayPingRequest-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.GatewayPingRequest-keeps-gatewayID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), gatewayID.ToBytes()) })
	gvEnsures("C04.GatewayPingRequest-keeps-nonce", func() bool { return err != nil || err2 != nil || d1 == nonce })
	gvEnsures("C04.GatewayPingRequest-keeps-ttl", func() bool { return err != nil || err2 != nil || d2 == ttl })
}

//gv:target DecodeGatewayPingRequest
//gv:props C04
//gv:nopanic C04.GatewayPingRequest-decode-no-panic
//gv:frame C04.GatewayPingRequest-decode-frame
func contract_GatewayPingRequest_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, _, _, err := DecodeGatewayPingRequest(fcrMsg)
	gvEnsures("C04.GatewayPingRequest-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == GatewayPingRequestType })
	gvEnsures("C04.GatewayPingRequest-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.GatewayPingRequest-accepted-is-complete", func() bool { return err != nil || r0 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.GatewayPingResponse-no-panic
func contract_GatewayPingResponse(nonce int64, alive bool) {
	m, err := EncodeGatewayPingResponse(nonce, alive)
	gvEnsures("C04.GatewayPingResponse-encodes", func() bool { return err == nil && m != nil && m.messageType == GatewayPingResponseType && m.protocolVersion == protocolVersion })
	d0, d1, err2 := DecodeGatewayPingResponse(m)
	gvEnsures("C04.GatewayPingResponse-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.GatewayPingResponse-keeps-nonce", func() bool { return err != nil || err2 != nil || d0 == nonce })
	gvEnsures("C04.GatewayPingResponse-keeps-alive", func() bool { return err != nil || err2 != nil || d1 == alive })
}

//gv:target DecodeGatewayPingResponse
//gv:props C04
//gv:nopanic C04.GatewayPingResponse-decode-no-panic
//gv:frame C04.GatewayPingResponse-decode-frame
func contract_GatewayPingResponse_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	_, _, err := DecodeGatewayPingResponse(fcrMsg)
	gvEnsures("C04.GatewayPingResponse-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == GatewayPingResponseType })
	gvEnsures("C04.GatewayPingResponse-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.InvalidMessageResponse-no-panic
func contract_InvalidMessageResponse() {
	m, err := EncodeInvalidMessageResponse()
	gvEnsures("C04.InvalidMessageResponse-encodes", func() bool { return err == nil && m != nil && m.messageType == InvalidMessageResponseType && m.protocolVersion == protocolVersion })
	err2 := DecodeInvalidMessageResponse(m)
	gvEnsures("C04.InvalidMessageResponse-accepts-own", func() bool { return err2 == nil })
}

//gv:target DecodeInvalidMessageResponse
//gv:props C04
//gv:nopanic C04.InvalidMessageResponse-decode-no-panic
//gv:frame C04.InvalidMessageResponse-decode-frame
func contract_InvalidMessageResponse_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	err := DecodeInvalidMessageResponse(fcrMsg)
	gvEnsures("C04.InvalidMessageResponse-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == InvalidMessageResponseType })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ProtocolChangeRequest-no-panic
func contract_ProtocolChangeRequest(desiredVersion int32) {
	m, err := EncodeProtocolChangeRequest(desiredVersion)
	gvEnsures("C04.ProtocolChangeRequest-encodes", func() bool { return err == nil && m != nil && m.messageType == ProtocolChangeRequestType && m.protocolVersion == protocolVersion })
	d0, err2 := DecodeProtocolChangeRequest(m)
	gvEnsures("C04.ProtocolChangeRequest-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ProtocolChangeRequest-keeps-desiredVersion", func() bool { return err != nil || err2 != nil || d0 == desiredVersion })
}

//gv:target DecodeProtocolChangeRequest
//gv:props C04
//gv:nopanic C04.ProtocolChangeRequest-decode-no-panic
//gv:frame C04.ProtocolChangeRequest-decode-frame
func contract_ProtocolChangeRequest_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	_, err := DecodeProtocolChangeRequest(fcrMsg)
	gvEnsures("C04.ProtocolChangeRequest-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ProtocolChangeRequestType })
	gvEnsures("C04.ProtocolChangeRequest-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ProtocolChangeResponse-no-panic
func contract_ProtocolChangeResponse(success bool) {
	m, err := EncodeProtocolChangeResponse(success)
	gvEnsures("C04.ProtocolChangeResponse-encodes", func() bool { return err == nil && m != nil && m.messageType == ProtocolChangeResponseType && m.protocolVersion == protocolVersion })
	d0, err2 := DecodeProtocolChangeResponse(m)
	gvEnsures("C04.ProtocolChangeResponse-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ProtocolChangeResponse-keeps-success", func() bool { return err != nil || err2 != nil || d0 == success })
}

//gv:target DecodeProtocolChangeResponse
//gv:props C04
//gv:nopanic C04.ProtocolChangeResponse-decode-no-panic
//gv:frame C04.ProtocolChangeResponse-decode-frame
func contract_ProtocolChangeResponse_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	_, err := DecodeProtocolChangeResponse(fcrMsg)
	gvEnsures("C04.ProtocolChangeResponse-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ProtocolChangeResponseType })
	gvEnsures("C04.ProtocolChangeResponse-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ProviderAdminForceRefreshRequest-no-panic
func contract_ProviderAdminForceRefreshRequest(refresh bool) {
	m, err := EncodeProviderAdminForceRefreshRequest(refresh)
	gvEnsures("C04.ProviderAdminForceRefreshRequest-encodes", func() bool { return err == nil && m != nil && m.messageType == ProviderAdminForceRefreshRequestType && m.protocolVersion == protocolVersion })
	d0, err2 := DecodeProviderAdminForceRefreshRequest(m)
	gvEnsures("C04.ProviderAdminForceRefreshRequest-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ProviderAdminForceRefreshRequest-keeps-refresh", func() bool { return err != nil || err2 != nil || d0 == refresh })
}

//gv:target DecodeProviderAdminForceRefreshRequest
//gv:props C04
//gv:nopanic C04.ProviderAdminForceRefreshRequest-decode-no-panic
//gv:frame C04.ProviderAdminForceRefreshRequest-decode-frame
func contract_ProviderAdminForceRefreshRequest_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	_, err := DecodeProviderAdminForceRefreshRequest(fcrMsg)
	gvEnsures("C04.ProviderAdminForceRefreshRequest-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ProviderAdminForceRefreshRequestType })
	gvEnsures("C04.ProviderAdminForceRefreshRequest-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ProviderAdminForceRefreshResponse-no-panic
func contract_ProviderAdminForceRefreshResponse(refreshed bool) {
	m, err := EncodeProviderAdminForceRefreshResponse(refreshed)
	gvEnsures("C04.ProviderAdminForceRefreshResponse-encodes", func() bool { return err == nil && m != nil && m.messageType == ProviderAdminForceRefreshResponseType && m.protocolVersion == protocolVersion })
	d0, err2 := DecodeProviderAdminForceRefreshResponse(m)
	gvEnsures("C04.ProviderAdminForceRefreshResponse-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ProviderAdminForceRefreshResponse-keeps-refreshed", func() bool { return err != nil || err2 != nil || d0 == refreshed })
}

//gv:target DecodeProviderAdminForceRefreshResponse
//gv:props C04
//gv:nopanic C04.ProviderAdminForceRefreshResponse-decode-no-panic
//gv:frame C04.ProviderAdminForceRefreshResponse-decode-frame
func contract_ProviderAdminForceRefreshResponse_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	_, err := DecodeProviderAdminForceRefreshResponse(fcrMsg)
	gvEnsures("C04.ProviderAdminForceRefreshResponse-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ProviderAdminForceRefreshResponseType })
	gvEnsures("C04.ProviderAdminForceRefreshResponse-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ProviderAdminGetPublishedOfferRequest-no-panic
func contract_ProviderAdminGetPublishedOfferRequest(gatewayIDs []nodeid.NodeID) {
	gvRequires(func() bool { return gvForall(0, len(gatewayIDs), func(i int) bool { return len(gatewayIDs[i].ToBytes()) == 32 }) })
	m, err := EncodeProviderAdminGetPublishedOfferRequest(gatewayIDs)
	gvEnsures("C04.ProviderAdminGetPublishedOfferRequest-encodes", func() bool { return err == nil && m != nil && m.messageType == ProviderAdminGetPublishedOfferRequestType && m.protocolVersion == protocolVersion })
	d0, err2 := DecodeProviderAdminGetPublishedOfferRequest(m)
	gvEnsures("C04.ProviderAdminGetPublishedOfferRequest-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ProviderAdminGetPublishedOfferRequest-keeps-gatewayIDs", func() bool { return err != nil || err2 != nil || len(d0) == len(gatewayIDs) && gvForall(0, len(gatewayIDs), func(i int) bool { return gvBytesEq(d0[i].ToBytes(), gatewayIDs[i].ToBytes()) }) })
}

//gv:target DecodeProviderAdminGetPublishedOfferRequest
//gv:props C04
//gv:nopanic C04.ProviderAdminGetPublishedOfferRequest-decode-no-panic
//gv:frame C04.ProviderAdminGetPublishedOfferRequest-decode-frame
func contract_ProviderAdminGetPublishedOfferRequest_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	_, err := DecodeProviderAdminGetPublishedOfferRequest(fcrMsg)
	gvEnsures("C04.ProviderAdminGetPublishedOfferRequest-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ProviderAdminGetPublishedOfferRequestType })
	gvEnsures("C04.ProviderAdminGetPublishedOfferRequest-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ProviderAdminGetPublishedOfferResponse-no-panic
func contract_ProviderAdminGetPublishedOfferResponse(exists bool, offers []cidoffer.CIDOffer) {
	gvRequires(func() bool { return specOffersOK(offers) })
	m, err := EncodeProviderAdminGetPublishedOfferResponse(exists, offers)
	gvEnsures("C04.ProviderAdminGetPublishedOfferResponse-encodes", func() bool { return err == nil && m != nil && m.messageType == ProviderAdminGetPublishedOfferResponseType && m.protocolVersion == protocolVersion })
	d0, d1, err2 := DecodeProviderAdminGetPublishedOfferResponse(m)
	gvEnsures("C04.ProviderAdminGetPublishedOfferResponse-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ProviderAdminGetPublishedOfferResponse-keeps-exists", func() bool { return err != nil || err2 != nil || d0 == exists })
	gvEnsures("C04.ProviderAdminGetPublishedOfferResponse-keeps-offers", func() bool { return err != nil || err2 != nil || len(d1) == len(offers) && gvSameJSON(d1, offers) })
}

//gv:target DecodeProviderAdminGetPublishedOfferResponse
//gv:props C04
//gv:nopanic C04.ProviderAdminGetPublishedOfferResponse-decode-no-panic
//gv:frame C04.ProviderAdminGetPublishedOfferResponse-decode-frame
func contract_ProviderAdminGetPublishedOfferResponse_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	_, _, err := DecodeProviderAdminGetPublishedOfferResponse(fcrMsg)
	gvEnsures("C04.ProviderAdminGetPublishedOfferResponse-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ProviderAdminGetPublishedOfferResponseType })
	gvEnsures("C04.ProviderAdminGetPublishedOfferResponse-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ProviderAdminInitialiseKeyRequest-no-panic
func contract_ProviderAdminInitialiseKeyRequest(nodeID *nodeid.NodeID, privateKey *fcrcrypto.KeyPair, keyVersion *fcrcrypto.KeyVersion) {
	gvRequires(func() bool { return nodeID != nil && len(nodeID.ToBytes()) == 32 && privateKey != nil && specPrivateKey(privateKey) && keyVersion != nil })
	m, err := EncodeProviderAdminInitialiseKeyRequest(nodeID, privateKey, keyVersion)
	gvEnsures("C04.ProviderAdminInitialiseKeyRequest-encodes", func() bool { return err == nil && m != nil && m.messageType == ProviderAdminInitialiseKeyRequestType && m.protocolVersion == protocolVersion })
	d0, d1, d2, err2 := DecodeProviderAdminInitialiseKeyRequest(m)
	gvEnsures("C04.ProviderAdminInitialiseKeyRequest-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ProviderAdminInitialiseKeyRequest-keeps-nodeID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), nodeID.ToBytes()) })
	gvEnsures("C04.ProviderAdminInitialiseKeyRequest-keeps-privateKey", func() bool { return err != nil || err2 != nil || d1 != nil && d1.EncodePrivateKey() == privateKey.EncodePrivateKey() })
	gvEnsures("C04.ProviderAdminInitialiseKeyRequest-keeps-keyVersion", func() bool { return err != nil || err2 != nil || d2 != nil && d2.EncodeKeyVersion() == keyVersion.EncodeKeyVersion() })
}

//gv:target DecodeProviderAdminInitialiseKeyRequest
//gv:props C04
//gv:nopanic C04.ProviderAdminInitialiseKeyRequest-decode-no-panic
//gv:frame C04.ProviderAdminInitialiseKeyRequest-decode-frame
func contract_ProviderAdminInitialiseKeyRequest_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, r1, r2, err := DecodeProviderAdminInitialiseKeyRequest(fcrMsg)
	gvEnsures("C04.ProviderAdminInitialiseKeyRequest-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ProviderAdminInitialiseKeyRequestType })
	gvEnsures("C04.ProviderAdminInitialiseKeyRequest-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.ProviderAdminInitialiseKeyRequest-accepted-is-complete", func() bool { return err != nil || r0 != nil && r1 != nil && r2 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ProviderAdminInitialiseKeyRequestV2-no-panic
func contract_ProviderAdminInitialiseKeyRequestV2(nodeID *nodeid.NodeID, privateKey *fcrcrypto.KeyPair, keyVersion *fcrcrypto.KeyVersion, walletPrivateKey string, lotusAP string, lotusAuthToken string) {
	gvRequires(func() bool { return nodeID != nil && len(nodeID.ToBytes()) == 32 && privateKey != nil && specPrivateKey(privateKey) && keyVersion != nil })
	m, err := EncodeProviderAdminInitialiseKeyRequestV2(nodeID, privateKey, keyVersion, walletPrivateKey, lotusAP, lotusAuthToken)
	gvEnsures("C04.ProviderAdminInitialiseKeyRequestV2-encodes", func() bool { return err == nil && m != nil && m.messageType == ProviderAdminInitialiseKeyRequestV2Type && m.protocolVersion == protocolVersion })
	d0, d1, d2, d3, d4, d5, err2 := DecodeProviderAdminInitialiseKeyRequestV2(m)
	gvEnsures("C04.ProviderAdminInitialiseKeyRequestV2-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ProviderAdminInitialiseKeyRequestV2-keeps-nodeID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), nodeID.ToBytes()) })
	gvEnsures("C04.ProviderAdminInitialiseKeyRequestV2-keeps-privateKey", func() bool { return err != nil || err2 != nil || d1 != nil && d1.EncodePrivateKey() == privateKey.EncodePrivateKey() })
	gvEnsures("C04.ProviderAdminInitialiseKeyRequestV2-keeps-keyVersion", func() bool { return err != nil || err2 != nil || d2 != nil && d2.EncodeKeyVersion() == keyVersion.EncodeKeyVersion() })
	gvEnsures("C04.ProviderAdminInitialiseKeyRequestV2-keeps-walletPrivateKey", func() bool { return err != nil || err2 != nil || d3 == walletPrivateKey })
	gvEnsures("C04.ProviderAdminInitialiseKeyRequestV2-keeps-lotusAP", func() bool { return err != nil || err2 != nil || d4 == lotusAP })
	gvEnsures("C04.ProviderAdminInitialiseKeyRequestV2-keeps-lotusAuthToken", func() bool { return err != nil || err2 != nil || d5 == lotusAuthToken })
}

//gv:target DecodeProviderAdminInitialiseKeyRequestV2
//gv:props C04
//gv:nopanic C04.ProviderAdminInitialiseKeyRequestV2-decode-no-panic
//gv:frame C04.ProviderAdminInitialiseKeyRequestV2-decode-frame
func contract_ProviderAdminInitialiseKeyRequestV2_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, r1, r2, _, _, _, err := DecodeProviderAdminInitialiseKeyRequestV2(fcrMsg)
	gvEnsures("C04.ProviderAdminInitialiseKeyRequestV2-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ProviderAdminInitialiseKeyRequestV2Type })
	gvEnsures("C04.ProviderAdminInitialiseKeyRequestV2-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.ProviderAdminInitialiseKeyRequestV2-accepted-is-complete", func() bool { return err != nil || r0 != nil && r1 != nil && r2 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ProviderAdminInitialiseKeyResponse-no-panic
func contract_ProviderAdminInitialiseKeyResponse(success bool) {
	m, err := EncodeProviderAdminInitialiseKeyResponse(success)
	gvEnsures("C04.ProviderAdminInitialiseKeyResponse-encodes", func() bool { return err == nil && m != nil && m.messageType == ProviderAdminInitialiseKeyResponseType && m.protocolVersion == protocolVersion })
	d0, err2 := DecodeProviderAdminInitialiseKeyResponse(m)
	gvEnsures("C04.ProviderAdminInitialiseKeyResponse-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ProviderAdminInitialiseKeyResponse-keeps-success", func() bool { return err != nil || err2 != nil || d0 == success })
}

//gv:target DecodeProviderAdminInitialiseKeyResponse
//gv:props C04
//gv:nopanic C04.ProviderAdminInitialiseKeyResponse-decode-no-panic
//gv:frame C04.ProviderAdminInitialiseKeyResponse-decode-frame
func contract_ProviderAdminInitialiseKeyResponse_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	_, err := DecodeProviderAdminInitialiseKeyResponse(fcrMsg)
	gvEnsures("C04.ProviderAdminInitialiseKeyResponse-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ProviderAdminInitialiseKeyResponseType })
	gvEnsures("C04.ProviderAdminInitialiseKeyResponse-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ProviderAdminPublishDHTOfferRequest-no-panic
func contract_ProviderAdminPublishDHTOfferRequest(cids []cid.ContentID, price []uint64, expiry []int64, qos []uint64) {
	gvRequires(func() bool { return gvForall(0, len(cids), func(i int) bool { return len(cids[i].ToBytes()) == 32 }) })
	m, err := EncodeProviderAdminPublishDHTOfferRequest(cids, price, expiry, qos)
	gvEnsures("C04.ProviderAdminPublishDHTOfferRequest-encodes", func() bool { return err == nil && m != nil && m.messageType == ProviderAdminPublishDHTOfferRequestType && m.protocolVersion == protocolVersion })
	d0, d1, d2, d3, err2 := DecodeProviderAdminPublishDHTOfferRequest(m)
	gvEnsures("C04.ProviderAdminPublishDHTOfferRequest-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ProviderAdminPublishDHTOfferRequest-keeps-cids", func() bool { return err != nil || err2 != nil || len(d0) == len(cids) && gvForall(0, len(cids), func(i int) bool { return gvBytesEq(d0[i].ToBytes(), cids[i].ToBytes()) }) })
	gvEnsures("C04.ProviderAdminPublishDHTOfferRequest-keeps-price", func() bool { return err != nil || err2 != nil || len(d1) == len(price) && gvForall(0, len(price), func(i int) bool { return d1[i] == price[i] }) })
	gvEnsures("C04.ProviderAdminPublishDHTOfferRequest-keeps-expiry", func() bool { return err != nil || err2 != nil || len(d2) == len(expiry) && gvForall(0, len(expiry), func(i int) bool { return d2[i] == expiry[i] }) })
	gvEnsures("C04.ProviderAdminPublishDHTOfferRequest-keeps-qos", func() bool { return err != nil || err2 != nil || len(d3) == len(qos) && gvForall(0, len(qos), func(i int) bool { return d3[i] == qos[i] }) })
}

//gv:target DecodeProviderAdminPublishDHTOfferRequest
//gv:props C04
//gv:nopanic C04.ProviderAdminPublishDHTOfferRequest-decode-no-panic
//gv:frame C04.ProviderAdminPublishDHTOfferRequest-decode-frame
func contract_ProviderAdminPublishDHTOfferRequest_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	_, _, _, _, err := DecodeProviderAdminPublishDHTOfferRequest(fcrMsg)
	gvEnsures("C04.ProviderAdminPublishDHTOfferRequest-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ProviderAdminPublishDHTOfferRequestType })
	gvEnsures("C04.ProviderAdminPublishDHTOfferRequest-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ProviderAdminPublishDHTOfferResponse-no-panic
func contract_ProviderAdminPublishDHTOfferResponse(received bool) {
	m, err := EncodeProviderAdminPublishDHTOfferResponse(received)
	gvEnsures("C04.ProviderAdminPublishDHTOfferResponse-encodes", func() bool { return err == nil && m != nil && m.messageType == ProviderAdminPublishDHTOfferResponseType && m.protocolVersion == protocolVersion })
	d0, err2 := DecodeProviderAdminPublishDHTOfferResponse(m)
	gvEnsures("C04.ProviderAdminPublishDHTOfferResponse-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ProviderAdminPublishDHTOfferResponse-keeps-received", func() bool { return err != nil || err2 != nil || d0 == received })
}

//gv:target DecodeProviderAdminPublishDHTOfferResponse
//gv:props C04
//gv:nopanic C04.ProviderAdminPublishDHTOfferResponse-decode-no-panic
//gv:frame C04.ProviderAdminPublishDHTOfferResponse-decode-frame
func contract_ProviderAdminPublishDHTOfferResponse_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	_, err := DecodeProviderAdminPublishDHTOfferResponse(fcrMsg)
	gvEnsures("C04.ProviderAdminPublishDHTOfferResponse-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ProviderAdminPublishDHTOfferResponseType })
	gvEnsures("C04.ProviderAdminPublishDHTOfferResponse-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ProviderAdminPublishGroupOfferRequest-no-panic
func contract_ProviderAdminPublishGroupOfferRequest(cids []cid.ContentID, price uint64, expiry int64, qos uint64) {
	gvRequires(func() bool { return gvForall(0, len(cids), func(i int) bool { return len(cids[i].ToBytes()) == 32 }) })
	m, err := EncodeProviderAdminPublishGroupOfferRequest(cids, price, expiry, qos)
	gvEnsures("C04.ProviderAdminPublishGroupOfferRequest-encodes", func() bool { return err == nil && m != nil && m.messageType == ProviderAdminPublishGroupOfferRequestType && m.protocolVersion == protocolVersion })
	d0, d1, d2, d3, err2 := DecodeProviderAdminPublishGroupOfferRequest(m)
	gvEnsures("C04.ProviderAdminPublishGroupOfferRequest-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ProviderAdminPublishGroupOfferRequest-keeps-cids", func() bool { return err != nil || err2 != nil || len(d0) == len(cids) && gvForall(0, len(cids), func(i int) bool { return gvBytesEq(d0[i].ToBytes(), cids[i].ToBytes()) }) })
	gvEnsures("C04.ProviderAdminPublishGroupOfferRequest-keeps-price", func() bool { return err != nil || err2 != nil || d1 == price })
	gvEnsures("C04.ProviderAdminPublishGroupOfferRequest-keeps-expiry", func() bool { return err != nil || err2 != nil || d2 == expiry })
	gvEnsures("C04.ProviderAdminPublishGroupOfferRequest-keeps-qos", func() bool { return err != nil || err2 != nil || d3 == qos })
}

//gv:target DecodeProviderAdminPublishGroupOfferRequest
//gv:props C04
//gv:nopanic C04.ProviderAdminPublishGroupOfferRequest-decode-no-panic
//gv:frame C04.ProviderAdminPublishGroupOfferRequest-decode-frame
func contract_ProviderAdminPublishGroupOfferRequest_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	_, _, _, _, err := DecodeProviderAdminPublishGroupOfferRequest(fcrMsg)
	gvEnsures("C04.ProviderAdminPublishGroupOfferRequest-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ProviderAdminPublishGroupOfferRequestType })
	gvEnsures("C04.ProviderAdminPublishGroupOfferRequest-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ProviderAdminPublishGroupOfferResponse-no-panic
func contract_ProviderAdminPublishGroupOfferResponse(received bool) {
	m, err := EncodeProviderAdminPublishGroupOfferResponse(received)
	gvEnsures("C04.ProviderAdminPublishGroupOfferResponse-encodes", func() bool { return err == nil && m != nil && m.messageType == ProviderAdminPublishGroupOfferResponseType && m.protocolVersion == protocolVersion })
	d0, err2 := DecodeProviderAdminPublishGroupOfferResponse(m)
	gvEnsures("C04.ProviderAdminPublishGroupOfferResponse-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ProviderAdminPublishGroupOfferResponse-keeps-received", func() bool { return err != nil || err2 != nil || d0 == received })
}

//gv:target DecodeProviderAdminPublishGroupOfferResponse
//gv:props C04
//gv:nopanic C04.ProviderAdminPublishGroupOfferResponse-decode-no-panic
//gv:frame C04.ProviderAdminPublishGroupOfferResponse-decode-frame
func contract_ProviderAdminPublishGroupOfferResponse_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	_, err := DecodeProviderAdminPublishGroupOfferResponse(fcrMsg)
	gvEnsures("C04.ProviderAdminPublishGroupOfferResponse-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ProviderAdminPublishGroupOfferResponseType })
	gvEnsures("C04.ProviderAdminPublishGroupOfferResponse-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ProviderPublishDHTOfferRequest-no-panic
func contract_ProviderPublishDHTOfferRequest(providerID *nodeid.NodeID, nonce int64, offers []cidoffer.CIDOffer) {
	gvRequires(func() bool { return providerID != nil && len(providerID.ToBytes()) == 32 && specOffersOK(offers) })
	m, err := EncodeProviderPublishDHTOfferRequest(providerID, nonce, offers)
	gvEnsures("C04.ProviderPublishDHTOfferRequest-encodes", func() bool { return err == nil && m != nil && m.messageType == ProviderPublishDHTOfferRequestType && m.protocolVersion == protocolVersion })
	d0, d1, d2, err2 := DecodeProviderPublishDHTOfferRequest(m)
	gvEnsures("C04.ProviderPublishDHTOfferRequest-accepts-own", func() bool { return err2 == nil || len(offers) != 0 })
	gvEnsures("C04.ProviderPublishDHTOfferRequest-keeps-providerID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), providerID.ToBytes()) })
	gvEnsures("C04.ProviderPublishDHTOfferRequest-keeps-nonce", func() bool { return err != nil || err2 != nil || d1 == nonce })
	gvEnsures("C04.ProviderPublishDHTOfferRequest-keeps-offers", func() bool { return err != nil || err2 != nil || len(d2) == len(offers) && gvSameJSON(d2, offers) })
}

//gv:target DecodeProviderPublishDHTOfferRequest
//gv:props C04
//gv:nopanic C04.ProviderPublishDHTOfferRequest-decode-no-panic
//gv:frame C04.ProviderPublishDHTOfferRequest-decode-frame
func contract_ProviderPublishDHTOfferRequest_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, _, _, err := DecodeProviderPublishDHTOfferRequest(fcrMsg)
	gvEnsures("C04.ProviderPublishDHTOfferRequest-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ProviderPublishDHTOfferRequestType })
	gvEnsures("C04.ProviderPublishDHTOfferRequest-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.ProviderPublishDHTOfferRequest-accepted-is-complete", func() bool { return err != nil || r0 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ProviderPublishDHTOfferResponse-no-panic
func contract_ProviderPublishDHTOfferResponse(nonce int64, signature string) {
	m, err := EncodeProviderPublishDHTOfferResponse(nonce, signature)
	gvEnsures("C04.ProviderPublishDHTOfferResponse-encodes", func() bool { return err == nil && m != nil && m.messageType == ProviderPublishDHTOfferResponseType && m.protocolVersion == protocolVersion })
	d0, d1, err2 := DecodeProviderPublishDHTOfferResponse(m)
	gvEnsures("C04.ProviderPublishDHTOfferResponse-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ProviderPublishDHTOfferResponse-keeps-nonce", func() bool { return err != nil || err2 != nil || d0 == nonce })
	gvEnsures("C04.ProviderPublishDHTOfferResponse-keeps-signature", func() bool { return err != nil || err2 != nil || d1 == signature })
}

//gv:target DecodeProviderPublishDHTOfferResponse
//gv:props C04
//gv:nopanic C04.ProviderPublishDHTOfferResponse-decode-no-panic
//gv:frame C04.ProviderPublishDHTOfferResponse-decode-frame
func contract_ProviderPublishDHTOfferResponse_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	_, _, err := DecodeProviderPublishDHTOfferResponse(fcrMsg)
	gvEnsures("C04.ProviderPublishDHTOfferResponse-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ProviderPublishDHTOfferResponseType })
	gvEnsures("C04.ProviderPublishDHTOfferResponse-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ProviderPublishGroupOfferRequest-no-panic
func contract_ProviderPublishGroupOfferRequest(providerID *nodeid.NodeID, nonce int64, offer *cidoffer.CIDOffer) {
	gvRequires(func() bool { return providerID != nil && len(providerID.ToBytes()) == 32 && offer != nil && specOfferOK(offer) })
	m, err := EncodeProviderPublishGroupOfferRequest(providerID, nonce, offer)
	gvEnsures("C04.ProviderPublishGroupOfferRequest-encodes", func() bool { return err == nil && m != nil && m.messageType == ProviderPublishGroupOfferRequestType && m.protocolVersion == protocolVersion })
	d0, d1, d2, err2 := DecodeProviderPublishGroupOfferRequest(m)
	gvEnsures("C04.ProviderPublishGroupOfferRequest-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ProviderPublishGroupOfferRequest-keeps-providerID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), providerID.ToBytes()) })
	gvEnsures("C04.ProviderPublishGroupOfferRequest-keeps-nonce", func() bool { return err != nil || err2 != nil || d1 == nonce })
	gvEnsures("C04.ProviderPublishGroupOfferRequest-keeps-offer", func() bool { return err != nil || err2 != nil || d2 != nil && specSameOffer(d2, offer) })
}

//gv:target DecodeProviderPublishGroupOfferRequest
//gv:props C04
//gv:nopanic C04.ProviderPublishGroupOfferRequest-decode-no-panic
//gv:frame C04.ProviderPublishGroupOfferRequest-decode-frame
func contract_ProviderPublishGroupOfferRequest_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, _, r2, err := DecodeProviderPublishGroupOfferRequest(fcrMsg)
	gvEnsures("C04.ProviderPublishGroupOfferRequest-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ProviderPublishGroupOfferRequestType })
	gvEnsures("C04.ProviderPublishGroupOfferRequest-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.ProviderPublishGroupOfferRequest-accepted-is-complete", func() bool { return err != nil || r0 != nil && r2 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.ProviderPublishGroupOfferResponse-no-panic
func contract_ProviderPublishGroupOfferResponse(gatewayID nodeid.NodeID, digest string) {
	gvRequires(func() bool { return len(gatewayID.ToBytes()) == 32 })
	m, err := EncodeProviderPublishGroupOfferResponse(gatewayID, digest)
	gvEnsures("C04.ProviderPublishGroupOfferResponse-encodes", func() bool { return err == nil && m != nil && m.messageType == ProviderPublishGroupOfferResponseType && m.protocolVersion == protocolVersion })
	d0, d1, err2 := DecodeProviderPublishGroupOfferResponse(m)
	gvEnsures("C04.ProviderPublishGroupOfferResponse-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.ProviderPublishGroupOfferResponse-keeps-gatewayID", func() bool { return err != nil || err2 != nil || gvBytesEq(d0.ToBytes(), gatewayID.ToBytes()) })
	gvEnsures("C04.ProviderPublishGroupOfferResponse-keeps-digest", func() bool { return err != nil || err2 != nil || d1 == digest })
}

//gv:target DecodeProviderPublishGroupOfferResponse
//gv:props C04
//gv:nopanic C04.ProviderPublishGroupOfferResponse-decode-no-panic
//gv:frame C04.ProviderPublishGroupOfferResponse-decode-frame
func contract_ProviderPublishGroupOfferResponse_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, _, err := DecodeProviderPublishGroupOfferResponse(fcrMsg)
	gvEnsures("C04.ProviderPublishGroupOfferResponse-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == ProviderPublishGroupOfferResponseType })
	gvEnsures("C04.ProviderPublishGroupOfferResponse-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.ProviderPublishGroupOfferResponse-accepted-is-complete", func() bool { return err != nil || r0 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.UpdateGatewayGroupCIDOfferSupportRequest-no-panic
func contract_UpdateGatewayGroupCIDOfferSupportRequest(nodeID *nodeid.NodeID, providerIDs []nodeid.NodeID) {
	gvRequires(func() bool { return nodeID != nil && len(nodeID.ToBytes()) == 32 && gvForall(0, len(providerIDs), func(i int) bool { return len(providerIDs[i].ToBytes()) == 32 }) })
	m, err := EncodeUpdateGatewayGroupCIDOfferSupportRequest(nodeID, providerIDs)
	gvEnsures("C04.UpdateGatewayGroupCIDOfferSupportRequest-encodes", func() bool { return err == nil && m != nil && m.messageType == GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType && m.protocolVersion == protocolVersion })
	d0, d1, err2 := DecodeUpdateGatewayGroupCIDOfferSupportRequest(m)
	gvEnsures("C04.UpdateGatewayGroupCIDOfferSupportRequest-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.UpdateGatewayGroupCIDOfferSupportRequest-keeps-nodeID", func() bool { return err != nil || err2 != nil || d0 != nil && gvBytesEq(d0.ToBytes(), nodeID.ToBytes()) })
	gvEnsures("C04.UpdateGatewayGroupCIDOfferSupportRequest-keeps-providerIDs", func() bool { return err != nil || err2 != nil || len(d1) == len(providerIDs) && gvForall(0, len(providerIDs), func(i int) bool { return gvBytesEq(d1[i].ToBytes(), providerIDs[i].ToBytes()) }) })
}

//gv:target DecodeUpdateGatewayGroupCIDOfferSupportRequest
//gv:props C04
//gv:nopanic C04.UpdateGatewayGroupCIDOfferSupportRequest-decode-no-panic
//gv:frame C04.UpdateGatewayGroupCIDOfferSupportRequest-decode-frame
func contract_UpdateGatewayGroupCIDOfferSupportRequest_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	r0, _, err := DecodeUpdateGatewayGroupCIDOfferSupportRequest(fcrMsg)
	gvEnsures("C04.UpdateGatewayGroupCIDOfferSupportRequest-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType })
	gvEnsures("C04.UpdateGatewayGroupCIDOfferSupportRequest-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
	gvEnsures("C04.UpdateGatewayGroupCIDOfferSupportRequest-accepted-is-complete", func() bool { return err != nil || r0 != nil })
}

//gv:props C04
//gv:inline common/pkg/fcrmessages.*
//gv:nopanic C04.UpdateGatewayGroupCIDOfferSupportResponse-no-panic
func contract_UpdateGatewayGroupCIDOfferSupportResponse(success bool) {
	m, err := EncodeUpdateGatewayGroupCIDOfferSupportResponse(success)
	gvEnsures("C04.UpdateGatewayGroupCIDOfferSupportResponse-encodes", func() bool { return err == nil && m != nil && m.messageType == GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType && m.protocolVersion == protocolVersion })
	d0, err2 := DecodeUpdateGatewayGroupCIDOfferSupportResponse(m)
	gvEnsures("C04.UpdateGatewayGroupCIDOfferSupportResponse-accepts-own", func() bool { return err2 == nil })
	gvEnsures("C04.UpdateGatewayGroupCIDOfferSupportResponse-keeps-success", func() bool { return err != nil || err2 != nil || d0 == success })
}

//gv:target DecodeUpdateGatewayGroupCIDOfferSupportResponse
//gv:props C04
//gv:nopanic C04.UpdateGatewayGroupCIDOfferSupportResponse-decode-no-panic
//gv:frame C04.UpdateGatewayGroupCIDOfferSupportResponse-decode-frame
func contract_UpdateGatewayGroupCIDOfferSupportResponse_Refuses(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	_, err := DecodeUpdateGatewayGroupCIDOfferSupportResponse(fcrMsg)
	gvEnsures("C04.UpdateGatewayGroupCIDOfferSupportResponse-refuses-other-kinds", func() bool { return err != nil || fcrMsg.messageType == GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType })
	gvEnsures("C04.UpdateGatewayGroupCIDOfferSupportResponse-refuses-malformed-body", func() bool { return err != nil || json.Valid(fcrMsg.messageBody) })
}

//gv:props C04
func contract_KindsDistinct() {
	gvEnsures("C04.message-kinds-distinct", func() bool {
		return ClientDHTDiscoverOfferRequestType != ClientDHTDiscoverOfferResponseType &&
			ClientDHTDiscoverOfferRequestType != ClientDHTDiscoverRequestType &&
			ClientDHTDiscoverOfferRequestType != ClientDHTDiscoverRequestV2Type &&
			ClientDHTDiscoverOfferRequestType != ClientDHTDiscoverResponseType &&
			ClientDHTDiscoverOfferRequestType != ClientDHTDiscoverResponseV2Type &&
			ClientDHTDiscoverOfferRequestType != ClientDHTOfferAckRequestType &&
			ClientDHTDiscoverOfferRequestType != ClientDHTOfferAckResponseType &&
			ClientDHTDiscoverOfferRequestType != ClientEstablishmentRequestType &&
			ClientDHTDiscoverOfferRequestType != ClientEstablishmentResponseType &&
			ClientDHTDiscoverOfferRequestType != ClientStandardDiscoverOfferRequestType &&
			ClientDHTDiscoverOfferRequestType != ClientStandardDiscoverOfferResponseType &&
			ClientDHTDiscoverOfferRequestType != ClientStandardDiscoverRequestType &&
			ClientDHTDiscoverOfferRequestType != ClientStandardDiscoverRequestV2Type &&
			ClientDHTDiscoverOfferRequestType != ClientStandardDiscoverResponseType &&
			ClientDHTDiscoverOfferRequestType != ClientStandardDiscoverResponseV2Type &&
			ClientDHTDiscoverOfferRequestType != GatewayAdminForceRefreshRequestType &&
			ClientDHTDiscoverOfferRequestType != GatewayAdminForceRefreshResponseType &&
			ClientDHTDiscoverOfferRequestType != GatewayAdminGetReputationRequestType &&
			ClientDHTDiscoverOfferRequestType != GatewayAdminGetReputationResponseType &&
			ClientDHTDiscoverOfferRequestType != GatewayAdminInitialiseKeyRequestType &&
			ClientDHTDiscoverOfferRequestType != GatewayAdminInitialiseKeyRequestV2Type &&
			ClientDHTDiscoverOfferRequestType != GatewayAdminInitialiseKeyResponseType &&
			ClientDHTDiscoverOfferRequestType != GatewayAdminListDHTOfferRequestType &&
			ClientDHTDiscoverOfferRequestType != GatewayAdminListDHTOfferResponseType &&
			ClientDHTDiscoverOfferRequestType != GatewayAdminSetReputationRequestType &&
			ClientDHTDiscoverOfferRequestType != GatewayAdminSetReputationResponseType &&
			ClientDHTDiscoverOfferRequestType != GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType &&
			ClientDHTDiscoverOfferRequestType != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			ClientDHTDiscoverOfferRequestType != GatewayDHTDiscoverOfferRequestType &&
			ClientDHTDiscoverOfferRequestType != GatewayDHTDiscoverOfferResponseType &&
			ClientDHTDiscoverOfferRequestType != GatewayDHTDiscoverRequestType &&
			ClientDHTDiscoverOfferRequestType != GatewayDHTDiscoverRequestV2Type &&
			ClientDHTDiscoverOfferRequestType != GatewayDHTDiscoverResponseType &&
			ClientDHTDiscoverOfferRequestType != GatewayDHTDiscoverResponseV2Type &&
			ClientDHTDiscoverOfferRequestType != GatewayListDHTOfferAckType &&
			ClientDHTDiscoverOfferRequestType != GatewayListDHTOfferRequestType &&
			ClientDHTDiscoverOfferRequestType != GatewayListDHTOfferResponseType &&
			ClientDHTDiscoverOfferRequestType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			ClientDHTDiscoverOfferRequestType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			ClientDHTDiscoverOfferRequestType != GatewayPingRequestType &&
			ClientDHTDiscoverOfferRequestType != GatewayPingResponseType &&
			ClientDHTDiscoverOfferRequestType != InvalidMessageResponseType &&
			ClientDHTDiscoverOfferRequestType != ProtocolChangeRequestType &&
			ClientDHTDiscoverOfferRequestType != ProtocolChangeResponseType &&
			ClientDHTDiscoverOfferRequestType != ProviderAdminForceRefreshRequestType &&
			ClientDHTDiscoverOfferRequestType != ProviderAdminForceRefreshResponseType &&
			ClientDHTDiscoverOfferRequestType != ProviderAdminGetPublishedOfferRequestType &&
			ClientDHTDiscoverOfferRequestType != ProviderAdminGetPublishedOfferResponseType &&
			ClientDHTDiscoverOfferRequestType != ProviderAdminInitialiseKeyRequestType &&
			ClientDHTDiscoverOfferRequestType != ProviderAdminInitialiseKeyRequestV2Type &&
			ClientDHTDiscoverOfferRequestType != ProviderAdminInitialiseKeyResponseType &&
			ClientDHTDiscoverOfferRequestType != ProviderAdminPublishDHTOfferRequestType &&
			ClientDHTDiscoverOfferRequestType != ProviderAdminPublishDHTOfferResponseType &&
			ClientDHTDiscoverOfferRequestType != ProviderAdminPublishGroupOfferRequestType &&
			ClientDHTDiscoverOfferRequestType != ProviderAdminPublishGroupOfferResponseType &&
			ClientDHTDiscoverOfferRequestType != ProviderPublishDHTOfferRequestType &&
			ClientDHTDiscoverOfferRequestType != ProviderPublishDHTOfferResponseType &&
			ClientDHTDiscoverOfferRequestType != ProviderPublishGroupOfferRequestType &&
			ClientDHTDiscoverOfferRequestType != ProviderPublishGroupOfferResponseType &&
			ClientDHTDiscoverOfferResponseType != ClientDHTDiscoverRequestType &&
			ClientDHTDiscoverOfferResponseType != ClientDHTDiscoverRequestV2Type &&
			ClientDHTDiscoverOfferResponseType != ClientDHTDiscoverResponseType &&
			ClientDHTDiscoverOfferResponseType != ClientDHTDiscoverResponseV2Type &&
			ClientDHTDiscoverOfferResponseType != ClientDHTOfferAckRequestType &&
			ClientDHTDiscoverOfferResponseType != ClientDHTOfferAckResponseType &&
			ClientDHTDiscoverOfferResponseType != ClientEstablishmentRequestType &&
			ClientDHTDiscoverOfferResponseType != ClientEstablishmentResponseType &&
			ClientDHTDiscoverOfferResponseType != ClientStandardDiscoverOfferRequestType &&
			ClientDHTDiscoverOfferResponseType != ClientStandardDiscoverOfferResponseType &&
			ClientDHTDiscoverOfferResponseType != ClientStandardDiscoverRequestType &&
			ClientDHTDiscoverOfferResponseType != ClientStandardDiscoverRequestV2Type &&
			ClientDHTDiscoverOfferResponseType != ClientStandardDiscoverResponseType &&
			ClientDHTDiscoverOfferResponseType != ClientStandardDiscoverResponseV2Type &&
			ClientDHTDiscoverOfferResponseType != GatewayAdminForceRefreshRequestType &&
			ClientDHTDiscoverOfferResponseType != GatewayAdminForceRefreshResponseType &&
			ClientDHTDiscoverOfferResponseType != GatewayAdminGetReputationRequestType &&
			ClientDHTDiscoverOfferResponseType != GatewayAdminGetReputationResponseType &&
			ClientDHTDiscoverOfferResponseType != GatewayAdminInitialiseKeyRequestType &&
			ClientDHTDiscoverOfferResponseType != GatewayAdminInitialiseKeyRequestV2Type &&
			ClientDHTDiscoverOfferResponseType != GatewayAdminInitialiseKeyResponseType &&
			ClientDHTDiscoverOfferResponseType != GatewayAdminListDHTOfferRequestType &&
			ClientDHTDiscoverOfferResponseType != GatewayAdminListDHTOfferResponseType &&
			ClientDHTDiscoverOfferResponseType != GatewayAdminSetReputationRequestType &&
			ClientDHTDiscoverOfferResponseType != GatewayAdminSetReputationResponseType &&
			ClientDHTDiscoverOfferResponseType != GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType &&
			ClientDHTDiscoverOfferResponseType != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			ClientDHTDiscoverOfferResponseType != GatewayDHTDiscoverOfferRequestType &&
			ClientDHTDiscoverOfferResponseType != GatewayDHTDiscoverOfferResponseType &&
			ClientDHTDiscoverOfferResponseType != GatewayDHTDiscoverRequestType &&
			ClientDHTDiscoverOfferResponseType != GatewayDHTDiscoverRequestV2Type &&
			ClientDHTDiscoverOfferResponseType != GatewayDHTDiscoverResponseType &&
			ClientDHTDiscoverOfferResponseType != GatewayDHTDiscoverResponseV2Type &&
			ClientDHTDiscoverOfferResponseType != GatewayListDHTOfferAckType &&
			ClientDHTDiscoverOfferResponseType != GatewayListDHTOfferRequestType &&
			ClientDHTDiscoverOfferResponseType != GatewayListDHTOfferResponseType &&
			ClientDHTDiscoverOfferResponseType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			ClientDHTDiscoverOfferResponseType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			ClientDHTDiscoverOfferResponseType != GatewayPingRequestType &&
			ClientDHTDiscoverOfferResponseType != GatewayPingResponseType &&
			ClientDHTDiscoverOfferResponseType != InvalidMessageResponseType
	})
	gvEnsures("C04.message-kinds-distinct", func() bool {
		return ClientDHTDiscoverOfferResponseType != ProtocolChangeRequestType &&
			ClientDHTDiscoverOfferResponseType != ProtocolChangeResponseType &&
			ClientDHTDiscoverOfferResponseType != ProviderAdminForceRefreshRequestType &&
			ClientDHTDiscoverOfferResponseType != ProviderAdminForceRefreshResponseType &&
			ClientDHTDiscoverOfferResponseType != ProviderAdminGetPublishedOfferRequestType &&
			ClientDHTDiscoverOfferResponseType != ProviderAdminGetPublishedOfferResponseType &&
			ClientDHTDiscoverOfferResponseType != ProviderAdminInitialiseKeyRequestType &&
			ClientDHTDiscoverOfferResponseType != ProviderAdminInitialiseKeyRequestV2Type &&
			ClientDHTDiscoverOfferResponseType != ProviderAdminInitialiseKeyResponseType &&
			ClientDHTDiscoverOfferResponseType != ProviderAdminPublishDHTOfferRequestType &&
			ClientDHTDiscoverOfferResponseType != ProviderAdminPublishDHTOfferResponseType &&
			ClientDHTDiscoverOfferResponseType != ProviderAdminPublishGroupOfferRequestType &&
			ClientDHTDiscoverOfferResponseType != ProviderAdminPublishGroupOfferResponseType &&
			ClientDHTDiscoverOfferResponseType != ProviderPublishDHTOfferRequestType &&
			ClientDHTDiscoverOfferResponseType != ProviderPublishDHTOfferResponseType &&
			ClientDHTDiscoverOfferResponseType != ProviderPublishGroupOfferRequestType &&
			ClientDHTDiscoverOfferResponseType != ProviderPublishGroupOfferResponseType &&
			ClientDHTDiscoverRequestType != ClientDHTDiscoverRequestV2Type &&
			ClientDHTDiscoverRequestType != ClientDHTDiscoverResponseType &&
			ClientDHTDiscoverRequestType != ClientDHTDiscoverResponseV2Type &&
			ClientDHTDiscoverRequestType != ClientDHTOfferAckRequestType &&
			ClientDHTDiscoverRequestType != ClientDHTOfferAckResponseType &&
			ClientDHTDiscoverRequestType != ClientEstablishmentRequestType &&
			ClientDHTDiscoverRequestType != ClientEstablishmentResponseType &&
			ClientDHTDiscoverRequestType != ClientStandardDiscoverOfferRequestType &&
			ClientDHTDiscoverRequestType != ClientStandardDiscoverOfferResponseType &&
			ClientDHTDiscoverRequestType != ClientStandardDiscoverRequestType &&
			ClientDHTDiscoverRequestType != ClientStandardDiscoverRequestV2Type &&
			ClientDHTDiscoverRequestType != ClientStandardDiscoverResponseType &&
			ClientDHTDiscoverRequestType != ClientStandardDiscoverResponseV2Type &&
			ClientDHTDiscoverRequestType != GatewayAdminForceRefreshRequestType &&
			ClientDHTDiscoverRequestType != GatewayAdminForceRefreshResponseType &&
			ClientDHTDiscoverRequestType != GatewayAdminGetReputationRequestType &&
			ClientDHTDiscoverRequestType != GatewayAdminGetReputationResponseType &&
			ClientDHTDiscoverRequestType != GatewayAdminInitialiseKeyRequestType &&
			ClientDHTDiscoverRequestType != GatewayAdminInitialiseKeyRequestV2Type &&
			ClientDHTDiscoverRequestType != GatewayAdminInitialiseKeyResponseType &&
			ClientDHTDiscoverRequestType != GatewayAdminListDHTOfferRequestType &&
			ClientDHTDiscoverRequestType != GatewayAdminListDHTOfferResponseType &&
			ClientDHTDiscoverRequestType != GatewayAdminSetReputationRequestType &&
			ClientDHTDiscoverRequestType != GatewayAdminSetReputationResponseType &&
			ClientDHTDiscoverRequestType != GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType &&
			ClientDHTDiscoverRequestType != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			ClientDHTDiscoverRequestType != GatewayDHTDiscoverOfferRequestType &&
			ClientDHTDiscoverRequestType != GatewayDHTDiscoverOfferResponseType &&
			ClientDHTDiscoverRequestType != GatewayDHTDiscoverRequestType &&
			ClientDHTDiscoverRequestType != GatewayDHTDiscoverRequestV2Type &&
			ClientDHTDiscoverRequestType != GatewayDHTDiscoverResponseType &&
			ClientDHTDiscoverRequestType != GatewayDHTDiscoverResponseV2Type &&
			ClientDHTDiscoverRequestType != GatewayListDHTOfferAckType &&
			ClientDHTDiscoverRequestType != GatewayListDHTOfferRequestType &&
			ClientDHTDiscoverRequestType != GatewayListDHTOfferResponseType &&
			ClientDHTDiscoverRequestType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			ClientDHTDiscoverRequestType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			ClientDHTDiscoverRequestType != GatewayPingRequestType &&
			ClientDHTDiscoverRequestType != GatewayPingResponseType &&
			ClientDHTDiscoverRequestType != InvalidMessageResponseType &&
			ClientDHTDiscoverRequestType != ProtocolChangeRequestType &&
			ClientDHTDiscoverRequestType != ProtocolChangeResponseType &&
			ClientDHTDiscoverRequestType != ProviderAdminForceRefreshRequestType &&
			ClientDHTDiscoverRequestType != ProviderAdminForceRefreshResponseType &&
			ClientDHTDiscoverRequestType != ProviderAdminGetPublishedOfferRequestType &&
			ClientDHTDiscoverRequestType != ProviderAdminGetPublishedOfferResponseType &&
			ClientDHTDiscoverRequestType != ProviderAdminInitialiseKeyRequestType &&
			ClientDHTDiscoverRequestType != ProviderAdminInitialiseKeyRequestV2Type &&
			ClientDHTDiscoverRequestType != ProviderAdminInitialiseKeyResponseType &&
			ClientDHTDiscoverRequestType != ProviderAdminPublishDHTOfferRequestType &&
			ClientDHTDiscoverRequestType != ProviderAdminPublishDHTOfferResponseType &&
			ClientDHTDiscoverRequestType != ProviderAdminPublishGroupOfferRequestType &&
			ClientDHTDiscoverRequestType != ProviderAdminPublishGroupOfferResponseType &&
			ClientDHTDiscoverRequestType != ProviderPublishDHTOfferRequestType &&
			ClientDHTDiscoverRequestType != ProviderPublishDHTOfferResponseType &&
			ClientDHTDiscoverRequestType != ProviderPublishGroupOfferRequestType &&
			ClientDHTDiscoverRequestType != ProviderPublishGroupOfferResponseType &&
			ClientDHTDiscoverRequestV2Type != ClientDHTDiscoverResponseType &&
			ClientDHTDiscoverRequestV2Type != ClientDHTDiscoverResponseV2Type &&
			ClientDHTDiscoverRequestV2Type != ClientDHTOfferAckRequestType &&
			ClientDHTDiscoverRequestV2Type != ClientDHTOfferAckResponseType &&
			ClientDHTDiscoverRequestV2Type != ClientEstablishmentRequestType &&
			ClientDHTDiscoverRequestV2Type != ClientEstablishmentResponseType &&
			ClientDHTDiscoverRequestV2Type != ClientStandardDiscoverOfferRequestType &&
			ClientDHTDiscoverRequestV2Type != ClientStandardDiscoverOfferResponseType &&
			ClientDHTDiscoverRequestV2Type != ClientStandardDiscoverRequestType &&
			ClientDHTDiscoverRequestV2Type != ClientStandardDiscoverRequestV2Type &&
			ClientDHTDiscoverRequestV2Type != ClientStandardDiscoverResponseType &&
			ClientDHTDiscoverRequestV2Type != ClientStandardDiscoverResponseV2Type &&
			ClientDHTDiscoverRequestV2Type != GatewayAdminForceRefreshRequestType &&
			ClientDHTDiscoverRequestV2Type != GatewayAdminForceRefreshResponseType &&
			ClientDHTDiscoverRequestV2Type != GatewayAdminGetReputationRequestType &&
			ClientDHTDiscoverRequestV2Type != GatewayAdminGetReputationResponseType &&
			ClientDHTDiscoverRequestV2Type != GatewayAdminInitialiseKeyRequestType &&
			ClientDHTDiscoverRequestV2Type != GatewayAdminInitialiseKeyRequestV2Type &&
			ClientDHTDiscoverRequestV2Type != GatewayAdminInitialiseKeyResponseType &&
			ClientDHTDiscoverRequestV2Type != GatewayAdminListDHTOfferRequestType &&
			ClientDHTDiscoverRequestV2Type != GatewayAdminListDHTOfferResponseType &&
			ClientDHTDiscoverRequestV2Type != GatewayAdminSetReputationRequestType &&
			ClientDHTDiscoverRequestV2Type != GatewayAdminSetReputationResponseType &&
			ClientDHTDiscoverRequestV2Type != GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType &&
			ClientDHTDiscoverRequestV2Type != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			ClientDHTDiscoverRequestV2Type != GatewayDHTDiscoverOfferRequestType
	})
	gvEnsures("C04.message-kinds-distinct", func() bool {
		return ClientDHTDiscoverRequestV2Type != GatewayDHTDiscoverOfferResponseType &&
			ClientDHTDiscoverRequestV2Type != GatewayDHTDiscoverRequestType &&
			ClientDHTDiscoverRequestV2Type != GatewayDHTDiscoverRequestV2Type &&
			ClientDHTDiscoverRequestV2Type != GatewayDHTDiscoverResponseType &&
			ClientDHTDiscoverRequestV2Type != GatewayDHTDiscoverResponseV2Type &&
			ClientDHTDiscoverRequestV2Type != GatewayListDHTOfferAckType &&
			ClientDHTDiscoverRequestV2Type != GatewayListDHTOfferRequestType &&
			ClientDHTDiscoverRequestV2Type != GatewayListDHTOfferResponseType &&
			ClientDHTDiscoverRequestV2Type != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			ClientDHTDiscoverRequestV2Type != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			ClientDHTDiscoverRequestV2Type != GatewayPingRequestType &&
			ClientDHTDiscoverRequestV2Type != GatewayPingResponseType &&
			ClientDHTDiscoverRequestV2Type != InvalidMessageResponseType &&
			ClientDHTDiscoverRequestV2Type != ProtocolChangeRequestType &&
			ClientDHTDiscoverRequestV2Type != ProtocolChangeResponseType &&
			ClientDHTDiscoverRequestV2Type != ProviderAdminForceRefreshRequestType &&
			ClientDHTDiscoverRequestV2Type != ProviderAdminForceRefreshResponseType &&
			ClientDHTDiscoverRequestV2Type != ProviderAdminGetPublishedOfferRequestType &&
			ClientDHTDiscoverRequestV2Type != ProviderAdminGetPublishedOfferResponseType &&
			ClientDHTDiscoverRequestV2Type != ProviderAdminInitialiseKeyRequestType &&
			ClientDHTDiscoverRequestV2Type != ProviderAdminInitialiseKeyRequestV2Type &&
			ClientDHTDiscoverRequestV2Type != ProviderAdminInitialiseKeyResponseType &&
			ClientDHTDiscoverRequestV2Type != ProviderAdminPublishDHTOfferRequestType &&
			ClientDHTDiscoverRequestV2Type != ProviderAdminPublishDHTOfferResponseType &&
			ClientDHTDiscoverRequestV2Type != ProviderAdminPublishGroupOfferRequestType &&
			ClientDHTDiscoverRequestV2Type != ProviderAdminPublishGroupOfferResponseType &&
			ClientDHTDiscoverRequestV2Type != ProviderPublishDHTOfferRequestType &&
			ClientDHTDiscoverRequestV2Type != ProviderPublishDHTOfferResponseType &&
			ClientDHTDiscoverRequestV2Type != ProviderPublishGroupOfferRequestType &&
			ClientDHTDiscoverRequestV2Type != ProviderPublishGroupOfferResponseType &&
			ClientDHTDiscoverResponseType != ClientDHTDiscoverResponseV2Type &&
			ClientDHTDiscoverResponseType != ClientDHTOfferAckRequestType &&
			ClientDHTDiscoverResponseType != ClientDHTOfferAckResponseType &&
			ClientDHTDiscoverResponseType != ClientEstablishmentRequestType &&
			ClientDHTDiscoverResponseType != ClientEstablishmentResponseType &&
			ClientDHTDiscoverResponseType != ClientStandardDiscoverOfferRequestType &&
			ClientDHTDiscoverResponseType != ClientStandardDiscoverOfferResponseType &&
			ClientDHTDiscoverResponseType != ClientStandardDiscoverRequestType &&
			ClientDHTDiscoverResponseType != ClientStandardDiscoverRequestV2Type &&
			ClientDHTDiscoverResponseType != ClientStandardDiscoverResponseType &&
			ClientDHTDiscoverResponseType != ClientStandardDiscoverResponseV2Type &&
			ClientDHTDiscoverResponseType != GatewayAdminForceRefreshRequestType &&
			ClientDHTDiscoverResponseType != GatewayAdminForceRefreshResponseType &&
			ClientDHTDiscoverResponseType != GatewayAdminGetReputationRequestType &&
			ClientDHTDiscoverResponseType != GatewayAdminGetReputationResponseType &&
			ClientDHTDiscoverResponseType != GatewayAdminInitialiseKeyRequestType &&
			ClientDHTDiscoverResponseType != GatewayAdminInitialiseKeyRequestV2Type &&
			ClientDHTDiscoverResponseType != GatewayAdminInitialiseKeyResponseType &&
			ClientDHTDiscoverResponseType != GatewayAdminListDHTOfferRequestType &&
			ClientDHTDiscoverResponseType != GatewayAdminListDHTOfferResponseType &&
			ClientDHTDiscoverResponseType != GatewayAdminSetReputationRequestType &&
			ClientDHTDiscoverResponseType != GatewayAdminSetReputationResponseType &&
			ClientDHTDiscoverResponseType != GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType &&
			ClientDHTDiscoverResponseType != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			ClientDHTDiscoverResponseType != GatewayDHTDiscoverOfferRequestType &&
			ClientDHTDiscoverResponseType != GatewayDHTDiscoverOfferResponseType &&
			ClientDHTDiscoverResponseType != GatewayDHTDiscoverRequestType &&
			ClientDHTDiscoverResponseType != GatewayDHTDiscoverRequestV2Type &&
			ClientDHTDiscoverResponseType != GatewayDHTDiscoverResponseType &&
			ClientDHTDiscoverResponseType != GatewayDHTDiscoverResponseV2Type &&
			ClientDHTDiscoverResponseType != GatewayListDHTOfferAckType &&
			ClientDHTDiscoverResponseType != GatewayListDHTOfferRequestType &&
			ClientDHTDiscoverResponseType != GatewayListDHTOfferResponseType &&
			ClientDHTDiscoverResponseType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			ClientDHTDiscoverResponseType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			ClientDHTDiscoverResponseType != GatewayPingRequestType &&
			ClientDHTDiscoverResponseType != GatewayPingResponseType &&
			ClientDHTDiscoverResponseType != InvalidMessageResponseType &&
			ClientDHTDiscoverResponseType != ProtocolChangeRequestType &&
			ClientDHTDiscoverResponseType != ProtocolChangeResponseType &&
			ClientDHTDiscoverResponseType != ProviderAdminForceRefreshRequestType &&
			ClientDHTDiscoverResponseType != ProviderAdminForceRefreshResponseType &&
			ClientDHTDiscoverResponseType != ProviderAdminGetPublishedOfferRequestType &&
			ClientDHTDiscoverResponseType != ProviderAdminGetPublishedOfferResponseType &&
			ClientDHTDiscoverResponseType != ProviderAdminInitialiseKeyRequestType &&
			ClientDHTDiscoverResponseType != ProviderAdminInitialiseKeyRequestV2Type &&
			ClientDHTDiscoverResponseType != ProviderAdminInitialiseKeyResponseType &&
			ClientDHTDiscoverResponseType != ProviderAdminPublishDHTOfferRequestType &&
			ClientDHTDiscoverResponseType != ProviderAdminPublishDHTOfferResponseType &&
			ClientDHTDiscoverResponseType != ProviderAdminPublishGroupOfferRequestType &&
			ClientDHTDiscoverResponseType != ProviderAdminPublishGroupOfferResponseType &&
			ClientDHTDiscoverResponseType != ProviderPublishDHTOfferRequestType &&
			ClientDHTDiscoverResponseType != ProviderPublishDHTOfferResponseType &&
			ClientDHTDiscoverResponseType != ProviderPublishGroupOfferRequestType &&
			ClientDHTDiscoverResponseType != ProviderPublishGroupOfferResponseType &&
			ClientDHTDiscoverResponseV2Type != ClientDHTOfferAckRequestType &&
			ClientDHTDiscoverResponseV2Type != ClientDHTOfferAckResponseType &&
			ClientDHTDiscoverResponseV2Type != ClientEstablishmentRequestType &&
			ClientDHTDiscoverResponseV2Type != ClientEstablishmentResponseType &&
			ClientDHTDiscoverResponseV2Type != ClientStandardDiscoverOfferRequestType &&
			ClientDHTDiscoverResponseV2Type != ClientStandardDiscoverOfferResponseType &&
			ClientDHTDiscoverResponseV2Type != ClientStandardDiscoverRequestType &&
			ClientDHTDiscoverResponseV2Type != ClientStandardDiscoverRequestV2Type &&
			ClientDHTDiscoverResponseV2Type != ClientStandardDiscoverResponseType &&
			ClientDHTDiscoverResponseV2Type != ClientStandardDiscoverResponseV2Type &&
			ClientDHTDiscoverResponseV2Type != GatewayAdminForceRefreshRequestType &&
			ClientDHTDiscoverResponseV2Type != GatewayAdminForceRefreshResponseType &&
			ClientDHTDiscoverResponseV2Type != GatewayAdminGetReputationRequestType &&
			ClientDHTDiscoverResponseV2Type != GatewayAdminGetReputationResponseType &&
			ClientDHTDiscoverResponseV2Type != GatewayAdminInitialiseKeyRequestType
	})
	gvEnsures("C04.message-kinds-distinct", func() bool {
		return ClientDHTDiscoverResponseV2Type != GatewayAdminInitialiseKeyRequestV2Type &&
			ClientDHTDiscoverResponseV2Type != GatewayAdminInitialiseKeyResponseType &&
			ClientDHTDiscoverResponseV2Type != GatewayAdminListDHTOfferRequestType &&
			ClientDHTDiscoverResponseV2Type != GatewayAdminListDHTOfferResponseType &&
			ClientDHTDiscoverResponseV2Type != GatewayAdminSetReputationRequestType &&
			ClientDHTDiscoverResponseV2Type != GatewayAdminSetReputationResponseType &&
			ClientDHTDiscoverResponseV2Type != GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType &&
			ClientDHTDiscoverResponseV2Type != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			ClientDHTDiscoverResponseV2Type != GatewayDHTDiscoverOfferRequestType &&
			ClientDHTDiscoverResponseV2Type != GatewayDHTDiscoverOfferResponseType &&
			ClientDHTDiscoverResponseV2Type != GatewayDHTDiscoverRequestType &&
			ClientDHTDiscoverResponseV2Type != GatewayDHTDiscoverRequestV2Type &&
			ClientDHTDiscoverResponseV2Type != GatewayDHTDiscoverResponseType &&
			ClientDHTDiscoverResponseV2Type != GatewayDHTDiscoverResponseV2Type &&
			ClientDHTDiscoverResponseV2Type != GatewayListDHTOfferAckType &&
			ClientDHTDiscoverResponseV2Type != GatewayListDHTOfferRequestType &&
			ClientDHTDiscoverResponseV2Type != GatewayListDHTOfferResponseType &&
			ClientDHTDiscoverResponseV2Type != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			ClientDHTDiscoverResponseV2Type != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			ClientDHTDiscoverResponseV2Type != GatewayPingRequestType &&
			ClientDHTDiscoverResponseV2Type != GatewayPingResponseType &&
			ClientDHTDiscoverResponseV2Type != InvalidMessageResponseType &&
			ClientDHTDiscoverResponseV2Type != ProtocolChangeRequestType &&
			ClientDHTDiscoverResponseV2Type != ProtocolChangeResponseType &&
			ClientDHTDiscoverResponseV2Type != ProviderAdminForceRefreshRequestType &&
			ClientDHTDiscoverResponseV2Type != ProviderAdminForceRefreshResponseType &&
			ClientDHTDiscoverResponseV2Type != ProviderAdminGetPublishedOfferRequestType &&
			ClientDHTDiscoverResponseV2Type != ProviderAdminGetPublishedOfferResponseType &&
			ClientDHTDiscoverResponseV2Type != ProviderAdminInitialiseKeyRequestType &&
			ClientDHTDiscoverResponseV2Type != ProviderAdminInitialiseKeyRequestV2Type &&
			ClientDHTDiscoverResponseV2Type != ProviderAdminInitialiseKeyResponseType &&
			ClientDHTDiscoverResponseV2Type != ProviderAdminPublishDHTOfferRequestType &&
			ClientDHTDiscoverResponseV2Type != ProviderAdminPublishDHTOfferResponseType &&
			ClientDHTDiscoverResponseV2Type != ProviderAdminPublishGroupOfferRequestType &&
			ClientDHTDiscoverResponseV2Type != ProviderAdminPublishGroupOfferResponseType &&
			ClientDHTDiscoverResponseV2Type != ProviderPublishDHTOfferRequestType &&
			ClientDHTDiscoverResponseV2Type != ProviderPublishDHTOfferResponseType &&
			ClientDHTDiscoverResponseV2Type != ProviderPublishGroupOfferRequestType &&
			ClientDHTDiscoverResponseV2Type != ProviderPublishGroupOfferResponseType &&
			ClientDHTOfferAckRequestType != ClientDHTOfferAckResponseType &&
			ClientDHTOfferAckRequestType != ClientEstablishmentRequestType &&
			ClientDHTOfferAckRequestType != ClientEstablishmentResponseType &&
			ClientDHTOfferAckRequestType != ClientStandardDiscoverOfferRequestType &&
			ClientDHTOfferAckRequestType != ClientStandardDiscoverOfferResponseType &&
			ClientDHTOfferAckRequestType != ClientStandardDiscoverRequestType &&
			ClientDHTOfferAckRequestType != ClientStandardDiscoverRequestV2Type &&
			ClientDHTOfferAckRequestType != ClientStandardDiscoverResponseType &&
			ClientDHTOfferAckRequestType != ClientStandardDiscoverResponseV2Type &&
			ClientDHTOfferAckRequestType != GatewayAdminForceRefreshRequestType &&
			ClientDHTOfferAckRequestType != GatewayAdminForceRefreshResponseType &&
			ClientDHTOfferAckRequestType != GatewayAdminGetReputationRequestType &&
			ClientDHTOfferAckRequestType != GatewayAdminGetReputationResponseType &&
			ClientDHTOfferAckRequestType != GatewayAdminInitialiseKeyRequestType &&
			ClientDHTOfferAckRequestType != GatewayAdminInitialiseKeyRequestV2Type &&
			ClientDHTOfferAckRequestType != GatewayAdminInitialiseKeyResponseType &&
			ClientDHTOfferAckRequestType != GatewayAdminListDHTOfferRequestType &&
			ClientDHTOfferAckRequestType != GatewayAdminListDHTOfferResponseType &&
			ClientDHTOfferAckRequestType != GatewayAdminSetReputationRequestType &&
			ClientDHTOfferAckRequestType != GatewayAdminSetReputationResponseType &&
			ClientDHTOfferAckRequestType != GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType &&
			ClientDHTOfferAckRequestType != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			ClientDHTOfferAckRequestType != GatewayDHTDiscoverOfferRequestType &&
			ClientDHTOfferAckRequestType != GatewayDHTDiscoverOfferResponseType &&
			ClientDHTOfferAckRequestType != GatewayDHTDiscoverRequestType &&
			ClientDHTOfferAckRequestType != GatewayDHTDiscoverRequestV2Type &&
			ClientDHTOfferAckRequestType != GatewayDHTDiscoverResponseType &&
			ClientDHTOfferAckRequestType != GatewayDHTDiscoverResponseV2Type &&
			ClientDHTOfferAckRequestType != GatewayListDHTOfferAckType &&
			ClientDHTOfferAckRequestType != GatewayListDHTOfferRequestType &&
			ClientDHTOfferAckRequestType != GatewayListDHTOfferResponseType &&
			ClientDHTOfferAckRequestType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			ClientDHTOfferAckRequestType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			ClientDHTOfferAckRequestType != GatewayPingRequestType &&
			ClientDHTOfferAckRequestType != GatewayPingResponseType &&
			ClientDHTOfferAckRequestType != InvalidMessageResponseType &&
			ClientDHTOfferAckRequestType != ProtocolChangeRequestType &&
			ClientDHTOfferAckRequestType != ProtocolChangeResponseType &&
			ClientDHTOfferAckRequestType != ProviderAdminForceRefreshRequestType &&
			ClientDHTOfferAckRequestType != ProviderAdminForceRefreshResponseType &&
			ClientDHTOfferAckRequestType != ProviderAdminGetPublishedOfferRequestType &&
			ClientDHTOfferAckRequestType != ProviderAdminGetPublishedOfferResponseType &&
			ClientDHTOfferAckRequestType != ProviderAdminInitialiseKeyRequestType &&
			ClientDHTOfferAckRequestType != ProviderAdminInitialiseKeyRequestV2Type &&
			ClientDHTOfferAckRequestType != ProviderAdminInitialiseKeyResponseType &&
			ClientDHTOfferAckRequestType != ProviderAdminPublishDHTOfferRequestType &&
			ClientDHTOfferAckRequestType != ProviderAdminPublishDHTOfferResponseType &&
			ClientDHTOfferAckRequestType != ProviderAdminPublishGroupOfferRequestType &&
			ClientDHTOfferAckRequestType != ProviderAdminPublishGroupOfferResponseType &&
			ClientDHTOfferAckRequestType != ProviderPublishDHTOfferRequestType &&
			ClientDHTOfferAckRequestType != ProviderPublishDHTOfferResponseType &&
			ClientDHTOfferAckRequestType != ProviderPublishGroupOfferRequestType &&
			ClientDHTOfferAckRequestType != ProviderPublishGroupOfferResponseType &&
			ClientDHTOfferAckResponseType != ClientEstablishmentRequestType &&
			ClientDHTOfferAckResponseType != ClientEstablishmentResponseType &&
			ClientDHTOfferAckResponseType != ClientStandardDiscoverOfferRequestType &&
			ClientDHTOfferAckResponseType != ClientStandardDiscoverOfferResponseType &&
			ClientDHTOfferAckResponseType != ClientStandardDiscoverRequestType &&
			ClientDHTOfferAckResponseType != ClientStandardDiscoverRequestV2Type &&
			ClientDHTOfferAckResponseType != ClientStandardDiscoverResponseType &&
			ClientDHTOfferAckResponseType != ClientStandardDiscoverResponseV2Type
	})
	gvEnsures("C04.message-kinds-distinct", func() bool {
		return ClientDHTOfferAckResponseType != GatewayAdminForceRefreshRequestType &&
			ClientDHTOfferAckResponseType != GatewayAdminForceRefreshResponseType &&
			ClientDHTOfferAckResponseType != GatewayAdminGetReputationRequestType &&
			ClientDHTOfferAckResponseType != GatewayAdminGetReputationResponseType &&
			ClientDHTOfferAckResponseType != GatewayAdminInitialiseKeyRequestType &&
			ClientDHTOfferAckResponseType != GatewayAdminInitialiseKeyRequestV2Type &&
			ClientDHTOfferAckResponseType != GatewayAdminInitialiseKeyResponseType &&
			ClientDHTOfferAckResponseType != GatewayAdminListDHTOfferRequestType &&
			ClientDHTOfferAckResponseType != GatewayAdminListDHTOfferResponseType &&
			ClientDHTOfferAckResponseType != GatewayAdminSetReputationRequestType &&
			ClientDHTOfferAckResponseType != GatewayAdminSetReputationResponseType &&
			ClientDHTOfferAckResponseType != GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType &&
			ClientDHTOfferAckResponseType != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			ClientDHTOfferAckResponseType != GatewayDHTDiscoverOfferRequestType &&
			ClientDHTOfferAckResponseType != GatewayDHTDiscoverOfferResponseType &&
			ClientDHTOfferAckResponseType != GatewayDHTDiscoverRequestType &&
			ClientDHTOfferAckResponseType != GatewayDHTDiscoverRequestV2Type &&
			ClientDHTOfferAckResponseType != GatewayDHTDiscoverResponseType &&
			ClientDHTOfferAckResponseType != GatewayDHTDiscoverResponseV2Type &&
			ClientDHTOfferAckResponseType != GatewayListDHTOfferAckType &&
			ClientDHTOfferAckResponseType != GatewayListDHTOfferRequestType &&
			ClientDHTOfferAckResponseType != GatewayListDHTOfferResponseType &&
			ClientDHTOfferAckResponseType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			ClientDHTOfferAckResponseType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			ClientDHTOfferAckResponseType != GatewayPingRequestType &&
			ClientDHTOfferAckResponseType != GatewayPingResponseType &&
			ClientDHTOfferAckResponseType != InvalidMessageResponseType &&
			ClientDHTOfferAckResponseType != ProtocolChangeRequestType &&
			ClientDHTOfferAckResponseType != ProtocolChangeResponseType &&
			ClientDHTOfferAckResponseType != ProviderAdminForceRefreshRequestType &&
			ClientDHTOfferAckResponseType != ProviderAdminForceRefreshResponseType &&
			ClientDHTOfferAckResponseType != ProviderAdminGetPublishedOfferRequestType &&
			ClientDHTOfferAckResponseType != ProviderAdminGetPublishedOfferResponseType &&
			ClientDHTOfferAckResponseType != ProviderAdminInitialiseKeyRequestType &&
			ClientDHTOfferAckResponseType != ProviderAdminInitialiseKeyRequestV2Type &&
			ClientDHTOfferAckResponseType != ProviderAdminInitialiseKeyResponseType &&
			ClientDHTOfferAckResponseType != ProviderAdminPublishDHTOfferRequestType &&
			ClientDHTOfferAckResponseType != ProviderAdminPublishDHTOfferResponseType &&
			ClientDHTOfferAckResponseType != ProviderAdminPublishGroupOfferRequestType &&
			ClientDHTOfferAckResponseType != ProviderAdminPublishGroupOfferResponseType &&
			ClientDHTOfferAckResponseType != ProviderPublishDHTOfferRequestType &&
			ClientDHTOfferAckResponseType != ProviderPublishDHTOfferResponseType &&
			ClientDHTOfferAckResponseType != ProviderPublishGroupOfferRequestType &&
			ClientDHTOfferAckResponseType != ProviderPublishGroupOfferResponseType &&
			ClientEstablishmentRequestType != ClientEstablishmentResponseType &&
			ClientEstablishmentRequestType != ClientStandardDiscoverOfferRequestType &&
			ClientEstablishmentRequestType != ClientStandardDiscoverOfferResponseType &&
			ClientEstablishmentRequestType != ClientStandardDiscoverRequestType &&
			ClientEstablishmentRequestType != ClientStandardDiscoverRequestV2Type &&
			ClientEstablishmentRequestType != ClientStandardDiscoverResponseType &&
			ClientEstablishmentRequestType != ClientStandardDiscoverResponseV2Type &&
			ClientEstablishmentRequestType != GatewayAdminForceRefreshRequestType &&
			ClientEstablishmentRequestType != GatewayAdminForceRefreshResponseType &&
			ClientEstablishmentRequestType != GatewayAdminGetReputationRequestType &&
			ClientEstablishmentRequestType != GatewayAdminGetReputationResponseType &&
			ClientEstablishmentRequestType != GatewayAdminInitialiseKeyRequestType &&
			ClientEstablishmentRequestType != GatewayAdminInitialiseKeyRequestV2Type &&
			ClientEstablishmentRequestType != GatewayAdminInitialiseKeyResponseType &&
			ClientEstablishmentRequestType != GatewayAdminListDHTOfferRequestType &&
			ClientEstablishmentRequestType != GatewayAdminListDHTOfferResponseType &&
			ClientEstablishmentRequestType != GatewayAdminSetReputationRequestType &&
			ClientEstablishmentRequestType != GatewayAdminSetReputationResponseType &&
			ClientEstablishmentRequestType != GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType &&
			ClientEstablishmentRequestType != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			ClientEstablishmentRequestType != GatewayDHTDiscoverOfferRequestType &&
			ClientEstablishmentRequestType != GatewayDHTDiscoverOfferResponseType &&
			ClientEstablishmentRequestType != GatewayDHTDiscoverRequestType &&
			ClientEstablishmentRequestType != GatewayDHTDiscoverRequestV2Type &&
			ClientEstablishmentRequestType != GatewayDHTDiscoverResponseType &&
			ClientEstablishmentRequestType != GatewayDHTDiscoverResponseV2Type &&
			ClientEstablishmentRequestType != GatewayListDHTOfferAckType &&
			ClientEstablishmentRequestType != GatewayListDHTOfferRequestType &&
			ClientEstablishmentRequestType != GatewayListDHTOfferResponseType &&
			ClientEstablishmentRequestType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			ClientEstablishmentRequestType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			ClientEstablishmentRequestType != GatewayPingRequestType &&
			ClientEstablishmentRequestType != GatewayPingResponseType &&
			ClientEstablishmentRequestType != InvalidMessageResponseType &&
			ClientEstablishmentRequestType != ProtocolChangeRequestType &&
			ClientEstablishmentRequestType != ProtocolChangeResponseType &&
			ClientEstablishmentRequestType != ProviderAdminForceRefreshRequestType &&
			ClientEstablishmentRequestType != ProviderAdminForceRefreshResponseType &&
			ClientEstablishmentRequestType != ProviderAdminGetPublishedOfferRequestType &&
			ClientEstablishmentRequestType != ProviderAdminGetPublishedOfferResponseType &&
			ClientEstablishmentRequestType != ProviderAdminInitialiseKeyRequestType &&
			ClientEstablishmentRequestType != ProviderAdminInitialiseKeyRequestV2Type &&
			ClientEstablishmentRequestType != ProviderAdminInitialiseKeyResponseType &&
			ClientEstablishmentRequestType != ProviderAdminPublishDHTOfferRequestType &&
			ClientEstablishmentRequestType != ProviderAdminPublishDHTOfferResponseType &&
			ClientEstablishmentRequestType != ProviderAdminPublishGroupOfferRequestType &&
			ClientEstablishmentRequestType != ProviderAdminPublishGroupOfferResponseType &&
			ClientEstablishmentRequestType != ProviderPublishDHTOfferRequestType &&
			ClientEstablishmentRequestType != ProviderPublishDHTOfferResponseType &&
			ClientEstablishmentRequestType != ProviderPublishGroupOfferRequestType &&
			ClientEstablishmentRequestType != ProviderPublishGroupOfferResponseType &&
			ClientEstablishmentResponseType != ClientStandardDiscoverOfferRequestType &&
			ClientEstablishmentResponseType != ClientStandardDiscoverOfferResponseType &&
			ClientEstablishmentResponseType != ClientStandardDiscoverRequestType &&
			ClientEstablishmentResponseType != ClientStandardDiscoverRequestV2Type &&
			ClientEstablishmentResponseType != ClientStandardDiscoverResponseType
	})
	gvEnsures("C04.message-kinds-distinct", func() bool {
		return ClientEstablishmentResponseType != ClientStandardDiscoverResponseV2Type &&
			ClientEstablishmentResponseType != GatewayAdminForceRefreshRequestType &&
			ClientEstablishmentResponseType != GatewayAdminForceRefreshResponseType &&
			ClientEstablishmentResponseType != GatewayAdminGetReputationRequestType &&
			ClientEstablishmentResponseType != GatewayAdminGetReputationResponseType &&
			ClientEstablishmentResponseType != GatewayAdminInitialiseKeyRequestType &&
			ClientEstablishmentResponseType != GatewayAdminInitialiseKeyRequestV2Type &&
			ClientEstablishmentResponseType != GatewayAdminInitialiseKeyResponseType &&
			ClientEstablishmentResponseType != GatewayAdminListDHTOfferRequestType &&
			ClientEstablishmentResponseType != GatewayAdminListDHTOfferResponseType &&
			ClientEstablishmentResponseType != GatewayAdminSetReputationRequestType &&
			ClientEstablishmentResponseType != GatewayAdminSetReputationResponseType &&
			ClientEstablishmentResponseType != GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType &&
			ClientEstablishmentResponseType != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			ClientEstablishmentResponseType != GatewayDHTDiscoverOfferRequestType &&
			ClientEstablishmentResponseType != GatewayDHTDiscoverOfferResponseType &&
			ClientEstablishmentResponseType != GatewayDHTDiscoverRequestType &&
			ClientEstablishmentResponseType != GatewayDHTDiscoverRequestV2Type &&
			ClientEstablishmentResponseType != GatewayDHTDiscoverResponseType &&
			ClientEstablishmentResponseType != GatewayDHTDiscoverResponseV2Type &&
			ClientEstablishmentResponseType != GatewayListDHTOfferAckType &&
			ClientEstablishmentResponseType != GatewayListDHTOfferRequestType &&
			ClientEstablishmentResponseType != GatewayListDHTOfferResponseType &&
			ClientEstablishmentResponseType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			ClientEstablishmentResponseType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			ClientEstablishmentResponseType != GatewayPingRequestType &&
			ClientEstablishmentResponseType != GatewayPingResponseType &&
			ClientEstablishmentResponseType != InvalidMessageResponseType &&
			ClientEstablishmentResponseType != ProtocolChangeRequestType &&
			ClientEstablishmentResponseType != ProtocolChangeResponseType &&
			ClientEstablishmentResponseType != ProviderAdminForceRefreshRequestType &&
			ClientEstablishmentResponseType != ProviderAdminForceRefreshResponseType &&
			ClientEstablishmentResponseType != ProviderAdminGetPublishedOfferRequestType &&
			ClientEstablishmentResponseType != ProviderAdminGetPublishedOfferResponseType &&
			ClientEstablishmentResponseType != ProviderAdminInitialiseKeyRequestType &&
			ClientEstablishmentResponseType != ProviderAdminInitialiseKeyRequestV2Type &&
			ClientEstablishmentResponseType != ProviderAdminInitialiseKeyResponseType &&
			ClientEstablishmentResponseType != ProviderAdminPublishDHTOfferRequestType &&
			ClientEstablishmentResponseType != ProviderAdminPublishDHTOfferResponseType &&
			ClientEstablishmentResponseType != ProviderAdminPublishGroupOfferRequestType &&
			ClientEstablishmentResponseType != ProviderAdminPublishGroupOfferResponseType &&
			ClientEstablishmentResponseType != ProviderPublishDHTOfferRequestType &&
			ClientEstablishmentResponseType != ProviderPublishDHTOfferResponseType &&
			ClientEstablishmentResponseType != ProviderPublishGroupOfferRequestType &&
			ClientEstablishmentResponseType != ProviderPublishGroupOfferResponseType &&
			ClientStandardDiscoverOfferRequestType != ClientStandardDiscoverOfferResponseType &&
			ClientStandardDiscoverOfferRequestType != ClientStandardDiscoverRequestType &&
			ClientStandardDiscoverOfferRequestType != ClientStandardDiscoverRequestV2Type &&
			ClientStandardDiscoverOfferRequestType != ClientStandardDiscoverResponseType &&
			ClientStandardDiscoverOfferRequestType != ClientStandardDiscoverResponseV2Type &&
			ClientStandardDiscoverOfferRequestType != GatewayAdminForceRefreshRequestType &&
			ClientStandardDiscoverOfferRequestType != GatewayAdminForceRefreshResponseType &&
			ClientStandardDiscoverOfferRequestType != GatewayAdminGetReputationRequestType &&
			ClientStandardDiscoverOfferRequestType != GatewayAdminGetReputationResponseType &&
			ClientStandardDiscoverOfferRequestType != GatewayAdminInitialiseKeyRequestType &&
			ClientStandardDiscoverOfferRequestType != GatewayAdminInitialiseKeyRequestV2Type &&
			ClientStandardDiscoverOfferRequestType != GatewayAdminInitialiseKeyResponseType &&
			ClientStandardDiscoverOfferRequestType != GatewayAdminListDHTOfferRequestType &&
			ClientStandardDiscoverOfferRequestType != GatewayAdminListDHTOfferResponseType &&
			ClientStandardDiscoverOfferRequestType != GatewayAdminSetReputationRequestType &&
			ClientStandardDiscoverOfferRequestType != GatewayAdminSetReputationResponseType &&
			ClientStandardDiscoverOfferRequestType != GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType &&
			ClientStandardDiscoverOfferRequestType != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			ClientStandardDiscoverOfferRequestType != GatewayDHTDiscoverOfferRequestType &&
			ClientStandardDiscoverOfferRequestType != GatewayDHTDiscoverOfferResponseType &&
			ClientStandardDiscoverOfferRequestType != GatewayDHTDiscoverRequestType &&
			ClientStandardDiscoverOfferRequestType != GatewayDHTDiscoverRequestV2Type &&
			ClientStandardDiscoverOfferRequestType != GatewayDHTDiscoverResponseType &&
			ClientStandardDiscoverOfferRequestType != GatewayDHTDiscoverResponseV2Type &&
			ClientStandardDiscoverOfferRequestType != GatewayListDHTOfferAckType &&
			ClientStandardDiscoverOfferRequestType != GatewayListDHTOfferRequestType &&
			ClientStandardDiscoverOfferRequestType != GatewayListDHTOfferResponseType &&
			ClientStandardDiscoverOfferRequestType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			ClientStandardDiscoverOfferRequestType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			ClientStandardDiscoverOfferRequestType != GatewayPingRequestType &&
			ClientStandardDiscoverOfferRequestType != GatewayPingResponseType &&
			ClientStandardDiscoverOfferRequestType != InvalidMessageResponseType &&
			ClientStandardDiscoverOfferRequestType != ProtocolChangeRequestType &&
			ClientStandardDiscoverOfferRequestType != ProtocolChangeResponseType &&
			ClientStandardDiscoverOfferRequestType != ProviderAdminForceRefreshRequestType &&
			ClientStandardDiscoverOfferRequestType != ProviderAdminForceRefreshResponseType &&
			ClientStandardDiscoverOfferRequestType != ProviderAdminGetPublishedOfferRequestType &&
			ClientStandardDiscoverOfferRequestType != ProviderAdminGetPublishedOfferResponseType &&
			ClientStandardDiscoverOfferRequestType != ProviderAdminInitialiseKeyRequestType &&
			ClientStandardDiscoverOfferRequestType != ProviderAdminInitialiseKeyRequestV2Type &&
			ClientStandardDiscoverOfferRequestType != ProviderAdminInitialiseKeyResponseType &&
			ClientStandardDiscoverOfferRequestType != ProviderAdminPublishDHTOfferRequestType &&
			ClientStandardDiscoverOfferRequestType != ProviderAdminPublishDHTOfferResponseType &&
			ClientStandardDiscoverOfferRequestType != ProviderAdminPublishGroupOfferRequestType &&
			ClientStandardDiscoverOfferRequestType != ProviderAdminPublishGroupOfferResponseType &&
			ClientStandardDiscoverOfferRequestType != ProviderPublishDHTOfferRequestType &&
			ClientStandardDiscoverOfferRequestType != ProviderPublishDHTOfferResponseType &&
			ClientStandardDiscoverOfferRequestType != ProviderPublishGroupOfferRequestType &&
			ClientStandardDiscoverOfferRequestType != ProviderPublishGroupOfferResponseType &&
			ClientStandardDiscoverOfferResponseType != ClientStandardDiscoverRequestType &&
			ClientStandardDiscoverOfferResponseType != ClientStandardDiscoverRequestV2Type &&
			ClientStandardDiscoverOfferResponseType != ClientStandardDiscoverResponseType &&
			ClientStandardDiscoverOfferResponseType != ClientStandardDiscoverResponseV2Type &&
			ClientStandardDiscoverOfferResponseType != GatewayAdminForceRefreshRequestType &&
			ClientStandardDiscoverOfferResponseType != GatewayAdminForceRefreshResponseType
	})
	gvEnsures("C04.message-kinds-distinct", func() bool {
		return ClientStandardDiscoverOfferResponseType != GatewayAdminGetReputationRequestType &&
			ClientStandardDiscoverOfferResponseType != GatewayAdminGetReputationResponseType &&
			ClientStandardDiscoverOfferResponseType != GatewayAdminInitialiseKeyRequestType &&
			ClientStandardDiscoverOfferResponseType != GatewayAdminInitialiseKeyRequestV2Type &&
			ClientStandardDiscoverOfferResponseType != GatewayAdminInitialiseKeyResponseType &&
			ClientStandardDiscoverOfferResponseType != GatewayAdminListDHTOfferRequestType &&
			ClientStandardDiscoverOfferResponseType != GatewayAdminListDHTOfferResponseType &&
			ClientStandardDiscoverOfferResponseType != GatewayAdminSetReputationRequestType &&
			ClientStandardDiscoverOfferResponseType != GatewayAdminSetReputationResponseType &&
			ClientStandardDiscoverOfferResponseType != GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType &&
			ClientStandardDiscoverOfferResponseType != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			ClientStandardDiscoverOfferResponseType != GatewayDHTDiscoverOfferRequestType &&
			ClientStandardDiscoverOfferResponseType != GatewayDHTDiscoverOfferResponseType &&
			ClientStandardDiscoverOfferResponseType != GatewayDHTDiscoverRequestType &&
			ClientStandardDiscoverOfferResponseType != GatewayDHTDiscoverRequestV2Type &&
			ClientStandardDiscoverOfferResponseType != GatewayDHTDiscoverResponseType &&
			ClientStandardDiscoverOfferResponseType != GatewayDHTDiscoverResponseV2Type &&
			ClientStandardDiscoverOfferResponseType != GatewayListDHTOfferAckType &&
			ClientStandardDiscoverOfferResponseType != GatewayListDHTOfferRequestType &&
			ClientStandardDiscoverOfferResponseType != GatewayListDHTOfferResponseType &&
			ClientStandardDiscoverOfferResponseType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			ClientStandardDiscoverOfferResponseType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			ClientStandardDiscoverOfferResponseType != GatewayPingRequestType &&
			ClientStandardDiscoverOfferResponseType != GatewayPingResponseType &&
			ClientStandardDiscoverOfferResponseType != InvalidMessageResponseType &&
			ClientStandardDiscoverOfferResponseType != ProtocolChangeRequestType &&
			ClientStandardDiscoverOfferResponseType != ProtocolChangeResponseType &&
			ClientStandardDiscoverOfferResponseType != ProviderAdminForceRefreshRequestType &&
			ClientStandardDiscoverOfferResponseType != ProviderAdminForceRefreshResponseType &&
			ClientStandardDiscoverOfferResponseType != ProviderAdminGetPublishedOfferRequestType &&
			ClientStandardDiscoverOfferResponseType != ProviderAdminGetPublishedOfferResponseType &&
			ClientStandardDiscoverOfferResponseType != ProviderAdminInitialiseKeyRequestType &&
			ClientStandardDiscoverOfferResponseType != ProviderAdminInitialiseKeyRequestV2Type &&
			ClientStandardDiscoverOfferResponseType != ProviderAdminInitialiseKeyResponseType &&
			ClientStandardDiscoverOfferResponseType != ProviderAdminPublishDHTOfferRequestType &&
			ClientStandardDiscoverOfferResponseType != ProviderAdminPublishDHTOfferResponseType &&
			ClientStandardDiscoverOfferResponseType != ProviderAdminPublishGroupOfferRequestType &&
			ClientStandardDiscoverOfferResponseType != ProviderAdminPublishGroupOfferResponseType &&
			ClientStandardDiscoverOfferResponseType != ProviderPublishDHTOfferRequestType &&
			ClientStandardDiscoverOfferResponseType != ProviderPublishDHTOfferResponseType &&
			ClientStandardDiscoverOfferResponseType != ProviderPublishGroupOfferRequestType &&
			ClientStandardDiscoverOfferResponseType != ProviderPublishGroupOfferResponseType &&
			ClientStandardDiscoverRequestType != ClientStandardDiscoverRequestV2Type &&
			ClientStandardDiscoverRequestType != ClientStandardDiscoverResponseType &&
			ClientStandardDiscoverRequestType != ClientStandardDiscoverResponseV2Type &&
			ClientStandardDiscoverRequestType != GatewayAdminForceRefreshRequestType &&
			ClientStandardDiscoverRequestType != GatewayAdminForceRefreshResponseType &&
			ClientStandardDiscoverRequestType != GatewayAdminGetReputationRequestType &&
			ClientStandardDiscoverRequestType != GatewayAdminGetReputationResponseType &&
			ClientStandardDiscoverRequestType != GatewayAdminInitialiseKeyRequestType &&
			ClientStandardDiscoverRequestType != GatewayAdminInitialiseKeyRequestV2Type &&
			ClientStandardDiscoverRequestType != GatewayAdminInitialiseKeyResponseType &&
			ClientStandardDiscoverRequestType != GatewayAdminListDHTOfferRequestType &&
			ClientStandardDiscoverRequestType != GatewayAdminListDHTOfferResponseType &&
			ClientStandardDiscoverRequestType != GatewayAdminSetReputationRequestType &&
			ClientStandardDiscoverRequestType != GatewayAdminSetReputationResponseType &&
			ClientStandardDiscoverRequestType != GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType &&
			ClientStandardDiscoverRequestType != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			ClientStandardDiscoverRequestType != GatewayDHTDiscoverOfferRequestType &&
			ClientStandardDiscoverRequestType != GatewayDHTDiscoverOfferResponseType &&
			ClientStandardDiscoverRequestType != GatewayDHTDiscoverRequestType &&
			ClientStandardDiscoverRequestType != GatewayDHTDiscoverRequestV2Type &&
			ClientStandardDiscoverRequestType != GatewayDHTDiscoverResponseType &&
			ClientStandardDiscoverRequestType != GatewayDHTDiscoverResponseV2Type &&
			ClientStandardDiscoverRequestType != GatewayListDHTOfferAckType &&
			ClientStandardDiscoverRequestType != GatewayListDHTOfferRequestType &&
			ClientStandardDiscoverRequestType != GatewayListDHTOfferResponseType &&
			ClientStandardDiscoverRequestType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			ClientStandardDiscoverRequestType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			ClientStandardDiscoverRequestType != GatewayPingRequestType &&
			ClientStandardDiscoverRequestType != GatewayPingResponseType &&
			ClientStandardDiscoverRequestType != InvalidMessageResponseType &&
			ClientStandardDiscoverRequestType != ProtocolChangeRequestType &&
			ClientStandardDiscoverRequestType != ProtocolChangeResponseType &&
			ClientStandardDiscoverRequestType != ProviderAdminForceRefreshRequestType &&
			ClientStandardDiscoverRequestType != ProviderAdminForceRefreshResponseType &&
			ClientStandardDiscoverRequestType != ProviderAdminGetPublishedOfferRequestType &&
			ClientStandardDiscoverRequestType != ProviderAdminGetPublishedOfferResponseType &&
			ClientStandardDiscoverRequestType != ProviderAdminInitialiseKeyRequestType &&
			ClientStandardDiscoverRequestType != ProviderAdminInitialiseKeyRequestV2Type &&
			ClientStandardDiscoverRequestType != ProviderAdminInitialiseKeyResponseType &&
			ClientStandardDiscoverRequestType != ProviderAdminPublishDHTOfferRequestType &&
			ClientStandardDiscoverRequestType != ProviderAdminPublishDHTOfferResponseType &&
			ClientStandardDiscoverRequestType != ProviderAdminPublishGroupOfferRequestType &&
			ClientStandardDiscoverRequestType != ProviderAdminPublishGroupOfferResponseType &&
			ClientStandardDiscoverRequestType != ProviderPublishDHTOfferRequestType &&
			ClientStandardDiscoverRequestType != ProviderPublishDHTOfferResponseType &&
			ClientStandardDiscoverRequestType != ProviderPublishGroupOfferRequestType &&
			ClientStandardDiscoverRequestType != ProviderPublishGroupOfferResponseType &&
			ClientStandardDiscoverRequestV2Type != ClientStandardDiscoverResponseType &&
			ClientStandardDiscoverRequestV2Type != ClientStandardDiscoverResponseV2Type &&
			ClientStandardDiscoverRequestV2Type != GatewayAdminForceRefreshRequestType &&
			ClientStandardDiscoverRequestV2Type != GatewayAdminForceRefreshResponseType &&
			ClientStandardDiscoverRequestV2Type != GatewayAdminGetReputationRequestType &&
			ClientStandardDiscoverRequestV2Type != GatewayAdminGetReputationResponseType &&
			ClientStandardDiscoverRequestV2Type != GatewayAdminInitialiseKeyRequestType &&
			ClientStandardDiscoverRequestV2Type != GatewayAdminInitialiseKeyRequestV2Type &&
			ClientStandardDiscoverRequestV2Type != GatewayAdminInitialiseKeyResponseType &&
			ClientStandardDiscoverRequestV2Type != GatewayAdminListDHTOfferRequestType &&
			ClientStandardDiscoverRequestV2Type != GatewayAdminListDHTOfferResponseType
	})
	gvEnsures("C04.message-kinds-distinct", func() bool {
		return ClientStandardDiscoverRequestV2Type != GatewayAdminSetReputationRequestType &&
			ClientStandardDiscoverRequestV2Type != GatewayAdminSetReputationResponseType &&
			ClientStandardDiscoverRequestV2Type != GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType &&
			ClientStandardDiscoverRequestV2Type != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			ClientStandardDiscoverRequestV2Type != GatewayDHTDiscoverOfferRequestType &&
			ClientStandardDiscoverRequestV2Type != GatewayDHTDiscoverOfferResponseType &&
			ClientStandardDiscoverRequestV2Type != GatewayDHTDiscoverRequestType &&
			ClientStandardDiscoverRequestV2Type != GatewayDHTDiscoverRequestV2Type &&
			ClientStandardDiscoverRequestV2Type != GatewayDHTDiscoverResponseType &&
			ClientStandardDiscoverRequestV2Type != GatewayDHTDiscoverResponseV2Type &&
			ClientStandardDiscoverRequestV2Type != GatewayListDHTOfferAckType &&
			ClientStandardDiscoverRequestV2Type != GatewayListDHTOfferRequestType &&
			ClientStandardDiscoverRequestV2Type != GatewayListDHTOfferResponseType &&
			ClientStandardDiscoverRequestV2Type != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			ClientStandardDiscoverRequestV2Type != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			ClientStandardDiscoverRequestV2Type != GatewayPingRequestType &&
			ClientStandardDiscoverRequestV2Type != GatewayPingResponseType &&
			ClientStandardDiscoverRequestV2Type != InvalidMessageResponseType &&
			ClientStandardDiscoverRequestV2Type != ProtocolChangeRequestType &&
			ClientStandardDiscoverRequestV2Type != ProtocolChangeResponseType &&
			ClientStandardDiscoverRequestV2Type != ProviderAdminForceRefreshRequestType &&
			ClientStandardDiscoverRequestV2Type != ProviderAdminForceRefreshResponseType &&
			ClientStandardDiscoverRequestV2Type != ProviderAdminGetPublishedOfferRequestType &&
			ClientStandardDiscoverRequestV2Type != ProviderAdminGetPublishedOfferResponseType &&
			ClientStandardDiscoverRequestV2Type != ProviderAdminInitialiseKeyRequestType &&
			ClientStandardDiscoverRequestV2Type != ProviderAdminInitialiseKeyRequestV2Type &&
			ClientStandardDiscoverRequestV2Type != ProviderAdminInitialiseKeyResponseType &&
			ClientStandardDiscoverRequestV2Type != ProviderAdminPublishDHTOfferRequestType &&
			ClientStandardDiscoverRequestV2Type != ProviderAdminPublishDHTOfferResponseType &&
			ClientStandardDiscoverRequestV2Type != ProviderAdminPublishGroupOfferRequestType &&
			ClientStandardDiscoverRequestV2Type != ProviderAdminPublishGroupOfferResponseType &&
			ClientStandardDiscoverRequestV2Type != ProviderPublishDHTOfferRequestType &&
			ClientStandardDiscoverRequestV2Type != ProviderPublishDHTOfferResponseType &&
			ClientStandardDiscoverRequestV2Type != ProviderPublishGroupOfferRequestType &&
			ClientStandardDiscoverRequestV2Type != ProviderPublishGroupOfferResponseType &&
			ClientStandardDiscoverResponseType != ClientStandardDiscoverResponseV2Type &&
			ClientStandardDiscoverResponseType != GatewayAdminForceRefreshRequestType &&
			ClientStandardDiscoverResponseType != GatewayAdminForceRefreshResponseType &&
			ClientStandardDiscoverResponseType != GatewayAdminGetReputationRequestType &&
			ClientStandardDiscoverResponseType != GatewayAdminGetReputationResponseType &&
			ClientStandardDiscoverResponseType != GatewayAdminInitialiseKeyRequestType &&
			ClientStandardDiscoverResponseType != GatewayAdminInitialiseKeyRequestV2Type &&
			ClientStandardDiscoverResponseType != GatewayAdminInitialiseKeyResponseType &&
			ClientStandardDiscoverResponseType != GatewayAdminListDHTOfferRequestType &&
			ClientStandardDiscoverResponseType != GatewayAdminListDHTOfferResponseType &&
			ClientStandardDiscoverResponseType != GatewayAdminSetReputationRequestType &&
			ClientStandardDiscoverResponseType != GatewayAdminSetReputationResponseType &&
			ClientStandardDiscoverResponseType != GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType &&
			ClientStandardDiscoverResponseType != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			ClientStandardDiscoverResponseType != GatewayDHTDiscoverOfferRequestType &&
			ClientStandardDiscoverResponseType != GatewayDHTDiscoverOfferResponseType &&
			ClientStandardDiscoverResponseType != GatewayDHTDiscoverRequestType &&
			ClientStandardDiscoverResponseType != GatewayDHTDiscoverRequestV2Type &&
			ClientStandardDiscoverResponseType != GatewayDHTDiscoverResponseType &&
			ClientStandardDiscoverResponseType != GatewayDHTDiscoverResponseV2Type &&
			ClientStandardDiscoverResponseType != GatewayListDHTOfferAckType &&
			ClientStandardDiscoverResponseType != GatewayListDHTOfferRequestType &&
			ClientStandardDiscoverResponseType != GatewayListDHTOfferResponseType &&
			ClientStandardDiscoverResponseType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			ClientStandardDiscoverResponseType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			ClientStandardDiscoverResponseType != GatewayPingRequestType &&
			ClientStandardDiscoverResponseType != GatewayPingResponseType &&
			ClientStandardDiscoverResponseType != InvalidMessageResponseType &&
			ClientStandardDiscoverResponseType != ProtocolChangeRequestType &&
			ClientStandardDiscoverResponseType != ProtocolChangeResponseType &&
			ClientStandardDiscoverResponseType != ProviderAdminForceRefreshRequestType &&
			ClientStandardDiscoverResponseType != ProviderAdminForceRefreshResponseType &&
			ClientStandardDiscoverResponseType != ProviderAdminGetPublishedOfferRequestType &&
			ClientStandardDiscoverResponseType != ProviderAdminGetPublishedOfferResponseType &&
			ClientStandardDiscoverResponseType != ProviderAdminInitialiseKeyRequestType &&
			ClientStandardDiscoverResponseType != ProviderAdminInitialiseKeyRequestV2Type &&
			ClientStandardDiscoverResponseType != ProviderAdminInitialiseKeyResponseType &&
			ClientStandardDiscoverResponseType != ProviderAdminPublishDHTOfferRequestType &&
			ClientStandardDiscoverResponseType != ProviderAdminPublishDHTOfferResponseType &&
			ClientStandardDiscoverResponseType != ProviderAdminPublishGroupOfferRequestType &&
			ClientStandardDiscoverResponseType != ProviderAdminPublishGroupOfferResponseType &&
			ClientStandardDiscoverResponseType != ProviderPublishDHTOfferRequestType &&
			ClientStandardDiscoverResponseType != ProviderPublishDHTOfferResponseType &&
			ClientStandardDiscoverResponseType != ProviderPublishGroupOfferRequestType &&
			ClientStandardDiscoverResponseType != ProviderPublishGroupOfferResponseType &&
			ClientStandardDiscoverResponseV2Type != GatewayAdminForceRefreshRequestType &&
			ClientStandardDiscoverResponseV2Type != GatewayAdminForceRefreshResponseType &&
			ClientStandardDiscoverResponseV2Type != GatewayAdminGetReputationRequestType &&
			ClientStandardDiscoverResponseV2Type != GatewayAdminGetReputationResponseType &&
			ClientStandardDiscoverResponseV2Type != GatewayAdminInitialiseKeyRequestType &&
			ClientStandardDiscoverResponseV2Type != GatewayAdminInitialiseKeyRequestV2Type &&
			ClientStandardDiscoverResponseV2Type != GatewayAdminInitialiseKeyResponseType &&
			ClientStandardDiscoverResponseV2Type != GatewayAdminListDHTOfferRequestType &&
			ClientStandardDiscoverResponseV2Type != GatewayAdminListDHTOfferResponseType &&
			ClientStandardDiscoverResponseV2Type != GatewayAdminSetReputationRequestType &&
			ClientStandardDiscoverResponseV2Type != GatewayAdminSetReputationResponseType &&
			ClientStandardDiscoverResponseV2Type != GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType &&
			ClientStandardDiscoverResponseV2Type != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			ClientStandardDiscoverResponseV2Type != GatewayDHTDiscoverOfferRequestType &&
			ClientStandardDiscoverResponseV2Type != GatewayDHTDiscoverOfferResponseType &&
			ClientStandardDiscoverResponseV2Type != GatewayDHTDiscoverRequestType &&
			ClientStandardDiscoverResponseV2Type != GatewayDHTDiscoverRequestV2Type &&
			ClientStandardDiscoverResponseV2Type != GatewayDHTDiscoverResponseType &&
			ClientStandardDiscoverResponseV2Type != GatewayDHTDiscoverResponseV2Type &&
			ClientStandardDiscoverResponseV2Type != GatewayListDHTOfferAckType
	})
	gvEnsures("C04.message-kinds-distinct", func() bool {
		return ClientStandardDiscoverResponseV2Type != GatewayListDHTOfferRequestType &&
			ClientStandardDiscoverResponseV2Type != GatewayListDHTOfferResponseType &&
			ClientStandardDiscoverResponseV2Type != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			ClientStandardDiscoverResponseV2Type != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			ClientStandardDiscoverResponseV2Type != GatewayPingRequestType &&
			ClientStandardDiscoverResponseV2Type != GatewayPingResponseType &&
			ClientStandardDiscoverResponseV2Type != InvalidMessageResponseType &&
			ClientStandardDiscoverResponseV2Type != ProtocolChangeRequestType &&
			ClientStandardDiscoverResponseV2Type != ProtocolChangeResponseType &&
			ClientStandardDiscoverResponseV2Type != ProviderAdminForceRefreshRequestType &&
			ClientStandardDiscoverResponseV2Type != ProviderAdminForceRefreshResponseType &&
			ClientStandardDiscoverResponseV2Type != ProviderAdminGetPublishedOfferRequestType &&
			ClientStandardDiscoverResponseV2Type != ProviderAdminGetPublishedOfferResponseType &&
			ClientStandardDiscoverResponseV2Type != ProviderAdminInitialiseKeyRequestType &&
			ClientStandardDiscoverResponseV2Type != ProviderAdminInitialiseKeyRequestV2Type &&
			ClientStandardDiscoverResponseV2Type != ProviderAdminInitialiseKeyResponseType &&
			ClientStandardDiscoverResponseV2Type != ProviderAdminPublishDHTOfferRequestType &&
			ClientStandardDiscoverResponseV2Type != ProviderAdminPublishDHTOfferResponseType &&
			ClientStandardDiscoverResponseV2Type != ProviderAdminPublishGroupOfferRequestType &&
			ClientStandardDiscoverResponseV2Type != ProviderAdminPublishGroupOfferResponseType &&
			ClientStandardDiscoverResponseV2Type != ProviderPublishDHTOfferRequestType &&
			ClientStandardDiscoverResponseV2Type != ProviderPublishDHTOfferResponseType &&
			ClientStandardDiscoverResponseV2Type != ProviderPublishGroupOfferRequestType &&
			ClientStandardDiscoverResponseV2Type != ProviderPublishGroupOfferResponseType &&
			GatewayAdminForceRefreshRequestType != GatewayAdminForceRefreshResponseType &&
			GatewayAdminForceRefreshRequestType != GatewayAdminGetReputationRequestType &&
			GatewayAdminForceRefreshRequestType != GatewayAdminGetReputationResponseType &&
			GatewayAdminForceRefreshRequestType != GatewayAdminInitialiseKeyRequestType &&
			GatewayAdminForceRefreshRequestType != GatewayAdminInitialiseKeyRequestV2Type &&
			GatewayAdminForceRefreshRequestType != GatewayAdminInitialiseKeyResponseType &&
			GatewayAdminForceRefreshRequestType != GatewayAdminListDHTOfferRequestType &&
			GatewayAdminForceRefreshRequestType != GatewayAdminListDHTOfferResponseType &&
			GatewayAdminForceRefreshRequestType != GatewayAdminSetReputationRequestType &&
			GatewayAdminForceRefreshRequestType != GatewayAdminSetReputationResponseType &&
			GatewayAdminForceRefreshRequestType != GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType &&
			GatewayAdminForceRefreshRequestType != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			GatewayAdminForceRefreshRequestType != GatewayDHTDiscoverOfferRequestType &&
			GatewayAdminForceRefreshRequestType != GatewayDHTDiscoverOfferResponseType &&
			GatewayAdminForceRefreshRequestType != GatewayDHTDiscoverRequestType &&
			GatewayAdminForceRefreshRequestType != GatewayDHTDiscoverRequestV2Type &&
			GatewayAdminForceRefreshRequestType != GatewayDHTDiscoverResponseType &&
			GatewayAdminForceRefreshRequestType != GatewayDHTDiscoverResponseV2Type &&
			GatewayAdminForceRefreshRequestType != GatewayListDHTOfferAckType &&
			GatewayAdminForceRefreshRequestType != GatewayListDHTOfferRequestType &&
			GatewayAdminForceRefreshRequestType != GatewayListDHTOfferResponseType &&
			GatewayAdminForceRefreshRequestType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			GatewayAdminForceRefreshRequestType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			GatewayAdminForceRefreshRequestType != GatewayPingRequestType &&
			GatewayAdminForceRefreshRequestType != GatewayPingResponseType &&
			GatewayAdminForceRefreshRequestType != InvalidMessageResponseType &&
			GatewayAdminForceRefreshRequestType != ProtocolChangeRequestType &&
			GatewayAdminForceRefreshRequestType != ProtocolChangeResponseType &&
			GatewayAdminForceRefreshRequestType != ProviderAdminForceRefreshRequestType &&
			GatewayAdminForceRefreshRequestType != ProviderAdminForceRefreshResponseType &&
			GatewayAdminForceRefreshRequestType != ProviderAdminGetPublishedOfferRequestType &&
			GatewayAdminForceRefreshRequestType != ProviderAdminGetPublishedOfferResponseType &&
			GatewayAdminForceRefreshRequestType != ProviderAdminInitialiseKeyRequestType &&
			GatewayAdminForceRefreshRequestType != ProviderAdminInitialiseKeyRequestV2Type &&
			GatewayAdminForceRefreshRequestType != ProviderAdminInitialiseKeyResponseType &&
			GatewayAdminForceRefreshRequestType != ProviderAdminPublishDHTOfferRequestType &&
			GatewayAdminForceRefreshRequestType != ProviderAdminPublishDHTOfferResponseType &&
			GatewayAdminForceRefreshRequestType != ProviderAdminPublishGroupOfferRequestType &&
			GatewayAdminForceRefreshRequestType != ProviderAdminPublishGroupOfferResponseType &&
			GatewayAdminForceRefreshRequestType != ProviderPublishDHTOfferRequestType &&
			GatewayAdminForceRefreshRequestType != ProviderPublishDHTOfferResponseType &&
			GatewayAdminForceRefreshRequestType != ProviderPublishGroupOfferRequestType &&
			GatewayAdminForceRefreshRequestType != ProviderPublishGroupOfferResponseType &&
			GatewayAdminForceRefreshResponseType != GatewayAdminGetReputationRequestType &&
			GatewayAdminForceRefreshResponseType != GatewayAdminGetReputationResponseType &&
			GatewayAdminForceRefreshResponseType != GatewayAdminInitialiseKeyRequestType &&
			GatewayAdminForceRefreshResponseType != GatewayAdminInitialiseKeyRequestV2Type &&
			GatewayAdminForceRefreshResponseType != GatewayAdminInitialiseKeyResponseType &&
			GatewayAdminForceRefreshResponseType != GatewayAdminListDHTOfferRequestType &&
			GatewayAdminForceRefreshResponseType != GatewayAdminListDHTOfferResponseType &&
			GatewayAdminForceRefreshResponseType != GatewayAdminSetReputationRequestType &&
			GatewayAdminForceRefreshResponseType != GatewayAdminSetReputationResponseType &&
			GatewayAdminForceRefreshResponseType != GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType &&
			GatewayAdminForceRefreshResponseType != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			GatewayAdminForceRefreshResponseType != GatewayDHTDiscoverOfferRequestType &&
			GatewayAdminForceRefreshResponseType != GatewayDHTDiscoverOfferResponseType &&
			GatewayAdminForceRefreshResponseType != GatewayDHTDiscoverRequestType &&
			GatewayAdminForceRefreshResponseType != GatewayDHTDiscoverRequestV2Type &&
			GatewayAdminForceRefreshResponseType != GatewayDHTDiscoverResponseType &&
			GatewayAdminForceRefreshResponseType != GatewayDHTDiscoverResponseV2Type &&
			GatewayAdminForceRefreshResponseType != GatewayListDHTOfferAckType &&
			GatewayAdminForceRefreshResponseType != GatewayListDHTOfferRequestType &&
			GatewayAdminForceRefreshResponseType != GatewayListDHTOfferResponseType &&
			GatewayAdminForceRefreshResponseType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			GatewayAdminForceRefreshResponseType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			GatewayAdminForceRefreshResponseType != GatewayPingRequestType &&
			GatewayAdminForceRefreshResponseType != GatewayPingResponseType &&
			GatewayAdminForceRefreshResponseType != InvalidMessageResponseType &&
			GatewayAdminForceRefreshResponseType != ProtocolChangeRequestType &&
			GatewayAdminForceRefreshResponseType != ProtocolChangeResponseType &&
			GatewayAdminForceRefreshResponseType != ProviderAdminForceRefreshRequestType &&
			GatewayAdminForceRefreshResponseType != ProviderAdminForceRefreshResponseType &&
			GatewayAdminForceRefreshResponseType != ProviderAdminGetPublishedOfferRequestType &&
			GatewayAdminForceRefreshResponseType != ProviderAdminGetPublishedOfferResponseType &&
			GatewayAdminForceRefreshResponseType != ProviderAdminInitialiseKeyRequestType &&
			GatewayAdminForceRefreshResponseType != ProviderAdminInitialiseKeyRequestV2Type
	})
	gvEnsures("C04.message-kinds-distinct", func() bool {
		return GatewayAdminForceRefreshResponseType != ProviderAdminInitialiseKeyResponseType &&
			GatewayAdminForceRefreshResponseType != ProviderAdminPublishDHTOfferRequestType &&
			GatewayAdminForceRefreshResponseType != ProviderAdminPublishDHTOfferResponseType &&
			GatewayAdminForceRefreshResponseType != ProviderAdminPublishGroupOfferRequestType &&
			GatewayAdminForceRefreshResponseType != ProviderAdminPublishGroupOfferResponseType &&
			GatewayAdminForceRefreshResponseType != ProviderPublishDHTOfferRequestType &&
			GatewayAdminForceRefreshResponseType != ProviderPublishDHTOfferResponseType &&
			GatewayAdminForceRefreshResponseType != ProviderPublishGroupOfferRequestType &&
			GatewayAdminForceRefreshResponseType != ProviderPublishGroupOfferResponseType &&
			GatewayAdminGetReputationRequestType != GatewayAdminGetReputationResponseType &&
			GatewayAdminGetReputationRequestType != GatewayAdminInitialiseKeyRequestType &&
			GatewayAdminGetReputationRequestType != GatewayAdminInitialiseKeyRequestV2Type &&
			GatewayAdminGetReputationRequestType != GatewayAdminInitialiseKeyResponseType &&
			GatewayAdminGetReputationRequestType != GatewayAdminListDHTOfferRequestType &&
			GatewayAdminGetReputationRequestType != GatewayAdminListDHTOfferResponseType &&
			GatewayAdminGetReputationRequestType != GatewayAdminSetReputationRequestType &&
			GatewayAdminGetReputationRequestType != GatewayAdminSetReputationResponseType &&
			GatewayAdminGetReputationRequestType != GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType &&
			GatewayAdminGetReputationRequestType != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			GatewayAdminGetReputationRequestType != GatewayDHTDiscoverOfferRequestType &&
			GatewayAdminGetReputationRequestType != GatewayDHTDiscoverOfferResponseType &&
			GatewayAdminGetReputationRequestType != GatewayDHTDiscoverRequestType &&
			GatewayAdminGetReputationRequestType != GatewayDHTDiscoverRequestV2Type &&
			GatewayAdminGetReputationRequestType != GatewayDHTDiscoverResponseType &&
			GatewayAdminGetReputationRequestType != GatewayDHTDiscoverResponseV2Type &&
			GatewayAdminGetReputationRequestType != GatewayListDHTOfferAckType &&
			GatewayAdminGetReputationRequestType != GatewayListDHTOfferRequestType &&
			GatewayAdminGetReputationRequestType != GatewayListDHTOfferResponseType &&
			GatewayAdminGetReputationRequestType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			GatewayAdminGetReputationRequestType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			GatewayAdminGetReputationRequestType != GatewayPingRequestType &&
			GatewayAdminGetReputationRequestType != GatewayPingResponseType &&
			GatewayAdminGetReputationRequestType != InvalidMessageResponseType &&
			GatewayAdminGetReputationRequestType != ProtocolChangeRequestType &&
			GatewayAdminGetReputationRequestType != ProtocolChangeResponseType &&
			GatewayAdminGetReputationRequestType != ProviderAdminForceRefreshRequestType &&
			GatewayAdminGetReputationRequestType != ProviderAdminForceRefreshResponseType &&
			GatewayAdminGetReputationRequestType != ProviderAdminGetPublishedOfferRequestType &&
			GatewayAdminGetReputationRequestType != ProviderAdminGetPublishedOfferResponseType &&
			GatewayAdminGetReputationRequestType != ProviderAdminInitialiseKeyRequestType &&
			GatewayAdminGetReputationRequestType != ProviderAdminInitialiseKeyRequestV2Type &&
			GatewayAdminGetReputationRequestType != ProviderAdminInitialiseKeyResponseType &&
			GatewayAdminGetReputationRequestType != ProviderAdminPublishDHTOfferRequestType &&
			GatewayAdminGetReputationRequestType != ProviderAdminPublishDHTOfferResponseType &&
			GatewayAdminGetReputationRequestType != ProviderAdminPublishGroupOfferRequestType &&
			GatewayAdminGetReputationRequestType != ProviderAdminPublishGroupOfferResponseType &&
			GatewayAdminGetReputationRequestType != ProviderPublishDHTOfferRequestType &&
			GatewayAdminGetReputationRequestType != ProviderPublishDHTOfferResponseType &&
			GatewayAdminGetReputationRequestType != ProviderPublishGroupOfferRequestType &&
			GatewayAdminGetReputationRequestType != ProviderPublishGroupOfferResponseType &&
			GatewayAdminGetReputationResponseType != GatewayAdminInitialiseKeyRequestType &&
			GatewayAdminGetReputationResponseType != GatewayAdminInitialiseKeyRequestV2Type &&
			GatewayAdminGetReputationResponseType != GatewayAdminInitialiseKeyResponseType &&
			GatewayAdminGetReputationResponseType != GatewayAdminListDHTOfferRequestType &&
			GatewayAdminGetReputationResponseType != GatewayAdminListDHTOfferResponseType &&
			GatewayAdminGetReputationResponseType != GatewayAdminSetReputationRequestType &&
			GatewayAdminGetReputationResponseType != GatewayAdminSetReputationResponseType &&
			GatewayAdminGetReputationResponseType != GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType &&
			GatewayAdminGetReputationResponseType != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			GatewayAdminGetReputationResponseType != GatewayDHTDiscoverOfferRequestType &&
			GatewayAdminGetReputationResponseType != GatewayDHTDiscoverOfferResponseType &&
			GatewayAdminGetReputationResponseType != GatewayDHTDiscoverRequestType &&
			GatewayAdminGetReputationResponseType != GatewayDHTDiscoverRequestV2Type &&
			GatewayAdminGetReputationResponseType != GatewayDHTDiscoverResponseType &&
			GatewayAdminGetReputationResponseType != GatewayDHTDiscoverResponseV2Type &&
			GatewayAdminGetReputationResponseType != GatewayListDHTOfferAckType &&
			GatewayAdminGetReputationResponseType != GatewayListDHTOfferRequestType &&
			GatewayAdminGetReputationResponseType != GatewayListDHTOfferResponseType &&
			GatewayAdminGetReputationResponseType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			GatewayAdminGetReputationResponseType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			GatewayAdminGetReputationResponseType != GatewayPingRequestType &&
			GatewayAdminGetReputationResponseType != GatewayPingResponseType &&
			GatewayAdminGetReputationResponseType != InvalidMessageResponseType &&
			GatewayAdminGetReputationResponseType != ProtocolChangeRequestType &&
			GatewayAdminGetReputationResponseType != ProtocolChangeResponseType &&
			GatewayAdminGetReputationResponseType != ProviderAdminForceRefreshRequestType &&
			GatewayAdminGetReputationResponseType != ProviderAdminForceRefreshResponseType &&
			GatewayAdminGetReputationResponseType != ProviderAdminGetPublishedOfferRequestType &&
			GatewayAdminGetReputationResponseType != ProviderAdminGetPublishedOfferResponseType &&
			GatewayAdminGetReputationResponseType != ProviderAdminInitialiseKeyRequestType &&
			GatewayAdminGetReputationResponseType != ProviderAdminInitialiseKeyRequestV2Type &&
			GatewayAdminGetReputationResponseType != ProviderAdminInitialiseKeyResponseType &&
			GatewayAdminGetReputationResponseType != ProviderAdminPublishDHTOfferRequestType &&
			GatewayAdminGetReputationResponseType != ProviderAdminPublishDHTOfferResponseType &&
			GatewayAdminGetReputationResponseType != ProviderAdminPublishGroupOfferRequestType &&
			GatewayAdminGetReputationResponseType != ProviderAdminPublishGroupOfferResponseType &&
			GatewayAdminGetReputationResponseType != ProviderPublishDHTOfferRequestType &&
			GatewayAdminGetReputationResponseType != ProviderPublishDHTOfferResponseType &&
			GatewayAdminGetReputationResponseType != ProviderPublishGroupOfferRequestType &&
			GatewayAdminGetReputationResponseType != ProviderPublishGroupOfferResponseType &&
			GatewayAdminInitialiseKeyRequestType != GatewayAdminInitialiseKeyRequestV2Type &&
			GatewayAdminInitialiseKeyRequestType != GatewayAdminInitialiseKeyResponseType &&
			GatewayAdminInitialiseKeyRequestType != GatewayAdminListDHTOfferRequestType &&
			GatewayAdminInitialiseKeyRequestType != GatewayAdminListDHTOfferResponseType &&
			GatewayAdminInitialiseKeyRequestType != GatewayAdminSetReputationRequestType &&
			GatewayAdminInitialiseKeyRequestType != GatewayAdminSetReputationResponseType &&
			GatewayAdminInitialiseKeyRequestType != GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType &&
			GatewayAdminInitialiseKeyRequestType != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			GatewayAdminInitialiseKeyRequestType != GatewayDHTDiscoverOfferRequestType &&
			GatewayAdminInitialiseKeyRequestType != GatewayDHTDiscoverOfferResponseType
	})
	gvEnsures("C04.message-kinds-distinct", func() bool {
		return GatewayAdminInitialiseKeyRequestType != GatewayDHTDiscoverRequestType &&
			GatewayAdminInitialiseKeyRequestType != GatewayDHTDiscoverRequestV2Type &&
			GatewayAdminInitialiseKeyRequestType != GatewayDHTDiscoverResponseType &&
			GatewayAdminInitialiseKeyRequestType != GatewayDHTDiscoverResponseV2Type &&
			GatewayAdminInitialiseKeyRequestType != GatewayListDHTOfferAckType &&
			GatewayAdminInitialiseKeyRequestType != GatewayListDHTOfferRequestType &&
			GatewayAdminInitialiseKeyRequestType != GatewayListDHTOfferResponseType &&
			GatewayAdminInitialiseKeyRequestType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			GatewayAdminInitialiseKeyRequestType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			GatewayAdminInitialiseKeyRequestType != GatewayPingRequestType &&
			GatewayAdminInitialiseKeyRequestType != GatewayPingResponseType &&
			GatewayAdminInitialiseKeyRequestType != InvalidMessageResponseType &&
			GatewayAdminInitialiseKeyRequestType != ProtocolChangeRequestType &&
			GatewayAdminInitialiseKeyRequestType != ProtocolChangeResponseType &&
			GatewayAdminInitialiseKeyRequestType != ProviderAdminForceRefreshRequestType &&
			GatewayAdminInitialiseKeyRequestType != ProviderAdminForceRefreshResponseType &&
			GatewayAdminInitialiseKeyRequestType != ProviderAdminGetPublishedOfferRequestType &&
			GatewayAdminInitialiseKeyRequestType != ProviderAdminGetPublishedOfferResponseType &&
			GatewayAdminInitialiseKeyRequestType != ProviderAdminInitialiseKeyRequestType &&
			GatewayAdminInitialiseKeyRequestType != ProviderAdminInitialiseKeyRequestV2Type &&
			GatewayAdminInitialiseKeyRequestType != ProviderAdminInitialiseKeyResponseType &&
			GatewayAdminInitialiseKeyRequestType != ProviderAdminPublishDHTOfferRequestType &&
			GatewayAdminInitialiseKeyRequestType != ProviderAdminPublishDHTOfferResponseType &&
			GatewayAdminInitialiseKeyRequestType != ProviderAdminPublishGroupOfferRequestType &&
			GatewayAdminInitialiseKeyRequestType != ProviderAdminPublishGroupOfferResponseType &&
			GatewayAdminInitialiseKeyRequestType != ProviderPublishDHTOfferRequestType &&
			GatewayAdminInitialiseKeyRequestType != ProviderPublishDHTOfferResponseType &&
			GatewayAdminInitialiseKeyRequestType != ProviderPublishGroupOfferRequestType &&
			GatewayAdminInitialiseKeyRequestType != ProviderPublishGroupOfferResponseType &&
			GatewayAdminInitialiseKeyRequestV2Type != GatewayAdminInitialiseKeyResponseType &&
			GatewayAdminInitialiseKeyRequestV2Type != GatewayAdminListDHTOfferRequestType &&
			GatewayAdminInitialiseKeyRequestV2Type != GatewayAdminListDHTOfferResponseType &&
			GatewayAdminInitialiseKeyRequestV2Type != GatewayAdminSetReputationRequestType &&
			GatewayAdminInitialiseKeyRequestV2Type != GatewayAdminSetReputationResponseType &&
			GatewayAdminInitialiseKeyRequestV2Type != GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType &&
			GatewayAdminInitialiseKeyRequestV2Type != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			GatewayAdminInitialiseKeyRequestV2Type != GatewayDHTDiscoverOfferRequestType &&
			GatewayAdminInitialiseKeyRequestV2Type != GatewayDHTDiscoverOfferResponseType &&
			GatewayAdminInitialiseKeyRequestV2Type != GatewayDHTDiscoverRequestType &&
			GatewayAdminInitialiseKeyRequestV2Type != GatewayDHTDiscoverRequestV2Type &&
			GatewayAdminInitialiseKeyRequestV2Type != GatewayDHTDiscoverResponseType &&
			GatewayAdminInitialiseKeyRequestV2Type != GatewayDHTDiscoverResponseV2Type &&
			GatewayAdminInitialiseKeyRequestV2Type != GatewayListDHTOfferAckType &&
			GatewayAdminInitialiseKeyRequestV2Type != GatewayListDHTOfferRequestType &&
			GatewayAdminInitialiseKeyRequestV2Type != GatewayListDHTOfferResponseType &&
			GatewayAdminInitialiseKeyRequestV2Type != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			GatewayAdminInitialiseKeyRequestV2Type != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			GatewayAdminInitialiseKeyRequestV2Type != GatewayPingRequestType &&
			GatewayAdminInitialiseKeyRequestV2Type != GatewayPingResponseType &&
			GatewayAdminInitialiseKeyRequestV2Type != InvalidMessageResponseType &&
			GatewayAdminInitialiseKeyRequestV2Type != ProtocolChangeRequestType &&
			GatewayAdminInitialiseKeyRequestV2Type != ProtocolChangeResponseType &&
			GatewayAdminInitialiseKeyRequestV2Type != ProviderAdminForceRefreshRequestType &&
			GatewayAdminInitialiseKeyRequestV2Type != ProviderAdminForceRefreshResponseType &&
			GatewayAdminInitialiseKeyRequestV2Type != ProviderAdminGetPublishedOfferRequestType &&
			GatewayAdminInitialiseKeyRequestV2Type != ProviderAdminGetPublishedOfferResponseType &&
			GatewayAdminInitialiseKeyRequestV2Type != ProviderAdminInitialiseKeyRequestType &&
			GatewayAdminInitialiseKeyRequestV2Type != ProviderAdminInitialiseKeyRequestV2Type &&
			GatewayAdminInitialiseKeyRequestV2Type != ProviderAdminInitialiseKeyResponseType &&
			GatewayAdminInitialiseKeyRequestV2Type != ProviderAdminPublishDHTOfferRequestType &&
			GatewayAdminInitialiseKeyRequestV2Type != ProviderAdminPublishDHTOfferResponseType &&
			GatewayAdminInitialiseKeyRequestV2Type != ProviderAdminPublishGroupOfferRequestType &&
			GatewayAdminInitialiseKeyRequestV2Type != ProviderAdminPublishGroupOfferResponseType &&
			GatewayAdminInitialiseKeyRequestV2Type != ProviderPublishDHTOfferRequestType &&
			GatewayAdminInitialiseKeyRequestV2Type != ProviderPublishDHTOfferResponseType &&
			GatewayAdminInitialiseKeyRequestV2Type != ProviderPublishGroupOfferRequestType &&
			GatewayAdminInitialiseKeyRequestV2Type != ProviderPublishGroupOfferResponseType &&
			GatewayAdminInitialiseKeyResponseType != GatewayAdminListDHTOfferRequestType &&
			GatewayAdminInitialiseKeyResponseType != GatewayAdminListDHTOfferResponseType &&
			GatewayAdminInitialiseKeyResponseType != GatewayAdminSetReputationRequestType &&
			GatewayAdminInitialiseKeyResponseType != GatewayAdminSetReputationResponseType &&
			GatewayAdminInitialiseKeyResponseType != GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType &&
			GatewayAdminInitialiseKeyResponseType != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			GatewayAdminInitialiseKeyResponseType != GatewayDHTDiscoverOfferRequestType &&
			GatewayAdminInitialiseKeyResponseType != GatewayDHTDiscoverOfferResponseType &&
			GatewayAdminInitialiseKeyResponseType != GatewayDHTDiscoverRequestType &&
			GatewayAdminInitialiseKeyResponseType != GatewayDHTDiscoverRequestV2Type &&
			GatewayAdminInitialiseKeyResponseType != GatewayDHTDiscoverResponseType &&
			GatewayAdminInitialiseKeyResponseType != GatewayDHTDiscoverResponseV2Type &&
			GatewayAdminInitialiseKeyResponseType != GatewayListDHTOfferAckType &&
			GatewayAdminInitialiseKeyResponseType != GatewayListDHTOfferRequestType &&
			GatewayAdminInitialiseKeyResponseType != GatewayListDHTOfferResponseType &&
			GatewayAdminInitialiseKeyResponseType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			GatewayAdminInitialiseKeyResponseType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			GatewayAdminInitialiseKeyResponseType != GatewayPingRequestType &&
			GatewayAdminInitialiseKeyResponseType != GatewayPingResponseType &&
			GatewayAdminInitialiseKeyResponseType != InvalidMessageResponseType &&
			GatewayAdminInitialiseKeyResponseType != ProtocolChangeRequestType &&
			GatewayAdminInitialiseKeyResponseType != ProtocolChangeResponseType &&
			GatewayAdminInitialiseKeyResponseType != ProviderAdminForceRefreshRequestType &&
			GatewayAdminInitialiseKeyResponseType != ProviderAdminForceRefreshResponseType &&
			GatewayAdminInitialiseKeyResponseType != ProviderAdminGetPublishedOfferRequestType &&
			GatewayAdminInitialiseKeyResponseType != ProviderAdminGetPublishedOfferResponseType &&
			GatewayAdminInitialiseKeyResponseType != ProviderAdminInitialiseKeyRequestType &&
			GatewayAdminInitialiseKeyResponseType != ProviderAdminInitialiseKeyRequestV2Type &&
			GatewayAdminInitialiseKeyResponseType != ProviderAdminInitialiseKeyResponseType &&
			GatewayAdminInitialiseKeyResponseType != ProviderAdminPublishDHTOfferRequestType &&
			GatewayAdminInitialiseKeyResponseType != ProviderAdminPublishDHTOfferResponseType &&
			GatewayAdminInitialiseKeyResponseType != ProviderAdminPublishGroupOfferRequestType &&
			GatewayAdminInitialiseKeyResponseType != ProviderAdminPublishGroupOfferResponseType
	})
	gvEnsures("C04.message-kinds-distinct", func() bool {
		return GatewayAdminInitialiseKeyResponseType != ProviderPublishDHTOfferRequestType &&
			GatewayAdminInitialiseKeyResponseType != ProviderPublishDHTOfferResponseType &&
			GatewayAdminInitialiseKeyResponseType != ProviderPublishGroupOfferRequestType &&
			GatewayAdminInitialiseKeyResponseType != ProviderPublishGroupOfferResponseType &&
			GatewayAdminListDHTOfferRequestType != GatewayAdminListDHTOfferResponseType &&
			GatewayAdminListDHTOfferRequestType != GatewayAdminSetReputationRequestType &&
			GatewayAdminListDHTOfferRequestType != GatewayAdminSetReputationResponseType &&
			GatewayAdminListDHTOfferRequestType != GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType &&
			GatewayAdminListDHTOfferRequestType != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			GatewayAdminListDHTOfferRequestType != GatewayDHTDiscoverOfferRequestType &&
			GatewayAdminListDHTOfferRequestType != GatewayDHTDiscoverOfferResponseType &&
			GatewayAdminListDHTOfferRequestType != GatewayDHTDiscoverRequestType &&
			GatewayAdminListDHTOfferRequestType != GatewayDHTDiscoverRequestV2Type &&
			GatewayAdminListDHTOfferRequestType != GatewayDHTDiscoverResponseType &&
			GatewayAdminListDHTOfferRequestType != GatewayDHTDiscoverResponseV2Type &&
			GatewayAdminListDHTOfferRequestType != GatewayListDHTOfferAckType &&
			GatewayAdminListDHTOfferRequestType != GatewayListDHTOfferRequestType &&
			GatewayAdminListDHTOfferRequestType != GatewayListDHTOfferResponseType &&
			GatewayAdminListDHTOfferRequestType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			GatewayAdminListDHTOfferRequestType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			GatewayAdminListDHTOfferRequestType != GatewayPingRequestType &&
			GatewayAdminListDHTOfferRequestType != GatewayPingResponseType &&
			GatewayAdminListDHTOfferRequestType != InvalidMessageResponseType &&
			GatewayAdminListDHTOfferRequestType != ProtocolChangeRequestType &&
			GatewayAdminListDHTOfferRequestType != ProtocolChangeResponseType &&
			GatewayAdminListDHTOfferRequestType != ProviderAdminForceRefreshRequestType &&
			GatewayAdminListDHTOfferRequestType != ProviderAdminForceRefreshResponseType &&
			GatewayAdminListDHTOfferRequestType != ProviderAdminGetPublishedOfferRequestType &&
			GatewayAdminListDHTOfferRequestType != ProviderAdminGetPublishedOfferResponseType &&
			GatewayAdminListDHTOfferRequestType != ProviderAdminInitialiseKeyRequestType &&
			GatewayAdminListDHTOfferRequestType != ProviderAdminInitialiseKeyRequestV2Type &&
			GatewayAdminListDHTOfferRequestType != ProviderAdminInitialiseKeyResponseType &&
			GatewayAdminListDHTOfferRequestType != ProviderAdminPublishDHTOfferRequestType &&
			GatewayAdminListDHTOfferRequestType != ProviderAdminPublishDHTOfferResponseType &&
			GatewayAdminListDHTOfferRequestType != ProviderAdminPublishGroupOfferRequestType &&
			GatewayAdminListDHTOfferRequestType != ProviderAdminPublishGroupOfferResponseType &&
			GatewayAdminListDHTOfferRequestType != ProviderPublishDHTOfferRequestType &&
			GatewayAdminListDHTOfferRequestType != ProviderPublishDHTOfferResponseType &&
			GatewayAdminListDHTOfferRequestType != ProviderPublishGroupOfferRequestType &&
			GatewayAdminListDHTOfferRequestType != ProviderPublishGroupOfferResponseType &&
			GatewayAdminListDHTOfferResponseType != GatewayAdminSetReputationRequestType &&
			GatewayAdminListDHTOfferResponseType != GatewayAdminSetReputationResponseType &&
			GatewayAdminListDHTOfferResponseType != GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType &&
			GatewayAdminListDHTOfferResponseType != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			GatewayAdminListDHTOfferResponseType != GatewayDHTDiscoverOfferRequestType &&
			GatewayAdminListDHTOfferResponseType != GatewayDHTDiscoverOfferResponseType &&
			GatewayAdminListDHTOfferResponseType != GatewayDHTDiscoverRequestType &&
			GatewayAdminListDHTOfferResponseType != GatewayDHTDiscoverRequestV2Type &&
			GatewayAdminListDHTOfferResponseType != GatewayDHTDiscoverResponseType &&
			GatewayAdminListDHTOfferResponseType != GatewayDHTDiscoverResponseV2Type &&
			GatewayAdminListDHTOfferResponseType != GatewayListDHTOfferAckType &&
			GatewayAdminListDHTOfferResponseType != GatewayListDHTOfferRequestType &&
			GatewayAdminListDHTOfferResponseType != GatewayListDHTOfferResponseType &&
			GatewayAdminListDHTOfferResponseType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			GatewayAdminListDHTOfferResponseType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			GatewayAdminListDHTOfferResponseType != GatewayPingRequestType &&
			GatewayAdminListDHTOfferResponseType != GatewayPingResponseType &&
			GatewayAdminListDHTOfferResponseType != InvalidMessageResponseType &&
			GatewayAdminListDHTOfferResponseType != ProtocolChangeRequestType &&
			GatewayAdminListDHTOfferResponseType != ProtocolChangeResponseType &&
			GatewayAdminListDHTOfferResponseType != ProviderAdminForceRefreshRequestType &&
			GatewayAdminListDHTOfferResponseType != ProviderAdminForceRefreshResponseType &&
			GatewayAdminListDHTOfferResponseType != ProviderAdminGetPublishedOfferRequestType &&
			GatewayAdminListDHTOfferResponseType != ProviderAdminGetPublishedOfferResponseType &&
			GatewayAdminListDHTOfferResponseType != ProviderAdminInitialiseKeyRequestType &&
			GatewayAdminListDHTOfferResponseType != ProviderAdminInitialiseKeyRequestV2Type &&
			GatewayAdminListDHTOfferResponseType != ProviderAdminInitialiseKeyResponseType &&
			GatewayAdminListDHTOfferResponseType != ProviderAdminPublishDHTOfferRequestType &&
			GatewayAdminListDHTOfferResponseType != ProviderAdminPublishDHTOfferResponseType &&
			GatewayAdminListDHTOfferResponseType != ProviderAdminPublishGroupOfferRequestType &&
			GatewayAdminListDHTOfferResponseType != ProviderAdminPublishGroupOfferResponseType &&
			GatewayAdminListDHTOfferResponseType != ProviderPublishDHTOfferRequestType &&
			GatewayAdminListDHTOfferResponseType != ProviderPublishDHTOfferResponseType &&
			GatewayAdminListDHTOfferResponseType != ProviderPublishGroupOfferRequestType &&
			GatewayAdminListDHTOfferResponseType != ProviderPublishGroupOfferResponseType &&
			GatewayAdminSetReputationRequestType != GatewayAdminSetReputationResponseType &&
			GatewayAdminSetReputationRequestType != GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType &&
			GatewayAdminSetReputationRequestType != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			GatewayAdminSetReputationRequestType != GatewayDHTDiscoverOfferRequestType &&
			GatewayAdminSetReputationRequestType != GatewayDHTDiscoverOfferResponseType &&
			GatewayAdminSetReputationRequestType != GatewayDHTDiscoverRequestType &&
			GatewayAdminSetReputationRequestType != GatewayDHTDiscoverRequestV2Type &&
			GatewayAdminSetReputationRequestType != GatewayDHTDiscoverResponseType &&
			GatewayAdminSetReputationRequestType != GatewayDHTDiscoverResponseV2Type &&
			GatewayAdminSetReputationRequestType != GatewayListDHTOfferAckType &&
			GatewayAdminSetReputationRequestType != GatewayListDHTOfferRequestType &&
			GatewayAdminSetReputationRequestType != GatewayListDHTOfferResponseType &&
			GatewayAdminSetReputationRequestType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			GatewayAdminSetReputationRequestType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			GatewayAdminSetReputationRequestType != GatewayPingRequestType &&
			GatewayAdminSetReputationRequestType != GatewayPingResponseType &&
			GatewayAdminSetReputationRequestType != InvalidMessageResponseType &&
			GatewayAdminSetReputationRequestType != ProtocolChangeRequestType &&
			GatewayAdminSetReputationRequestType != ProtocolChangeResponseType &&
			GatewayAdminSetReputationRequestType != ProviderAdminForceRefreshRequestType &&
			GatewayAdminSetReputationRequestType != ProviderAdminForceRefreshResponseType &&
			GatewayAdminSetReputationRequestType != ProviderAdminGetPublishedOfferRequestType &&
			GatewayAdminSetReputationRequestType != ProviderAdminGetPublishedOfferResponseType &&
			GatewayAdminSetReputationRequestType != ProviderAdminInitialiseKeyRequestType &&
			GatewayAdminSetReputationRequestType != ProviderAdminInitialiseKeyRequestV2Type
	})
	gvEnsures("C04.message-kinds-distinct", func() bool {
		return GatewayAdminSetReputationRequestType != ProviderAdminInitialiseKeyResponseType &&
			GatewayAdminSetReputationRequestType != ProviderAdminPublishDHTOfferRequestType &&
			GatewayAdminSetReputationRequestType != ProviderAdminPublishDHTOfferResponseType &&
			GatewayAdminSetReputationRequestType != ProviderAdminPublishGroupOfferRequestType &&
			GatewayAdminSetReputationRequestType != ProviderAdminPublishGroupOfferResponseType &&
			GatewayAdminSetReputationRequestType != ProviderPublishDHTOfferRequestType &&
			GatewayAdminSetReputationRequestType != ProviderPublishDHTOfferResponseType &&
			GatewayAdminSetReputationRequestType != ProviderPublishGroupOfferRequestType &&
			GatewayAdminSetReputationRequestType != ProviderPublishGroupOfferResponseType &&
			GatewayAdminSetReputationResponseType != GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType &&
			GatewayAdminSetReputationResponseType != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			GatewayAdminSetReputationResponseType != GatewayDHTDiscoverOfferRequestType &&
			GatewayAdminSetReputationResponseType != GatewayDHTDiscoverOfferResponseType &&
			GatewayAdminSetReputationResponseType != GatewayDHTDiscoverRequestType &&
			GatewayAdminSetReputationResponseType != GatewayDHTDiscoverRequestV2Type &&
			GatewayAdminSetReputationResponseType != GatewayDHTDiscoverResponseType &&
			GatewayAdminSetReputationResponseType != GatewayDHTDiscoverResponseV2Type &&
			GatewayAdminSetReputationResponseType != GatewayListDHTOfferAckType &&
			GatewayAdminSetReputationResponseType != GatewayListDHTOfferRequestType &&
			GatewayAdminSetReputationResponseType != GatewayListDHTOfferResponseType &&
			GatewayAdminSetReputationResponseType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			GatewayAdminSetReputationResponseType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			GatewayAdminSetReputationResponseType != GatewayPingRequestType &&
			GatewayAdminSetReputationResponseType != GatewayPingResponseType &&
			GatewayAdminSetReputationResponseType != InvalidMessageResponseType &&
			GatewayAdminSetReputationResponseType != ProtocolChangeRequestType &&
			GatewayAdminSetReputationResponseType != ProtocolChangeResponseType &&
			GatewayAdminSetReputationResponseType != ProviderAdminForceRefreshRequestType &&
			GatewayAdminSetReputationResponseType != ProviderAdminForceRefreshResponseType &&
			GatewayAdminSetReputationResponseType != ProviderAdminGetPublishedOfferRequestType &&
			GatewayAdminSetReputationResponseType != ProviderAdminGetPublishedOfferResponseType &&
			GatewayAdminSetReputationResponseType != ProviderAdminInitialiseKeyRequestType &&
			GatewayAdminSetReputationResponseType != ProviderAdminInitialiseKeyRequestV2Type &&
			GatewayAdminSetReputationResponseType != ProviderAdminInitialiseKeyResponseType &&
			GatewayAdminSetReputationResponseType != ProviderAdminPublishDHTOfferRequestType &&
			GatewayAdminSetReputationResponseType != ProviderAdminPublishDHTOfferResponseType &&
			GatewayAdminSetReputationResponseType != ProviderAdminPublishGroupOfferRequestType &&
			GatewayAdminSetReputationResponseType != ProviderAdminPublishGroupOfferResponseType &&
			GatewayAdminSetReputationResponseType != ProviderPublishDHTOfferRequestType &&
			GatewayAdminSetReputationResponseType != ProviderPublishDHTOfferResponseType &&
			GatewayAdminSetReputationResponseType != ProviderPublishGroupOfferRequestType &&
			GatewayAdminSetReputationResponseType != ProviderPublishGroupOfferResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != GatewayDHTDiscoverOfferRequestType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != GatewayDHTDiscoverOfferResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != GatewayDHTDiscoverRequestType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != GatewayDHTDiscoverRequestV2Type &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != GatewayDHTDiscoverResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != GatewayDHTDiscoverResponseV2Type &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != GatewayListDHTOfferAckType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != GatewayListDHTOfferRequestType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != GatewayListDHTOfferResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != GatewayPingRequestType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != GatewayPingResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != InvalidMessageResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != ProtocolChangeRequestType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != ProtocolChangeResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != ProviderAdminForceRefreshRequestType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != ProviderAdminForceRefreshResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != ProviderAdminGetPublishedOfferRequestType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != ProviderAdminGetPublishedOfferResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != ProviderAdminInitialiseKeyRequestType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != ProviderAdminInitialiseKeyRequestV2Type &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != ProviderAdminInitialiseKeyResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != ProviderAdminPublishDHTOfferRequestType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != ProviderAdminPublishDHTOfferResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != ProviderAdminPublishGroupOfferRequestType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != ProviderAdminPublishGroupOfferResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != ProviderPublishDHTOfferRequestType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != ProviderPublishDHTOfferResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != ProviderPublishGroupOfferRequestType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType != ProviderPublishGroupOfferResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != GatewayDHTDiscoverOfferRequestType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != GatewayDHTDiscoverOfferResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != GatewayDHTDiscoverRequestType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != GatewayDHTDiscoverRequestV2Type &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != GatewayDHTDiscoverResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != GatewayDHTDiscoverResponseV2Type &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != GatewayListDHTOfferAckType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != GatewayListDHTOfferRequestType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != GatewayListDHTOfferResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != GatewayPingRequestType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != GatewayPingResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != InvalidMessageResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != ProtocolChangeRequestType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != ProtocolChangeResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != ProviderAdminForceRefreshRequestType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != ProviderAdminForceRefreshResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != ProviderAdminGetPublishedOfferRequestType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != ProviderAdminGetPublishedOfferResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != ProviderAdminInitialiseKeyRequestType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != ProviderAdminInitialiseKeyRequestV2Type &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != ProviderAdminInitialiseKeyResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != ProviderAdminPublishDHTOfferRequestType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != ProviderAdminPublishDHTOfferResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != ProviderAdminPublishGroupOfferRequestType
	})
	gvEnsures("C04.message-kinds-distinct", func() bool {
		return GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != ProviderAdminPublishGroupOfferResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != ProviderPublishDHTOfferRequestType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != ProviderPublishDHTOfferResponseType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != ProviderPublishGroupOfferRequestType &&
			GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType != ProviderPublishGroupOfferResponseType &&
			GatewayDHTDiscoverOfferRequestType != GatewayDHTDiscoverOfferResponseType &&
			GatewayDHTDiscoverOfferRequestType != GatewayDHTDiscoverRequestType &&
			GatewayDHTDiscoverOfferRequestType != GatewayDHTDiscoverRequestV2Type &&
			GatewayDHTDiscoverOfferRequestType != GatewayDHTDiscoverResponseType &&
			GatewayDHTDiscoverOfferRequestType != GatewayDHTDiscoverResponseV2Type &&
			GatewayDHTDiscoverOfferRequestType != GatewayListDHTOfferAckType &&
			GatewayDHTDiscoverOfferRequestType != GatewayListDHTOfferRequestType &&
			GatewayDHTDiscoverOfferRequestType != GatewayListDHTOfferResponseType &&
			GatewayDHTDiscoverOfferRequestType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			GatewayDHTDiscoverOfferRequestType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			GatewayDHTDiscoverOfferRequestType != GatewayPingRequestType &&
			GatewayDHTDiscoverOfferRequestType != GatewayPingResponseType &&
			GatewayDHTDiscoverOfferRequestType != InvalidMessageResponseType &&
			GatewayDHTDiscoverOfferRequestType != ProtocolChangeRequestType &&
			GatewayDHTDiscoverOfferRequestType != ProtocolChangeResponseType &&
			GatewayDHTDiscoverOfferRequestType != ProviderAdminForceRefreshRequestType &&
			GatewayDHTDiscoverOfferRequestType != ProviderAdminForceRefreshResponseType &&
			GatewayDHTDiscoverOfferRequestType != ProviderAdminGetPublishedOfferRequestType &&
			GatewayDHTDiscoverOfferRequestType != ProviderAdminGetPublishedOfferResponseType &&
			GatewayDHTDiscoverOfferRequestType != ProviderAdminInitialiseKeyRequestType &&
			GatewayDHTDiscoverOfferRequestType != ProviderAdminInitialiseKeyRequestV2Type &&
			GatewayDHTDiscoverOfferRequestType != ProviderAdminInitialiseKeyResponseType &&
			GatewayDHTDiscoverOfferRequestType != ProviderAdminPublishDHTOfferRequestType &&
			GatewayDHTDiscoverOfferRequestType != ProviderAdminPublishDHTOfferResponseType &&
			GatewayDHTDiscoverOfferRequestType != ProviderAdminPublishGroupOfferRequestType &&
			GatewayDHTDiscoverOfferRequestType != ProviderAdminPublishGroupOfferResponseType &&
			GatewayDHTDiscoverOfferRequestType != ProviderPublishDHTOfferRequestType &&
			GatewayDHTDiscoverOfferRequestType != ProviderPublishDHTOfferResponseType &&
			GatewayDHTDiscoverOfferRequestType != ProviderPublishGroupOfferRequestType &&
			GatewayDHTDiscoverOfferRequestType != ProviderPublishGroupOfferResponseType &&
			GatewayDHTDiscoverOfferResponseType != GatewayDHTDiscoverRequestType &&
			GatewayDHTDiscoverOfferResponseType != GatewayDHTDiscoverRequestV2Type &&
			GatewayDHTDiscoverOfferResponseType != GatewayDHTDiscoverResponseType &&
			GatewayDHTDiscoverOfferResponseType != GatewayDHTDiscoverResponseV2Type &&
			GatewayDHTDiscoverOfferResponseType != GatewayListDHTOfferAckType &&
			GatewayDHTDiscoverOfferResponseType != GatewayListDHTOfferRequestType &&
			GatewayDHTDiscoverOfferResponseType != GatewayListDHTOfferResponseType &&
			GatewayDHTDiscoverOfferResponseType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			GatewayDHTDiscoverOfferResponseType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			GatewayDHTDiscoverOfferResponseType != GatewayPingRequestType &&
			GatewayDHTDiscoverOfferResponseType != GatewayPingResponseType &&
			GatewayDHTDiscoverOfferResponseType != InvalidMessageResponseType &&
			GatewayDHTDiscoverOfferResponseType != ProtocolChangeRequestType &&
			GatewayDHTDiscoverOfferResponseType != ProtocolChangeResponseType &&
			GatewayDHTDiscoverOfferResponseType != ProviderAdminForceRefreshRequestType &&
			GatewayDHTDiscoverOfferResponseType != ProviderAdminForceRefreshResponseType &&
			GatewayDHTDiscoverOfferResponseType != ProviderAdminGetPublishedOfferRequestType &&
			GatewayDHTDiscoverOfferResponseType != ProviderAdminGetPublishedOfferResponseType &&
			GatewayDHTDiscoverOfferResponseType != ProviderAdminInitialiseKeyRequestType &&
			GatewayDHTDiscoverOfferResponseType != ProviderAdminInitialiseKeyRequestV2Type &&
			GatewayDHTDiscoverOfferResponseType != ProviderAdminInitialiseKeyResponseType &&
			GatewayDHTDiscoverOfferResponseType != ProviderAdminPublishDHTOfferRequestType &&
			GatewayDHTDiscoverOfferResponseType != ProviderAdminPublishDHTOfferResponseType &&
			GatewayDHTDiscoverOfferResponseType != ProviderAdminPublishGroupOfferRequestType &&
			GatewayDHTDiscoverOfferResponseType != ProviderAdminPublishGroupOfferResponseType &&
			GatewayDHTDiscoverOfferResponseType != ProviderPublishDHTOfferRequestType &&
			GatewayDHTDiscoverOfferResponseType != ProviderPublishDHTOfferResponseType &&
			GatewayDHTDiscoverOfferResponseType != ProviderPublishGroupOfferRequestType &&
			GatewayDHTDiscoverOfferResponseType != ProviderPublishGroupOfferResponseType &&
			GatewayDHTDiscoverRequestType != GatewayDHTDiscoverRequestV2Type &&
			GatewayDHTDiscoverRequestType != GatewayDHTDiscoverResponseType &&
			GatewayDHTDiscoverRequestType != GatewayDHTDiscoverResponseV2Type &&
			GatewayDHTDiscoverRequestType != GatewayListDHTOfferAckType &&
			GatewayDHTDiscoverRequestType != GatewayListDHTOfferRequestType &&
			GatewayDHTDiscoverRequestType != GatewayListDHTOfferResponseType &&
			GatewayDHTDiscoverRequestType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			GatewayDHTDiscoverRequestType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			GatewayDHTDiscoverRequestType != GatewayPingRequestType &&
			GatewayDHTDiscoverRequestType != GatewayPingResponseType &&
			GatewayDHTDiscoverRequestType != InvalidMessageResponseType &&
			GatewayDHTDiscoverRequestType != ProtocolChangeRequestType &&
			GatewayDHTDiscoverRequestType != ProtocolChangeResponseType &&
			GatewayDHTDiscoverRequestType != ProviderAdminForceRefreshRequestType &&
			GatewayDHTDiscoverRequestType != ProviderAdminForceRefreshResponseType &&
			GatewayDHTDiscoverRequestType != ProviderAdminGetPublishedOfferRequestType &&
			GatewayDHTDiscoverRequestType != ProviderAdminGetPublishedOfferResponseType &&
			GatewayDHTDiscoverRequestType != ProviderAdminInitialiseKeyRequestType &&
			GatewayDHTDiscoverRequestType != ProviderAdminInitialiseKeyRequestV2Type &&
			GatewayDHTDiscoverRequestType != ProviderAdminInitialiseKeyResponseType &&
			GatewayDHTDiscoverRequestType != ProviderAdminPublishDHTOfferRequestType &&
			GatewayDHTDiscoverRequestType != ProviderAdminPublishDHTOfferResponseType &&
			GatewayDHTDiscoverRequestType != ProviderAdminPublishGroupOfferRequestType &&
			GatewayDHTDiscoverRequestType != ProviderAdminPublishGroupOfferResponseType &&
			GatewayDHTDiscoverRequestType != ProviderPublishDHTOfferRequestType &&
			GatewayDHTDiscoverRequestType != ProviderPublishDHTOfferResponseType &&
			GatewayDHTDiscoverRequestType != ProviderPublishGroupOfferRequestType &&
			GatewayDHTDiscoverRequestType != ProviderPublishGroupOfferResponseType &&
			GatewayDHTDiscoverRequestV2Type != GatewayDHTDiscoverResponseType &&
			GatewayDHTDiscoverRequestV2Type != GatewayDHTDiscoverResponseV2Type &&
			GatewayDHTDiscoverRequestV2Type != GatewayListDHTOfferAckType &&
			GatewayDHTDiscoverRequestV2Type != GatewayListDHTOfferRequestType &&
			GatewayDHTDiscoverRequestV2Type != GatewayListDHTOfferResponseType &&
			GatewayDHTDiscoverRequestV2Type != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			GatewayDHTDiscoverRequestV2Type != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			GatewayDHTDiscoverRequestV2Type != GatewayPingRequestType
	})
	gvEnsures("C04.message-kinds-distinct", func() bool {
		return GatewayDHTDiscoverRequestV2Type != GatewayPingResponseType &&
			GatewayDHTDiscoverRequestV2Type != InvalidMessageResponseType &&
			GatewayDHTDiscoverRequestV2Type != ProtocolChangeRequestType &&
			GatewayDHTDiscoverRequestV2Type != ProtocolChangeResponseType &&
			GatewayDHTDiscoverRequestV2Type != ProviderAdminForceRefreshRequestType &&
			GatewayDHTDiscoverRequestV2Type != ProviderAdminForceRefreshResponseType &&
			GatewayDHTDiscoverRequestV2Type != ProviderAdminGetPublishedOfferRequestType &&
			GatewayDHTDiscoverRequestV2Type != ProviderAdminGetPublishedOfferResponseType &&
			GatewayDHTDiscoverRequestV2Type != ProviderAdminInitialiseKeyRequestType &&
			GatewayDHTDiscoverRequestV2Type != ProviderAdminInitialiseKeyRequestV2Type &&
			GatewayDHTDiscoverRequestV2Type != ProviderAdminInitialiseKeyResponseType &&
			GatewayDHTDiscoverRequestV2Type != ProviderAdminPublishDHTOfferRequestType &&
			GatewayDHTDiscoverRequestV2Type != ProviderAdminPublishDHTOfferResponseType &&
			GatewayDHTDiscoverRequestV2Type != ProviderAdminPublishGroupOfferRequestType &&
			GatewayDHTDiscoverRequestV2Type != ProviderAdminPublishGroupOfferResponseType &&
			GatewayDHTDiscoverRequestV2Type != ProviderPublishDHTOfferRequestType &&
			GatewayDHTDiscoverRequestV2Type != ProviderPublishDHTOfferResponseType &&
			GatewayDHTDiscoverRequestV2Type != ProviderPublishGroupOfferRequestType &&
			GatewayDHTDiscoverRequestV2Type != ProviderPublishGroupOfferResponseType &&
			GatewayDHTDiscoverResponseType != GatewayDHTDiscoverResponseV2Type &&
			GatewayDHTDiscoverResponseType != GatewayListDHTOfferAckType &&
			GatewayDHTDiscoverResponseType != GatewayListDHTOfferRequestType &&
			GatewayDHTDiscoverResponseType != GatewayListDHTOfferResponseType &&
			GatewayDHTDiscoverResponseType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			GatewayDHTDiscoverResponseType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			GatewayDHTDiscoverResponseType != GatewayPingRequestType &&
			GatewayDHTDiscoverResponseType != GatewayPingResponseType &&
			GatewayDHTDiscoverResponseType != InvalidMessageResponseType &&
			GatewayDHTDiscoverResponseType != ProtocolChangeRequestType &&
			GatewayDHTDiscoverResponseType != ProtocolChangeResponseType &&
			GatewayDHTDiscoverResponseType != ProviderAdminForceRefreshRequestType &&
			GatewayDHTDiscoverResponseType != ProviderAdminForceRefreshResponseType &&
			GatewayDHTDiscoverResponseType != ProviderAdminGetPublishedOfferRequestType &&
			GatewayDHTDiscoverResponseType != ProviderAdminGetPublishedOfferResponseType &&
			GatewayDHTDiscoverResponseType != ProviderAdminInitialiseKeyRequestType &&
			GatewayDHTDiscoverResponseType != ProviderAdminInitialiseKeyRequestV2Type &&
			GatewayDHTDiscoverResponseType != ProviderAdminInitialiseKeyResponseType &&
			GatewayDHTDiscoverResponseType != ProviderAdminPublishDHTOfferRequestType &&
			GatewayDHTDiscoverResponseType != ProviderAdminPublishDHTOfferResponseType &&
			GatewayDHTDiscoverResponseType != ProviderAdminPublishGroupOfferRequestType &&
			GatewayDHTDiscoverResponseType != ProviderAdminPublishGroupOfferResponseType &&
			GatewayDHTDiscoverResponseType != ProviderPublishDHTOfferRequestType &&
			GatewayDHTDiscoverResponseType != ProviderPublishDHTOfferResponseType &&
			GatewayDHTDiscoverResponseType != ProviderPublishGroupOfferRequestType &&
			GatewayDHTDiscoverResponseType != ProviderPublishGroupOfferResponseType &&
			GatewayDHTDiscoverResponseV2Type != GatewayListDHTOfferAckType &&
			GatewayDHTDiscoverResponseV2Type != GatewayListDHTOfferRequestType &&
			GatewayDHTDiscoverResponseV2Type != GatewayListDHTOfferResponseType &&
			GatewayDHTDiscoverResponseV2Type != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			GatewayDHTDiscoverResponseV2Type != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			GatewayDHTDiscoverResponseV2Type != GatewayPingRequestType &&
			GatewayDHTDiscoverResponseV2Type != GatewayPingResponseType &&
			GatewayDHTDiscoverResponseV2Type != InvalidMessageResponseType &&
			GatewayDHTDiscoverResponseV2Type != ProtocolChangeRequestType &&
			GatewayDHTDiscoverResponseV2Type != ProtocolChangeResponseType &&
			GatewayDHTDiscoverResponseV2Type != ProviderAdminForceRefreshRequestType &&
			GatewayDHTDiscoverResponseV2Type != ProviderAdminForceRefreshResponseType &&
			GatewayDHTDiscoverResponseV2Type != ProviderAdminGetPublishedOfferRequestType &&
			GatewayDHTDiscoverResponseV2Type != ProviderAdminGetPublishedOfferResponseType &&
			GatewayDHTDiscoverResponseV2Type != ProviderAdminInitialiseKeyRequestType &&
			GatewayDHTDiscoverResponseV2Type != ProviderAdminInitialiseKeyRequestV2Type &&
			GatewayDHTDiscoverResponseV2Type != ProviderAdminInitialiseKeyResponseType &&
			GatewayDHTDiscoverResponseV2Type != ProviderAdminPublishDHTOfferRequestType &&
			GatewayDHTDiscoverResponseV2Type != ProviderAdminPublishDHTOfferResponseType &&
			GatewayDHTDiscoverResponseV2Type != ProviderAdminPublishGroupOfferRequestType &&
			GatewayDHTDiscoverResponseV2Type != ProviderAdminPublishGroupOfferResponseType &&
			GatewayDHTDiscoverResponseV2Type != ProviderPublishDHTOfferRequestType &&
			GatewayDHTDiscoverResponseV2Type != ProviderPublishDHTOfferResponseType &&
			GatewayDHTDiscoverResponseV2Type != ProviderPublishGroupOfferRequestType &&
			GatewayDHTDiscoverResponseV2Type != ProviderPublishGroupOfferResponseType &&
			GatewayListDHTOfferAckType != GatewayListDHTOfferRequestType &&
			GatewayListDHTOfferAckType != GatewayListDHTOfferResponseType &&
			GatewayListDHTOfferAckType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			GatewayListDHTOfferAckType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			GatewayListDHTOfferAckType != GatewayPingRequestType &&
			GatewayListDHTOfferAckType != GatewayPingResponseType &&
			GatewayListDHTOfferAckType != InvalidMessageResponseType &&
			GatewayListDHTOfferAckType != ProtocolChangeRequestType &&
			GatewayListDHTOfferAckType != ProtocolChangeResponseType &&
			GatewayListDHTOfferAckType != ProviderAdminForceRefreshRequestType &&
			GatewayListDHTOfferAckType != ProviderAdminForceRefreshResponseType &&
			GatewayListDHTOfferAckType != ProviderAdminGetPublishedOfferRequestType &&
			GatewayListDHTOfferAckType != ProviderAdminGetPublishedOfferResponseType &&
			GatewayListDHTOfferAckType != ProviderAdminInitialiseKeyRequestType &&
			GatewayListDHTOfferAckType != ProviderAdminInitialiseKeyRequestV2Type &&
			GatewayListDHTOfferAckType != ProviderAdminInitialiseKeyResponseType &&
			GatewayListDHTOfferAckType != ProviderAdminPublishDHTOfferRequestType &&
			GatewayListDHTOfferAckType != ProviderAdminPublishDHTOfferResponseType &&
			GatewayListDHTOfferAckType != ProviderAdminPublishGroupOfferRequestType &&
			GatewayListDHTOfferAckType != ProviderAdminPublishGroupOfferResponseType &&
			GatewayListDHTOfferAckType != ProviderPublishDHTOfferRequestType &&
			GatewayListDHTOfferAckType != ProviderPublishDHTOfferResponseType &&
			GatewayListDHTOfferAckType != ProviderPublishGroupOfferRequestType &&
			GatewayListDHTOfferAckType != ProviderPublishGroupOfferResponseType &&
			GatewayListDHTOfferRequestType != GatewayListDHTOfferResponseType &&
			GatewayListDHTOfferRequestType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			GatewayListDHTOfferRequestType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			GatewayListDHTOfferRequestType != GatewayPingRequestType &&
			GatewayListDHTOfferRequestType != GatewayPingResponseType &&
			GatewayListDHTOfferRequestType != InvalidMessageResponseType
	})
	gvEnsures("C04.message-kinds-distinct", func() bool {
		return GatewayListDHTOfferRequestType != ProtocolChangeRequestType &&
			GatewayListDHTOfferRequestType != ProtocolChangeResponseType &&
			GatewayListDHTOfferRequestType != ProviderAdminForceRefreshRequestType &&
			GatewayListDHTOfferRequestType != ProviderAdminForceRefreshResponseType &&
			GatewayListDHTOfferRequestType != ProviderAdminGetPublishedOfferRequestType &&
			GatewayListDHTOfferRequestType != ProviderAdminGetPublishedOfferResponseType &&
			GatewayListDHTOfferRequestType != ProviderAdminInitialiseKeyRequestType &&
			GatewayListDHTOfferRequestType != ProviderAdminInitialiseKeyRequestV2Type &&
			GatewayListDHTOfferRequestType != ProviderAdminInitialiseKeyResponseType &&
			GatewayListDHTOfferRequestType != ProviderAdminPublishDHTOfferRequestType &&
			GatewayListDHTOfferRequestType != ProviderAdminPublishDHTOfferResponseType &&
			GatewayListDHTOfferRequestType != ProviderAdminPublishGroupOfferRequestType &&
			GatewayListDHTOfferRequestType != ProviderAdminPublishGroupOfferResponseType &&
			GatewayListDHTOfferRequestType != ProviderPublishDHTOfferRequestType &&
			GatewayListDHTOfferRequestType != ProviderPublishDHTOfferResponseType &&
			GatewayListDHTOfferRequestType != ProviderPublishGroupOfferRequestType &&
			GatewayListDHTOfferRequestType != ProviderPublishGroupOfferResponseType &&
			GatewayListDHTOfferResponseType != GatewayNotifyProviderGroupCIDOfferSupportedRequestType &&
			GatewayListDHTOfferResponseType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			GatewayListDHTOfferResponseType != GatewayPingRequestType &&
			GatewayListDHTOfferResponseType != GatewayPingResponseType &&
			GatewayListDHTOfferResponseType != InvalidMessageResponseType &&
			GatewayListDHTOfferResponseType != ProtocolChangeRequestType &&
			GatewayListDHTOfferResponseType != ProtocolChangeResponseType &&
			GatewayListDHTOfferResponseType != ProviderAdminForceRefreshRequestType &&
			GatewayListDHTOfferResponseType != ProviderAdminForceRefreshResponseType &&
			GatewayListDHTOfferResponseType != ProviderAdminGetPublishedOfferRequestType &&
			GatewayListDHTOfferResponseType != ProviderAdminGetPublishedOfferResponseType &&
			GatewayListDHTOfferResponseType != ProviderAdminInitialiseKeyRequestType &&
			GatewayListDHTOfferResponseType != ProviderAdminInitialiseKeyRequestV2Type &&
			GatewayListDHTOfferResponseType != ProviderAdminInitialiseKeyResponseType &&
			GatewayListDHTOfferResponseType != ProviderAdminPublishDHTOfferRequestType &&
			GatewayListDHTOfferResponseType != ProviderAdminPublishDHTOfferResponseType &&
			GatewayListDHTOfferResponseType != ProviderAdminPublishGroupOfferRequestType &&
			GatewayListDHTOfferResponseType != ProviderAdminPublishGroupOfferResponseType &&
			GatewayListDHTOfferResponseType != ProviderPublishDHTOfferRequestType &&
			GatewayListDHTOfferResponseType != ProviderPublishDHTOfferResponseType &&
			GatewayListDHTOfferResponseType != ProviderPublishGroupOfferRequestType &&
			GatewayListDHTOfferResponseType != ProviderPublishGroupOfferResponseType &&
			GatewayNotifyProviderGroupCIDOfferSupportedRequestType != GatewayNotifyProviderGroupCIDOfferSupportedResponseType &&
			GatewayNotifyProviderGroupCIDOfferSupportedRequestType != InvalidMessageResponseType &&
			GatewayNotifyProviderGroupCIDOfferSupportedRequestType != ProtocolChangeRequestType &&
			GatewayNotifyProviderGroupCIDOfferSupportedRequestType != ProtocolChangeResponseType &&
			GatewayNotifyProviderGroupCIDOfferSupportedRequestType != ProviderAdminForceRefreshRequestType &&
			GatewayNotifyProviderGroupCIDOfferSupportedRequestType != ProviderAdminForceRefreshResponseType &&
			GatewayNotifyProviderGroupCIDOfferSupportedRequestType != ProviderAdminGetPublishedOfferRequestType &&
			GatewayNotifyProviderGroupCIDOfferSupportedRequestType != ProviderAdminGetPublishedOfferResponseType &&
			GatewayNotifyProviderGroupCIDOfferSupportedRequestType != ProviderAdminInitialiseKeyRequestType &&
			GatewayNotifyProviderGroupCIDOfferSupportedRequestType != ProviderAdminInitialiseKeyRequestV2Type &&
			GatewayNotifyProviderGroupCIDOfferSupportedRequestType != ProviderAdminInitialiseKeyResponseType &&
			GatewayNotifyProviderGroupCIDOfferSupportedRequestType != ProviderAdminPublishDHTOfferRequestType &&
			GatewayNotifyProviderGroupCIDOfferSupportedRequestType != ProviderAdminPublishDHTOfferResponseType &&
			GatewayNotifyProviderGroupCIDOfferSupportedRequestType != ProviderAdminPublishGroupOfferRequestType &&
			GatewayNotifyProviderGroupCIDOfferSupportedRequestType != ProviderAdminPublishGroupOfferResponseType &&
			GatewayNotifyProviderGroupCIDOfferSupportedRequestType != ProviderPublishDHTOfferRequestType &&
			GatewayNotifyProviderGroupCIDOfferSupportedRequestType != ProviderPublishDHTOfferResponseType &&
			GatewayNotifyProviderGroupCIDOfferSupportedRequestType != ProviderPublishGroupOfferRequestType &&
			GatewayNotifyProviderGroupCIDOfferSupportedRequestType != ProviderPublishGroupOfferResponseType &&
			GatewayNotifyProviderGroupCIDOfferSupportedResponseType != InvalidMessageResponseType &&
			GatewayNotifyProviderGroupCIDOfferSupportedResponseType != ProtocolChangeRequestType &&
			GatewayNotifyProviderGroupCIDOfferSupportedResponseType != ProtocolChangeResponseType &&
			GatewayNotifyProviderGroupCIDOfferSupportedResponseType != ProviderAdminForceRefreshRequestType &&
			GatewayNotifyProviderGroupCIDOfferSupportedResponseType != ProviderAdminForceRefreshResponseType &&
			GatewayNotifyProviderGroupCIDOfferSupportedResponseType != ProviderAdminGetPublishedOfferRequestType &&
			GatewayNotifyProviderGroupCIDOfferSupportedResponseType != ProviderAdminGetPublishedOfferResponseType &&
			GatewayNotifyProviderGroupCIDOfferSupportedResponseType != ProviderAdminInitialiseKeyRequestType &&
			GatewayNotifyProviderGroupCIDOfferSupportedResponseType != ProviderAdminInitialiseKeyRequestV2Type &&
			GatewayNotifyProviderGroupCIDOfferSupportedResponseType != ProviderAdminInitialiseKeyResponseType &&
			GatewayNotifyProviderGroupCIDOfferSupportedResponseType != ProviderAdminPublishDHTOfferRequestType &&
			GatewayNotifyProviderGroupCIDOfferSupportedResponseType != ProviderAdminPublishDHTOfferResponseType &&
			GatewayNotifyProviderGroupCIDOfferSupportedResponseType != ProviderAdminPublishGroupOfferRequestType &&
			GatewayNotifyProviderGroupCIDOfferSupportedResponseType != ProviderAdminPublishGroupOfferResponseType &&
			GatewayNotifyProviderGroupCIDOfferSupportedResponseType != ProviderPublishDHTOfferRequestType &&
			GatewayNotifyProviderGroupCIDOfferSupportedResponseType != ProviderPublishDHTOfferResponseType &&
			GatewayNotifyProviderGroupCIDOfferSupportedResponseType != ProviderPublishGroupOfferRequestType &&
			GatewayNotifyProviderGroupCIDOfferSupportedResponseType != ProviderPublishGroupOfferResponseType &&
			GatewayPingRequestType != GatewayPingResponseType &&
			GatewayPingRequestType != InvalidMessageResponseType &&
			GatewayPingRequestType != ProtocolChangeRequestType &&
			GatewayPingRequestType != ProtocolChangeResponseType &&
			GatewayPingRequestType != ProviderAdminForceRefreshRequestType &&
			GatewayPingRequestType != ProviderAdminForceRefreshResponseType &&
			GatewayPingRequestType != ProviderAdminGetPublishedOfferRequestType &&
			GatewayPingRequestType != ProviderAdminGetPublishedOfferResponseType &&
			GatewayPingRequestType != ProviderAdminInitialiseKeyRequestType &&
			GatewayPingRequestType != ProviderAdminInitialiseKeyRequestV2Type &&
			GatewayPingRequestType != ProviderAdminInitialiseKeyResponseType &&
			GatewayPingRequestType != ProviderAdminPublishDHTOfferRequestType &&
			GatewayPingRequestType != ProviderAdminPublishDHTOfferResponseType &&
			GatewayPingRequestType != ProviderAdminPublishGroupOfferRequestType &&
			GatewayPingRequestType != ProviderAdminPublishGroupOfferResponseType &&
			GatewayPingRequestType != ProviderPublishDHTOfferRequestType &&
			GatewayPingRequestType != ProviderPublishDHTOfferResponseType &&
			GatewayPingRequestType != ProviderPublishGroupOfferRequestType &&
			GatewayPingRequestType != ProviderPublishGroupOfferResponseType &&
			GatewayPingResponseType != InvalidMessageResponseType &&
			GatewayPingResponseType != ProtocolChangeRequestType &&
			GatewayPingResponseType != ProtocolChangeResponseType &&
			GatewayPingResponseType != ProviderAdminForceRefreshRequestType &&
			GatewayPingResponseType != ProviderAdminForceRefreshResponseType
	})
	gvEnsures("C04.message-kinds-distinct", func() bool {
		return GatewayPingResponseType != ProviderAdminGetPublishedOfferRequestType &&
			GatewayPingResponseType != ProviderAdminGetPublishedOfferResponseType &&
			GatewayPingResponseType != ProviderAdminInitialiseKeyRequestType &&
			GatewayPingResponseType != ProviderAdminInitialiseKeyRequestV2Type &&
			GatewayPingResponseType != ProviderAdminInitialiseKeyResponseType &&
			GatewayPingResponseType != ProviderAdminPublishDHTOfferRequestType &&
			GatewayPingResponseType != ProviderAdminPublishDHTOfferResponseType &&
			GatewayPingResponseType != ProviderAdminPublishGroupOfferRequestType &&
			GatewayPingResponseType != ProviderAdminPublishGroupOfferResponseType &&
			GatewayPingResponseType != ProviderPublishDHTOfferRequestType &&
			GatewayPingResponseType != ProviderPublishDHTOfferResponseType &&
			GatewayPingResponseType != ProviderPublishGroupOfferRequestType &&
			GatewayPingResponseType != ProviderPublishGroupOfferResponseType &&
			InvalidMessageResponseType != ProtocolChangeRequestType &&
			InvalidMessageResponseType != ProtocolChangeResponseType &&
			InvalidMessageResponseType != ProviderAdminForceRefreshRequestType &&
			InvalidMessageResponseType != ProviderAdminForceRefreshResponseType &&
			InvalidMessageResponseType != ProviderAdminGetPublishedOfferRequestType &&
			InvalidMessageResponseType != ProviderAdminGetPublishedOfferResponseType &&
			InvalidMessageResponseType != ProviderAdminInitialiseKeyRequestType &&
			InvalidMessageResponseType != ProviderAdminInitialiseKeyRequestV2Type &&
			InvalidMessageResponseType != ProviderAdminInitialiseKeyResponseType &&
			InvalidMessageResponseType != ProviderAdminPublishDHTOfferRequestType &&
			InvalidMessageResponseType != ProviderAdminPublishDHTOfferResponseType &&
			InvalidMessageResponseType != ProviderAdminPublishGroupOfferRequestType &&
			InvalidMessageResponseType != ProviderAdminPublishGroupOfferResponseType &&
			InvalidMessageResponseType != ProviderPublishDHTOfferRequestType &&
			InvalidMessageResponseType != ProviderPublishDHTOfferResponseType &&
			InvalidMessageResponseType != ProviderPublishGroupOfferRequestType &&
			InvalidMessageResponseType != ProviderPublishGroupOfferResponseType &&
			ProtocolChangeRequestType != ProtocolChangeResponseType &&
			ProtocolChangeRequestType != ProviderAdminForceRefreshRequestType &&
			ProtocolChangeRequestType != ProviderAdminForceRefreshResponseType &&
			ProtocolChangeRequestType != ProviderAdminGetPublishedOfferRequestType &&
			ProtocolChangeRequestType != ProviderAdminGetPublishedOfferResponseType &&
			ProtocolChangeRequestType != ProviderAdminInitialiseKeyRequestType &&
			ProtocolChangeRequestType != ProviderAdminInitialiseKeyRequestV2Type &&
			ProtocolChangeRequestType != ProviderAdminInitialiseKeyResponseType &&
			ProtocolChangeRequestType != ProviderAdminPublishDHTOfferRequestType &&
			ProtocolChangeRequestType != ProviderAdminPublishDHTOfferResponseType &&
			ProtocolChangeRequestType != ProviderAdminPublishGroupOfferRequestType &&
			ProtocolChangeRequestType != ProviderAdminPublishGroupOfferResponseType &&
			ProtocolChangeRequestType != ProviderPublishDHTOfferRequestType &&
			ProtocolChangeRequestType != ProviderPublishDHTOfferResponseType &&
			ProtocolChangeRequestType != ProviderPublishGroupOfferRequestType &&
			ProtocolChangeRequestType != ProviderPublishGroupOfferResponseType &&
			ProtocolChangeResponseType != ProviderAdminForceRefreshRequestType &&
			ProtocolChangeResponseType != ProviderAdminForceRefreshResponseType &&
			ProtocolChangeResponseType != ProviderAdminGetPublishedOfferRequestType &&
			ProtocolChangeResponseType != ProviderAdminGetPublishedOfferResponseType &&
			ProtocolChangeResponseType != ProviderAdminInitialiseKeyRequestType &&
			ProtocolChangeResponseType != ProviderAdminInitialiseKeyRequestV2Type &&
			ProtocolChangeResponseType != ProviderAdminInitialiseKeyResponseType &&
			ProtocolChangeResponseType != ProviderAdminPublishDHTOfferRequestType &&
			ProtocolChangeResponseType != ProviderAdminPublishDHTOfferResponseType &&
			ProtocolChangeResponseType != ProviderAdminPublishGroupOfferRequestType &&
			ProtocolChangeResponseType != ProviderAdminPublishGroupOfferResponseType &&
			ProtocolChangeResponseType != ProviderPublishDHTOfferRequestType &&
			ProtocolChangeResponseType != ProviderPublishDHTOfferResponseType &&
			ProtocolChangeResponseType != ProviderPublishGroupOfferRequestType &&
			ProtocolChangeResponseType != ProviderPublishGroupOfferResponseType &&
			ProviderAdminForceRefreshRequestType != ProviderAdminForceRefreshResponseType &&
			ProviderAdminForceRefreshRequestType != ProviderAdminGetPublishedOfferRequestType &&
			ProviderAdminForceRefreshRequestType != ProviderAdminGetPublishedOfferResponseType &&
			ProviderAdminForceRefreshRequestType != ProviderAdminInitialiseKeyRequestType &&
			ProviderAdminForceRefreshRequestType != ProviderAdminInitialiseKeyRequestV2Type &&
			ProviderAdminForceRefreshRequestType != ProviderAdminInitialiseKeyResponseType &&
			ProviderAdminForceRefreshRequestType != ProviderAdminPublishDHTOfferRequestType &&
			ProviderAdminForceRefreshRequestType != ProviderAdminPublishDHTOfferResponseType &&
			ProviderAdminForceRefreshRequestType != ProviderAdminPublishGroupOfferRequestType &&
			ProviderAdminForceRefreshRequestType != ProviderAdminPublishGroupOfferResponseType &&
			ProviderAdminForceRefreshRequestType != ProviderPublishDHTOfferRequestType &&
			ProviderAdminForceRefreshRequestType != ProviderPublishDHTOfferResponseType &&
			ProviderAdminForceRefreshRequestType != ProviderPublishGroupOfferRequestType &&
			ProviderAdminForceRefreshRequestType != ProviderPublishGroupOfferResponseType &&
			ProviderAdminForceRefreshResponseType != ProviderAdminGetPublishedOfferRequestType &&
			ProviderAdminForceRefreshResponseType != ProviderAdminGetPublishedOfferResponseType &&
			ProviderAdminForceRefreshResponseType != ProviderAdminInitialiseKeyRequestType &&
			ProviderAdminForceRefreshResponseType != ProviderAdminInitialiseKeyRequestV2Type &&
			ProviderAdminForceRefreshResponseType != ProviderAdminInitialiseKeyResponseType &&
			ProviderAdminForceRefreshResponseType != ProviderAdminPublishDHTOfferRequestType &&
			ProviderAdminForceRefreshResponseType != ProviderAdminPublishDHTOfferResponseType &&
			ProviderAdminForceRefreshResponseType != ProviderAdminPublishGroupOfferRequestType &&
			ProviderAdminForceRefreshResponseType != ProviderAdminPublishGroupOfferResponseType &&
			ProviderAdminForceRefreshResponseType != ProviderPublishDHTOfferRequestType &&
			ProviderAdminForceRefreshResponseType != ProviderPublishDHTOfferResponseType &&
			ProviderAdminForceRefreshResponseType != ProviderPublishGroupOfferRequestType &&
			ProviderAdminForceRefreshResponseType != ProviderPublishGroupOfferResponseType &&
			ProviderAdminGetPublishedOfferRequestType != ProviderAdminGetPublishedOfferResponseType &&
			ProviderAdminGetPublishedOfferRequestType != ProviderAdminInitialiseKeyRequestType &&
			ProviderAdminGetPublishedOfferRequestType != ProviderAdminInitialiseKeyRequestV2Type &&
			ProviderAdminGetPublishedOfferRequestType != ProviderAdminInitialiseKeyResponseType &&
			ProviderAdminGetPublishedOfferRequestType != ProviderAdminPublishDHTOfferRequestType &&
			ProviderAdminGetPublishedOfferRequestType != ProviderAdminPublishDHTOfferResponseType &&
			ProviderAdminGetPublishedOfferRequestType != ProviderAdminPublishGroupOfferRequestType &&
			ProviderAdminGetPublishedOfferRequestType != ProviderAdminPublishGroupOfferResponseType &&
			ProviderAdminGetPublishedOfferRequestType != ProviderPublishDHTOfferRequestType &&
			ProviderAdminGetPublishedOfferRequestType != ProviderPublishDHTOfferResponseType &&
			ProviderAdminGetPublishedOfferRequestType != ProviderPublishGroupOfferRequestType &&
			ProviderAdminGetPublishedOfferRequestType != ProviderPublishGroupOfferResponseType
	})
	gvEnsures("C04.message-kinds-distinct", func() bool {
		return ProviderAdminGetPublishedOfferResponseType != ProviderAdminInitialiseKeyRequestType &&
			ProviderAdminGetPublishedOfferResponseType != ProviderAdminInitialiseKeyRequestV2Type &&
			ProviderAdminGetPublishedOfferResponseType != ProviderAdminInitialiseKeyResponseType &&
			ProviderAdminGetPublishedOfferResponseType != ProviderAdminPublishDHTOfferRequestType &&
			ProviderAdminGetPublishedOfferResponseType != ProviderAdminPublishDHTOfferResponseType &&
			ProviderAdminGetPublishedOfferResponseType != ProviderAdminPublishGroupOfferRequestType &&
			ProviderAdminGetPublishedOfferResponseType != ProviderAdminPublishGroupOfferResponseType &&
			ProviderAdminGetPublishedOfferResponseType != ProviderPublishDHTOfferRequestType &&
			ProviderAdminGetPublishedOfferResponseType != ProviderPublishDHTOfferResponseType &&
			ProviderAdminGetPublishedOfferResponseType != ProviderPublishGroupOfferRequestType &&
			ProviderAdminGetPublishedOfferResponseType != ProviderPublishGroupOfferResponseType &&
			ProviderAdminInitialiseKeyRequestType != ProviderAdminInitialiseKeyRequestV2Type &&
			ProviderAdminInitialiseKeyRequestType != ProviderAdminInitialiseKeyResponseType &&
			ProviderAdminInitialiseKeyRequestType != ProviderAdminPublishDHTOfferRequestType &&
			ProviderAdminInitialiseKeyRequestType != ProviderAdminPublishDHTOfferResponseType &&
			ProviderAdminInitialiseKeyRequestType != ProviderAdminPublishGroupOfferRequestType &&
			ProviderAdminInitialiseKeyRequestType != ProviderAdminPublishGroupOfferResponseType &&
			ProviderAdminInitialiseKeyRequestType != ProviderPublishDHTOfferRequestType &&
			ProviderAdminInitialiseKeyRequestType != ProviderPublishDHTOfferResponseType &&
			ProviderAdminInitialiseKeyRequestType != ProviderPublishGroupOfferRequestType &&
			ProviderAdminInitialiseKeyRequestType != ProviderPublishGroupOfferResponseType &&
			ProviderAdminInitialiseKeyRequestV2Type != ProviderAdminInitialiseKeyResponseType &&
			ProviderAdminInitialiseKeyRequestV2Type != ProviderAdminPublishDHTOfferRequestType &&
			ProviderAdminInitialiseKeyRequestV2Type != ProviderAdminPublishDHTOfferResponseType &&
			ProviderAdminInitialiseKeyRequestV2Type != ProviderAdminPublishGroupOfferRequestType &&
			ProviderAdminInitialiseKeyRequestV2Type != ProviderAdminPublishGroupOfferResponseType &&
			ProviderAdminInitialiseKeyRequestV2Type != ProviderPublishDHTOfferRequestType &&
			ProviderAdminInitialiseKeyRequestV2Type != ProviderPublishDHTOfferResponseType &&
			ProviderAdminInitialiseKeyRequestV2Type != ProviderPublishGroupOfferRequestType &&
			ProviderAdminInitialiseKeyRequestV2Type != ProviderPublishGroupOfferResponseType &&
			ProviderAdminInitialiseKeyResponseType != ProviderAdminPublishDHTOfferRequestType &&
			ProviderAdminInitialiseKeyResponseType != ProviderAdminPublishDHTOfferResponseType &&
			ProviderAdminInitialiseKeyResponseType != ProviderAdminPublishGroupOfferRequestType &&
			ProviderAdminInitialiseKeyResponseType != ProviderAdminPublishGroupOfferResponseType &&
			ProviderAdminInitialiseKeyResponseType != ProviderPublishDHTOfferRequestType &&
			ProviderAdminInitialiseKeyResponseType != ProviderPublishDHTOfferResponseType &&
			ProviderAdminInitialiseKeyResponseType != ProviderPublishGroupOfferRequestType &&
			ProviderAdminInitialiseKeyResponseType != ProviderPublishGroupOfferResponseType &&
			ProviderAdminPublishDHTOfferRequestType != ProviderAdminPublishDHTOfferResponseType &&
			ProviderAdminPublishDHTOfferRequestType != ProviderAdminPublishGroupOfferRequestType &&
			ProviderAdminPublishDHTOfferRequestType != ProviderAdminPublishGroupOfferResponseType &&
			ProviderAdminPublishDHTOfferRequestType != ProviderPublishDHTOfferRequestType &&
			ProviderAdminPublishDHTOfferRequestType != ProviderPublishDHTOfferResponseType &&
			ProviderAdminPublishDHTOfferRequestType != ProviderPublishGroupOfferRequestType &&
			ProviderAdminPublishDHTOfferRequestType != ProviderPublishGroupOfferResponseType &&
			ProviderAdminPublishDHTOfferResponseType != ProviderAdminPublishGroupOfferRequestType &&
			ProviderAdminPublishDHTOfferResponseType != ProviderAdminPublishGroupOfferResponseType &&
			ProviderAdminPublishDHTOfferResponseType != ProviderPublishDHTOfferRequestType &&
			ProviderAdminPublishDHTOfferResponseType != ProviderPublishDHTOfferResponseType &&
			ProviderAdminPublishDHTOfferResponseType != ProviderPublishGroupOfferRequestType &&
			ProviderAdminPublishDHTOfferResponseType != ProviderPublishGroupOfferResponseType &&
			ProviderAdminPublishGroupOfferRequestType != ProviderAdminPublishGroupOfferResponseType &&
			ProviderAdminPublishGroupOfferRequestType != ProviderPublishDHTOfferRequestType &&
			ProviderAdminPublishGroupOfferRequestType != ProviderPublishDHTOfferResponseType &&
			ProviderAdminPublishGroupOfferRequestType != ProviderPublishGroupOfferRequestType &&
			ProviderAdminPublishGroupOfferRequestType != ProviderPublishGroupOfferResponseType &&
			ProviderAdminPublishGroupOfferResponseType != ProviderPublishDHTOfferRequestType &&
			ProviderAdminPublishGroupOfferResponseType != ProviderPublishDHTOfferResponseType &&
			ProviderAdminPublishGroupOfferResponseType != ProviderPublishGroupOfferRequestType &&
			ProviderAdminPublishGroupOfferResponseType != ProviderPublishGroupOfferResponseType &&
			ProviderPublishDHTOfferRequestType != ProviderPublishDHTOfferResponseType &&
			ProviderPublishDHTOfferRequestType != ProviderPublishGroupOfferRequestType &&
			ProviderPublishDHTOfferRequestType != ProviderPublishGroupOfferResponseType &&
			ProviderPublishDHTOfferResponseType != ProviderPublishGroupOfferRequestType &&
			ProviderPublishDHTOfferResponseType != ProviderPublishGroupOfferResponseType &&
			ProviderPublishGroupOfferRequestType != ProviderPublishGroupOfferResponseType
	})
	gvEnsures("C04.ping-and-notify-kinds-distinct", func() bool {
		return GatewayNotifyProviderGroupCIDOfferSupportedRequestType != GatewayPingRequestType &&
			GatewayNotifyProviderGroupCIDOfferSupportedRequestType != GatewayPingResponseType &&
			GatewayNotifyProviderGroupCIDOfferSupportedResponseType != GatewayPingRequestType &&
			GatewayNotifyProviderGroupCIDOfferSupportedResponseType != GatewayPingResponseType
	})
}

func specSameMsg(a, b *FCRMessage) bool {
	return a.messageType == b.messageType && a.protocolVersion == b.protocolVersion && a.signature == b.signature &&
		gvBytesEq(a.messageBody, b.messageBody) && len(a.protocolSupported) == len(b.protocolSupported) &&
		gvForall(0, len(a.protocolSupported), func(i int) bool { return a.protocolSupported[i] == b.protocolSupported[i] })
}

func specSameOffer(a, b *cidoffer.CIDOffer) bool {
	return a.GetProviderID() != nil && gvBytesEq(a.GetProviderID().ToBytes(), b.GetProviderID().ToBytes()) &&
		a.GetPrice() == b.GetPrice() && a.GetExpiry() == b.GetExpiry() && a.GetQoS() == b.GetQoS() && a.GetSignature() == b.GetSignature() &&
		len(a.GetCIDs()) == len(b.GetCIDs()) &&
		gvForall(0, len(a.GetCIDs()), func(i int) bool { return gvBytesEq(a.GetCIDs()[i].ToBytes(), b.GetCIDs()[i].ToBytes()) })
}
func specPrivateKey(k *fcrcrypto.KeyPair) bool {
	_, err := fcrcrypto.DecodePrivateKey(k.EncodePrivateKey())
	return err == nil
}

// offers as the constructors and decoders of cidoffer make them
func specOfferOK(o *cidoffer.CIDOffer) bool {
	return o.GetProviderID() != nil && len(o.GetProviderID().ToBytes()) == 32 && len(o.GetCIDs()) > 0 &&
		gvForall(0, len(o.GetCIDs()), func(i int) bool { return len(o.GetCIDs()[i].ToBytes()) == 32 })
}
func specOffersOK(os []cidoffer.CIDOffer) bool {
	return gvForall(0, len(os), func(i int) bool { return specOfferOK(&os[i]) })
}
func specSubOfferOK(o *cidoffer.SubCIDOffer) bool {
	return o.GetProviderID() != nil && len(o.GetProviderID().ToBytes()) == 32 && o.GetSubCID() != nil && len(o.GetSubCID().ToBytes()) == 32 && o.GetMerkleProof() != nil
}
func specOffersOKSub(os []cidoffer.SubCIDOffer) bool {
	return gvForall(0, len(os), func(i int) bool { return specSubOfferOK(&os[i]) })
}
