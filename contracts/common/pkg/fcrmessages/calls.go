package fcrmessages

import (
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
)

// what the provider's handlers rely on when they call the codecs

//gv:target DecodeGatewayListDHTOfferRequest
//gv:props C04,C12
//gv:modular
//gv:nopanic C04.decode-no-panic
//gv:frame C04.decode-frame
//gv:fresh 0 1 2 6
func contract_DecodeListRequestCall(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	id, min, max, _, _, _, proof, err := DecodeGatewayListDHTOfferRequest(fcrMsg)
	gvEnsures("C04.accepted-is-complete", func() bool {
		return err != nil || id != nil && len(id.ToBytes()) == 32 && min != nil && max != nil && proof != nil
	})
}

//gv:target EncodeProviderPublishDHTOfferRequest
//gv:props C04,C12
//gv:modular
//gv:nopanic C04.encode-no-panic
//gv:frame C04.encode-frame
//gv:fresh 0
func contract_EncodePublishDHTCall(providerID *nodeid.NodeID, nonce int64, offers []cidoffer.CIDOffer) {
	gvRequires(func() bool { return providerID != nil })
	gvRequires(func() bool { return gvForall(0, len(offers), func(i int) bool { return cidoffer.SpecProvider(&offers[i]) }) })
	m, err := EncodeProviderPublishDHTOfferRequest(providerID, nonce, offers)
	gvEnsures("C04.message-or-error", func() bool { return (err == nil) == (m != nil) })
}

//gv:target EncodeGatewayListDHTOfferResponse
//gv:props C04,C12
//gv:modular
//gv:nopanic C04.encode-no-panic
//gv:frame C04.encode-frame
//gv:fresh 0
func contract_EncodeListResponseCall(msgs []FCRMessage) {
	m, err := EncodeGatewayListDHTOfferResponse(msgs)
	gvEnsures("C04.message-or-error", func() bool { return (err == nil) == (m != nil) })
}

//gv:target DecodeGatewayListDHTOfferAck
//gv:props C04,C12
//gv:modular
//gv:nopanic C04.decode-no-panic
//gv:frame C04.decode-frame
//gv:fresh 0
func contract_DecodeListAckCall(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	DecodeGatewayListDHTOfferAck(fcrMsg)
}

//gv:target DecodeProviderPublishDHTOfferResponse
//gv:props C04,C12
//gv:modular
//gv:nopanic C04.decode-no-panic
//gv:frame C04.decode-frame
func contract_DecodePublishDHTAckCall(fcrMsg *FCRMessage) {
	gvRequires(func() bool { return fcrMsg != nil })
	DecodeProviderPublishDHTOfferResponse(fcrMsg)
}
