package clientapi

import (
	"github.com/ant0ine/go-json-rest/rest"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/provider/internal/core"
)

// ghost state of one request: what is asked, the answer encoded last and what it says, and
// whether it is signed
var gvDecoded bool
var gvCID *cid.ContentID
var gvGateway *nodeid.NodeID
var gvResponse *fcrmessages.FCRMessage
var gvSays bool
var gvSigned bool

func spec_decoded(m *fcrmessages.FCRMessage, c *cid.ContentID, g *nodeid.NodeID, err error) {
	if err == nil {
		gvDecoded, gvCID, gvGateway = true, c, g
	}
}

func specRecord() (core.DHTAcknowledgement, bool) {
	gateways, ok := core.SpecCore().AcknowledgementMap[gvCID.ToString()]
	if !ok {
		return core.DHTAcknowledgement{}, false
	}
	a, ok := gateways[gvGateway.ToString()]
	return a, ok
}

func specSameMessage(a, b *fcrmessages.FCRMessage) bool {
	return gvSame(a.GetMessageBody(), b.GetMessageBody()) && a.GetMessageType() == b.GetMessageType() && a.GetSignature() == b.GetSignature()
}

func spec_encoded(c *cid.ContentID, g *nodeid.NodeID, found bool, msg, ack, m *fcrmessages.FCRMessage, err error) {
	gvResponse = nil
	if err == nil {
		gvResponse, gvSigned, gvSays = m, false, found
		gvAssert("C16.answers-for-the-record-asked", func() bool { return c == gvCID && g == gvGateway })
		if found {
			gvAssert("C16.answers-exactly-the-recorded-pair", func() bool {
				a, ok := specRecord()
				return ok && msg != nil && ack != nil && specSameMessage(msg, &a.Msg) && specSameMessage(ack, &a.MsgAck)
			})
		}
	}
}

func spec_signed(m *fcrmessages.FCRMessage, key *fcrcrypto.KeyPair, ver *fcrcrypto.KeyVersion, err error) {
	c := core.SpecCore()
	gvAssert("C21.answers-signed-with-the-installed-key", func() bool { return key == c.ProviderPrivateKey && ver == c.ProviderPrivateKeyVersion })
	if m == gvResponse && err == nil {
		gvSigned = true
	}
}

func spec_writes(w rest.ResponseWriter, v interface{}) {
	gvAssert("C16.answers-with-the-signed-message", func() bool { return gvResponse != nil && gvSigned && gvSame(v, gvResponse) })
	gvAssert("C16.says-found-exactly-when-recorded", func() bool {
		_, ok := specRecord()
		return gvSays == ok
	})
}

//gv:target HandleClientDHTOfferAckRequest
//gv:props C16,C21,C19
//gv:nofalsify
//gv:nopanic C16.no-crash
//gv:locks C19.acknowledgement-locks
//gv:inline common/pkg/fcrmessages.*
//gv:aftercall common/pkg/fcrmessages.DecodeClientDHTOfferAckRequest spec_decoded
//gv:aftercall common/pkg/fcrmessages.EncodeClientDHTOfferAckResponse spec_encoded
//gv:aftercall (*common/pkg/fcrmessages.FCRMessage).Sign spec_signed
//gv:oncall (github.com/ant0ine/go-json-rest/rest.ResponseWriter).WriteJson spec_writes
func contract_Ack(w rest.ResponseWriter, request *fcrmessages.FCRMessage) {
	gvRequires(func() bool { return w != nil && request != nil && core.SpecStarted(core.SpecCore()) })
	gvDecoded, gvSays, gvSigned = false, false, false
	gvCID, gvGateway, gvResponse = nil, nil, nil
	HandleClientDHTOfferAckRequest(w, request)
}
