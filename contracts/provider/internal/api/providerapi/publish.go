package providerapi

import (
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/provider/internal/core"
	"sync"
	"time"
)

// ghost state of one publication: the message published, the gateway it goes to, its register entry
// and key, the answer read, and whether the answer and the acknowledgement in it have verified
var gvRequest *fcrmessages.FCRMessage
var gvGatewayID *nodeid.NodeID
var gvEntry register.GatewayRegistrar
var gvKey *fcrcrypto.KeyPair
var gvRead *fcrmessages.FCRMessage
var gvReadVerified bool
var gvAckSig string
var gvAckDecoded bool
var gvAckVerified bool
var gvWrote bool

func specStart(id *nodeid.NodeID) {
	gvRequest, gvEntry, gvKey, gvRead = nil, nil, nil, nil
	gvGatewayID = id
	gvCIDs = nil
	gvRecorded = 0
	gvReadVerified, gvAckDecoded, gvAckVerified, gvWrote = false, false, false, false
	gvAckSig = ""
}

func spec_encoded(id *nodeid.NodeID, nonce int64, offers []cidoffer.CIDOffer, m *fcrmessages.FCRMessage, err error) {
	gvAssert("C16.publishes-in-its-own-name", func() bool { return id == core.SpecCore().ProviderID })
	if err == nil {
		gvRequest = m
	}
}

func spec_signed(m *fcrmessages.FCRMessage, key *fcrcrypto.KeyPair, ver *fcrcrypto.KeyVersion) {
	c := core.SpecCore()
	gvAssert("C21.messages-signed-with-the-installed-key", func() bool { return key == c.ProviderPrivateKey && ver == c.ProviderPrivateKeyVersion })
}

func spec_writes(w *fcrp2pserver.FCRServerWriter, m *fcrmessages.FCRMessage, t time.Duration) {
	gvAssert("C16.publishes-the-message-encoded", func() bool { return gvRequest != nil && m == gvRequest })
	gvWrote = true
}

func spec_entry(mgr *fcrregistermgr.FCRRegisterMgr, id *nodeid.NodeID, e register.GatewayRegistrar) {
	gvAssert("C16.entry-of-the-gateway-asked", func() bool { return id == gvGatewayID })
	gvEntry = e
}

func spec_key(e register.GatewayRegistrar, k *fcrcrypto.KeyPair, err error) {
	if err == nil && gvEntry != nil && e == gvEntry {
		gvKey = k
	}
}

func spec_read(r *fcrp2pserver.FCRServerReader, t time.Duration, m *fcrmessages.FCRMessage, err error) {
	gvRead = m
	gvReadVerified = false
}

func spec_verified(m *fcrmessages.FCRMessage, k *fcrcrypto.KeyPair, err error) {
	if err == nil && k != nil && k == gvKey && m == gvRead {
		gvReadVerified = true
	}
}

func spec_ackDecoded(m *fcrmessages.FCRMessage, nonce int64, sig string, err error) {
	if err == nil && m == gvRead {
		gvAckSig, gvAckDecoded = sig, true
	}
}

func spec_ackVerified(k *fcrcrypto.KeyPair, sig string, body []byte, ok bool, err error) {
	if ok && err == nil && k != nil && k == gvKey && gvAckDecoded && sig == gvAckSig && gvRequest != nil && gvSame(body, gvRequest.GetMessageBody()) {
		gvAckVerified = true
	}
}

func spec_locks(mu *sync.RWMutex) {
	gvAssert("C16.records-only-verified-acknowledgements", func() bool { return gvWrote && gvReadVerified && gvAckVerified })
}

func specSameMessage(a, b *fcrmessages.FCRMessage) bool {
	return gvSame(a.GetMessageBody(), b.GetMessageBody()) && a.GetMessageType() == b.GetMessageType() && a.GetSignature() == b.GetSignature()
}

// the content identifiers looked at last and how many acknowledgements have been recorded
var gvCIDs []cid.ContentID
var gvRecorded int

func spec_cids(o *cidoffer.CIDOffer, cids []cid.ContentID) { gvCIDs = cids }

func spec_unlocks(mu *sync.RWMutex) {
	c := core.SpecCore()
	if mu == &c.AcknowledgementMapLock {
		gvAssert("C16.records-exactly-the-pair", func() bool {
			if len(gvCIDs) != 1 {
				return false
			}
			byGateway, ok := c.AcknowledgementMap[gvCIDs[0].ToString()]
			if !ok {
				return false
			}
			a, ok := byGateway[gvGatewayID.ToString()]
			return ok && specSameMessage(&a.Msg, gvRequest) && specSameMessage(&a.MsgAck, gvRead)
		})
		gvRecorded++
	}
}

func specMaps(c *core.Core) bool {
	return gvForallStr(func(k string) bool { _, ok := c.AcknowledgementMap[k]; return !ok || c.AcknowledgementMap[k] != nil })
}

func specSingle(offers []cidoffer.CIDOffer) bool {
	return gvForall(0, len(offers), func(i int) bool { return cidoffer.SpecProvider(&offers[i]) && len(offers[i].GetCIDs()) == 1 })
}

func inv_locks(c *core.Core) bool {
	return gvLockState(&c.NodeOfferMapLock) == 0 && gvLockState(&c.AcknowledgementMapLock) == 0
}

func inv_maps(c *core.Core) bool { return specMaps(c) }

func inv_single(offers []cidoffer.CIDOffer) bool { return specSingle(offers) }

func inv_recorded(i int) bool { return gvRecorded == i+1 }

//gv:target RequestProviderPublishDHTOffer
//gv:props C16,C19,C21
//gv:nofalsify
//gv:nopanic C16.no-crash
//gv:locks C19.acknowledgement-locks
//gv:apply common/pkg/fcrcrypto.VerifyMessage
//gv:aftercall common/pkg/fcrmessages.EncodeProviderPublishDHTOfferRequest spec_encoded
//gv:oncall (*common/pkg/fcrmessages.FCRMessage).Sign spec_signed
//gv:oncall (*common/pkg/fcrp2pserver.FCRServerWriter).Write spec_writes
//gv:aftercall (*common/pkg/fcrp2pserver.FCRServerReader).Read spec_read
//gv:aftercall (*common/pkg/fcrregistermgr.FCRRegisterMgr).GetGateway spec_entry
//gv:aftercall (common/pkg/register.GatewayRegistrar).GetSigningKey spec_key
//gv:aftercall (*common/pkg/fcrmessages.FCRMessage).Verify spec_verified
//gv:aftercall common/pkg/fcrmessages.DecodeProviderPublishDHTOfferResponse spec_ackDecoded
//gv:aftercall common/pkg/fcrcrypto.VerifyMessage spec_ackVerified
//gv:oncall (*sync.RWMutex).Lock spec_locks
//gv:aftercall (*common/pkg/cidoffer.CIDOffer).GetCIDs spec_cids
//gv:oncall (*sync.RWMutex).Unlock spec_unlocks
//gv:use inv_recorded,inv_locks,inv_maps,inv_single
func contract_PublishDHT(reader *fcrp2pserver.FCRServerReader, writer *fcrp2pserver.FCRServerWriter, offers []cidoffer.CIDOffer, gatewayID *nodeid.NodeID) {
	c := core.SpecCore()
	gvRequires(func() bool { return fcrp2pserver.SpecReader(reader) && fcrp2pserver.SpecWriter(writer) && core.SpecStarted(c) && gatewayID != nil })
	gvRequires(func() bool { return specSingle(offers) && specMaps(c) })
	specStart(gatewayID)
	_, err := RequestProviderPublishDHTOffer(reader, writer, offers, gatewayID)
	gvEnsures("C16.acknowledged-only-if-verified", func() bool { return err != nil || gvWrote && gvReadVerified && gvAckVerified })
	gvEnsures("C16.acknowledgements-recorded", func() bool { return err != nil || gvRecorded == len(offers) })
}
