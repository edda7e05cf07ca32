package gatewayapi

import (
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmerkletree"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcroffermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/provider/internal/core"
	"sync"
	"time"
)

// ghost state of one request: the gateway it claims to come from, its register entry and key, and
// whether it has verified under that key
var gvSender *nodeid.NodeID
var gvDecoded *fcrmessages.FCRMessage
var gvEntry register.GatewayRegistrar
var gvKey *fcrcrypto.KeyPair
var gvVerified bool

func specStart() {
	gvSender, gvDecoded, gvEntry, gvKey = nil, nil, nil, nil
	gvVerified = false
	gvRead = nil
	gvReadVerified = false
	gvAckBody = nil
	gvAckOK = false
}

func spec_entry(mgr *fcrregistermgr.FCRRegisterMgr, id *nodeid.NodeID, e register.GatewayRegistrar) {
	gvAssert("C12.entry-of-the-sender", func() bool { return gvSender != nil && id == gvSender })
	gvEntry = e
}

func spec_key(e register.GatewayRegistrar, k *fcrcrypto.KeyPair, err error) {
	if err == nil && gvEntry != nil && e == gvEntry {
		gvKey = k
	}
}

func spec_verified(m *fcrmessages.FCRMessage, k *fcrcrypto.KeyPair, err error) {
	if err == nil && k != nil && k == gvKey {
		if m == gvDecoded {
			gvVerified = true
		}
		if m == gvRead {
			gvReadVerified = true
		}
	}
}

// every answer is signed with the key and version installed, and only verified messages are answered
func spec_signed(m *fcrmessages.FCRMessage, key *fcrcrypto.KeyPair, ver *fcrcrypto.KeyVersion) {
	c := core.SpecCore()
	gvAssert("C21.answers-signed-with-the-installed-key", func() bool { return key == c.ProviderPrivateKey && ver == c.ProviderPrivateKeyVersion })
	gvAssert("C12.answers-only-verified-messages", func() bool { return gvVerified })
}

// ---- group offer support

func spec_decodedSupport(m *fcrmessages.FCRMessage, id *nodeid.NodeID, supported bool, err error) {
	if err == nil {
		gvSender, gvDecoded = id, m
	}
}

func spec_changes(mu *sync.Mutex) {
	gvAssert("C12.changes-support-only-for-verified-messages", func() bool { return gvVerified })
}

//gv:target HandleGatewayNotifyProviderGroupCIDOfferSupportRequest
//gv:props C12,C21
//gv:nofalsify
//gv:nopanic C12.no-crash
//gv:locks C19.support-locks
//gv:aftercall common/pkg/fcrmessages.DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest spec_decodedSupport
//gv:aftercall (*common/pkg/fcrregistermgr.FCRRegisterMgr).GetGateway spec_entry
//gv:aftercall (common/pkg/register.GatewayRegistrar).GetSigningKey spec_key
//gv:aftercall (*common/pkg/fcrmessages.FCRMessage).Verify spec_verified
//gv:oncall (*common/pkg/fcrmessages.FCRMessage).Sign spec_signed
//gv:oncall (*sync.Mutex).Lock spec_changes
func contract_GroupSupport(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, request *fcrmessages.FCRMessage) {
	gvRequires(func() bool { return fcrp2pserver.SpecWriter(w) && request != nil && core.SpecStarted(core.SpecCore()) })
	specStart()
	c := core.SpecCore()
	before := c.GroupOfferGatewayIDs
	HandleGatewayNotifyProviderGroupCIDOfferSupportRequest(r, w, request)
	gvEnsures("C12.support-unchanged-unless-verified", func() bool { return gvVerified || gvSame(c.GroupOfferGatewayIDs, before) })
}

// ---- listing offers and recording acknowledgements

var gvRead *fcrmessages.FCRMessage
var gvReadVerified bool
var gvAckBody []byte
var gvAckOK bool

func spec_decodedList(m *fcrmessages.FCRMessage, id *nodeid.NodeID, a *cid.ContentID, b *cid.ContentID, block string, receipt string, root string, proof *fcrmerkletree.FCRMerkleProof, err error) {
	if err == nil {
		gvSender, gvDecoded = id, m
	}
}

func spec_read(r *fcrp2pserver.FCRServerReader, t time.Duration, m *fcrmessages.FCRMessage, err error) {
	gvRead = m
	gvReadVerified = false
}

func spec_lists(mgr *fcroffermgr.FCROfferMgr, a, b *cid.ContentID, n int) {
	gvAssert("C12.lists-only-for-verified-messages", func() bool { return gvVerified })
}

func spec_acksDecode(m *fcrmessages.FCRMessage) {
	gvAssert("C16.acts-only-on-verified-acknowledgements", func() bool { return gvRead != nil && gvReadVerified && m == gvRead })
}

func spec_ackVerified(k *fcrcrypto.KeyPair, sig string, body []byte, ok bool, err error) {
	gvAckOK = ok && err == nil && k != nil && k == gvKey
	gvAckBody = body
}

func spec_records(mu *sync.RWMutex) {
	gvAssert("C16.records-only-verified-acknowledgements", func() bool { return gvRead != nil && gvReadVerified && gvAckOK })
}

func inv_ready(c *core.Core) bool {
	return fcrcrypto.SpecSigner(c.ProviderPrivateKey) && gvVerified && (gvRead == nil || gvReadVerified) && fcrcrypto.SpecKeyPair(gvKey)
}

func inv_single(offers []cidoffer.CIDOffer) bool {
	return gvForall(0, len(offers), func(i int) bool { return cidoffer.SpecProvider(&offers[i]) && len(offers[i].GetCIDs()) == 1 })
}

func specMaps(c *core.Core) bool {
	return gvForallStr(func(k string) bool { _, ok := c.AcknowledgementMap[k]; return !ok || c.AcknowledgementMap[k] != nil })
}

func inv_maps(c *core.Core) bool { return specMaps(c) }

func inv_locks(c *core.Core) bool { return gvLockState(&c.AcknowledgementMapLock) <= 0 && gvLockState(&c.AcknowledgementMapLock) >= 0 }

//gv:target HandleGatewayListDHTOfferRequest
//gv:props C16
//gv:thorough
//gv:nofalsify
//gv:nopanic C16.no-crash
//gv:locks C19.acknowledgement-locks
//gv:aftercall common/pkg/fcrmessages.DecodeGatewayListDHTOfferRequest spec_decodedList
//gv:aftercall (*common/pkg/fcrregistermgr.FCRRegisterMgr).GetGateway spec_entry
//gv:aftercall (common/pkg/register.GatewayRegistrar).GetSigningKey spec_key
//gv:aftercall (*common/pkg/fcrmessages.FCRMessage).Verify spec_verified
//gv:aftercall (*common/pkg/fcrp2pserver.FCRServerReader).Read spec_read
//gv:oncall (*common/pkg/fcroffermgr.FCROfferMgr).GetDHTOffersWithinRange spec_lists
//gv:oncall (*common/pkg/fcrmessages.FCRMessage).Sign spec_signed
//gv:oncall common/pkg/fcrmessages.DecodeGatewayListDHTOfferAck spec_acksDecode
//gv:aftercall common/pkg/fcrcrypto.VerifyMessage spec_ackVerified
//gv:oncall (*sync.RWMutex).Lock spec_records
//gv:apply common/pkg/fcrcrypto.VerifyMessage
//gv:use inv_ready,inv_single,inv_maps
func contract_ListOffers(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, request *fcrmessages.FCRMessage) {
	gvRequires(func() bool { return fcrp2pserver.SpecWriter(w) && fcrp2pserver.SpecReader(r) && request != nil && core.SpecStarted(core.SpecCore()) && specMaps(core.SpecCore()) })
	specStart()
	HandleGatewayListDHTOfferRequest(r, w, request)
}
