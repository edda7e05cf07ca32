package providerapi

import (
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/offermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/gateway/internal/core"
)

// ghost state of one publication: who it claims to come from, that node's register entry and key,
// and whether the message has verified under that key
var gvSender *nodeid.NodeID
var gvDecoded *fcrmessages.FCRMessage
var gvEntry register.ProviderRegistrar
var gvKey *fcrcrypto.KeyPair
var gvVerified bool
var gvOffer *cidoffer.CIDOffer
var gvOffers []cidoffer.CIDOffer

func specStart() {
	gvSender = nil
	gvDecoded = nil
	gvEntry = nil
	gvKey = nil
	gvVerified = false
}

// specUFGood: the offer has verified under the key of the publication's sender
func specUFGood(o cidoffer.CIDOffer) bool { return true }

func spec_decoded(m *fcrmessages.FCRMessage, id *nodeid.NodeID, nonce int64, offers []cidoffer.CIDOffer, err error) {
	if err == nil {
		gvSender, gvDecoded, gvOffers = id, m, offers
	}
}

func spec_decodedGroup(m *fcrmessages.FCRMessage, id *nodeid.NodeID, nonce int64, offer *cidoffer.CIDOffer, err error) {
	if err == nil {
		gvSender, gvDecoded, gvOffer = id, m, offer
	}
}

func spec_entry(mgr *fcrregistermgr.FCRRegisterMgr, id *nodeid.NodeID, e register.ProviderRegistrar) {
	gvAssert("C12.entry-of-the-sender", func() bool { return gvSender != nil && id == gvSender })
	gvEntry = e
}

func spec_key(e register.ProviderRegistrar, k *fcrcrypto.KeyPair, err error) {
	if err == nil && gvEntry != nil && e == gvEntry {
		gvKey = k
	}
}

func spec_verified(m *fcrmessages.FCRMessage, k *fcrcrypto.KeyPair, err error) {
	if err == nil && k != nil && k == gvKey && m == gvDecoded {
		gvVerified = true
	}
}

func spec_offerVerified(o *cidoffer.CIDOffer, k *fcrcrypto.KeyPair, err error) {
	gvAssume("marks the offers that verified under the sender's key", func() bool { return err != nil || k == nil || k != gvKey || specUFGood(*o) })
}

func spec_store(mgr *offermgr.FCROfferMgr, o *cidoffer.CIDOffer) {
	gvAssert("C12.stores-only-from-verified-messages", func() bool { return gvVerified })
	gvAssert("C12.stores-only-verified-offers", func() bool { return specUFGood(*o) })
	gvAssert("C12.one-bad-offer-refuses-all", func() bool {
		return gvForall(0, len(gvOffers), func(i int) bool { return specUFGood(gvOffers[i]) })
	})
}

func spec_storeGroup(mgr *offermgr.FCROfferMgr, o *cidoffer.CIDOffer) {
	gvAssert("C12.stores-only-from-verified-messages", func() bool { return gvVerified && o == gvOffer })
	gvAssert("C12.stores-only-verified-offers", func() bool { return specUFGood(*o) })
}

// every answer is signed with the key and version installed, and only verified messages are answered
func spec_signed(m *fcrmessages.FCRMessage, key *fcrcrypto.KeyPair, ver *fcrcrypto.KeyVersion) {
	c := core.SpecCore()
	gvAssert("C21.answers-signed-with-the-installed-key", func() bool { return key == c.GatewayPrivateKey && ver == c.GatewayPrivateKeyVersion })
	gvAssert("C12.answers-only-verified-messages", func() bool { return gvVerified })
}

func spec_acked(key *fcrcrypto.KeyPair, ver *fcrcrypto.KeyVersion, b []byte) {
	gvAssert("C12.acknowledges-only-verified-messages", func() bool { return gvVerified })
}

func inv_good(offers []cidoffer.CIDOffer, i int) bool {
	return gvForall(0, i+1, func(j int) bool { return specUFGood(offers[j]) })
}

func inv_allGood(offers []cidoffer.CIDOffer) bool {
	return gvForall(0, len(offers), func(j int) bool { return specUFGood(offers[j]) })
}

func inv_key(c *core.Core) bool { return fcrcrypto.SpecKeyPair(gvKey) }

//gv:target HandleProviderPublishDHTOfferRequest
//gv:props C12,C21
//gv:nofalsify
//gv:nopanic C12.no-crash
//gv:aftercall common/pkg/fcrmessages.DecodeProviderPublishDHTOfferRequest spec_decoded
//gv:aftercall (*common/pkg/fcrregistermgr.FCRRegisterMgr).GetProvider spec_entry
//gv:aftercall (common/pkg/register.ProviderRegistrar).GetSigningKey spec_key
//gv:aftercall (*common/pkg/fcrmessages.FCRMessage).Verify spec_verified
//gv:aftercall (*common/pkg/cidoffer.CIDOffer).Verify spec_offerVerified
//gv:oncall (*common/pkg/offermgr.FCROfferMgr).AddDHTOffer spec_store
//gv:oncall (*common/pkg/fcrmessages.FCRMessage).Sign spec_signed
//gv:oncall common/pkg/fcrcrypto.SignMessage spec_acked
//gv:use inv_good,inv_allGood,inv_key
func contract_PublishDHT(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, request *fcrmessages.FCRMessage) {
	gvRequires(func() bool { return fcrp2pserver.SpecWriter(w) && request != nil && core.SpecStarted(core.SpecCore()) })
	specStart()
	HandleProviderPublishDHTOfferRequest(r, w, request)
}

//gv:target HandleProviderPublishGroupOfferRequest
//gv:props C12,C21
//gv:nofalsify
//gv:nopanic C12.no-crash
//gv:aftercall common/pkg/fcrmessages.DecodeProviderPublishGroupOfferRequest spec_decodedGroup
//gv:aftercall (*common/pkg/fcrregistermgr.FCRRegisterMgr).GetProvider spec_entry
//gv:aftercall (common/pkg/register.ProviderRegistrar).GetSigningKey spec_key
//gv:aftercall (*common/pkg/fcrmessages.FCRMessage).Verify spec_verified
//gv:aftercall (*common/pkg/cidoffer.CIDOffer).Verify spec_offerVerified
//gv:oncall (*common/pkg/offermgr.FCROfferMgr).AddGroupOffer spec_storeGroup
//gv:oncall (*common/pkg/fcrmessages.FCRMessage).Sign spec_signed
func contract_PublishGroup(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, request *fcrmessages.FCRMessage) {
	gvRequires(func() bool { return fcrp2pserver.SpecWriter(w) && request != nil && core.SpecStarted(core.SpecCore()) })
	specStart()
	HandleProviderPublishGroupOfferRequest(r, w, request)
}
