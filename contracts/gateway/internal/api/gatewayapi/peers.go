package gatewayapi

import (
	"math/big"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrpaymentmgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/offermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/gateway/internal/core"
)

// ghost state of one request of a peer: who it claims to come from, that node's register entry and
// key, whether the request has verified under that key, and what was paid with it
var gvSender *nodeid.NodeID
var gvDecoded *fcrmessages.FCRMessage
var gvEntry register.GatewayRegistrar
var gvPEntry register.ProviderRegistrar
var gvKey *fcrcrypto.KeyPair
var gvVerified bool
var gvGot bool
var gvPaid *big.Int
var gvUnits int64
var gvOffer *big.Int
var gvSearch *big.Int
var gvAnswer *fcrmessages.FCRMessage

func specStart() {
	c := core.SpecCore()
	gvSender, gvDecoded, gvEntry, gvPEntry, gvKey = nil, nil, nil, nil, nil
	gvVerified = false
	gvGot = false
	gvPaid = nil
	gvUnits = 0
	gvAnswer = nil
	gvOffer = new(big.Int).Set(c.Settings.OfferPrice)
	gvSearch = new(big.Int).Set(c.Settings.SearchPrice)
}

func specPrices() bool {
	c := core.SpecCore()
	return c.Settings.OfferPrice.Cmp(gvOffer) == 0 && c.Settings.SearchPrice.Cmp(gvSearch) == 0
}

func inv_prices(c *core.Core) bool { return specPrices() }

func specCovers(price *big.Int, units int64) bool {
	return gvGot && gvPaid.Cmp(new(big.Int).Mul(price, big.NewInt(units))) >= 0
}

func spec_decoded(m *fcrmessages.FCRMessage, id *nodeid.NodeID, c *cid.ContentID, nonce int64, ttl int64, pc string, v string, err error) {
	if err == nil {
		gvSender, gvDecoded = id, m
	}
}

func spec_entry(mgr *fcrregistermgr.FCRRegisterMgr, id *nodeid.NodeID, e register.GatewayRegistrar) {
	gvAssert("C12.entry-of-the-sender", func() bool { return gvSender != nil && id == gvSender })
	gvEntry = e
}

func spec_key(e register.GatewayRegistrar, k *fcrcrypto.KeyPair, err error) {
	if err == nil && gvEntry != nil && e == gvEntry {
		gvKey = k
	}
}

func spec_verified(m *fcrmessages.FCRMessage, k *fcrcrypto.KeyPair, err error) {
	if err == nil && k != nil && k == gvKey && m == gvDecoded {
		gvVerified = true
	}
}

// a voucher is credited only for a verified request
func spec_receive(mgr *fcrpaymentmgr.FCRPaymentMgr, channel string, voucher string) {
	gvAssert("C12.credits-only-verified-messages", func() bool { return gvVerified })
}

func spec_received(mgr *fcrpaymentmgr.FCRPaymentMgr, channel string, voucher string, paid *big.Int, err error) {
	gvGot = err == nil
	if err == nil {
		gvPaid = new(big.Int).Set(paid)
	}
}

func spec_looksUp(mgr *offermgr.FCROfferMgr, c *cid.ContentID) {
	gvAssert("C12.looks-up-only-for-verified-messages", func() bool { return gvVerified })
}

func spec_signed(m *fcrmessages.FCRMessage, key *fcrcrypto.KeyPair, ver *fcrcrypto.KeyVersion) {
	c := core.SpecCore()
	gvAssert("C21.answers-signed-with-the-installed-key", func() bool { return key == c.GatewayPrivateKey && ver == c.GatewayPrivateKeyVersion })
	gvAssert("C12.answers-only-verified-messages", func() bool { return gvVerified })
}

func inv_subs(suboffers []cidoffer.SubCIDOffer) bool {
	return gvForall(0, len(suboffers), func(i int) bool { return cidoffer.SpecSub(&suboffers[i]) })
}

func inv_subs2(subOffers []cidoffer.SubCIDOffer) bool {
	return gvForall(0, len(subOffers), func(i int) bool { return cidoffer.SpecSub(&subOffers[i]) })
}

//gv:target HandleGatewayDHTDiscoverRequest
//gv:props C12,C21
//gv:nofalsify
//gv:nopanic C12.no-crash
//gv:aftercall common/pkg/fcrmessages.DecodeGatewayDHTDiscoverRequest spec_decoded
//gv:aftercall (*common/pkg/fcrregistermgr.FCRRegisterMgr).GetGateway spec_entry
//gv:aftercall (common/pkg/register.GatewayRegistrar).GetSigningKey spec_key
//gv:aftercall (*common/pkg/fcrmessages.FCRMessage).Verify spec_verified
//gv:oncall (*common/pkg/offermgr.FCROfferMgr).GetOffers spec_looksUp
//gv:oncall (*common/pkg/fcrmessages.FCRMessage).Sign spec_signed
//gv:use inv_subs
func contract_PeerDiscover(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, request *fcrmessages.FCRMessage) {
	gvRequires(func() bool { return fcrp2pserver.SpecWriter(w) && request != nil && core.SpecStarted(core.SpecCore()) })
	specStart()
	HandleGatewayDHTDiscoverRequest(r, w, request)
}

func spec_digestAnswer(c *cid.ContentID, nonce int64, found bool, digests []string, funded []bool, payRequired bool, pc string) {
	gvAssert("C11.digests-only-for-payment", func() bool { return payRequired || specCovers(gvSearch, 1) })
	gvAssert("C11.unpaid-answer-tells-nothing", func() bool { return !payRequired || !found && len(digests) == 0 && len(funded) == 0 })
}

func spec_digestAnswered(c *cid.ContentID, nonce int64, found bool, digests []string, funded []bool, payRequired bool, pc string, m *fcrmessages.FCRMessage, err error) {
	gvAnswer = m
}

func spec_written(w *fcrp2pserver.FCRServerWriter, m *fcrmessages.FCRMessage, t time.Duration) {
	gvAssert("C11.answers-only-with-the-encoded-answer", func() bool { return m != nil && m == gvAnswer })
}

//gv:target HandleGatewayDHTDiscoverRequestV2
//gv:props C11,C12,C21
//gv:nofalsify
//gv:nopanic C11.no-crash
//gv:aftercall common/pkg/fcrmessages.DecodeGatewayDHTDiscoverRequestV2 spec_decoded
//gv:aftercall (*common/pkg/fcrregistermgr.FCRRegisterMgr).GetGateway spec_entry
//gv:aftercall (common/pkg/register.GatewayRegistrar).GetSigningKey spec_key
//gv:aftercall (*common/pkg/fcrmessages.FCRMessage).Verify spec_verified
//gv:oncall (*common/pkg/offermgr.FCROfferMgr).GetOffers spec_looksUp
//gv:oncall (*common/pkg/fcrpaymentmgr.FCRPaymentMgr).Receive spec_receive
//gv:aftercall (*common/pkg/fcrpaymentmgr.FCRPaymentMgr).Receive spec_received
//gv:oncall common/pkg/fcrmessages.EncodeGatewayDHTDiscoverResponseV2 spec_digestAnswer
//gv:aftercall common/pkg/fcrmessages.EncodeGatewayDHTDiscoverResponseV2 spec_digestAnswered
//gv:oncall (*common/pkg/fcrp2pserver.FCRServerWriter).Write spec_written
//gv:oncall (*common/pkg/fcrmessages.FCRMessage).Sign spec_signed
//gv:use inv_prices
func contract_PeerDiscoverV2(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, request *fcrmessages.FCRMessage) {
	gvRequires(func() bool { return fcrp2pserver.SpecWriter(w) && request != nil && core.SpecStarted(core.SpecCore()) })
	specStart()
	HandleGatewayDHTDiscoverRequestV2(r, w, request)
	gvEnsures("C11.prices-unchanged", func() bool { return specPrices() })
}

// ---- offers asked by a peer

func spec_offerDecoded(m *fcrmessages.FCRMessage, c *cid.ContentID, nonce int64, digests []string, pc string, v string, err error) {
	gvUnits = int64(len(digests))
	gvDecoded = m
}

func spec_offerAnswer(c *cid.ContentID, nonce int64, found bool, subs []cidoffer.SubCIDOffer, funded []bool, payRequired bool, pc string) {
	gvAssert("C11.offers-only-for-payment", func() bool { return payRequired || specCovers(gvOffer, gvUnits) })
	gvAssert("C11.unpaid-answer-tells-nothing", func() bool { return !payRequired || !found && len(subs) == 0 && len(funded) == 0 })
}

func spec_offerAnswered(c *cid.ContentID, nonce int64, found bool, subs []cidoffer.SubCIDOffer, funded []bool, payRequired bool, pc string, m *fcrmessages.FCRMessage, err error) {
	gvAnswer = m
}

//gv:target HandleGatewayDHTOfferRequest
//gv:props C11,C12,C21
//gv:nofalsify
//gv:nopanic C11.no-crash
//gv:aftercall common/pkg/fcrmessages.DecodeGatewayDHTDiscoverOfferRequest spec_offerDecoded
//gv:aftercall (*common/pkg/fcrregistermgr.FCRRegisterMgr).GetGateway spec_entry
//gv:aftercall (common/pkg/register.GatewayRegistrar).GetSigningKey spec_key
//gv:aftercall (*common/pkg/fcrmessages.FCRMessage).Verify spec_verified
//gv:aftercall (*common/pkg/fcrpaymentmgr.FCRPaymentMgr).Receive spec_received
//gv:oncall common/pkg/fcrmessages.EncodeGatewayDHTDiscoverOfferResponse spec_offerAnswer
//gv:aftercall common/pkg/fcrmessages.EncodeGatewayDHTDiscoverOfferResponse spec_offerAnswered
//gv:oncall (*common/pkg/fcrp2pserver.FCRServerWriter).Write spec_written
//gv:oncall (*common/pkg/fcrmessages.FCRMessage).Sign spec_signed
//gv:use inv_subs2,inv_prices
func contract_PeerOffer(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, request *fcrmessages.FCRMessage) {
	gvRequires(func() bool { return fcrp2pserver.SpecWriter(w) && request != nil && core.SpecStarted(core.SpecCore()) })
	specStart()
	HandleGatewayDHTOfferRequest(r, w, request)
	gvEnsures("C11.prices-unchanged", func() bool { return specPrices() })
}

// ---- requests to peers: an answer counts only once verified under the key of the node asked

var gvRead *fcrmessages.FCRMessage

func spec_read(r *fcrp2pserver.FCRServerReader, t time.Duration, m *fcrmessages.FCRMessage, err error) {
	gvRead = m
	gvDecoded = m
}

func spec_signs(m *fcrmessages.FCRMessage, key *fcrcrypto.KeyPair, ver *fcrcrypto.KeyVersion) {
	c := core.SpecCore()
	gvAssert("C21.requests-signed-with-the-installed-key", func() bool { return key == c.GatewayPrivateKey && ver == c.GatewayPrivateKeyVersion })
}

//gv:target RequestGatewayDHTDiscover
//gv:props C12,C21
//gv:nofalsify
//gv:nopanic C12.no-crash
//gv:aftercall (*common/pkg/fcrp2pserver.FCRServerReader).Read spec_read
//gv:aftercall (*common/pkg/fcrregistermgr.FCRRegisterMgr).GetGateway spec_entry
//gv:aftercall (common/pkg/register.GatewayRegistrar).GetSigningKey spec_key
//gv:aftercall (*common/pkg/fcrmessages.FCRMessage).Verify spec_verified
//gv:oncall (*common/pkg/fcrmessages.FCRMessage).Sign spec_signs
func contract_AskDiscover(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, contentID *cid.ContentID, gatewayID *nodeid.NodeID) {
	gvRequires(func() bool {
		return fcrp2pserver.SpecWriter(w) && fcrp2pserver.SpecReader(r) && core.SpecStarted(core.SpecCore()) && contentID != nil && len(contentID.ToBytes()) == 32 && gatewayID != nil && len(gatewayID.ToBytes()) == 32
	})
	specStart()
	gvSender = gatewayID
	m, err := RequestGatewayDHTDiscover(r, w, contentID, gatewayID)
	gvEnsures("C12.only-verified-answers-returned", func() bool { return m == nil || gvVerified && m == gvRead })
	gvEnsures("C12.answer-or-error", func() bool { return (err == nil) == (m != nil) })
}

//gv:target RequestGatewayDHTDiscoverV2
//gv:props C12,C21
//gv:nofalsify
//gv:nopanic C12.no-crash
//gv:aftercall (*common/pkg/fcrp2pserver.FCRServerReader).Read spec_read
//gv:aftercall (*common/pkg/fcrregistermgr.FCRRegisterMgr).GetGateway spec_entry
//gv:aftercall (common/pkg/register.GatewayRegistrar).GetSigningKey spec_key
//gv:aftercall (*common/pkg/fcrmessages.FCRMessage).Verify spec_verified
//gv:oncall (*common/pkg/fcrmessages.FCRMessage).Sign spec_signs
func contract_AskDiscoverV2(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, contentID *cid.ContentID, gatewayID *nodeid.NodeID, pc string, voucher string) {
	gvRequires(func() bool {
		return fcrp2pserver.SpecWriter(w) && fcrp2pserver.SpecReader(r) && core.SpecStarted(core.SpecCore()) && contentID != nil && len(contentID.ToBytes()) == 32 && gatewayID != nil && len(gatewayID.ToBytes()) == 32
	})
	specStart()
	gvSender = gatewayID
	m, err := RequestGatewayDHTDiscoverV2(r, w, contentID, gatewayID, pc, voucher)
	gvEnsures("C12.only-verified-answers-returned", func() bool { return m == nil || gvVerified && m == gvRead })
	gvEnsures("C12.answer-or-error", func() bool { return (err == nil) == (m != nil) })
}

//gv:target RequestGatewayDHTDiscoverOffer
//gv:props C12,C21
//gv:nofalsify
//gv:nopanic C12.no-crash
//gv:aftercall (*common/pkg/fcrp2pserver.FCRServerReader).Read spec_read
//gv:aftercall (*common/pkg/fcrregistermgr.FCRRegisterMgr).GetGateway spec_entry
//gv:aftercall (common/pkg/register.GatewayRegistrar).GetSigningKey spec_key
//gv:aftercall (*common/pkg/fcrmessages.FCRMessage).Verify spec_verified
//gv:oncall (*common/pkg/fcrmessages.FCRMessage).Sign spec_signs
func contract_AskOffer(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, contentID *cid.ContentID, gatewayID *nodeid.NodeID, nonce int64, digests []string, pc string, voucher string) {
	gvRequires(func() bool {
		return fcrp2pserver.SpecWriter(w) && fcrp2pserver.SpecReader(r) && core.SpecStarted(core.SpecCore()) && contentID != nil && len(contentID.ToBytes()) == 32 && gatewayID != nil && len(gatewayID.ToBytes()) == 32
	})
	specStart()
	gvSender = gatewayID
	m, err := RequestGatewayDHTDiscoverOffer(r, w, contentID, gatewayID, nonce, digests, pc, voucher)
	gvEnsures("C12.only-verified-answers-returned", func() bool { return m == nil || gvVerified && m == gvRead })
	gvEnsures("C12.answer-or-error", func() bool { return (err == nil) == (m != nil) })
}

// ---- offers listed by a provider

var gvOffers []cidoffer.CIDOffer
var gvSubVerified *fcrmessages.FCRMessage

// specUFGood: the offer has verified under the key of the provider asked
func specUFGood(o cidoffer.CIDOffer) bool { return true }

func spec_pentry(mgr *fcrregistermgr.FCRRegisterMgr, id *nodeid.NodeID, e register.ProviderRegistrar) {
	gvAssert("C12.entry-of-the-sender", func() bool { return gvSender != nil && id == gvSender })
	gvPEntry = e
}

func spec_pkey(e register.ProviderRegistrar, k *fcrcrypto.KeyPair, err error) {
	if err == nil && gvPEntry != nil && e == gvPEntry {
		gvKey = k
	}
}

func spec_listVerified(m *fcrmessages.FCRMessage, k *fcrcrypto.KeyPair, err error) {
	if err == nil && k != nil && k == gvKey {
		if m == gvRead {
			gvVerified = true
		}
		gvSubVerified = m
	}
}

func spec_subDecoded(m *fcrmessages.FCRMessage, id *nodeid.NodeID, nonce int64, offers []cidoffer.CIDOffer, err error) {
	gvDecoded = m
	gvOffers = offers
}

func spec_listDecode(m *fcrmessages.FCRMessage) {
	gvAssert("C12.acts-only-on-verified-answers", func() bool { return gvVerified && m == gvRead })
}

func spec_offerVerified(o *cidoffer.CIDOffer, k *fcrcrypto.KeyPair, err error) {
	gvAssume("marks the offers that verified under the provider's key", func() bool { return err != nil || k == nil || k != gvKey || specUFGood(*o) })
}

func spec_store(mgr *offermgr.FCROfferMgr, o *cidoffer.CIDOffer) {
	gvAssert("C12.stores-only-from-verified-messages", func() bool { return gvVerified && gvDecoded != nil && gvDecoded == gvSubVerified })
	gvAssert("C12.stores-only-verified-offers", func() bool { return specUFGood(*o) })
	gvAssert("C12.one-bad-offer-refuses-all", func() bool {
		return gvForall(0, len(gvOffers), func(i int) bool { return specUFGood(gvOffers[i]) })
	})
}

func spec_acked(key *fcrcrypto.KeyPair, ver *fcrcrypto.KeyVersion, b []byte) {
	c := core.SpecCore()
	gvAssert("C21.requests-signed-with-the-installed-key", func() bool { return key == c.GatewayPrivateKey && ver == c.GatewayPrivateKeyVersion })
	gvAssert("C12.acknowledges-only-good-publications", func() bool {
		return gvDecoded == gvSubVerified && gvForall(0, len(gvOffers), func(i int) bool { return specUFGood(gvOffers[i]) })
	})
}

func inv_good(cidOffers []cidoffer.CIDOffer, i int) bool {
	return gvForall(0, i+1, func(j int) bool { return specUFGood(cidOffers[j]) })
}

func inv_allGood(cidOffers []cidoffer.CIDOffer) bool {
	return gvForall(0, len(cidOffers), func(j int) bool { return specUFGood(cidOffers[j]) })
}

func inv_key(c *core.Core) bool { return fcrcrypto.SpecKeyPair(gvKey) }

func inv_verified(c *core.Core) bool { return gvVerified }

//gv:target RequestListCIDOffer
//gv:props C12,C21
//gv:nofalsify
//gv:nopanic C12.no-crash
//gv:aftercall (*common/pkg/fcrp2pserver.FCRServerReader).Read spec_read
//gv:aftercall (*common/pkg/fcrregistermgr.FCRRegisterMgr).GetProvider spec_pentry
//gv:aftercall (common/pkg/register.ProviderRegistrar).GetSigningKey spec_pkey
//gv:aftercall (*common/pkg/fcrmessages.FCRMessage).Verify spec_listVerified
//gv:oncall common/pkg/fcrmessages.DecodeGatewayListDHTOfferResponse spec_listDecode
//gv:aftercall common/pkg/fcrmessages.DecodeProviderPublishDHTOfferRequest spec_subDecoded
//gv:aftercall (*common/pkg/cidoffer.CIDOffer).Verify spec_offerVerified
//gv:oncall (*common/pkg/offermgr.FCROfferMgr).AddDHTOffer spec_store
//gv:oncall (*common/pkg/fcrmessages.FCRMessage).Sign spec_signs
//gv:oncall common/pkg/fcrcrypto.SignMessage spec_acked
//gv:use inv_good,inv_allGood,inv_key,inv_verified
func contract_ListOffers(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, cidMin, cidMax *cid.ContentID, providerID *nodeid.NodeID) {
	gvRequires(func() bool {
		return fcrp2pserver.SpecWriter(w) && fcrp2pserver.SpecReader(r) && core.SpecStarted(core.SpecCore()) &&
			cidMin != nil && len(cidMin.ToBytes()) == 32 && cidMax != nil && len(cidMax.ToBytes()) == 32 && providerID != nil && len(providerID.ToBytes()) == 32
	})
	specStart()
	gvSender = providerID
	RequestListCIDOffer(r, w, cidMin, cidMax, providerID)
}
