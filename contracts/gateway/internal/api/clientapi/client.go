package clientapi

import (
	"math/big"

	"github.com/ant0ine/go-json-rest/rest"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrpaymentmgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/gateway/internal/core"
)

// ghost state of one request: what was received for it, what was asked, what was spent, and the prices configured
var gvGot bool
var gvPaid *big.Int
var gvUnits int64
var gvPays int64
var gvOffer *big.Int
var gvSearch *big.Int
var gvAnswer *fcrmessages.FCRMessage

func specStart() {
	c := core.SpecCore()
	gvGot = false
	gvPaid = nil
	gvUnits = 0
	gvAnswer = nil
	gvPays = 0
	gvOffer = new(big.Int).Set(c.Settings.OfferPrice)
	gvSearch = new(big.Int).Set(c.Settings.SearchPrice)
}

// the configured prices are what they were
func specPrices() bool {
	c := core.SpecCore()
	return c.Settings.OfferPrice.Cmp(gvOffer) == 0 && c.Settings.SearchPrice.Cmp(gvSearch) == 0
}

func inv_prices(c *core.Core) bool { return specPrices() }

func specCovers(price *big.Int, units int64) bool {
	return gvGot && gvPaid.Cmp(new(big.Int).Mul(price, big.NewInt(units))) >= 0
}

func spec_received(mgr *fcrpaymentmgr.FCRPaymentMgr, channel string, voucher string, paid *big.Int, err error) {
	gvGot = err == nil
	if err == nil {
		gvPaid = new(big.Int).Set(paid)
	}
}

// every answer is signed with the key and version installed
func spec_signed(m *fcrmessages.FCRMessage, key *fcrcrypto.KeyPair, ver *fcrcrypto.KeyVersion) {
	c := core.SpecCore()
	gvAssert("C21.answers-signed-with-the-installed-key", func() bool { return key == c.GatewayPrivateKey && ver == c.GatewayPrivateKeyVersion })
}

// what is answered is the message encoded for the request
func spec_written(w rest.ResponseWriter, v interface{}) {
	m, ok := v.(*fcrmessages.FCRMessage)
	gvAssert("C11.answers-only-with-the-encoded-answer", func() bool { return ok && m != nil && m == gvAnswer })
}

// ---- offers of this gateway

func spec_offerDecoded(msg *fcrmessages.FCRMessage, c *cid.ContentID, nonce int64, ttl int64, digests []string, pc string, v string, err error) {
	gvUnits = int64(len(digests))
}

// an answer with offers only for a payment covering all offers asked
func spec_offerAnswer(c *cid.ContentID, nonce int64, found bool, subs []cidoffer.SubCIDOffer, funded []bool, payRequired bool, pc string) {
	gvAssert("C11.offers-only-for-payment", func() bool { return payRequired || specCovers(gvOffer, gvUnits) })
	gvAssert("C11.unpaid-answer-tells-nothing", func() bool { return !payRequired || !found && len(subs) == 0 && len(funded) == 0 })
}

func spec_offerAnswered(c *cid.ContentID, nonce int64, found bool, subs []cidoffer.SubCIDOffer, funded []bool, payRequired bool, pc string, m *fcrmessages.FCRMessage, err error) {
	gvAnswer = m
}

func inv_subs(subOffers []cidoffer.SubCIDOffer) bool {
	return gvForall(0, len(subOffers), func(i int) bool { return cidoffer.SpecSub(&subOffers[i]) })
}

//gv:target HandleClientStandardDiscoverOfferRequest
//gv:props C11,C21
//gv:nofalsify
//gv:nopanic C11.no-crash
//gv:aftercall (*common/pkg/fcrpaymentmgr.FCRPaymentMgr).Receive spec_received
//gv:aftercall common/pkg/fcrmessages.DecodeClientStandardDiscoverOfferRequest spec_offerDecoded
//gv:oncall common/pkg/fcrmessages.EncodeClientStandardDiscoverOfferResponse spec_offerAnswer
//gv:aftercall common/pkg/fcrmessages.EncodeClientStandardDiscoverOfferResponse spec_offerAnswered
//gv:oncall (*common/pkg/fcrmessages.FCRMessage).Sign spec_signed
//gv:oncall (github.com/ant0ine/go-json-rest/rest.ResponseWriter).WriteJson spec_written
//gv:use inv_subs,inv_prices
func contract_StandardOffer(w rest.ResponseWriter, request *fcrmessages.FCRMessage) {
	gvRequires(func() bool { return w != nil && request != nil && core.SpecStarted(core.SpecCore()) })
	specStart()
	HandleClientStandardDiscoverOfferRequest(w, request)
	gvEnsures("C11.prices-unchanged", func() bool { return specPrices() })
}

// ---- digests of this gateway's offers

func spec_digestAnswer(c *cid.ContentID, nonce int64, found bool, digests []string, funded []bool, payRequired bool, pc string) {
	gvAssert("C11.digests-only-for-payment", func() bool { return payRequired || specCovers(gvSearch, 1) })
	gvAssert("C11.unpaid-answer-tells-nothing", func() bool { return !payRequired || !found && len(digests) == 0 && len(funded) == 0 })
}

func spec_digestAnswered(c *cid.ContentID, nonce int64, found bool, digests []string, funded []bool, payRequired bool, pc string, m *fcrmessages.FCRMessage, err error) {
	gvAnswer = m
}

//gv:target HandleClientStandardCIDDiscoverRequestV2
//gv:props C11,C21
//gv:nofalsify
//gv:nopanic C11.no-crash
//gv:aftercall (*common/pkg/fcrpaymentmgr.FCRPaymentMgr).Receive spec_received
//gv:oncall common/pkg/fcrmessages.EncodeClientStandardDiscoverResponseV2 spec_digestAnswer
//gv:aftercall common/pkg/fcrmessages.EncodeClientStandardDiscoverResponseV2 spec_digestAnswered
//gv:oncall (*common/pkg/fcrmessages.FCRMessage).Sign spec_signed
//gv:oncall (github.com/ant0ine/go-json-rest/rest.ResponseWriter).WriteJson spec_written
//gv:use inv_prices
func contract_StandardDiscover(w rest.ResponseWriter, request *fcrmessages.FCRMessage) {
	gvRequires(func() bool { return w != nil && request != nil && core.SpecStarted(core.SpecCore()) })
	specStart()
	HandleClientStandardCIDDiscoverRequestV2(w, request)
	gvEnsures("C11.prices-unchanged", func() bool { return specPrices() })
}

// ---- discovery through other gateways

func spec_dhtDecoded(msg *fcrmessages.FCRMessage, c *cid.ContentID, nonce int64, ttl int64, num int64, inc bool, pc string, v string, err error) {
	gvUnits = num
}

// money spent for the request, once a payment is made
func spec_spent(mgr *fcrpaymentmgr.FCRPaymentMgr, recipient string, lane uint64, amount *big.Int, addr string, voucher string, topup bool, err error) {
	if err == nil && !topup {
		gvPays++
	}
}

// paid for with the request: each payment, together with those before
func spec_payDigest(mgr *fcrpaymentmgr.FCRPaymentMgr, recipient string, lane uint64, amount *big.Int) {
	gvAssert("C11.pays-only-when-paid", func() bool { return specCovers(gvSearch, gvUnits) })
	gvAssert("C11.pays-the-configured-price", func() bool { return amount.Cmp(gvSearch) == 0 })
	gvAssert("C11.pays-no-more-gateways-than-paid-for", func() bool { return gvPays < gvUnits })
}

func spec_topupDigest(mgr *fcrpaymentmgr.FCRPaymentMgr, recipient string, amount *big.Int) {
	gvAssert("C11.tops-up-only-when-paid", func() bool { return specCovers(gvSearch, gvUnits) })
}

func spec_contactDigest(s *fcrp2pserver.FCRP2PServer, id *nodeid.NodeID, msgType int32, args []interface{}) {
	gvAssert("C11.contacts-others-only-when-paid", func() bool { return specCovers(gvSearch, gvUnits) })
}

func spec_dhtAnswer(contacted []nodeid.NodeID, resp []fcrmessages.FCRMessage, un []nodeid.NodeID, nonce int64, payRequired bool, pc string) {
	gvAssert("C11.answers-only-for-payment", func() bool { return payRequired || specCovers(gvSearch, gvUnits) })
	gvAssert("C11.unpaid-answer-tells-nothing", func() bool { return !payRequired || len(contacted) == 0 && len(resp) == 0 })
}

func spec_dhtAnswered(contacted []nodeid.NodeID, resp []fcrmessages.FCRMessage, un []nodeid.NodeID, nonce int64, payRequired bool, pc string, m *fcrmessages.FCRMessage, err error) {
	gvAnswer = m
}

// each gateway is paid once at most
func inv_pays(i int) bool { return gvPays <= int64(i+1) }

//gv:target HandleClientDHTCIDDiscoverRequestV2
//gv:props C11,C21
//gv:nofalsify
//gv:nopanic C11.no-crash
//gv:aftercall (*common/pkg/fcrpaymentmgr.FCRPaymentMgr).Receive spec_received
//gv:aftercall common/pkg/fcrmessages.DecodeClientDHTDiscoverRequestV2 spec_dhtDecoded
//gv:oncall common/pkg/fcrmessages.EncodeClientDHTDiscoverResponseV2 spec_dhtAnswer
//gv:aftercall common/pkg/fcrmessages.EncodeClientDHTDiscoverResponseV2 spec_dhtAnswered
//gv:oncall (*common/pkg/fcrpaymentmgr.FCRPaymentMgr).Pay spec_payDigest
//gv:aftercall (*common/pkg/fcrpaymentmgr.FCRPaymentMgr).Pay spec_spent
//gv:oncall (*common/pkg/fcrpaymentmgr.FCRPaymentMgr).Topup spec_topupDigest
//gv:oncall (*common/pkg/fcrp2pserver.FCRP2PServer).RequestGatewayFromGateway spec_contactDigest
//gv:oncall (*common/pkg/fcrmessages.FCRMessage).Sign spec_signed
//gv:oncall (github.com/ant0ine/go-json-rest/rest.ResponseWriter).WriteJson spec_written
//gv:use inv_prices,inv_pays
func contract_DHTDiscover(w rest.ResponseWriter, request *fcrmessages.FCRMessage) {
	gvRequires(func() bool { return w != nil && request != nil && core.SpecStarted(core.SpecCore()) })
	specStart()
	HandleClientDHTCIDDiscoverRequestV2(w, request)
	gvEnsures("C11.prices-unchanged", func() bool { return specPrices() })
}

// ---- offers of other gateways

var gvAsked []int

func spec_dhtOfferDecoded(msg *fcrmessages.FCRMessage, c *cid.ContentID, nonce int64, digests [][]string, ids []nodeid.NodeID, pc string, v string, err error) {
	gvAsked = gvSnapInt(len(digests), func(i int) int { return len(digests[i]) })
}

// the number of digests in the first n lists
func specRecCount(l []int, n int) int {
	if n <= 0 {
		return 0
	}
	return specRecCount(l, n-1) + l[n-1]
}

func inv_unit(unit int, i int) bool { return unit == specRecCount(gvAsked, i+1) }

func spec_payOffers(mgr *fcrpaymentmgr.FCRPaymentMgr, recipient string, lane uint64, amount *big.Int) {
	gvAssert("C11.pays-only-when-paid", func() bool { return specCovers(gvOffer, int64(specRecCount(gvAsked, len(gvAsked)))) })
}

func spec_topupOffers(mgr *fcrpaymentmgr.FCRPaymentMgr, recipient string, amount *big.Int) {
	gvAssert("C11.tops-up-only-when-paid", func() bool { return specCovers(gvOffer, int64(specRecCount(gvAsked, len(gvAsked)))) })
}

func spec_contactOffers(s *fcrp2pserver.FCRP2PServer, id *nodeid.NodeID, msgType int32, args []interface{}) {
	gvAssert("C11.contacts-others-only-when-paid", func() bool { return specCovers(gvOffer, int64(specRecCount(gvAsked, len(gvAsked)))) })
}

func spec_dhtOfferAnswer(c *cid.ContentID, nonce int64, contacted []nodeid.NodeID, resp []fcrmessages.FCRMessage, payRequired bool, pc string) {
	gvAssert("C11.answers-only-for-payment", func() bool {
		return payRequired || specCovers(gvOffer, int64(specRecCount(gvAsked, len(gvAsked))))
	})
	gvAssert("C11.unpaid-answer-tells-nothing", func() bool { return !payRequired || len(contacted) == 0 && len(resp) == 0 })
}

func spec_dhtOfferAnswered(c *cid.ContentID, nonce int64, contacted []nodeid.NodeID, resp []fcrmessages.FCRMessage, payRequired bool, pc string, m *fcrmessages.FCRMessage, err error) {
	gvAnswer = m
}

//gv:target HandleClientDHTDiscoverOfferRequest
//gv:props C11,C21
//gv:nofalsify
//gv:nopanic C11.no-crash
//gv:aftercall (*common/pkg/fcrpaymentmgr.FCRPaymentMgr).Receive spec_received
//gv:aftercall common/pkg/fcrmessages.DecodeClientDHTDiscoverOfferRequest spec_dhtOfferDecoded
//gv:oncall common/pkg/fcrmessages.EncodeClientDHTDiscoverOfferResponse spec_dhtOfferAnswer
//gv:aftercall common/pkg/fcrmessages.EncodeClientDHTDiscoverOfferResponse spec_dhtOfferAnswered
//gv:oncall (*common/pkg/fcrpaymentmgr.FCRPaymentMgr).Pay spec_payOffers
//gv:oncall (*common/pkg/fcrpaymentmgr.FCRPaymentMgr).Topup spec_topupOffers
//gv:oncall (*common/pkg/fcrp2pserver.FCRP2PServer).RequestGatewayFromGateway spec_contactOffers
//gv:oncall (*common/pkg/fcrmessages.FCRMessage).Sign spec_signed
//gv:oncall (github.com/ant0ine/go-json-rest/rest.ResponseWriter).WriteJson spec_written
//gv:use inv_prices,inv_unit
func contract_DHTOffer(w rest.ResponseWriter, request *fcrmessages.FCRMessage) {
	gvRequires(func() bool { return w != nil && request != nil && core.SpecStarted(core.SpecCore()) })
	specStart()
	HandleClientDHTDiscoverOfferRequest(w, request)
	gvEnsures("C11.prices-unchanged", func() bool { return specPrices() })
}
