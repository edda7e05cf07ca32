package offermgr

import (
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
)

//gv:target (*FCROfferMgr).GetOffers
//gv:props C11
//gv:fresh 0
//gv:assumed the SQL store returns stored offers, complete and with their trees rebuilt
func contract_GetOffers(mgr *FCROfferMgr, c *cid.ContentID) {
	l, ok := mgr.GetOffers(c)
	gvEnsures("C18.offers-exactly-when-found", func() bool { return ok == (len(l) > 0) })
	gvEnsures("C18.stored-offers-complete", func() bool { return gvForall(0, len(l), func(i int) bool { return cidoffer.SpecOffer(&l[i]) && cidoffer.SpecHasTree(&l[i]) }) })
}

//gv:target (*FCROfferMgr).GetDHTOffersWithinRange
//gv:props C11
//gv:fresh 0
//gv:assumed the SQL store returns stored offers, complete and with their trees rebuilt
func contract_GetDHTOffersWithinRange(mgr *FCROfferMgr, a, b *cid.ContentID, n int) {
	l, ok := mgr.GetDHTOffersWithinRange(a, b, n)
	gvEnsures("C18.offers-exactly-when-found", func() bool { return ok == (len(l) > 0) })
	gvEnsures("C18.stored-offers-complete", func() bool { return gvForall(0, len(l), func(i int) bool { return cidoffer.SpecOffer(&l[i]) && cidoffer.SpecHasTree(&l[i]) }) })
}

//gv:target (*FCROfferMgr).GetOfferByDigest
//gv:props C11
//gv:fresh 0
//gv:assumed the SQL store returns the stored offer, complete and with its tree rebuilt
func contract_GetOfferByDigest(mgr *FCROfferMgr, d [cidoffer.CIDOfferDigestSize]byte) {
	o, ok := mgr.GetOfferByDigest(d)
	gvEnsures("C18.offer-exactly-when-found", func() bool { return ok == (o != nil) })
	gvEnsures("C18.stored-offers-complete", func() bool { return o == nil || cidoffer.SpecOffer(o) && cidoffer.SpecHasTree(o) })
}

//gv:target (*FCROfferMgr).AddDHTOffer
//gv:props C12
//gv:assumed the SQL store keeps its own copy
func contract_AddDHTOffer(mgr *FCROfferMgr, o *cidoffer.CIDOffer) {
	gvRequires(func() bool { return o != nil })
	mgr.AddDHTOffer(o)
}

//gv:target (*FCROfferMgr).AddGroupOffer
//gv:props C12
//gv:assumed the SQL store keeps its own copy
func contract_AddGroupOffer(mgr *FCROfferMgr, o *cidoffer.CIDOffer) {
	gvRequires(func() bool { return o != nil })
	mgr.AddGroupOffer(o)
}
