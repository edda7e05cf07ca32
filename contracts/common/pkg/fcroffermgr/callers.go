package fcroffermgr

import (
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
)

//gv:target (*FCROfferMgr).GetDHTOffersWithinRange
//gv:props C16
//gv:fresh 0
//gv:assumed the offers returned were stored by AddDHTOffer, which refuses offers that do not hold exactly one identifier
func contract_GetDHTOffersWithinRange(mgr *FCROfferMgr, a, b *cid.ContentID, n int) {
	l, ok := mgr.GetDHTOffersWithinRange(a, b, n)
	gvEnsures("C18.stored-offers-single", func() bool { return !ok || gvForall(0, len(l), func(i int) bool { return cidoffer.SpecOffer(&l[i]) && len(l[i].GetCIDs()) == 1 }) })
}
