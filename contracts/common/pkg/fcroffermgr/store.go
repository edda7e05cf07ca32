package fcroffermgr

import (
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
)

// specStore: every identifier's entry is present
func specStore(o *offerStorage) bool {
	return o != nil && o.cidMap != nil && gvForallStr(func(s string) bool {
		d, ok := o.cidMap[s]
		return !ok || d != nil && d.dMap != nil
	})
}

// specEntry: the entry of one identifier holds offers
func specEntry(o *offerStorage, k string) bool {
	d, ok := o.cidMap[k]
	return !ok || gvForallDigest(func(g [32]byte) bool {
		f, ok := d.dMap[g]
		return !ok || f != nil && cidoffer.SpecOffer(f)
	})
}

// specUnder: what is kept under one digest is an offer
func specUnder(o *offerStorage, g [32]byte) bool {
	return gvForallStr(func(s string) bool {
		d, ok := o.cidMap[s]
		if !ok || d == nil {
			return true
		}
		f, ok := d.dMap[g]
		return !ok || f != nil
	})
}

func inv_store(o *offerStorage) bool { return specStore(o) }

func specIdle(o *offerStorage) bool {
	return gvLockState(&o.lock) == 0 && gvForallStr(func(s string) bool {
		d, ok := o.cidMap[s]
		return !ok || d == nil || gvLockState(&d.lock) == 0
	})
}

func inv_idle(o *offerStorage) bool { return specIdle(o) }

func inv_free(o *offerStorage) bool { return gvLockState(&o.lock) == 0 }

// offers found are live
func inv_live(res []cidoffer.CIDOffer) bool {
	return gvForall(0, len(res), func(i int) bool { return !res[i].HasExpired() })
}

//gv:target (*offerStorage).add
//gv:props C18,C19
//gv:nofalsify
//gv:nopanic C18.add-no-crash
//gv:guard offerStorage.cidMap lock C19.store-guarded
//gv:guard digestOffer.dMap lock C19.store-guarded
//gv:use inv_store,inv_idle,inv_free
func contract_add(o *offerStorage, newOffer *cidoffer.CIDOffer) {
	gvRequires(func() bool { return specStore(o) && specIdle(o) && cidoffer.SpecOffer(newOffer) })
	expired := newOffer.HasExpired()
	err := o.add(newOffer)
	gvEnsures("C18.exactly-expired-offers-refused", func() bool { return (err != nil) == expired })
	gvEnsures("C18.store-stays-sound", func() bool { return specStore(o) })
	gvEnsures("C19.store-locks-released", func() bool { return specIdle(o) })
}

func inv_rlocked(o *offerStorage) bool { return gvLockState(&o.lock) == 1 }

func inv_apart(a, b []cidoffer.CIDOffer) bool { return gvApart(a, b) }

func specEntriesIdle(o *offerStorage) bool {
	return gvForallStr(func(s string) bool {
		d, ok := o.cidMap[s]
		return !ok || d == nil || gvLockState(&d.lock) == 0
	})
}

func inv_entriesIdle(mgr *FCROfferMgr) bool { return specEntriesIdle(mgr.dhtOffers) && specEntriesIdle(mgr.groupOffers) }

func inv_dlocked(mgr *FCROfferMgr) bool { return gvLockState(&mgr.dhtOffers.lock) == 1 }

func inv_glocked(mgr *FCROfferMgr) bool { return gvLockState(&mgr.groupOffers.lock) == 1 }

func inv_gfree(mgr *FCROfferMgr) bool { return gvLockState(&mgr.groupOffers.lock) == 0 }

//gv:target (*offerStorage).get
//gv:props C18,C19
//gv:nofalsify
//gv:frameonly (*common/pkg/cidoffer.CIDOffer).GetMessageDigest
//gv:guard offerStorage.cidMap lock C19.store-guarded
//gv:guard digestOffer.dMap lock C19.store-guarded
//gv:use inv_store,inv_live,inv_rlocked,inv_free,inv_apart
func contract_get(o *offerStorage, id *cid.ContentID) {
	gvRequires(func() bool { return specStore(o) && specIdle(o) && id != nil && specEntry(o, id.ToString()) })
	l := o.get(id)
	gvEnsures("C18.expired-offers-never-returned", func() bool { return inv_live(l) })
	gvEnsures("C18.store-stays-sound", func() bool { return specStore(o) })
	gvEnsures("C19.store-lock-released", func() bool { return gvLockState(&o.lock) == 0 })
}

//gv:target (*FCROfferMgr).GetOfferByDigest
//gv:props C18,C19
//gv:nofalsify
//gv:nopanic C18.digest-no-crash
//gv:guard offerStorage.cidMap lock C19.store-guarded
//gv:guard digestOffer.dMap lock C19.store-guarded
//gv:use inv_dlocked,inv_glocked,inv_gfree,inv_entriesIdle
func contract_GetOfferByDigest(mgr *FCROfferMgr, g [32]byte) {
	gvRequires(func() bool {
		return mgr != nil && mgr.dhtOffers != mgr.groupOffers && specStore(mgr.dhtOffers) && specStore(mgr.groupOffers) && specIdle(mgr.dhtOffers) && specIdle(mgr.groupOffers) && specUnder(mgr.dhtOffers, g) && specUnder(mgr.groupOffers, g)
	})
	f, ok := mgr.GetOfferByDigest(g)
	gvEnsures("C18.found-offer-is-live", func() bool { return !ok || f != nil && !f.HasExpired() })
	gvEnsures("C19.store-lock-released", func() bool { return gvLockState(&mgr.dhtOffers.lock) == 0 && gvLockState(&mgr.groupOffers.lock) == 0 })
}
