package fcroffermgr

import (
	"fmt"
	"math/rand"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
)

var gvIDs []*cid.ContentID

// an offer over some identifiers; short-lived ones expire within the run, dead ones have expired
type gvSpec struct {
	ids   []int
	price uint64
	life  int // 0 lives on, 1 short-lived, 2 dead
	dht   bool
}

var gvSpecs = []gvSpec{
	{[]int{0}, 1, 0, true}, {[]int{0}, 2, 1, true}, {[]int{1}, 1, 0, true}, {[]int{2}, 3, 1, true},
	{[]int{0, 1}, 1, 0, false}, {[]int{1, 0}, 1, 1, false}, {[]int{1, 2}, 4, 0, false}, {[]int{0, 1, 2}, 5, 1, false},
	{[]int{2, 2}, 6, 0, false}, {[]int{0}, 9, 2, true}, {[]int{0, 2}, 9, 2, false},
	{[]int{1}, 7, 0, false}, {[]int{0, 1}, 8, 0, true}, // wrong kind
}

const gvBatch = 31213 // histories of at most 4 additions of 13 offers, 30941 of them, and random longer ones

func gvOffers(short int64) []*cidoffer.CIDOffer {
	var l []*cidoffer.CIDOffer
	p, _ := nodeid.NewNodeIDFromHexString("42")
	for _, s := range gvSpecs {
		var cs []cid.ContentID
		for _, i := range s.ids {
			cs = append(cs, *gvIDs[i])
		}
		e := []int64{short + 100000, short, 10}[s.life]
		o, err := cidoffer.NewCIDOffer(p, cs, s.price, e, 3)
		if err != nil {
			panic(err)
		}
		l = append(l, o)
	}
	return l
}

type gvRun struct {
	mgr *FCROfferMgr
	ops []int
}

func gvDecode(n int64, k int, r *rand.Rand) []int {
	var ops []int
	l, c := 0, int64(1)
	for l <= 4 && n >= c {
		n -= c
		c *= int64(k)
		l++
	}
	if l > 4 {
		for i := 5 + r.Intn(8); i > 0; i-- {
			ops = append(ops, r.Intn(k))
		}
		return ops
	}
	for i := 0; i < l; i++ {
		ops = append(ops, int(n%int64(k)))
		n /= int64(k)
	}
	return ops
}

func gen_Store(r *rand.Rand) []interface{} { return []interface{}{r.Int63()} }

var gvHist string

func gvFail(label string, ok bool) {
	gvEnsures(label, func() bool { return ok })
	if !ok {
		fmt.Println("history", gvHist)
	}
}

// the offers found under identifier i are exactly those live, each once
func gvLook(u gvRun, offers []*cidoffer.CIDOffer, i int, expired bool, dht, group bool) bool {
	want := map[[cidoffer.CIDOfferDigestSize]byte]int{}
	for _, o := range u.ops {
		s := gvSpecs[o]
		if s.life == 2 || s.dht != (len(s.ids) == 1) || s.dht && !dht || !s.dht && !group {
			continue
		}
		if s.life == 1 && expired {
			continue
		}
		for _, x := range s.ids {
			if x == i {
				want[offers[o].GetMessageDigest()] = o
			}
		}
	}
	var got []cidoffer.CIDOffer
	var ok bool
	switch {
	case dht && group:
		got, ok = u.mgr.GetOffers(gvIDs[i])
	case dht:
		got, ok = u.mgr.GetDHTOffers(gvIDs[i])
	default:
		got, ok = u.mgr.GetGroupOffers(gvIDs[i])
	}
	if ok != (len(want) > 0) || len(got) != len(want) {
		return false
	}
	seen := map[int]bool{}
	for k := range got {
		o, in := want[got[k].GetMessageDigest()]
		if !in || seen[o] || got[k].GetPrice() != offers[o].GetPrice() || got[k].GetExpiry() != offers[o].GetExpiry() || len(got[k].GetCIDs()) != len(offers[o].GetCIDs()) {
			return false
		}
		seen[o] = true
	}
	return true
}

func gvDigest(u gvRun, offers []*cidoffer.CIDOffer, o int, expired bool) bool {
	s := gvSpecs[o]
	want := false
	for _, x := range u.ops {
		if x == o && s.life != 2 && s.dht == (len(s.ids) == 1) && !(s.life == 1 && expired) {
			want = true
		}
	}
	d := offers[o].GetMessageDigest()
	got, ok := u.mgr.GetOfferByDigest(d)
	return ok == want && (!ok || got != nil && got.GetMessageDigest() == d)
}

func gvRange(u gvRun, offers []*cidoffer.CIDOffer, a, b, max int, expired bool) bool {
	want := map[[cidoffer.CIDOfferDigestSize]byte]bool{}
	for _, o := range u.ops {
		s := gvSpecs[o]
		if !s.dht || len(s.ids) != 1 || s.life == 2 || s.life == 1 && expired {
			continue
		}
		in := a <= s.ids[0] && s.ids[0] <= b
		if a > b {
			in = s.ids[0] >= a || s.ids[0] <= b
		}
		if in {
			want[offers[o].GetMessageDigest()] = true
		}
	}
	n := len(want)
	if n > max {
		n = max
	}
	got, ok := u.mgr.GetDHTOffersWithinRange(gvIDs[a], gvIDs[b], max)
	if ok != (n > 0) || len(got) != n {
		return false
	}
	seen := map[[cidoffer.CIDOfferDigestSize]byte]bool{}
	for i := range got {
		d := got[i].GetMessageDigest()
		if !want[d] || seen[d] {
			return false
		}
		seen[d] = true
	}
	return true
}

func gvAll(u gvRun, offers []*cidoffer.CIDOffer, expired bool, r *rand.Rand) {
	gvHist = fmt.Sprint(u.ops, " expired ", expired)
	for _, q := range r.Perm(6) {
		i := r.Intn(len(gvIDs))
		switch q {
		case 0:
			gvFail("C18.finds-exactly-the-live-offers", gvLook(u, offers, i, expired, true, true))
		case 1:
			gvFail("C18.finds-exactly-the-live-offers", gvLook(u, offers, i, expired, true, false))
		case 2:
			gvFail("C18.finds-exactly-the-live-offers", gvLook(u, offers, i, expired, false, true))
		case 3, 4:
			gvFail("C18.finds-live-offers-by-digest", gvDigest(u, offers, r.Intn(len(offers)), expired))
		case 5:
			gvFail("C18.range-gives-the-live-offers-within", gvRange(u, offers, i, r.Intn(len(gvIDs)), 1+r.Intn(4), expired))
		}
	}
	if expired {
		for i := range gvIDs {
			gvFail("C18.finds-exactly-the-live-offers", gvLook(u, offers, i, expired, true, true))
		}
	}
}

//gv:props C18
//gv:nopanic C18.no-crash
//gv:bounded every history of at most 4 additions drawn from 13 offers (single and group, over 3 identifiers, living, short-lived, expired, of the wrong kind), then random ones of at most 12 additions; look-ups in random order after every history before and after the short-lived offers expire
func contract_Store(seed int64) {
	r := rand.New(rand.NewSource(seed))
	gvIDs = nil
	for i := 0; i < 4; i++ {
		c, _ := cid.NewContentIDFromHexString(fmt.Sprintf("%02x", 3+40*i))
		gvIDs = append(gvIDs, c)
	}
	var runs []gvRun
	short := time.Now().Unix() + 20
	offers := gvOffers(short)
	fails := len(gvFailures)
	for n := int64(0); n < gvBatch && len(gvFailures) < fails+5; n++ {
		u := gvRun{NewFCROfferMgr(), gvDecode(n, len(offers), r)}
		var reused cidoffer.CIDOffer
		for _, o := range u.ops {
			reused = *offers[o]
			s := gvSpecs[o]
			var err error
			if s.dht {
				err = u.mgr.AddDHTOffer(&reused)
			} else {
				err = u.mgr.AddGroupOffer(&reused)
			}
			gvFail("C18.refuses-exactly-expired-and-wrong-kinds", (err != nil) == (s.life == 2 || s.dht != (len(s.ids) == 1)))
		}
		reused = cidoffer.CIDOffer{}
		gvAll(u, offers, false, r)
		runs = append(runs, u)
	}
	if time.Now().Unix() >= short {
		return // too slow to tell live from expired; nothing concluded
	}
	time.Sleep(time.Until(time.Unix(short+1, 0)))
	for _, u := range runs {
		if len(gvFailures) > fails+5 {
			break
		}
		gvAll(u, offers, true, r)
		gvAll(u, offers, true, r)
	}
}
