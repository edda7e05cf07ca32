package reputation

import "github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"

// the book when the client's lock was last taken
var gvVal int64
var gvHad bool

func specRange(v int64) bool { return v >= clientMinReputaiton && v <= clientMaxReputation }

// the book's shape: every reputation is within the limits
func specBook(r *Reputation) bool {
	return r != nil && r.clients != nil && gvForallStr(func(k string) bool { return specRange(r.clients[k]) })
}

func specClamp(v int64) int64 {
	if v > clientMaxReputation {
		return clientMaxReputation
	}
	if v < clientMinReputaiton {
		return clientMinReputaiton
	}
	return v
}

// the limits and amounts a gateway is configured with
//gv:props C15
func contract_Constants() {
	gvEnsures("C15.limits-enclose-the-initial-value", func() bool {
		return clientMinReputaiton <= clientInitialReputation && clientInitialReputation <= clientMaxReputation
	})
	gvEnsures("C15.sums-do-not-wrap", func() bool {
		return clientMaxReputation < 1<<62 && clientMinReputaiton > -1<<62
	})
}

func specSnap(r *Reputation, id *nodeid.NodeID) { gvVal, gvHad = r.clients[id.ToString()] }

// other threads may record events of any client between two holds of the lock, and never drop a client
func interf_book(r *Reputation, id *nodeid.NodeID) {
	v, ok := r.clients[id.ToString()]
	gvAssume("other threads keep the limits and never drop a client", func() bool { return specBook(r) && (ok || !gvHad) && (v == 0 || ok) })
	gvVal, gvHad = v, ok
}

func interf_bookOther(r *Reputation, id *nodeid.NodeID, other string) {
	v, ok := r.clients[id.ToString()]
	gvAssume("other threads keep the limits and never drop a client", func() bool { return specBook(r) && (ok || !gvHad) })
	gvVal, gvHad = v, ok
	gvOther, gvOtherHad = r.clients[other]
}

var gvOther int64
var gvOtherHad bool
var gvOwnEvents int

// one hold of the lock: other clients keep their reputation, this one keeps it or has the event applied, or is established
func spec_establishStep(r *Reputation, id *nodeid.NodeID, other string) {
	v, ok := r.clients[id.ToString()]
	o, ook := r.clients[other]
	gvEnsures("C15.other-clients-unchanged", func() bool { return other == id.ToString() || o == gvOther && ook == gvOtherHad })
	gvEnsures("C15.established-client-keeps-its-reputation", func() bool {
		return !gvHad || ok && (v == gvVal || v == specClamp(gvVal+clientEstablishmentChallenge))
	})
	gvEnsures("C15.starts-at-the-initial-value", func() bool { return gvHad || !ok || v == clientInitialReputation })
	if gvHad && v != gvVal {
		gvOwnEvents++
	}
	gvVal, gvHad, gvOther, gvOtherHad = v, ok, o, ook
}

// establishing among other threads: no step takes away what others recorded
//gv:target (*Reputation).ClientEstablishmentChallenge
//gv:props C15,C19
//gv:nopanic C15.establish-no-panic
//gv:locks C19.reputation-locks-released
//gv:guard Reputation.clients clientsMapLock C19.reputations-guarded
//gv:interfere r.clientsMapLock r.clients interf_bookOther
//gv:onrelease r.clientsMapLock spec_establishStep
func contract_EstablishConcurrent(r *Reputation, id *nodeid.NodeID, other string) {
	gvRequires(func() bool { return specBook(r) && id != nil })
	specSnap(r, id)
	gvOther, gvOtherHad = r.clients[other]
	gvOwnEvents = 0
	res := r.ClientEstablishmentChallenge(id)
	v, ok := r.clients[id.ToString()]
	gvEnsures("C15.exists-after-establishing", func() bool { return ok && res == v })
	gvEnsures("C15.within-limits", func() bool { return specBook(r) })
	gvEnsures("C15.at-most-one-charge", func() bool { return gvOwnEvents <= 1 })
}

//gv:target (*Reputation).ClientEstablishmentChallenge
//gv:props C15
//gv:nopanic C15.establish-no-panic
func contract_Establish(r *Reputation, id *nodeid.NodeID, other string) {
	gvRequires(func() bool { return specBook(r) && id != nil })
	specSnap(r, id)
	o, ook := r.clients[other]
	res := r.ClientEstablishmentChallenge(id)
	v, ok := r.clients[id.ToString()]
	gvEnsures("C15.starts-at-the-initial-value", func() bool {
		return gvHad || ok && v == specClamp(clientInitialReputation+clientEstablishmentChallenge)
	})
	gvEnsures("C15.established-client-keeps-its-reputation", func() bool {
		return !gvHad || ok && v == specClamp(gvVal+clientEstablishmentChallenge)
	})
	gvEnsures("C15.returns-the-new-reputation", func() bool { return res == v })
	gvEnsures("C15.within-limits", func() bool { return specBook(r) })
	gvEnsures("C15.other-clients-unchanged", func() bool {
		o2, ook2 := r.clients[other]
		return other == id.ToString() || o2 == o && ook2 == ook
	})
}

//gv:target (*Reputation).SetClientReputation
//gv:props C15,C19
//gv:nopanic C15.set-no-panic
//gv:locks C19.reputation-locks-released
//gv:guard Reputation.clients clientsMapLock C19.reputations-guarded
func contract_SetClientReputation(r *Reputation, id *nodeid.NodeID, val int64, other string) {
	gvRequires(func() bool { return specBook(r) && id != nil })
	o, ook := r.clients[other]
	r.SetClientReputation(id, val)
	v, ok := r.clients[id.ToString()]
	gvEnsures("C15.set-to-the-value-within-limits", func() bool { return ok && v == specClamp(val) })
	gvEnsures("C15.within-limits", func() bool { return specBook(r) })
	gvEnsures("C15.other-clients-unchanged", func() bool {
		o2, ook2 := r.clients[other]
		return other == id.ToString() || o2 == o && ook2 == ook
	})
}

//gv:target (*Reputation).GetClientReputation
//gv:props C15,C19
//gv:nopanic C15.get-no-panic
//gv:locks C19.reputation-locks-released
//gv:guard Reputation.clients clientsMapLock C19.reputations-guarded
func contract_GetClientReputation(r *Reputation, id *nodeid.NodeID, other string) {
	gvRequires(func() bool { return specBook(r) && id != nil })
	specSnap(r, id)
	o, ook := r.clients[other]
	val, exists := r.GetClientReputation(id)
	gvEnsures("C15.reads-the-recorded-reputation", func() bool { return exists == gvHad && val == gvVal })
	gvEnsures("C15.unknown-client-has-none", func() bool { return exists || val == 0 })
	gvEnsures("C15.reading-changes-nothing", func() bool { o2, ook2 := r.clients[other]; return o2 == o && ook2 == ook })
}

//gv:target (*Reputation).ClientExists
//gv:props C15,C19
//gv:nopanic C15.get-no-panic
//gv:locks C19.reputation-locks-released
//gv:guard Reputation.clients clientsMapLock C19.reputations-guarded
func contract_ClientExists(r *Reputation, id *nodeid.NodeID, other string) {
	gvRequires(func() bool { return specBook(r) && id != nil })
	specSnap(r, id)
	o, ook := r.clients[other]
	exists := r.ClientExists(id)
	gvEnsures("C15.exists-exactly-when-recorded", func() bool { return exists == gvHad })
	gvEnsures("C15.reading-changes-nothing", func() bool { o2, ook2 := r.clients[other]; return o2 == o && ook2 == ook })
}

//gv:target newInstance
//gv:props C15
func contract_newInstance(k string) {
	r := newInstance()
	gvEnsures("C15.new-book-is-empty", func() bool {
		_, ok := r.clients[k]
		return r != nil && r.clients != nil && !ok
	})
}

//gv:target (*Reputation).OnChainDeposit
//gv:props C15,C19
//gv:nopanic C15.event-no-panic
//gv:locks C19.reputation-locks-released
//gv:guard Reputation.clients clientsMapLock C19.reputations-guarded
//gv:interfere r.clientsMapLock r.clients interf_book
func contract_OnChainDeposit(r *Reputation, id *nodeid.NodeID, other string) {
	gvRequires(func() bool { return specBook(r) && id != nil })
	specSnap(r, id)
	gvRequires(func() bool { return gvHad })
	o, ook := r.clients[other]
	r.OnChainDeposit(id)
	v, ok := r.clients[id.ToString()]
	gvEnsures("C15.event-changes-by-the-configured-amount", func() bool { return ok && v == specClamp(gvVal+(clientOnChainDeposit)) })
	gvEnsures("C15.within-limits", func() bool { return specBook(r) })
	gvEnsures("C15.other-clients-unchanged", func() bool {
		o2, ook2 := r.clients[other]
		return other == id.ToString() || o2 == o && ook2 == ook
	})
}

//gv:target (*Reputation).ClientStdDiscOneCidOffer
//gv:props C15,C19
//gv:nopanic C15.event-no-panic
//gv:locks C19.reputation-locks-released
//gv:guard Reputation.clients clientsMapLock C19.reputations-guarded
//gv:interfere r.clientsMapLock r.clients interf_book
func contract_ClientStdDiscOneCidOffer(r *Reputation, id *nodeid.NodeID, other string) {
	gvRequires(func() bool { return specBook(r) && id != nil })
	specSnap(r, id)
	gvRequires(func() bool { return gvHad })
	o, ook := r.clients[other]
	r.ClientStdDiscOneCidOffer(id)
	v, ok := r.clients[id.ToString()]
	gvEnsures("C15.event-changes-by-the-configured-amount", func() bool { return ok && v == specClamp(gvVal+(clientStdDiscOneCidOffer)) })
	gvEnsures("C15.within-limits", func() bool { return specBook(r) })
	gvEnsures("C15.other-clients-unchanged", func() bool {
		o2, ook2 := r.clients[other]
		return other == id.ToString() || o2 == o && ook2 == ook
	})
}

//gv:target (*Reputation).ClientStdDiscNoCidOffers
//gv:props C15,C19
//gv:nopanic C15.event-no-panic
//gv:locks C19.reputation-locks-released
//gv:guard Reputation.clients clientsMapLock C19.reputations-guarded
//gv:interfere r.clientsMapLock r.clients interf_book
func contract_ClientStdDiscNoCidOffers(r *Reputation, id *nodeid.NodeID, other string) {
	gvRequires(func() bool { return specBook(r) && id != nil })
	specSnap(r, id)
	gvRequires(func() bool { return gvHad })
	o, ook := r.clients[other]
	r.ClientStdDiscNoCidOffers(id)
	v, ok := r.clients[id.ToString()]
	gvEnsures("C15.event-changes-by-the-configured-amount", func() bool { return ok && v == specClamp(gvVal+(clientStdDiscNoCidOffers)) })
	gvEnsures("C15.within-limits", func() bool { return specBook(r) })
	gvEnsures("C15.other-clients-unchanged", func() bool {
		o2, ook2 := r.clients[other]
		return other == id.ToString() || o2 == o && ook2 == ook
	})
}

//gv:target (*Reputation).ClientStdDiscLateCidOffers
//gv:props C15,C19
//gv:nopanic C15.event-no-panic
//gv:locks C19.reputation-locks-released
//gv:guard Reputation.clients clientsMapLock C19.reputations-guarded
//gv:interfere r.clientsMapLock r.clients interf_book
func contract_ClientStdDiscLateCidOffers(r *Reputation, id *nodeid.NodeID, other string) {
	gvRequires(func() bool { return specBook(r) && id != nil })
	specSnap(r, id)
	gvRequires(func() bool { return gvHad })
	o, ook := r.clients[other]
	r.ClientStdDiscLateCidOffers(id)
	v, ok := r.clients[id.ToString()]
	gvEnsures("C15.event-changes-by-the-configured-amount", func() bool { return ok && v == specClamp(gvVal+(clientStdDiscLateCidOffers)) })
	gvEnsures("C15.within-limits", func() bool { return specBook(r) })
	gvEnsures("C15.other-clients-unchanged", func() bool {
		o2, ook2 := r.clients[other]
		return other == id.ToString() || o2 == o && ook2 == ook
	})
}

//gv:target (*Reputation).ClientStdDiscNonPayment
//gv:props C15,C19
//gv:nopanic C15.event-no-panic
//gv:locks C19.reputation-locks-released
//gv:guard Reputation.clients clientsMapLock C19.reputations-guarded
//gv:interfere r.clientsMapLock r.clients interf_book
func contract_ClientStdDiscNonPayment(r *Reputation, id *nodeid.NodeID, other string) {
	gvRequires(func() bool { return specBook(r) && id != nil })
	specSnap(r, id)
	gvRequires(func() bool { return gvHad })
	o, ook := r.clients[other]
	r.ClientStdDiscNonPayment(id)
	v, ok := r.clients[id.ToString()]
	gvEnsures("C15.event-changes-by-the-configured-amount", func() bool { return ok && v == specClamp(gvVal+(clientStdDiscNonPayment)) })
	gvEnsures("C15.within-limits", func() bool { return specBook(r) })
	gvEnsures("C15.other-clients-unchanged", func() bool {
		o2, ook2 := r.clients[other]
		return other == id.ToString() || o2 == o && ook2 == ook
	})
}

//gv:target (*Reputation).ClientDhtDiscOneCidOffer
//gv:props C15,C19
//gv:nopanic C15.event-no-panic
//gv:locks C19.reputation-locks-released
//gv:guard Reputation.clients clientsMapLock C19.reputations-guarded
//gv:interfere r.clientsMapLock r.clients interf_book
func contract_ClientDhtDiscOneCidOffer(r *Reputation, id *nodeid.NodeID, other string) {
	gvRequires(func() bool { return specBook(r) && id != nil })
	specSnap(r, id)
	gvRequires(func() bool { return gvHad })
	o, ook := r.clients[other]
	r.ClientDhtDiscOneCidOffer(id)
	v, ok := r.clients[id.ToString()]
	gvEnsures("C15.event-changes-by-the-configured-amount", func() bool { return ok && v == specClamp(gvVal+(clientDhtDiscOneCidOffer)) })
	gvEnsures("C15.within-limits", func() bool { return specBook(r) })
	gvEnsures("C15.other-clients-unchanged", func() bool {
		o2, ook2 := r.clients[other]
		return other == id.ToString() || o2 == o && ook2 == ook
	})
}

//gv:target (*Reputation).ClientDhtDiscNoCidOffers
//gv:props C15,C19
//gv:nopanic C15.event-no-panic
//gv:locks C19.reputation-locks-released
//gv:guard Reputation.clients clientsMapLock C19.reputations-guarded
//gv:interfere r.clientsMapLock r.clients interf_book
func contract_ClientDhtDiscNoCidOffers(r *Reputation, id *nodeid.NodeID, other string) {
	gvRequires(func() bool { return specBook(r) && id != nil })
	specSnap(r, id)
	gvRequires(func() bool { return gvHad })
	o, ook := r.clients[other]
	r.ClientDhtDiscNoCidOffers(id)
	v, ok := r.clients[id.ToString()]
	gvEnsures("C15.event-changes-by-the-configured-amount", func() bool { return ok && v == specClamp(gvVal+(clientDhtDiscNoCidOffers)) })
	gvEnsures("C15.within-limits", func() bool { return specBook(r) })
	gvEnsures("C15.other-clients-unchanged", func() bool {
		o2, ook2 := r.clients[other]
		return other == id.ToString() || o2 == o && ook2 == ook
	})
}

//gv:target (*Reputation).ClientDhtDiscLateCidOffers
//gv:props C15,C19
//gv:nopanic C15.event-no-panic
//gv:locks C19.reputation-locks-released
//gv:guard Reputation.clients clientsMapLock C19.reputations-guarded
//gv:interfere r.clientsMapLock r.clients interf_book
func contract_ClientDhtDiscLateCidOffers(r *Reputation, id *nodeid.NodeID, other string) {
	gvRequires(func() bool { return specBook(r) && id != nil })
	specSnap(r, id)
	gvRequires(func() bool { return gvHad })
	o, ook := r.clients[other]
	r.ClientDhtDiscLateCidOffers(id)
	v, ok := r.clients[id.ToString()]
	gvEnsures("C15.event-changes-by-the-configured-amount", func() bool { return ok && v == specClamp(gvVal+(clientDhtDiscLateCidOffers)) })
	gvEnsures("C15.within-limits", func() bool { return specBook(r) })
	gvEnsures("C15.other-clients-unchanged", func() bool {
		o2, ook2 := r.clients[other]
		return other == id.ToString() || o2 == o && ook2 == ook
	})
}

//gv:target (*Reputation).ClientDhtDiscNonPayment
//gv:props C15,C19
//gv:nopanic C15.event-no-panic
//gv:locks C19.reputation-locks-released
//gv:guard Reputation.clients clientsMapLock C19.reputations-guarded
//gv:interfere r.clientsMapLock r.clients interf_book
func contract_ClientDhtDiscNonPayment(r *Reputation, id *nodeid.NodeID, other string) {
	gvRequires(func() bool { return specBook(r) && id != nil })
	specSnap(r, id)
	gvRequires(func() bool { return gvHad })
	o, ook := r.clients[other]
	r.ClientDhtDiscNonPayment(id)
	v, ok := r.clients[id.ToString()]
	gvEnsures("C15.event-changes-by-the-configured-amount", func() bool { return ok && v == specClamp(gvVal+(clientDhtDiscNonPayment)) })
	gvEnsures("C15.within-limits", func() bool { return specBook(r) })
	gvEnsures("C15.other-clients-unchanged", func() bool {
		o2, ook2 := r.clients[other]
		return other == id.ToString() || o2 == o && ook2 == ook
	})
}

//gv:target (*Reputation).ClientMicroPayment
//gv:props C15,C19
//gv:nopanic C15.event-no-panic
//gv:locks C19.reputation-locks-released
//gv:guard Reputation.clients clientsMapLock C19.reputations-guarded
//gv:interfere r.clientsMapLock r.clients interf_book
func contract_ClientMicroPayment(r *Reputation, id *nodeid.NodeID, other string) {
	gvRequires(func() bool { return specBook(r) && id != nil })
	specSnap(r, id)
	gvRequires(func() bool { return gvHad })
	o, ook := r.clients[other]
	r.ClientMicroPayment(id)
	v, ok := r.clients[id.ToString()]
	gvEnsures("C15.event-changes-by-the-configured-amount", func() bool { return ok && v == specClamp(gvVal+(clientMicroPayment)) })
	gvEnsures("C15.within-limits", func() bool { return specBook(r) })
	gvEnsures("C15.other-clients-unchanged", func() bool {
		o2, ook2 := r.clients[other]
		return other == id.ToString() || o2 == o && ook2 == ook
	})
}

//gv:target (*Reputation).ClientInvalidMessage
//gv:props C15,C19
//gv:nopanic C15.event-no-panic
//gv:locks C19.reputation-locks-released
//gv:guard Reputation.clients clientsMapLock C19.reputations-guarded
//gv:interfere r.clientsMapLock r.clients interf_book
func contract_ClientInvalidMessage(r *Reputation, id *nodeid.NodeID, other string) {
	gvRequires(func() bool { return specBook(r) && id != nil })
	specSnap(r, id)
	gvRequires(func() bool { return gvHad })
	o, ook := r.clients[other]
	r.ClientInvalidMessage(id)
	v, ok := r.clients[id.ToString()]
	gvEnsures("C15.event-changes-by-the-configured-amount", func() bool { return ok && v == specClamp(gvVal+(clientInvalidMessage)) })
	gvEnsures("C15.within-limits", func() bool { return specBook(r) })
	gvEnsures("C15.other-clients-unchanged", func() bool {
		o2, ook2 := r.clients[other]
		return other == id.ToString() || o2 == o && ook2 == ook
	})
}
