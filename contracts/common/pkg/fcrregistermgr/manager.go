package fcrregistermgr

import (
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
)

// an entry is kept under its own identifier
func specGw(g register.GatewayRegistrar, id string) bool {
	r, ok := g.(*register.GatewayRegister)
	return ok && r != nil && r.NodeID == id
}

func specPr(g register.ProviderRegistrar, id string) bool {
	r, ok := g.(*register.ProviderRegister)
	return ok && r != nil && r.NodeID == id
}

func specGws(m map[string]register.GatewayRegistrar) bool {
	return gvForallStr(func(k string) bool { g, ok := m[k]; return !ok || specGw(g, k) })
}

func specPrs(m map[string]register.ProviderRegistrar) bool {
	return gvForallStr(func(k string) bool { g, ok := m[k]; return !ok || specPr(g, k) })
}

func inv_gws(mgr *FCRRegisterMgr) bool { return specGws(mgr.registeredGatewaysMap) }

func inv_prs(mgr *FCRRegisterMgr) bool { return specPrs(mgr.registeredProvidersMap) }

func inv_gwList(result []register.GatewayRegistrar) bool {
	return gvForall(0, len(result), func(i int) bool { g, ok := result[i].(*register.GatewayRegister); return ok && g != nil })
}

func inv_prList(result []register.ProviderRegistrar) bool {
	return gvForall(0, len(result), func(i int) bool { g, ok := result[i].(*register.ProviderRegister); return ok && g != nil })
}

// ghost state: the entry held for the identifier when the lock was last taken
var gvHad bool
var gvGw register.GatewayRegistrar
var gvPr register.ProviderRegistrar

func interf_gw(mgr *FCRRegisterMgr, id *nodeid.NodeID) {
	gvAssume("other threads keep entries under their identifiers", func() bool { return specGws(mgr.registeredGatewaysMap) })
	gvGw, gvHad = mgr.registeredGatewaysMap[id.ToString()]
}

func interf_pr(mgr *FCRRegisterMgr, id *nodeid.NodeID) {
	gvAssume("other threads keep entries under their identifiers", func() bool { return specPrs(mgr.registeredProvidersMap) })
	gvPr, gvHad = mgr.registeredProvidersMap[id.ToString()]
}

//gv:target (*FCRRegisterMgr).GetGateway
//gv:props C17,C19
//gv:modular
//gv:nopanic C17.lookup-no-panic
//gv:locks C19.register-locks-released
//gv:guard FCRRegisterMgr.registeredGatewaysMap registeredGatewaysMapLock C19.register-maps-guarded
func contract_GetGateway(mgr *FCRRegisterMgr, id *nodeid.NodeID) {
	gvRequires(func() bool { return mgr != nil && id != nil && specNoLocks(mgr) })
	gvAssume("entries are kept under their identifiers (invariant established by the update routine)", func() bool { return specGws(mgr.registeredGatewaysMap) })
	gvGw, gvHad = mgr.registeredGatewaysMap[id.ToString()]
	g := mgr.GetGateway(id)
	gvEnsures("C17.entry-of-the-identifier-only", func() bool { return g == nil || specGw(g, id.ToString()) })
}

//gv:target (*FCRRegisterMgr).GetGateway
//gv:props C17
//gv:interfere mgr.registeredGatewaysMapLock mgr.registeredGatewaysMap interf_gw
func contract_GetGatewayExact(mgr *FCRRegisterMgr, id *nodeid.NodeID) {
	gvRequires(func() bool { return mgr != nil && id != nil && specNoLocks(mgr) })
	gvAssume("entries are kept under their identifiers (invariant established by the update routine)", func() bool { return specGws(mgr.registeredGatewaysMap) })
	gvGw, gvHad = mgr.registeredGatewaysMap[id.ToString()]
	started := mgr.start && mgr.gatewayDiscv
	g := mgr.GetGateway(id)
	gvEnsures("C17.nothing-when-nothing-is-registered", func() bool { return (g != nil) == (started && gvHad) })
	gvEnsures("C17.entry-of-the-identifier-only", func() bool { return g == nil || specGw(g, id.ToString()) })
	gvEnsures("C17.the-registered-entry", func() bool { return g == nil || g == gvGw })
}

//gv:target (*FCRRegisterMgr).GetAllGateways
//gv:props C17,C19
//gv:modular
//gv:nopanic C17.list-no-panic
//gv:locks C19.register-locks-released
//gv:guard FCRRegisterMgr.registeredGatewaysMap registeredGatewaysMapLock C19.register-maps-guarded
//gv:fresh 0
//gv:use inv_gwList
func contract_GetAllGateways(mgr *FCRRegisterMgr) {
	gvRequires(func() bool { return mgr != nil && specNoLocks(mgr) })
	gvAssume("entries are kept under their identifiers (invariant established by the update routine)", func() bool { return specGws(mgr.registeredGatewaysMap) })
	l := mgr.GetAllGateways()
	gvEnsures("C17.lists-only-registered-entries", func() bool { return inv_gwList(l) })
}

//gv:target (*FCRRegisterMgr).pullGatewaysFromRegisterSrv
//gv:props C17
//gv:modular
//gv:nopanic C17.malformed-register-answer-no-panic
//gv:fresh 0
//gv:use inv_gwList
func contract_pullGateways(mgr *FCRRegisterMgr) {
	gvRequires(func() bool { return mgr != nil && mgr.httpCommunicator != nil })
	l := mgr.pullGatewaysFromRegisterSrv()
	gvEnsures("C17.entries-from-the-register-are-present", func() bool { return inv_gwList(l) })
}

//gv:target (*FCRRegisterMgr).updateGateways
//gv:props C17,C19
//gv:nopanic C17.update-no-panic
//gv:locks C19.register-locks-released
//gv:guard FCRRegisterMgr.registeredGatewaysMap registeredGatewaysMapLock C19.register-maps-guarded
//gv:onrelease mgr.registeredGatewaysMapLock spec_gwStep
//gv:use inv_gws,inv_noLocks
func contract_updateGateways(mgr *FCRRegisterMgr) {
	gvRequires(func() bool {
		return mgr != nil && mgr.httpCommunicator != nil && mgr.registeredGatewaysMap != nil && mgr.closestGatewaysIDs != nil && specNoLocks(mgr) && specGws(mgr.registeredGatewaysMap)
	})
	mgr.updateGateways()
}

// whenever the lock is given up, every entry is kept under its own identifier
func spec_gwStep(mgr *FCRRegisterMgr) {
	gvEnsures("C17.update-keeps-entries-under-their-identifiers", func() bool { return specGws(mgr.registeredGatewaysMap) })
}

//gv:target (*FCRRegisterMgr).GetProvider
//gv:props C17,C19
//gv:modular
//gv:nopanic C17.lookup-no-panic
//gv:locks C19.register-locks-released
//gv:guard FCRRegisterMgr.registeredProvidersMap registeredProvidersMapLock C19.register-maps-guarded
func contract_GetProvider(mgr *FCRRegisterMgr, id *nodeid.NodeID) {
	gvRequires(func() bool { return mgr != nil && id != nil && specNoLocks(mgr) })
	gvAssume("entries are kept under their identifiers (invariant established by the update routine)", func() bool { return specPrs(mgr.registeredProvidersMap) })
	gvPr, gvHad = mgr.registeredProvidersMap[id.ToString()]
	g := mgr.GetProvider(id)
	gvEnsures("C17.entry-of-the-identifier-only", func() bool { return g == nil || specPr(g, id.ToString()) })
}

//gv:target (*FCRRegisterMgr).GetProvider
//gv:props C17
//gv:interfere mgr.registeredProvidersMapLock mgr.registeredProvidersMap interf_pr
func contract_GetProviderExact(mgr *FCRRegisterMgr, id *nodeid.NodeID) {
	gvRequires(func() bool { return mgr != nil && id != nil && specNoLocks(mgr) })
	gvAssume("entries are kept under their identifiers (invariant established by the update routine)", func() bool { return specPrs(mgr.registeredProvidersMap) })
	gvPr, gvHad = mgr.registeredProvidersMap[id.ToString()]
	started := mgr.start && mgr.providerDiscv
	g := mgr.GetProvider(id)
	gvEnsures("C17.nothing-when-nothing-is-registered", func() bool { return (g != nil) == (started && gvHad) })
	gvEnsures("C17.entry-of-the-identifier-only", func() bool { return g == nil || specPr(g, id.ToString()) })
	gvEnsures("C17.the-registered-entry", func() bool { return g == nil || g == gvPr })
}

//gv:target (*FCRRegisterMgr).GetAllProviders
//gv:props C17,C19
//gv:modular
//gv:nopanic C17.list-no-panic
//gv:locks C19.register-locks-released
//gv:guard FCRRegisterMgr.registeredProvidersMap registeredProvidersMapLock C19.register-maps-guarded
//gv:fresh 0
//gv:use inv_prList
func contract_GetAllProviders(mgr *FCRRegisterMgr) {
	gvRequires(func() bool { return mgr != nil && specNoLocks(mgr) })
	gvAssume("entries are kept under their identifiers (invariant established by the update routine)", func() bool { return specPrs(mgr.registeredProvidersMap) })
	l := mgr.GetAllProviders()
	gvEnsures("C17.lists-only-registered-entries", func() bool { return inv_prList(l) })
}

//gv:target (*FCRRegisterMgr).pullProvidersFromRegisterSrv
//gv:props C17
//gv:modular
//gv:nopanic C17.malformed-register-answer-no-panic
//gv:fresh 0
//gv:use inv_prList
func contract_pullProviders(mgr *FCRRegisterMgr) {
	gvRequires(func() bool { return mgr != nil && mgr.httpCommunicator != nil })
	l := mgr.pullProvidersFromRegisterSrv()
	gvEnsures("C17.entries-from-the-register-are-present", func() bool { return inv_prList(l) })
}

//gv:target (*FCRRegisterMgr).updateProviders
//gv:props C17,C19
//gv:nopanic C17.update-no-panic
//gv:locks C19.register-locks-released
//gv:guard FCRRegisterMgr.registeredProvidersMap registeredProvidersMapLock C19.register-maps-guarded
//gv:onrelease mgr.registeredProvidersMapLock spec_prStep
//gv:use inv_prs,inv_noLocks
func contract_updateProviders(mgr *FCRRegisterMgr) {
	gvRequires(func() bool {
		return mgr != nil && mgr.httpCommunicator != nil && mgr.registeredProvidersMap != nil && mgr.closestGatewaysIDs != nil && specNoLocks(mgr) && specPrs(mgr.registeredProvidersMap)
	})
	mgr.updateProviders()
}

// whenever the lock is given up, every entry is kept under its own identifier
func spec_prStep(mgr *FCRRegisterMgr) {
	gvEnsures("C17.update-keeps-entries-under-their-identifiers", func() bool { return specPrs(mgr.registeredProvidersMap) })
}

func inv_noLocks(mgr *FCRRegisterMgr) bool { return specNoLocks(mgr) }

func specNoLocks(mgr *FCRRegisterMgr) bool {
	return gvLockState(&mgr.registeredGatewaysMapLock) == 0 && gvLockState(&mgr.registeredProvidersMapLock) == 0 && gvLockState(&mgr.closestGatewaysIDsLock) == 0
}

// the update routine runs elsewhere; a refresh waits for it without holding a lock
//gv:target (*FCRRegisterMgr).Refresh
//gv:props C17
//gv:modular
//gv:assumed the update routine answers over a channel; it only changes the maps under their locks, which the callers' contracts account for as interference
func contract_Refresh(mgr *FCRRegisterMgr) {
	gvRequires(func() bool { return mgr != nil && specNoLocks(mgr) })
	mgr.Refresh()
}

// one gateway for each identifier considered
func inv_nearCount(res []register.GatewayRegistrar, i int) bool { return len(res) <= i+1 }

//gv:target (*FCRRegisterMgr).GetGatewaysNearCID
//gv:props C17,C19
//gv:modular
//gv:nopanic C17.near-no-panic
//gv:locks C19.register-locks-released
//gv:guard FCRRegisterMgr.registeredGatewaysMap registeredGatewaysMapLock C19.register-maps-guarded
//gv:guard FCRRegisterMgr.closestGatewaysIDs closestGatewaysIDsLock C19.ring-guarded
//gv:fresh 0
//gv:use inv_gwList,inv_nearCount
func contract_GetGatewaysNearCID(mgr *FCRRegisterMgr, c *cid.ContentID, n int, not *nodeid.NodeID) {
	gvRequires(func() bool { return mgr != nil && c != nil && mgr.closestGatewaysIDs != nil && specNoLocks(mgr) })
	gvAssume("entries are kept under their identifiers (invariant established by the update routine)", func() bool { return specGws(mgr.registeredGatewaysMap) })
	l, err := mgr.GetGatewaysNearCID(c, n, not)
	gvEnsures("C17.list-or-error", func() bool { return (err == nil) == (l != nil) })
	gvEnsures("C17.near-gateways-are-registered", func() bool { return inv_gwList(l) })
	gvEnsures("C17.no-more-near-gateways-than-asked", func() bool { return len(l) == 0 || len(l) <= n })
}

//gv:target (*FCRRegisterMgr).GetGatewayCIDRange
//gv:props C17,C19
//gv:modular
//gv:nopanic C17.range-no-panic
//gv:locks C19.register-locks-released
//gv:guard FCRRegisterMgr.closestGatewaysIDs closestGatewaysIDsLock C19.ring-guarded
func contract_GetGatewayCIDRange(mgr *FCRRegisterMgr, id *nodeid.NodeID) {
	gvRequires(func() bool { return mgr != nil && id != nil && mgr.closestGatewaysIDs != nil && specNoLocks(mgr) })
	min, max, err := mgr.GetGatewayCIDRange(id)
	gvEnsures("C17.range-or-error", func() bool { return (err == nil) == (min != nil) && (err == nil) == (max != nil) })
}

//gv:target (*FCRRegisterMgr).shutdownGateways
//gv:props C19
//gv:nopanic C19.shutdown-no-panic
//gv:locks C19.register-locks-released
//gv:guard FCRRegisterMgr.registeredGatewaysMap registeredGatewaysMapLock C19.register-maps-guarded
func contract_shutdownGateways(mgr *FCRRegisterMgr) {
	gvRequires(func() bool { return mgr != nil && mgr.httpCommunicator != nil && specNoLocks(mgr) })
	mgr.shutdownGateways()
}

//gv:target (*FCRRegisterMgr).shutdownProviders
//gv:props C19
//gv:nopanic C19.shutdown-no-panic
//gv:locks C19.register-locks-released
//gv:guard FCRRegisterMgr.registeredProvidersMap registeredProvidersMapLock C19.register-maps-guarded
func contract_shutdownProviders(mgr *FCRRegisterMgr) {
	gvRequires(func() bool { return mgr != nil && mgr.httpCommunicator != nil && specNoLocks(mgr) })
	mgr.shutdownProviders()
}

// SpecIdle: the caller holds none of the manager's locks
func SpecIdle(mgr *FCRRegisterMgr) bool { return specNoLocks(mgr) && mgr.closestGatewaysIDs != nil }
