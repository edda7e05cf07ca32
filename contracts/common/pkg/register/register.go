package register

import "github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"

//gv:iface (common/pkg/register.GatewayRegistrar).GetNodeID
//gv:props C17
//gv:assumed the contract of GatewayRegister's method, proved as GatewayNodeID
func contract_IfaceGatewayNodeID(g GatewayRegistrar) {
	id := g.GetNodeID()
	gvEnsures("C17.identifier-of-the-entry", func() bool { r, ok := g.(*GatewayRegister); return !ok || r == nil || id == r.NodeID })
}

//gv:iface (common/pkg/register.ProviderRegistrar).GetNodeID
//gv:props C17
//gv:assumed the contract of ProviderRegister's method, proved as ProviderNodeID
func contract_IfaceProviderNodeID(g ProviderRegistrar) {
	id := g.GetNodeID()
	gvEnsures("C17.identifier-of-the-entry", func() bool { r, ok := g.(*ProviderRegister); return !ok || r == nil || id == r.NodeID })
}

//gv:target (*GatewayRegister).GetNodeID
//gv:props C17
//gv:nopanic C17.identifier-no-panic
func contract_GatewayNodeID(r *GatewayRegister) {
	gvRequires(func() bool { return r != nil })
	id := r.GetNodeID()
	gvEnsures("C17.identifier-of-the-entry", func() bool { return id == r.NodeID })
}

//gv:target (*ProviderRegister).GetNodeID
//gv:props C17
//gv:nopanic C17.identifier-no-panic
func contract_ProviderNodeID(r *ProviderRegister) {
	gvRequires(func() bool { return r != nil })
	id := r.GetNodeID()
	gvEnsures("C17.identifier-of-the-entry", func() bool { return id == r.NodeID })
}

//gv:target (*GatewayRegister).GetSigningKey
//gv:props C17,C12
//gv:nopanic C17.key-no-panic
func contract_GatewaySigningKey(r *GatewayRegister) {
	gvRequires(func() bool { return r != nil })
	k, err := r.GetSigningKey()
	w, werr := fcrcrypto.DecodePublicKey(r.SigningKey)
	gvEnsures("C17.key-or-error", func() bool { return (err == nil) == (k != nil) })
	gvEnsures("C17.key-of-the-entry", func() bool { return (err == nil) == (werr == nil) && (err != nil || fcrcrypto.SpecSameKey(k, w) && fcrcrypto.SpecPublicKey(k)) })
}

//gv:target (*ProviderRegister).GetSigningKey
//gv:props C17,C12
//gv:nopanic C17.key-no-panic
func contract_ProviderSigningKey(r *ProviderRegister) {
	gvRequires(func() bool { return r != nil })
	k, err := r.GetSigningKey()
	w, werr := fcrcrypto.DecodePublicKey(r.SigningKey)
	gvEnsures("C17.key-or-error", func() bool { return (err == nil) == (k != nil) })
	gvEnsures("C17.key-of-the-entry", func() bool { return (err == nil) == (werr == nil) && (err != nil || fcrcrypto.SpecSameKey(k, w) && fcrcrypto.SpecPublicKey(k)) })
}

//gv:target (*GatewayRegister).GetRootSigningKey
//gv:props C17
//gv:nopanic C17.key-no-panic
func contract_GatewayRootKey(r *GatewayRegister) {
	gvRequires(func() bool { return r != nil })
	k, err := r.GetRootSigningKey()
	w, werr := fcrcrypto.DecodePublicKey(r.RootSigningKey)
	gvEnsures("C17.root-key-of-the-entry", func() bool { return (err == nil) == (werr == nil) && (err != nil || fcrcrypto.SpecSameKey(k, w) && fcrcrypto.SpecPublicKey(k)) })
}

//gv:target (*ProviderRegister).GetRootSigningKey
//gv:props C17
//gv:nopanic C17.key-no-panic
func contract_ProviderRootKey(r *ProviderRegister) {
	gvRequires(func() bool { return r != nil })
	k, err := r.GetRootSigningKey()
	w, werr := fcrcrypto.DecodePublicKey(r.RootSigningKey)
	gvEnsures("C17.root-key-of-the-entry", func() bool { return (err == nil) == (werr == nil) && (err != nil || fcrcrypto.SpecSameKey(k, w) && fcrcrypto.SpecPublicKey(k)) })
}

//gv:props C17
func contract_NewGatewayRegister(nodeID, address, rootKey, key, region, gw, pr, cl, ad string) {
	g := NewGatewayRegister(nodeID, address, rootKey, key, region, gw, pr, cl, ad)
	r, ok := g.(*GatewayRegister)
	gvEnsures("C17.new-entry-holds-what-was-given", func() bool {
		return ok && r != nil && r.NodeID == nodeID && r.Address == address && r.RootSigningKey == rootKey && r.SigningKey == key &&
			r.RegionCode == region && r.NetworkInfoGateway == gw && r.NetworkInfoProvider == pr && r.NetworkInfoClient == cl && r.NetworkInfoAdmin == ad
	})
}

//gv:props C17
func contract_NewProviderRegister(nodeID, address, rootKey, key, region, gw, cl, ad string) {
	g := NewProviderRegister(nodeID, address, rootKey, key, region, gw, cl, ad)
	r, ok := g.(*ProviderRegister)
	gvEnsures("C17.new-entry-holds-what-was-given", func() bool {
		return ok && r != nil && r.NodeID == nodeID && r.Address == address && r.RootSigningKey == rootKey && r.SigningKey == key &&
			r.RegionCode == region && r.NetworkInfoGateway == gw && r.NetworkInfoClient == cl && r.NetworkInfoAdmin == ad
	})
}

//gv:iface (common/pkg/register.GatewayRegistrar).GetSigningKey
//gv:props C12
//gv:assumed the contract of GatewayRegister's method, proved as GatewaySigningKey
func contract_IfaceGatewayKey(g GatewayRegistrar) {
	k, err := g.GetSigningKey()
	gvEnsures("C17.key-or-error", func() bool { return (err == nil) == (k != nil) })
	gvEnsures("C17.key-of-the-entry", func() bool { return err != nil || fcrcrypto.SpecPublicKey(k) })
}

//gv:iface (common/pkg/register.ProviderRegistrar).GetSigningKey
//gv:props C12
//gv:assumed the contract of ProviderRegister's method, proved as ProviderSigningKey
func contract_IfaceProviderKey(g ProviderRegistrar) {
	k, err := g.GetSigningKey()
	gvEnsures("C17.key-or-error", func() bool { return (err == nil) == (k != nil) })
	gvEnsures("C17.key-of-the-entry", func() bool { return err != nil || fcrcrypto.SpecPublicKey(k) })
}
