package core

import (
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/gateway/internal/util/settings"
)

// SpecCore is the single instance, once started
func SpecCore() *Core { return instance }

// SpecStarted: the gateway has been started and initialised by its admin
func SpecStarted(c *Core) bool {
	return c != nil && c.Settings != nil && c.Settings.SearchPrice != nil && c.Settings.OfferPrice != nil && c.Settings.TopupAmount != nil &&
		c.GatewayID != nil && len(c.GatewayID.ToBytes()) == 32 && fcrcrypto.SpecSigner(c.GatewayPrivateKey) && c.GatewayPrivateKeyVersion != nil &&
		c.RegisterMgr != nil && fcrregistermgr.SpecIdle(c.RegisterMgr) && c.OffersMgr != nil && c.PaymentMgr != nil && c.ReputationMgr != nil && c.P2PServer != nil && c.RegistrationMerkleProof != nil
}

//gv:target GetSingleInstance
//gv:props C11,C12
//gv:assumed called after main has supplied the settings, so that it only returns the instance
func contract_GetSingleInstance(confs []*settings.AppSettings) {
	c := GetSingleInstance(confs...)
	gvEnsures("C11.single-instance", func() bool { return c == instance })
}
