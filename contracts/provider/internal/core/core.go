package core

import (
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/provider/internal/util/settings"
)

// SpecCore is the single instance, once started
func SpecCore() *Core { return instance }

// SpecRunning: the provider process has been started
func SpecRunning(c *Core) bool {
	return c != nil && c.Settings != nil && c.RegisterMgr != nil && fcrregistermgr.SpecIdle(c.RegisterMgr) && c.OffersMgr != nil &&
		c.P2PServer != nil && c.NodeOfferMap != nil && c.AcknowledgementMap != nil
}

// SpecStarted: and initialised by its admin
func SpecStarted(c *Core) bool {
	return SpecRunning(c) && c.ProviderID != nil && len(c.ProviderID.ToBytes()) == 32 && fcrcrypto.SpecSigner(c.ProviderPrivateKey) && c.ProviderPrivateKeyVersion != nil
}

//gv:target GetSingleInstance
//gv:props C12,C16
//gv:assumed called after main has supplied the settings, so that it only returns the instance
func contract_GetSingleInstance(confs []*settings.AppSettings) {
	c := GetSingleInstance(confs...)
	gvEnsures("C12.single-instance", func() bool { return c == instance })
}
