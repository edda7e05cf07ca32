package fcrpaymentmgr

import (
	"context"
	"math/big"

	"github.com/filecoin-project/go-address"
	crypto2 "github.com/filecoin-project/go-state-types/crypto"
	"github.com/filecoin-project/lotus/api"
	"github.com/filecoin-project/lotus/api/apistruct"
	"github.com/filecoin-project/lotus/chain/actors/builtin/paych"
	"github.com/filecoin-project/lotus/chain/types"
)

// ghost state: what the payer's books held for the recipient when it last took the lock, and the voucher encoded
var gvOwn bool
var gvHad bool
var gvCS *channelState
var gvEncoded int
var gvSV *paych.SignedVoucher

func specChan(cs *channelState) bool { return cs != nil && cs.laneStates != nil }

// lanes of a channel are records of their own
func specLane(cs *channelState, lane uint64) bool {
	ls, ok := cs.laneStates[lane]
	return !ok || ls != nil
}

func spec_encode(sv *paych.SignedVoucher) {
	gvEncoded++
	gvSV = sv
}

//gv:target (*FCRPaymentMgr).Pay
//gv:props C09,C19
//gv:nopanic C09.pay-no-panic
//gv:locks C19.payment-locks-released
//gv:guard FCRPaymentMgr.outboundChs outboundChsLock C19.outbound-channels-guarded
//gv:guard channelState.laneStates lock C19.channel-state-guarded
//gv:bigcopy C09.books-do-not-share-amounts
//gv:oncall common/pkg/fcrpaymentmgr.encodedVoucher spec_encode
func contract_Pay(mgr *FCRPaymentMgr, recipient string, lane uint64, amount *big.Int) {
	gvRequires(func() bool { return mgr != nil && amount != nil })
	cs, had := mgr.outboundChs[recipient]
	gvRequires(func() bool { return !had || specChan(cs) && specLane(cs, lane) && amount != &cs.balance && amount != &cs.redeemed })
	gvEncoded = 0
	var ls *laneState
	hadLane := false
	bal, red, lred, nonce, vs := big.NewInt(0), big.NewInt(0), big.NewInt(0), uint64(0), 0
	if had {
		bal.Set(&cs.balance)
		red.Set(&cs.redeemed)
		ls, hadLane = cs.laneStates[lane]
		if hadLane {
			gvRequires(func() bool { return amount != &ls.redeemed })
			lred.Set(&ls.redeemed)
			nonce = ls.nonce
			vs = len(ls.vouchers)
		}
	}
	amt := new(big.Int).Set(amount)
	// books as Pay keeps them: nothing promised beyond the balance, lanes promise non-negative totals
	gvRequires(func() bool { return !had || red.Cmp(bal) <= 0 && lred.Sign() >= 0 })
	gvRequires(func() bool { return nonce < 1<<63 })
	addr, voucher, topup, err := mgr.Pay(recipient, lane, amount)
	paid := err == nil && !topup
	gvEnsures("C09.top-up-asked-without-channel-or-balance", func() bool {
		return err != nil || topup == (!had || new(big.Int).Add(red, amt).Cmp(bal) > 0)
	})
	gvEnsures("C09.no-negative-payment", func() bool { return !paid || amt.Sign() >= 0 })
	gvEnsures("C09.one-voucher-per-payment", func() bool { return !paid || gvEncoded == 1 })
	gvEnsures("C09.nothing-promised-without-payment", func() bool { return err != nil || !topup || gvEncoded == 0 })
	gvEnsures("C09.failed-payment-returns-no-voucher", func() bool { return paid || addr == "" && voucher == "" })
	gvEnsures("C09.amount-unchanged", func() bool { return amount.Cmp(amt) == 0 })
	if !had {
		gvEnsures("C09.no-channel-created-by-paying", func() bool { _, ok := mgr.outboundChs[recipient]; return !ok })
		return
	}
	gvEnsures("C09.channel-record-kept", func() bool { c, ok := mgr.outboundChs[recipient]; return ok && c == cs })
	gvEnsures("C09.balance-unchanged-by-paying", func() bool { return cs.balance.Cmp(bal) == 0 })
	gvEnsures("C09.promised-within-balance", func() bool { return cs.redeemed.Cmp(&cs.balance) <= 0 })
	nls, hasLane := cs.laneStates[lane]
	if !paid {
		gvEnsures("C09.books-unchanged-without-payment", func() bool {
			return cs.redeemed.Cmp(red) == 0 && (!hadLane || nls == ls && ls.redeemed.Cmp(lred) == 0 && ls.nonce == nonce && len(ls.vouchers) == vs)
		})
		gvEnsures("C09.new-lane-empty-without-payment", func() bool {
			return hadLane || !hasLane || nls != nil && nls.redeemed.Sign() == 0 && nls.nonce == 0 && len(nls.vouchers) == 0
		})
		return
	}
	gvEnsures("C09.lane-record-kept", func() bool { return hasLane && nls != nil && (!hadLane || nls == ls) })
	gvEnsures("C09.channel-total-raised-by-amount", func() bool { return cs.redeemed.Cmp(new(big.Int).Add(red, amt)) == 0 })
	gvEnsures("C09.lane-total-raised-by-amount", func() bool { return nls.redeemed.Cmp(new(big.Int).Add(lred, amt)) == 0 })
	gvEnsures("C09.nonce-raised", func() bool { return nls.nonce == nonce+1 })
	gvEnsures("C09.voucher-recorded", func() bool { return len(nls.vouchers) == vs+1 && nls.vouchers[vs] == voucher })
	gvEnsures("C09.voucher-carries-the-new-total", func() bool { return gvSV.Amount.Int != nil && gvSV.Amount.Int.Cmp(new(big.Int).Add(lred, amt)) == 0 })
	gvEnsures("C09.voucher-carries-lane-and-nonce", func() bool { return gvSV.Lane == lane && gvSV.Nonce == nonce && gvSV.ChannelAddr == cs.addr })
	gvEnsures("C09.voucher-is-signed", func() bool { return gvSV.Signature != nil })
	// a later change of the books does not change the amount of the voucher
	gvEnsures("C09.voucher-amount-apart-from-books", func() bool { return gvSV.Amount.Int != &nls.redeemed && gvSV.Amount.Int != &cs.redeemed && gvSV.Amount.Int != amount })
}

// ghost state of Receive: the decoded voucher, the channel's state on chain, and what the checks were given
var gvState *api.ActorState
var gvVerified, gvKeyed int
var gvSigBytes []byte
var gvRecipient address.Address
var gvKey address.Address

func spec_decoded(voucher string, sv *paych.SignedVoucher, err error) {
	gvSV = sv
	if err == nil {
		specLaneSnap()
	}
}

var gvLS *laneState
var gvHadLane bool
var gvLaneRed *big.Int
var gvNonce uint64
var gvVs int

// the lane the voucher names, as the books hold it
func specLaneSnap() {
	gvLaneRed = big.NewInt(0)
	gvNonce, gvVs, gvHadLane, gvLS = 0, 0, false, nil
	if gvHad {
		gvLS, gvHadLane = gvCS.laneStates[gvSV.Lane]
	}
	if gvHadLane {
		gvAssume("the books hold no nil lane records and lane totals are not negative", func() bool { return gvLS != nil && gvLS.redeemed.Sign() >= 0 })
		gvLaneRed.Set(&gvLS.redeemed)
		gvNonce = gvLS.nonce
		gvVs = len(gvLS.vouchers)
	}
}

func spec_signingBytes(sv *paych.SignedVoucher, b []byte, err error) {
	gvEnsures("C10.verifies-the-voucher's-own-content", func() bool { return sv == gvSV })
	gvSigBytes = b
}

func spec_verified(sig *crypto2.Signature, addr address.Address, msg []byte, err error) {
	gvEnsures("C10.verifies-the-voucher's-signature", func() bool { return sig == gvSV.Signature && gvBytesEq(msg, gvSigBytes) && addr == gvKey })
	if err == nil {
		gvVerified++
	}
}

func spec_accountKey(api *apistruct.FullNodeStruct, ctx context.Context, a address.Address, k types.TipSetKey, r address.Address, err error) {
	if gvKeyed == 0 {
		gvRecipient = r
	}
	gvKey = r
	gvKeyed++
}

func spec_readState(api *apistruct.FullNodeStruct, ctx context.Context, a address.Address, k types.TipSetKey, s *api.ActorState, err error) {
	gvState = s
}

// another thread may have added channels between two holds of the lock; records are never replaced
func interf_Receive(mgr *FCRPaymentMgr, channel string, voucher string) {
	cs, ok := mgr.inboundChs[channel]
	gvAssume("other threads keep the books' shape", func() bool { return !ok || specChan(cs) && specBooks(cs) })
	specSnap(mgr, channel)
	specLaneSnap()
}

func specBooks(cs *channelState) bool { return cs.redeemed.Cmp(&cs.balance) <= 0 }

var gvBal, gvRed *big.Int

func specSnap(mgr *FCRPaymentMgr, channel string) {
	gvCS, gvHad = mgr.inboundChs[channel]
	gvRed, gvBal = big.NewInt(0), big.NewInt(0)
	if gvHad {
		gvRed.Set(&gvCS.redeemed)
		gvBal.Set(&gvCS.balance)
	}
}

var gvAddr address.Address
var gvAddrOf string
var gvAddrs int

func spec_parsed(s string, a address.Address, err error) {
	if gvAddrs == 0 {
		gvAddr, gvAddrOf = a, s
	}
	gvAddrs++
}

//gv:target (*FCRPaymentMgr).Receive
//gv:aftercall github.com/filecoin-project/go-address.NewFromString spec_parsed
//gv:props C10,C19
//gv:nopanic C10.receive-no-panic
//gv:locks C19.payment-locks-released
//gv:guard FCRPaymentMgr.inboundChs inboundChsLock C19.inbound-channels-guarded
//gv:bigcopy C10.books-do-not-share-amounts
//gv:interfere mgr.inboundChsLock mgr.inboundChs interf_Receive
//gv:aftercall github.com/filecoin-project/lotus/chain/actors/builtin/paych.DecodeSignedVoucher spec_decoded
//gv:aftercall github.com/filecoin-project/lotus/lib/sigs.Verify spec_verified
//gv:aftercall (*github.com/filecoin-project/specs-actors/actors/builtin/paych.SignedVoucher).SigningBytes spec_signingBytes
//gv:aftercall (*github.com/filecoin-project/lotus/api/apistruct.FullNodeStruct).StateAccountKey spec_accountKey
//gv:aftercall (*github.com/filecoin-project/lotus/api/apistruct.FullNodeStruct).StateReadState spec_readState
func contract_Receive(mgr *FCRPaymentMgr, channel string, voucher string) {
	gvRequires(func() bool { return mgr != nil && mgr.address != nil && mgr.inboundChs != nil })
	cs, had := mgr.inboundChs[channel]
	gvRequires(func() bool { return !had || specChan(cs) && specBooks(cs) })
	gvRequires(func() bool { return mgr.address != &gvRecipient && mgr.address != &gvKey && mgr.address != &gvAddr })
	gvVerified, gvKeyed, gvHadLane, gvAddrs = 0, 0, false, 0
	specSnap(mgr, channel)
	paid, err := mgr.Receive(channel, voucher)
	gvEnsures("C10.credit-or-error", func() bool { return (paid == nil) == (err != nil) })
	ncs, has := mgr.inboundChs[channel]
	gvEnsures("C10.channel-record-never-replaced", func() bool { return !gvHad || has && ncs == gvCS })
	if err != nil {
		if gvHad {
			gvEnsures("C10.total-unchanged-on-refusal", func() bool { return gvCS.redeemed.Cmp(gvRed) == 0 })
			gvEnsures("C10.balance-never-lowered", func() bool { return gvCS.balance.Cmp(gvBal) >= 0 })
		}
		if gvHadLane {
			gvEnsures("C10.lane-unchanged-on-refusal", func() bool {
				return gvCS.laneStates[gvSV.Lane] == gvLS && gvLS.redeemed.Cmp(gvLaneRed) == 0 && gvLS.nonce == gvNonce && len(gvLS.vouchers) == gvVs
			})
		}
		return
	}
	gvEnsures("C10.channel-recorded", func() bool { return has && ncs != nil })
	nls, hasLane := ncs.laneStates[gvSV.Lane]
	gvEnsures("C10.lane-recorded", func() bool { return hasLane && nls != nil && (!gvHadLane || nls == gvLS) })
	gvEnsures("C10.credited-only-after-signature-check", func() bool { return gvVerified == 1 })
	gvEnsures("C10.credited-only-to-the-right-recipient", func() bool { return gvRecipient == *mgr.address })
	gvEnsures("C10.voucher-of-this-channel", func() bool { return gvSV.ChannelAddr == gvAddr && gvAddrOf == channel })
	gvEnsures("C10.credits-the-increase", func() bool { return paid.Sign() > 0 && new(big.Int).Add(gvLaneRed, paid).Cmp(gvSV.Amount.Int) == 0 })
	gvEnsures("C10.lane-total-is-the-voucher's", func() bool { return nls.redeemed.Cmp(gvSV.Amount.Int) == 0 })
	gvEnsures("C10.channel-total-raised-by-credit", func() bool { return ncs.redeemed.Cmp(new(big.Int).Add(gvRed, paid)) == 0 })
	gvEnsures("C10.credit-within-balance", func() bool { return ncs.redeemed.Cmp(&ncs.balance) <= 0 && ncs.balance.Cmp(gvState.Balance.Int) <= 0 })
	gvEnsures("C10.nonce-not-reused", func() bool { return gvSV.Nonce >= gvNonce && nls.nonce == gvSV.Nonce+1 })
	gvEnsures("C10.voucher-recorded", func() bool { return len(nls.vouchers) == gvVs+1 && nls.vouchers[gvVs] == voucher })
	gvEnsures("C10.credit-apart-from-books", func() bool { return paid != &nls.redeemed && paid != &ncs.redeemed && paid != &ncs.balance && paid != gvSV.Amount.Int })
}

var gvPushed int

var gvAmt *big.Int
var gvCreated int

func spec_push(api *apistruct.FullNodeStruct, ctx context.Context, m *types.SignedMessage) {
	gvPushed++
	gvEnsures("C09.transfer-of-exactly-the-amount-to-the-channel", func() bool {
		return gvCreated == 1 || gvHad && m.Message.Value.Int != nil && m.Message.Value.Int.Cmp(gvAmt) == 0 && m.Message.To == gvCS.addr
	})
}

func spec_create(b paych.MessageBuilder, to address.Address, initial types.BigInt) {
	gvCreated++
	gvEnsures("C09.new-channel-funded-with-exactly-the-amount", func() bool { return !gvHad && initial.Int != nil && initial.Int.Cmp(gvAmt) == 0 })
}

func interf_Topup(mgr *FCRPaymentMgr, recipient string, amount *big.Int) {
	cs, ok := mgr.outboundChs[recipient]
	gvAssume("other threads keep the books' shape", func() bool { return !ok || specChan(cs) && amount != &cs.balance && amount != &cs.redeemed })
	specSnapOut(mgr, recipient)
}

func specSnapOut(mgr *FCRPaymentMgr, recipient string) {
	gvCS, gvHad = mgr.outboundChs[recipient]
	gvRed, gvBal = big.NewInt(0), big.NewInt(0)
	if gvHad {
		gvRed.Set(&gvCS.redeemed)
		gvBal.Set(&gvCS.balance)
	}
}

//gv:target (*FCRPaymentMgr).Topup
//gv:props C09,C19
//gv:nopanic C09.topup-no-panic
//gv:locks C19.payment-locks-released
//gv:guard FCRPaymentMgr.outboundChs outboundChsLock C19.outbound-channels-guarded
//gv:bigcopy C09.books-do-not-share-amounts
//gv:interfere mgr.outboundChsLock mgr.outboundChs interf_Topup
//gv:oncall (*github.com/filecoin-project/lotus/api/apistruct.FullNodeStruct).MpoolPush spec_push
//gv:oncall (github.com/filecoin-project/lotus/chain/actors/builtin/paych.MessageBuilder).Create spec_create
func contract_Topup(mgr *FCRPaymentMgr, recipient string, amount *big.Int) {
	gvRequires(func() bool { return mgr != nil && mgr.address != nil && mgr.outboundChs != nil && amount != nil })
	cs, had := mgr.outboundChs[recipient]
	gvRequires(func() bool { return !had || specChan(cs) && amount != &cs.balance && amount != &cs.redeemed })
	amt := new(big.Int).Set(amount)
	gvPushed, gvCreated = 0, 0
	gvAmt = amt
	specSnapOut(mgr, recipient)
	err := mgr.Topup(recipient, amount)
	ncs, has := mgr.outboundChs[recipient]
	gvEnsures("C09.amount-unchanged", func() bool { return amount.Cmp(amt) == 0 })
	gvEnsures("C09.channel-record-never-replaced", func() bool { return !gvHad || has && ncs == gvCS })
	gvEnsures("C09.balance-raised-by-exactly-the-top-up", func() bool {
		return err != nil || has && ncs != nil && ncs.balance.Cmp(new(big.Int).Add(gvBal, amt)) == 0
	})
	gvEnsures("C09.top-up-promises-nothing", func() bool { return err != nil || ncs.redeemed.Cmp(gvRed) == 0 })
	gvEnsures("C09.one-transfer-per-top-up", func() bool { return err != nil || gvPushed == 1 })
	gvEnsures("C09.new-channel-usable", func() bool { return err != nil || specChan(ncs) })
	gvEnsures("C09.books-unchanged-when-top-up-fails", func() bool {
		return err == nil || has == gvHad && (!has || ncs.balance.Cmp(gvBal) == 0 && ncs.redeemed.Cmp(gvRed) == 0)
	})
}
