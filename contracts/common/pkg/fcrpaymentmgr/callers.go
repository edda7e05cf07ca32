package fcrpaymentmgr

import "math/big"

//gv:target (*FCRPaymentMgr).Receive
//gv:props C11
//gv:assumed proved as contract Receive of C10; its changes stay within the payment manager's books
func contract_ReceiveResult(mgr *FCRPaymentMgr, channel string, voucher string) {
	gvRequires(func() bool { return mgr != nil })
	paid, err := mgr.Receive(channel, voucher)
	gvEnsures("C10.credit-or-error", func() bool { return (paid == nil) == (err != nil) })
	gvEnsures("C10.credit-apart-from-books", func() bool { return paid == nil || gvFresh(paid) })
}

//gv:target (*FCRPaymentMgr).Pay
//gv:props C11
//gv:assumed proved as contract Pay of C09; its changes stay within the payment manager's books
func contract_PayResult(mgr *FCRPaymentMgr, recipient string, lane uint64, amount *big.Int) {
	gvRequires(func() bool { return mgr != nil && amount != nil })
	addr, voucher, topup, err := mgr.Pay(recipient, lane, amount)
	gvEnsures("C09.failed-payment-returns-no-voucher", func() bool { return err == nil && !topup || addr == "" && voucher == "" })
}

//gv:target (*FCRPaymentMgr).Topup
//gv:props C11
//gv:assumed proved as contract Topup of C09; its changes stay within the payment manager's books
func contract_TopupResult(mgr *FCRPaymentMgr, recipient string, amount *big.Int) {
	gvRequires(func() bool { return mgr != nil && amount != nil })
	mgr.Topup(recipient, amount)
}
