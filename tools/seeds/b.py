F="common/pkg/fcrpaymentmgr/payment_manager.go"
PAYKEY='"1d1b1e4b6d6f0f3a5f4b1c2d3e4f5a6b7c8d9e0f1a2b3c4d5e6f708192a3b4c5"'
mk("C09-lane-balance","C09",[(F,"	newRedeemed := big.NewInt(0).Add(&cs.redeemed, amount)\n	if cs","	promised := &cs.redeemed\n	if ls, ok := cs.laneStates[lane]; ok {\n		promised = &ls.redeemed\n	}\n	newRedeemed := big.NewInt(0).Add(promised, amount)\n	if cs")],"common","pkg/fcrpaymentmgr",'''
	package fcrpaymentmgr

	import (
		"math/big"
		"testing"

		"github.com/filecoin-project/go-address"
	)

	func TestSeedDemo(t *testing.T) {
		mgr, err := NewFCRPaymentMgr('''+PAYKEY+''', "http://127.0.0.1:1", "")
		if err != nil {
			t.Fatal(err)
		}
		ch, _ := address.NewIDAddress(77)
		mgr.outboundChs["r"] = &channelState{addr: ch, balance: *big.NewInt(10), laneStates: map[uint64]*laneState{}}
		for i, s := range []struct {
			lane, amount int64
			topup        bool
		}{{0, 3, false}, {1, 3, false}, {0, 4, false}, {1, 1, true}} {
			_, _, topup, err := mgr.Pay("r", uint64(s.lane), big.NewInt(s.amount))
			if err != nil || topup != s.topup {
				t.Fatal("payment", i, topup, err)
			}
		}
	}
''',"payments on two lanes of one channel, the later ones on lanes already used","the balance check counts only the lane's promises, so the channel promises more than it holds")
mk("C10-lane-credit","C10",[(F,"Sub(sv.Amount.Int, &ls.redeemed)","Sub(sv.Amount.Int, &cs.redeemed)")],"common","pkg/fcrpaymentmgr",'''
	package fcrpaymentmgr

	import (
		"encoding/json"
		"fmt"
		"math/big"
		"net/http"
		"net/http/httptest"
		"testing"

		"github.com/filecoin-project/go-address"
	)

	func TestSeedDemo(t *testing.T) {
		payer, err := NewFCRPaymentMgr('''+PAYKEY+''', "http://127.0.0.1:1", "")
		if err != nil {
			t.Fatal(err)
		}
		var payee *FCRPaymentMgr
		ch, _ := address.NewIDAddress(77)
		to, _ := address.NewIDAddress(78)
		from, _ := address.NewIDAddress(79)
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			var q struct {
				ID     interface{}   `json:"id"`
				Method string        `json:"method"`
				Params []interface{} `json:"params"`
			}
			json.NewDecoder(r.Body).Decode(&q)
			var res interface{}
			switch q.Method {
			case "Filecoin.StateReadState":
				res = map[string]interface{}{"Balance": "100", "State": map[string]interface{}{"To": to.String(), "From": from.String()}}
			case "Filecoin.StateAccountKey":
				if q.Params[0] == to.String() {
					res = payee.address.String()
				} else {
					res = payer.address.String()
				}
			}
			json.NewEncoder(w).Encode(map[string]interface{}{"jsonrpc": "2.0", "id": q.ID, "result": res})
		}))
		defer srv.Close()
		payee, err = NewFCRPaymentMgr("2d1b1e4b6d6f0f3a5f4b1c2d3e4f5a6b7c8d9e0f1a2b3c4d5e6f708192a3b4c5", srv.URL, "")
		if err != nil {
			t.Fatal(err)
		}
		payer.outboundChs["r"] = &channelState{addr: ch, balance: *big.NewInt(100), laneStates: map[uint64]*laneState{}}
		for i, s := range []struct{ lane, amount int64 }{{0, 3}, {0, 4}, {1, 20}, {1, 2}} {
			c, v, topup, err := payer.Pay("r", uint64(s.lane), big.NewInt(s.amount))
			if err != nil || topup {
				t.Fatal(topup, err)
			}
			got, err := payee.Receive(c, v)
			if err != nil || got.Cmp(big.NewInt(s.amount)) != 0 {
				t.Fatal(fmt.Sprint("receipt ", i, " credited ", got, " for ", s.amount), err)
			}
		}
	}
''',"vouchers on a second lane of a channel","a voucher on another lane is credited with the increase over the whole channel instead of over its lane")
