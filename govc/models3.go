package main

import (
	"go/types"
	"strings"
)

// okRet models a library call with results (..., error): on success every result index in nn is
// non-nil; ok (optional) runs on the success state with the results.
func okRet(m *mcall, nn []int, why string, ok func(st *State, rs []Val)) {
	x := m.x
	n := m.sig.Results().Len()
	x.assume1(why)
	okv := x.freshT("ok_"+lastName(m.name), SBool)
	mk := func(st *State, good bool) []Val {
		var rs []Val
		for i := 0; i < n-1; i++ {
			rs = append(rs, x.havocVal(st, m.sig.Results().At(i).Type(), "r_"+lastName(m.name)))
		}
		if good {
			for _, i := range nn {
				if t, is := rs[i].(*Term); is {
					st.assume(Not(Eq(t, Null)))
				}
			}
		}
		return rs
	}
	x.split(m.st, okv, func(st *State) {
		rs := mk(st, true)
		if ok != nil {
			ok(st, rs)
		}
		m.k(st, packResults(append(rs, nilErr)))
	}, func(st *State) {
		m.k(st, packResults(append(mk(st, false), x.newErr())))
	})
}

// newBig: a new big integer of arbitrary value
func (x *Exec) newBig(st *State, n string) *Term {
	o := x.newObj()
	bigSet(st, o, x.freshT(n, SInt))
	return o
}

func init() {
	reg2([]string{"github.com/filecoin-project/lotus/chain/types.ParseFIL"}, func(m *mcall) {
		okRet(m, nil, "lotus types.ParseFIL gives a new amount of the value its text denotes (\"0\" denotes zero)", func(st *State, rs []Val) {
			o := m.x.newObj()
			if s := m.t(0); s.op == "lit" && litVals[s] == "0" {
				bigSet(st, o, Int(0))
			} else {
				bigSet(st, o, UF("filval", SInt, m.t(0)))
			}
			v := rs[0].(*StructV)
			v.f[0] = o
		})
	})
	reg2([]string{"github.com/filecoin-project/lotus/lib/sigs.Sign"}, func(m *mcall) {
		okRet(m, []int{0}, "lotus sigs.Sign returns a signature whenever it returns no error", nil)
	})
	reg2([]string{
		"github.com/filecoin-project/specs-actors/actors/builtin/paych.DecodeSignedVoucher",
		"github.com/filecoin-project/lotus/chain/actors/builtin/paych.DecodeSignedVoucher",
	}, func(m *mcall) {
		okRet(m, []int{0}, "a decoded voucher has an amount (lotus' CBOR decoder always sets it)", func(st *State, rs []Val) {
			v := rs[0].(*Term)
			t := ptrElem(m.sig.Results().At(0).Type())
			i := fieldIndex(t, "Amount")
			am := SubRef(v, fieldID(t, i))
			at := t.Underlying().(*types.Struct).Field(i).Type()
			a, ft := m.x.fieldAddr(st, am, at, 0)
			m.x.store(st, a, ft, m.x.newBig(st, "voucher_amount"))
		})
	})
	reg2([]string{"github.com/filecoin-project/go-jsonrpc.NewMergeClient"}, func(m *mcall) {
		okRet(m, []int{0}, "jsonrpc.NewMergeClient returns a closer whenever it returns no error", nil)
	})
	PB := "github.com/filecoin-project/lotus/chain/actors/builtin/paych."
	reg2([]string{PB + "Message"}, func(m *mcall) {
		m.x.assume1("lotus paych.Message returns a message builder for the supported actors version")
		v := m.x.havocVal(m.st, m.sig.Results().At(0).Type(), "builder").(*IfaceV)
		m.st.assume(Not(Eq(v.tag, Int(0))))
		m.ret(v)
	})
	reg2([]string{"(" + PB + "MessageBuilder).Create"}, func(m *mcall) {
		okRet(m, []int{0}, "the payment channel message builder returns a message whenever it returns no error", nil)
	})
	reg2([]string{"github.com/filecoin-project/go-state-types/big.NewFromGo"}, func(m *mcall) {
		v := m.x.havocVal(m.st, m.sig.Results().At(0).Type(), "lb").(*StructV)
		o := m.x.newObj()
		m.nn(0)
		bigSet(m.st, o, bigGet(m.st, m.t(0)))
		v.f[0] = o
		m.ret(v)
	})
	L := "(*github.com/filecoin-project/lotus/api/apistruct.FullNodeStruct)."
	reg2([]string{L + "StateReadState"}, func(m *mcall) {
		okRet(m, []int{0}, "a successful StateReadState returns a state with a balance of its own", func(st *State, rs []Val) {
			v := rs[0].(*Term)
			t := ptrElem(m.sig.Results().At(0).Type())
			i := fieldIndex(t, "Balance")
			at := t.Underlying().(*types.Struct).Field(i).Type()
			a, ft := m.x.fieldAddr(st, SubRef(v, fieldID(t, i)), at, 0)
			m.x.store(st, a, ft, m.x.newBig(st, "state_balance"))
		})
	})
	_ = strings.Join
}
