package main

import "math/big"

// The clock. An operation and its contract see one time: the clock stands still while one operation
// runs (assumption, reported). A time is its seconds since year 1 (ext) and nanoseconds (wall).
func init() {
	const toInternal = 62135596800
	mk := func(m *mcall, wall, ext *Term) Val {
		return &StructV{m.sig.Results().At(0).Type(), []Val{wall, ext, Null}}
	}
	parts := func(v Val) (*Term, *Term) {
		s := v.(*StructV)
		return s.f[0].(*Term), s.f[1].(*Term)
	}
	reg2([]string{"time.Now"}, func(m *mcall) {
		x := m.x
		x.assume1("the clock stands still while one operation runs")
		s, ns := UF("clock_s", SInt, Int(0)), UF("clock_ns", SInt, Int(0))
		s.lo, s.hi = big.NewInt(0), big.NewInt(1<<52)
		ns.lo, ns.hi = big.NewInt(0), big.NewInt(999999999)
		m.st.assume(And(Le(Int(0), s), Le(s, Int(1<<52)), Le(Int(0), ns), Lt(ns, Int(1000000000))))
		m.ret(mk(m, ns, Add(s, Int(toInternal))))
	})
	reg2([]string{"time.Unix"}, func(m *mcall) {
		if m.t(1) != Int(0) {
			m.ret(m.x.havocVal(m.st, m.sig.Results().At(0).Type(), "unix"))
			return
		}
		m.ret(mk(m, Int(0), wrap(Add(m.t(0), Int(toInternal)), m.sig.Params().At(0).Type())))
	})
	less := func(a, b Val) *Term {
		aw, ae := parts(a)
		bw, be := parts(b)
		return Or(Lt(ae, be), And(Eq(ae, be), Lt(aw, bw)))
	}
	reg2([]string{"(time.Time).Before"}, func(m *mcall) { m.ret(less(m.args[0], m.args[1])) })
	reg2([]string{"(time.Time).After"}, func(m *mcall) { m.ret(less(m.args[1], m.args[0])) })
	reg2([]string{"(time.Time).Unix"}, func(m *mcall) {
		_, e := parts(m.args[0])
		m.ret(wrap(Sub(e, Int(toInternal)), m.sig.Results().At(0).Type()))
	})
}
