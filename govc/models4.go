package main

import "go/types"

// reading from a stream: the bytes of the buffer become arbitrary; n of them are read, all of them
// for a full read without an error
func init() {
	read := func(full bool) func(m *mcall) {
		return func(m *mcall) {
			x := m.x
			s := m.args[len(m.args)-1].(*SliceV)
			if full {
				s = m.args[1].(*SliceV)
			}
			x.assume1("a read fills the buffer it is given, within its length, and nothing else")
			mem := m.st.memGet("E:byte", SArr(SRef, SArr(SInt, SInt)))
			old := Select(mem, s.arr)
			na := x.freshT("readbuf", SArr(SInt, SInt))
			q := BoundVar("ri", SInt)
			sel := intern("select", "", nil, SInt, na, q)
			addFact(na, Forall(q, And(Le(Int(0), sel), Le(sel, Int(255)), Or(And(Le(s.off, q), Lt(q, Add(s.off, s.len))), Eq(sel, Select(old, q)))), sel))
			m.st.memSet("E:byte", Store(mem, s.arr, na))
			n := x.havocVal(m.st, types.Typ[types.Int], "n_read").(*Term)
			m.st.assume(And(Le(Int(0), n), Le(n, s.len)))
			ok := x.freshT("ok_read", SBool)
			x.split(m.st, ok, func(st *State) {
				if full {
					st.assume(Eq(n, s.len))
				}
				m.k(st, TupleV{n, nilErr})
			}, func(st *State) {
				e := x.havocVal(st, m.sig.Results().At(1).Type(), "read_err").(*IfaceV)
				st.assume(Not(Eq(e.tag, Int(0))))
				m.k(st, TupleV{n, e})
			})
		}
	}
	// whether an error is a timeout does not change
	reg2([]string{"(net.Error).Timeout"}, func(m *mcall) {
		m.x.assume1("net.Error.Timeout gives the same answer whenever it is asked of the same error")
		iv := m.args[0].(*IfaceV)
		m.ret(UF("nettimeout", SBool, iv.tag, iv.ref))
	})
	reg2([]string{"io.ReadFull"}, read(true))
	reg2([]string{"(net.Conn).Read", "(io.Reader).Read", "(*bufio.Reader).Read"}, read(false))
	reg2([]string{"bufio.NewReader", "bufio.NewWriter", "bufio.NewReaderSize", "bufio.NewWriterSize"}, func(m *mcall) { m.ret(m.x.newObj()) })
}
