package main

import (
	"go/types"
	"strings"
)

func reg2(names []string, f func(m *mcall)) {
	for _, n := range names {
		models[n] = f
	}
}

// ---- secp256k1 (uninterpreted, with "a signature made with a key verifies under its public key")
func secKeyOK(sk *Term) *Term {
	r := UF("secKeyOK", SBool, sk)
	addFact(r, Imp(r, Eq(blen(sk), Int(32))))
	return r
}

func secPub(sk *Term) *Term {
	r := UF("ellMarshal", SBytes, UF("secX", SInt, sk), UF("secY", SInt, sk))
	addFact(r, Eq(blen(r), Int(65)))
	return r
}

func secVerify(pk, msg, sig *Term) *Term {
	r := UF("secVerify", SBool, pk, msg, sig)
	addFact(r, Imp(r, And(Eq(blen(sig), Int(64)), Eq(blen(msg), Int(32)), Le(Int(1), blen(pk)))))
	return r
}

func secSign(msg, sk *Term) *Term {
	r := UF("secSign", SBytes, msg, sk)
	addFact(r, Eq(blen(r), Int(65)))
	s64 := mkbytes(UF("barr", SArr(SInt, SInt), r), Int(0), Int(64))
	addFact(r, Imp(And(secKeyOK(sk), Eq(blen(msg), Int(32))), And(secVerify(secPub(sk), msg, s64), UF("secRecOK", SBool, msg, r), Eq(UF("secRec", SBytes, msg, r), secPub(sk)))))
	return r
}

func init() {
	S := "github.com/ipsn/go-secp256k1."
	reg2([]string{S + "S256"}, func(m *mcall) { m.ret(m.x.newObj()) })
	reg2([]string{"(*github.com/ipsn/go-secp256k1.BitCurve).ScalarBaseMult"}, func(m *mcall) {
		sk := m.bytes(1)
		m.x.safety(m.st, m.fr, "secp256k1-invalid-private-key", m.pos, secKeyOK(sk))
		a, b := m.x.newObj(), m.x.newObj()
		bigSet(m.st, a, UF("secX", SInt, sk))
		bigSet(m.st, b, UF("secY", SInt, sk))
		m.ret(a, b)
	})
	reg2([]string{"crypto/elliptic.Marshal"}, func(m *mcall) {
		x, y := bigGet(m.st, m.t(1)), bigGet(m.st, m.t(2))
		r := UF("ellMarshal", SBytes, x, y)
		addFact(r, Eq(blen(r), Int(65)))
		m.ret(m.x.sliceOfBytes(m.st, r, false))
	})
	reg2([]string{S + "Sign"}, func(m *mcall) {
		msg, sk := m.bytes(0), m.bytes(1)
		m.x.split(m.st, And(Eq(blen(msg), Int(32)), secKeyOK(sk)), func(st *State) {
			m.k(st, TupleV{m.x.sliceOfBytes(st, secSign(msg, sk), false), nilErr})
		}, func(st *State) {
			m.k(st, TupleV{zeroVal(byteSlice), m.x.newErr()})
		})
	})
	reg2([]string{S + "VerifySignature"}, func(m *mcall) {
		m.ret(secVerify(m.bytes(0), m.bytes(1), m.bytes(2)))
	})
	reg2([]string{S + "RecoverPubkey"}, func(m *mcall) {
		msg, sig := m.bytes(0), m.bytes(1)
		ok := UF("secRecOK", SBool, msg, sig)
		m.x.split(m.st, ok, func(st *State) {
			r := UF("secRec", SBytes, msg, sig)
			addFact(r, Eq(blen(r), Int(65)))
			st.assume(And(Eq(blen(msg), Int(32)), Eq(blen(sig), Int(65))))
			m.k(st, TupleV{m.x.sliceOfBytes(st, r, false), nilErr})
		}, func(st *State) {
			m.k(st, TupleV{zeroVal(byteSlice), m.x.newErr()})
		})
	})
	reg2([]string{"crypto/ecdsa.GenerateKey"}, func(m *mcall) {
		pt := m.sig.Results().At(0).Type()
		okc := m.x.freshT("genok", SBool)
		m.x.split(m.st, okc, func(st *State) {
			r := m.x.newObj()
			kt := pt.(*types.Pointer).Elem()
			d := m.x.newObj()
			v := m.x.freshT("privD", SInt)
			st.assume(And(Le(Int(1), v), Lt(v, pow256(32))))
			bigSet(st, d, v)
			fi := fieldIndex(kt, "D")
			a, ft := m.x.fieldAddr(st, r, kt, fi)
			m.x.store(st, a, ft, d)
			m.k(st, TupleV{r, nilErr})
		}, func(st *State) {
			m.k(st, TupleV{Null, m.x.newErr()})
		})
	})
}

func init() {
	reg2([]string{"encoding/json.Valid"}, func(m *mcall) { m.ret(jvalid(m.bytes(0))) })
}

// ---- github.com/cbergoon/merkletree, assumed: a tree is made for any non-empty list, its root is one
// function of the leaf hashes in order, and the path it gives for a leaf folds up to that root
// (specRecFold of contracts/common/pkg/fcrmerkletree), or is empty for content that is no leaf
var seqBytes = SArr(SInt, SBytes)

// contentHash calls the repository's CalculateHash on a value of type t.
func (x *Exec) contentHash(st *State, v Val, t types.Type) *Term {
	mf := lookupMethod(x, t, "CalculateHash")
	if mf == nil {
		unsup("no CalculateHash on %s", t)
	}
	var r *Term
	n := 0
	x.quiet++
	x.pureDepth++
	x.inlineCall(st.clone(), nil, mf, []Val{v}, nil, true, func(s *State, rs []Val) {
		n++
		r = x.bytesOf(s, rs[0].(*SliceV))
	})
	x.pureDepth--
	x.quiet--
	if n != 1 {
		unsup("CalculateHash of %s has %d paths", t, n)
	}
	return r
}

func (x *Exec) contentTypes() []types.Type {
	for _, p := range x.prog.AllPackages() {
		if strings.HasSuffix(p.Pkg.Path(), "common/pkg/cid") {
			if o := p.Pkg.Scope().Lookup("ContentID"); o != nil {
				return []types.Type{o.Type()}
			}
		}
	}
	return nil
}

func mroot(l, n *Term) *Term {
	r := UF("mroot", SBytes, l, n)
	addFact(r, Eq(UF("blen", SInt, r), Int(32)))
	return r
}

func init() {
	M := "github.com/cbergoon/merkletree."
	reg2([]string{M + "NewTree"}, func(m *mcall) {
		x := m.x
		cs := m.sl(0)
		ct := m.sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		x.split(m.st, Eq(cs.len, Int(0)), func(st *State) {
			m.k(st, TupleV{Null, x.newErr()})
		}, func(st *State) {
			o := x.newObj()
			x.assume1("merkletree.NewTree makes a tree for every non-empty content list (leaf hashing of identifiers cannot fail) whose root is a function of the leaf hashes in order")
			l := x.freshT("mleaf", seqBytes)
			q := BoundVar("q", SInt)
			el := x.loadQ(st, cs.arr, Add(cs.off, q), ct).(*IfaceV)
			in := And(Le(Int(0), q), Lt(q, cs.len))
			for _, t := range x.contentTypes() {
				v := x.unbox(st, &IfaceV{tag: el.tag, ref: el.ref}, t)
				h := x.contentHash(st, v, t)
				st.assume(Forall(q, Imp(And(in, Eq(el.tag, Int(typeTag(t)))), Eq(Select(l, q), h)), Select(l, q)))
				if el.ref.op == "select" && el.ref.bvs[q] {
					st.assume(Forall(q, Imp(And(in, Eq(el.tag, Int(typeTag(t)))), Eq(Select(l, q), h)), el.ref))
				}
			}
			st.assume(Forall(q, Or(in, Eq(Select(l, q), emptyBytes())), Select(l, q)))
			st.memSet("G:mleaf", Store(st.memGet("G:mleaf", SArr(SRef, seqBytes)), o, l))
			st.memSet("G:mleafn", Store(st.memGet("G:mleafn", SArr(SRef, SInt)), o, cs.len))
			m.k(st, TupleV{o, nilErr})
		})
	})
	reg2([]string{"(*" + M + "MerkleTree).GetMerklePath"}, func(m *mcall) {
		x, st := m.x, m.st
		m.nn(0)
		l := Select(st.memGet("G:mleaf", SArr(SRef, seqBytes)), m.t(0))
		n := Select(st.memGet("G:mleafn", SArr(SRef, SInt)), m.t(0))
		iv := m.args[1].(*IfaceV)
		if iv.dynT == nil {
			unsup("GetMerklePath of content of unknown type")
		}
		x.assume1("merkletree.GetMerklePath gives the sibling path (which folds up to the root) of a leaf equal to the content, and an empty path when there is none")
		v := iv.dyn
		t := iv.dynT
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			x.safety(st, m.fr, "nil-dereference", m.pos, Not(Eq(x.ptrTerm(v), Null)))
			if st.dead {
				return
			}
			v, t = x.load(st, v, pt.Elem()), pt.Elem()
		}
		h := x.contentHash(st, v, t)
		found := x.freshT("mfound", SBool)
		x.split(st, found, func(st *State) {
			k := x.freshT("mleafidx", SInt)
			st.assume(And(Le(Int(0), k), Lt(k, n), Eq(Select(l, k), h)))
			p := x.havocVal(st, m.sig.Results().At(0).Type(), "mpath").(*SliceV)
			ix := x.havocVal(st, m.sig.Results().At(1).Type(), "mindex").(*SliceV)
			st.assume(And(Eq(p.len, ix.len), Le(Int(1), p.len)))
			q := BoundVar("q", SInt)
			bt := types.NewSlice(types.Typ[types.Byte])
			el := x.loadQ(st, p.arr, Add(p.off, q), bt).(*SliceV)
			snap := x.freshT("snap", SArr(SInt, SStr))
			in := And(Le(Int(0), q), Lt(q, p.len))
			st.assume(Forall(q, Imp(in, And(Eq(Select(snap, q), strb(x.bytesOf(st, el))), Eq(el.len, Int(32)))), Select(snap, q)))
			st.assume(Forall(q, Or(in, Eq(Select(snap, q), StrLit(""))), Select(snap, q)))
			ixc := Select(st.memGet("E:int64", SArr(SRef, SArr(SInt, SInt))), ix.arr)
			st.assume(Eq(UF("rec_specRecFold", SStr, strb(h), snap, Int(0), p.len, ixc, ix.off, ix.len, p.len), strb(mroot(l, n))))
			m.k(st, TupleV{p, ix, nilErr})
		}, func(st *State) {
			q := BoundVar("q", SInt)
			st.assume(Forall(q, Imp(And(Le(Int(0), q), Lt(q, n)), Not(Eq(Select(l, q), h))), Select(l, q)))
			z := &SliceV{Null, Int(0), Int(0), Int(0)}
			m.k(st, TupleV{z, z, nilErr})
		})
	})
	reg2([]string{"(*" + M + "MerkleTree).MerkleRoot"}, func(m *mcall) {
		m.nn(0)
		r := mroot(Select(m.st.memGet("G:mleaf", SArr(SRef, seqBytes)), m.t(0)), Select(m.st.memGet("G:mleafn", SArr(SRef, SInt)), m.t(0)))
		m.ret(m.x.sliceOfBytes(m.st, r, false))
	})
}
