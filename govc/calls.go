package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const repoPrefix = "github.com/ConsenSys/fc-retrieval/"

func inRepo(fn *ssa.Function) bool {
	p := fnPkgPath(fn)
	return strings.HasPrefix(p, repoPrefix)
}

func fnPkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
		if f.Signature != nil && f.Signature.Recv() != nil && f.Parent() == nil {
			t := f.Signature.Recv().Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
				return n.Obj().Pkg().Path()
			}
		}
	}
	return ""
}

func (x *Exec) doCall(st *State, fr *Frame, c *ssa.CallCommon, pos token.Pos, rt types.Type, k func(*State, Val)) {
	var fv Val
	var args []Val
	if c.IsInvoke() {
		fv = x.get(st, fr, c.Value)
	} else {
		fv = x.get(st, fr, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, x.get(st, fr, a))
	}
	x.callValue(st, fr, c, fv, args, pos, k)
}

func packResults(rs []Val) Val {
	switch len(rs) {
	case 0:
		return TupleV{}
	case 1:
		return rs[0]
	}
	return TupleV(rs)
}

func (x *Exec) callValue(st *State, fr *Frame, c *ssa.CallCommon, fv Val, args []Val, pos token.Pos, k func(*State, Val)) {
	sig := c.Signature()
	if c.IsInvoke() {
		iv, ok := fv.(*IfaceV)
		if !ok {
			unsup("invoke on %T", fv)
		}
		x.safety(st, fr, "nil-interface-call", pos, Not(Eq(iv.tag, Int(0))))
		if st.dead {
			return
		}
		if iv.dynT != nil {
			m := x.prog.LookupMethod(iv.dynT, c.Method.Pkg(), c.Method.Name())
			if m != nil && inRepo(m) {
				x.callFn(st, fr, m, append([]Val{iv.dyn}, args...), nil, pos, k)
				return
			}
			if m != nil {
				if x.model(st, fr, m.String(), m, append([]Val{iv.dyn}, args...), sig, pos, k) {
					return
				}
			}
		}
		name := "(" + typeKey(c.Value.Type()) + ")." + c.Method.Name()
		x.withHooks(st, fr, name, append([]Val{fv}, args...), pos, k, func(st *State, k func(*State, Val)) {
			if con := x.ifaceContract(name); con != nil && fr.con == con && fr.mode == "call" {
				for _, m := range con.Modifies {
					x.havocModifies(st, fr, m)
				}
				x.bumpAllocSmall()
				var rs []Val
				for i := 0; i < sig.Results().Len(); i++ {
					rs = append(rs, x.havocVal(st, sig.Results().At(i).Type(), "r_"+lastName(name)))
				}
				fr.callRes = rs
				k(st, packResults(rs))
				return
			} else if con != nil && !fr.spec && x.pureDepth == 0 {
				x.callContract(st, fr, con, append([]Val{fv}, args...), pos, k)
				return
			}
			if x.model(st, fr, name, nil, append([]Val{fv}, args...), sig, pos, k) {
				return
			}
			x.havocCall(st, name, sig, args, k)
		})
		return
	}
	switch f := fv.(type) {
	case *FuncV:
		if f.bi != nil {
			x.builtin(st, fr, f.bi, c, args, pos, k)
			return
		}
		x.callFn(st, fr, f.fn, args, f.binds, pos, k)
		return
	case *Term:
		x.safety(st, fr, "nil-func-call", pos, Not(Eq(f, Null)))
		if st.dead {
			return
		}
		x.withHooks(st, fr, "dynamic", append([]Val{f}, args...), pos, k, func(st *State, k func(*State, Val)) {
			x.havocCall(st, "dynamic:"+typeKey(c.Value.Type()), sig, args, k)
		})
		return
	}
	unsup("call of %T", fv)
}

func (x *Exec) callFn(st *State, fr *Frame, fn *ssa.Function, args []Val, binds []Val, pos token.Pos, k func(*State, Val)) {
	if fn.Pkg != nil && strings.HasPrefix(fn.Name(), "gv") && inRepo(fn) && isIntrinsic(fn.Name()) {
		x.intrinsic(st, fr, fn.Name(), args, pos, k)
		return
	}
	if fn.Pkg != nil && isRecSpec(fn.Name()) && inRepo(fn) {
		k(st, x.recSpec(st, fn, args))
		return
	}
	if fn.Pkg != nil && isUFSpec(fn.Name()) && inRepo(fn) {
		// an uninterpreted function of the argument values (slices and pointers: of the header or
		// address, not of the memory behind them); hooks state what it means
		var ts []*Term
		for i, p := range fn.Params {
			ts = append(ts, x.flattenVal(p.Type(), args[i])...)
		}
		k(st, UF("uf_"+fn.Name(), comps(fn.Signature.Results().At(0).Type())[0].sort, ts...))
		return
	}
	x.withHooks(st, fr, shortFn(fn), args, pos, k, func(st *State, k func(*State, Val)) {
		x.callFn1(st, fr, fn, args, binds, pos, k)
	})
}

// inlined1: the contract at hand asks for the body of fn rather than its contract
func (x *Exec) inlined1(fn *ssa.Function) bool {
	if len(x.cur.Inline) == 0 {
		return false
	}
	n := shortFn(fn)
	if x.cur.Inline[n] {
		return true
	}
	i := strings.LastIndex(n, ".")
	return i > 0 && x.cur.Inline[n[:i]+".*"]
}

func isUFSpec(n string) bool { return strings.HasPrefix(n, "specUF") || strings.HasPrefix(n, "SpecUF") }

func (x *Exec) callFn1(st *State, fr *Frame, fn *ssa.Function, args []Val, binds []Val, pos token.Pos, k func(*State, Val)) {
	kk := func(s *State, rs []Val) { k(s, packResults(rs)) }
	// the call under contract inside a contract function
	if cf := fr; cf.con != nil && cf.con.Target == fn {
		if cf.mode == "verify" {
			before := map[string]*Term{}
			for k, v := range st.mem {
				before[k] = v
			}
			x.targetReached = append(x.targetReached, st.pcTerms())
			x.inlineCall(st, fr, fn, args, binds, false, func(s *State, rs []Val) {
				x.checkFrame(s, cf, before, pos)
				kk(s, rs)
			})
			return
		}
		if cf.mode == "call" {
			x.callModeHavoc(st, fr, fn, args, k)
			return
		}
	}
	if !fr.spec && x.pureDepth == 0 && x.cur.FrameOnly[shortFn(fn)] {
		x.havocCall(st, fn.String(), fn.Signature, args, k)
		return
	}
	if con, ok := x.contracts[fn]; ok && con.Modular && !fr.spec && x.pureDepth == 0 && !x.inlined1(fn) && (!con.OnReq || x.cur.Apply[shortFn(fn)]) {
		x.callContract(st, fr, con, args, pos, k)
		return
	}
	if x.skipModel(fn) {
		x.havocCall(st, fn.String(), fn.Signature, args, k)
		return
	}
	if x.model(st, fr, fn.String(), fn, args, fn.Signature, pos, k) {
		return
	}
	if fn.Blocks != nil && (inRepo(fn) || fn.Synthetic != "") {
		spec := fr.spec && fr.mode == "" || fr.mode != "" && isSpecFn(fn)
		if x.pureDepth > 0 {
			spec = true
		}
		x.inlineCall(st, fr, fn, args, binds, spec, kk)
		return
	}
	x.havocCall(st, fn.String(), fn.Signature, args, k)
}

func isSpecFn(fn *ssa.Function) bool {
	n := fn.Name()
	for f := fn; f != nil; f = f.Parent() {
		n = f.Name()
	}
	return strings.HasPrefix(n, "spec") || strings.HasPrefix(n, "contract_") || strings.HasPrefix(n, "inv_")
}

// functions whose effects are irrelevant to every claimed property (logging etc.)
func (x *Exec) skipModel(fn *ssa.Function) bool {
	p := fnPkgPath(fn)
	return strings.HasSuffix(p, "common/pkg/logging")
}

// havocCall: unknown callee; assumed to terminate, not to panic and not to modify the memory of
// repository types. Results are unconstrained.
func (x *Exec) havocCall(st *State, name string, sig *types.Signature, args []Val, k func(*State, Val)) {
	if x.quiet == 0 {
		x.unmodeled[name]++
	}
	x.bumpAllocSmall()
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, x.havocVal(st, sig.Results().At(i).Type(), "r_"+lastName(name)))
	}
	k(st, packResults(rs))
}

func (x *Exec) bumpAllocSmall() { x.nextID += 1000 }

func lastName(n string) string {
	if i := strings.LastIndexAny(n, "./"); i >= 0 {
		n = n[i+1:]
	}
	return sanitize(n)
}

// ------------------------------------------------------------ builtins

func (x *Exec) builtin(st *State, fr *Frame, bi *ssa.Builtin, c *ssa.CallCommon, args []Val, pos token.Pos, k func(*State, Val)) {
	switch bi.Name() {
	case "len":
		switch a := args[0].(type) {
		case *SliceV:
			k(st, a.len)
		case *ArrayV:
			k(st, Int(a.t.Len()))
		case *Term:
			switch u := c.Args[0].Type().Underlying().(type) {
			case *types.Map:
				k(st, x.mapLen(st, a, u))
			case *types.Pointer:
				k(st, Int(u.Elem().Underlying().(*types.Array).Len()))
			case *types.Chan:
				k(st, x.freshT("chanlen", SInt))
			default:
				k(st, slen(a))
			}
		default:
			unsup("len of %T", args[0])
		}
	case "cap":
		switch a := args[0].(type) {
		case *SliceV:
			k(st, a.cap)
		default:
			unsup("cap of %T", args[0])
		}
	case "append":
		x.appendOp(st, fr, c, args, k)
	case "copy":
		x.copyOp(st, fr, c, args, k)
	case "delete":
		x.mapDelete(st, args[0].(*Term), c.Args[0].Type(), args[1])
		k(st, TupleV{})
	case "panic":
		x.safety(st, fr, "explicit-panic", pos, False)
	case "print", "println", "close":
		k(st, TupleV{})
	case "recover":
		k(st, &IfaceV{tag: Int(0), ref: Null})
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			y := a.(*Term)
			if bi.Name() == "min" {
				r = Ite(Le(r, y), r, y)
			} else {
				r = Ite(Le(y, r), r, y)
			}
		}
		k(st, r)
	case "ssa:wrapnilchk":
		x.safety(st, fr, "nil-dereference", pos, Not(Eq(args[0].(*Term), Null)))
		k(st, args[0])
	default:
		unsup("builtin %s", bi.Name())
	}
}

func (x *Exec) appendOp(st *State, fr *Frame, c *ssa.CallCommon, args []Val, k func(*State, Val)) {
	s := args[0].(*SliceV)
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	var t *SliceV
	if tv, ok := args[1].(*SliceV); ok {
		t = tv
	} else if str, ok := args[1].(*Term); ok && str.sort == SStr {
		t = x.sliceOfBytes(st, sbytes(str), false)
	} else {
		unsup("append arg %T", args[1])
	}
	if t.len == Int(0) {
		k(st, s)
		return
	}
	n := Add(s.len, t.len)
	inPlace := And(Not(Eq(s.arr, Null)), Le(n, s.cap))
	doit := func(st *State, resArr *Term, inpl bool) {
		var rc *Term
		if inpl {
			rc = s.cap
		} else {
			rc = x.freshT("cap", SInt)
			x.bound(st, rc, zeroBig, maxLen)
			st.assume(Le(n, rc))
		}
		off := s.off
		x.copyInto(st, et, s, resArr, off, t, inpl)
		k(st, &SliceV{resArr, off, n, rc})
	}
	x.split(st, inPlace, func(s1 *State) { doit(s1, s.arr, true) }, func(s1 *State) {
		if t.len.op != "#" && s.arr == Null {
			// append(nil, t...) with len(t)==0 yields nil
			x.split(s1, Eq(t.len, Int(0)), func(s2 *State) { k(s2, s) }, func(s2 *State) { doit(s2, x.newObj(), false) })
			return
		}
		doit(s1, x.newObj(), false)
	})
}

// copyInto builds the content of resArr: old elements of s (if a new array) followed by t.
func (x *Exec) copyInto(st *State, et types.Type, s *SliceV, resArr, off *Term, t *SliceV, inpl bool) {
	if isStruct(et) || isArray(et) {
		x.copyStructs(st, et, s, resArr, off, t, inpl)
		return
	}
	for _, cc := range comps(et) {
		key := "E:" + typeKey(et) + cc.suffix
		m := st.memGet(key, SArr(SRef, SArr(SInt, cc.sort)))
		old := Select(m, s.arr)
		if s.arr == Null {
			old = ConstArr(SArr(SInt, cc.sort), zeroComp(cc.sort))
		}
		src := Select(m, t.arr)
		var nc *Term
		if t.len.op == "#" && t.len.num.IsInt64() && t.len.num.Int64() <= 16 {
			nc = old
			for i := int64(0); i < t.len.num.Int64(); i++ {
				nc = Store(nc, Add(off, s.len, Int(i)), Select(src, Add(t.off, Int(i))))
			}
		} else {
			nc = arrSplice(old, Add(off, s.len), src, t.off, t.len)
		}
		if key == "E:byte" {
			// the new contents are the old ones followed by the appended ones
			if b := mkbytes(nc, off, Add(s.len, t.len)); b.op == "uf" && b.name == "mkbytes" && b.args[0] == nc {
				ob := emptyBytes()
				if s.len != Int(0) {
					ob = mkbytes(old, off, s.len)
				}
				addFact(b, Eq(b, bcat(ob, mkbytes(src, t.off, t.len))))
			}
		}
		st.memSet(key, Store(m, resArr, nc))
	}
}

// arrSplice(a, at, b, boff, n): array equal to a except [at, at+n) which holds b[boff..boff+n).
func arrSplice(a, at, b, boff, n *Term) *Term {
	nm := "splice_" + sanitize(a.sort)
	r := UF(nm, a.sort, a, at, b, boff, n)
	if a.rootKnown && b.rootKnown {
		r.rootKnown, r.rootLo = true, min64(a.rootLo, b.rootLo)
	}
	spliceFacts(r)
	return r
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

var ufRebuild = map[string]func(args []*Term) *Term{}

func spliceFacts(r *Term) {
	if false {
		return
	}
	a, at, b, boff, n := r.args[0], r.args[1], r.args[2], r.args[3], r.args[4]
	j := BoundVar("j", SInt)
	sel := Select(r, j)
	body := Eq(sel, Ite(And(Le(at, j), Lt(j, Add(at, n))), Select(b, Add(boff, Sub(j, at))), Select(a, j)))
	addFact(r, Forall(j, body, sel))
}

func (x *Exec) copyStructs(st *State, et types.Type, s *SliceV, resArr, off *Term, t *SliceV, inpl bool) {
	// constant number of appended elements: explicit copies; old elements by quantified facts
	if !(t.len.op == "#" && t.len.num.IsInt64() && t.len.num.Int64() <= 16) {
		// unknown number of struct elements appended
		x.copyStructLeaves(st, et, resArr, off, s, t, inpl)
		return
	}
	var vals []Val
	for i := int64(0); i < t.len.num.Int64(); i++ {
		vals = append(vals, x.load(st, ElemRef(t.arr, Add(t.off, Int(i))), et))
	}
	if !inpl && s.len != Int(0) {
		x.copyStructLeaves(st, et, resArr, off, s, nil, inpl)
	}
	for i, v := range vals {
		x.store(st, ElemRef(resArr, Add(off, s.len, Int(int64(i)))), et, v)
	}
}

// copyStructLeaves: facts that elements of fresh resArr equal those of s (and then t).
func (x *Exec) copyStructLeaves(st *State, et types.Type, resArr, off *Term, s, t *SliceV, inpl bool) {
	if isArray(et) {
		unsup("slice of arrays append")
	}
	var rec func(ty types.Type, at func(base *Term) *Term)
	rec = func(ty types.Type, at func(base *Term) *Term) {
		leaf := func(k string, c Sort) {
			m := st.memGet(k, SArr(SRef, c))
			q := BoundVar("e", SInt)
			if inpl || t != nil {
				// in-place writes of an unknown range: new map agreeing elsewhere
				nm := x.freshT("M_"+k, m.sort)
				nm.rootKnown, nm.rootLo = m.rootKnown, m.rootLo
				start := Add(off, s.len)
				frames[nm] = &frameInfo{parent: m, lo: 1 << 62}
				rq := BoundVar("r", SRef)
				_ = rq
				selN := Select(nm, at(ElemRef(resArr, q)))
				st.assume(Forall(q, Imp(And(Le(start, q), Lt(q, Add(start, t.len))), Eq(selN, Select(m, at(ElemRef(t.arr, Add(t.off, Sub(q, start))))))), selN))
				if !inpl {
					st.assume(Forall(q, Imp(And(Le(off, q), Lt(q, start)), Eq(selN, Select(m, at(ElemRef(s.arr, Add(s.off, Sub(q, off))))))), selN))
				}
				// elsewhere
				inner := intern("select", "", nil, arrElemSort(nm.sort), nm, rq)
				base := UF("rootobj", SRef, rq)
				st.assume(Forall(rq, Imp(Not(Eq(base, rootObjOf(resArr))), Eq(inner, Select(m, rq))), inner))
				delete(frames, nm)
				st.memSet(k, nm)
				return
			}
			selN := Select(m, at(ElemRef(resArr, q)))
			if selN.op != "select" {
				return
			}
			st.assume(Forall(q, Imp(And(Le(off, q), Lt(q, Add(off, s.len))), Eq(selN, Select(m, at(ElemRef(s.arr, q))))), selN))
		}
		if isBigInt(ty) {
			leaf("F:math/big.Int.val", SInt)
			return
		}
		if isMutex(ty) || isOpaqueStruct(ty) {
			return
		}
		su := ty.Underlying().(*types.Struct)
		for i := 0; i < su.NumFields(); i++ {
			f := su.Field(i)
			fid := fieldID(ty, i)
			if isStruct(f.Type()) {
				rec(f.Type(), func(b *Term) *Term { return SubRef(at(b), fid) })
				continue
			}
			if isArray(f.Type()) {
				au := f.Type().Underlying().(*types.Array)
				leaf("E:"+typeKey(au.Elem()), comps(f.Type())[0].sort)
				continue
			}
			for _, c := range comps(f.Type()) {
				leaf("F:"+typeKey(ty)+"."+f.Name()+c.suffix, c.sort)
			}
		}
	}
	rec(et, func(b *Term) *Term { return b })
}

func rootObjOf(t *Term) *Term { return UF("rootobj", SRef, t) }

func init() {
	ufAxioms["rootobj"] = []string{
		"(forall ((i Int)) (! (= (rootobj (obj i)) (obj i)) :pattern ((obj i))))",
		"(forall ((r Ref) (i Int)) (! (= (rootobj (sub r i)) (rootobj r)) :pattern ((sub r i))))",
		"(forall ((r Ref) (i Int)) (! (= (rootobj (elem r i)) (rootobj r)) :pattern ((elem r i))))",
		"(= (rootobj null) null)",
	}
	ufAxioms["rootid"] = []string{
		"(forall ((i Int)) (! (= (rootid (obj i)) i) :pattern ((obj i))))",
		"(forall ((r Ref) (i Int)) (! (= (rootid (sub r i)) (rootid r)) :pattern ((sub r i))))",
		"(forall ((r Ref) (i Int)) (! (= (rootid (elem r i)) (rootid r)) :pattern ((elem r i))))",
		"(= (rootid null) 4611686018427387904)",
	}
	// make sure declarations exist
	UF("rootid", SInt, Null)
	UF("rootobj", SRef, Null)
}

func (x *Exec) copyOp(st *State, fr *Frame, c *ssa.CallCommon, args []Val, k func(*State, Val)) {
	d := args[0].(*SliceV)
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	var s *SliceV
	if sv, ok := args[1].(*SliceV); ok {
		s = sv
	} else {
		s = x.sliceOfBytes(st, sbytes(args[1].(*Term)), false)
	}
	n := Ite(Le(d.len, s.len), d.len, s.len)
	if d.len == s.len {
		n = d.len
	}
	if isStruct(et) || isArray(et) {
		unsup("copy of struct slices")
	}
	for _, cc := range comps(et) {
		key := "E:" + typeKey(et) + cc.suffix
		m := st.memGet(key, SArr(SRef, SArr(SInt, cc.sort)))
		st.memSet(key, Store(m, d.arr, arrSplice(Select(m, d.arr), d.off, Select(m, s.arr), s.off, n)))
	}
	k(st, n)
}

// ------------------------------------------------------------ bytes and strings

func (x *Exec) bytesOf(st *State, s *SliceV) *Term {
	m := st.memGet("E:byte", SArr(SRef, SArr(SInt, SInt)))
	if s.len == Int(0) {
		return mkbytes(ConstArr(SArr(SInt, SInt), Int(0)), Int(0), Int(0))
	}
	return mkbytes(Select(m, s.arr), s.off, s.len)
}

func mkbytes(arr, off, n *Term) *Term {
	if n.op == "#" && n.num.Sign() == 0 {
		arr, off = ConstArr(SArr(SInt, SInt), Int(0)), Int(0)
	}
	if arr.op == "uf" && arr.name == "barr" && off == Int(0) && n == blen(arr.args[0]) {
		return arr.args[0]
	}
	for {
		if arr.op == "uf" && strings.HasPrefix(arr.name, "splice_") {
			at, m := arr.args[1], arr.args[4]
			if Le(at, off) == True && Le(Add(off, n), Add(at, m)) == True {
				return mkbytes(arr.args[2], Add(arr.args[3], Sub(off, at)), n)
			}
			if Le(Add(off, n), at) == True || Le(Add(at, m), off) == True {
				arr = arr.args[0]
				continue
			}
		}
		if arr.op == "store" && (Lt(arr.args[1], off) == True || Le(Add(off, n), arr.args[1]) == True) {
			arr = arr.args[0]
			continue
		}
		if arr.op == "uf" && arr.name == "barr" && off == Int(0) && n == blen(arr.args[0]) {
			return arr.args[0]
		}
		break
	}
	if n.op == "#" && n.num.IsInt64() && n.num.Int64() > 0 && n.num.Int64() <= 64 && arr.op == "store" {
		// copied byte by byte from one abstract string
		e := Select(arr, off)
		if e.op == "select" && e.args[0].op == "uf" && e.args[0].name == "barr" {
			same := true
			for i := int64(1); i < n.num.Int64() && same; i++ {
				same = Select(arr, Add(off, Int(i))) == Select(e.args[0], Add(e.args[1], Int(i)))
			}
			if same {
				return mkbytes(e.args[0], e.args[1], n)
			}
		}
	}
	b := UF("mkbytes", SBytes, arr, off, n)
	if true {
		bl := UF("blen", SInt, b)
		addFact(b, Imp(Le(Int(0), n), Eq(bl, n)))
		j := BoundVar("j", SInt)
		sel := bat(b, j)
		addFact(b, Forall(j, Imp(And(Le(Int(0), j), Lt(j, n)), Eq(sel, Select(arr, Add(off, j)))), sel))
	}
	return b
}

func blen(b *Term) *Term {
	if b.op == "uf" && b.name == "mkbytes" && b.args[2].lo != nil && b.args[2].lo.Sign() >= 0 {
		return b.args[2]
	}
	if b.op == "uf" && b.name == "jtext" && b.args[0] == jnull() {
		return Int(4)
	}
	if b.op == "uf" && (b.name == "hash" || b.name == "mroot") {
		return Int(32)
	}
	return UF("blen", SInt, b)
}

func bat(b, i *Term) *Term {
	arr := UF("barr", SArr(SInt, SInt), b)
	if b.op == "uf" && b.name == "mkbytes" && i.op == "#" && b.args[2].op == "#" && i.num.Sign() >= 0 && i.num.Cmp(b.args[2].num) < 0 {
		return Select(b.args[0], Add(b.args[1], i))
	}
	r := Select(arr, i)
	if r.op == "select" {
		r.lo, r.hi = zeroBig, b255
	}
	return r
}

// sliceOfBytes makes a slice with the content of an abstract byte string.
func (x *Exec) sliceOfBytes(st *State, b *Term, mayBeNil bool) *SliceV {
	arr := x.newObj()
	m := st.memGet("E:byte", SArr(SRef, SArr(SInt, SInt)))
	var content *Term
	n := blen(b)
	off := Int(0)
	if b.op == "uf" && b.name == "mkbytes" {
		content = b.args[0]
		off = b.args[1]
	} else {
		content = UF("barr", SArr(SInt, SInt), b)
	}
	st.memSet("E:byte", Store(m, arr, content))
	c := x.freshT("cap", SInt)
	x.bound(st, c, zeroBig, maxLen)
	st.assume(Le(n, c))
	return &SliceV{arr, off, n, c}
}

func slen(s *Term) *Term {
	if s.op == "lit" {
		return Int(int64(len(litVals[s])))
	}
	return UF("slen", SInt, s)
}

func sbytes(s *Term) *Term {
	if s.op == "uf" && s.name == "strb" {
		return s.args[0]
	}
	if s.op == "uf" && s.name == "scat" {
		return bcatS(sbytes(s.args[0]), sbytes(s.args[1]))
	}
	b := UF("sbytes", SBytes, s)
	addFact(b, Eq(UF("strb", SStr, b), s))
	addFact(b, Eq(UF("blen", SInt, b), slen(s)))
	if s.op == "lit" && len(litVals[s]) <= 16 {
		for i := 0; i < len(litVals[s]); i++ {
			addFact(b, Eq(Select(UF("barr", SArr(SInt, SInt), b), Int(int64(i))), Int(int64(litVals[s][i]))))
		}
	}
	return b
}

func strb(b *Term) *Term {
	if b.op == "uf" && b.name == "sbytes" {
		return b.args[0]
	}
	if b.op == "uf" && b.name == "mkbytes" && b.args[2] == Int(0) {
		return StrLit("")
	}
	s := UF("strb", SStr, b)
	if true {
		addFact(s, Eq(UF("sbytes", SBytes, s), b))
		addFact(s, Eq(slen(s), blen(b)))
		e := StrLit("")
		addFact(s, Imp(Eq(s, e), Eq(blen(b), Int(0))))
	}
	return s
}

func scat(a, b *Term) *Term {
	if a.op == "lit" && b.op == "lit" {
		return StrLit(litVals[a] + litVals[b])
	}
	if a.op == "lit" && litVals[a] == "" {
		return b
	}
	if b.op == "lit" && litVals[b] == "" {
		return a
	}
	r := UF("scat", SStr, a, b)
	addFact(r, Eq(slen(r), Add(slen(a), slen(b))))
	return r
}

func slt(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.op == "lit" && b.op == "lit" {
		return BoolT(litVals[a] < litVals[b])
	}
	return UF("slt", SBool, a, b)
}

func init() {
	ufAxioms["slt"] = []string{
		"(forall ((a Str)) (! (not (slt a a)) :pattern ((slt a a))))",
		"(forall ((a Str) (b Str) (c Str)) (! (=> (and (slt a b) (slt b c)) (slt a c)) :pattern ((slt a b) (slt b c))))",
		"(forall ((a Str) (b Str)) (! (or (slt a b) (slt b a) (= a b)) :pattern ((slt a b))))",
	}
	ufAxioms["slen"] = []string{
		"(forall ((s Str)) (! (>= (slen s) 0) :pattern ((slen s))))",
	}
	ufAxioms["blen"] = []string{
		"(forall ((s Bytes)) (! (>= (blen s) 0) :pattern ((blen s))))",
	}
	ufAxioms["strb"] = []string{
		"(forall ((b Bytes)) (! (= (sbytes (strb b)) b) :pattern ((strb b))))",
	}
	ufAxiomDeps["strb"] = []string{"sbytes"}
	UF("slen", SInt, Var("dummy_s", SStr))
	UF("blen", SInt, Var("dummy_b", SBytes))
	UF("sbytes", SBytes, Var("dummy_s", SStr))
	UF("strb", SStr, Var("dummy_b", SBytes))
	UF("slt", SBool, Var("dummy_s", SStr), Var("dummy_s", SStr))
}

// ------------------------------------------------------------ pure evaluation of specification code

// recSpec: a recursive specification function over scalars and slices of scalars (taken by content) is
// an uninterpreted function, unfolded once per application.
func (x *Exec) recSpec(st *State, fn *ssa.Function, args []Val) Val {
	var ts []*Term
	for i, p := range fn.Params {
		if sl, ok := p.Type().Underlying().(*types.Slice); ok {
			s := args[i].(*SliceV)
			cs := comps(sl.Elem())
			if len(cs) != 1 {
				unsup("recursive specification %s over %s", fn, p.Type())
			}
			m := st.memGet("E:"+typeKey(sl.Elem()), SArr(SRef, SArr(SInt, cs[0].sort)))
			ts = append(ts, Select(m, s.arr), s.off, s.len)
			continue
		}
		t, ok := args[i].(*Term)
		if !ok {
			unsup("recursive specification %s over %s", fn, p.Type())
		}
		ts = append(ts, t)
	}
	rt := fn.Signature.Results().At(0).Type()
	r := UF("rec_"+sanitize(fn.Name()), comps(rt)[0].sort, ts...)
	if lo, hi := intRange(rt); lo != nil && r.sort == SInt {
		_ = hi
	}
	if x.recDepth == 0 {
		x.recDepth++
		body := x.evalPure(st, fn, args, nil)
		x.recDepth--
		st.assume(Eq(r, body))
		// concatenated strings have concatenated bytes
		seen := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == "uf" && t.name == "scat" {
				st.assume(Eq(t, UF("strb", SStr, sbytes(t))))
			}
			for _, a := range t.args {
				rec(a)
			}
		}
		rec(body)
	}
	return r
}

func (x *Exec) evalPure(st *State, fn *ssa.Function, args []Val, binds []Val) *Term {
	type out struct {
		cond []*Term
		res  *Term
	}
	var outs []out
	var facts []*Term
	base := len(st.pc)
	s0 := st.clone()
	x.quiet++
	x.pureDepth++
	savedScans := x.scans
	x.scans = nil
	defer func() { x.quiet--; x.pureDepth--; x.scans = savedScans }()
	x.inlineCall(s0, nil, fn, args, binds, true, func(s *State, rs []Val) {
		var cs []*Term
		for _, e := range s.pc[base:] {
			if e.branch {
				cs = append(cs, e.t)
			}
		}
		pre := And(cs...)
		for _, e := range s.pc[base:] {
			if !e.branch {
				facts = append(facts, Imp(pre, e.t))
			}
		}
		r, ok := rs[0].(*Term)
		if !ok {
			unsup("specification function %s returns %T", fn, rs[0])
		}
		outs = append(outs, out{cs, r})
	})
	for _, f := range facts {
		if f.hasBound {
			for _, bv := range x.boundVars {
				if f.bvs[bv] {
					f = Forall(bv, f)
				}
			}
		}
		if !f.hasBound {
			st.assume(f)
		}
	}
	if len(outs) == 0 {
		return False
	}
	r := False
	if outs[0].res.sort == SBool {
		for _, o := range outs {
			r = Or(r, And(And(o.cond...), o.res))
		}
		return r
	}
	r = outs[len(outs)-1].res
	for i := len(outs) - 2; i >= 0; i-- {
		r = Ite(And(outs[i].cond...), outs[i].res, r)
	}
	return r
}

var _ = fmt.Sprint

// isRecSpec: specRec followed by a capital (specRecord is an ordinary specification function)
func isRecSpec(n string) bool {
	return strings.HasPrefix(n, "specRec") && len(n) > 7 && n[7] >= 'A' && n[7] <= 'Z'
}
