package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type pcEntry struct {
	t      *Term
	branch bool
}

type lockEnt struct{}

type State struct {
	pc     []pcEntry
	mem    map[string]*Term
	env    map[int]map[ssa.Value]Val
	defers map[int][]deferred
	peel   map[string]int
	cut    map[string]bool // frame:header currently cut
	dead   bool
	trace  []string
	ghost  map[string]Val
	boxes  map[*Term]boxed
}

type boxed struct {
	v Val
	t types.Type
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
}

func newState() *State {
	return &State{mem: map[string]*Term{}, env: map[int]map[ssa.Value]Val{}, defers: map[int][]deferred{}, peel: map[string]int{}, cut: map[string]bool{}, ghost: map[string]Val{}, boxes: map[*Term]boxed{}}
}

func (s *State) clone() *State {
	n := &State{pc: s.pc[:len(s.pc):len(s.pc)], trace: s.trace[:len(s.trace):len(s.trace)]}
	n.mem = make(map[string]*Term, len(s.mem))
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.env = make(map[int]map[ssa.Value]Val, len(s.env))
	for k, v := range s.env {
		m := make(map[ssa.Value]Val, len(v))
		for a, b := range v {
			m[a] = b
		}
		n.env[k] = m
	}
	n.defers = make(map[int][]deferred, len(s.defers))
	for k, v := range s.defers {
		n.defers[k] = v[:len(v):len(v)]
	}
	n.peel = make(map[string]int, len(s.peel))
	for k, v := range s.peel {
		n.peel[k] = v
	}
	n.cut = make(map[string]bool, len(s.cut))
	for k, v := range s.cut {
		n.cut[k] = v
	}
	n.ghost = make(map[string]Val, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.boxes = make(map[*Term]boxed, len(s.boxes))
	for k, v := range s.boxes {
		n.boxes[k] = v
	}
	return n
}

func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	if t == False {
		s.dead = true
	}
	s.pc = append(s.pc, pcEntry{t, false})
}
func (s *State) branch(t *Term) {
	if t == True {
		return
	}
	if t == False {
		s.dead = true
	}
	s.pc = append(s.pc, pcEntry{t, true})
}

func (s *State) pcTerms() []*Term {
	var r []*Term
	for _, e := range s.pc {
		r = append(r, e.t)
	}
	return r
}

// known: syntactic lookup of a term in the path condition
func (s *State) known(t *Term) bool {
	if t == True {
		return true
	}
	for i := len(s.pc) - 1; i >= 0; i-- {
		if s.pc[i].t == t {
			return true
		}
	}
	return false
}

// ---- memory

func memSortFor(kind string, c Sort) Sort {
	switch kind {
	case "F", "C":
		return SArr(SRef, c)
	case "E":
		return SArr(SRef, SArr(SInt, c))
	}
	panic(kind)
}

var memSorts = map[string]Sort{}

func (s *State) memGet(key string, sort Sort) *Term {
	if t, ok := s.mem[key]; ok {
		return t
	}
	v := Var("M0_"+sanitize(key), sort)
	if !v.rootKnown {
		v.rootKnown, v.rootLo = true, 0
	}
	memSorts[key] = sort
	s.mem[key] = v
	return v
}

func (s *State) memSet(key string, t *Term) { s.mem[key] = t }

// range facts for loaded leaf terms
func (x *Exec) typed(st *State, t types.Type, ts []*Term) {
	switch t.Underlying().(type) {
	case *types.Basic:
		if isIntT(t) {
			lo, hi := intRange(t)
			if lo != nil {
				x.bound(st, ts[0], lo, hi)
			}
		}
	case *types.Slice:
		x.sliceFacts(st, ts)
	case *types.Interface:
		x.bound(st, ts[0], big.NewInt(0), nil)
	}
}

func isAtom(t *Term) bool { return t.op == "$" || t.op == "select" || t.op == "uf" }

func (x *Exec) bound(st *State, t *Term, lo, hi *big.Int) {
	if t.op == "#" {
		return
	}
	if t.op == "ite" {
		if t.lo == nil && t.hi == nil && lo != nil && hi != nil {
			t.lo, t.hi = lo, hi
			addFact(t, And(leRaw(BigInt(lo), t), leRaw(t, BigInt(hi))))
		}
		return
	}
	if isAtom(t) {
		// Values of a typed location always lie in the range of the type: attach as attribute.
		if t.lo == nil || lo != nil && t.lo.Cmp(lo) < 0 {
			if lo != nil {
				t.lo = lo
			}
		}
		if t.hi == nil || hi != nil && t.hi.Cmp(hi) > 0 {
			if hi != nil {
				t.hi = hi
			}
		}
		return
	}
}

func (x *Exec) sliceFacts(st *State, ts []*Term) {
	z := big.NewInt(0)
	x.bound(st, ts[1], z, maxLen)
	x.bound(st, ts[2], z, maxLen)
	x.bound(st, ts[3], z, maxLen)
	if isAtom(ts[2]) || isAtom(ts[3]) {
		f := Le(ts[2], ts[3])
		g := Imp(Eq(ts[0], Null), And(Eq(ts[2], Int(0)), Eq(ts[3], Int(0)), Eq(ts[1], Int(0))))
		if ts[2].hasBound || ts[3].hasBound {
			return
		}
		if isAtom(ts[2]) {
			addFact(ts[2], f)
			addFact(ts[2], g)
		} else {
			addFact(ts[3], f)
			addFact(ts[3], g)
		}
	}
}

func (x *Exec) fieldAddr(st *State, ref *Term, t types.Type, i int) (Val, types.Type) {
	su := t.Underlying().(*types.Struct)
	ft := su.Field(i).Type()
	if isStruct(ft) || isArray(ft) {
		return SubRef(ref, fieldID(t, i)), ft
	}
	return &AddrV{kind: "field", ref: ref, key: "F:" + typeKey(t) + "." + su.Field(i).Name(), typ: ft}, ft
}

func (x *Exec) load(st *State, a Val, t types.Type) Val {
	if isBigInt(t) {
		r := a.(*Term)
		m := st.memGet("F:math/big.Int.val", SArr(SRef, SInt))
		return &StructV{t, []Val{Select(m, r)}}
	}
	if isMutex(t) || isOpaqueStruct(t) {
		return &StructV{t, nil}
	}
	if su, ok := t.Underlying().(*types.Struct); ok {
		r, ok := a.(*Term)
		if !ok {
			unsup("struct load through %T", a)
		}
		s := &StructV{t: t}
		for i := 0; i < su.NumFields(); i++ {
			fa, ft := x.fieldAddr(st, r, t, i)
			s.f = append(s.f, x.load(st, fa, ft))
		}
		return s
	}
	if au, ok := t.Underlying().(*types.Array); ok {
		r := a.(*Term)
		cs := comps(t)
		m := st.memGet("E:"+typeKey(au.Elem()), SArr(SRef, cs[0].sort))
		return &ArrayV{au, Select(m, r)}
	}
	var ts []*Term
	switch ad := a.(type) {
	case *AddrV:
		for _, c := range comps(t) {
			switch ad.kind {
			case "field", "cell":
				m := st.memGet(ad.key+c.suffix, SArr(SRef, c.sort))
				ts = append(ts, Select(m, ad.ref))
			case "elem":
				m := st.memGet(ad.key+c.suffix, SArr(SRef, SArr(SInt, c.sort)))
				ts = append(ts, Select(Select(m, ad.ref), ad.idx))
			}
		}
	case *Term:
		for _, c := range comps(t) {
			m := st.memGet("C:"+typeKey(t)+c.suffix, SArr(SRef, c.sort))
			ts = append(ts, Select(m, ad))
		}
	default:
		unsup("load through %T", a)
	}
	for _, r := range ts {
		// what is stored anywhere now was allocated before now
		if r.sort == SRef && r.op == "select" && !r.rootKnown {
			r.rootKnown, r.rootLo = true, -x.nextID
		}
	}
	x.typed(st, t, ts)
	return x.revive(st, t, fromComps(t, ts))
}

// revive: recover Go-side information for constants (functions, boxed interfaces)
func (x *Exec) revive(st *State, t types.Type, v Val) Val {
	switch y := v.(type) {
	case *Term:
		if y.sort == SRef {
			if f, ok := funcRegs[y]; ok {
				return f
			}
		}
	case *IfaceV:
		if b, ok := st.boxes[y.ref]; ok && y.tag.op == "#" && y.tag.num.Int64() == typeTag(b.t) {
			y.dyn, y.dynT = b.v, b.t
		} else if y.tag.op == "#" && y.tag.num.Sign() > 0 {
			if tt := tagTypes[y.tag.num.Int64()]; tt != nil {
				if _, ok := tt.Underlying().(*types.Pointer); ok {
					y.dyn, y.dynT = y.ref, tt
				}
			}
		}
	}
	return v
}

func (x *Exec) store(st *State, a Val, t types.Type, v Val) {
	if isBigInt(t) {
		r := a.(*Term)
		m := st.memGet("F:math/big.Int.val", SArr(SRef, SInt))
		st.memSet("F:math/big.Int.val", Store(m, r, v.(*StructV).f[0].(*Term)))
		return
	}
	if isMutex(t) {
		// a copied or zeroed mutex is unlocked
		r := a.(*Term)
		m := st.memGet("LOCK", SArr(SRef, SInt))
		st.memSet("LOCK", Store(m, r, Int(0)))
		return
	}
	if isOpaqueStruct(t) {
		return
	}
	if su, ok := t.Underlying().(*types.Struct); ok {
		r, ok := a.(*Term)
		if !ok {
			unsup("struct store through %T", a)
		}
		sv := v.(*StructV)
		for i := 0; i < su.NumFields(); i++ {
			fa, ft := x.fieldAddr(st, r, t, i)
			x.store(st, fa, ft, sv.f[i])
		}
		return
	}
	if au, ok := t.Underlying().(*types.Array); ok {
		r := a.(*Term)
		cs := comps(t)
		k := "E:" + typeKey(au.Elem())
		m := st.memGet(k, SArr(SRef, cs[0].sort))
		st.memSet(k, Store(m, r, v.(*ArrayV).elems))
		return
	}
	vs := toComps(t, v)
	switch ad := a.(type) {
	case *AddrV:
		for i, c := range comps(t) {
			k := ad.key + c.suffix
			switch ad.kind {
			case "field", "cell":
				m := st.memGet(k, SArr(SRef, c.sort))
				st.memSet(k, Store(m, ad.ref, vs[i]))
			case "elem":
				m := st.memGet(k, SArr(SRef, SArr(SInt, c.sort)))
				st.memSet(k, Store(m, ad.ref, Store(Select(m, ad.ref), ad.idx, vs[i])))
			}
		}
	case *Term:
		for i, c := range comps(t) {
			k := "C:" + typeKey(t) + c.suffix
			m := st.memGet(k, SArr(SRef, c.sort))
			st.memSet(k, Store(m, ad, vs[i]))
		}
	default:
		unsup("store through %T", a)
	}
}

// newObj allocates a fresh object reference.
func (x *Exec) newObj() *Term {
	x.nextID++
	return Obj(-x.nextID)
}

func (x *Exec) bumpAlloc() {
	const gap = int64(1) << 40
	x.nextID = (x.nextID/gap + 1) * gap
}

func (x *Exec) allocStruct(st *State, t types.Type) *Term {
	r := x.newObj()
	x.zeroInit(st, r, t)
	return r
}

func (x *Exec) zeroInit(st *State, r *Term, t types.Type) {
	if au, ok := t.Underlying().(*types.Array); ok && (isStruct(au.Elem()) || isArray(au.Elem()) || len(comps(au.Elem())) != 1) {
		x.zeroElems(st, r, au.Elem())
		return
	}
	x.store(st, r, t, zeroVal(t))
}

// elemAddr gives the address of element idx (absolute) in backing array arr.
func elemAddr(arr, idx *Term, et types.Type) Val {
	if isStruct(et) || isArray(et) {
		return ElemRef(arr, idx)
	}
	return &AddrV{kind: "elem", ref: arr, idx: idx, key: "E:" + typeKey(et), typ: et}
}

// havocVal creates an unconstrained value of type t. rootLo bounds references inside.
func (x *Exec) havocVal(st *State, t types.Type, name string) Val {
	return x.havocValLo(st, t, name, -x.nextID)
}

func (x *Exec) freshT(name string, s Sort) *Term {
	if len(x.boundVars) > 0 {
		freshSeq["sk"]++
		return UF(fmt.Sprintf("sk_%s_%d", name, freshSeq["sk"]), s, append([]*Term{}, x.boundVars...)...)
	}
	return Fresh(name, s)
}

func (x *Exec) havocValLo(st *State, t types.Type, name string, lo int64) Val {
	if isBigInt(t) {
		return &StructV{t, []Val{x.freshT(name, SInt)}}
	}
	if isMutex(t) || isOpaqueStruct(t) {
		return &StructV{t, nil}
	}
	switch u := t.(type) {
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, x.havocValLo(st, u.At(i).Type(), fmt.Sprintf("%s_r%d", name, i), lo))
		}
		return tv
	}
	if su, ok := t.Underlying().(*types.Struct); ok {
		s := &StructV{t: t}
		for i := 0; i < su.NumFields(); i++ {
			s.f = append(s.f, x.havocValLo(st, su.Field(i).Type(), name+"."+su.Field(i).Name(), lo))
		}
		return s
	}
	var ts []*Term
	for _, c := range comps(t) {
		v := x.freshT(name+c.suffix, c.sort)
		if c.sort == SRef {
			v.rootKnown, v.rootLo = true, lo
		}
		ts = append(ts, v)
	}
	x.typed(st, t, ts)
	return fromComps(t, ts)
}

// havocMem replaces a memory map with an unconstrained one.
func (x *Exec) havocMem(st *State, key string) {
	m := st.mem[key]
	if m == nil {
		return
	}
	v := x.freshT("M_"+key, m.sort)
	v.rootKnown, v.rootLo = true, -x.nextID
	st.mem[key] = v
}

func constEq(a, b Val) bool { return a == b }
