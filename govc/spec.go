package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var zeroBig = big.NewInt(0)
var b255 = big.NewInt(255)

type guard struct {
	key     string
	lockFid int
	label   string
}

type callHook struct {
	callee string
	fn     *ssa.Function
	after  bool
	suffix bool
}

// Contract is a specification function found in a contract overlay file.
type Contract struct {
	Name     string
	Pkg      string
	Fn       *ssa.Function
	Target   *ssa.Function
	targetID string
	Props    []string
	Modular  bool
	Assumed  string
	Iface    string
	NoPanic  string
	Locks    string
	Guards   []guard
	guardStr [][3]string
	BigCopy  string
	Pure     bool
	Modifies []string
	ModSet   bool
	FreshRes map[int]bool
	Hooks    []callHook
	hookStr  [][3]string
	intfStr  [][3]string
	Intf     []interf
	FrameLbl string
	Inline   map[string]bool
	// FrameOnly: callees that enter only by what they leave alone (their frame is proved by their own contract)
	FrameOnly map[string]bool
	OnReq     bool // applied to calls only where the contract at hand says //gv:apply
	Apply     map[string]bool

	done     map[int]bool
	Budget   int
	MaxSteps int
	NoFals   bool
	Skip     map[string]bool
	Deep     bool
	Thorough bool
	Invs     []*InvTemplate
	useStr   []string
	File     string
	Line     int
	Gen      bool
	Bounded  string
}

func parseDirectives(c *Contract, doc *ast.CommentGroup) {
	if doc == nil {
		return
	}
	for _, l := range doc.List {
		t := strings.TrimPrefix(l.Text, "//")
		if !strings.HasPrefix(t, "gv:") {
			continue
		}
		f := strings.Fields(t[3:])
		switch f[0] {
		case "target":
			c.targetID = strings.Join(f[1:], " ")
		case "props":
			c.Props = append(c.Props, strings.Split(f[1], ",")...)
		case "modular":
			c.Modular = true
		case "assumed":
			c.Modular = true
			c.Assumed = strings.Join(f[1:], " ")
		case "iface":
			c.Iface = strings.Join(f[1:], " ")
		case "nopanic":
			c.NoPanic = f[1]
		case "locks":
			c.Locks = f[1]
		case "guard": // guard Type.field mutexField label
			c.guardStr = append(c.guardStr, [3]string{f[1], f[2], f[3]})
		case "bigcopy":
			c.BigCopy = f[1]
		case "modifies":
			c.Modifies = append(c.Modifies, f[1:]...)
			c.ModSet = true
		case "frame":
			c.FrameLbl = f[1]
			c.ModSet = true
		case "fresh":
			for _, s := range f[1:] {
				var n int
				fmt.Sscan(s, &n)
				c.FreshRes[n] = true
			}
		case "interfere": // interfere p.mutexField p.mapField,... hook: other threads may act between two holds
			c.intfStr = append(c.intfStr, [3]string{f[1], f[2], f[3]})
		case "onrelease": // onrelease p.mutexField hook: run when that mutex is about to be released
			c.intfStr = append(c.intfStr, [3]string{f[1], "", f[2]})
		case "oncall":
			c.hookStr = append(c.hookStr, [3]string{f[1], f[2], "b"})
		case "aftercall":
			c.hookStr = append(c.hookStr, [3]string{f[1], f[2], "a"})
		case "onrequest":
			c.OnReq = true
		case "apply":
			if c.Apply == nil {
				c.Apply = map[string]bool{}
			}
			for _, s := range f[1:] {
				c.Apply[s] = true
			}
		case "inline":
			for _, s := range f[1:] {
				c.Inline[s] = true
			}
		case "skip":
			for _, s := range f[1:] {
				c.Skip[s] = true
			}
		case "frameonly":
			for _, s := range f[1:] {
				c.FrameOnly[s] = true
			}
		case "steps":
			fmt.Sscan(f[1], &c.MaxSteps)
		case "nofalsify":
			c.NoFals = true
		case "use":
			c.useStr = append(c.useStr, strings.Split(f[1], ",")...)
		case "bounded":
			c.Bounded = strings.Join(f[1:], " ")
		case "deep":
			c.Deep = true
		case "thorough":
			c.Thorough = true
		default:
			fmt.Fprintf(os.Stderr, "unknown directive gv:%s in %s\n", f[0], c.Name)
			os.Exit(2)
		}
	}
}

func isIntrinsic(n string) bool {
	switch n {
	case "gvRequires", "gvEnsures", "gvAssume", "gvForall", "gvExists", "gvForallStr", "gvFresh", "gvSameJSON", "gvLockState", "gvSame", "gvCovers", "gvHasKey", "gvSigned", "gvBytesEq", "gvSigValid", "gvRootOf", "gvForallInt", "gvUntouched", "gvHash", "gvForallBytes", "gvAssert", "gvSnap", "gvSnapF", "gvSnapInt", "gvSeen", "gvForallDigest", "gvApart":
		return true
	}
	return false
}

// evalClosure evaluates a func() bool value to a single term.
func (x *Exec) evalClosure(st *State, v Val) *Term {
	f, ok := v.(*FuncV)
	if !ok {
		unsup("specification closure is %T", v)
	}
	return x.evalPure(st, f.fn, nil, f.binds)
}

func (x *Exec) conFrame(fr *Frame) *Frame {
	for f := fr; f != nil; f = f.up {
		if f.mode != "" {
			return f
		}
	}
	return nil
}

func strOf(v Val) string {
	t, ok := v.(*Term)
	if !ok || t.op != "lit" {
		unsup("label must be a constant string")
	}
	return litVals[t]
}

func (x *Exec) intrinsic(st *State, fr *Frame, name string, args []Val, pos token.Pos, k func(*State, Val)) {
	cf := x.conFrame(fr)
	if cf == nil {
		cf = x.specFr
	}
	if x.specFr != cf {
		old := x.specFr
		x.specFr = cf
		k0 := k
		k = func(s *State, v Val) { x.specFr = old; k0(s, v); x.specFr = cf }
		defer func() { x.specFr = old }()
	}
	switch name {
	case "gvRequires":
		g := x.evalClosure(st, args[0])
		if cf != nil && cf.mode == "call" {
			x.oblige(st, cf.up, cf.con.Name+".pre", "precondition of "+cf.con.Name+" at call in "+shortFn(cf.up.fn), cf.callPos, g)
			st.assume(g)
		} else {
			st.assume(g)
		}
		k(st, TupleV{})
	case "gvAssume":
		g := x.evalClosure(st, args[1])
		if x.quiet == 0 && cf != nil && cf.mode == "verify" {
			x.assumptions["assumed in "+cf.con.Name+": "+strOf(args[0])]++
		}
		st.assume(g)
		k(st, TupleV{})
	case "gvEnsures", "gvAssert":
		lbl := strOf(args[0])
		if cf != nil && cf.mode == "call" {
			g := x.evalClosure(st, args[1])
			st.assume(g)
		} else {
			x.curLabel = lbl
			g := x.evalClosure(st, args[1])
			x.oblige(st, fr, lbl, "post", pos, g)
		}
		k(st, TupleV{})
	case "gvForall", "gvExists":
		lo, hi := args[0].(*Term), args[1].(*Term)
		f := args[2].(*FuncV)
		if lo.op == "#" && hi.op == "#" && hi.num.Int64()-lo.num.Int64() <= 8 {
			var ps []*Term
			for i := lo.num.Int64(); i < hi.num.Int64(); i++ {
				ps = append(ps, x.evalPure(st, f.fn, []Val{Int(i)}, f.binds))
			}
			if name == "gvForall" {
				k(st, And(ps...))
			} else {
				k(st, Or(ps...))
			}
			return
		}
		v := BoundVar("i", SInt)
		v.lo, v.hi = new(big.Int).Neg(maxLen), maxLen
		rng := And(Le(lo, v), Lt(v, hi))
		body := x.evalBound(st, f, v, rng)
		if name == "gvForall" {
			k(st, Forall(v, Imp(rng, body), trig(v, body)...))
		} else {
			k(st, Not(Forall(v, Imp(rng, Not(body)), trig(v, body)...)))
		}
	case "gvForallInt":
		f := args[0].(*FuncV)
		v := BoundVar("i", SInt)
		lo, hi := intRange(types.Typ[types.Int])
		v.lo, v.hi = lo, hi
		body := x.evalBound(st, f, v, True)
		k(st, Forall(v, body, trig(v, body)...))
	case "gvForallStr":
		f := args[0].(*FuncV)
		v := BoundVar("s", SStr)
		body := x.evalBound(st, f, v, True)
		k(st, Forall(v, body, trig(v, body)...))
	case "gvForallDigest":
		f := args[0].(*FuncV)
		v := BoundVar("d", SArr(SInt, SInt))
		body := x.evalBoundVal(st, f, v, &ArrayV{f.fn.Signature.Params().At(0).Type().Underlying().(*types.Array), v}, True)
		k(st, Forall(v, body, trig(v, body)...))
	case "gvApart":
		// two slices do not share their array
		a, b := args[0].(*IfaceV), args[1].(*IfaceV)
		k(st, Not(Eq(a.dyn.(*SliceV).arr, b.dyn.(*SliceV).arr)))
	case "gvSeen":
		m, key := args[0].(*IfaceV), args[1].(*IfaceV)
		mt := m.dynT.Underlying().(*types.Map)
		_, sm := x.seenMem(st, mt)
		k(st, Select(Select(sm, m.dyn.(*Term)), mapKeyTerm(mt, key.dyn)))
	case "gvFresh":
		iv := args[0].(*IfaceV)
		var r *Term
		switch d := iv.dyn.(type) {
		case *SliceV:
			r = d.arr
		case *Term:
			r = d
		case *AddrV:
			r = d.ref
		case *FuncV:
			r = funcRef(d)
		default:
			unsup("gvFresh of %T", iv.dyn)
		}
		if e, ok := exactRoot(r); ok {
			k(st, BoolT(e < cf.entryLo))
			return
		}
		k(st, Lt(UF("rootid", SInt, r), Int(cf.entryLo)))
	case "gvLockState":
		iv := args[0].(*IfaceV)
		m := st.memGet("LOCK", SArr(SRef, SInt))
		k(st, Select(m, iv.dyn.(*Term)))
	case "gvSame":
		// identity of reference-like or structural equality of values
		a, b := args[0].(*IfaceV), args[1].(*IfaceV)
		k(st, x.deepSame(st, a, b))
	case "gvSnap":
		// the contents of a [][]byte as a new []string
		s := args[0].(*SliceV)
		o := x.newObj()
		arr := x.freshT("snap", SArr(SInt, SStr))
		q := BoundVar("q", SInt)
		bt := types.NewSlice(types.Typ[types.Byte])
		el := x.loadQ(st, s.arr, Add(s.off, q), bt).(*SliceV)
		st.assume(Forall(q, Imp(And(Le(Int(0), q), Lt(q, s.len)), Eq(Select(arr, q), strb(x.bytesOf(st, el)))), Select(arr, q)))
		st.assume(Forall(q, Imp(Or(Lt(q, Int(0)), Le(s.len, q)), Eq(Select(arr, q), StrLit(""))), Select(arr, q)))
		key := "E:string"
		st.memSet(key, Store(st.memGet(key, SArr(SRef, SArr(SInt, SStr))), o, arr))
		k(st, &SliceV{o, Int(0), s.len, s.len})
	case "gvSnapF":
		// the first n values of a string function as a new []string
		n := args[0].(*Term)
		f := args[1].(*FuncV)
		o := x.newObj()
		arr := x.freshT("snap", SArr(SInt, SStr))
		v := BoundVar("q", SInt)
		v.lo, v.hi = new(big.Int).Neg(maxLen), maxLen
		rng := And(Le(Int(0), v), Lt(v, n))
		body := x.evalBound(st, f, v, rng)
		st.assume(Forall(v, Imp(rng, Eq(Select(arr, v), body)), Select(arr, v)))
		w := BoundVar("q", SInt)
		st.assume(Forall(w, Imp(Or(Lt(w, Int(0)), Le(n, w)), Eq(Select(arr, w), StrLit(""))), Select(arr, w)))
		key := "E:string"
		st.memSet(key, Store(st.memGet(key, SArr(SRef, SArr(SInt, SStr))), o, arr))
		k(st, &SliceV{o, Int(0), n, n})
	case "gvSnapInt":
		// the first n values of a integer function as a new []int
		n := args[0].(*Term)
		f := args[1].(*FuncV)
		o := x.newObj()
		arr := x.freshT("snap", SArr(SInt, SInt))
		v := BoundVar("q", SInt)
		v.lo, v.hi = new(big.Int).Neg(maxLen), maxLen
		rng := And(Le(Int(0), v), Lt(v, n))
		body := x.evalBound(st, f, v, rng)
		st.assume(Forall(v, Imp(rng, Eq(Select(arr, v), body)), Select(arr, v)))
		w := BoundVar("q", SInt)
		st.assume(Forall(w, Imp(Or(Lt(w, Int(0)), Le(n, w)), Eq(Select(arr, w), Int(0))), Select(arr, w)))
		key := "E:int"
		st.memSet(key, Store(st.memGet(key, SArr(SRef, SArr(SInt, SInt))), o, arr))
		k(st, &SliceV{o, Int(0), n, n})
	case "gvBytesEq":
		k(st, Eq(x.bytesOf(st, args[0].(*SliceV)), x.bytesOf(st, args[1].(*SliceV))))
	case "gvSameJSON":
		a, b := args[0].(*IfaceV), args[1].(*IfaceV)
		k(st, x.sameJSON(st, a, b))
	case "gvSigValid":
		// gvSigValid(key *secp pub state, sig string, msg []byte)
		unsup("gvSigValid")
	default:
		unsup("intrinsic %s", name)
	}
}

func (x *Exec) evalBound(st *State, f *FuncV, v *Term, rng *Term) *Term {
	return x.evalBoundVal(st, f, v, v, rng)
}

func (x *Exec) evalBoundVal(st *State, f *FuncV, v *Term, arg Val, rng *Term) *Term {
	x.boundVars = append(x.boundVars, v)
	defer func() { x.boundVars = x.boundVars[:len(x.boundVars)-1] }()
	s := st.clone()
	n := len(s.pc)
	s.branch(rng)
	r := x.evalPure(s, f.fn, []Val{arg}, f.binds)
	for _, e := range s.pc[n+min(1, len(s.pc)-n):] {
		// assumptions made while evaluating
		if !e.branch {
			if e.t.bvs[v] {
				st.assume(Forall(v, Imp(rng, e.t)))
			} else {
				st.assume(e.t)
			}
		}
	}
	return r
}

// trig picks trigger terms for a quantified body: smallest select or uf applications that contain
// the bound variable. Empty means let the solver choose.
func trig(v *Term, body *Term) []*Term {
	if os.Getenv("GOVC_NOTRIG") != "" {
		return nil
	}
	seen := map[*Term]bool{}
	var res []*Term
	clean := map[*Term]int{}
	var isClean func(t *Term) bool
	isClean = func(t *Term) bool {
		if r, ok := clean[t]; ok {
			return r == 1
		}
		r := 1
		switch t.op {
		case "ite", "and", "or", "not", "=", "<=", "forall", "*", "mod", "div", "+":
			if t.bvs[v] {
				r = 0
			}
		case "forall_":
			r = 0
		}
		for _, a := range t.args {
			if !isClean(a) {
				r = 0
			}
		}
		if len(t.bvs) > 1 && t.bvs[v] {
			r = 0
		}
		clean[t] = r
		return r == 1
	}
	var visit func(t *Term) bool // returns whether a trigger was found inside
	visit = func(t *Term) bool {
		if !t.bvs[v] {
			return false
		}
		if r, ok := seen[t]; ok {
			return r
		}
		seen[t] = true
		found := false
		for _, a := range t.args {
			if visit(a) {
				found = true
			}
		}
		if found {
			return true
		}
		if (t.op == "select" || t.op == "uf") && isClean(t) && (t.sort != SInt || t.op != "uf" || t.name != "rootid") {
			for _, r := range res {
				if r == t {
					return true
				}
			}
			res = append(res, t)
			return true
		}
		seen[t] = false
		return false
	}
	visit(body)
	if len(res) > 6 {
		res = res[:6]
	}
	return res
}

// deepSame compares two interface-boxed values of the same static type structurally for scalars,
// strings, byte slices (content) and pointers (identity).
func (x *Exec) deepSame(st *State, a, b *IfaceV) *Term {
	if a.dynT == nil || b.dynT == nil {
		return x.ifaceEq(a, b)
	}
	if s, ok := a.dyn.(*SliceV); ok {
		t := b.dyn.(*SliceV)
		et := a.dynT.Underlying().(*types.Slice).Elem()
		if typeKey(et.Underlying()) == "byte" || typeKey(et.Underlying()) == "uint8" {
			return Eq(x.bytesOf(st, s), x.bytesOf(st, t))
		}
		v := BoundVar("i", SInt)
		v.lo, v.hi = zeroBig, maxLen
		x.boundVars = append(x.boundVars, v)
		defer func() { x.boundVars = x.boundVars[:len(x.boundVars)-1] }()
		ea := x.load(st, elemAddr(s.arr, Add(s.off, v), et), et)
		eb := x.load(st, elemAddr(t.arr, Add(t.off, v), et), et)
		return And(Eq(s.len, t.len), Forall(v, Imp(And(Le(Int(0), v), Lt(v, s.len)), x.valSame(st, ea, eb, et))))
	}
	return x.valSame(st, a.dyn, b.dyn, a.dynT)
}

func (x *Exec) valSame(st *State, a, b Val, t types.Type) *Term {
	switch y := a.(type) {
	case *SliceV:
		z := b.(*SliceV)
		et := t.Underlying().(*types.Slice).Elem()
		if k := typeKey(et.Underlying()); k == "byte" || k == "uint8" {
			return Eq(x.bytesOf(st, y), x.bytesOf(st, z))
		}
		return And(Eq(y.arr, z.arr), Eq(y.off, z.off), Eq(y.len, z.len))
	case *StructV:
		z := b.(*StructV)
		if isBigInt(t) {
			return Eq(y.f[0].(*Term), z.f[0].(*Term))
		}
		r := True
		su, ok := t.Underlying().(*types.Struct)
		if !ok {
			return r
		}
		for i := range y.f {
			r = And(r, x.valSame(st, y.f[i], z.f[i], su.Field(i).Type()))
		}
		return r
	}
	return x.valEq(st, a, b, t)
}

// ------------------------------------------------------------ call mode

func (x *Exec) ifaceContract(name string) *Contract { return x.ifaceCons[name] }

func (x *Exec) callContract(st *State, fr *Frame, con *Contract, args []Val, pos token.Pos, k func(*State, Val)) {
	x.usedCon[con.Name] = true
	if con.Assumed != "" && x.quiet == 0 {
		x.assumptions["assumed contract "+con.Name+": "+con.Assumed]++
	}
	fn := con.Fn
	nf := x.newFrame(fn, fr, nil)
	nf.mode = "call"
	nf.con = con
	nf.callArgs = args
	nf.callPos = pos
	nf.entryLo = -x.nextID
	if nf.depth > 60 {
		unsup("call depth exceeded at %s", fn)
	}
	id := nf.id
	nf.k = func(s *State, r []Val) {
		delete(s.env, id)
		delete(s.defers, id)
		k(s, packResults(nf.callRes))
	}
	if len(args) != len(fn.Params) {
		unsup("contract %s: arity %d, call has %d", con.Name, len(fn.Params), len(args))
	}
	env := map[ssa.Value]Val{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	st.env[id] = env
	x.enter(st, nf, fn.Blocks[0], nil)
}

// callModeHavoc stands for the call of the target inside a contract executed in call mode.
func (x *Exec) callModeHavoc(st *State, fr *Frame, fn *ssa.Function, args []Val, k func(*State, Val)) {
	con := fr.con
	oldNext := x.nextID
	x.bumpAlloc()
	for _, m := range con.Modifies {
		x.havocModifies(st, fr, m)
	}
	var rs []Val
	res := con.Fn.Signature // placeholder
	_ = res
	sig := con.targetSig()
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if con.FreshRes[i] {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				o := x.newObj()
				et := pt.Elem()
				x.store(st, o, et, x.havocVal(st, et, "fr_"+fnShort(con)))
				c := x.freshT("isnil_"+fnShort(con), SBool)
				rs = append(rs, Ite(c, Null, o))
				continue
			}
			if _, ok := t.Underlying().(*types.Slice); ok {
				o := x.newObj()
				v := x.havocVal(st, t, "r_"+fnShort(con)).(*SliceV)
				c := x.freshT("isnil_"+fnShort(con), SBool)
				st.assume(Imp(c, And(Eq(v.len, Int(0)), Eq(v.cap, Int(0)))))
				rs = append(rs, &SliceV{Ite(c, Null, o), Int(0), v.len, v.cap})
				continue
			}
		}
		rs = append(rs, x.havocVal(st, t, "r_"+fnShort(con)))
	}
	_ = oldNext
	fr.callRes = rs
	k(st, packResults(rs))
}

func fnShort(c *Contract) string { return strings.TrimPrefix(c.Fn.Name(), "contract_") }

func (c *Contract) targetSig() *types.Signature {
	if c.Target != nil {
		return c.Target.Signature
	}
	return nil
}

// modTargets resolves a modifies clause "p.F" (field F of the struct parameter p points to),
// "p.*" (all fields), "p[]" (elements of slice p), "key:MEMKEY" (a whole memory map).
type modLoc struct {
	key string
	ref *Term // nil: whole map
}

func (x *Exec) modTargets(st *State, fr *Frame, m string) []modLoc {
	if strings.HasPrefix(m, "key:") {
		return []modLoc{{key: m[4:]}}
	}
	nm, fld := m, ""
	if i := strings.Index(m, "."); i >= 0 {
		nm, fld = m[:i], m[i+1:]
	}
	elems := strings.HasSuffix(nm, "[]")
	nm = strings.TrimSuffix(nm, "[]")
	for _, p := range fr.fn.Params {
		if p.Name() != nm {
			continue
		}
		v := st.env[fr.id][p]
		if elems {
			s := v.(*SliceV)
			et := p.Type().Underlying().(*types.Slice).Elem()
			var r []modLoc
			for _, c := range comps(et) {
				r = append(r, modLoc{"E:" + typeKey(et) + c.suffix, s.arr})
			}
			return r
		}
		base, ok := v.(*Term)
		if !ok {
			unsup("modifies %s", m)
		}
		et := ptrElem(p.Type())
		if isBigInt(et) {
			return []modLoc{{"F:math/big.Int.val", base}}
		}
		var r []modLoc
		var rec func(base *Term, t types.Type, want string)
		rec = func(base *Term, t types.Type, want string) {
			su := t.Underlying().(*types.Struct)
			for i := 0; i < su.NumFields(); i++ {
				f := su.Field(i)
				if want != "*" && f.Name() != want {
					continue
				}
				if isMutex(f.Type()) || isOpaqueStruct(f.Type()) {
					continue
				}
				if isBigInt(f.Type()) {
					r = append(r, modLoc{"F:math/big.Int.val", SubRef(base, fieldID(t, i))})
					continue
				}
				if isStruct(f.Type()) {
					rec(SubRef(base, fieldID(t, i)), f.Type(), "*")
					continue
				}
				if mt, ok := f.Type().Underlying().(*types.Map); ok && want != "*" {
					a, ft := x.fieldAddr(st, base, t, i)
					mr := x.load(st, a, ft).(*Term)
					r = append(r, modLoc{"MD:" + typeKey(mt), mr})
					for _, l := range flatten(mt.Elem(), "") {
						r = append(r, modLoc{"MV:" + typeKey(mt) + l.path, mr})
					}
				}
				for _, c := range comps(f.Type()) {
					r = append(r, modLoc{"F:" + typeKey(t) + "." + f.Name() + c.suffix, base})
				}
			}
		}
		rec(base, et, fld)
		return r
	}
	unsup("modifies clause %s: no such parameter", m)
	return nil
}

// interf: memory other threads may change while the mutex is not held
type interf struct {
	param, mutex string
	mods         []string
	hook         *ssa.Function
}

// interfere is run when mutex r is acquired: on the second and later acquisitions the guarded map
// contents are arbitrary (the pre-state of the call stands for the state at the first one).
func (x *Exec) interfere(st *State, fr *Frame, r *Term, release bool, k func(*State)) {
	cf := x.conFrame(fr)
	if cf == nil || fr.spec || x.pureDepth > 0 || cf.con == nil || cf.mode != "verify" {
		k(st)
		return
	}
	for _, in := range cf.con.Intf {
		if release != (len(in.mods) == 0) {
			continue
		}
		var pv *Term
		var pt types.Type
		var args []Val
		for _, p := range cf.fn.Params {
			args = append(args, st.env[cf.id][p])
			if p.Name() == in.param {
				pv, _ = st.env[cf.id][p].(*Term)
				pt = ptrElem(p.Type())
			}
		}
		if pv == nil || pt == nil || SubRef(pv, fieldID(pt, fieldIndex(pt, in.mutex))) != r {
			continue
		}
		if release {
			x.runHook(st, cf, in.hook, args, token.NoPos, k)
			return
		}
		key := "G:acq"
		m := st.memGet(key, SArr(SRef, SInt))
		n := Select(m, r)
		st.memSet(key, Store(m, r, Add(n, Int(1))))
		if n == Int(0) {
			break
		}
		for _, md := range in.mods {
			for _, l := range x.modTargets(st, cf, md) {
				if l.ref == nil || strings.HasPrefix(l.key, "F:") && isMapField(pt, md) {
					continue
				}
				mm := st.mem[l.key]
				if mm == nil {
					srt, ok := memSorts[l.key]
					if !ok {
						continue
					}
					mm = st.memGet(l.key, srt)
				}
				v := x.freshT("intf_"+l.key, arrElemSort(mm.sort))
				st.memSet(l.key, Store(mm, l.ref, v))
			}
		}
		x.runHook(st, cf, in.hook, args, token.NoPos, k)
		return
	}
	k(st)
}

func isMapField(t types.Type, md string) bool {
	i := fieldIndex(t, md[strings.Index(md, ".")+1:])
	if i < 0 {
		return false
	}
	_, ok := t.Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Map)
	return ok
}

func (x *Exec) havocModifies(st *State, fr *Frame, m string) {
	for _, l := range x.modTargets(st, fr, m) {
		mm := st.mem[l.key]
		if mm == nil {
			srt, ok := memSorts[l.key]
			if !ok {
				continue // never touched so far: still arbitrary
			}
			mm = st.memGet(l.key, srt)
		}
		if l.ref == nil {
			x.havocMem(st, l.key)
			continue
		}
		v := x.freshT("mod_"+l.key, arrElemSort(mm.sort))
		if v.sort == SRef || strings.HasSuffix(v.sort, "Ref)") {
			v.rootKnown, v.rootLo = true, -x.nextID
		}
		st.memSet(l.key, Store(mm, l.ref, v))
	}
}

// checkFrame adds obligations that memory outside the modifies clause and outside objects
// allocated by the call is unchanged.
func (x *Exec) checkFrame(st *State, fr *Frame, before map[string]*Term, pos token.Pos) {
	con := fr.con
	if !con.ModSet && !con.Modular {
		return
	}
	if x.quiet > 0 {
		return
	}
	lbl := con.FrameLbl
	if lbl == "" {
		lbl = con.Name + ".frame"
	}
	pre := st.clone()
	pre.mem = map[string]*Term{}
	for k, v := range before {
		pre.mem[k] = v
	}
	allowed := map[string][]*Term{}
	whole := map[string]bool{}
	for _, m := range con.Modifies {
		for _, l := range x.modTargets(pre, fr, m) {
			if l.ref == nil {
				whole[l.key] = true
			} else {
				allowed[l.key] = append(allowed[l.key], l.ref)
			}
		}
	}
	for k, cur := range st.mem {
		if k == "LOCK" || strings.HasPrefix(k, "SEEN") || k == "G:acq" || whole[k] || strings.HasPrefix(k, "C:") && strings.Contains(k, "func(") {
			continue
		}
		base := before[k]
		if base == nil {
			base = Var("M0_"+sanitize(k), cur.sort)
		}
		if base == cur {
			continue
		}
		if arrKeySort(cur.sort) != SRef {
			continue
		}
		ks, ok := writesBetween(cur, base, 0)
		if ok {
			for _, w := range ks {
				if e, ex := exactRoot(w); ex && e < fr.entryLo {
					continue
				}
				skip := false
				for _, a := range allowed[k] {
					if a == w {
						skip = true
					}
				}
				if skip {
					continue
				}
				if e, ex := exactRoot(w); ex && e >= 2000000000 && isGhostGlobal(e) {
					continue
				}
				var alts []*Term
				for _, a := range allowed[k] {
					alts = append(alts, Eq(a, w))
				}
				alts = append(alts, Lt(UF("rootid", SInt, w), Int(fr.entryLo)), Eq(Select(cur, w), Select(base, w)))
				x.oblige(st, fr, lbl, "frame:"+k, pos, Or(alts...))
			}
			continue
		}
		q := Fresh("fr", SRef)
		conds := []*Term{Le(Int(fr.entryLo), UF("rootid", SInt, q))}
		for _, a := range allowed[k] {
			conds = append(conds, Not(Eq(a, q)))
		}
		x.oblige(st, fr, lbl, "frame:"+k, pos, Imp(And(conds...), Eq(Select(cur, q), Select(base, q))))
	}
}

func isGhostGlobal(id int64) bool {
	for g, i := range globalIDs {
		if i == id {
			return strings.HasPrefix(g.Name(), "gv")
		}
	}
	return false
}

// ------------------------------------------------------------ hooks

func (x *Exec) hooksFor(name string, after bool) []*ssa.Function {
	if x.cur == nil {
		return nil
	}
	var r []*ssa.Function
	for _, h := range x.cur.Hooks {
		if h.after == after && h.callee == name {
			r = append(r, h.fn)
		}
	}
	return r
}

// runHook executes hook specification code on the current state (its gvEnsures are obligations).
func (x *Exec) runHook(st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, k func(*State)) {
	nf := x.newFrame(fn, fr, nil)
	nf.spec = true
	nf.mode = "hook"
	nf.con = x.cur
	if c := x.conFrame(fr); c != nil {
		nf.entryLo = c.entryLo
	}
	id := nf.id
	nf.k = func(s *State, r []Val) {
		delete(s.env, id)
		delete(s.defers, id)
		k(s)
	}
	env := map[ssa.Value]Val{}
	if len(args) < len(fn.Params) {
		unsup("hook %s: arity", fn)
	}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	st.env[id] = env
	x.enter(st, nf, fn.Blocks[0], nil)
}

func (x *Exec) withHooks(st *State, fr *Frame, name string, args []Val, pos token.Pos, k func(*State, Val), body func(st *State, k func(*State, Val))) {
	if x.cur == nil || len(x.cur.Hooks) == 0 || fr.spec || fr.mode == "call" || x.pureDepth > 0 {
		body(st, k)
		return
	}
	hb, ha := x.hooksFor(name, false), x.hooksFor(name, true)
	if len(hb) == 0 && len(ha) == 0 {
		body(st, k)
		return
	}
	if x.quiet == 0 {
		x.hookHits[name]++
	}
	kk := k
	if len(ha) > 0 {
		kk = func(s *State, r Val) {
			all := append([]Val{}, args...)
			if tv, ok := r.(TupleV); ok {
				all = append(all, tv...)
			} else {
				all = append(all, r)
			}
			x.runHook(s, fr, ha[0], all, pos, func(s *State) { k(s, r) })
		}
	}
	if len(hb) > 0 {
		x.runHook(st, fr, hb[0], args, pos, func(s *State) { body(s, kk) })
		return
	}
	body(st, kk)
}

// ------------------------------------------------------------ verification driver

// VerifyContract symbolically executes a contract in verify mode and collects obligations.
func (x *Exec) VerifyContract(con *Contract) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = fmt.Errorf("unsupported: %s", u.msg)
				return
			}
			panic(r)
		}
	}()
	x.cur = con
	x.steps = 0
	if con.MaxSteps > 0 {
		x.maxSteps = con.MaxSteps
	}
	x.nextID = 1000
	st := newState()
	if con.Locks != "" || len(con.Guards) > 0 {
		st.mem["LOCK"] = ConstArr(SArr(SRef, SInt), Int(0))
	}
	if len(con.Intf) > 0 {
		st.mem["G:acq"] = ConstArr(SArr(SRef, SInt), Int(0))
	}
	fn := con.Fn
	fr := x.newFrame(fn, nil, nil)
	fr.mode = "verify"
	fr.con = con
	fr.entryLo = -x.nextID
	con.done = map[int]bool{}
	env := map[ssa.Value]Val{}
	for _, p := range fn.Params {
		env[p] = x.havocValLo(st, p.Type(), "p_"+p.Name(), 0)
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok && !isStruct(pt.Elem()) && !isArray(pt.Elem()) {
			env[p] = &AddrV{kind: "cell", ref: env[p].(*Term), key: "C:" + typeKey(pt.Elem()), typ: pt.Elem()}
		}
	}
	st.env[fr.id] = env
	fr.k = func(s *State, r []Val) {
		x.paths++
		x.exits = append(x.exits, s.pcTerms())
		if con.Locks != "" {
			m := s.mem["LOCK"]
			if m != nil {
				base := ConstArr(SArr(SRef, SInt), Int(0))
				ks, ok := writesBetween(m, base, 0)
				if !ok {
					q := Fresh("lk", SRef)
					x.oblige(s, fr, con.Locks, "locks-released", fn.Pos(), Eq(Select(m, q), Int(0)))
				}
				for _, kx := range ks {
					if e, ex := exactRoot(kx); ex && e < fr.entryLo {
						continue
					}
					x.oblige(s, fr, con.Locks, "locks-released", fn.Pos(), Eq(Select(m, kx), Int(0)))
				}
			}
		}
	}
	x.enter(st, fr, fn.Blocks[0], nil)
	return nil
}
