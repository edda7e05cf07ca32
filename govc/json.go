package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// JSON values are terms of the uninterpreted sort J, built by constructor functions whose
// projections are given by facts; jtext/jparse relate them to byte strings.

func jtext(j *Term) *Term {
	if j.op == "uf" && j.name == "jparse" {
		// canonical text of something parsed
	}
	r := UF("jtext", SBytes, j)
	if true {
		addFact(r, Eq(UF("jparse", SJ, r), j))
		addFact(r, UF("jvalid", SBool, r))
		addFact(r, Lt(Int(0), blen(r)))
	}
	return r
}
func jparse(b *Term) *Term {
	if b.op == "uf" && b.name == "jtext" {
		return b.args[0]
	}
	return UF("jparse", SJ, b)
}
func jvalid(b *Term) *Term {
	if b.op == "uf" && b.name == "jtext" {
		return True
	}
	return UF("jvalid", SBool, b)
}

func jkind(j *Term) *Term {
	if k, ok := jkindOf(j); ok {
		return k
	}
	return UF("jkind", SInt, j)
}

const (
	kNull = iota
	kBool
	kInt
	kStr
	kArr
	kObj
)

func jkindOf(j *Term) (*Term, bool) {
	if j.op != "uf" {
		if j.op == "ite" {
			a, ok1 := jkindOf(j.args[1])
			b, ok2 := jkindOf(j.args[2])
			if ok1 && ok2 {
				return Ite(j.args[0], a, b), true
			}
		}
		return nil, false
	}
	switch {
	case j.name == "jnull":
		return Int(kNull), true
	case j.name == "jbool":
		return Int(kBool), true
	case j.name == "jint":
		return Int(kInt), true
	case j.name == "jstr", j.name == "jb64":
		return Int(kStr), true
	case strings.HasPrefix(j.name, "jarr_"):
		return Int(kArr), true
	case strings.HasPrefix(j.name, "jobj_"):
		return Int(kObj), true
	}
	return nil, false
}

func jnull() *Term { return UF("jnull", SJ) }
func jstr(s *Term) *Term {
	r := UF("jstr", SJ, s)
	if true {
		addFact(r, Eq(UF("jS", SStr, r), s))
	}
	return r
}
func jint(n *Term) *Term {
	r := UF("jint", SJ, n)
	if true {
		addFact(r, Eq(UF("jI", SInt, r), n))
	}
	return r
}
func jbool(b *Term) *Term {
	r := UF("jbool", SJ, b)
	if true {
		addFact(r, Eq(UF("jB", SBool, r), b))
	}
	return r
}
func jb64(b *Term) *Term {
	r := UF("jb64", SJ, b)
	if true {
		addFact(r, Eq(UF("jY", SBytes, r), b))
		addFact(r, UF("jisb64", SBool, r))
	}
	return r
}

func jS(j *Term) *Term {
	if j.op == "uf" && j.name == "jstr" {
		return j.args[0]
	}
	return UF("jS", SStr, j)
}
func jI(j *Term) *Term {
	if j.op == "uf" && j.name == "jint" {
		return j.args[0]
	}
	return UF("jI", SInt, j)
}
func jB(j *Term) *Term {
	if j.op == "uf" && j.name == "jbool" {
		return j.args[0]
	}
	return UF("jB", SBool, j)
}
func jY(j *Term) *Term {
	if j.op == "uf" && j.name == "jb64" {
		return j.args[0]
	}
	return UF("jY", SBytes, j)
}
func jisb64(j *Term) *Term {
	if j.op == "uf" && j.name == "jb64" {
		return True
	}
	return UF("jisb64", SBool, j)
}

func jget(j *Term, key string) *Term {
	if j.op == "uf" && strings.HasPrefix(j.name, "jobj_") {
		for i, k := range jobjKeys[j.name] {
			if k == key {
				return j.args[i]
			}
		}
	}
	return UF("jget_"+key, SJ, j)
}
func jhas(j *Term, key string) *Term {
	if j.op == "uf" && strings.HasPrefix(j.name, "jobj_") {
		for _, k := range jobjKeys[j.name] {
			if k == key {
				return True
			}
		}
		return False
	}
	return UF("jhas_"+key, SBool, j)
}
func jlen(j *Term) *Term {
	if j.op == "uf" && strings.HasPrefix(j.name, "jarr_") {
		return j.args[len(j.args)-1]
	}
	r := UF("jlen", SInt, j)
	if true {
		r.lo, r.hi = zeroBig, maxLen
	}
	return r
}
func jel(j, i *Term) *Term { return UF("jel", SJ, j, i) }

var jobjKeys = map[string][]string{}

func jobj(keys []string, vs []*Term) *Term {
	name := sanitize("jobj_" + strings.Join(keys, "."))
	jobjKeys[name] = keys
	r := UF(name, SJ, vs...)
	if true {
		for i, k := range keys {
			addFact(r, Eq(UF("jget_"+k, SJ, r), vs[i]))
			addFact(r, UF("jhas_"+k, SBool, r))
		}
		addFact(r, Eq(UF("jkind", SInt, r), Int(kObj)))
	}
	return r
}

func init() {
	ufRebuild["jtext"] = func(a []*Term) *Term { return jtext(a[0]) }
	ufRebuild["jparse"] = func(a []*Term) *Term { return jparse(a[0]) }
	ufRebuild["jstr"] = func(a []*Term) *Term { return jstr(a[0]) }
	ufRebuild["jint"] = func(a []*Term) *Term { return jint(a[0]) }
	ufRebuild["jbool"] = func(a []*Term) *Term { return jbool(a[0]) }
	ufRebuild["jb64"] = func(a []*Term) *Term { return jb64(a[0]) }
	ufRebuild["jS"] = func(a []*Term) *Term { return jS(a[0]) }
	ufRebuild["jI"] = func(a []*Term) *Term { return jI(a[0]) }
	ufRebuild["jB"] = func(a []*Term) *Term { return jB(a[0]) }
	ufRebuild["jY"] = func(a []*Term) *Term { return jY(a[0]) }
	ufRebuild["mkbytes"] = func(a []*Term) *Term { return mkbytes(a[0], a[1], a[2]) }
	ufRebuild["hexEnc"] = func(a []*Term) *Term { return hexEnc(a[0]) }
	ufRebuild["hexDec"] = func(a []*Term) *Term { return hexDec(a[0]) }
	ufRebuild["hexOK"] = func(a []*Term) *Term { return hexOK(a[0]) }
	ufRebuild["bcat"] = func(a []*Term) *Term { return bcat(a[0], a[1]) }
	ufRebuild["strb"] = func(a []*Term) *Term { return strb(a[0]) }
	ufRebuild["sbytes"] = func(a []*Term) *Term { return sbytes(a[0]) }
	ufRebuild["slen"] = func(a []*Term) *Term { return slen(a[0]) }
	ufRebuild["blen"] = func(a []*Term) *Term { return blen(a[0]) }
	ufRebuild["scat"] = func(a []*Term) *Term { return scat(a[0], a[1]) }
	ufRebuild["hash"] = func(a []*Term) *Term { return hashOf(a[0], a[1]) }

	models["encoding/json.Marshal"] = func(m *mcall) {
		iv := m.args[0].(*IfaceV)
		if iv.dynT == nil {
			// value of statically unknown dynamic type
			m.ret(m.x.havocVal(m.st, byteSlice, "json"), m.x.havocVal(m.st, errorType, "jerr"))
			return
		}
		m.x.jmarshal(m.st, m.fr, iv.dyn, iv.dynT, func(st *State, j *Term, err Val) {
			if err != nil {
				m.k(st, TupleV{&SliceV{Null, Int(0), Int(0), Int(0)}, err})
				return
			}
			m.k(st, TupleV{m.x.sliceOfBytes(st, jtext(j), false), nilErr})
		})
	}
	models["encoding/json.Unmarshal"] = func(m *mcall) {
		b := m.bytes(0)
		iv := m.args[1].(*IfaceV)
		pt, ok := iv.dynT.(*types.Pointer)
		if iv.dynT == nil || !ok {
			unsup("json.Unmarshal into %v", iv.dynT)
		}
		j := jparse(b)
		m.x.split(m.st, jvalid(b), func(st *State) {
			m.x.junmarshal(st, m.fr, j, iv.dyn, pt.Elem(), func(st *State, err Val) {
				if err != nil {
					m.k(st, err)
				} else {
					m.k(st, nilErr)
				}
			})
		}, func(st *State) {
			// syntax errors are found before anything is stored
			m.k(st, m.x.newErr())
		})
	}
}

var errorType = types.Universe.Lookup("error").Type()

func lookupMethod(x *Exec, t types.Type, name string) *ssa.Function {
	ms := x.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return x.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// jmarshal computes the JSON value of v (type t).
func (x *Exec) jmarshal(st *State, fr *Frame, v Val, t types.Type, k func(*State, *Term, Val)) {
	if mf := lookupMethod(x, t, "MarshalJSON"); mf != nil && inRepo(mf) {
		if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
			if v.(*Term) == Null {
				k(st, jnull(), nil)
				return
			}
		}
		x.callFn(st, fr, mf, []Val{v}, nil, fr.fn.Pos(), func(s *State, r Val) {
			tv := r.(TupleV)
			err := tv[1].(*IfaceV)
			b := x.bytesOf(s, tv[0].(*SliceV))
			x.split(s, Eq(err.tag, Int(0)), func(s *State) {
				// output that is not valid JSON makes Marshal fail
				x.split(s, jvalid(b), func(s *State) { k(s, jparse(b), nil) }, func(s *State) { k(s, nil, x.newErr()) })
			}, func(s *State) { k(s, nil, x.newErr()) })
		})
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		tm, _ := v.(*Term)
		switch {
		case u.Info()&types.IsString != 0:
			k(st, jstr(tm), nil)
		case u.Info()&types.IsInteger != 0:
			k(st, jint(tm), nil)
		case u.Info()&types.IsBoolean != 0:
			k(st, jbool(tm), nil)
		case u.Info()&types.IsFloat != 0:
			k(st, UF("jfloat", SJ, tm), nil)
		default:
			unsup("json of %s", t)
		}
		return
	case *types.Pointer:
		r := x.ptrTerm(v)
		x.split(st, Eq(r, Null), func(s *State) { k(s, jnull(), nil) }, func(s *State) {
			x.jmarshal(s, fr, x.load(s, v, u.Elem()), u.Elem(), k)
		})
		return
	case *types.Struct:
		sv := v.(*StructV)
		x.jfields(st, fr, sv, u, 0, nil, nil, k)
		return
	case *types.Slice:
		s := v.(*SliceV)
		if isByteT(u.Elem()) {
			b := x.bytesOf(st, s)
			k(st, Ite(Eq(s.arr, Null), jnull(), jb64(b)), nil)
			return
		}
		x.split(st, Eq(s.arr, Null), func(st *State) { k(st, jnull(), nil) }, func(st *State) { k(st, x.jslice(st, s, u.Elem()), nil) })
		return
	case *types.Interface:
		iv := v.(*IfaceV)
		if iv.dynT != nil {
			x.jmarshal(st, fr, iv.dyn, iv.dynT, k)
			return
		}
	case *types.Map:
		k(st, x.freshT("jmap", SJ), nil)
		return
	}
	unsup("json.Marshal of %s", t)
}

func (x *Exec) ptrTerm(v Val) *Term {
	switch y := v.(type) {
	case *Term:
		return y
	case *AddrV:
		return y.ref
	}
	unsup("pointer %T", v)
	return nil
}

func isByteT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func jsonName(u *types.Struct, i int) (string, bool) {
	f := u.Field(i)
	tag := reflect.StructTag(u.Tag(i)).Get("json")
	if tag == "-" || !f.Exported() {
		return "", false
	}
	n := strings.Split(tag, ",")[0]
	if n == "" {
		n = f.Name()
	}
	return n, true
}

func (x *Exec) jfields(st *State, fr *Frame, sv *StructV, u *types.Struct, i int, keys []string, vs []*Term, k func(*State, *Term, Val)) {
	for ; i < u.NumFields(); i++ {
		n, ok := jsonName(u, i)
		if !ok {
			continue
		}
		if strings.Contains(reflect.StructTag(u.Tag(i)).Get("json"), "omitempty") {
			// presence depends on the value: keep the key, reading it back gives the zero value
		}
		i := i
		x.jmarshal(st, fr, sv.f[i], u.Field(i).Type(), func(s *State, j *Term, err Val) {
			if err != nil {
				k(s, nil, err)
				return
			}
			x.jfields(s, fr, sv, u, i+1, append(keys[:len(keys):len(keys)], n), append(vs[:len(vs):len(vs)], j), k)
		})
		return
	}
	k(st, jobj(keys, vs), nil)
}

// jslice builds the JSON array of a slice; elements are related to the slice content by a fact.
func (x *Exec) jslice(st *State, s *SliceV, et types.Type) *Term {
	var args []*Term
	nm := "jarr_" + sanitize(typeKey(et))
	switch {
	case lookupMethod(x, et, "MarshalJSON") != nil || lookupMethod(x, types.NewPointer(et), "MarshalJSON") != nil || isStruct(et) || isNestedSlice(et):
		// opaque element encoding, keyed by the marshalling instant
		e := x.freshT("jepoch", SInt)
		x.assume1("the JSON codec of []" + typeKey(et) + " is the element codec applied pointwise")
		args = []*Term{e, s.arr, s.off, s.len}
		j := UF(nm, SJ, args...)
		addFact(j, Eq(UF("jlen", SInt, j), s.len))
		q := BoundVar("i", SInt)
		el := jel(j, q)
		addFact(j, Forall(q, Imp(And(Le(Int(0), q), Lt(q, s.len)), Eq(el, UF("jrep", SJ, e, ElemRef(s.arr, Add(s.off, q))))), el))
		st.ghost["jepoch:"+nm] = e
		return j
	case isByteSlice(et):
		var ms []*Term
		for _, c := range comps(et) {
			ms = append(ms, Select(st.memGet("E:"+typeKey(et)+c.suffix, SArr(SRef, SArr(SInt, c.sort))), s.arr))
		}
		bm := st.memGet("E:byte", SArr(SRef, SArr(SInt, SInt)))
		args = append(ms, bm, s.off, s.len)
		j := UF(nm, SJ, args...)
		addFact(j, Eq(UF("jlen", SInt, j), s.len))
		q := BoundVar("i", SInt)
		el := jel(j, q)
		at := Add(s.off, q)
		content := UF("mkbytes", SBytes, Select(bm, Select(ms[0], at)), Select(ms[1], at), Select(ms[2], at))
		addFact(j, Forall(q, Imp(And(Le(Int(0), q), Lt(q, s.len)), And(Eq(UF("jY", SBytes, el), content), UF("jisb64", SBool, el), Eq(UF("jkind", SInt, el), Int(kStr)))), el))
		return j
	}
	cs := comps(et)
	if len(cs) != 1 {
		unsup("json of []%s", et)
	}
	c := Select(st.memGet("E:"+typeKey(et), SArr(SRef, SArr(SInt, cs[0].sort))), s.arr)
	j := UF(nm, SJ, c, s.off, s.len)
	addFact(j, Eq(UF("jlen", SInt, j), s.len))
	q := BoundVar("i", SInt)
	el := jel(j, q)
	var eq *Term
	switch cs[0].sort {
	case SStr:
		eq = And(Eq(UF("jS", SStr, el), Select(c, Add(s.off, q))), Eq(UF("jkind", SInt, el), Int(kStr)))
	case SInt:
		eq = And(Eq(UF("jI", SInt, el), Select(c, Add(s.off, q))), Eq(UF("jkind", SInt, el), Int(kInt)))
	case SBool:
		eq = And(Eq(UF("jB", SBool, el), Select(c, Add(s.off, q))), Eq(UF("jkind", SInt, el), Int(kBool)))
	default:
		unsup("json of []%s", et)
	}
	addFact(j, Forall(q, Imp(And(Le(Int(0), q), Lt(q, s.len)), eq), el))
	return j
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByteT(s.Elem())
}

func isNestedSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && !isByteT(s.Elem())
}

func (x *Exec) assume1(s string) {
	if x.quiet == 0 {
		x.assumptions[s]++
	}
}

// junmarshal stores the JSON value j into address a of type t; err is nil on success.
func (x *Exec) junmarshal(st *State, fr *Frame, j *Term, a Val, t types.Type, k func(*State, Val)) {
	if mf := lookupMethod(x, types.NewPointer(t), "UnmarshalJSON"); mf != nil && inRepo(mf) {
		b := x.sliceOfBytes(st, jtext(j), false)
		x.callFn(st, fr, mf, []Val{a, b}, nil, fr.fn.Pos(), func(s *State, r Val) {
			err := r.(*IfaceV)
			x.split(s, Eq(err.tag, Int(0)), func(s *State) { k(s, nil) }, func(s *State) { k(s, x.newErr()) })
		})
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		isObj := Eq(jkind(j), Int(kObj))
		x.split(st, isObj, func(s *State) { x.jsetFields(s, fr, j, a, t, u, 0, k) }, func(s *State) {
			x.split(s, Eq(jkind(j), Int(kNull)), func(s *State) { k(s, nil) }, func(s *State) { k(s, x.newErr()) })
		})
		return
	case *types.Pointer:
		x.split(st, Eq(jkind(j), Int(kNull)), func(s *State) {
			x.store(s, a, t, zeroVal(t))
			k(s, nil)
		}, func(s *State) {
			if !isStruct(u.Elem()) {
				unsup("json into %s", t)
			}
			o := x.allocStruct(s, u.Elem())
			x.store(s, a, t, o)
			x.junmarshal(s, fr, j, o, u.Elem(), k)
		})
		return
	}
	ok, val := x.jdecode(st, j, t)
	old := x.load(st, a, t)
	isNull := Eq(jkind(j), Int(kNull))
	if _, isSl := t.Underlying().(*types.Slice); isSl {
		old = zeroVal(t)
	}
	if _, isM := t.Underlying().(*types.Map); isM {
		old = zeroVal(t)
	}
	x.split(st, Or(isNull, ok), func(s *State) {
		x.store(s, a, t, x.iteVal(isNull, old, val, t))
		k(s, nil)
	}, func(s *State) {
		x.store(s, a, t, x.havocVal(s, t, "jpartial"))
		k(s, x.newErr())
	})
}

func (x *Exec) iteVal(c *Term, a, b Val, t types.Type) Val {
	if c == False {
		return b
	}
	if c == True {
		return a
	}
	as, bs := toComps(t, a), toComps(t, b)
	var r []*Term
	for i := range as {
		r = append(r, Ite(c, as[i], bs[i]))
	}
	return fromComps(t, r)
}

// jdecode: condition under which j decodes as t, and the value.
func (x *Exec) jdecode(st *State, j *Term, t types.Type) (*Term, Val) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return Eq(jkind(j), Int(kStr)), jS(j)
		case u.Info()&types.IsInteger != 0:
			lo, hi := intRange(t)
			v := jI(j)
			if v.op != "uf" {
				return And(Eq(jkind(j), Int(kInt)), Le(BigInt(lo), v), Le(v, BigInt(hi))), v
			}
			return And(Eq(jkind(j), Int(kInt)), leRaw(BigInt(lo), v), leRaw(v, BigInt(hi))), v
		case u.Info()&types.IsBoolean != 0:
			return Eq(jkind(j), Int(kBool)), jB(j)
		}
		return x.freshT("jok", SBool), x.havocVal(st, t, "jv")
	case *types.Slice:
		et := u.Elem()
		if isByteT(et) {
			return And(Eq(jkind(j), Int(kStr)), jisb64(j)), x.sliceOfBytes(st, jY(j), false)
		}
		n := jlen(j)
		arr := x.newObj()
		isArr := Eq(jkind(j), Int(kArr))
		sv := &SliceV{arr, Int(0), n, n}
		if lookupMethod(x, types.NewPointer(et), "UnmarshalJSON") != nil || isStruct(et) || isNestedSlice(et) {
			x.assume1("the JSON codec of []" + typeKey(et) + " is the element codec applied pointwise")
			e := x.freshT("jepoch", SInt)
			okv := UF("jdecok_"+typeKey(et), SBool, j)
			if strings.HasPrefix(j.name, "jarr_"+sanitize(typeKey(et))) {
				okv = True
			}
			ok := And(isArr, okv)
			// decoded elements: arbitrary content that re-encodes to the source element
			x.havocElems(st, arr, et)
			q := BoundVar("i", SInt)
			el := UF("jrep", SJ, e, ElemRef(arr, q))
			st.assume(Forall(q, Imp(And(Le(Int(0), q), Lt(q, n)), Eq(el, jel(j, q))), el))
			st.ghost["jepochU:"+arr.String()] = e
			return ok, sv
		}
		if isByteSlice(et) {
			q := BoundVar("i", SInt)
			el := jel(j, q)
			ok := And(isArr, Forall(q, Imp(And(Le(Int(0), q), Lt(q, n)), And(Eq(UF("jkind", SInt, el), Int(kStr)), UF("jisb64", SBool, el))), el))
			if j.op == "uf" && j.name == "jarr_"+sanitize(typeKey(et)) {
				ok = True
			}
			x.havocElems(st, arr, et)
			ev := x.loadQ(st, arr, q, et).(*SliceV)
			bm := st.memGet("E:byte", SArr(SRef, SArr(SInt, SInt)))
			content := UF("mkbytes", SBytes, Select(bm, ev.arr), ev.off, ev.len)
			st.assume(Forall(q, Imp(And(Le(Int(0), q), Lt(q, n)), And(Eq(content, UF("jY", SBytes, el)), Eq(ev.len, UF("blen", SInt, UF("jY", SBytes, el))), Le(ev.len, ev.cap), Le(Int(0), ev.off), Not(Eq(ev.arr, Null)))), ev.len))
			return ok, sv
		}
		cs := comps(et)
		if len(cs) != 1 {
			unsup("json into []%s", et)
		}
		c := UF("jelems_"+sanitize(cs[0].sort), SArr(SInt, cs[0].sort), j)
		key := "E:" + typeKey(et)
		mm := st.memGet(key, SArr(SRef, SArr(SInt, cs[0].sort)))
		st.memSet(key, Store(mm, arr, c))
		q := BoundVar("i", SInt)
		el := jel(j, q)
		sel := Select(c, q)
		var proj, good *Term
		switch cs[0].sort {
		case SStr:
			proj, good = UF("jS", SStr, el), Eq(UF("jkind", SInt, el), Int(kStr))
		case SInt:
			lo, hi := intRange(et)
			p := UF("jI", SInt, el)
			proj, good = p, And(Eq(UF("jkind", SInt, el), Int(kInt)), leRaw(BigInt(lo), p), leRaw(p, BigInt(hi)))
		case SBool:
			proj, good = UF("jB", SBool, el), Eq(UF("jkind", SInt, el), Int(kBool))
		}
		if proj == nil {
			if pt, isP := et.Underlying().(*types.Pointer); isP && isStruct(pt.Elem()) && j.op != "uf" || isP && j.name != "jarr_"+sanitize(typeKey(et)) {
				// pointers to decoded structures of arbitrary content, nil for null
				kd := UF("jkind", SInt, el)
				good := Or(Eq(kd, Int(kObj)), Eq(kd, Int(kNull)))
				addFact(c, Forall(q, Imp(And(Le(Int(0), q), Lt(q, n)), Eq(Eq(sel, Null), Eq(kd, Int(kNull)))), sel))
				x.bumpAllocSmall()
				return And(isArr, x.freshT("jok", SBool), Forall(q, Imp(And(Le(Int(0), q), Lt(q, n)), good), el)), sv
			}
			unsup("json into []%s", et)
		}
		addFact(c, Forall(q, Imp(And(Le(Int(0), q), Lt(q, n)), Eq(sel, proj)), sel))
		// a null element leaves the zero value; only well-typed arrays are distinguished here
		ok := And(isArr, Forall(q, Imp(And(Le(Int(0), q), Lt(q, n)), good), el))
		if j.op == "uf" && j.name == "jarr_"+sanitize(typeKey(et)) {
			ok = True
		}
		return ok, sv
	}
	return x.freshT("jok", SBool), x.havocVal(st, t, "jv")
}

func (x *Exec) loadQ(st *State, arr, q *Term, et types.Type) Val {
	return x.load(st, elemAddr(arr, q, et), et)
}

// havocElems gives a fresh backing array arbitrary content (references inside may be to objects
// allocated by the decoder).
func (x *Exec) havocElems(st *State, arr *Term, et types.Type) {
	if isStruct(et) {
		return // nothing is known about fields of the fresh elements
	}
	if isArray(et) {
		return
	}
	x.bumpAllocSmall()
	for _, c := range comps(et) {
		k := "E:" + typeKey(et) + c.suffix
		m := st.memGet(k, SArr(SRef, SArr(SInt, c.sort)))
		v := x.freshT("jarr", SArr(SInt, c.sort))
		v.rootKnown, v.rootLo = true, -x.nextID
		st.memSet(k, Store(m, arr, v))
	}
}

func (x *Exec) jsetFields(st *State, fr *Frame, j *Term, a Val, t types.Type, u *types.Struct, i int, k func(*State, Val)) {
	base := x.ptrTerm(a)
	// a run of fields without decoders of their own is decoded in one step
	type upd struct {
		fa Val
		ft types.Type
		v  Val
	}
	var run []upd
	var conds []*Term
	i0 := i
	for ; i < u.NumFields(); i++ {
		n, ok := jsonName(u, i)
		if !ok {
			continue
		}
		ft := u.Field(i).Type()
		if mf := lookupMethod(x, types.NewPointer(ft), "UnmarshalJSON"); mf != nil && inRepo(mf) {
			break
		}
		_, isP := ft.Underlying().(*types.Pointer)
		if isP || isStruct(ft) || isArray(ft) {
			break
		}
		fa, ft := x.fieldAddr(st, base, t, i)
		old := x.load(st, fa, ft)
		has := jhas(j, n)
		if has == False {
			continue
		}
		jv := jget(j, n)
		isNull := Eq(jkind(jv), Int(kNull))
		dok, val := x.jdecode(st, jv, ft)
		nv := old
		switch ft.Underlying().(type) {
		case *types.Slice, *types.Map:
			nv = zeroVal(ft)
		}
		conds = append(conds, Imp(has, Or(isNull, dok)))
		run = append(run, upd{fa, ft, x.iteVal(has, x.iteVal(isNull, nv, val, ft), old, ft)})
	}
	if len(run) > 0 {
		next := i
		x.split(st, And(conds...), func(s *State) {
			for _, p := range run {
				x.store(s, p.fa, p.ft, p.v)
			}
			x.jsetFields(s, fr, j, a, t, u, next, k)
		}, func(s *State) {
			x.havocRest(s, base, t, u, i0)
			k(s, x.newErr())
		})
		return
	}
	for ; i < u.NumFields(); i++ {
		n, ok := jsonName(u, i)
		if !ok {
			continue
		}
		i := i
		fa, ft := x.fieldAddr(st, base, t, i)
		x.split(st, jhas(j, n), func(s *State) {
			x.junmarshal(s, fr, jget(j, n), fa, ft, func(s *State, err Val) {
				if err != nil {
					x.havocRest(s, base, t, u, i+1)
					k(s, err)
					return
				}
				x.jsetFields(s, fr, j, a, t, u, i+1, k)
			})
		}, func(s *State) { x.jsetFields(s, fr, j, a, t, u, i+1, k) })
		return
	}
	k(st, nil)
}

func (x *Exec) havocRest(st *State, base *Term, t types.Type, u *types.Struct, i int) {
	for ; i < u.NumFields(); i++ {
		if _, ok := jsonName(u, i); !ok {
			continue
		}
		fa, ft := x.fieldAddr(st, base, t, i)
		if isArray(ft) {
			continue
		}
		x.store(st, fa, ft, x.havocVal(st, ft, "jrest"))
	}
}

// sameJSON: the two values have the same JSON encoding (elements of marshalled slices).
func (x *Exec) sameJSON(st *State, a, b *IfaceV) *Term {
	sa, ok1 := a.dyn.(*SliceV)
	sb, ok2 := b.dyn.(*SliceV)
	if !ok1 || !ok2 {
		unsup("gvSameJSON of %T", a.dyn)
	}
	et := a.dynT.Underlying().(*types.Slice).Elem()
	nm := "jarr_" + sanitize(typeKey(et))
	if _, dec := st.ghost["jepochU:"+sa.arr.String()]; dec {
		sa, sb = sb, sa
	}
	ea, ok1 := st.ghost["jepoch:"+nm].(*Term)
	eb, ok2 := st.ghost["jepochU:"+sb.arr.String()].(*Term)
	if !ok1 || !ok2 {
		// nil slice or not the outcome of a decode
		return And(Eq(sa.len, Int(0)), Eq(sb.len, Int(0)))
	}
	q := BoundVar("i", SInt)
	l, r := UF("jrep", SJ, ea, ElemRef(sa.arr, Add(sa.off, q))), UF("jrep", SJ, eb, ElemRef(sb.arr, Add(sb.off, q)))
	return And(Eq(sa.len, sb.len), Forall(q, Imp(And(Le(Int(0), q), Lt(q, sa.len)), Eq(l, r))))
}
