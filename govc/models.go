package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type mcall struct {
	x    *Exec
	st   *State
	fr   *Frame
	name string
	fn   *ssa.Function
	args []Val
	sig  *types.Signature
	pos  token.Pos
	k    func(*State, Val)
}

func (m *mcall) ret(vs ...Val) { m.k(m.st, packResults(vs)) }
func (m *mcall) t(i int) *Term {
	switch v := m.args[i].(type) {
	case *Term:
		return v
	case *AddrV:
		return v.ref
	case *FuncV:
		return funcRef(v)
	}
	unsup("%s: argument %d is %T", m.name, i, m.args[i])
	return nil
}
func (m *mcall) sl(i int) *SliceV {
	s, ok := m.args[i].(*SliceV)
	if !ok {
		unsup("%s: argument %d is %T", m.name, i, m.args[i])
	}
	return s
}
func (m *mcall) bytes(i int) *Term { return m.x.bytesOf(m.st, m.sl(i)) }

var nilErr = &IfaceV{tag: Int(0), ref: Null}

func (x *Exec) newErr() *IfaceV {
	return &IfaceV{tag: Int(typeTag(errT)), ref: x.newObj()}
}

// a stand-in dynamic type for errors made by the standard library
var errT types.Type = types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("errors", "errors"), "errorString", nil), types.NewStruct(nil, nil), nil))

var models = map[string]func(m *mcall){}

func (x *Exec) model(st *State, fr *Frame, name string, fn *ssa.Function, args []Val, sig *types.Signature, pos token.Pos, k func(*State, Val)) bool {
	f, ok := models[name]
	if !ok {
		return false
	}
	x.usedModels[name] = true
	f(&mcall{x, st, fr, name, fn, args, sig, pos, k})
	return true
}

func uf1(name string, res Sort, facts func(r, a *Term)) func(a *Term) *Term {
	mk := func(a *Term) *Term {
		r := UF(name, res, a)
		if facts != nil {
			facts(r, a)
		}
		return r
	}
	return mk
}

// ---- big.Int
func bigGet(st *State, r *Term) *Term {
	return Select(st.memGet("F:math/big.Int.val", SArr(SRef, SInt)), r)
}
func bigSet(st *State, r, v *Term) {
	m := st.memGet("F:math/big.Int.val", SArr(SRef, SInt))
	st.memSet("F:math/big.Int.val", Store(m, r, v))
}

func (m *mcall) nn(i int) {
	m.x.safety(m.st, m.fr, "nil-dereference", m.pos, Not(Eq(m.t(i), Null)))
}

func absT(a *Term) *Term { return Ite(Le(Int(0), a), a, Neg(a)) }

var pow256 = func(n int64) *Term { return BigInt(new(big.Int).Lsh(big.NewInt(1), uint(8*n))) }

func bcat(a, b *Term) *Term {
	r := UF("bcat", SBytes, a, b)
	if true {
		addFact(r, Eq(UF("blen", SInt, r), Add(blen(a), blen(b))))
		j := BoundVar("j", SInt)
		sel := bat(r, j)
		addFact(r, Forall(j, And(Imp(And(Le(Int(0), j), Lt(j, blen(a))), Eq(sel, bat(a, j))), Imp(And(Le(blen(a), j), Lt(j, Add(blen(a), blen(b)))), Eq(sel, bat(b, Sub(j, blen(a)))))), sel))
	}
	return r
}

func emptyBytes() *Term { return mkbytes(ConstArr(SArr(SInt, SInt), Int(0)), Int(0), Int(0)) }

func hexEnc(b *Term) *Term {
	if b.op == "uf" && b.name == "mkbytes" && b.args[2] == Int(0) {
		return StrLit("")
	}
	r := UF("hexEnc", SStr, b)
	if true {
		addFact(r, UF("hexOK", SBool, r))
		addFact(r, Eq(UF("hexDec", SBytes, r), b))
		addFact(r, Eq(slen(r), Mul(Int(2), blen(b))))
	}
	return r
}
func hexOK(s *Term) *Term {
	if s.op == "uf" && s.name == "hexEnc" {
		return True
	}
	if s.op == "lit" {
		v := litVals[s]
		ok := len(v)%2 == 0
		for _, c := range v {
			if !strings.ContainsRune("0123456789abcdefABCDEF", c) {
				ok = false
			}
		}
		return BoolT(ok)
	}
	return UF("hexOK", SBool, s)
}
func hexDec(s *Term) *Term {
	if s.op == "uf" && s.name == "hexEnc" {
		return s.args[0]
	}
	r := UF("hexDec", SBytes, s)
	if true {
		addFact(r, Imp(UF("hexOK", SBool, s), Eq(Mul(Int(2), blen(r)), slen(s))))
	}
	return r
}

func init() {
	ufAxioms["hexEnc"] = []string{
		"(forall ((b Bytes)) (! (and (hexOK (hexEnc b)) (= (hexDec (hexEnc b)) b) (= (slen (hexEnc b)) (* 2 (blen b)))) :pattern ((hexEnc b))))",
	}
	ufAxiomDeps["hexEnc"] = []string{"hexOK", "hexDec", "slen", "blen"}
	d := Var("dummy_b", SBytes)
	s := Var("dummy_s", SStr)
	UF("hexEnc", SStr, d)
	UF("hexOK", SBool, s)
	UF("hexDec", SBytes, s)
	UF("b64Enc", SStr, d)
	UF("b64OK", SBool, s)
	UF("b64Dec", SBytes, s)
	ufAxioms["b64Enc"] = []string{"(forall ((b Bytes)) (! (and (b64OK (b64Enc b)) (= (b64Dec (b64Enc b)) b)) :pattern ((b64Enc b))))"}
	ufAxiomDeps["b64Enc"] = []string{"b64OK", "b64Dec"}

	reg := func(names string, f func(m *mcall)) {
		for _, n := range strings.Fields(names) {
			models[n] = f
		}
	}
	// errors
	reg("errors.New", func(m *mcall) { m.ret(m.x.newErr()) })
	reg("fmt.Errorf", func(m *mcall) { m.ret(m.x.newErr()) })
	reg("errors.Is", func(m *mcall) { m.ret(m.x.freshT("erris", SBool)) })
	reg("fmt.Sprintf fmt.Sprint fmt.Sprintln (error).Error", func(m *mcall) { m.ret(m.x.freshT("str", SStr)) })
	reg("fmt.Printf fmt.Println fmt.Print fmt.Fprintf", func(m *mcall) { m.ret(m.x.havocVal(m.st, types.Typ[types.Int], "n"), nilErr) })

	// hex / base64
	reg("encoding/hex.EncodeToString", func(m *mcall) { m.ret(hexEnc(m.bytes(0))) })
	reg("encoding/hex.DecodeString", func(m *mcall) {
		s := m.t(0)
		m.x.split(m.st, hexOK(s), func(st *State) {
			m.k(st, TupleV{m.x.sliceOfBytes(st, hexDec(s), false), nilErr})
		}, func(st *State) {
			m.k(st, TupleV{m.x.havocVal(st, byteSlice, "hexpart"), m.x.newErr()})
		})
	})
	b64name := "(*encoding/base64.Encoding)."
	reg(b64name+"EncodeToString", func(m *mcall) {
		b := m.bytes(1)
		r := UF("b64Enc", SStr, b)
		if true {
			addFact(r, UF("b64OK", SBool, r))
			addFact(r, Eq(UF("b64Dec", SBytes, r), b))
		}
		m.ret(r)
	})
	reg(b64name+"DecodeString", func(m *mcall) {
		s := m.t(1)
		ok := UF("b64OK", SBool, s)
		d := UF("b64Dec", SBytes, s)
		m.x.split(m.st, ok, func(st *State) {
			m.k(st, TupleV{m.x.sliceOfBytes(st, d, false), nilErr})
		}, func(st *State) {
			m.k(st, TupleV{m.x.havocVal(st, byteSlice, "b64part"), m.x.newErr()})
		})
	})

	// encoding/binary big endian
	put := func(n int64) func(m *mcall) {
		return func(m *mcall) {
			s := m.sl(len(m.args) - 2)
			v := m.t(len(m.args) - 1)
			m.x.safety(m.st, m.fr, "index-out-of-range", m.pos, Le(Int(n), s.len))
			mem := m.st.memGet("E:byte", SArr(SRef, SArr(SInt, SInt)))
			a := Select(mem, s.arr)
			for i := int64(0); i < n; i++ {
				b := ModE(DivE(v, pow256(n-1-i)), Int(256))
				a = Store(a, Add(s.off, Int(i)), b)
			}
			m.st.memSet("E:byte", Store(mem, s.arr, a))
			m.ret()
		}
	}
	get := func(n int64) func(m *mcall) {
		return func(m *mcall) {
			s := m.sl(len(m.args) - 1)
			m.x.safety(m.st, m.fr, "index-out-of-range", m.pos, Le(Int(n), s.len))
			mem := m.st.memGet("E:byte", SArr(SRef, SArr(SInt, SInt)))
			a := Select(mem, s.arr)
			var ts []*Term
			for i := int64(0); i < n; i++ {
				e := Select(a, Add(s.off, Int(i)))
				m.x.bound(m.st, e, zeroBig, b255)
				ts = append(ts, Mul(pow256(n-1-i), e))
			}
			r := beSum(ts, n)
			if r.op == "mod" && r.args[1] == pow256(n) {
				v := r.args[0]
				if in := And(Le(Int(0), v), Lt(v, pow256(n))); m.st.known(in) || quickCheck(append(m.st.pcTerms(), Not(in))) == "unsat" {
					r = v
				}
			}
			m.ret(r)
		}
	}
	reg("(encoding/binary.bigEndian).PutUint32", put(4))
	reg("(encoding/binary.bigEndian).PutUint64", put(8))
	reg("(encoding/binary.bigEndian).PutUint16", put(2))
	reg("(encoding/binary.bigEndian).Uint32", get(4))
	reg("(encoding/binary.bigEndian).Uint64", get(8))
	reg("(encoding/binary.bigEndian).Uint16", get(2))

	// bytes
	reg("bytes.Equal", func(m *mcall) { m.ret(Eq(m.bytes(0), m.bytes(1))) })
	reg("bytes.Compare", func(m *mcall) {
		a, b := m.bytes(0), m.bytes(1)
		r := UF("bcmp", SInt, a, b)
		r.lo, r.hi = big.NewInt(-1), big.NewInt(1)
		addFact(r, Eq(Eq(r, Int(0)), Eq(a, b)))
		m.ret(r)
	})

	// math/big
	B := "(*math/big.Int)."
	reg("math/big.NewInt", func(m *mcall) {
		r := m.x.newObj()
		bigSet(m.st, r, m.t(0))
		m.ret(r)
	})
	bin := func(f func(a, b *Term) *Term) func(m *mcall) {
		return func(m *mcall) {
			m.nn(0)
			m.nn(1)
			m.nn(2)
			bigSet(m.st, m.t(0), f(bigGet(m.st, m.t(1)), bigGet(m.st, m.t(2))))
			m.ret(m.t(0))
		}
	}
	reg(B+"Add", bin(func(a, b *Term) *Term { return Add(a, b) }))
	reg(B+"Sub", bin(func(a, b *Term) *Term { return Sub(a, b) }))
	reg(B+"Mul", bin(func(a, b *Term) *Term { return Mul(a, b) }))
	reg(B+"Set", func(m *mcall) {
		m.nn(0)
		m.nn(1)
		bigSet(m.st, m.t(0), bigGet(m.st, m.t(1)))
		m.ret(m.t(0))
	})
	reg(B+"Neg", func(m *mcall) {
		m.nn(0)
		m.nn(1)
		bigSet(m.st, m.t(0), Neg(bigGet(m.st, m.t(1))))
		m.ret(m.t(0))
	})
	reg(B+"SetUint64 "+B+"SetInt64", func(m *mcall) {
		m.nn(0)
		bigSet(m.st, m.t(0), m.t(1))
		m.ret(m.t(0))
	})
	reg(B+"Cmp", func(m *mcall) {
		m.nn(0)
		m.nn(1)
		a, b := bigGet(m.st, m.t(0)), bigGet(m.st, m.t(1))
		m.ret(Ite(Lt(a, b), Int(-1), Ite(Eq(a, b), Int(0), Int(1))))
	})
	reg(B+"Sign", func(m *mcall) {
		m.nn(0)
		a := bigGet(m.st, m.t(0))
		m.ret(Ite(Lt(a, Int(0)), Int(-1), Ite(Eq(a, Int(0)), Int(0), Int(1))))
	})
	reg(B+"IsInt64 "+B+"IsUint64", func(m *mcall) {
		a := bigGet(m.st, m.t(0))
		lo, hi := intRange(types.Typ[types.Int64])
		if strings.HasSuffix(m.name, "IsUint64") {
			lo, hi = intRange(types.Typ[types.Uint64])
		}
		m.ret(And(Le(BigInt(lo), a), Le(a, BigInt(hi))))
	})
	reg(B+"Int64", func(m *mcall) { m.nn(0); m.ret(wrap(bigGet(m.st, m.t(0)), types.Typ[types.Int64])) })
	reg(B+"Uint64", func(m *mcall) { m.nn(0); m.ret(wrap(bigGet(m.st, m.t(0)), types.Typ[types.Uint64])) })
	reg(B+"String", func(m *mcall) {
		v := bigGet(m.st, m.t(0))
		r := UF("bigdec", SStr, v)
		if true {
			addFact(r, UF("isdec", SBool, r))
			addFact(r, Eq(UF("decval", SInt, r), v))
		}
		m.ret(r)
	})
	reg(B+"SetString", func(m *mcall) {
		m.nn(0)
		s := m.t(1)
		if s.op == "lit" && m.t(2).op == "#" {
			if n, ok := new(big.Int).SetString(litVals[s], int(m.t(2).num.Int64())); ok {
				bigSet(m.st, m.t(0), BigInt(n))
				m.k(m.st, TupleV{m.t(0), True})
				return
			}
		}
		ok := UF("isnum", SBool, s, m.t(2))
		v := UF("numval", SInt, s, m.t(2))
		r := m.t(0)
		m.x.split(m.st, ok, func(st *State) {
			bigSet(st, r, v)
			m.k(st, TupleV{r, True})
		}, func(st *State) {
			bigSet(st, r, m.x.freshT("undef", SInt))
			m.k(st, TupleV{Null, False})
		})
	})
	reg(B+"Bytes", func(m *mcall) {
		m.nn(0)
		v := absT(bigGet(m.st, m.t(0)))
		b := UF("bigbytes", SBytes, v)
		if true {
			addFact(b, Eq(UF("bigval", SInt, b), v))
			n := blen(b)
			// length bounds against powers of 256 for the word sizes used
			for _, w := range []int64{0, 1, 4, 8, 31, 32} {
				addFact(b, Eq(Le(n, Int(w)), Lt(v, pow256(w))))
			}
		}
		m.ret(m.x.sliceOfBytes(m.st, b, false))
	})
	reg(B+"SetBytes", func(m *mcall) {
		m.nn(0)
		b := m.bytes(1)
		v := UF("bigval", SInt, b)
		v.lo = zeroBig
		for _, w := range []int64{1, 4, 8, 32} {
			addFact(v, Imp(Le(blen(b), Int(w)), Lt(v, pow256(w))))
		}
		bigSet(m.st, m.t(0), v)
		m.ret(m.t(0))
	})

	// hashing
	newHash := func(alg string) func(m *mcall) {
		return func(m *mcall) {
			r := m.x.newObj()
			g := m.st.memGet("G:hash", SArr(SRef, SBytes))
			m.st.memSet("G:hash", Store(g, r, emptyBytes()))
			ga := m.st.memGet("G:hashalg", SArr(SRef, SStr))
			m.st.memSet("G:hashalg", Store(ga, r, StrLit(alg)))
			iv := &IfaceV{tag: Int(typeTag(hashT(alg))), ref: r}
			if m.sig.Results().Len() == 2 {
				m.ret(iv, nilErr)
			} else {
				m.ret(iv)
			}
		}
	}
	reg("crypto/sha256.New", newHash("sha256"))
	reg("golang.org/x/crypto/blake2b.New256 github.com/minio/blake2b-simd.New256", newHash("blake2b256"))
	reg("(hash.Hash).Write (io.Writer).Write", func(m *mcall) {
		iv := m.args[0].(*IfaceV)
		g := m.st.memGet("G:hash", SArr(SRef, SBytes))
		b := m.bytes(1)
		m.st.memSet("G:hash", Store(g, iv.ref, bcatS(Select(g, iv.ref), b)))
		m.ret(m.sl(1).len, nilErr)
	})
	reg("(hash.Hash).Sum", func(m *mcall) {
		iv := m.args[0].(*IfaceV)
		g := m.st.memGet("G:hash", SArr(SRef, SBytes))
		ga := m.st.memGet("G:hashalg", SArr(SRef, SStr))
		p := m.sl(1)
		h := hashOf(Select(ga, iv.ref), Select(g, iv.ref))
		if p.len != Int(0) {
			h = bcatS(m.x.bytesOf(m.st, p), h)
		}
		m.ret(m.x.sliceOfBytes(m.st, h, false))
	})
	sum := func(alg string) func(m *mcall) {
		return func(m *mcall) {
			h := hashOf(StrLit(alg), m.bytes(0))
			au := m.sig.Results().At(0).Type().Underlying().(*types.Array)
			m.ret(&ArrayV{au, UF("barr", SArr(SInt, SInt), h)})
		}
	}
	reg("golang.org/x/crypto/blake2b.Sum256", sum("blake2b256"))
	reg("crypto/sha512.Sum512_256", sum("sha512_256"))
	reg("crypto/sha256.Sum256", sum("sha256"))

	// time

	// sync
	lock := func(write, acquire bool) func(m *mcall) {
		return func(m *mcall) {
			r := m.t(0)
			mem := m.st.memGet("LOCK", SArr(SRef, SInt))
			cur := Select(mem, r)
			x := m.x
			ob := func(what string, g *Term) {
				if x.cur != nil && x.cur.Locks != "" && !m.fr.spec && x.pureDepth == 0 {
					x.oblige(m.st, m.fr, x.cur.Locks, what+"@"+shortFn(m.fr.fn), m.pos, g)
					m.st.assume(g)
				}
			}
			var nv *Term
			switch {
			case write && acquire:
				ob("lock-free-before-Lock", Eq(cur, Int(0)))
				nv = Int(-1)
			case write:
				ob("held-at-Unlock", Eq(cur, Int(-1)))
				nv = Int(0)
			case acquire:
				ob("no-self-deadlock-at-RLock", Eq(cur, Int(0)))
				nv = Add(cur, Int(1))
			default:
				ob("held-at-RUnlock", Lt(Int(0), cur))
				nv = Sub(cur, Int(1))
			}
			k := m.k
			if acquire {
				m.st.memSet("LOCK", Store(mem, r, nv))
				x.interfere(m.st, m.fr, r, false, func(s *State) { k(s, TupleV{}) })
				return
			}
			x.interfere(m.st, m.fr, r, true, func(s *State) {
				s.memSet("LOCK", Store(s.memGet("LOCK", mem.sort), r, nv))
				k(s, TupleV{})
			})
		}
	}
	reg("(*sync.Mutex).Lock (*sync.RWMutex).Lock", lock(true, true))
	reg("(*sync.Mutex).Unlock (*sync.RWMutex).Unlock", lock(true, false))
	reg("(*sync.RWMutex).RLock", lock(false, true))
	reg("(*sync.RWMutex).RUnlock", lock(false, false))
	reg("(*sync.WaitGroup).Add (*sync.WaitGroup).Done (*sync.WaitGroup).Wait", func(m *mcall) { m.ret() })

	// strings
	reg("strings.ToLower", func(m *mcall) {
		s := m.t(0)
		if s.op == "lit" {
			m.ret(StrLit(strings.ToLower(litVals[s])))
			return
		}
		r := UF("tolower", SStr, s)
		if true {
			addFact(r, Eq(UF("tolower", SStr, r), r))
		}
		m.ret(r)
	})
	reg("strings.Compare", func(m *mcall) {
		a, b := m.t(0), m.t(1)
		m.ret(Ite(Eq(a, b), Int(0), Ite(slt(a, b), Int(-1), Int(1))))
	})
	reg("strings.Repeat", func(m *mcall) {
		m.x.safety(m.st, m.fr, "negative-repeat", m.pos, Le(Int(0), m.t(1)))
		m.ret(UF("srepeat", SStr, m.t(0), m.t(1)))
	})
	for _, n := range []string{"strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.EqualFold"} {
		n := n
		reg(n, func(m *mcall) { m.ret(UF(n, SBool, m.t(0), m.t(1))) })
	}
	reg("strconv.Itoa", func(m *mcall) { m.ret(UF("itoa", SStr, m.t(0))) })
	reg("math/rand.Int63", func(m *mcall) {
		r := m.x.freshT("rnd", SInt)
		r.lo, r.hi = zeroBig, new(big.Int).SetInt64(1<<62)
		m.ret(r)
	})
	reg("reflect.TypeOf", func(m *mcall) { m.ret(m.x.havocVal(m.st, m.sig.Results().At(0).Type(), "rtype")) })
}

func hashT(alg string) types.Type {
	return types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("hash", "hash"), "digest_"+alg, nil), types.NewStruct(nil, nil), nil))
}

func bcatS(a, b *Term) *Term {
	if a.op == "uf" && a.name == "mkbytes" && a.args[2] == Int(0) {
		return b
	}
	if b.op == "uf" && b.name == "mkbytes" && b.args[2] == Int(0) {
		return a
	}
	return bcat(a, b)
}

func hashOf(alg, b *Term) *Term {
	h := UF("hash", SBytes, alg, b)
	if true {
		addFact(h, Eq(UF("blen", SInt, h), Int(32)))
	}
	return h
}

// beSum: big-endian sum; recognises the byte decomposition of a value.
func beSum(ts []*Term, n int64) *Term {
	// e_i = (v / 256^(n-1-i)) mod 256
	var v *Term
	ok := true
	for i, t := range ts {
		e := t
		if i != len(ts)-1 {
			if e.op == "*" && e.args[0].op == "#" {
				e = e.args[1]
			} else {
				ok = false
				break
			}
		}
		if e.op != "mod" && !(i == 0 && e.op == "div") {
			ok = false
			break
		}
		w := e
		if e.op == "mod" {
			if e.args[1] != Int(256) {
				ok = false
				break
			}
			w = e.args[0]
		}
		if i != len(ts)-1 {
			if w.op != "div" || w.args[1] != pow256(n-1-int64(i)) {
				ok = false
				break
			}
			w = w.args[0]
		}
		if v == nil {
			v = w
		} else if v != w {
			ok = false
			break
		}
	}
	if ok && v != nil && v.lo != nil && v.lo.Sign() >= 0 && v.hi != nil && v.hi.Cmp(pow256(n).num) < 0 {
		return v
	}
	if ok && v != nil {
		return ModE(v, pow256(n))
	}
	return Add(ts...)
}

var byteSlice = types.NewSlice(types.Typ[types.Byte])
