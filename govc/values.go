package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"regexp"
	debugpkg "runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type SliceV struct{ arr, off, len, cap *Term }
type IfaceV struct {
	tag, ref *Term
	dyn      Val
	dynT     types.Type
}
type StructV struct {
	t types.Type
	f []Val
}
type ArrayV struct {
	t     *types.Array
	elems *Term
}
type TupleV []Val
type FuncV struct {
	fn    *ssa.Function
	binds []Val
	bi    *ssa.Builtin
}
type AddrV struct {
	kind string // field, elem, cell
	ref  *Term
	idx  *Term
	key  string
	typ  types.Type
}
type IterV struct {
	m   *Term
	mt  *types.Map
	str *Term
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) {
	if os.Getenv("GOVC_STACK") != "" {
		debugpkg.PrintStack()
	}
	panic(unsupported{fmt.Sprintf(f, a...)})
}

var typeKeyMemo = map[types.Type]string{}

// byte and uint8 (rune and int32) name the same type
var uint8Re = regexp.MustCompile(`(^|[^\w./])uint8($|[^\w])`)
var runeRe = regexp.MustCompile(`(^|[^\w./])rune($|[^\w])`)

// plainType is the type without alias names and parameter names, which do not distinguish types.
func plainType(t types.Type) types.Type {
	switch u := types.Unalias(t).(type) {
	case *types.Pointer:
		return types.NewPointer(plainType(u.Elem()))
	case *types.Slice:
		return types.NewSlice(plainType(u.Elem()))
	case *types.Array:
		return types.NewArray(plainType(u.Elem()), u.Len())
	case *types.Map:
		return types.NewMap(plainType(u.Key()), plainType(u.Elem()))
	case *types.Chan:
		return types.NewChan(u.Dir(), plainType(u.Elem()))
	case *types.Signature:
		tup := func(t *types.Tuple) *types.Tuple {
			var vs []*types.Var
			for i := 0; i < t.Len(); i++ {
				vs = append(vs, types.NewVar(token.NoPos, nil, "", plainType(t.At(i).Type())))
			}
			return types.NewTuple(vs...)
		}
		if u.TypeParams().Len() > 0 {
			return u
		}
		return types.NewSignatureType(nil, nil, nil, tup(u.Params()), tup(u.Results()), u.Variadic())
	default:
		return u
	}
}

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	if k, ok := typeKeyMemo[t]; ok {
		return k
	}
	k := types.TypeString(plainType(t), func(p *types.Package) string { return p.Path() })
	k = strings.ReplaceAll(k, "github.com/ConsenSys/fc-retrieval/", "")
	k = uint8Re.ReplaceAllString(k, "${1}byte${2}")
	k = runeRe.ReplaceAllString(k, "${1}int32${2}")
	typeKeyMemo[t] = k
	return k
}

func isBigInt(t types.Type) bool { return typeKey(t) == "math/big.Int" }
func isMutex(t types.Type) bool {
	k := typeKey(t)
	return k == "sync.Mutex" || k == "sync.RWMutex"
}
func isOpaqueStruct(t types.Type) bool {
	switch typeKey(t) {
	case "sync.WaitGroup", "sync.Once", "sync.Pool", "sync.Map", "sync/atomic.Value":
		return true
	}
	return false
}

func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }
func isArray(t types.Type) bool  { _, ok := t.Underlying().(*types.Array); return ok }

type comp struct {
	suffix string
	sort   Sort
}

// leaf components of a non-aggregate type
func comps(t types.Type) []comp {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []comp{{"", SBool}}
		case u.Info()&types.IsInteger != 0:
			return []comp{{"", SInt}}
		case u.Info()&types.IsString != 0:
			return []comp{{"", SStr}}
		case u.Info()&types.IsFloat != 0, u.Info()&types.IsComplex != 0:
			return []comp{{"", SF64}}
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return []comp{{"", SRef}}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []comp{{"", SRef}}
	case *types.Slice:
		return []comp{{".arr", SRef}, {".off", SInt}, {".len", SInt}, {".cap", SInt}}
	case *types.Interface:
		return []comp{{".tag", SInt}, {".ref", SRef}}
	case *types.Array:
		cs := comps(u.Elem())
		if len(cs) == 1 && !isStruct(u.Elem()) {
			return []comp{{"", SArr(SInt, cs[0].sort)}}
		}
	}
	unsup("comps of %s", t)
	return nil
}

func intRange(t types.Type) (*big.Int, *big.Int) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, nil
	}
	p := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	one := big.NewInt(1)
	s := func(n uint) (*big.Int, *big.Int) {
		return new(big.Int).Neg(p(n - 1)), new(big.Int).Sub(p(n-1), one)
	}
	u := func(n uint) (*big.Int, *big.Int) { return big.NewInt(0), new(big.Int).Sub(p(n), one) }
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return s(64)
	case types.Int32, types.UntypedRune:
		return s(32)
	case types.Int16:
		return s(16)
	case types.Int8:
		return s(8)
	case types.Uint, types.Uint64, types.Uintptr:
		return u(64)
	case types.Uint32:
		return u(32)
	case types.Uint16:
		return u(16)
	case types.Uint8:
		return u(8)
	}
	return nil, nil
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// assemble leaf terms to a value
func fromComps(t types.Type, ts []*Term) Val {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &SliceV{ts[0], ts[1], ts[2], ts[3]}
	case *types.Interface:
		return &IfaceV{tag: ts[0], ref: ts[1]}
	case *types.Array:
		return &ArrayV{u, ts[0]}
	}
	return ts[0]
}

func toComps(t types.Type, v Val) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *SliceV:
		return []*Term{x.arr, x.off, x.len, x.cap}
	case *IfaceV:
		return []*Term{x.tag, x.ref}
	case *ArrayV:
		return []*Term{x.elems}
	case *FuncV:
		return []*Term{funcRef(x)}
	case *AddrV:
		if x.kind == "cell" {
			return []*Term{x.ref}
		}
		unsup("address of %s escapes to memory", x.key)
	}
	unsup("toComps %T of %s", v, t)
	return nil
}

var funcRegs = map[*Term]*FuncV{}
var funcIDs = map[*FuncV]*Term{}
var funcIDsByFn = map[*ssa.Function]*Term{}

func funcRef(f *FuncV) *Term {
	if f.fn != nil && len(f.binds) == 0 {
		if t, ok := funcIDsByFn[f.fn]; ok {
			return t
		}
	}
	if t, ok := funcIDs[f]; ok {
		return t
	}
	t := Obj(int64(1000000000 + len(funcRegs)))
	funcRegs[t] = f
	funcIDs[f] = t
	if f.fn != nil && len(f.binds) == 0 {
		funcIDsByFn[f.fn] = t
	}
	return t
}

func zeroComp(s Sort) *Term {
	switch s {
	case SBool:
		return False
	case SInt:
		return Int(0)
	case SStr:
		return StrLit("")
	case SRef:
		return Null
	case SF64:
		return Var("f64_zero", SF64)
	}
	if strings.HasPrefix(s, "(Array") {
		return ConstArr(s, zeroComp(arrElemSort(s)))
	}
	panic("zeroComp " + s)
}

func zeroVal(t types.Type) Val {
	if isBigInt(t) {
		return &StructV{t, []Val{Int(0)}}
	}
	if isMutex(t) || isOpaqueStruct(t) {
		return &StructV{t, nil}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, zeroVal(u.Field(i).Type()))
		}
		return s
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, zeroVal(u.At(i).Type()))
		}
		return tv
	}
	if _, ok := t.(*types.Tuple); ok {
		unsup("zero tuple")
	}
	var ts []*Term
	for _, c := range comps(t) {
		ts = append(ts, zeroComp(c.sort))
	}
	return fromComps(t, ts)
}

// ---- type tags for interfaces
var typeTags = map[string]int64{}
var tagTypes = map[int64]types.Type{}

func typeTag(t types.Type) int64 {
	k := typeKey(t)
	if n, ok := typeTags[k]; ok {
		return n
	}
	n := int64(len(typeTags) + 1)
	typeTags[k] = n
	tagTypes[n] = t
	return n
}

// field ids
var fieldIDs = map[string]int{}

func fieldID(t types.Type, i int) int {
	k := fmt.Sprintf("%s#%d", typeKey(t), i)
	if n, ok := fieldIDs[k]; ok {
		return n
	}
	n := len(fieldIDs) + 1
	fieldIDs[k] = n
	return n
}

var globalIDs = map[*ssa.Global]int64{}

func globalRef(g *ssa.Global) *Term {
	id, ok := globalIDs[g]
	if !ok {
		id = int64(2000000000 + len(globalIDs))
		globalIDs[g] = id
	}
	return Obj(id)
}
