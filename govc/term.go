package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sorts are SMT-LIB sort strings.
type Sort = string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SStr   Sort = "Str"
	SBytes Sort = "Bytes"
	SRef   Sort = "Ref"
	SF64   Sort = "F64"
	SJ     Sort = "J"
)

func SArr(k, v Sort) Sort { return "(Array " + k + " " + v + ")" }

// Term is a hash-consed SMT term.
type Term struct {
	id   int
	op   string // operator, or "#" int const, "$" variable, "lit" string literal, "true"/"false"
	name string // variable / uf name
	num  *big.Int
	args []*Term
	sort Sort
	// bounds for Int terms (nil = unknown)
	lo, hi *big.Int
	// rootLo: for Ref terms: a known lower bound for rootid (valid if rootKnown)
	rootKnown bool
	rootLo    int64
	hasBound  bool // contains a bound (quantified) variable
	bvs       map[*Term]bool
	size      int
}

var termTab = map[string]*Term{}
var termSeq int

func intern(op, name string, num *big.Int, sort_ Sort, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	if num != nil {
		b.WriteString(num.String())
	}
	b.WriteByte('|')
	b.WriteString(sort_)
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{id: termSeq, op: op, name: name, num: num, args: args, sort: sort_, size: 1}
	for _, a := range args {
		t.size += a.size
		if a.hasBound {
			t.hasBound = true
			for v := range a.bvs {
				if op == "forall" || op == "exists" {
					if v == args[0] {
						continue
					}
				}
				if t.bvs == nil {
					t.bvs = map[*Term]bool{}
				}
				t.bvs[v] = true
			}
		}
	}
	if t.hasBound && len(t.bvs) == 0 {
		t.hasBound = false
	}
	computeAttrs(t)
	termTab[k] = t
	return t
}

func computeAttrs(t *Term) {
	if t.sort == SInt {
		t.lo, t.hi = bounds(t)
	}
	if t.sort == SRef || strings.HasSuffix(t.sort, "Ref)") || strings.HasSuffix(t.sort, "Ref))") {
		both := func(a, b *Term) {
			if a.rootKnown && b.rootKnown {
				t.rootKnown = true
				t.rootLo = a.rootLo
				if b.rootLo < t.rootLo {
					t.rootLo = b.rootLo
				}
			}
		}
		switch t.op {
		case "obj":
			if t.args[0].op == "#" && t.args[0].num.IsInt64() {
				t.rootKnown, t.rootLo = true, t.args[0].num.Int64()
			}
		case "null":
			t.rootKnown, t.rootLo = true, 1<<62
		case "select":
			m, k := t.args[0], t.args[1]
			if m.rootKnown && (k.sort != SRef || k.rootKnown && k.rootLo >= m.rootLo) {
				t.rootKnown, t.rootLo = true, m.rootLo
			}
		case "sub", "elem", "constarr":
			t.rootKnown, t.rootLo = t.args[0].rootKnown, t.args[0].rootLo
		case "ite":
			both(t.args[1], t.args[2])
		case "store":
			both(t.args[0], t.args[2])
		}
	}
}

func bounds(t *Term) (*big.Int, *big.Int) {
	switch t.op {
	case "#":
		return t.num, t.num
	case "+":
		var lo, hi *big.Int = big.NewInt(0), big.NewInt(0)
		for _, a := range t.args {
			if lo != nil && a.lo != nil {
				lo = new(big.Int).Add(lo, a.lo)
			} else {
				lo = nil
			}
			if hi != nil && a.hi != nil {
				hi = new(big.Int).Add(hi, a.hi)
			} else {
				hi = nil
			}
		}
		return lo, hi
	case "-":
		a, b := t.args[0], t.args[1]
		var lo, hi *big.Int
		if a.lo != nil && b.hi != nil {
			lo = new(big.Int).Sub(a.lo, b.hi)
		}
		if a.hi != nil && b.lo != nil {
			hi = new(big.Int).Sub(a.hi, b.lo)
		}
		return lo, hi
	case "*":
		a, b := t.args[0], t.args[1]
		if a.op != "#" {
			a, b = b, a
		}
		if a.op == "#" && b.lo != nil && b.hi != nil {
			x, y := new(big.Int).Mul(a.num, b.lo), new(big.Int).Mul(a.num, b.hi)
			if x.Cmp(y) > 0 {
				x, y = y, x
			}
			return x, y
		}
	case "mod":
		if t.args[1].op == "#" && t.args[1].num.Sign() > 0 {
			return big.NewInt(0), new(big.Int).Sub(t.args[1].num, big.NewInt(1))
		}
	case "div":
		if t.args[1].op == "#" && t.args[1].num.Sign() > 0 {
			var lo, hi *big.Int
			d := t.args[1].num
			if t.args[0].lo != nil {
				lo = floorDiv(t.args[0].lo, d)
			}
			if t.args[0].hi != nil {
				hi = floorDiv(t.args[0].hi, d)
			}
			return lo, hi
		}
	case "ite":
		a, b := t.args[1], t.args[2]
		var lo, hi *big.Int
		if a.lo != nil && b.lo != nil {
			lo = a.lo
			if b.lo.Cmp(lo) < 0 {
				lo = b.lo
			}
		}
		if a.hi != nil && b.hi != nil {
			hi = a.hi
			if b.hi.Cmp(hi) > 0 {
				hi = b.hi
			}
		}
		return lo, hi
	case "uf":
		switch t.name {
		case "blen", "slen", "card":
			return big.NewInt(0), maxLen
		case "rootid":
			return nil, nil
		}
	}
	return t.lo, t.hi
}

var maxLen = new(big.Int).Lsh(big.NewInt(1), 48)

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean; b>0 => floor
	return q
}

var True = intern("true", "", nil, SBool)
var False = intern("false", "", nil, SBool)
var Null = intern("null", "", nil, SRef)

func Int(i int64) *Term       { return intern("#", "", big.NewInt(i), SInt) }
func BigInt(i *big.Int) *Term { return intern("#", "", new(big.Int).Set(i), SInt) }
func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

var freshSeq = map[string]int{}

// Var makes a named constant.
func Var(name string, s Sort) *Term { return intern("$", name, nil, s) }

func Fresh(prefix string, s Sort) *Term {
	freshSeq[prefix]++
	return Var(sanitize(fmt.Sprintf("%s!%d", prefix, freshSeq[prefix])), s)
}

func FreshInt(prefix string, lo, hi *big.Int) *Term {
	t := Fresh(prefix, SInt)
	t.lo, t.hi = lo, hi
	return t
}

func BoundVar(prefix string, s Sort) *Term {
	t := Fresh("q_"+prefix, s)
	t.hasBound = true
	t.bvs = map[*Term]bool{t: true}
	return t
}

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

type litInfo struct {
	t *Term
	s string
}

var strLits = map[string]*Term{}

func StrLit(s string) *Term {
	if t, ok := strLits[s]; ok {
		return t
	}
	t := intern("lit", fmt.Sprintf("lit%d", len(strLits)), nil, SStr)
	strLits[s] = t
	litVals[t] = s
	return t
}

var litVals = map[*Term]string{}

type ufDecl struct {
	name string
	args []Sort
	res  Sort
}

var ufs = map[string]*ufDecl{}

// UF applies an uninterpreted function.
func UF(name string, res Sort, args ...*Term) *Term {
	name = sanitize(name)
	if _, ok := ufs[name]; !ok {
		d := &ufDecl{name: name, res: res}
		for _, a := range args {
			d.args = append(d.args, a.sort)
		}
		ufs[name] = d
	} else {
		d := ufs[name]
		if len(d.args) != len(args) || d.res != res {
			panic("UF signature mismatch " + name)
		}
		for i := range args {
			if d.args[i] != args[i].sort {
				panic(fmt.Sprintf("UF %s arg %d sort %s want %s", name, i, args[i].sort, d.args[i]))
			}
		}
	}
	r := intern("uf", name, nil, res, args...)
	if r.lo == nil && name == "blen" {
		r.lo = zeroBig
		if args[0].op == "uf" && args[0].name == "jtext" {
			r.lo = big.NewInt(1)
		}
		addFact(r, leRaw(BigInt(r.lo), r))
	}
	return r
}

func (t *Term) isConst() bool { return t.op == "#" }

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.op == "not":
		return a.args[0]
	}
	return intern("not", "", nil, SBool, a)
}

func And(ts ...*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == False {
			return false
		}
		if t == True || seen[t] {
			return true
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern("and", "", nil, SBool, out...)
}

func Or(ts ...*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, t := range ts {
		if t == True {
			return True
		}
		var as []*Term
		if t.op == "or" {
			as = t.args
		} else {
			as = []*Term{t}
		}
		for i := 0; i < len(as); i++ {
			a := as[i]
			if a == False || seen[a] {
				continue
			}
			if a.op == "and" {
				if b := absorb(a, out); b != a {
					if b == True {
						return True
					}
					if b.op == "or" {
						as = append(as[:len(as):len(as)], b.args...)
						continue
					}
					a = b
					if a == False || seen[a] {
						continue
					}
				}
			}
			if seen[Not(a)] {
				return True
			}
			seen[a] = true
			out = append(out, a)
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern("or", "", nil, SBool, out...)
}

// absorb drops from the conjunction a (a disjunct next to ds) the conjuncts that only say a disjunct of ds is false.
func absorb(a *Term, ds []*Term) *Term {
	drop := map[*Term]bool{}
	has := map[*Term]bool{}
	for _, c := range a.args {
		has[c] = true
	}
	for _, d := range ds {
		nd := Not(d)
		cs := []*Term{nd}
		if nd.op == "and" {
			cs = nd.args
		}
		all := true
		for _, c := range cs {
			all = all && has[c]
		}
		if all {
			for _, c := range cs {
				drop[c] = true
			}
		}
	}
	if len(drop) == 0 {
		return a
	}
	var out []*Term
	for _, c := range a.args {
		if !drop[c] {
			out = append(out, c)
		}
	}
	return And(out...)
}

func Imp(a, b *Term) *Term { return Or(Not(a), b) }

// refDistinct: syntactic proof that two Ref terms differ.
func refDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if b.op == "uf" && b.name == "rootany" {
		a, b = b, a
	}
	if a.op == "uf" && a.name == "rootany" {
		if b.op == "null" {
			return true
		}
		r, ok := exactRoot(a.args[0])
		if !ok {
			return false
		}
		if e, ok := exactRoot(b); ok {
			return e != r
		}
		return b.rootKnown && r < b.rootLo
	}
	isC := func(t *Term) bool { return t.op == "obj" || t.op == "null" || t.op == "sub" || t.op == "elem" }
	if isC(a) && isC(b) {
		if a.op != b.op {
			return true
		}
		switch a.op {
		case "obj":
			return a.args[0].op == "#" && b.args[0].op == "#" && a.args[0] != b.args[0]
		case "sub":
			return a.args[1] != b.args[1] || refDistinct(a.args[0], b.args[0])
		case "elem":
			if a.args[1].op == "#" && b.args[1].op == "#" && a.args[1] != b.args[1] {
				return true
			}
			return refDistinct(a.args[0], b.args[0])
		}
	}
	if a.op == "ite" {
		return refDistinct(a.args[1], b) && refDistinct(a.args[2], b)
	}
	if b.op == "ite" {
		return refDistinct(a, b.args[1]) && refDistinct(a, b.args[2])
	}
	// freshness: exact root of one is below lower bound of the other
	ea, oka := exactRoot(a)
	eb, okb := exactRoot(b)
	if oka && b.rootKnown && ea < b.rootLo {
		return true
	}
	if okb && a.rootKnown && eb < a.rootLo {
		return true
	}
	return false
}

func exactRoot(t *Term) (int64, bool) {
	for t.op == "sub" || t.op == "elem" || t.op == "uf" && t.name == "rootany" {
		t = t.args[0]
	}
	if t.op == "obj" && t.args[0].op == "#" && t.args[0].num.IsInt64() {
		return t.args[0].num.Int64(), true
	}
	return 0, false
}

// eqCtor decides equalities between terms built by the (free) JSON constructors.
func eqCtor(a, b *Term) *Term {
	if a.sort == SBytes {
		if a.op == "uf" && b.op == "uf" && a.name == "jtext" && b.name == "jtext" {
			return Eq(a.args[0], b.args[0])
		}
		return nil
	}
	if a.op == "ite" {
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if b.op == "ite" {
		return Ite(b.args[0], Eq(a, b.args[1]), Eq(a, b.args[2]))
	}
	ka, ok1 := jkindOf(a)
	kb, ok2 := jkindOf(b)
	if !ok1 || !ok2 {
		return nil
	}
	if e := Eq(ka, kb); e == False {
		return False
	}
	if a.name != b.name || len(a.args) != len(b.args) {
		return nil
	}
	switch {
	case a.name == "jstr" || a.name == "jint" || a.name == "jbool" || a.name == "jb64":
		return Eq(a.args[0], b.args[0])
	case strings.HasPrefix(a.name, "jobj_"):
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	case strings.HasPrefix(a.name, "jarr_") && len(a.args) == 3 && strings.HasPrefix(a.args[0].sort, "(Array Int"):
		// arrays of scalars are equal when their elements are
		q := BoundVar("i", SInt)
		x, y := Select(a.args[0], Add(a.args[1], q)), Select(b.args[0], Add(b.args[1], q))
		return And(Eq(a.args[2], b.args[2]), Forall(q, Imp(And(Le(Int(0), q), Lt(q, a.args[2])), Eq(x, y)), x, y))
	}
	return nil
}

func Eq(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %s %s (%s, %s)", a.sort, b.sort, a.String(), b.String()))
	}
	if a == b {
		return True
	}
	switch a.sort {
	case SBool:
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	case SInt:
		if a.op == "#" && b.op == "#" {
			return False
		}
		if a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) > 0 || b.lo != nil && a.hi != nil && b.lo.Cmp(a.hi) > 0 {
			return False
		}
		// x + c1 == c2
		if a.op == "#" {
			a, b = b, a
		}
		if b.op == "#" && a.op == "ite" && a.args[1].op == "#" && a.args[2].op == "#" {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
	case SStr:
		if a.op == "lit" && b.op == "lit" {
			return False
		}
	case SRef:
		if refDistinct(a, b) {
			return False
		}
		if a.op == b.op && a.op == "obj" {
			return Eq(a.args[0], b.args[0])
		}
		if a.op == b.op && (a.op == "sub" || a.op == "elem") {
			return And(Eq(a.args[0], b.args[0]), Eq(a.args[1], b.args[1]))
		}
	}
	if a.sort == SJ || a.sort == SBytes {
		if r := eqCtor(a, b); r != nil {
			return r
		}
	}
	if a.op == "ite" && (a.args[1] == b || a.args[2] == b) {
		if a.args[1] == b {
			return Or(a.args[0], Eq(a.args[2], b))
		}
		return Or(Not(a.args[0]), Eq(a.args[1], b))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern("=", "", nil, SBool, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if a.sort == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	return intern("ite", "", nil, a.sort, c, a, b)
}

func Add(ts ...*Term) *Term {
	c := big.NewInt(0)
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == "#" {
			c = new(big.Int).Add(c, t.num)
		} else if t.op == "+" {
			for _, a := range t.args {
				add(a)
			}
		} else {
			out = append(out, t)
		}
	}
	for _, t := range ts {
		add(t)
	}
	// cancel x and (- 0 x) / (* -1 x)
	for i := 0; i < len(out); i++ {
		for j := 0; j < len(out); j++ {
			if i != j && out[i].op == "*" && out[i].args[0].op == "#" && out[i].args[0].num.Cmp(big.NewInt(-1)) == 0 && out[i].args[1] == out[j] {
				lo, hi := i, j
				if lo > hi {
					lo, hi = hi, lo
				}
				out = append(out[:hi], out[hi+1:]...)
				out = append(out[:lo], out[lo+1:]...)
				i = -1
				break
			}
		}
	}
	if len(out) == 0 {
		return BigInt(c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	if c.Sign() != 0 {
		out = append(out, BigInt(c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern("+", "", nil, SInt, out...)
}

func Neg(a *Term) *Term { return Mul(Int(-1), a) }
func Sub(a, b *Term) *Term {
	return Add(a, Neg(b))
}

func Mul(a, b *Term) *Term {
	if a.op == "#" && b.op == "#" {
		return BigInt(new(big.Int).Mul(a.num, b.num))
	}
	if b.op == "#" {
		a, b = b, a
	}
	if a.op == "#" {
		if a.num.Sign() == 0 {
			return Int(0)
		}
		if a.num.Cmp(big.NewInt(1)) == 0 {
			return b
		}
		if b.op == "*" && b.args[0].op == "#" {
			return Mul(BigInt(new(big.Int).Mul(a.num, b.args[0].num)), b.args[1])
		}
		if b.op == "+" {
			var xs []*Term
			for _, y := range b.args {
				xs = append(xs, Mul(a, y))
			}
			return Add(xs...)
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return intern("*", "", nil, SInt, a, b)
}

func DivE(a, b *Term) *Term { // Euclidean div (b const >0 => floor)
	if a.op == "#" && b.op == "#" && b.num.Sign() != 0 {
		return BigInt(new(big.Int).Div(a.num, b.num))
	}
	if b.op == "#" && b.num.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return intern("div", "", nil, SInt, a, b)
}
func ModE(a, b *Term) *Term {
	if a.op == "#" && b.op == "#" && b.num.Sign() != 0 {
		return BigInt(new(big.Int).Mod(a.num, b.num))
	}
	if b.op == "#" && b.num.Sign() > 0 && a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b.num) < 0 {
		return a
	}
	return intern("mod", "", nil, SInt, a, b)
}

func Le(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) <= 0 {
		return True
	}
	if a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) > 0 {
		return False
	}
	// common addend difference
	d := Sub(b, a)
	if d.lo != nil && d.lo.Sign() >= 0 {
		return True
	}
	if d.hi != nil && d.hi.Sign() < 0 {
		return False
	}
	return intern("<=", "", nil, SBool, a, b)
}
func Lt(a, b *Term) *Term { return Not(Le(b, a)) }

func Obj(id int64) *Term            { return intern("obj", "", nil, SRef, Int(id)) }
func SubRef(b *Term, fid int) *Term { return intern("sub", "", nil, SRef, b, Int(int64(fid))) }
func ElemRef(a, i *Term) *Term      { return intern("elem", "", nil, SRef, a, i) }

func arrElemSort(s Sort) Sort {
	// "(Array K V)"
	in := s[len("(Array ") : len(s)-1]
	d := 0
	for i, c := range in {
		if c == '(' {
			d++
		} else if c == ')' {
			d--
		} else if c == ' ' && d == 0 {
			return in[i+1:]
		}
	}
	panic("bad array sort " + s)
}
func arrKeySort(s Sort) Sort {
	in := s[len("(Array ") : len(s)-1]
	d := 0
	for i, c := range in {
		if c == '(' {
			d++
		} else if c == ')' {
			d--
		} else if c == ' ' && d == 0 {
			return in[:i]
		}
	}
	panic("bad array sort " + s)
}

func keyDistinct(a, b *Term) bool {
	if a.sort == SRef {
		return refDistinct(a, b)
	}
	return Eq(a, b) == False || (a.sort == SInt && Sub(a, b).op == "#" && Sub(a, b).num.Sign() != 0)
}

func Select(m, k *Term) *Term {
	if k.sort != arrKeySort(m.sort) {
		panic(fmt.Sprintf("select key sort %s in %s", k.sort, m.sort))
	}
	for {
		if m.op == "store" {
			if m.args[1] == k {
				return m.args[2]
			}
			if keyDistinct(m.args[1], k) {
				m = m.args[0]
				continue
			}
		}
		if m.op == "constarr" {
			return m.args[0]
		}
		if m.op == "uf" && strings.HasPrefix(m.name, "splice_") {
			at, n := m.args[1], m.args[4]
			if Lt(k, at) == True || Le(Add(at, n), k) == True {
				m = m.args[0]
				continue
			}
			if Le(at, k) == True && Lt(k, Add(at, n)) == True {
				k = Add(m.args[3], Sub(k, at))
				m = m.args[2]
				continue
			}
		}
		if f := frames[m]; f != nil && k.sort == SRef && k.rootKnown && k.rootLo >= f.lo {
			ok := true
			for _, e := range f.except {
				if !refDistinct(e, k) {
					ok = false
					break
				}
			}
			if ok {
				m = f.parent
				continue
			}
		}
		break
	}
	if k.op == "ite" && m.op == "store" && k.size < 60 {
		// distribute so that freshness simplification applies
		a, b := Select(m, k.args[1]), Select(m, k.args[2])
		return Ite(k.args[0], a, b)
	}
	if m.op == "ite" {
		return Ite(m.args[0], Select(m.args[1], k), Select(m.args[2], k))
	}
	return intern("select", "", nil, arrElemSort(m.sort), m, k)
}

func Store(m, k, v *Term) *Term {
	if v.sort != arrElemSort(m.sort) || k.sort != arrKeySort(m.sort) {
		panic(fmt.Sprintf("store sort mismatch %s [%s]=%s", m.sort, k.sort, v.sort))
	}
	if m.op == "store" && m.args[1] == k {
		m = m.args[0]
	}
	if v.op == "select" && v.args[0] == m && v.args[1] == k {
		return m
	}
	return intern("store", "", nil, m.sort, m, k, v)
}

func ConstArr(s Sort, v *Term) *Term { return intern("constarr", "", nil, s, v) }

func Forall(v *Term, body *Term, pats ...*Term) *Term {
	if body == True {
		return True
	}
	if !body.bvs[v] {
		return body
	}
	return intern("forall", "", nil, SBool, append([]*Term{v, body}, pats...)...)
}
func Exists(v *Term, body *Term) *Term {
	return Not(Forall(v, Not(body)))
}

// substitute variable by term
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ch := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = rec(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=":
		return Eq(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "+":
		return Add(a...)
	case "*":
		return Mul(a[0], a[1])
	case "div":
		return DivE(a[0], a[1])
	case "mod":
		return ModE(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	}
	if t.op == "uf" {
		if f, ok := ufRebuild[t.name]; ok {
			return f(a)
		}
	}
	return intern(t.op, t.name, t.num, t.sort, a...)
}

func (t *Term) String() string {
	return t.str(0)
}
func (t *Term) str(d int) string {
	if d > 12 {
		return "…"
	}
	switch t.op {
	case "$":
		return t.name
	case "#":
		return t.num.String()
	case "lit":
		return fmt.Sprintf("%q", litVals[t])
	case "true", "false", "null":
		return t.op
	}
	var b strings.Builder
	b.WriteByte('(')
	if t.op == "uf" {
		b.WriteString(t.name)
	} else {
		b.WriteString(t.op)
	}
	for _, a := range t.args {
		b.WriteByte(' ')
		b.WriteString(a.str(d + 1))
	}
	b.WriteByte(')')
	return b.String()
}
