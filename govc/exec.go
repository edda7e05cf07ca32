package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Oblig struct {
	Contract string
	Label    string
	Kind     string // post, pre, panic, inv, lock
	Pos      string
	asserts  []*Term // pc ∧ ¬goal (one goal part)
	goal     *Term
	trivial  bool
	res      solveResult
	text     string
	trace    []string
}

type Frame struct {
	id    int
	fn    *ssa.Function
	k     func(*State, []Val)
	spec  bool   // specification code: no safety obligations
	mode  string // "verify", "call" for contract function frames
	con   *Contract
	depth int
	up    *Frame
	// call mode
	callRes  []Val
	callArgs []Val
	callPos  token.Pos
	entryLo  int64
}

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type loopCtx struct {
	onBack func(st *State, fr *Frame, pred *ssa.BasicBlock)
}

type Exec struct {
	recDepth      int
	prog          *ssa.Program
	contracts     map[*ssa.Function]*Contract
	cur           *Contract
	nextID        int64
	frameSeq      int
	quiet         int
	scans         []scanRec
	loops         map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	loopCtxs      map[string]*loopCtx
	obls          []*Oblig
	boundVars     []*Term
	steps         int
	maxSteps      int
	unmodeled     map[string]int
	inlined       map[string]bool
	usedCon       map[string]bool
	paths         int
	reached       map[string]bool
	loopMem       map[string]*loopMemo       // what loops modify, per loop
	houdini       map[string]map[string]bool // dropped candidate names per loop
	pureDepth     int
	stats         map[string]int
	assumptions   map[string]int
	ifaceCons     map[string]*Contract
	hookHits      map[string]int
	curLabel      string
	specFr        *Frame
	usedModels    map[string]bool
	exits         [][]*Term
	targetReached [][]*Term
}

type scanRec struct {
	frame int
	body  map[*ssa.BasicBlock]bool
}

func NewExec(prog *ssa.Program) *Exec {
	return &Exec{prog: prog, contracts: map[*ssa.Function]*Contract{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, loopCtxs: map[string]*loopCtx{}, unmodeled: map[string]int{}, inlined: map[string]bool{}, usedCon: map[string]bool{}, reached: map[string]bool{}, houdini: map[string]map[string]bool{}, loopMem: map[string]*loopMemo{}, maxSteps: 400000, stats: map[string]int{}, assumptions: map[string]int{}, ifaceCons: map[string]*Contract{}, hookHits: map[string]int{}, usedModels: map[string]bool{}}
}

func (x *Exec) pos(p token.Pos) string {
	ps := x.prog.Fset.Position(p)
	f := ps.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// ------------------------------------------------------------ loops

func (x *Exec) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if l, ok := x.loops[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := res[s]
				if li == nil {
					li = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					res[s] = li
				}
				var stack []*ssa.BasicBlock
				if !li.body[b] {
					li.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range n.Preds {
						if !li.body[p] {
							li.body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	x.loops[fn] = res
	return res
}

// ------------------------------------------------------------ calls and blocks

func (x *Exec) newFrame(fn *ssa.Function, up *Frame, k func(*State, []Val)) *Frame {
	x.frameSeq++
	d := 0
	sp := false
	if up != nil {
		d = up.depth + 1
		sp = up.spec && up.mode == ""
	}
	return &Frame{id: x.frameSeq, fn: fn, k: k, depth: d, up: up, spec: sp}
}

func (x *Exec) inlineCall(st *State, up *Frame, fn *ssa.Function, args []Val, binds []Val, spec bool, k func(*State, []Val)) {
	if fn.Blocks == nil {
		unsup("no body for %s", fn)
	}
	fr := x.newFrame(fn, up, nil)
	if fr.depth > 60 {
		unsup("inline depth exceeded at %s", fn)
	}
	// recursion guard
	n := 0
	for f := up; f != nil; f = f.up {
		if f.fn == fn {
			n++
		}
	}
	if n > 3 {
		unsup("recursive inlining of %s", fn)
	}
	fr.spec = spec
	if !spec {
		x.inlined[fn.String()] = true
	}
	id := fr.id
	fr.k = func(s *State, r []Val) {
		delete(s.env, id)
		delete(s.defers, id)
		k(s, r)
	}
	env := map[ssa.Value]Val{}
	if len(args) != len(fn.Params) {
		unsup("arity mismatch calling %s", fn)
	}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		env[f] = binds[i]
	}
	st.env[id] = env
	x.enter(st, fr, fn.Blocks[0], nil)
}

func (x *Exec) enter(st *State, fr *Frame, b *ssa.BasicBlock, pred *ssa.BasicBlock) {
	if st.dead {
		return
	}
	for _, s := range x.scans {
		if s.frame == fr.id && !s.body[b] {
			return
		}
	}
	li := x.loopsOf(fr.fn)[b]
	if li != nil {
		key := fmt.Sprintf("%d:%d", fr.id, b.Index)
		inside := pred != nil && li.body[pred]
		if st.cut[key] && inside {
			x.loopCtxs[key].onBack(st, fr, pred)
			return
		}
		if st.cut[key] {
			delete(st.cut, key)
			st.peel[key] = 0
		}
		if !inside {
			st.peel[key] = 0
		}
		if st.peel[key] < 12 && x.canPeel(st, fr, li, pred) {
			st.peel[key]++
		} else {
			x.cutLoop(st, fr, li, pred, key)
			return
		}
	}
	x.setPhis(st, fr, b, pred)
	x.instrs(st, fr, b, 0)
}

func (x *Exec) setPhis(st *State, fr *Frame, b *ssa.BasicBlock, pred *ssa.BasicBlock) {
	if pred == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == pred {
			idx = i
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, x.get(st, fr, ph.Edges[idx]))
	}
	for i, ph := range phis {
		st.env[fr.id][ph] = vals[i]
	}
}

// canPeel: with the current values the loop condition evaluated in the header is a constant.
func (x *Exec) canPeel(st *State, fr *Frame, li *loopInfo, pred *ssa.BasicBlock) bool {
	b := li.header
	last, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	exits := false
	for _, s := range b.Succs {
		if !li.body[s] {
			exits = true
		}
	}
	if !exits {
		return false
	}
	c := st.clone()
	x.setPhis(c, fr, b, pred)
	good := true
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsupported); ok {
					good = false
					return
				}
				panic(r)
			}
		}()
		x.quiet++
		defer func() { x.quiet-- }()
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.If:
				continue
			case *ssa.Call:
				if bi, ok := in.(*ssa.Call).Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
					x.step(c, fr, in)
					continue
				}
				good = false
				return
			case *ssa.Next:
				good = false
				return
			}
			if !x.step(c, fr, in) {
				good = false
				return
			}
		}
	}()
	if !good {
		return false
	}
	cond, ok := x.get(c, fr, last.Cond).(*Term)
	return ok && (cond == True || cond == False)
}

func (x *Exec) split(st *State, c *Term, a, b func(*State)) {
	if st.dead {
		return
	}
	if c == True {
		a(st)
		return
	}
	if c == False {
		b(st)
		return
	}
	if st.known(c) {
		a(st)
		return
	}
	if st.known(Not(c)) {
		b(st)
		return
	}
	if dbgSplit {
		fmt.Fprintln(os.Stderr, "SPLIT", trunc(c.String(), 300))
	}
	s1 := st.clone()
	s1.branch(c)
	s2 := st
	s2.branch(Not(c))
	r1 := quickCheck(relevant(s1.pcTerms(), c))
	if r1 == "unsat" {
		b(s2)
		return
	}
	r2 := quickCheck(relevant(s2.pcTerms(), Not(c)))
	a(s1)
	if r2 != "unsat" {
		b(s2)
	}
}

func (x *Exec) instrs(st *State, fr *Frame, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		x.steps++
		if x.steps > x.maxSteps {
			unsup("step budget exceeded")
		}
		in := b.Instrs[i]
		switch v := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			x.enter(st, fr, b.Succs[0], b)
			return
		case *ssa.If:
			c := x.get(st, fr, v.Cond).(*Term)
			x.split(st, c, func(s *State) {
				x.enter(s, fr, b.Succs[0], b)
			}, func(s *State) {
				x.enter(s, fr, b.Succs[1], b)
			})
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range v.Results {
				rs = append(rs, x.get(st, fr, r))
			}
			fr.k(st, rs)
			return
		case *ssa.Panic:
			x.safety(st, fr, "explicit-panic", v.Pos(), False)
			return
		case *ssa.RunDefers:
			j := i
			x.runDefers(st, fr, func(s *State) { x.instrs(s, fr, b, j+1) })
			return
		case *ssa.Call:
			j := i
			x.doCall(st, fr, &v.Call, v.Pos(), v.Type(), func(s *State, r Val) {
				if s.dead {
					return
				}
				s.env[fr.id][v] = r
				x.instrs(s, fr, b, j+1)
			})
			return
		case *ssa.TypeAssert:
			j := i
			x.typeAssert(st, fr, v, func(s *State, r Val) {
				s.env[fr.id][v] = r
				x.instrs(s, fr, b, j+1)
			})
			return
		}
		if !x.step(st, fr, in) {
			unsup("instruction %T in %s", in, fr.fn)
		}
	}
}

func (x *Exec) runDefers(st *State, fr *Frame, k func(*State)) {
	ds := st.defers[fr.id]
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	st.defers[fr.id] = ds[:len(ds)-1]
	x.callValue(st, fr, d.call, d.fn, d.args, d.call.Pos(), func(s *State, _ Val) { x.runDefers(s, fr, k) })
}

// ------------------------------------------------------------ obligations

func (x *Exec) oblige(st *State, fr *Frame, label, kind string, pos token.Pos, goal *Term) {
	if x.quiet > 0 || st.dead {
		return
	}
	x.reached[label] = true
	for _, g := range splitGoal(goal) {
		o := &Oblig{Contract: x.cur.Name, Label: label, Kind: kind, Pos: x.pos(pos), goal: g}
		if g == True || st.known(g) {
			o.trivial = true
			o.res = solveResult{status: "unsat", solver: "simplifier"}
		} else {
			o.asserts = append(st.pcTerms(), Not(g))
		}
		o.trace = st.trace
		x.obls = append(x.obls, o)
	}
}

// splitGoal splits conjunctions and skolemizes positive universal quantifiers.
func splitGoal(g *Term) []*Term {
	switch g.op {
	case "and":
		var r []*Term
		for _, a := range g.args {
			r = append(r, splitGoal(a)...)
		}
		return r
	case "forall":
		c := Fresh("sk", g.args[0].sort)
		c.lo, c.hi = g.args[0].lo, g.args[0].hi
		c.rootKnown, c.rootLo = g.args[0].rootKnown, g.args[0].rootLo
		return splitGoal(Subst(g.args[1], map[*Term]*Term{g.args[0]: c}))
	case "or":
		for i, a := range g.args {
			if a.op == "forall" || a.op == "and" && hasQuant(a, map[*Term]bool{}) {
				var rest []*Term
				rest = append(rest, g.args[:i]...)
				rest = append(rest, g.args[i+1:]...)
				var r []*Term
				for _, p := range splitGoal(a) {
					r = append(r, splitGoal(Or(append([]*Term{p}, rest...)...))...)
				}
				return r
			}
		}
	}
	return []*Term{g}
}

func (x *Exec) safety(st *State, fr *Frame, what string, pos token.Pos, ok *Term) {
	if ok == True {
		return
	}
	if fr.spec || fr.mode != "" || x.pureDepth > 0 {
		return
	}
	if x.cur != nil && x.cur.NoPanic != "" && !x.suppressed(fr) {
		x.oblige(st, fr, x.cur.NoPanic, "panic:"+what+"@"+shortFn(fr.fn), pos, ok)
	}
	st.assume(ok)
}

func (x *Exec) suppressed(fr *Frame) bool { return false }

func shortFn(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, "github.com/ConsenSys/fc-retrieval/", "")
	return s
}

// valid: decides pc ⊨ goal with a small budget (used for loop-invariant inference).
func (x *Exec) valid(st *State, goal *Term) bool {
	if goal == True || st.known(goal) {
		return true
	}
	for _, g := range splitGoal(goal) {
		if g == True || st.known(g) {
			continue
		}
		as := append(st.pcTerms(), Not(g))
		if quickCheck(as) == "unsat" {
			continue
		}
		m := map[*Term]bool{}
		anyQ := false
		for _, a := range as {
			if hasQuant(a, m) {
				anyQ = true
			}
		}
		q := buildQuery(as, false)
		if !anyQ && !strings.Contains(q, "(forall") {
			return false
		}
		if r, ok := validCache[q]; ok {
			if !r {
				return false
			}
			continue
		}
		r := solveResult{status: solveOnce(q, 2500*time.Millisecond)}
		validCache[q] = r.status == "unsat"
		if d := os.Getenv("GOVC_VDUMP"); d != "" && r.status != "unsat" {
			os.MkdirAll(d, 0755)
			os.WriteFile(fmt.Sprintf("%s/v%d.smt2", d, len(validCache)), []byte(q+"(check-sat)\n"), 0644)
		}
		if r.status != "unsat" {
			return false
		}
	}
	return true
}

// prefetch decides several goals in parallel, leaving the answers in validCache.
func (x *Exec) prefetch(st *State, goals []*Term) {
	var qs []string
	seen := map[string]bool{}
	for _, goal := range goals {
		if goal == nil || goal == True || st.known(goal) {
			continue
		}
		for _, g := range splitGoal(goal) {
			if g == True || st.known(g) {
				continue
			}
			as := append(st.pcTerms(), Not(g))
			if quickCheck(as) == "unsat" {
				continue
			}
			q := buildQuery(as, false)
			if _, ok := validCache[q]; ok || seen[q] || !strings.Contains(q, "(forall") {
				continue
			}
			seen[q] = true
			qs = append(qs, q)
		}
	}
	if len(qs) < 2 {
		return
	}
	res := make([]bool, len(qs))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i, q := range qs {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int, q string) {
			defer wg.Done()
			res[i] = solveOnce(q, 2500*time.Millisecond) == "unsat"
			<-sem
		}(i, q)
	}
	wg.Wait()
	for i, q := range qs {
		validCache[q] = res[i]
		if d := os.Getenv("GOVC_VDUMP"); d != "" && !res[i] {
			os.MkdirAll(d, 0755)
			os.WriteFile(fmt.Sprintf("%s/v%d.smt2", d, len(validCache)), []byte(q+"(check-sat)\n"), 0644)
		}
	}
}

var validCache = map[string]bool{}

// ------------------------------------------------------------ values

func (x *Exec) get(st *State, fr *Frame, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return &FuncV{fn: c}
	case *ssa.Builtin:
		return &FuncV{bi: c}
	case *ssa.Global:
		t := c.Type().Underlying().(*types.Pointer).Elem()
		r := globalRef(c)
		if isStruct(t) || isArray(t) {
			return r
		}
		return &AddrV{kind: "cell", ref: r, key: "C:" + typeKey(t), typ: t}
	}
	r, ok := st.env[fr.id][v]
	if !ok {
		unsup("undefined value %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolT(constant.BoolVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			bi, _ := new(big.Int).SetString(v.ExactString(), 10)
			return BigInt(bi)
		case u.Info()&types.IsString != 0:
			return StrLit(constant.StringVal(c.Value))
		case u.Info()&types.IsFloat != 0:
			return Var("f64_"+sanitize(c.Value.ExactString()), SF64)
		}
	}
	unsup("const %s", c)
	return nil
}

func (x *Exec) t(st *State, fr *Frame, v ssa.Value) *Term {
	r := x.get(st, fr, v)
	switch y := r.(type) {
	case *Term:
		return y
	case *FuncV:
		return funcRef(y)
	case *AddrV:
		if y.kind == "cell" {
			return y.ref
		}
	}
	unsup("value %s is %T, expected term", v.Name(), r)
	return nil
}

func (x *Exec) nonNil(st *State, fr *Frame, a Val, pos token.Pos) {
	r, ok := a.(*Term)
	if !ok {
		if ad, ok := a.(*AddrV); ok {
			r = ad.ref
			if ad.kind == "elem" || ad.kind == "field" {
				return // checked when the address was formed
			}
		} else {
			return
		}
	}
	x.safety(st, fr, "nil-dereference", pos, Not(Eq(r, Null)))
}

// ptrVal canonicalizes pointers loaded from memory: pointer to leaf types are cells
func ptrElem(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

func (x *Exec) step(st *State, fr *Frame, in ssa.Instruction) bool {
	env := st.env[fr.id]
	switch v := in.(type) {
	case *ssa.Alloc:
		t := ptrElem(v.Type())
		r := x.newObj()
		if isStruct(t) || isArray(t) {
			x.zeroInit(st, r, t)
			env[v] = r
		} else {
			a := &AddrV{kind: "cell", ref: r, key: "C:" + typeKey(t), typ: t}
			x.store(st, a, t, zeroVal(t))
			env[v] = a
		}
	case *ssa.FieldAddr:
		base := x.t(st, fr, v.X)
		x.nonNil(st, fr, base, v.Pos())
		st2 := ptrElem(v.X.Type())
		if isBigInt(st2) {
			unsup("field of big.Int")
		}
		a, _ := x.fieldAddr(st, base, st2, v.Field)
		env[v] = a
	case *ssa.Field:
		s := x.get(st, fr, v.X).(*StructV)
		env[v] = s.f[v.Field]
	case *ssa.IndexAddr:
		idx := x.t(st, fr, v.Index)
		switch u := v.X.Type().Underlying().(type) {
		case *types.Slice:
			s := x.get(st, fr, v.X).(*SliceV)
			x.safety(st, fr, "index-out-of-range", v.Pos(), And(Le(Int(0), idx), Lt(idx, s.len)))
			env[v] = elemAddr(s.arr, Add(s.off, idx), u.Elem())
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			r := x.t(st, fr, v.X)
			x.nonNil(st, fr, r, v.Pos())
			x.safety(st, fr, "index-out-of-range", v.Pos(), And(Le(Int(0), idx), Lt(idx, Int(at.Len()))))
			env[v] = elemAddr(r, idx, at.Elem())
		default:
			return false
		}
	case *ssa.Index:
		idx := x.t(st, fr, v.Index)
		switch a := x.get(st, fr, v.X).(type) {
		case *ArrayV:
			x.safety(st, fr, "index-out-of-range", v.Pos(), And(Le(Int(0), idx), Lt(idx, Int(a.t.Len()))))
			e := Select(a.elems, idx)
			x.typed(st, a.t.Elem(), []*Term{e})
			env[v] = e
		case *Term: // string
			x.safety(st, fr, "index-out-of-range", v.Pos(), And(Le(Int(0), idx), Lt(idx, slen(a))))
			env[v] = bat(sbytes(a), idx)
		default:
			return false
		}
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			a := x.get(st, fr, v.X)
			x.nonNil(st, fr, a, v.Pos())
			t := ptrElem(v.X.Type())
			if isBigInt(t) {
				x.bigCopy(st, fr, a.(*Term), v.Pos())
			}
			env[v] = x.load(st, a, t)
			x.guardCheck(st, fr, a, false, v.Pos())
		case token.NOT:
			env[v] = Not(x.t(st, fr, v.X))
		case token.SUB:
			if isIntT(v.Type()) {
				env[v] = wrap(Neg(x.t(st, fr, v.X)), v.Type())
			} else {
				env[v] = UF("fneg", SF64, x.t(st, fr, v.X))
			}
		case token.XOR:
			env[v] = wrap(Sub(Int(-1), x.t(st, fr, v.X)), v.Type())
		case token.ARROW:
			env[v] = x.havocVal(st, v.Type(), "recv")
		default:
			return false
		}
	case *ssa.BinOp:
		env[v] = x.binop(st, fr, v)
	case *ssa.Store:
		a := x.get(st, fr, v.Addr)
		x.nonNil(st, fr, a, v.Pos())
		x.guardCheck(st, fr, a, true, v.Pos())
		x.store(st, a, ptrElem(v.Addr.Type()), x.get(st, fr, v.Val))
	case *ssa.Extract:
		tv := x.get(st, fr, v.Tuple).(TupleV)
		env[v] = tv[v.Index]
	case *ssa.MakeInterface:
		env[v] = x.makeIface(st, x.get(st, fr, v.X), v.X.Type())
	case *ssa.ChangeInterface:
		env[v] = x.get(st, fr, v.X)
	case *ssa.ChangeType:
		y := x.get(st, fr, v.X)
		if s, ok := y.(*StructV); ok {
			y = &StructV{v.Type(), s.f}
		}
		env[v] = y
	case *ssa.Convert:
		env[v] = x.convert(st, fr, x.get(st, fr, v.X), v.X.Type(), v.Type())
	case *ssa.MakeClosure:
		f := &FuncV{fn: v.Fn.(*ssa.Function)}
		for _, b := range v.Bindings {
			f.binds = append(f.binds, x.get(st, fr, b))
		}
		env[v] = f
	case *ssa.MakeSlice:
		l, c := x.t(st, fr, v.Len), x.t(st, fr, v.Cap)
		x.safety(st, fr, "makeslice-len", v.Pos(), And(Le(Int(0), l), Le(l, c)))
		env[v] = x.makeSlice(st, v.Type().Underlying().(*types.Slice).Elem(), l, c)
	case *ssa.MakeMap:
		env[v] = x.makeMap(st, v.Type())
	case *ssa.MakeChan:
		env[v] = x.newObj()
	case *ssa.MapUpdate:
		m := x.t(st, fr, v.Map)
		x.safety(st, fr, "nil-map-write", v.Pos(), Not(Eq(m, Null)))
		x.mapUpdate(st, m, v.Map.Type(), x.get(st, fr, v.Key), x.get(st, fr, v.Value))
	case *ssa.Lookup:
		switch u := v.X.Type().Underlying().(type) {
		case *types.Map:
			m := x.t(st, fr, v.X)
			val, ok := x.mapLookup(st, m, v.X.Type(), x.get(st, fr, v.Index))
			if v.CommaOk {
				env[v] = TupleV{val, ok}
			} else {
				env[v] = val
			}
			_ = u
		default: // string index
			s := x.t(st, fr, v.X)
			idx := x.t(st, fr, v.Index)
			x.safety(st, fr, "index-out-of-range", v.Pos(), And(Le(Int(0), idx), Lt(idx, slen(s))))
			env[v] = bat(sbytes(s), idx)
		}
	case *ssa.Range:
		switch u := v.X.Type().Underlying().(type) {
		case *types.Map:
			m := x.t(st, fr, v.X)
			sk, sm := x.seenMem(st, u)
			st.memSet(sk, Store(sm, m, ConstArr(SArr(mapKeySort(u), SBool), False)))
			_, dm := x.mapDomMem(st, u)
			ks, k0 := x.seen0Mem(st, u)
			st.memSet(ks, Store(k0, m, Select(dm, m)))
			env[v] = &IterV{m: m, mt: u}
		default:
			env[v] = &IterV{str: x.t(st, fr, v.X)}
		}
	case *ssa.Next:
		it := x.get(st, fr, v.Iter).(*IterV)
		if it.mt != nil {
			ok := x.freshT("next_ok", SBool)
			k := x.havocVal(st, it.mt.Key(), "rk")
			val, in := x.mapLookup(st, it.m, it.mt, k)
			st.assume(Imp(ok, in))
			// every key is met once; when the iteration ends, all keys still there from its start have been met
			kt := mapKeyTerm(it.mt, k)
			sk, sm := x.seenMem(st, it.mt)
			_, s0 := x.seen0Mem(st, it.mt)
			_, dm := x.mapDomMem(st, it.mt)
			seen := Select(sm, it.m)
			st.assume(Imp(ok, Not(Select(seen, kt))))
			q := BoundVar("k", kt.sort)
			st.assume(Imp(And(Not(ok), Not(Eq(it.m, Null))), Forall(q, Imp(And(Select(Select(s0, it.m), q), Select(Select(dm, it.m), q)), Select(seen, q)), Select(seen, q), Select(Select(dm, it.m), q))))
			st.memSet(sk, Store(sm, it.m, Ite(ok, Store(seen, kt, True), seen)))
			env[v] = TupleV{ok, k, val}
		} else {
			ok := x.freshT("next_ok", SBool)
			env[v] = TupleV{ok, x.havocVal(st, types.Typ[types.Int], "rk"), x.havocVal(st, types.Typ[types.Int32], "rv")}
		}
	case *ssa.Slice:
		env[v] = x.sliceOp(st, fr, v)
	case *ssa.Defer:
		d := deferred{call: &v.Call}
		if !v.Call.IsInvoke() {
			d.fn = x.get(st, fr, v.Call.Value)
		} else {
			d.fn = x.get(st, fr, v.Call.Value)
		}
		for _, a := range v.Call.Args {
			d.args = append(d.args, x.get(st, fr, a))
		}
		st.defers[fr.id] = append(st.defers[fr.id], d)
	case *ssa.Go:
		x.unmodeled["go statement: effects of the spawned goroutine are not modelled ("+shortFn(fr.fn)+")"]++
	case *ssa.Send:
	case *ssa.Select:
		sv := x.havocVal(st, v.Type(), "select")
		lo := int64(0)
		if !v.Blocking {
			lo = -1
		}
		if tv, ok := sv.(TupleV); ok {
			if ix, ok := tv[0].(*Term); ok {
				st.assume(And(Le(Int(lo), ix), Lt(ix, Int(int64(len(v.States))))))
			}
		}
		env[v] = sv
	default:
		return false
	}
	return true
}

func (x *Exec) makeIface(st *State, v Val, t types.Type) Val {
	tag := Int(typeTag(t))
	switch y := v.(type) {
	case *Term:
		if y.sort == SRef {
			if _, ok := t.Underlying().(*types.Pointer); ok {
				return &IfaceV{tag: tag, ref: y, dyn: v, dynT: t}
			}
		}
	}
	var r *Term
	if tt, ok := v.(*Term); ok && tt.sort == SStr {
		r = UF("boxstr", SRef, tt)
		addFact(r, Eq(UF("unboxstr", SStr, r), tt))
		addFact(r, Not(Eq(r, Null)))
	} else if tt, ok := v.(*Term); ok && tt.sort == SInt {
		r = UF("boxint", SRef, tt)
		addFact(r, Eq(UF("unboxint", SInt, r), tt))
		addFact(r, Not(Eq(r, Null)))
	} else if _, ok := v.(*StructV); ok && !isBigInt(t) && !isMutex(t) && !isOpaqueStruct(t) {
		// a boxed struct value is immutable: the box is a function of the value
		ts := x.flattenVal(t, v)
		r = UF("box_"+sanitize(typeKey(t)), SRef, ts...)
		addFact(r, Not(Eq(r, Null)))
		for i, l := range flatten(t, "") {
			addFact(r, Eq(UF("unbox_"+typeKey(t)+l.path, l.c.sort, r), ts[i]))
		}
	} else {
		r = x.newObj()
	}
	if !r.hasBound {
		st.boxes[r] = boxed{v, t}
	}
	return &IfaceV{tag: tag, ref: r, dyn: v, dynT: t}
}

func (x *Exec) ifaceEq(a, b *IfaceV) *Term {
	if a.tag.op == "#" && a.tag.num.Sign() == 0 {
		return Eq(b.tag, Int(0))
	}
	if b.tag.op == "#" && b.tag.num.Sign() == 0 {
		return Eq(a.tag, Int(0))
	}
	return And(Eq(a.tag, b.tag), Eq(a.ref, b.ref))
}

func (x *Exec) valEq(st *State, a, b Val, t types.Type) *Term {
	switch y := a.(type) {
	case *Term:
		switch z := b.(type) {
		case *Term:
			return Eq(y, z)
		case *FuncV:
			return Eq(y, funcRef(z))
		case *AddrV:
			if z.kind == "cell" {
				return Eq(y, z.ref)
			}
			if y == Null {
				return False
			}
		}
	case *FuncV:
		if z, ok := b.(*Term); ok {
			return Eq(funcRef(y), z)
		}
	case *AddrV:
		if z, ok := b.(*AddrV); ok && y.kind == z.kind && y.kind != "elem" {
			return And(BoolT(y.key == z.key), Eq(y.ref, z.ref))
		}
		if z, ok := b.(*Term); ok {
			if z == Null {
				return False
			}
			if y.kind == "cell" {
				return Eq(y.ref, z)
			}
		}
	case *IfaceV:
		if z, ok := b.(*IfaceV); ok {
			return x.ifaceEq(y, z)
		}
	case *SliceV:
		if z, ok := b.(*SliceV); ok {
			if z.arr == Null {
				return Eq(y.arr, Null)
			}
			if y.arr == Null {
				return Eq(z.arr, Null)
			}
		}
	case *StructV:
		z := b.(*StructV)
		r := True
		for i := range y.f {
			r = And(r, x.valEq(st, y.f[i], z.f[i], nil))
		}
		return r
	case *ArrayV:
		z := b.(*ArrayV)
		n := y.t.Len()
		if n > 8 && typeKey(y.t.Elem().Underlying()) == "byte" {
			return Eq(mkbytes(y.elems, Int(0), Int(n)), mkbytes(z.elems, Int(0), Int(n)))
		}
		if n <= 64 {
			r := True
			for i := int64(0); i < n; i++ {
				r = And(r, Eq(Select(y.elems, Int(i)), Select(z.elems, Int(i))))
			}
			return r
		}
	}
	unsup("comparison of %T and %T", a, b)
	return nil
}

// linear decomposition: atom -> coefficient, plus constant
func linear(t *Term) (map[*Term]*big.Int, *big.Int) {
	m := map[*Term]*big.Int{}
	c := new(big.Int)
	var rec func(t *Term, k *big.Int)
	rec = func(t *Term, k *big.Int) {
		switch {
		case t.op == "#":
			c.Add(c, new(big.Int).Mul(k, t.num))
		case t.op == "+":
			for _, a := range t.args {
				rec(a, k)
			}
		case t.op == "-" && len(t.args) == 2:
			rec(t.args[0], k)
			rec(t.args[1], new(big.Int).Neg(k))
		case t.op == "*" && t.args[0].op == "#":
			rec(t.args[1], new(big.Int).Mul(k, t.args[0].num))
		default:
			if m[t] == nil {
				m[t] = new(big.Int)
			}
			m[t].Add(m[t], k)
		}
	}
	rec(t, big.NewInt(1))
	return m, c
}

// refineBounds: bounds of t using single literals of the path condition.
func (st *State) refineBounds(t *Term) (*big.Int, *big.Int) {
	m, c := linear(t)
	bnd := map[*Term][2]*big.Int{}
	for a := range m {
		bnd[a] = [2]*big.Int{a.lo, a.hi}
	}
	for round := 0; round < 2; round++ {
		for _, e := range st.pc {
			f, neg := e.t, false
			if f.op == "not" {
				f, neg = f.args[0], true
			}
			if f.op != "<=" && f.op != "=" || f.args[0].sort != SInt {
				continue
			}
			if f.op == "=" && neg {
				continue
			}
			lm, lc := linear(f.args[0])
			rm, rc := linear(f.args[1])
			// sum d <= k
			d := map[*Term]*big.Int{}
			for a, v := range lm {
				d[a] = new(big.Int).Set(v)
			}
			for a, v := range rm {
				if d[a] == nil {
					d[a] = new(big.Int)
				}
				d[a].Sub(d[a], v)
			}
			k := new(big.Int).Sub(rc, lc)
			upd := func(d map[*Term]*big.Int, k *big.Int) {
				for a, b := range bnd {
					co := d[a]
					if co == nil || co.CmpAbs(big.NewInt(1)) != 0 {
						continue
					}
					rest := new(big.Int).Set(k) // co*a <= k - min(rest)
					ok := true
					for o, oc := range d {
						if o == a || oc.Sign() == 0 {
							continue
						}
						lo, hi := o.lo, o.hi
						if bb, in := bnd[o]; in {
							lo, hi = bb[0], bb[1]
						}
						w := lo
						if oc.Sign() < 0 {
							w = hi
						}
						if w == nil {
							ok = false
							break
						}
						rest.Sub(rest, new(big.Int).Mul(oc, w))
					}
					if !ok {
						continue
					}
					if co.Sign() > 0 {
						if b[1] == nil || rest.Cmp(b[1]) < 0 {
							b[1] = rest
						}
					} else {
						nr := new(big.Int).Neg(rest)
						if b[0] == nil || nr.Cmp(b[0]) > 0 {
							b[0] = nr
						}
					}
					bnd[a] = b
				}
			}
			negd := func() map[*Term]*big.Int {
				n := map[*Term]*big.Int{}
				for a, v := range d {
					n[a] = new(big.Int).Neg(v)
				}
				return n
			}
			if f.op == "=" {
				upd(d, k)
				upd(negd(), new(big.Int).Neg(k))
			} else if !neg {
				upd(d, k)
			} else { // sum d >= k+1
				upd(negd(), new(big.Int).Sub(new(big.Int).Neg(k), big.NewInt(1)))
			}
		}
	}
	lo, hi := new(big.Int).Set(c), new(big.Int).Set(c)
	for a, co := range m {
		b := bnd[a]
		l, h := b[0], b[1]
		if co.Sign() < 0 {
			l, h = h, l
		}
		if lo != nil && l != nil {
			lo.Add(lo, new(big.Int).Mul(co, l))
		} else {
			lo = nil
		}
		if hi != nil && h != nil {
			hi.Add(hi, new(big.Int).Mul(co, h))
		} else {
			hi = nil
		}
	}
	return lo, hi
}

func (x *Exec) wrapSt(st *State, t *Term, ty types.Type) *Term {
	lo, hi := intRange(ty)
	if lo == nil || t.op == "#" || t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return wrap(t, ty)
	}
	l, h := st.refineBounds(t)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return t
	}
	return wrap(t, ty)
}

func wrap(t *Term, ty types.Type) *Term {
	lo, hi := intRange(ty)
	if lo == nil {
		return t
	}
	return wrapR(t, lo, hi)
}

func wrapR(t *Term, lo, hi *big.Int) *Term {
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	n := new(big.Int).Sub(hi, lo)
	n.Add(n, big.NewInt(1))
	if t.op == "#" {
		r := new(big.Int).Sub(t.num, lo)
		r.Mod(r, n)
		r.Add(r, lo)
		return BigInt(r)
	}
	m := Add(ModE(Sub(t, BigInt(lo)), BigInt(n)), BigInt(lo))
	r := Ite(And(Le(BigInt(lo), t), Le(t, BigInt(hi))), t, m)
	if r.lo == nil || r.lo.Cmp(lo) < 0 {
		r.lo = lo
	}
	if r.hi == nil || r.hi.Cmp(hi) > 0 {
		r.hi = hi
	}
	return r
}

func pow2(t *Term) (uint, bool) { // constant power of two
	if t.op != "#" || t.num.Sign() <= 0 {
		return 0, false
	}
	b := t.num.BitLen() - 1
	if new(big.Int).Lsh(big.NewInt(1), uint(b)).Cmp(t.num) == 0 {
		return uint(b), true
	}
	return 0, false
}

func (x *Exec) binop(st *State, fr *Frame, v *ssa.BinOp) Val {
	a, b := x.get(st, fr, v.X), x.get(st, fr, v.Y)
	switch v.Op {
	case token.EQL:
		return x.valEq(st, a, b, v.X.Type())
	case token.NEQ:
		return Not(x.valEq(st, a, b, v.X.Type()))
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsup("binop %s on %T", v.Op, a)
	}
	t := v.X.Type()
	switch {
	case p.sort == SStr:
		switch v.Op {
		case token.ADD:
			return scat(p, q)
		case token.LSS:
			return slt(p, q)
		case token.GTR:
			return slt(q, p)
		case token.LEQ:
			return Not(slt(q, p))
		case token.GEQ:
			return Not(slt(p, q))
		}
	case p.sort == SF64:
		switch v.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return UF("f"+v.Op.String()[:1]+fmt.Sprint(len(v.Op.String())), SBool, p, q)
		}
		return UF("fop_"+fmt.Sprint(int(v.Op)), SF64, p, q)
	case p.sort == SBool:
		switch v.Op {
		case token.AND:
			return And(p, q)
		case token.OR:
			return Or(p, q)
		}
	case p.sort == SInt:
		switch v.Op {
		case token.ADD:
			return x.wrapSt(st, Add(p, q), t)
		case token.SUB:
			return x.wrapSt(st, Sub(p, q), t)
		case token.MUL:
			return x.wrapSt(st, Mul(p, q), t)
		case token.QUO:
			x.safety(st, fr, "division-by-zero", v.Pos(), Not(Eq(q, Int(0))))
			return wrap(truncDiv(p, q), t)
		case token.REM:
			x.safety(st, fr, "division-by-zero", v.Pos(), Not(Eq(q, Int(0))))
			return Sub(p, Mul(q, truncDiv(p, q)))
		case token.LSS:
			return Lt(p, q)
		case token.LEQ:
			return Le(p, q)
		case token.GTR:
			return Lt(q, p)
		case token.GEQ:
			return Le(q, p)
		case token.SHL:
			if q.op == "#" && q.num.IsInt64() && q.num.Int64() < 64 {
				return wrap(Mul(BigInt(new(big.Int).Lsh(big.NewInt(1), uint(q.num.Int64()))), p), t)
			}
		case token.SHR:
			if q.op == "#" && q.num.IsInt64() && q.num.Int64() < 64 {
				return DivE(p, BigInt(new(big.Int).Lsh(big.NewInt(1), uint(q.num.Int64()))))
			}
		case token.AND:
			if q.op != "#" {
				p, q = q, p
			}
			if q.op == "#" {
				if _, ok := pow2(Add(q, Int(1))); ok {
					return ModE(p, Add(q, Int(1)))
				}
			}
		case token.OR, token.XOR:
			// disjoint bit ranges: p = 2^k * p', 0 <= q < 2^k
			if r := disjointOr(p, q); r != nil {
				return r
			}
			if r := disjointOr(q, p); r != nil {
				return r
			}
		}
		r := UF(fmt.Sprintf("bitop_%d_%s", int(v.Op), typeKey(t)), SInt, p, q)
		lo, hi := intRange(t)
		x.bound(st, r, lo, hi)
		return r
	}
	unsup("binop %s", v)
	return nil
}

func disjointOr(p, q *Term) *Term {
	if q.lo == nil || q.hi == nil || q.lo.Sign() < 0 {
		return nil
	}
	k := uint(q.hi.BitLen())
	if multipleOf(p, k) {
		return Add(p, q)
	}
	return nil
}

func multipleOf(p *Term, k uint) bool {
	m := new(big.Int).Lsh(big.NewInt(1), k)
	switch p.op {
	case "#":
		return new(big.Int).Mod(p.num, m).Sign() == 0
	case "*":
		if p.args[0].op == "#" {
			return new(big.Int).Mod(p.args[0].num, m).Sign() == 0
		}
	case "+":
		for _, a := range p.args {
			if !multipleOf(a, k) {
				return false
			}
		}
		return true
	}
	return false
}

func truncDiv(p, q *Term) *Term {
	if p.lo != nil && p.lo.Sign() >= 0 && q.lo != nil && q.lo.Sign() > 0 {
		return DivE(p, q)
	}
	// Go truncates toward zero; SMT div is Euclidean
	return Ite(Le(Int(0), p), DivE(p, q), Neg(DivE(Neg(p), q)))
}

func (x *Exec) convert(st *State, fr *Frame, v Val, from, to types.Type) Val {
	fu, tu := from.Underlying(), to.Underlying()
	if isIntT(from) && isIntT(to) {
		flo, fhi := intRange(from)
		tlo, thi := intRange(to)
		if flo.Cmp(tlo) >= 0 && fhi.Cmp(thi) <= 0 {
			return v
		}
		w := wrap(v.(*Term), to)
		if t := v.(*Term); w != t && x.quiet == 0 {
			lo, hi := intRange(to)
			in := And(Le(BigInt(lo), t), Le(t, BigInt(hi)))
			if st.known(in) || quickCheck(append(st.pcTerms(), Not(in))) == "unsat" {
				return t
			}
		}
		return w
	}
	if fb, ok := fu.(*types.Basic); ok {
		if fb.Info()&types.IsString != 0 {
			if ts, ok := tu.(*types.Slice); ok {
				if typeKey(ts.Elem().Underlying()) == "byte" || typeKey(ts.Elem().Underlying()) == "uint8" {
					return x.sliceOfBytes(st, sbytes(v.(*Term)), false)
				}
				return x.havocVal(st, to, "conv")
			}
			return v
		}
		if isIntT(from) {
			if tb, ok := tu.(*types.Basic); ok {
				if tb.Info()&types.IsString != 0 {
					return UF("runestr", SStr, v.(*Term))
				}
				if tb.Info()&types.IsFloat != 0 {
					return UF("i2f", SF64, v.(*Term))
				}
			}
		}
		if fb.Info()&types.IsFloat != 0 {
			if isIntT(to) {
				r := UF("f2i_"+typeKey(to), SInt, v.(*Term))
				lo, hi := intRange(to)
				x.bound(st, r, lo, hi)
				return r
			}
			return v
		}
	}
	if fs, ok := fu.(*types.Slice); ok {
		if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			k := typeKey(fs.Elem().Underlying())
			if k == "byte" || k == "uint8" {
				return strb(x.bytesOf(st, v.(*SliceV)))
			}
			return x.havocVal(st, to, "conv")
		}
	}
	unsup("convert %s to %s", from, to)
	return nil
}

func (x *Exec) sliceOp(st *State, fr *Frame, v *ssa.Slice) Val {
	var lo, hi, mx *Term
	if v.Low != nil {
		lo = x.t(st, fr, v.Low)
	} else {
		lo = Int(0)
	}
	if v.High != nil {
		hi = x.t(st, fr, v.High)
	}
	if v.Max != nil {
		mx = x.t(st, fr, v.Max)
	}
	switch u := v.X.Type().Underlying().(type) {
	case *types.Slice:
		s := x.get(st, fr, v.X).(*SliceV)
		if hi == nil {
			hi = s.len
		}
		cp := s.cap
		if mx != nil {
			x.safety(st, fr, "slice-bounds", v.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, s.cap)))
			cp = mx
		} else {
			x.safety(st, fr, "slice-bounds", v.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, s.cap)))
		}
		return &SliceV{s.arr, Add(s.off, lo), Sub(hi, lo), Sub(cp, lo)}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		r := x.t(st, fr, v.X)
		x.nonNil(st, fr, r, v.Pos())
		n := Int(at.Len())
		if hi == nil {
			hi = n
		}
		x.safety(st, fr, "slice-bounds", v.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, n)))
		return &SliceV{r, lo, Sub(hi, lo), Sub(n, lo)}
	default:
		s := x.t(st, fr, v.X)
		if hi == nil {
			hi = slen(s)
		}
		x.safety(st, fr, "slice-bounds", v.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, slen(s))))
		r := UF("ssub", SStr, s, lo, hi)
		addFact(r, Imp(And(Le(Int(0), lo), Le(lo, hi), Le(hi, slen(s))), Eq(slen(r), Sub(hi, lo))))
		return r
	}
}

func (x *Exec) makeSlice(st *State, et types.Type, l, c *Term) *SliceV {
	arr := x.newObj()
	x.zeroElems(st, arr, et)
	return &SliceV{arr, Int(0), l, c}
}

func (x *Exec) zeroElems(st *State, arr *Term, et types.Type) {
	if isBigInt(et) || isMutex(et) || isOpaqueStruct(et) {
		return
	}
	if su, ok := et.Underlying().(*types.Struct); ok {
		x.zeroStructElems(st, arr, et, su, func(i *Term) *Term { return ElemRef(arr, i) })
		return
	}
	if isArray(et) {
		return
	}
	for _, c := range comps(et) {
		k := "E:" + typeKey(et) + c.suffix
		m := st.memGet(k, SArr(SRef, SArr(SInt, c.sort)))
		st.memSet(k, Store(m, arr, ConstArr(SArr(SInt, c.sort), zeroComp(c.sort))))
	}
}

// Elements of a fresh struct-typed backing array are zero: recorded as facts about the current
// memory maps (the array is fresh, so nothing was known about it before).
func (x *Exec) zeroStructElems(st *State, arr *Term, et types.Type, su *types.Struct, at func(i *Term) *Term) {
	for i := 0; i < su.NumFields(); i++ {
		f := su.Field(i)
		ft := f.Type()
		fid := fieldID(et, i)
		if isStruct(ft) {
			if isBigInt(ft) || isMutex(ft) || isOpaqueStruct(ft) {
				continue
			}
			x.zeroStructElems(st, arr, ft, ft.Underlying().(*types.Struct), func(j *Term) *Term { return SubRef(at(j), fid) })
			continue
		}
		if isArray(ft) {
			continue
		}
		for _, c := range comps(ft) {
			k := "F:" + typeKey(et) + "." + f.Name() + c.suffix
			m := st.memGet(k, SArr(SRef, c.sort))
			q := BoundVar("z", SInt)
			sel := Select(m, at(q))
			if sel.op != "select" {
				continue
			}
			st.assume(Forall(q, Eq(sel, zeroComp(c.sort)), sel))
		}
	}
}

// ------------------------------------------------------------ maps

type leafT struct {
	path string
	t    types.Type
	c    comp
}

func flatten(t types.Type, path string) []leafT {
	if isBigInt(t) {
		return []leafT{{path + ".val", t, comp{"", SInt}}}
	}
	if isMutex(t) || isOpaqueStruct(t) {
		return nil
	}
	if su, ok := t.Underlying().(*types.Struct); ok {
		var r []leafT
		for i := 0; i < su.NumFields(); i++ {
			r = append(r, flatten(su.Field(i).Type(), path+"."+su.Field(i).Name())...)
		}
		return r
	}
	var r []leafT
	for _, c := range comps(t) {
		r = append(r, leafT{path + c.suffix, t, c})
	}
	return r
}

func (x *Exec) flattenVal(t types.Type, v Val) []*Term {
	if isBigInt(t) {
		return []*Term{v.(*StructV).f[0].(*Term)}
	}
	if isMutex(t) || isOpaqueStruct(t) {
		return nil
	}
	if su, ok := t.Underlying().(*types.Struct); ok {
		var r []*Term
		for i := 0; i < su.NumFields(); i++ {
			r = append(r, x.flattenVal(su.Field(i).Type(), v.(*StructV).f[i])...)
		}
		return r
	}
	return toComps(t, v)
}

func (x *Exec) unflatten(st *State, t types.Type, ts []*Term) (Val, []*Term) {
	if isBigInt(t) {
		return &StructV{t, []Val{ts[0]}}, ts[1:]
	}
	if isMutex(t) || isOpaqueStruct(t) {
		return &StructV{t, nil}, ts
	}
	if su, ok := t.Underlying().(*types.Struct); ok {
		s := &StructV{t: t}
		for i := 0; i < su.NumFields(); i++ {
			var v Val
			v, ts = x.unflatten(st, su.Field(i).Type(), ts)
			s.f = append(s.f, v)
		}
		return s, ts
	}
	n := len(comps(t))
	x.typed(st, t, ts[:n])
	return x.revive(st, t, fromComps(t, ts[:n])), ts[n:]
}

func mapKeySort(mt *types.Map) Sort {
	cs := comps(mt.Key())
	if len(cs) != 1 {
		unsup("map key type %s", mt.Key())
	}
	return cs[0].sort
}

func (x *Exec) mapDomMem(st *State, t types.Type) (string, *Term) {
	mt := t.Underlying().(*types.Map)
	k := "MD:" + typeKey(t.Underlying())
	return k, st.memGet(k, SArr(SRef, SArr(mapKeySort(mt), SBool)))
}

// the keys an iteration over a map has met, and those the map held when it started
func (x *Exec) seenMem(st *State, mt *types.Map) (string, *Term) {
	k := "SEEN:" + typeKey(mt)
	return k, st.memGet(k, SArr(SRef, SArr(mapKeySort(mt), SBool)))
}

func (x *Exec) seen0Mem(st *State, mt *types.Map) (string, *Term) {
	k := "SEEN0:" + typeKey(mt)
	return k, st.memGet(k, SArr(SRef, SArr(mapKeySort(mt), SBool)))
}

func (x *Exec) makeMap(st *State, t types.Type) *Term {
	r := x.newObj()
	mt := t.Underlying().(*types.Map)
	k, m := x.mapDomMem(st, t)
	st.memSet(k, Store(m, r, ConstArr(SArr(mapKeySort(mt), SBool), False)))
	return r
}

func mapKeyTerm(mt *types.Map, key Val) *Term {
	switch k := key.(type) {
	case *Term:
		return k
	case *ArrayV:
		return k.elems
	}
	unsup("map key %T", key)
	return nil
}

func card(d *Term) *Term {
	s := "card_" + sanitize(arrKeySort(d.sort))
	c := UF(s, SInt, d)
	if true {
		c.lo, c.hi = big.NewInt(0), maxLen
		if d.op == "constarr" && d.args[0] == False {
			return Int(0)
		}
		if d.op == "store" {
			base := card(d.args[0])
			k := d.args[1]
			in := Select(d.args[0], k)
			if d.args[2] == True {
				addFact(c, Eq(c, Ite(in, base, Add(base, Int(1)))))
			} else if d.args[2] == False {
				addFact(c, Eq(c, Ite(in, Sub(base, Int(1)), base)))
			}
		}
	}
	return c
}

func (x *Exec) mapUpdate(st *State, m *Term, t types.Type, key, val Val) {
	mt := t.Underlying().(*types.Map)
	kt := mapKeyTerm(mt, key)
	dk, dm := x.mapDomMem(st, t)
	st.memSet(dk, Store(dm, m, Store(Select(dm, m), kt, True)))
	vs := x.flattenVal(mt.Elem(), val)
	for i, l := range flatten(mt.Elem(), "") {
		k := "MV:" + typeKey(t.Underlying()) + l.path
		vm := st.memGet(k, SArr(SRef, SArr(kt.sort, l.c.sort)))
		st.memSet(k, Store(vm, m, Store(Select(vm, m), kt, vs[i])))
	}
}

func (x *Exec) mapDelete(st *State, m *Term, t types.Type, key Val) {
	mt := t.Underlying().(*types.Map)
	kt := mapKeyTerm(mt, key)
	dk, dm := x.mapDomMem(st, t)
	st.memSet(dk, Store(dm, m, Store(Select(dm, m), kt, False)))
}

func (x *Exec) mapLookup(st *State, m *Term, t types.Type, key Val) (Val, *Term) {
	mt := t.Underlying().(*types.Map)
	kt := mapKeyTerm(mt, key)
	_, dm := x.mapDomMem(st, t)
	ok := And(Not(Eq(m, Null)), Select(Select(dm, m), kt))
	var ts []*Term
	for _, l := range flatten(mt.Elem(), "") {
		k := "MV:" + typeKey(t.Underlying()) + l.path
		vm := st.memGet(k, SArr(SRef, SArr(kt.sort, l.c.sort)))
		e := Select(Select(vm, m), kt)
		ts = append(ts, e)
		if e.op == "select" {
			x.typed1(st, l, e)
		}
	}
	// type facts on the stored components before masking by ok
	x.unflatten(st, mt.Elem(), ts)
	var ms []*Term
	for i, l := range flatten(mt.Elem(), "") {
		ms = append(ms, Ite(ok, ts[i], zeroComp(l.c.sort)))
	}
	v, _ := x.unflatten(st, mt.Elem(), ms)
	return v, ok
}

func (x *Exec) typed1(st *State, l leafT, e *Term) {
	if l.c.suffix == "" && isIntT(l.t) {
		lo, hi := intRange(l.t)
		x.bound(st, e, lo, hi)
	}
}

func (x *Exec) mapLen(st *State, m *Term, t types.Type) *Term {
	_, dm := x.mapDomMem(st, t)
	return Ite(Eq(m, Null), Int(0), card(Select(dm, m)))
}

// ------------------------------------------------------------ type assertion

func (x *Exec) typeAssert(st *State, fr *Frame, v *ssa.TypeAssert, k func(*State, Val)) {
	i := x.get(st, fr, v.X).(*IfaceV)
	t := v.AssertedType
	finish := func(s *State, ok *Term, val Val) {
		if v.CommaOk {
			x.split(s, ok, func(s *State) { k(s, TupleV{val, True}) }, func(s *State) { k(s, TupleV{zeroVal(t), False}) })
		} else {
			x.safety(s, fr, "type-assertion", v.Pos(), ok)
			if !s.dead {
				k(s, val)
			}
		}
	}
	if types.IsInterface(t) {
		if i.dynT != nil {
			ok := types.Implements(i.dynT, t.Underlying().(*types.Interface))
			finish(st, BoolT(ok), i)
			return
		}
		if t.Underlying().(*types.Interface).NumMethods() == 0 {
			finish(st, Not(Eq(i.tag, Int(0))), i)
			return
		}
		ok := And(Not(Eq(i.tag, Int(0))), UF("impl_"+typeKey(t), SBool, i.tag))
		finish(st, ok, i)
		return
	}
	ok := Eq(i.tag, Int(typeTag(t)))
	if i.dynT != nil {
		if types.Identical(i.dynT, t) {
			finish(st, True, i.dyn)
		} else {
			finish(st, False, zeroVal(t))
		}
		return
	}
	finish(st, ok, x.unbox(st, i, t))
}

func (x *Exec) unbox(st *State, i *IfaceV, t types.Type) Val {
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return i.ref
	}
	if b, ok := st.boxes[i.ref]; ok && types.Identical(b.t, t) {
		return b.v
	}
	cs := flatten(t, "")
	var ts []*Term
	for _, c := range cs {
		n := "unbox_" + typeKey(t) + c.path
		if len(cs) == 1 && c.c.sort == SStr {
			n = "unboxstr"
		} else if len(cs) == 1 && c.c.sort == SInt {
			n = "unboxint"
		}
		u := UF(n, c.c.sort, i.ref)
		if c.c.sort == SRef && u.op == "uf" {
			// a box is taken to be as old as the oldest object its value refers to
			addFact(u, leRaw(UF("rootid", SInt, i.ref), UF("rootid", SInt, u)))
		}
		ts = append(ts, u)
	}
	v, _ := x.unflatten(st, t, ts)
	return v
}

func (x *Exec) guardCheck(st *State, fr *Frame, a Val, write bool, pos token.Pos) {
	if x.cur == nil || len(x.cur.Guards) == 0 || fr.spec || fr.mode != "" || x.pureDepth > 0 {
		return
	}
	ad, ok := a.(*AddrV)
	if !ok || ad.kind != "field" {
		return
	}
	for _, g := range x.cur.Guards {
		if ad.key == g.key {
			r, exact := exactRoot(ad.ref)
			if exact && r < 0 {
				return // object allocated during this call: not shared yet
			}
			lk := SubRef(ad.ref, g.lockFid)
			m := st.memGet("LOCK", SArr(SRef, SInt))
			l := Select(m, lk)
			var goal *Term
			if write {
				goal = Eq(l, Int(-1))
			} else {
				goal = Not(Eq(l, Int(0)))
			}
			w := "read"
			if write {
				w = "write"
			}
			x.oblige(st, fr, g.label, "guarded-"+w+":"+strings.TrimPrefix(ad.key, "F:")+"@"+shortFn(fr.fn), pos, goal)
			st.assume(goal)
		}
	}
}

func (x *Exec) bigCopy(st *State, fr *Frame, r *Term, pos token.Pos) {
	if fr.spec || x.pureDepth > 0 || x.cur == nil || x.cur.BigCopy == "" {
		return
	}
	if e, ok := exactRoot(r); ok && e < 0 {
		return
	}
	x.oblige(st, fr, x.cur.BigCopy, "bigint-shared-by-copy@"+shortFn(fr.fn), pos, UF("isfresh", SBool, r))
}

var debug = os.Getenv("GOVC_DEBUG") != ""
