package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

type frameInfo struct {
	parent *Term
	lo     int64 // references with rootid >= lo are covered
	except []*Term
}

// frames: a havocked memory map agrees with its parent on covered references.
var frames = map[*Term]*frameInfo{}

type cand struct {
	name string
	eval func(st *State) *Term // evaluated at the loop header (phis set)
}

// writesBetween lists the keys written between map terms base and cur.
func writesBetween(cur, base *Term, depth int) ([]*Term, bool) {
	if ks, ok := writesBetween1(cur, base, depth); ok {
		return ks, true
	}
	// stores to equal keys collapse: compare against the core of base
	var extra []*Term
	for base.op == "store" {
		extra = append(extra, base.args[1])
		base = base.args[0]
		if ks, ok := writesBetween1(cur, base, depth); ok {
			return append(ks, extra...), true
		}
	}
	return nil, false
}

func writesBetween1(cur, base *Term, depth int) ([]*Term, bool) {
	if cur == base {
		return nil, true
	}
	if depth > 400 {
		return nil, false
	}
	switch cur.op {
	case "store":
		ks, ok := writesBetween1(cur.args[0], base, depth+1)
		if !ok {
			return nil, false
		}
		return append(ks, cur.args[1]), true
	case "ite":
		a, ok := writesBetween1(cur.args[1], base, depth+1)
		if !ok {
			return nil, false
		}
		b, ok := writesBetween1(cur.args[2], base, depth+1)
		return append(a, b...), ok
	case "$":
		if f := frames[cur]; f != nil {
			ks, ok := writesBetween1(f.parent, base, depth+1)
			if !ok {
				return nil, false
			}
			ks = append(ks, f.except...)
			return ks, true
		}
	}
	return nil, false
}

func dependsNew(t *Term, marker int, memo map[*Term]bool) bool {
	if r, ok := memo[t]; ok {
		return r
	}
	r := false
	if t.op == "$" {
		r = t.id > marker && len(t.name) > 3 && t.name[:3] != "M0_"
	} else if t.op == "uf" && len(t.name) > 3 && t.name[:3] == "sk_" && t.id > marker {
		r = true
	} else if t.op == "obj" && t.args[0].op == "#" && t.args[0].num.Sign() < 0 && false {
		r = true
	}
	if !r {
		for _, a := range t.args {
			if dependsNew(a, marker, memo) {
				r = true
				break
			}
		}
	}
	memo[t] = r
	return r
}

// loopMemo is what one analysis of a loop found to change in it.
type loopMemo struct {
	mods, noframe map[string]bool
	phis          map[*ssa.Phi]bool
}

func (x *Exec) cutLoop(entry *State, fr *Frame, li *loopInfo, pred *ssa.BasicBlock, key string) {
	b := li.header
	if len(x.scans) > 6 {
		unsup("loop nesting too deep")
	}
	// entry values of phis
	x.setPhis(entry, fr, b, pred)
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			phis = append(phis, ph)
		} else {
			break
		}
	}
	entryPhi := map[*ssa.Phi]Val{}
	for _, p := range phis {
		entryPhi[p] = entry.env[fr.id][p]
	}
	entryLo := -x.nextID
	loopName := fmt.Sprintf("%s#%d", shortFn(fr.fn), b.Index)
	cands := x.buildCands(entry, fr, li, phis, entryPhi)
	// drop candidates that do not hold on entry
	hk := x.cur.Name + "|" + loopName
	for f := fr; f != nil; f = f.up {
		hk += fmt.Sprintf("|%s@%d", shortFn(f.fn), f.callPos)
	}
	// a loop within a loop is analysed once per pass of the outer one, under ever weaker
	// hypotheses: candidates dropped in an earlier pass stay dropped
	nested := x.quiet > 0
	if x.houdini[hk] == nil {
		x.houdini[hk] = map[string]bool{}
	}
	var live []cand
	x.quiet++
	var goals []*Term
	if dr := x.houdini[hk]; len(dr) > 0 {
		var cs []cand
		for _, c := range cands {
			if !dr[c.name] {
				cs = append(cs, c)
			}
		}
		cands = cs
	}
	for _, c := range cands {
		goals = append(goals, x.evalCand(c, entry))
	}
	x.prefetch(entry, goals)
	for i, c := range cands {
		g := goals[i]
		if g != nil && x.valid(entry, g) {
			live = append(live, c)
			continue
		}
		if nested {
			x.houdini[hk][c.name] = true
		}
		if debug {
			fmt.Fprintf(os.Stderr, "  [%s] entry drops %s: %v\n", loopName, c.name, g)
		}
	}
	x.quiet--
	mods := map[string]bool{}
	changedPhi := map[*ssa.Phi]bool{}
	excepts := map[string][]*Term{} // per key: loop-invariant references written
	noframe := map[string]bool{}
	// what an earlier analysis of this loop (on another path, or in another pass of an outer
	// loop) found to be modified is taken as modified from the start: weaker, but fewer passes
	if m := x.loopMem[hk]; m != nil {
		for k := range m.mods {
			if memSortOf[k] != "" {
				mods[k] = true
			}
		}
		for k := range m.noframe {
			noframe[k] = true
		}
		for p := range m.phis {
			changedPhi[p] = true
		}
	}
	if _, isT := x.loopCtxs[key]; isT {
		delete(x.loopCtxs, key)
	}
	type snap struct {
		mem    map[string]*Term
		marker int
	}
	build := func() (*State, snap) {
		x.bumpAlloc()
		marker := termSeq
		h := entry.clone()
		h.cut[key] = true
		for _, p := range phis {
			ev := entryPhi[p]
			if !changedPhi[p] {
				h.env[fr.id][p] = ev
				continue
			}
			switch ev.(type) {
			case *AddrV:
				unsup("loop phi of address type in %s", fr.fn)
			}
			nm := p.Comment
			if nm == "" {
				nm = p.Name()
			}
			h.env[fr.id][p] = x.havocVal(h, p.Type(), nm)
		}
		var keys []string
		for k := range mods {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if h.mem[k] == nil {
				// first touched inside the loop: initial map
				h.memGet(k, memSortOf[k])
			}
			old := h.mem[k]
			x.havocMem(h, k)
			if !noframe[k] {
				nv := h.mem[k]
				if arrKeySort(nv.sort) == SRef {
					frames[nv] = &frameInfo{parent: old, lo: entryLo, except: excepts[k]}
					q := BoundVar("fr", SRef)
					conds := []*Term{Le(Int(entryLo), UF("rootid", SInt, q))}
					for _, e := range excepts[k] {
						if e.op == "uf" && e.name == "rootany" {
							if r, ok := exactRoot(e.args[0]); ok {
								conds = append(conds, Not(Eq(UF("rootid", SInt, q), Int(r))))
							} else {
								conds = append(conds, Not(Eq(rootObjOf(q), rootObjOf(e.args[0]))))
							}
							continue
						}
						conds = append(conds, Not(Eq(q, e)))
					}
					s1 := intern("select", "", nil, arrElemSort(nv.sort), nv, q)
					s2 := Select(old, q)
					addFact(nv, Forall(q, Or(Not(And(conds...)), Eq(s1, s2)), s1))
				}
			}
		}
		for _, c := range live {
			if g := x.evalCand(c, h); g != nil {
				h.assume(g)
			}
		}
		sm := map[string]*Term{}
		for k, v := range h.mem {
			sm[k] = v
		}
		return h, snap{sm, marker}
	}
	for iter := 0; ; iter++ {
		if iter > 40 {
			unsup("loop inference did not stabilise in %s", fr.fn)
		}
		h, sn := build()
		changed := false
		var drop = map[string]bool{}
		x.quiet++
		x.scans = append(x.scans, scanRec{fr.id, li.body})
		x.loopCtxs[key] = &loopCtx{onBack: func(bst *State, bfr *Frame, bp *ssa.BasicBlock) {
			x.setPhisInto(bst, bfr, b, bp)
			for _, p := range phis {
				if !changedPhi[p] && !sameVal(bst.env[fr.id][p], entryPhi[p]) {
					changedPhi[p] = true
					changed = true
				}
			}
			for k, v := range bst.mem {
				base := sn.mem[k]
				if base == nil {
					base = Var("M0_"+sanitize(k), v.sort)
				}
				if base == v {
					continue
				}
				if !mods[k] {
					mods[k] = true
					memSortOf[k] = v.sort
					changed = true
				}
				if !noframe[k] {
					ks, ok := writesBetween(v, base, 0)
					if !ok {
						if debug {
							fmt.Fprintf(os.Stderr, "  noframe %s: %s base %s\n", k, trunc(v.String(), 300), trunc(base.String(), 100))
						}
						noframe[k] = true
						changed = true
						continue
					}
					for _, wk := range ks {
						if wk.sort != SRef {
							continue
						}
						if r, ex := exactRoot(wk); ex && r < entryLo {
							continue // allocated inside the loop
						}
						if wk.rootKnown && false {
							continue
						}
						have := false
						for _, e := range excepts[k] {
							if e == wk {
								have = true
							}
						}
						if have {
							continue
						}
						if dependsNew(wk, sn.marker, map[*Term]bool{}) {
							// a varying part of an object that does not vary
							if rb := refBase(wk); rb != wk && !dependsNew(rb, sn.marker, map[*Term]bool{}) {
								ra := rootAny(rb)
								dup := false
								for _, e := range excepts[k] {
									if e == ra {
										dup = true
									}
								}
								if !dup {
									excepts[k] = append(excepts[k], ra)
									changed = true
								}
								continue
							}
							// a reference that varies: covered only if it is provably allocated in the loop
							if x.valid(bst, Lt(UF("rootid", SInt, wk), Int(entryLo))) {
								continue
							}
							// or the array a slice variable had on entry
							or := Lt(UF("rootid", SInt, wk), Int(entryLo))
							var inits []*Term
							for _, v := range phis {
								if s, ok := entryPhi[v].(*SliceV); ok {
									inits = append(inits, s.arr)
									or = Or(or, Eq(wk, s.arr))
								}
							}
							if len(inits) > 0 && x.valid(bst, or) {
								for _, ia := range inits {
									dup := false
									for _, e := range excepts[k] {
										dup = dup || e == ia
									}
									if !dup {
										excepts[k] = append(excepts[k], ia)
										changed = true
									}
								}
								continue
							}
							if debug {
								fmt.Fprintf(os.Stderr, "  noframe %s: key %s\n", k, trunc(wk.String(), 300))
							}
							noframe[k] = true
						} else {
							excepts[k] = append(excepts[k], wk)
						}
						changed = true
					}
				}
			}
			if changed {
				return
			}
			goals := map[string]*Term{}
			var gl []*Term
			for _, c := range live {
				if !drop[c.name] {
					goals[c.name] = x.evalCand(c, bst)
					gl = append(gl, goals[c.name])
				}
			}
			x.prefetch(bst, gl)
			for _, c := range live {
				if drop[c.name] {
					continue
				}
				g := goals[c.name]
				if g == nil || !x.valid(bst, g) {
					drop[c.name] = true
					if debug {
						fmt.Fprintf(os.Stderr, "  [%s] drops %s: %v\n", loopName, c.name, g)
					}
				}
			}
		}}
		x.instrs(h, fr, b, 0)
		x.scans = x.scans[:len(x.scans)-1]
		x.quiet--
		if len(drop) > 0 {
			var nl []cand
			for _, c := range live {
				if !drop[c.name] {
					nl = append(nl, c)
				} else if nested {
					x.houdini[hk][c.name] = true
				}
			}
			live = nl
			changed = true
		}
		if !changed {
			break
		}
	}
	if debug {
		var ns []string
		for _, c := range live {
			ns = append(ns, c.name)
		}
		var ms []string
		for k := range mods {
			ms = append(ms, k)
		}
		sort.Strings(ms)
		fmt.Fprintf(os.Stderr, "  [%s] loop: feas %d %v mods=%v noframe=%v live=%v\n", loopName, feasCount, feasTime.Round(time.Millisecond), ms, noframe, ns)
	}
	x.stats["loops"]++
	x.loopMem[hk] = &loopMemo{mods, noframe, changedPhi}
	h, _ := build()
	x.loopCtxs[key] = &loopCtx{onBack: func(bst *State, bfr *Frame, bp *ssa.BasicBlock) { x.paths++ }}
	x.instrs(h, fr, b, 0)
}

func refBase(t *Term) *Term {
	for t.op == "sub" || t.op == "elem" {
		t = t.args[0]
	}
	return t
}

// rootAny stands for any reference with the same root object as t.
func rootAny(t *Term) *Term { return UF("rootany", SRef, t) }

var memSortOf = map[string]Sort{}

func (x *Exec) setPhisInto(st *State, fr *Frame, b, pred *ssa.BasicBlock) { x.setPhis(st, fr, b, pred) }

func sameVal(a, b Val) bool {
	if a == b {
		return true
	}
	switch y := a.(type) {
	case *SliceV:
		z, ok := b.(*SliceV)
		return ok && y.arr == z.arr && y.off == z.off && y.len == z.len && y.cap == z.cap
	case *IfaceV:
		z, ok := b.(*IfaceV)
		return ok && y.tag == z.tag && y.ref == z.ref
	case *AddrV:
		z, ok := b.(*AddrV)
		return ok && y.kind == z.kind && y.ref == z.ref && y.idx == z.idx && y.key == z.key
	case *FuncV:
		z, ok := b.(*FuncV)
		return ok && y.fn == z.fn && len(y.binds) == 0 && len(z.binds) == 0
	case *StructV:
		z, ok := b.(*StructV)
		if !ok || len(y.f) != len(z.f) {
			return false
		}
		for i := range y.f {
			if !sameVal(y.f[i], z.f[i]) {
				return false
			}
		}
		return true
	case *IterV:
		z, ok := b.(*IterV)
		return ok && y.m == z.m && y.str == z.str
	case TupleV:
		z, ok := b.(TupleV)
		if !ok || len(y) != len(z) {
			return false
		}
		for i := range y {
			if !sameVal(y[i], z[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func (x *Exec) evalCand(c cand, st *State) (r *Term) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsupported); ok {
				if debug {
					fmt.Fprintf(os.Stderr, "candidate %s: %v\n", c.name, e)
				}
				r = nil
				return
			}
			panic(e)
		}
	}()
	return c.eval(st)
}

// buildCands: automatic candidates plus instantiations of user templates.
func (x *Exec) buildCands(entry *State, fr *Frame, li *loopInfo, phis []*ssa.Phi, ev map[*ssa.Phi]Val) []cand {
	var cs []cand
	id := fr.id
	inLoop := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && in.Block() != nil && li.body[in.Block()]
	}
	isPhi := map[ssa.Value]bool{}
	for _, p := range phis {
		isPhi[p] = true
	}
	var intPhis []*ssa.Phi
	for _, p := range phis {
		p := p
		if isIntT(p.Type()) {
			intPhis = append(intPhis, p)
			e, ok := ev[p].(*Term)
			if !ok {
				continue
			}
			cs = append(cs, cand{p.Name() + ">=init", func(st *State) *Term { return Le(e, st.env[id][p].(*Term)) }})
			cs = append(cs, cand{p.Name() + "<=init", func(st *State) *Term { return Le(st.env[id][p].(*Term), e) }})
		}
		if e, ok := ev[p].(*SliceV); ok {
			lo := -x.nextID
			cs = append(cs, cand{p.Name() + ".len>=init", func(st *State) *Term { return Le(e.len, st.env[id][p].(*SliceV).len) }})
			cs = append(cs, cand{p.Name() + ".fresh", func(st *State) *Term {
				s := st.env[id][p].(*SliceV)
				return Or(Eq(s.arr, e.arr), Lt(UF("rootid", SInt, s.arr), Int(lo)))
			}})
			// elements
		}
		if e, ok := ev[p].(*Term); ok && e.sort == SRef {
			cs = append(cs, cand{p.Name() + "!=nil", func(st *State) *Term { return Not(Eq(st.env[id][p].(*Term), Null)) }})
		}
		if e, ok := ev[p].(*Term); ok && e.sort == SBool {
			cs = append(cs, cand{p.Name() + "=init", func(st *State) *Term { return Eq(st.env[id][p].(*Term), e) }})
		}
	}
	// comparisons guarding the loop
	for blk := range li.body {
		for _, in := range blk.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			if !isIntT(bo.X.Type()) {
				continue
			}
			for _, pr := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
				v, lim := pr[0], pr[1]
				var ph *ssa.Phi
				if p, ok := v.(*ssa.Phi); ok && isPhi[p] {
					ph = p
				} else if a, ok := v.(*ssa.BinOp); ok && (a.Op == token.ADD || a.Op == token.SUB) {
					if p, ok := a.X.(*ssa.Phi); ok && isPhi[p] {
						ph = p
					}
				}
				if ph == nil || isPhi[lim] {
					continue
				}
				limF := x.invariantValue(lim, inLoop, fr)
				if limF == nil {
					continue
				}
				p2 := ph
				nm := fmt.Sprintf("%s~%s@%d", p2.Name(), bo.Name(), blk.Index)
				cs = append(cs, cand{nm + "<", func(st *State) *Term {
					l := limF(st)
					if l == nil {
						return nil
					}
					return Lt(st.env[id][p2].(*Term), l)
				}})
				cs = append(cs, cand{nm + "<=", func(st *State) *Term {
					l := limF(st)
					if l == nil {
						return nil
					}
					return Le(st.env[id][p2].(*Term), l)
				}})
			}
		}
	}
	// linear relations between accumulators' lengths and counters
	for _, p := range phis {
		p := p
		e, ok := ev[p].(*SliceV)
		if !ok {
			continue
		}
		for _, c := range intPhis {
			c := c
			ce, ok := ev[c].(*Term)
			if !ok {
				continue
			}
			cs = append(cs, cand{fmt.Sprintf("len(%s)==%s", p.Name(), c.Name()), func(st *State) *Term {
				return Eq(Sub(st.env[id][p].(*SliceV).len, e.len), Sub(st.env[id][c].(*Term), ce))
			}})
			cs = append(cs, cand{fmt.Sprintf("len(%s)<=%s", p.Name(), c.Name()), func(st *State) *Term {
				return Le(Sub(st.env[id][p].(*SliceV).len, e.len), Sub(st.env[id][c].(*Term), ce))
			}})
		}
		for _, q := range phis {
			q := q
			if q == p {
				continue
			}
			qe, ok := ev[q].(*SliceV)
			if !ok || p.Name() > q.Name() {
				continue
			}
			cs = append(cs, cand{fmt.Sprintf("len(%s)==len(%s)", p.Name(), q.Name()), func(st *State) *Term {
				return Eq(Sub(st.env[id][p].(*SliceV).len, e.len), Sub(st.env[id][q].(*SliceV).len, qe.len))
			}})
		}
	}
	for i, p := range intPhis {
		for _, q := range intPhis[i+1:] {
			p, q := p, q
			pe, ok1 := ev[p].(*Term)
			qe, ok2 := ev[q].(*Term)
			if ok1 && ok2 {
				cs = append(cs, cand{fmt.Sprintf("%s-%s", p.Name(), q.Name()), func(st *State) *Term {
					return Eq(Sub(st.env[id][p].(*Term), pe), Sub(st.env[id][q].(*Term), qe))
				}})
			}
		}
	}
	cs = append(cs, x.templateCands(entry, fr, li, phis, ev)...)
	return cs
}

// invariantValue: a value computed only from things defined outside the loop (consts, params,
// len of an outside slice evaluated inside the loop).
func (x *Exec) invariantValue(v ssa.Value, inLoop func(ssa.Value) bool, fr *Frame) func(st *State) *Term {
	switch c := v.(type) {
	case *ssa.Const:
		return func(st *State) *Term { t, _ := x.get(st, fr, v).(*Term); return t }
	case *ssa.Call:
		if bi, ok := c.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len") && inLoop(v) {
			a := c.Call.Args[0]
			// len of a slice loaded or defined inside the loop is evaluated from its operand if that is outside
			if !inLoop(a) {
				return func(st *State) *Term {
					switch s := x.get(st, fr, a).(type) {
					case *SliceV:
						return s.len
					case *Term:
						if s.sort == SStr {
							return slen(s)
						}
					}
					return nil
				}
			}
			if ld, ok := a.(*ssa.UnOp); ok && ld.Op == token.MUL {
				// len(x.f) with x defined outside
				if fa, ok := ld.X.(*ssa.FieldAddr); ok && !inLoop(fa.X) {
					return func(st *State) *Term {
						base, ok := x.get(st, fr, fa.X).(*Term)
						if !ok {
							return nil
						}
						ad, ft := x.fieldAddr(st, base, ptrElem(fa.X.Type()), fa.Field)
						if s, ok := x.load(st, ad, ft).(*SliceV); ok {
							return s.len
						}
						return nil
					}
				}
			}
			return nil
		}
	}
	if inLoop(v) {
		if cv, ok := v.(*ssa.Convert); ok && isIntT(cv.X.Type()) {
			f := x.invariantValue(cv.X, inLoop, fr)
			if f != nil {
				return func(st *State) *Term {
					t := f(st)
					if t == nil {
						return nil
					}
					return wrap(t, cv.Type())
				}
			}
		}
		return nil
	}
	if in, ok := v.(ssa.Instruction); ok {
		_ = in
	}
	return func(st *State) *Term {
		if _, ok := st.env[fr.id][v]; !ok {
			return nil
		}
		t, _ := st.env[fr.id][v].(*Term)
		return t
	}
}

// ------------------------------------------------------------ user templates

// InvTemplate is a specification function whose parameters are matched by type against loop
// variables, parameters and locals; every instantiation is a candidate.
type InvTemplate struct {
	fn     *ssa.Function
	target string
}

func (x *Exec) templateCands(entry *State, fr *Frame, li *loopInfo, phis []*ssa.Phi, ev map[*ssa.Phi]Val) []cand {
	var cs []cand
	ts := x.cur.Invs
	for _, tp := range ts {
		type src struct {
			name string
			get  func(st *State) Val
		}
		var opts [][]src
		for _, p := range tp.fn.Params {
			var o []src
			pt := p.Type()
			for _, ph := range phis {
				ph := ph
				if types.Identical(ph.Type(), pt) {
					o = append(o, src{ph.Name(), func(st *State) Val { return st.env[fr.id][ph] }})
				}
			}
			// allocated locals (cells) of matching type and other values in scope
			for v := range entry.env[fr.id] {
				v := v
				if _, ok := v.(*ssa.Phi); ok && isInPhis(v, phis) {
					continue
				}
				if types.Identical(v.Type(), pt) {
					_, isParam := v.(*ssa.Parameter)
					_, isAlloc := v.(*ssa.Alloc)
					_, isFree := v.(*ssa.FreeVar)
					_, isCall := v.(*ssa.Call)
					_, isExt := v.(*ssa.Extract)
					_, isPhi := v.(*ssa.Phi)
					if isParam || isFree || isAlloc || isCall || isExt || isPhi {
						o = append(o, src{v.Name(), func(st *State) Val { return st.env[fr.id][v] }})
						continue
					}
					o = append(o, src{v.Name(), func(st *State) Val { return st.env[fr.id][v] }})
				}
				if al, ok := v.(*ssa.Alloc); ok && types.Identical(ptrElem(al.Type()), pt) && !isStruct(pt) {
					o = append(o, src{"*" + v.Name(), func(st *State) Val { return x.load(st, st.env[fr.id][v], pt) }})
				}
			}
			// loads of fields of parameters (one level)
			for _, prm := range fr.fn.Params {
				prm := prm
				pp, ok := prm.Type().Underlying().(*types.Pointer)
				if !ok || !isStruct(pp.Elem()) || isBigInt(pp.Elem()) {
					continue
				}
				su := pp.Elem().Underlying().(*types.Struct)
				for i := 0; i < su.NumFields(); i++ {
					i := i
					if types.Identical(su.Field(i).Type(), pt) {
						o = append(o, src{prm.Name() + "." + su.Field(i).Name(), func(st *State) Val {
							base, ok := st.env[fr.id][prm].(*Term)
							if !ok {
								unsup("param base")
							}
							a, ft := x.fieldAddr(st, base, pp.Elem(), i)
							return x.load(st, a, ft)
						}})
					}
				}
			}
			sort.Slice(o, func(i, j int) bool { return o[i].name < o[j].name })
			// drop semantically equal sources
			var u []src
			seen := map[string]bool{}
			for _, s := range o {
				k := s.name
				if !seen[k] {
					seen[k] = true
					u = append(u, s)
				}
			}
			opts = append(opts, u)
		}
		n := 1
		for _, o := range opts {
			n *= len(o)
		}
		if n == 0 || n > 3000 {
			if debug {
				fmt.Fprintf(os.Stderr, "template %s: %d instances\n", tp.fn.Name(), n)
			}
			continue
		}
		idx := make([]int, len(opts))
		for {
			sel := make([]src, len(opts))
			nm := tp.fn.Name()
			for i := range opts {
				sel[i] = opts[i][idx[i]]
				nm += "," + sel[i].name
			}
			fn := tp.fn
			cs = append(cs, cand{nm, func(st *State) *Term {
				var args []Val
				for _, s := range sel {
					v := s.get(st)
					if v == nil {
						return nil
					}
					args = append(args, v)
				}
				return x.evalPure(st, fn, args, nil)
			}})
			i := 0
			for ; i < len(idx); i++ {
				idx[i]++
				if idx[i] < len(opts[i]) {
					break
				}
				idx[i] = 0
			}
			if i == len(idx) {
				break
			}
		}
	}
	return cs
}

func isInPhis(v ssa.Value, phis []*ssa.Phi) bool {
	for _, p := range phis {
		if v == p {
			return true
		}
	}
	return false
}
