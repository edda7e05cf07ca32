package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

// facts that hold globally about a term; included in every query in which the term occurs.
var termFacts = map[*Term][]*Term{}

func addFact(t *Term, f *Term) {
	if f == True {
		return
	}
	for _, g := range termFacts[t] {
		if g == f {
			return
		}
	}
	termFacts[t] = append(termFacts[t], f)
}

// global axioms keyed by UF name: included when the UF occurs.
var ufAxioms = map[string][]string{}
var ufAxiomDeps = map[string][]string{} // additional UFs mentioned by the axioms

type query struct {
	text string
	// quantified facts present
	quant bool
}

func isQuant(t *Term) bool { return t.op == "forall" }

func hasQuant(t *Term, memo map[*Term]bool) bool {
	if r, ok := memo[t]; ok {
		return r
	}
	r := t.op == "forall"
	if !r {
		for _, a := range t.args {
			if hasQuant(a, memo) {
				r = true
				break
			}
		}
	}
	memo[t] = r
	return r
}

var expandMemo = map[*Term]*Term{}

// expandQ rewrites universally quantified assumptions so that triggers contain no arithmetic: a
// quantifier over i whose body reads a[off+i] is restated over j = off+i (one copy per offset).
func expandQ(t *Term) *Term {
	if r, ok := expandMemo[t]; ok {
		return r
	}
	r := t
	switch t.op {
	case "and", "or":
		na := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = expandQ(a)
			if na[i] != a {
				ch = true
			}
		}
		if ch {
			r = intern(t.op, "", nil, SBool, na...)
		}
	case "forall":
		r = expandForall(t)
	}
	expandMemo[t] = r
	return r
}

func expandForall(t *Term) *Term {
	v, body := t.args[0], t.args[1]
	nb := expandQ(body)
	pats := t.args[2:]
	if v.sort != SInt {
		if nb != body {
			return intern("forall", "", nil, SBool, append([]*Term{v, nb}, pats...)...)
		}
		return t
	}
	body = nb
	// offsets with which v occurs in index positions
	offs := map[*Term]bool{}
	var order []*Term
	seen := map[*Term]bool{}
	var visit func(u *Term)
	visit = func(u *Term) {
		if seen[u] || !u.bvs[v] {
			return
		}
		seen[u] = true
		var idx []*Term
		switch u.op {
		case "select", "elem":
			idx = u.args[1:2]
		case "uf":
			idx = u.args
		}
		for _, ix := range idx {
			if ix.sort != SInt || !ix.bvs[v] {
				continue
			}
			rest := Sub(ix, v)
			if rest.bvs[v] || ix.op != "+" && ix != v {
				continue
			}
			if len(rest.bvs) > 0 {
				continue
			}
			if !offs[rest] {
				offs[rest] = true
				order = append(order, rest)
			}
		}
		for _, a := range u.args {
			visit(a)
		}
	}
	visit(body)
	for _, p := range pats {
		visit(p)
	}
	if len(order) == 0 || len(order) == 1 && order[0] == Int(0) {
		if len(pats) > 0 || nb == t.args[1] {
			return intern("forall", "", nil, SBool, append([]*Term{v, body}, pats...)...)
		}
		return Forall(v, body, trig(v, body)...)
	}
	if len(order) > 4 {
		order = order[:4]
	}
	var out []*Term
	for _, o := range order {
		if o == Int(0) {
			ps := trig(v, body)
			if len(ps) > 0 {
				out = append(out, Forall(v, body, ps...))
			}
			continue
		}
		w := BoundVar("w", SInt)
		b := Subst(body, map[*Term]*Term{v: Sub(w, o)})
		ps := trig(w, b)
		if len(ps) > 0 {
			out = append(out, Forall(w, b, ps...))
		}
	}
	if len(out) == 0 {
		return Forall(v, body)
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern("and", "", nil, SBool, out...)
}

// boundAxioms: the facts about applications of a function whose arguments are bound variables, as axioms
// over the function
var boundAxioms = map[string][]string{
	"mkbytes": {
		"(forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (>= n 0) (= (blen (mkbytes a o n)) n)) :pattern ((mkbytes a o n))))",
		"(forall ((a (Array Int Int)) (o Int) (n Int) (j Int)) (! (=> (and (<= 0 j) (< j n)) (= (select (barr (mkbytes a o n)) j) (select a (+ o j)))) :pattern ((select (barr (mkbytes a o n)) j))))",
	},
	"strb": {
		"(forall ((b Bytes)) (! (and (= (sbytes (strb b)) b) (= (slen (strb b)) (blen b))) :pattern ((strb b))))",
	},
	"sbytes": {
		"(forall ((s Str)) (! (and (= (strb (sbytes s)) s) (= (blen (sbytes s)) (slen s))) :pattern ((sbytes s))))",
	},
	"hexEnc": {
		"(forall ((b Bytes)) (! (and (hexOK (hexEnc b)) (= (hexDec (hexEnc b)) b) (= (slen (hexEnc b)) (* 2 (blen b)))) :pattern ((hexEnc b))))",
	},
}

var boundAxiomDeps = map[string][]string{
	"mkbytes": {"blen", "barr"},
	"strb":    {"sbytes", "slen", "blen"},
	"sbytes":  {"strb", "slen", "blen"},
	"hexEnc":  {"hexOK", "hexDec", "slen", "blen"},
}

var quantFacts = map[[2]*Term]*Term{}

// quantFact: fact f about term t holds for every value of the bound variables not free at top level.
func quantFact(t, f *Term, free map[*Term]bool) *Term {
	if len(free) == 0 {
		if q, ok := quantFacts[[2]*Term{t, f}]; ok {
			return q
		}
	}
	var vs []*Term
	for v := range f.bvs {
		if !free[v] {
			vs = append(vs, v)
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	q := f
	pat := (t.op == "uf" || t.op == "select") && len(vs) == 1
	for _, v := range vs {
		if v.lo != nil {
			q = Or(Not(leRaw(BigInt(v.lo), v)), q)
		}
		if v.hi != nil {
			q = Or(Not(leRaw(v, BigInt(v.hi))), q)
		}
	}
	for _, v := range vs {
		if pat && t.bvs[v] {
			q = Forall(v, q, t)
		} else {
			q = Forall(v, q)
		}
	}
	if len(free) == 0 {
		quantFacts[[2]*Term{t, f}] = q
	}
	return q
}

// buildQuery renders asserts (a conjunction) as an SMT-LIB script body (no check-sat).
func buildQuery(asserts []*Term, dropQuant bool) string {
	qm := map[*Term]bool{}
	seen := map[*Term]bool{}
	var order []*Term // terms in post-order
	refcnt := map[*Term]int{}
	var all []*Term
	addedAssert := map[*Term]bool{}
	var work []*Term
	push := func(t *Term) {
		if t == True || addedAssert[t] {
			return
		}
		if dropQuant && hasQuant(t, qm) {
			return
		}
		addedAssert[t] = true
		if !dropQuant {
			t = expandQ(t)
		}
		all = append(all, t)
		work = append(work, t)
	}
	// weak: structural facts about the contents of byte sequences, left out of the first, light attempt
	weak := map[*Term]bool{}
	pushWeak := func(t *Term) {
		n := len(all)
		push(t)
		for _, a := range all[n:] {
			weak[a] = true
		}
	}
	pushFact := func(t *Term) {
		if mentionsBarr(t) {
			pushWeak(t)
		} else {
			push(t)
		}
	}
	var pushAll func(a *Term)
	pushAll = func(a *Term) {
		switch {
		case a.op == "and":
			for _, x := range a.args {
				pushAll(x)
			}
		case a.op == "not" && a.args[0].op == "or":
			for _, x := range a.args[0].args {
				pushAll(Not(x))
			}
		default:
			push(a)
		}
	}
	for _, a := range asserts {
		pushAll(a)
	}
	free := map[*Term]bool{}
	for _, a := range asserts {
		for v := range a.bvs {
			free[v] = true
		}
	}
	topFree := func(f *Term) bool {
		for v := range f.bvs {
			if !free[v] {
				return false
			}
		}
		return true
	}
	var visit func(t *Term)
	var bytesTerms []*Term
	bytesApps := map[string][]*Term{}
	var bytesEqs []*Term
	seqApps := map[string][]*Term{}
	usedUF := map[string]bool{}
	boundAx := map[string]bool{}
	visit = func(t *Term) {
		refcnt[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			visit(a)
		}
		order = append(order, t)
		if t.op == "uf" {
			usedUF[t.name] = true
		}
		if t.op == "uf" && !t.hasBound && (t.name == "mroot" || strings.HasPrefix(t.name, "rec_")) {
			seqApps[t.name] = append(seqApps[t.name], t)
		}
		if t.op == "uf" && !t.hasBound && t.name != "blen" && t.name != "barr" {
			for _, a := range t.args {
				if a.sort == SBytes {
					bytesApps[t.name] = append(bytesApps[t.name], t)
					break
				}
			}
		}
		if t.op == "=" && !t.hasBound && t.args[0].sort == SBytes {
			bytesEqs = append(bytesEqs, t)
		}
		if t.sort == SBytes && !t.hasBound {
			bytesTerms = append(bytesTerms, t)
		}
		for _, f := range termFacts[t] {
			if !f.hasBound || topFree(f) {
				pushFact(f)
			} else if !dropQuant {
				if t.op == "uf" && boundAxioms[t.name] != nil {
					boundAx[t.name] = true
					continue
				}
				pushFact(quantFact(t, f, free))
			}
		}
		if (!t.hasBound || topFree(t)) && t.sort == SInt && (t.op == "$" || t.op == "select" || t.op == "uf") && t.lo != nil {
			push(leRaw(BigInt(t.lo), t))
		}
		if (!t.hasBound || topFree(t)) && t.sort == SInt && (t.op == "$" || t.op == "select" || t.op == "uf") && t.hi != nil {
			push(leRaw(t, BigInt(t.hi)))
		}
		if t.sort == SRef && (t.op == "$" || t.op == "select") && t.rootKnown {
			if f := leRaw(Int(t.rootLo), UF("rootid", SInt, t)); !t.hasBound || topFree(t) {
				push(f)
			} else if !dropQuant {
				push(quantFact(t, f, free))
			}
		}
	}
	for {
		for len(work) > 0 {
			t := work[0]
			work = work[1:]
			visit(t)
		}
		// extensionality for the Bytes whose equality can matter: sides of equations, and arguments at
		// the same place of the same function
		if len(bytesTerms) > 1 {
			for _, n := range sortedKeys(bytesApps) {
				as := bytesApps[n]
				if len(as) > 24 {
					as = as[:24]
				}
				for i := 0; i < len(as); i++ {
					for j := i + 1; j < len(as); j++ {
						for k, a := range as[i].args {
							if b := as[j].args[k]; a != b && a.sort == SBytes && !bytesDiffer(a, b) {
								pushWeak(bytesExt(a, b))
							}
						}
					}
				}
			}
			for _, q := range bytesEqs {
				pushWeak(bytesExt(q.args[0], q.args[1]))
			}
			bytesEqs = nil
		}
		// extensionality of sequences that are arguments of the same function
		for _, n := range sortedKeys(seqApps) {
			as := seqApps[n]
			if len(as) > 12 {
				as = as[:12]
			}
			for i := 0; i < len(as); i++ {
				for j := i + 1; j < len(as); j++ {
					for k, a := range as[i].args {
						if strings.HasPrefix(a.sort, "(Array Int ") && a != as[j].args[k] {
							pushWeak(seqExt(a, as[j].args[k]))
						}
					}
				}
			}
		}
		if len(work) == 0 {
			break
		}
	}
	if debug && !dropQuant {
		for _, a := range all {
			if a.hasBound && !topFree(a) {
				fmt.Fprintln(os.Stderr, "OPEN", a.bvs, a)
			}
		}
	}
	var b strings.Builder
	// axioms closure
	axNames := map[string]bool{}
	var addAx func(n string)
	addAx = func(n string) {
		if axNames[n] {
			return
		}
		axNames[n] = true
		for _, d := range ufAxiomDeps[n] {
			usedUF[d] = true
			addAx(d)
		}
	}
	for n := range boundAx {
		for _, d := range boundAxiomDeps[n] {
			usedUF[d] = true
		}
	}
	for n := range usedUF {
		addAx(n)
	}
	// declarations
	b.WriteString("(declare-datatypes ((Ref 0)) (((null) (obj (oid Int)) (sub (sbase Ref) (sfid Int)) (elem (earr Ref) (eidx Int)))))\n")
	b.WriteString("(declare-sort Str 0)(declare-sort Bytes 0)(declare-sort F64 0)(declare-sort J 0)\n")
	var names []string
	for n := range usedUF {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		d := ufs[n]
		if d == nil {
			continue
		}
		fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", n, strings.Join(d.args, " "), d.res)
	}
	var lits []*Term
	var vars []*Term
	for _, t := range order {
		if t.op == "$" && (!t.hasBound || free[t]) {
			vars = append(vars, t)
		}
		if t.op == "lit" {
			lits = append(lits, t)
		}
	}
	for _, v := range vars {
		fmt.Fprintf(&b, "(declare-fun %s () %s)\n", v.name, v.sort)
	}
	for _, l := range lits {
		fmt.Fprintf(&b, "(declare-fun %s () Str) ; %q\n", l.name, trunc(litVals[l], 60))
	}
	if usedUF["slen"] {
		for _, l := range lits {
			fmt.Fprintf(&b, "(assert (= (slen %s) %d))\n", l.name, len(litVals[l]))
			if litVals[l] == "" && !dropQuant {
				fmt.Fprintf(&b, "(assert (forall ((s Str)) (! (=> (= (slen s) 0) (= s %s)) :pattern ((slen s)))))\n", l.name)
			}
		}
	}
	if len(lits) > 1 {
		b.WriteString("(assert (distinct")
		for _, l := range lits {
			b.WriteByte(' ')
			b.WriteString(l.name)
		}
		b.WriteString("))\n")
	}
	if !dropQuant {
		var an []string
		for n := range axNames {
			an = append(an, n)
		}
		sort.Strings(an)
		for _, n := range an {
			for _, ax := range ufAxioms[n] {
				fmt.Fprintf(&b, "(assert %s)\n", ax)
			}
		}
		for _, n := range sortedKeys(boundAx) {
			for _, ax := range boundAxioms[n] {
				fmt.Fprintf(&b, "(assert %s)\n", ax)
			}
		}
	} else if usedUF["rootid"] {
		// keep rootid usable without quantifiers: nothing
	}
	// definitions of shared terms
	named := map[*Term]string{}
	var pr func(t *Term) string
	level := 0
	pr = func(t *Term) string {
		if n, ok := named[t]; ok {
			return n
		}
		switch t.op {
		case "$", "lit":
			return t.name
		case "#":
			if t.num.Sign() < 0 {
				return "(- " + new(big.Int).Neg(t.num).String() + ")"
			}
			return t.num.String()
		case "true", "false", "null":
			return t.op
		case "constarr":
			return "((as const " + t.sort + ") " + pr(t.args[0]) + ")"
		case "forall":
			v := t.args[0]
			level++
			qn := fmt.Sprintf("q%d", level)
			old, had := named[v]
			named[v] = qn
			r := ""
			body := pr(t.args[1])
			if len(t.args) > 2 {
				var ps []string
				for _, p := range t.args[2:] {
					ps = append(ps, ":pattern ("+pr(p)+")")
				}
				r = fmt.Sprintf("(forall ((%s %s)) (! %s %s))", qn, v.sort, body, strings.Join(ps, " "))
			} else {
				r = fmt.Sprintf("(forall ((%s %s)) %s)", qn, v.sort, body)
			}
			if had {
				named[v] = old
			} else {
				delete(named, v)
			}
			level--
			return r
		}
		op := t.op
		if op == "uf" {
			op = t.name
		}
		if len(t.args) == 0 {
			return op
		}
		var sb strings.Builder
		sb.WriteByte('(')
		sb.WriteString(op)
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(pr(a))
		}
		sb.WriteByte(')')
		return sb.String()
	}
	for _, t := range order {
		if !t.hasBound && refcnt[t] > 1 && len(t.args) > 0 && t.size > 2 && t.op != "forall" {
			s := pr(t)
			n := fmt.Sprintf("t_%d", t.id)
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.sort, s)
			named[t] = n
		}
	}
	done := map[string]bool{}
	for _, a := range all {
		s := pr(a)
		if done[s] {
			continue
		}
		done[s] = true
		if weak[a] {
			fmt.Fprintf(&b, "(assert %s) ;weak\n", s)
			continue
		}
		fmt.Fprintf(&b, "(assert %s)\n", s)
	}
	return b.String()
}

var mentionsBarrMemo = map[*Term]bool{}

func mentionsBarr(t *Term) bool {
	if r, ok := mentionsBarrMemo[t]; ok {
		return r
	}
	r := t.op == "uf" && t.name == "barr"
	for _, a := range t.args {
		if r {
			break
		}
		r = mentionsBarr(a)
	}
	mentionsBarrMemo[t] = r
	return r
}

// lightQuery drops the weak assertions (the rest implies less, so an answer of unsat stands).
func lightQuery(q string) string {
	if !strings.Contains(q, " ;weak\n") {
		return ""
	}
	var b strings.Builder
	for _, l := range strings.SplitAfter(q, "\n") {
		if !strings.HasSuffix(l, " ;weak\n") {
			b.WriteString(l)
		}
	}
	return b.String()
}

func leRaw(a, b *Term) *Term { return intern("<=", "", nil, SBool, a, b) }

var bytesExtMemo = map[[2]*Term]*Term{}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// bytesDiffer: the lengths are known and different.
func bytesDiffer(a, b *Term) bool {
	x, y := blen(a), blen(b)
	return x.lo != nil && y.hi != nil && x.lo.Cmp(y.hi) > 0 || y.lo != nil && x.hi != nil && y.lo.Cmp(x.hi) > 0
}

// seqExt: two sequences are equal or differ at some position.
func seqExt(x, y *Term) *Term {
	if x.id > y.id {
		x, y = y, x
	}
	if t, ok := bytesExtMemo[[2]*Term{x, y}]; ok {
		return t
	}
	d := Fresh("sdiff", SInt)
	t := Or(Eq(x, y), Not(Eq(Select(x, d), Select(y, d))))
	bytesExtMemo[[2]*Term{x, y}] = t
	return t
}

func bytesExt(x, y *Term) *Term {
	if x == y {
		return True
	}
	if x.id > y.id {
		x, y = y, x
	}
	if t, ok := bytesExtMemo[[2]*Term{x, y}]; ok {
		return t
	}
	d := Fresh("bdiff", SInt)
	t := Or(Eq(x, y), Not(Eq(blen(x), blen(y))), And(Le(Int(0), d), Lt(d, blen(x)), Not(Eq(bat(x, d), bat(y, d)))))
	bytesExtMemo[[2]*Term{x, y}] = t
	return t
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---------------------------------------------------------------- processes

type z3proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

func startZ3() *z3proc {
	cmd := exec.Command("z3", "-in", "-smt2")
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	return &z3proc{cmd: cmd, in: in, out: bufio.NewReader(out)}
}

func (p *z3proc) kill() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

var feasProc *z3proc
var feasCount, feasTime = 0, time.Duration(0)
var feasCache = map[string]string{}

// quickCheck: quantifier-free satisfiability of a path condition. "sat","unsat","unknown"
func quickCheck(asserts []*Term) string {
	for _, a := range asserts {
		if a == False {
			return "unsat"
		}
	}
	q := buildQuery(asserts, true)
	if r, ok := feasCache[q]; ok {
		return r
	}
	t0 := time.Now()
	if feasProc == nil || feasProc.n > 400 {
		if feasProc != nil {
			feasProc.kill()
		}
		feasProc = startZ3()
		fmt.Fprintf(feasProc.in, "(set-option :timeout 400)\n(set-option :global-declarations false)\n")
	}
	feasProc.n++
	if d := os.Getenv("GOVC_FEAS"); d != "" {
		os.WriteFile(d, []byte(q), 0644)
	}
	fmt.Fprintf(feasProc.in, "(push)\n%s(check-sat)\n(pop)\n(echo \"done\")\n", q)
	res := "unknown"
	for {
		line, err := feasProc.out.ReadString('\n')
		if err != nil {
			feasProc = nil
			break
		}
		line = strings.TrimSpace(line)
		if line == "done" {
			break
		}
		if line == "sat" || line == "unsat" || line == "unknown" {
			res = line
		} else if strings.HasPrefix(line, "(error") {
			fmt.Fprintln(os.Stderr, "feas z3:", line)
			if os.Getenv("GOVC_DEBUG") != "" {
				os.WriteFile("/tmp/feas_err.smt2", []byte(q), 0644)
			}
		}
	}
	feasCount++
	feasTime += time.Since(t0)
	if d := time.Since(t0); debug && d > 100*time.Millisecond {
		fmt.Fprintf(os.Stderr, "  feas %s %v size %d\n", res, d.Round(time.Millisecond), len(q))
	}
	feasCache[q] = res
	return res
}

type solveResult struct {
	status string // unsat (discharged), sat, unknown
	solver string
	dur    time.Duration
	output string
}

var solverBudget = 20 * time.Second

// runSolver runs one external solver on a full script.
func runSolver(ctx context.Context, name string, args []string, script string) (string, string) {
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Stdin = strings.NewReader(script)
	out, _ := cmd.CombinedOutput()
	s := string(out)
	st := "unknown"
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			st = l
			break
		}
		if strings.HasPrefix(l, "(error") {
			st = "error"
			break
		}
	}
	return st, s
}

// solve decides validity: asserts includes the negated goal.
func solveQuery(asserts []*Term, wantModel bool) solveResult {
	buildMu.Lock()
	q := buildQuery(asserts, false)
	buildMu.Unlock()
	return solveText(q, wantModel)
}

var buildMu sync.Mutex

var solveDeadline time.Time

// solveText asks the back ends in turn; short limits the effort to the first one.
func solveText(q string, short bool) solveResult {
	if !solveDeadline.IsZero() && time.Now().After(solveDeadline) {
		return solveResult{status: "unknown", output: "time limit of the check reached"}
	}
	t0 := time.Now()
	// stage 1: z3 short, all back ends afterwards
	type att struct {
		name string
		args []string
		pre  string
		to   time.Duration
	}
	b := solverBudget
	nombqi := "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n"
	z3args := []string{"-in", "-smt2"}
	cvc := []string{"--lang", "smt2", "--full-saturate-quant", "-"}
	q1 := b / 12
	atts := []att{
		{"z3", z3args, nombqi, q1},
		{"cvc5", cvc, "(set-logic ALL)\n", q1},
		{"z3-new", z3args, "", q1},
		{"z3", z3args, "", b / 4},
		{"cvc5", cvc, "(set-logic ALL)\n", b / 2},
		{"z3", z3args, nombqi, b / 2},
		{"z3-new", z3args, "", b},
		{"cvc5", cvc, "(set-logic ALL)\n", b},
		{"z3", []string{"-in", "-smt2", "smt.random_seed=7"}, nombqi + "(set-option :smt.arith.solver 2)\n", b},
	}
	last := solveResult{status: "unknown"}
	if l := lightQuery(q); l != "" {
		to := b / 24
		ctx, cancel := context.WithTimeout(context.Background(), to+500*time.Millisecond)
		st, _ := runSolver(ctx, "z3", z3args, nombqi+fmt.Sprintf("(set-option :timeout %d)\n", to.Milliseconds())+l+"(check-sat)\n")
		cancel()
		if st == "unsat" {
			return solveResult{status: "unsat", solver: "z3", dur: time.Since(t0)}
		}
	}
	for i, a := range atts {
		ctx, cancel := context.WithTimeout(context.Background(), a.to+500*time.Millisecond)
		script := a.pre
		if strings.HasPrefix(a.name, "z3") {
			script += fmt.Sprintf("(set-option :timeout %d)\n", a.to.Milliseconds())
		}
		script += q + "(check-sat)\n"
		if short && i >= 2 {
			break
		}
		st, out := runSolver(ctx, a.name, a.args, script)
		cancel()
		if st == "unsat" {
			return solveResult{status: "unsat", solver: a.name, dur: time.Since(t0)}
		}
		if st == "error" {
			last.output = out
			if os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, a.name, trunc(out, 300))
			}
			continue
		}
		if st == "sat" && i != 0 && a.name != "cvc5" {
			return solveResult{status: "sat", solver: a.name, dur: time.Since(t0), output: out}
		}
		if st == "sat" {
			last = solveResult{status: "sat", solver: a.name, output: out}
			return solveResult{status: "sat", solver: a.name, dur: time.Since(t0), output: out}
		}
	}
	last.dur = time.Since(t0)
	return last
}

// the non-array variables of a term
var symsMemo = map[*Term]map[*Term]bool{}

func symsOf(t *Term) map[*Term]bool {
	if m, ok := symsMemo[t]; ok {
		return m
	}
	m := map[*Term]bool{}
	if t.op == "$" && !strings.HasPrefix(string(t.sort), "(Array") {
		m[t] = true
	}
	for _, a := range t.args {
		for v := range symsOf(a) {
			m[v] = true
		}
	}
	symsMemo[t] = m
	return m
}

// relevant: the conjuncts of a long path condition that share variables with a branch condition,
// directly or through others. Leaving the rest out can only find fewer contradictions.
func relevant(pc []*Term, c *Term) []*Term {
	if len(pc) < feasSliceMin {
		return pc
	}
	// variables that occur nearly everywhere connect nothing
	freq := map[*Term]int{}
	for _, t := range pc {
		for v := range symsOf(t) {
			freq[v]++
		}
	}
	hub := func(v *Term) bool { return v.sort == SRef && freq[v] > 12 }
	in := map[*Term]bool{}
	for v := range symsOf(c) {
		if !hub(v) {
			in[v] = true
		}
	}
	used := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i, t := range pc {
			if used[i] {
				continue
			}
			ok := t == c
			s := symsOf(t)
			for v := range s {
				if in[v] {
					ok = true
					break
				}
			}
			if ok {
				used[i] = true
				changed = true
				for v := range s {
					if !hub(v) {
						in[v] = true
					}
				}
			}
		}
	}
	var r []*Term
	for i, t := range pc {
		if used[i] {
			r = append(r, t)
		}
	}
	if debug {
		fmt.Fprintf(os.Stderr, "  slice %d of %d\n", len(r), len(pc))
	}
	return r
}

var feasSliceMin = 120
