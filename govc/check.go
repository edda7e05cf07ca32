package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// engineTrust: what every verdict rests on besides the listed assumptions.
var engineTrust = []string{
	"govc: the VC generator of /verif/govc (symbolic execution of go/ssa built from /repo's current source, contracts as preconditions/postconditions/loop invariants)",
	"golang.org/x/tools/go/ssa and the Go type checker as the meaning of the source",
	"z3 / cvc5 answers of unsat",
	"library models of govc/models.go and govc/json.go (encoding/json, encoding/hex, encoding/base64, encoding/binary, math/big, sha/blake2b/secp256k1 as uninterpreted functions, time, sync)",
	"memory model: distinct allocations are distinct; calls do not run concurrently with the function under contract (schedules are out of reach of this back end, see DESIGN.md)",
}

type failure struct {
	con    *Contract
	label  string
	kind   string
	pos    string
	detail string
	text   string
	status string
	solver string
	trace  []string
	fals   *falsFail
	known  string
}

func (f *failure) key() string {
	return fmt.Sprintf("contract=%s label=%s", f.con.Name, f.label)
}

// known findings: lines "finding: property=<id> contract=<name> label=<label> [at=<substring of position or detail>] :: text"
type knownFinding struct {
	prop, con, label, at, text string
}

func readKnown() []knownFinding {
	b, _ := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	var r []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		var k knownFinding
		head := strings.SplitN(l[len("finding:"):], "::", 2)
		for _, w := range strings.Fields(head[0]) {
			kv := strings.SplitN(w, "=", 2)
			if len(kv) != 2 {
				continue
			}
			switch kv[0] {
			case "property":
				k.prop = kv[1]
			case "contract":
				k.con = kv[1]
			case "label":
				k.label = kv[1]
			case "at":
				k.at = kv[1]
			}
		}
		if len(head) == 2 {
			k.text = strings.TrimSpace(head[1])
		}
		r = append(r, k)
	}
	return r
}

func hasProp(c *Contract, p string) bool {
	for _, q := range c.Props {
		if q == p {
			return true
		}
	}
	return false
}

func stripLabel(l string) string {
	if i := strings.Index(l, " ("); i > 0 {
		return l[:i]
	}
	return l
}

func fileHasProp(f specFile, prop string) bool {
	for _, m := range propsRe.FindAllStringSubmatch(f.text, -1) {
		for _, p := range strings.Split(m[1], ",") {
			if p == prop {
				return true
			}
		}
	}
	return false
}

func check(prop, tier string) int {
	t0 := time.Now()
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			seed = n
		}
	}
	deadline := t0.Add(560 * time.Second)
	solverBudget = 15 * time.Second
	if tier == "thorough" {
		solverBudget = 60 * time.Second
		deadline = t0.Add(3 * time.Hour)
	}
	files := specFiles()
	mods := map[string][]string{}
	seenRel := map[string]bool{}
	for _, f := range files {
		if fileHasProp(f, prop) && !seenRel[f.rel] {
			seenRel[f.rel] = true
			mods[modOf(f.rel)] = append(mods[modOf(f.rel)], f.rel)
		}
	}
	if len(mods) == 0 {
		fmt.Fprintf(os.Stderr, "no contract belongs to property %s\n", prop)
		return 2
	}
	var mnames []string
	for m := range mods {
		mnames = append(mnames, m)
	}
	sort.Strings(mnames)
	var results []*conResult
	var fails []*failure
	done := map[string]bool{}
	nAssumed := map[string]string{}
	bounded := map[string]string{}
	var boundedCons []*Contract
	loadFail := ""
	for _, m := range mnames {
		fs := append([]specFile(nil), files...)
		var P *Program
		var err error
		var dropped []string
		for try := 0; try < 6; try++ {
			P, err = loadModule(m, mods[m], buildOverlay(fs))
			if err == nil {
				break
			}
			// drop contract files of other properties that no longer fit the tree
			var keep []specFile
			for _, f := range fs {
				if !fileHasProp(f, prop) && strings.Contains(err.Error(), filepath.Join(f.rel, "zz_gv_"+filepath.Base(f.path))) {
					dropped = append(dropped, f.path)
					continue
				}
				keep = append(keep, f)
			}
			if len(keep) == len(fs) {
				break
			}
			fs = keep
		}
		if err != nil {
			loadFail += err.Error() + "\n"
			continue
		}
		for _, d := range dropped {
			fmt.Fprintf(os.Stderr, "note: contracts of %s do not fit the current tree and were left out of this check\n", d)
		}
		byName := map[string]*Contract{}
		var queue []*Contract
		for _, c := range P.all {
			byName[c.Name] = c
			if hasProp(c, prop) && modOf(c.Pkg) == m && (!c.Thorough || tier == "thorough") {
				queue = append(queue, c)
			}
		}
		for len(queue) > 0 {
			c := queue[0]
			queue = queue[1:]
			if done[c.Name] {
				continue
			}
			done[c.Name] = true
			if c.Assumed != "" {
				nAssumed[c.Name] = c.Assumed
				continue
			}
			if c.Bounded != "" {
				bounded[c.Name] = c.Bounded
				boundedCons = append(boundedCons, c)
				continue
			}
			r := P.run(c)
			results = append(results, r)
			var us []string
			for u := range r.x.usedCon {
				us = append(us, u)
			}
			sort.Strings(us)
			for _, u := range us {
				if byName[u] != nil {
					queue = append(queue, byName[u])
				}
			}
		}
	}
	// obligations that count: this property's labels, and everything of contracts relied on
	for _, r := range results {
		if !hasProp(r.con, prop) {
			continue
		}
		var keep []*Oblig
		for _, o := range r.obls {
			if len(o.Label) > 3 && o.Label[0] == 'C' && o.Label[3] == '.' && !strings.HasPrefix(o.Label, prop+".") && !r.con.Modular {
				continue
			}
			keep = append(keep, o)
		}
		r.obls = keep
	}
	solveDeadline = deadline
	solveAll(results)
	checkVacuity(results)
	stats := map[string]int{}
	solverTime := time.Duration(0)
	nObl, nDis := 0, 0
	for _, r := range results {
		if r.err != nil {
			fails = append(fails, &failure{con: r.con, label: prop + ".verifier-reach", kind: "unsupported", detail: r.err.Error()})
		}
		if r.vacuous != "" {
			fails = append(fails, &failure{con: r.con, label: prop + ".vacuous", kind: "vacuous", detail: r.vacuous})
		}
		for _, o := range r.obls {
			nObl++
			solverTime += o.res.dur
			if o.res.status == "unsat" {
				nDis++
				if o.trivial {
					stats["simplifier"]++
				} else {
					stats[o.res.solver]++
				}
				continue
			}
			fails = append(fails, &failure{con: r.con, label: o.Label, kind: o.Kind, pos: o.Pos, detail: "goal: " + trunc(o.goal.String(), 3000), text: o.text, status: o.res.status, solver: o.res.output, trace: o.trace})
		}
	}
	if loadFail != "" {
		fails = append(fails, &failure{con: &Contract{Name: "load", Pkg: "", NoFals: true}, label: prop + ".contracts-fit-the-tree", kind: "load", detail: loadFail})
	}
	// known findings
	known := readKnown()
	var open []*failure
	knownHit := map[string]bool{}
	for _, f := range fails {
		for _, k := range known {
			if k.prop == prop && k.con == f.con.Name && k.label == stripLabel(f.label) && (k.at == "" || strings.Contains(f.pos, k.at)) {
				f.known = k.text
				knownHit[k.con+" "+k.label+" "+k.text] = true
			}
		}
		if f.known == "" {
			open = append(open, f)
		}
	}
	// replay: run the failing contracts on the real code with generated inputs
	falsRuns := map[string]string{}
	tried := map[string]bool{}
	falsFor := func(c *Contract, budget time.Duration) {
		if c.NoFals || tried[c.Name] || c.Fn == nil || time.Now().After(deadline.Add(120*time.Second)) {
			return
		}
		tried[c.Name] = true
		fr := falsify(c, int64(seed), budget)
		falsRuns[c.Name] = fr.summary()
		for i := range fr.fails {
			ff := fr.fails[i]
			l := stripLabel(ff.Label)
			if len(l) > 3 && l[0] == 'C' && l[3] == '.' && !strings.HasPrefix(l, prop+".") && !c.Modular {
				continue
			}
			kn := false
			for _, k := range known {
				if k.prop == prop && k.con == c.Name && k.label == l && k.at == "" {
					kn = true
				}
			}
			if kn {
				continue
			}
			hit := false
			for _, f := range open {
				if f.con == c && stripLabel(f.label) == l && f.fals == nil {
					f.fals = &ff
					hit = true
				}
			}
			if !hit {
				open = append(open, &failure{con: c, label: l, kind: "replay", detail: "found by running the contract on the real code", fals: &ff})
			}
		}
	}
	for i := 0; i < len(open); i++ {
		falsFor(open[i].con, 15*time.Second)
	}
	// bounded stand-ins: contracts executed on the real code, within their stated bound
	bRuns := int64(0)
	var bSamples []string
	for _, c := range boundedCons {
		budget := 45 * time.Second
		if tier == "thorough" {
			budget = 600 * time.Second
		}
		fr := falsifyName(c.Pkg, strings.TrimPrefix(c.Fn.Name(), "contract_"), c.NoPanic, int64(seed), -1, budget)
		falsRuns[c.Name] = fr.summary()
		bRuns += fr.kept
		bSamples = append(bSamples, fr.samples...)
		if fr.err != "" {
			open = append(open, &failure{con: c, label: prop + ".bounded-run", kind: "bounded", detail: fr.err})
		}
		for i := range fr.fails {
			open = append(open, &failure{con: c, label: stripLabel(fr.fails[i].Label), kind: "bounded", detail: "found by running the contract on the real code: " + fr.fails[i].Label, fals: &fr.fails[i]})
		}
	}
	if tier == "thorough" {
		for _, r := range results {
			falsFor(r.con, 60*time.Second)
		}
	}
	// one VIOLATION line per failing label
	exit := 0
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	os.MkdirAll(filepath.Join(verifDir, "replay"), 0755)
	for _, f := range fails {
		if f.known != "" && knownHit[f.con.Name+" "+stripLabel(f.label)+" "+f.known] {
			knownHit[f.con.Name+" "+stripLabel(f.label)+" "+f.known] = false
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.known)
		}
	}
	printed := map[string]bool{}
	sort.SliceStable(open, func(i, j int) bool { return open[i].fals != nil && open[j].fals == nil })
	for i, f := range open {
		exit = 1
		if printed[f.key()] {
			continue
		}
		printed[f.key()] = true
		rp := filepath.Join(verifDir, "replay", fmt.Sprintf("%s_%d.txt", prop, i))
		os.WriteFile(rp, []byte(f.report()), 0644)
		suffix := ""
		if f.fals == nil {
			suffix = " no-failing-input-found"
		}
		fmt.Printf("failed obligation: %s [%s] %s at %s %s\n", f.key(), f.kind, f.status, f.pos, trunc(strings.ReplaceAll(f.detail, "\n", " "), 300))
		if f.fals != nil {
			fmt.Printf("  failing input: %s\n", trunc(strings.Join(f.fals.Inputs, " ; "), 500))
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, rp, suffix)
	}
	// evidence
	assume := map[string]bool{}
	targets, inl, models := map[string]bool{}, map[string]bool{}, map[string]bool{}
	unm := map[string]bool{}
	paths := 0
	perCon := map[string]string{}
	for _, r := range results {
		if r.con.Target != nil {
			targets[shortFn(r.con.Target)] = true
		}
		ok := 0
		for _, o := range r.obls {
			if o.res.status == "unsat" {
				ok++
			}
		}
		perCon[r.con.Name] = fmt.Sprintf("%d/%d obligations, %d paths, %.2fs generation", ok, len(r.obls), r.x.paths, r.wall.Seconds())
		for k := range r.x.inlined {
			inl[k] = true
		}
		for k := range r.x.unmodeled {
			unm[k] = true
		}
		for k := range r.x.usedModels {
			models[k] = true
		}
		for k := range r.x.assumptions {
			assume[k] = true
		}
		paths += r.x.paths
	}
	for k, v := range nAssumed {
		assume["assumed contract "+k+": "+v] = true
	}
	for k := range unm {
		assume["external call without a contract, results arbitrary: "+k] = true
	}
	for k, v := range bounded {
		assume["bounded, not counted as proved: "+k+": "+v] = true
	}
	cov := map[string]interface{}{
		"obligations": nObl, "discharged": nDis,
		"checker_cmd":              fmt.Sprintf("cd /verif && ./check.sh %s %s", prop, tier),
		"trusted_base":             engineTrust,
		"functions_under_contract": boolKeys(targets),
		"functions_executed_from_source_inside_contracts": boolKeys(inl),
		"library_models_used":                             boolKeys(models),
		"contracts":                                       perCon,
		"symbolic_paths":                                  paths,
		"discharged_by":                                   stats,
		"solver_time_s":                                   solverTime.Seconds(),
		"replay_runs":                                     falsRuns,
		"bounded_contracts":                               bounded,
		"known_findings_shown":                            len(fails) - countOpen(fails),
	}
	level := "proof"
	if len(boundedCons) > 0 {
		level = "other"
		cov["explanation"] = "the contracts listed under bounded_contracts are executed on the real code within the bound they state and are not proved; every other contract is discharged for all inputs"
		cov["evaluations"] = bRuns
		cov["samples"] = bSamples
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": boolKeys(assume), "wall_s": time.Since(t0).Seconds(), "violations": len(printed)}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0644)
	fmt.Printf("%s %s: %d/%d obligations discharged over %d contracts, %d paths, %.1fs\n", prop, tier, nDis, nObl, len(results), paths, time.Since(t0).Seconds())
	return exit
}

func countOpen(fs []*failure) int {
	n := 0
	for _, f := range fs {
		if f.known == "" {
			n++
		}
	}
	return n
}

func boolKeys(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (f *failure) report() string {
	var b strings.Builder
	fmt.Fprintf(&b, "contract: %s (contracts/%s/%s:%d)\nobligation: %s\nkind: %s\nat: %s\nstatus: %s\n%s\n", f.con.Name, f.con.Pkg, f.con.File, f.con.Line, f.label, f.kind, f.pos, f.status, f.detail)
	if f.fals != nil {
		fmt.Fprintf(&b, "\nfailing input (replay: cd /verif && ./replay.sh %s %d %d):\n%s\n", f.con.Name, f.fals.Seed, f.fals.Iter, strings.Join(f.fals.Inputs, "\n"))
	} else {
		b.WriteString("\nno-failing-input-found\n")
	}
	if len(f.trace) > 0 {
		fmt.Fprintf(&b, "\npath:\n%s\n", strings.Join(f.trace, "\n"))
	}
	if f.solver != "" {
		fmt.Fprintf(&b, "\nverifier output:\n%s\n", f.solver)
	}
	if f.text != "" {
		fmt.Fprintf(&b, "\nquery:\n%s\n", f.text)
	}
	return b.String()
}
