package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"
var verifDir = "/verif"

const modPrefix = "github.com/ConsenSys/fc-retrieval/"

type specFile struct {
	path string // file under contracts/
	rel  string // package directory relative to /repo
	text string
}

func specFiles() []specFile {
	var r []specFile
	root := filepath.Join(verifDir, "contracts")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		b, _ := os.ReadFile(p)
		rel, _ := filepath.Rel(root, filepath.Dir(p))
		r = append(r, specFile{p, rel, string(b)})
		return nil
	})
	sort.Slice(r, func(i, j int) bool { return r[i].path < r[j].path })
	return r
}

var pkgClause = regexp.MustCompile(`(?m)^package (\w+)`)
var propsRe = regexp.MustCompile(`(?m)^//gv:props (\S+)`)

// overlay: contract files and the per-package prelude, as files of /repo packages
func buildOverlay(files []specFile) map[string][]byte {
	ov := map[string][]byte{}
	for _, f := range files {
		dir := filepath.Join(repoDir, f.rel)
		base := "zz_gv_" + filepath.Base(f.path)
		ov[filepath.Join(dir, base)] = []byte(f.text)
		m := pkgClause.FindStringSubmatch(f.text)
		if m != nil {
			ov[filepath.Join(dir, "zz_gv_prelude.go")] = []byte(strings.Replace(preludeSrc, "package PKG", "package "+m[1], 1))
		}
	}
	return ov
}

type Program struct {
	mod  string
	prog *ssa.Program
	pkgs []*packages.Package
	cons map[*ssa.Function]*Contract // by target (modular)
	all  []*Contract
	ifc  map[string]*Contract
}

func goEnv() []string {
	return os.Environ()
}

// loadModule loads the packages of module mod that have contract files for it plus every
// repository package they depend on, with the contracts overlaid.
func loadModule(mod string, rels []string, ov map[string][]byte) (*Program, error) {
	dir := filepath.Join(repoDir, mod)
	// write overlay json for go list
	tmp, err := os.MkdirTemp("", "govc")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	ovj := writeOverlay(tmp, ov)
	args := []string{"list", "-overlay", ovj, "-deps", "-f", "{{.ImportPath}}"}
	for _, r := range rels {
		args = append(args, modPrefix+r)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = goEnv()
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, eb.String())
	}
	var roots []string
	for _, l := range strings.Fields(string(out)) {
		if strings.HasPrefix(l, modPrefix) {
			roots = append(roots, l)
		}
	}
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Env: goEnv(), Overlay: ov}
	pk, err := packages.Load(cfg, roots...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pk {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the contracts do not compile against the current tree:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{mod: mod, prog: prog, pkgs: pk, cons: map[*ssa.Function]*Contract{}, ifc: map[string]*Contract{}}
	for _, p := range pk {
		if err := P.discover(p); err != nil {
			return nil, err
		}
	}
	return P, nil
}

func writeOverlay(tmp string, ov map[string][]byte) string {
	rep := map[string]string{}
	i := 0
	for k, v := range ov {
		f := filepath.Join(tmp, fmt.Sprintf("f%d_%s", i, filepath.Base(k)))
		i++
		os.WriteFile(f, v, 0644)
		rep[k] = f
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovj := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovj, b, 0644)
	return ovj
}

func (P *Program) discover(p *packages.Package) error {
	sp := P.prog.Package(p.Types)
	if sp == nil {
		return nil
	}
	rel := strings.TrimPrefix(p.PkgPath, modPrefix)
	invs := map[string]*InvTemplate{}
	var cons []*Contract
	for i, f := range p.Syntax {
		name := p.CompiledGoFiles[i]
		if !strings.Contains(filepath.Base(name), "zz_gv_") {
			continue
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			if strings.HasPrefix(fd.Name.Name, "inv_") {
				invs[fd.Name.Name] = &InvTemplate{fn: sp.Func(fd.Name.Name)}
			}
			if !strings.HasPrefix(fd.Name.Name, "contract_") {
				continue
			}
			c := &Contract{Name: rel + "." + strings.TrimPrefix(fd.Name.Name, "contract_"), Pkg: rel, Fn: sp.Func(fd.Name.Name), FreshRes: map[int]bool{}, Inline: map[string]bool{}, FrameOnly: map[string]bool{}, Skip: map[string]bool{}}
			c.File = strings.Replace(filepath.Base(name), "zz_gv_", "", 1)
			c.Line = p.Fset.Position(fd.Pos()).Line
			parseDirectives(c, fd.Doc)
			cons = append(cons, c)
		}
	}
	for _, c := range cons {
		if c.targetID != "" {
			c.Target = P.resolve(sp, c.targetID)
			if c.Target == nil {
				return fmt.Errorf("contract %s: target %s not found in the current tree", c.Name, c.targetID)
			}
		}
		for _, u := range c.useStr {
			if invs[u] == nil {
				return fmt.Errorf("contract %s: no invariant template %s", c.Name, u)
			}
			c.Invs = append(c.Invs, invs[u])
		}
		for _, h := range c.hookStr {
			fn := sp.Func(h[1])
			if fn == nil {
				return fmt.Errorf("contract %s: no hook function %s", c.Name, h[1])
			}
			c.Hooks = append(c.Hooks, callHook{callee: h[0], fn: fn, after: h[2] == "a"})
		}
		for _, h := range c.intfStr {
			fn := sp.Func(h[2])
			i := strings.Index(h[0], ".")
			if fn == nil || i < 0 {
				return fmt.Errorf("contract %s: no interference function %s", c.Name, h[2])
			}
			c.Intf = append(c.Intf, interf{h[0][:i], h[0][i+1:], strings.FieldsFunc(h[1], func(r rune) bool { return r == ',' }), fn})
		}
		for _, g := range c.guardStr {
			i := strings.LastIndex(g[0], ".")
			tn := sp.Type(g[0][:i])
			if tn == nil {
				return fmt.Errorf("contract %s: no type %s", c.Name, g[0])
			}
			t := tn.Type()
			fi := fieldIndex(t, g[1])
			if fi < 0 || fieldIndex(t, g[0][i+1:]) < 0 {
				return fmt.Errorf("contract %s: guarded field %s or lock %s is gone", c.Name, g[0], g[1])
			}
			c.Guards = append(c.Guards, guard{"F:" + typeKey(t) + "." + g[0][i+1:], fieldID(t, fi), g[2]})
		}
		if c.Modular && c.Target != nil {
			P.cons[c.Target] = c
		}
		if c.Iface != "" {
			P.ifc[c.Iface] = c
		}
		P.all = append(P.all, c)
	}
	return nil
}

func (P *Program) resolve(sp *ssa.Package, id string) *ssa.Function {
	if i := strings.Index(id, " "); i > 0 { // "pkgrel name"
		q := P.prog.ImportedPackage(modPrefix + id[:i])
		if q == nil {
			return nil
		}
		return P.resolve(q, strings.TrimSpace(id[i+1:]))
	}
	if !strings.HasPrefix(id, "(") {
		return sp.Func(id)
	}
	j := strings.Index(id, ")")
	tn, mn := strings.Trim(id[:j+1], "(*)"), id[j+2:]
	t := sp.Type(tn)
	if t == nil {
		return nil
	}
	ty := t.Type()
	var fn *ssa.Function
	if strings.HasPrefix(id, "(*") {
		fn = P.prog.LookupMethod(ptrTo(ty), sp.Pkg, mn)
	} else {
		fn = P.prog.LookupMethod(ty, sp.Pkg, mn)
	}
	return fn
}

type conResult struct {
	con     *Contract
	x       *Exec
	err     error
	obls    []*Oblig
	wall    time.Duration
	vacuous string
}

func (P *Program) run(c *Contract) *conResult {
	t0 := time.Now()
	x := NewExec(P.prog)
	x.contracts = P.cons
	x.ifaceCons = P.ifc
	r := &conResult{con: c, x: x}
	r.err = x.VerifyContract(c)
	r.obls = x.obls
	r.wall = time.Since(t0)
	return r
}

// solveAll discharges the obligations in parallel.
func solveAll(rs []*conResult) {
	var work []*Oblig
	for _, r := range rs {
		for _, o := range r.obls {
			if !o.trivial {
				work = append(work, o)
			}
		}
	}
	ch := make(chan *Oblig)
	var wg sync.WaitGroup
	type ent struct {
		once sync.Once
		res  solveResult
	}
	memo := map[string]*ent{}
	failed := map[string]int{}
	var mu sync.Mutex
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for o := range ch {
				buildMu.Lock()
				q := buildQuery(o.asserts, false)
				buildMu.Unlock()
				mu.Lock()
				e := memo[q]
				if e == nil {
					e = &ent{}
					memo[q] = e
				}
				mu.Unlock()
				mu.Lock()
				short := failed[o.Contract] >= 4
				mu.Unlock()
				e.once.Do(func() { e.res = solveText(q, short) })
				if e.res.status != "unsat" {
					mu.Lock()
					failed[o.Contract]++
					mu.Unlock()
				}
				o.res = e.res
				o.text = q
			}
		}()
	}
	for _, o := range work {
		ch <- o
	}
	close(ch)
	wg.Wait()
}

// vacuity: the target must be reachable and some path must reach the end under the assumptions.
func checkVacuity(rs []*conResult) {
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, r := range rs {
		if r.err != nil {
			continue
		}
		r := r
		sets := r.x.exits
		if len(sets) == 0 {
			r.vacuous = "no path of the contract reaches its end"
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			// at least one exit must not be refutable
			n := len(sets)
			for i := 0; i < n && i < 12; i++ {
				buildMu.Lock()
				q := buildQuery(sets[i], false)
				buildMu.Unlock()
				if solveOnce(q, 3*time.Second) != "unsat" {
					return
				}
			}
			if n > 12 {
				return
			}
			r.vacuous = "the assumptions of every path are contradictory"
		}()
	}
	wg.Wait()
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc check|debug|list ...")
		os.Exit(2)
	}
	if d := os.Getenv("GOVC_REPO"); d != "" {
		repoDir = d
	}
	if d := os.Getenv("GOVC_VERIF"); d != "" {
		verifDir = d
	}
	if p := os.Getenv("GOVC_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		time.AfterFunc(30*time.Second, pprof.StopCPUProfile)
		defer pprof.StopCPUProfile()
	}
	switch os.Args[1] {
	case "check":
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		prop := fs.String("property", "", "")
		tier := fs.String("tier", "quick", "")
		fs.Parse(os.Args[2:])
		os.Exit(check(*prop, *tier))
	case "debug":
		fs := flag.NewFlagSet("debug", flag.ExitOnError)
		name := fs.String("c", "", "regexp of contract names")
		mod := fs.String("m", "", "module")
		dump := fs.String("dump", "", "directory for failing queries")
		fals := fs.Bool("f", false, "also run the concrete falsifier")
		only := fs.Bool("fo", false, "only run the falsifier")
		budget := fs.Int("b", 20, "solver budget (s)")
		fs.Parse(os.Args[2:])
		solverBudget = time.Duration(*budget) * time.Second
		os.Exit(debugRun(*mod, *name, *dump, *fals, *only))
	case "replay":
		fs := flag.NewFlagSet("replay", flag.ExitOnError)
		name := fs.String("c", "", "contract name (package/dir.Name)")
		seed := fs.Int64("seed", 1, "")
		iter := fs.Int64("iter", 0, "")
		fs.Parse(os.Args[2:])
		os.Exit(replay(*name, *seed, *iter))
	case "overlay":
		// write overlay files for manual use: govc overlay DIR
		os.MkdirAll(os.Args[2], 0755)
		fmt.Println(writeOverlay(os.Args[2], buildOverlay(specFiles())))
	default:
		os.Exit(2)
	}
}

func modOf(rel string) string { return strings.SplitN(rel, "/", 2)[0] }

func debugRun(mod, name, dump string, fals, only bool) int {
	files := specFiles()
	re := regexp.MustCompile(name)
	mods := map[string]map[string]bool{}
	for _, f := range files {
		m := modOf(f.rel)
		if mod != "" && m != mod {
			continue
		}
		hit := false
		for _, l := range strings.Split(f.text, "\n") {
			if strings.HasPrefix(l, "func contract_") {
				n := f.rel + "." + strings.TrimPrefix(l[:strings.Index(l, "(")], "func contract_")
				if re.MatchString(n) {
					hit = true
				}
			}
		}
		if hit {
			if mods[m] == nil {
				mods[m] = map[string]bool{}
			}
			mods[m][f.rel] = true
		}
	}
	bad := 0
	for m, rels := range mods {
		t0 := time.Now()
		var rl []string
		for r := range rels {
			rl = append(rl, r)
		}
		ov := buildOverlay(files)
		P, err := loadModule(m, rl, ov)
		if err != nil {
			fmt.Println(err)
			return 1
		}
		fmt.Printf("loaded %s in %v\n", m, time.Since(t0))
		var rs []*conResult
		for _, c := range P.all {
			if !re.MatchString(c.Name) || c.Assumed != "" {
				continue
			}
			if !only {
				r := P.run(c)
				rs = append(rs, r)
				if r.wall > 2*time.Second || len(r.obls) > 500 {
					fmt.Fprintf(os.Stderr, "gen %s %v %d obligations %d paths\n", c.Name, r.wall.Round(time.Millisecond), len(r.obls), r.x.paths)
				}
			} else {
				rs = append(rs, &conResult{con: c, x: NewExec(P.prog)})
			}
		}
		if !only {
			solveAll(rs)
			checkVacuity(rs)
		}
		for _, r := range rs {
			n, ok := 0, 0
			for _, o := range r.obls {
				n++
				if o.res.status == "unsat" {
					ok++
				}
			}
			st := "ok"
			if r.err != nil || ok != n || r.vacuous != "" {
				st = "FAIL"
				bad++
			}
			fmt.Printf("%-4s %s: %d/%d obligations, %d paths, %v\n", st, r.con.Name, ok, n, r.x.paths, r.wall.Round(time.Millisecond))
			if r.err != nil {
				fmt.Println("   ", r.err)
			}
			if r.vacuous != "" {
				fmt.Println("    VACUOUS:", r.vacuous)
			}
			for i, o := range r.obls {
				if o.res.status != "unsat" {
					fmt.Printf("    %s %s [%s] at %s: %s (%v)\n", o.res.status, o.Label, o.Kind, o.Pos, trunc(o.goal.String(), 400), o.res.dur.Round(time.Millisecond))
					if dump != "" {
						os.MkdirAll(dump, 0755)
						os.WriteFile(filepath.Join(dump, fmt.Sprintf("%s_%d.smt2", sanitize(r.con.Name), i)), []byte(o.text+"(check-sat)\n(get-model)\n"), 0644)
					}
				} else if o.res.dur > 3*time.Second {
					fmt.Printf("    slow: %s [%s] %v by %s\n", o.Label, o.Kind, o.res.dur.Round(time.Millisecond), o.res.solver)
				}
			}
			if len(r.x.unmodeled) > 0 {
				fmt.Println("    unmodeled:", keysOf(r.x.unmodeled))
			}
			for a := range r.x.assumptions {
				fmt.Println("    assume:", a)
			}
		}
		if fals || only {
			for _, r := range rs {
				if r.con.NoFals {
					continue
				}
				res := falsify(r.con, 1, 20*time.Second)
				fmt.Printf("falsify %s: %s\n", r.con.Name, res.summary())
			}
		}
	}
	return bad
}

func keysOf(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
