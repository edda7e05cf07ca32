package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

type falsFail struct {
	Label  string   `json:"label"`
	Seed   int64    `json:"seed"`
	Iter   int64    `json:"iter"`
	Inputs []string `json:"inputs"`
}

type falsResult struct {
	fails      []falsFail
	runs, kept int64
	err        string
	samples    []string
}

func (r *falsResult) summary() string {
	s := fmt.Sprintf("%d runs, %d within the precondition, %d failing labels %s", r.runs, r.kept, len(r.fails), r.err)
	for _, f := range r.fails {
		s += fmt.Sprintf("\n    FALSIFIED %s iter %d: %s", f.Label, f.Iter, trunc(strings.Join(f.Inputs, " ; "), 600))
	}
	return s
}

var conFnRe = regexp.MustCompile(`(?m)^func (contract_\w+)\(`)
var genFnRe = regexp.MustCompile(`(?m)^func gen_(\w+)\(`)
var genTypeRe = regexp.MustCompile(`(?m)^//gv:gentype (\S+) (\w+)`)

// falsOverlay: everything needed to run the contracts of one package concretely
func falsOverlay(rel string) map[string][]byte {
	files := specFiles()
	ov := buildOverlay(files)
	pkg := ""
	var table, gent strings.Builder
	gens := map[string]bool{}
	for _, f := range files {
		if f.rel == rel {
			for _, m := range genFnRe.FindAllStringSubmatch(f.text, -1) {
				gens[m[1]] = true
			}
		}
	}
	for _, f := range files {
		if f.rel != rel {
			continue
		}
		pkg = pkgClause.FindStringSubmatch(f.text)[1]
		for _, m := range conFnRe.FindAllStringSubmatch(f.text, -1) {
			n := strings.TrimPrefix(m[1], "contract_")
			g := "nil"
			if gens[n] {
				g = "gen_" + n
			}
			fmt.Fprintf(&table, "\t%q: {%s, %s},\n", n, m[1], g)
		}
		for _, m := range genTypeRe.FindAllStringSubmatch(f.text, -1) {
			fmt.Fprintf(&gent, "\treflect.TypeOf((*%s)(nil)).Elem(): func(r *rand.Rand) interface{} { return %s(r) },\n", m[1], m[2])
		}
	}
	src := strings.Replace(falsTestSrc, "package PKG", "package "+pkg, 1)
	src = strings.Replace(src, "TABLE", table.String(), 1)
	src = strings.Replace(src, "GENTYPES", gent.String(), 1)
	ov[filepath.Join(repoDir, rel, "zz_gv_falsify_test.go")] = []byte(src)
	return ov
}

// falsify runs the contract concretely on the real code with generated inputs.
func falsify(c *Contract, seed int64, budget time.Duration) *falsResult {
	return falsifyName(c.Pkg, strings.TrimPrefix(c.Fn.Name(), "contract_"), c.NoPanic, seed, -1, budget)
}

// replay runs one generated input; exit 1 when the contract fails on it
func replay(name string, seed, iter int64) int {
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return 2
	}
	pkg, fn, np := name[:i], name[i+1:], ""
	for _, f := range specFiles() {
		if f.rel != pkg {
			continue
		}
		for _, d := range strings.Split(f.text, "\n\n") {
			if strings.Contains(d, "func contract_"+fn+"(") {
				if m := noPanicRe.FindStringSubmatch(d); m != nil {
					np = m[1]
				}
			}
		}
	}
	r := falsifyName(pkg, fn, np, seed, iter, 10*time.Second)
	fmt.Println(r.summary())
	if len(r.fails) > 0 {
		return 1
	}
	return 0
}

var noPanicRe = regexp.MustCompile(`(?m)^//gv:nopanic (\S+)`)

func falsifyName(cpkg, cname, nopanic string, seed, iter int64, budget time.Duration) *falsResult {
	r := &falsResult{}
	tmp, err := os.MkdirTemp("", "govcf")
	if err != nil {
		r.err = err.Error()
		return r
	}
	defer os.RemoveAll(tmp)
	ovj := writeOverlay(tmp, falsOverlay(cpkg))
	mod := modOf(cpkg)
	ctx, cancel := context.WithTimeout(context.Background(), budget+180*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "test", "-vet=off", "-count=1", "-overlay", ovj, "-run", "^TestGVFalsify$", "-v", "./"+strings.TrimPrefix(cpkg, mod+"/"))
	cmd.Dir = filepath.Join(repoDir, mod)
	cmd.Env = append(goEnv(), "GV_CONTRACT="+cname, fmt.Sprintf("GV_SEED=%d", seed), fmt.Sprintf("GV_SECS=%d", int(budget.Seconds())), "GV_NOPANIC="+nopanic)
	if iter >= 0 {
		cmd.Env = append(cmd.Env, fmt.Sprintf("GV_ITER=%d", iter))
	}
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	e := cmd.Run()
	got := false
	for _, l := range strings.Split(out.String(), "\n") {
		if i := strings.Index(l, "GVFAIL "); i >= 0 {
			var f falsFail
			if json.Unmarshal([]byte(l[i+7:]), &f) == nil {
				r.fails = append(r.fails, f)
			}
		}
		if i := strings.Index(l, "GVSAMPLE "); i >= 0 {
			r.samples = append(r.samples, l[i+9:])
		}
		if i := strings.Index(l, "GVRUNS "); i >= 0 {
			fmt.Sscanf(l[i:], "GVRUNS %d %d", &r.runs, &r.kept)
			got = true
		}
	}
	if !got {
		r.err = fmt.Sprintf("%v: %s", e, trunc(out.String(), 2000))
	}
	return r
}
