package main

// preludeSrc is added to every package that has contracts. The verifier interprets the gv*
// functions symbolically; the bodies below give the same specifications a concrete meaning, which
// the falsifier uses to run a contract against the real code.
const preludeSrc = `package PKG

import (
	gvjson "encoding/json"
	"math/big"
	"reflect"
	gvsync "sync"
)

type gvSkipT struct{ reason string }

var gvFailures []string
var gvPoolStr []string

// the number of the generated input being run
var gvIter int64

// an operation did not end: no further inputs are run
var gvHung bool
var gvPoolInt []int

func gvGuard(f func() bool) (res bool, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			res, ok = false, false
		}
	}()
	return f(), true
}

func gvRequires(f func() bool) {
	r, ok := gvGuard(f)
	if !r || !ok {
		panic(gvSkipT{"precondition"})
	}
}

func gvAssume(reason string, f func() bool) { gvRequires(f) }

func gvEnsures(label string, f func() bool) {
	r, ok := gvGuard(f)
	if ok && !r {
		gvFailures = append(gvFailures, label)
	}
}

func gvAssert(label string, f func() bool) { gvEnsures(label, f) }

func gvForall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

func gvExists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

func gvForallInt(f func(i int) bool) bool {
	for _, i := range gvPoolInt {
		if !f(i) {
			return false
		}
	}
	for i := -70; i < 300; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

func gvForallStr(f func(s string) bool) bool {
	for _, s := range gvPoolStr {
		if !f(s) {
			return false
		}
	}
	return true
}

func gvFresh(v interface{}) bool { return true }

// gvSeen: the iteration over map m has met key k
func gvSeen(m interface{}, k interface{}) bool { return true }

// gvApart: two slices do not share their array
func gvApart(a, b interface{}) bool { return true }

func gvForallDigest(f func(d [32]byte) bool) bool { return true }

func gvBytesEq(a, b []byte) bool { return string(a) == string(b) }

func gvSnap(p [][]byte) []string {
	r := make([]string, len(p))
	for i := range p {
		r[i] = string(p[i])
	}
	return r
}

func gvSnapF(n int, f func(i int) string) []string {
	r := make([]string, 0)
	for i := 0; i < n; i++ {
		r = append(r, f(i))
	}
	return r
}

func gvSnapInt(n int, f func(i int) int) []int {
	r := make([]int, 0)
	for i := 0; i < n; i++ {
		r = append(r, f(i))
	}
	return r
}

func gvSame(a, b interface{}) bool { return gvSameV(reflect.ValueOf(a), reflect.ValueOf(b), 0) }

func gvSameV(a, b reflect.Value, depth int) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	if a.Type() == reflect.TypeOf(big.Int{}) && a.CanAddr() && b.CanAddr() {
		return a.Addr().Interface().(*big.Int).Cmp(b.Addr().Interface().(*big.Int)) == 0
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		if depth > 0 && a.Type().Elem().Kind() != reflect.Uint8 {
			return a.Len() == 0 || a.Pointer() == b.Pointer()
		}
		for i := 0; i < a.Len(); i++ {
			if !gvSameV(a.Index(i), b.Index(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !gvSameV(a.Field(i), b.Field(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !gvSameV(a.Index(i), b.Index(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Interface:
		return gvSameV(a.Elem(), b.Elem(), depth+1)
	case reflect.Ptr, reflect.Map, reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return a.Pointer() == b.Pointer()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float()
	}
	return true
}

func gvSameJSON(a, b interface{}) bool {
	x, e1 := gvjson.Marshal(a)
	y, e2 := gvjson.Marshal(b)
	if string(x) == "null" {
		x = []byte("[]")
	}
	if string(y) == "null" {
		y = []byte("[]")
	}
	return e1 == nil && e2 == nil && string(x) == string(y)
}

func gvLockState(mu interface{}) int {
	switch m := mu.(type) {
	case *gvsync.RWMutex:
		if m.TryLock() {
			m.Unlock()
			return 0
		}
		if m.TryRLock() {
			m.RUnlock()
			return 1
		}
		return -1
	case *gvsync.Mutex:
		if m.TryLock() {
			m.Unlock()
			return 0
		}
		return -1
	}
	return 0
}
`

const falsTestSrc = `package PKG

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"
	"unsafe"
)

var gvContracts = map[string][2]interface{}{
TABLE
}

var gvGenTypes = map[reflect.Type]func(r *rand.Rand) interface{}{
GENTYPES
}

func gvHex(r *rand.Rand, n int) string {
	b := make([]byte, n)
	r.Read(b)
	return hex.EncodeToString(b)
}

func gvRandStr(r *rand.Rand) string {
	switch r.Intn(12) {
	case 0:
		return ""
	case 1, 2, 3:
		return gvHex(r, 32)
	case 4:
		return gvHex(r, r.Intn(40))
	case 5:
		return strings.Repeat("0", r.Intn(70))
	case 6:
		return "zz" + gvHex(r, 3)
	case 7:
		return []string{"01", "02", "f101", "true", "null", "\"", "\xff\xfe", "a\nb", "abc", "10"}[r.Intn(10)]
	case 8:
		return gvHex(r, 65)
	case 9:
		return fmt.Sprint(r.Intn(1000))
	case 10:
		if len(gvPoolStr) > 0 {
			return gvPoolStr[r.Intn(len(gvPoolStr))]
		}
	}
	b := make([]byte, r.Intn(12))
	for i := range b {
		b[i] = byte(97 + r.Intn(4))
	}
	return string(b)
}

func gvRandInt(r *rand.Rand) int64 {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return int64(r.Intn(5)) - 2
	case 2:
		return []int64{1<<63 - 1, -1 << 63, 1<<31 - 1, -1 << 31, 1 << 32, 255, 256, 2000, -2000, 1<<53 + 1}[r.Intn(10)]
	case 3:
		return int64(r.Uint64())
	case 4:
		return time.Now().Unix() + int64(r.Intn(2000)) - 1000
	}
	return int64(r.Intn(40))
}

func gvFill(r *rand.Rand, v reflect.Value, depth int) {
	if !v.CanSet() {
		if !v.CanAddr() {
			return
		}
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	if g, ok := gvGenTypes[v.Type()]; ok {
		x := g(r)
		if x != nil {
			v.Set(reflect.ValueOf(x))
		}
		return
	}
	t := v.Type()
	if t.PkgPath() == "sync" || t.PkgPath() == "sync/atomic" {
		return
	}
	if t == reflect.TypeOf(big.Int{}) {
		b := v.Addr().Interface().(*big.Int)
		switch r.Intn(4) {
		case 0:
			b.SetInt64(gvRandInt(r))
		case 1:
			b.SetUint64(r.Uint64())
		default:
			b.SetInt64(int64(r.Intn(200)))
		}
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.String:
		v.SetString(gvRandStr(r))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(gvRandInt(r))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(gvRandInt(r)))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(r.Float64())
	case reflect.Slice:
		if r.Intn(9) == 0 {
			return
		}
		n := r.Intn(5)
		if t.Elem().Kind() == reflect.Uint8 {
			n = []int{0, 1, 3, 4, 5, 8, 20, 31, 32, 32, 32, 33, 40, 64, 65, 69, 70, 100}[r.Intn(18)]
		}
		c := n
		if r.Intn(3) == 0 {
			c = n + r.Intn(20)
		}
		s := reflect.MakeSlice(t, n, c)
		for i := 0; i < n; i++ {
			gvFill(r, s.Index(i), depth+1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			gvFill(r, v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			gvFill(r, v.Field(i), depth+1)
		}
	case reflect.Ptr:
		if depth > 6 || r.Intn(10) == 0 {
			return
		}
		p := reflect.New(t.Elem())
		gvFill(r, p.Elem(), depth+1)
		v.Set(p)
	case reflect.Map:
		if r.Intn(12) == 0 {
			return
		}
		m := reflect.MakeMap(t)
		n := r.Intn(4)
		for i := 0; i < n; i++ {
			k := reflect.New(t.Key()).Elem()
			e := reflect.New(t.Elem()).Elem()
			gvFill(r, k, depth+1)
			gvFill(r, e, depth+1)
			func() {
				defer func() { recover() }()
				m.SetMapIndex(k, e)
			}()
		}
		v.Set(m)
	}
}

func gvShow(v interface{}) string {
	defer func() { recover() }()
	if j, err := json.Marshal(v); err == nil && len(j) > 2 {
		return string(j)
	}
	return fmt.Sprintf("%+v", v)
}

func TestGVFalsify(t *testing.T) {
	name := os.Getenv("GV_CONTRACT")
	ent, ok := gvContracts[name]
	if !ok {
		t.Skip()
	}
	seed, _ := strconv.ParseInt(os.Getenv("GV_SEED"), 10, 64)
	secs, _ := strconv.Atoi(os.Getenv("GV_SECS"))
	first, last := int64(0), int64(1<<40)
	if s := os.Getenv("GV_ITER"); s != "" {
		first, _ = strconv.ParseInt(s, 10, 64)
		last = first + 1
	}
	nopanic := os.Getenv("GV_NOPANIC")
	fn := reflect.ValueOf(ent[0])
	end := time.Now().Add(time.Duration(secs) * time.Second)
	runs, kept := int64(0), int64(0)
	seen := map[string]bool{}
	defer func() { fmt.Printf("GVRUNS %d %d\n", runs, kept) }()
	for it := first; it < last; it++ {
		if gvHung || it > first && time.Now().After(end) {
			break
		}
		r := rand.New(rand.NewSource(seed*1000003 + it))
		gvIter = it
		gvPoolStr = gvPoolStr[:0]
		for i := 0; i < 4; i++ {
			gvPoolStr = append(gvPoolStr, gvRandStr(r))
		}
		var args []reflect.Value
		if ent[1] != nil {
			for i, a := range ent[1].(func(r *rand.Rand) []interface{})(r) {
				if a == nil {
					args = append(args, reflect.Zero(fn.Type().In(i)))
				} else {
					args = append(args, reflect.ValueOf(a))
				}
			}
		} else {
			for i := 0; i < fn.Type().NumIn(); i++ {
				p := reflect.New(fn.Type().In(i))
				gvFill(r, p.Elem(), 0)
				args = append(args, p.Elem())
			}
		}
		var shown []string
		for _, a := range args {
			shown = append(shown, a.Type().String()+" "+gvShow(a.Interface()))
		}
		gvFailures = nil
		skipped, pan := false, ""
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(gvSkipT); ok {
						skipped = true
						return
					}
					pan = fmt.Sprint(e)
				}
			}()
			fn.Call(args)
		}()
		runs++
		if skipped {
			continue
		}
		kept++
		if it < 3 && pan == "" {
			fmt.Printf("GVSAMPLE %s\n", strings.Join(shown, " ; "))
		}
		fl := gvFailures
		if pan != "" {
			fl = nil
			if nopanic != "" {
				fl = []string{nopanic + " (panic: " + pan + ")"}
			}
		}
		for _, l := range fl {
			if seen[l] {
				continue
			}
			seen[l] = true
			b, _ := json.Marshal(map[string]interface{}{"label": l, "seed": seed, "iter": it, "inputs": shown})
			fmt.Printf("GVFAIL %s\n", b)
		}
		if len(seen) > 5 {
			break
		}
	}
}
`
