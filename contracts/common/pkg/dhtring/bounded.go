package dhtring

import (
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"time"
)

// a history: operations as numbers; identifiers as the ring takes them
type gvHistory struct {
	IDs []string
	Ops []int // 2*i inserts IDs[i], 2*i+1 removes it
}

var gvDomain = []string{
	strings.Repeat("0", 64), strings.Repeat("0", 63) + "1", "7" + strings.Repeat("f", 63),
	"8" + strings.Repeat("0", 63), strings.Repeat("f", 64),
}

const gvExhaustive = 11111 // histories of at most 4 operations over 5 identifiers

// gen: all histories of at most 4 operations over gvDomain (and upper-case digits on every other one),
// then random ones of at most 16 operations over at most 12 identifiers
func gen_Histories(r *rand.Rand) []interface{} {
	h := gvHistory{}
	if n := gvIter; n < gvExhaustive {
		h.IDs = append(h.IDs, gvDomain...)
		l, c := 0, int64(1)
		for n >= c {
			n -= c
			c *= 10
			l++
		}
		for i := 0; i < l; i++ {
			h.Ops = append(h.Ops, int(n%10))
			n /= 10
		}
	} else {
		k := 2 + r.Intn(11)
		base := new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), 256))
		for len(h.IDs) < k {
			v := new(big.Int).Set(base)
			switch r.Intn(3) {
			case 0:
				v.Rand(r, new(big.Int).Lsh(big.NewInt(1), 256))
			case 1:
				v.Add(v, big.NewInt(int64(r.Intn(9)-4)))
			default:
				v.Add(v, new(big.Int).Lsh(big.NewInt(1), uint(250+r.Intn(6))))
			}
			v.Mod(v, new(big.Int).Lsh(big.NewInt(1), 256))
			s := v.Text(16)
			h.IDs = append(h.IDs, strings.Repeat("0", 64-len(s))+s)
		}
		for i := r.Intn(17); i > 0; i-- {
			o := r.Intn(2 * k)
			if r.Intn(3) > 0 {
				o &^= 1
			}
			h.Ops = append(h.Ops, o)
		}
	}
	if gvIter%2 == 1 {
		for i := range h.IDs {
			if i%2 == 1 {
				h.IDs[i] = strings.ToUpper(h.IDs[i])
			}
		}
	}
	return []interface{}{h, r.Int63()}
}

func gvNum(s string) *big.Int { v, _ := new(big.Int).SetString(s, 16); return v }

// the members, ascending
func gvSorted(m map[string]bool) []string {
	var l []string
	for s := range m {
		l = append(l, s)
	}
	sort.Strings(l)
	return l
}

func gvCirc(a, b string) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), 256)
	d := new(big.Int).Mod(new(big.Int).Sub(gvNum(a), gvNum(b)), m)
	e := new(big.Int).Sub(m, d)
	if d.Cmp(e) < 0 || d.Sign() == 0 {
		return d
	}
	return e
}

func gvLower(l []string) []string {
	var r []string
	for _, s := range l {
		r = append(r, strings.ToLower(s))
	}
	return r
}

func gvEq(a, b []string) bool { return strings.Join(a, ",") == strings.Join(b, ",") }

func gvRangeOf(m map[string]bool, a, b string) []string {
	var lo, hi []string
	for _, s := range gvSorted(m) {
		switch {
		case a <= b && a <= s && s <= b:
			lo = append(lo, s)
		case a > b && s >= a:
			lo = append(lo, s)
		case a > b && s <= b:
			hi = append(hi, s)
		}
	}
	return append(lo, hi...)
}

// what the ring answers agrees with the set of members
func gvQueries(r *Ring, m map[string]bool, ids []string, rnd *rand.Rand, all bool) {
	gvEnsures("C08.size-is-the-number-of-members", func() bool { return r.Size() == len(m) })
	nums := []int{0, 1, 2, 3, len(m) - 1, len(m), len(m) + 1, 40, -1}
	for i, a := range ids {
		for j, b := range ids {
			if !all && rnd.Intn(4) > 0 {
				continue
			}
			_, _ = i, j
			la, lb := strings.ToLower(a), strings.ToLower(b)
			got, err := r.GetWithinRange(a, b)
			gvEnsures("C08.range-gives-the-members-within-in-order", func() bool { return err == nil && gvEq(gvLower(got), gvRangeOf(m, la, lb)) })
			num := nums[rnd.Intn(len(nums))]
			ex := ""
			if rnd.Intn(2) == 0 {
				ex = b
			}
			near, err := r.GetClosest(a, num, ex)
			gvEnsures("C08.closest-gives-the-nearest-members", func() bool { return err == nil && gvNearest(gvLower(near), m, la, num, strings.ToLower(ex)) })
			gvEnsures("C08.queries-change-nothing", func() bool { return r.Size() == len(m) })
		}
	}
	if rnd.Intn(200) > 0 {
		return
	}
	bad := "xyz"
	_, e1 := r.GetWithinRange(bad, ids[0])
	_, e2 := r.GetWithinRange(ids[0], bad)
	_, e3 := r.GetClosest(bad, 1, "")
	_, e4 := r.GetClosest(ids[0], 1, bad)
	gvEnsures("C08.malformed-identifiers-refused", func() bool { return e1 != nil && e2 != nil && e3 != nil && e4 != nil })
}

func gvNearest(got []string, m map[string]bool, a string, num int, ex string) bool {
	var ds []*big.Int
	for s := range m {
		if s != ex {
			ds = append(ds, gvCirc(a, s))
		}
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i].Cmp(ds[j]) < 0 })
	if num < 0 {
		num = 0
	}
	if num < len(ds) {
		ds = ds[:num]
	}
	if len(got) != len(ds) {
		return false
	}
	seen := map[string]bool{}
	var gs []*big.Int
	for _, s := range got {
		if seen[s] || !m[s] || s == ex {
			return false
		}
		seen[s] = true
		gs = append(gs, gvCirc(a, s))
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].Cmp(gs[j]) < 0 })
	for i := range gs {
		if gs[i].Cmp(ds[i]) != 0 {
			return false
		}
	}
	return true
}

//gv:props C08
//gv:nopanic C08.no-crash
//gv:bounded every history of at most 4 insertions and removals over 5 identifiers (0, 1, 2^255-1, 2^255, 2^256-1), then random histories of at most 16 operations over at most 12 identifiers until the time is up; the ring is queried after every operation
func contract_Histories(h gvHistory, seed int64) {
	pan := ""
	done := make(chan bool, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				pan = "crash"
			}
			done <- true
		}()
		rnd := rand.New(rand.NewSource(seed))
		r := CreateRing()
		m := map[string]bool{}
		gvQueries(r, m, h.IDs, rnd, false)
		for i, o := range h.Ops {
			id := h.IDs[o/2]
			if o%2 == 0 {
				r.Insert(id)
				m[strings.ToLower(id)] = true
			} else {
				r.Remove(id)
				delete(m, strings.ToLower(id))
			}
			if seed%64 == 0 {
				r.Insert("not an identifier")
				r.Remove("")
			}
			gvQueries(r, m, h.IDs, rnd, i == len(h.Ops)-1)
		}
	}()
	select {
	case <-done:
		gvEnsures("C08.no-crash", func() bool { return pan == "" })
	case <-time.After(10 * time.Second):
		gvEnsures("C08.every-operation-ends", func() bool { return false })
		gvHung = true
	}
}
