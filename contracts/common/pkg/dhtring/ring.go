package dhtring

import "math/big"

//gv:target (*Ring).GetClosest
//gv:props C08
//gv:modular
//gv:assumed the linked ring is examined by the bounded exploration of C08 only
func contract_GetClosest(r *Ring, hex string, num int, exclude string) {
	gvRequires(func() bool { return r != nil })
	l, err := r.GetClosest(hex, num, exclude)
	gvEnsures("C08.list-or-error", func() bool { return len(l) >= 0 && (err == nil || len(l) == 0) })
	gvEnsures("C08.no-more-than-asked", func() bool { return len(l) == 0 || len(l) <= num })
}

//gv:target (*Ring).Insert
//gv:props C08
//gv:modular
//gv:modifies r.*
//gv:assumed the linked ring is examined by the bounded exploration of C08 only
func contract_Insert(r *Ring, hex string) {
	gvRequires(func() bool { return r != nil })
	r.Insert(hex)
}

func specMax() *big.Int {
	m, _ := new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", 16)
	return m
}

func specID(n *big.Int) bool { return n != nil && n.Sign() >= 0 && n.Cmp(specMax()) <= 0 }

// the clockwise distance from one identifier to another; a full turn to itself
//gv:target getDist
//gv:props C08
//gv:nopanic C08.distance-no-crash
//gv:frame C08.distance-changes-nothing
func contract_Distance(from, to *big.Int) {
	gvRequires(func() bool { return specID(from) && specID(to) })
	d := getDist(from, to)
	gvEnsures("C08.distance-is-clockwise", func() bool {
		s := new(big.Int).Add(from, d)
		w := new(big.Int).Add(to, specMax())
		w.Add(w, big.NewInt(1))
		return s.Cmp(to) == 0 && from.Cmp(to) < 0 || s.Cmp(w) == 0 && from.Cmp(to) >= 0
	})
	gvEnsures("C08.distance-is-positive", func() bool { return d.Sign() > 0 })
}

//gv:target (*Ring).Insert
//gv:props C08,C19
//gv:nofalsify
//gv:locks C19.ring-locks-released
//gv:guard Ring.head lock C19.ring-guarded
//gv:guard Ring.size lock C19.ring-guarded
func contract_InsertLocks(r *Ring, hex string) {
	gvRequires(func() bool { return r != nil && gvLockState(&r.lock) == 0 })
	r.Insert(hex)
}

//gv:target (*Ring).Remove
//gv:props C08,C19
//gv:nofalsify
//gv:locks C19.ring-locks-released
//gv:guard Ring.head lock C19.ring-guarded
//gv:guard Ring.size lock C19.ring-guarded
func contract_RemoveLocks(r *Ring, hex string) {
	gvRequires(func() bool { return r != nil && gvLockState(&r.lock) == 0 })
	r.Remove(hex)
}

//gv:target (*Ring).GetWithinRange
//gv:props C08,C19
//gv:nofalsify
//gv:locks C19.ring-locks-released
//gv:guard Ring.head lock C19.ring-guarded
//gv:guard Ring.size lock C19.ring-guarded
func contract_GetWithinRangeLocks(r *Ring, a, b string) {
	gvRequires(func() bool { return r != nil && gvLockState(&r.lock) == 0 })
	r.GetWithinRange(a, b)
}

//gv:target (*Ring).Size
//gv:props C08,C19
//gv:nopanic C08.size-no-crash
//gv:locks C19.ring-locks-released
//gv:guard Ring.size lock C19.ring-guarded
func contract_Size(r *Ring) {
	gvRequires(func() bool { return r != nil && gvLockState(&r.lock) == 0 })
	n := r.size
	s := r.Size()
	gvEnsures("C08.size-is-the-count-kept", func() bool { return s == n && r.size == n })
}
