package fcrmerkletree

import "encoding/json"

// SpecSameProof: the two proofs have the same path and the same sides.
func SpecSameProof(a, b *FCRMerkleProof) bool {
	return len(a.path) == len(b.path) && len(a.index) == len(b.index) &&
		gvForall(0, len(a.path), func(i int) bool { return gvBytesEq(a.path[i], b.path[i]) }) &&
		gvForall(0, len(a.index), func(i int) bool { return a.index[i] == b.index[i] })
}

// specShort: the lengths fit the 32-bit length prefixes of the encoding
func SpecShort(mp *FCRMerkleProof) bool {
	p, _ := json.Marshal(mp.path)
	i, _ := json.Marshal(mp.index)
	return len(p) < 1<<32 && len(i) < 1<<32
}

//gv:props C06
//gv:nopanic C06.proof-json-no-panic
func contract_ProofJSONRoundTrip(mp FCRMerkleProof) {
	gvRequires(func() bool { return SpecShort(&mp) })
	b, err := json.Marshal(mp)
	var r FCRMerkleProof
	err2 := json.Unmarshal(b, &r)
	gvEnsures("C06.proof-json-accepts-own", func() bool { return err == nil && err2 == nil })
	gvEnsures("C06.proof-json-keeps-proof", func() bool { return err != nil || err2 != nil || SpecSameProof(&r, &mp) })
}

//gv:target (*FCRMerkleProof).UnmarshalJSON
//gv:props C06
//gv:nopanic C06.proof-json-no-panic
//gv:modifies mp.*
//gv:frame C06.proof-json-frame
func contract_UnmarshalJSON(mp *FCRMerkleProof, p []byte) {
	gvRequires(func() bool { return mp != nil })
	mp.UnmarshalJSON(p)
}
