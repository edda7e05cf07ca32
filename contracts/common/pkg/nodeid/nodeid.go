package nodeid

import (
	"encoding/hex"
	"encoding/json"
	"math/big"
)

// specPadded: r holds src left-padded with zero bytes to exactly WordSize bytes.
func specPadded(r, src []byte) bool {
	return len(r) == WordSize &&
		gvForall(0, WordSize-len(src), func(i int) bool { return r[i] == 0 }) &&
		gvForall(0, len(src), func(i int) bool { return r[WordSize-len(src)+i] == src[i] })
}

//gv:target NewNodeIDFromBytes
//gv:props C01
//gv:nopanic C01.no-panic
//gv:frame C01.frame
func contract_NewNodeIDFromBytes(id []byte) {
	r, err := NewNodeIDFromBytes(id)
	gvEnsures("C01.accepts-iff-at-most-32-bytes", func() bool { return (err == nil) == (len(id) <= 32) })
	gvEnsures("C01.left-padded-to-32", func() bool { return err != nil || r != nil && specPadded(r.id, id) })
	gvEnsures("C01.nil-on-error", func() bool { return err == nil || r == nil })
	gvEnsures("C01.owns-its-bytes", func() bool { return err != nil || gvFresh(r.id) })
}

//gv:target NewNodeID
//gv:props C01
//gv:nopanic C01.no-panic
//gv:frame C01.frame
func contract_NewNodeID(id *big.Int) {
	gvRequires(func() bool { return id != nil })
	b := id.Bytes()
	r, err := NewNodeID(id)
	gvEnsures("C01.accepts-iff-at-most-32-bytes", func() bool { return (err == nil) == (len(b) <= 32) })
	gvEnsures("C01.left-padded-to-32", func() bool { return err != nil || r != nil && specPadded(r.id, b) })
	gvEnsures("C01.nil-on-error", func() bool { return err == nil || r == nil })
}

//gv:target NewNodeIDFromHexString
//gv:props C01
//gv:nopanic C01.no-panic
//gv:frame C01.frame
func contract_NewNodeIDFromHexString(id string) {
	b, e := hex.DecodeString(id)
	r, err := NewNodeIDFromHexString(id)
	gvEnsures("C01.accepts-iff-hex-of-at-most-32-bytes", func() bool { return (err == nil) == (e == nil && len(b) <= 32) })
	gvEnsures("C01.left-padded-to-32", func() bool { return err != nil || r != nil && specPadded(r.id, b) })
	gvEnsures("C01.nil-on-error", func() bool { return err == nil || r == nil })
}

// printing an identifier and parsing it back gives the same identifier
//gv:props C01
//gv:nopanic C01.no-panic
func contract_StringRoundTrip(n *NodeID) {
	gvRequires(func() bool { return n != nil && len(n.id) == WordSize })
	s := n.ToString()
	r, err := NewNodeIDFromHexString(s)
	gvEnsures("C01.string-round-trip", func() bool { return err == nil && r != nil && gvBytesEq(r.id, n.id) })
	gvEnsures("C01.string-is-64-hex", func() bool { return len(s) == 2*WordSize })
}

//gv:props C01
//gv:nopanic C01.no-panic
func contract_BytesRoundTrip(n *NodeID) {
	gvRequires(func() bool { return n != nil && len(n.id) == WordSize })
	r, err := NewNodeIDFromBytes(n.ToBytes())
	gvEnsures("C01.bytes-round-trip", func() bool { return err == nil && r != nil && gvBytesEq(r.id, n.id) })
}

//gv:props C01
//gv:nopanic C01.no-panic
func contract_JSONRoundTrip(n NodeID) {
	gvRequires(func() bool { return len(n.id) == WordSize })
	b, err := json.Marshal(n)
	var r NodeID
	err2 := json.Unmarshal(b, &r)
	gvEnsures("C01.json-round-trip", func() bool { return err == nil && err2 == nil && gvBytesEq(r.id, n.id) })
}

//gv:target (*NodeID).UnmarshalJSON
//gv:props C01
//gv:nopanic C01.no-panic
//gv:modifies n.id
//gv:frame C01.frame
func contract_UnmarshalJSON(n *NodeID, p []byte) {
	gvRequires(func() bool { return n != nil })
	old := n.id
	err := n.UnmarshalJSON(p)
	gvEnsures("C01.json-accepts-only-32-bytes", func() bool { return err != nil || len(n.id) == WordSize })
	gvEnsures("C01.json-error-leaves-identifier", func() bool { return err == nil || gvBytesEq(n.id, old) })
}

//gv:target MapNodeIDToString
//gv:props C01
//gv:modular
//gv:nopanic C01.no-panic
//gv:frame C01.frame
//gv:fresh 0
//gv:use inv_mapped
func contract_MapNodeIDToString(cids []NodeID) {
	r := MapNodeIDToString(cids)
	gvEnsures("C01.map-to-strings", func() bool {
		return r != nil && len(r) == len(cids) && gvForall(0, len(cids), func(i int) bool { return r[i] == cids[i].ToString() })
	})
}

func inv_mapped(results []string, cids []NodeID, n int) bool {
	return gvForall(0, n+1, func(i int) bool { return results[i] == cids[i].ToString() })
}

//gv:target MapStringToNodeID
//gv:props C01
//gv:modular
//gv:nopanic C01.map-strings-no-panic
//gv:frame C01.frame
//gv:fresh 0
//gv:use inv_parsed,inv_whole
func contract_MapStringToNodeID(cids []string) {
	r, err := MapStringToNodeID(cids)
	gvEnsures("C01.map-refuses-invalid", func() bool {
		return (err == nil) == gvForall(0, len(cids), func(i int) bool { return specValidHex(cids[i]) })
	})
	gvEnsures("C01.map-from-strings", func() bool {
		return err != nil || r != nil && len(r) == len(cids) && gvForall(0, len(cids), func(i int) bool { return specParsed(r[i].id, cids[i]) })
	})
	gvEnsures("C01.map-keeps-whole-identifiers", func() bool {
		return err != nil || gvForall(0, len(cids), func(i int) bool { return specWhole(r[i].id, cids[i]) })
	})
	gvEnsures("C01.nil-on-error", func() bool { return err == nil || r == nil })
}

func inv_whole(results []NodeID, cids []string, n int) bool {
	return gvForall(0, n+1, func(i int) bool { return specWhole(results[i].id, cids[i]) })
}

// the digits of a whole identifier are its bytes
func specWhole(id []byte, s string) bool {
	b, err := hex.DecodeString(s)
	return err != nil || len(b) != WordSize || gvBytesEq(id, b)
}

func inv_parsed(results []NodeID, cids []string, n int) bool {
	return gvForall(0, n+1, func(i int) bool { return specParsed(results[i].id, cids[i]) })
}

func specValidHex(s string) bool {
	_, err := NewNodeIDFromHexString(s)
	return err == nil
}

func specParsed(id []byte, s string) bool {
	p, err := NewNodeIDFromHexString(s)
	return err == nil && len(id) == WordSize && gvBytesEq(p.id, id)
}

//gv:target (*NodeID).AsBytes32
//gv:props C01
//gv:nopanic C01.no-panic
//gv:frame C01.frame
func contract_AsBytes32(n *NodeID) {
	gvRequires(func() bool { return n != nil && len(n.id) == WordSize })
	r := n.AsBytes32()
	gvEnsures("C01.as-bytes-32", func() bool { return gvForall(0, WordSize, func(i int) bool { return r[i] == n.id[i] }) })
}
