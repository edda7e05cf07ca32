package fcrmerkletree

import (
	"crypto/sha256"
	"encoding/hex"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/cbergoon/merkletree"
)

var gvPath []string

func specSha(s string) string {
	h := sha256.Sum256([]byte(s))
	return string(h[:])
}

// the hash reached after folding in the first n entries of a path
func specRecFold(h string, path []string, index []int64, n int) string {
	if n <= 0 {
		return h
	}
	if index[n-1] == 1 {
		return specSha(specRecFold(h, path, index, n-1) + path[n-1])
	}
	return specSha(path[n-1] + specRecFold(h, path, index, n-1))
}

// SpecLinks says that the proof links the identifier to the root
func SpecLinks(mp *FCRMerkleProof, snap []string, id *cid.ContentID, root string) bool {
	return mp != nil && len(mp.path) == len(mp.index) &&
		hex.EncodeToString([]byte(specRecFold(string(id.ToBytes()), snap, mp.index, len(mp.path)))) == root
}

//gv:target (*FCRMerkleProof).VerifyContent
//gv:modular
//gv:props C06
//gv:nopanic C06.verify-no-panic
//gv:frame C06.verify-frame
//gv:use inv_fold
func contract_VerifyContent(mp *FCRMerkleProof, content merkletree.Content, root string) {
	gvRequires(func() bool { _, ok := content.(*cid.ContentID); return ok })
	id := content.(*cid.ContentID)
	gvRequires(func() bool { return id != nil })
	if mp != nil {
		gvPath = gvSnap(mp.path)
	}
	ok := mp.VerifyContent(id, root)
	gvEnsures("C06.accepts-exactly-linked-content", func() bool { return ok == SpecLinks(mp, gvPath, id, root) })
}

func inv_fold(mp *FCRMerkleProof, currentHash []byte, content merkletree.Content, n int) bool {
	id, ok := content.(*cid.ContentID)
	return ok && string(currentHash) == specRecFold(string(id.ToBytes()), gvPath, mp.index, n+1)
}
