package fcrmerkletree

import (
	"encoding/hex"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/cbergoon/merkletree"
)

// the contents are identifiers of full length, as the code makes them
func specIdentifiers(contents []merkletree.Content) bool {
	return gvForall(0, len(contents), func(i int) bool {
		c, ok := contents[i].(cid.ContentID)
		return ok && len(c.ToBytes()) == 32
	})
}

func specHeld(contents []merkletree.Content, id *cid.ContentID) bool {
	return gvExists(0, len(contents), func(i int) bool {
		c, ok := contents[i].(cid.ContentID)
		return ok && gvBytesEq(c.ToBytes(), id.ToBytes())
	})
}

// a proof generated by a tree for content it holds is accepted; content it does not hold gets no path
//gv:props C06
//gv:nopanic C06.tree-no-panic
func contract_TreeProves(contents []merkletree.Content, id *cid.ContentID) {
	gvRequires(func() bool { return id != nil && len(id.ToBytes()) == 32 && specIdentifiers(contents) })
	tree, err := CreateMerkleTree(contents)
	gvEnsures("C06.tree-for-every-non-empty-list", func() bool { return (err == nil) == (len(contents) > 0) })
	if err != nil {
		return
	}
	root := tree.GetMerkleRoot()
	proof, err := tree.GenerateMerkleProof(id)
	if err != nil || proof == nil {
		gvEnsures("C06.proof-for-held-content", func() bool { return !specHeld(contents, id) })
		return
	}
	held := specHeld(contents, id)
	gvEnsures("C06.root-is-hex", func() bool { _, e := hex.DecodeString(root); return e == nil })
	gvEnsures("C06.no-path-for-other-content", func() bool { return held || len(proof.path) == 0 })
	ok := proof.VerifyContent(id, root)
	gvEnsures("C06.generated-proof-accepted", func() bool { return !held || ok })
	gvEnsures("C06.proof-only-for-held-content", func() bool { return held || !ok || hex.EncodeToString(id.ToBytes()) == root })
}

// SpecTree: a tree that wraps a built tree
func SpecTree(t *FCRMerkleTree) bool { return t.tree != nil }
