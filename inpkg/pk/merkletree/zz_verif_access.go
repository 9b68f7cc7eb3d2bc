package merkletree

// VerifRoot recomputes and returns the root hash of a tree.
func VerifRoot(m *MerkleTree) []byte {
	m.recomputeHash()
	return m.hash
}

// VerifWorkingRoot is the root hash of the directory's working tree.
func VerifWorkingRoot(p *PAD) []byte {
	return VerifRoot(p.tree)
}
