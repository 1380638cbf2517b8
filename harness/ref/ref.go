// Package ref holds executable definitions that the harnesses compare against:
// RFC 6962 section 2.1 and the sparse Merkle tree of the map, written directly
// from their definitions.
package ref

import "crypto/sha256"

// Leaf is the hash of a log entry or map value.
func Leaf(d []byte) []byte {
	h := sha256.Sum256(append([]byte{0}, d...))
	return h[:]
}

// Node is the hash of an interior node.
func Node(l, r []byte) []byte {
	b := append([]byte{1}, l...)
	h := sha256.Sum256(append(b, r...))
	return h[:]
}

func split(n int) int {
	k := 1
	for k*2 < n {
		k *= 2
	}
	return k
}

// MTH is the Merkle tree hash of leaf hashes (RFC 6962 2.1).
func MTH(l [][]byte) []byte {
	if len(l) == 1 {
		return l[0]
	}
	k := split(len(l))
	return Node(MTH(l[:k]), MTH(l[k:]))
}

// Path is the audit path for leaf m (RFC 6962 2.1.1).
func Path(m int, l [][]byte) [][]byte {
	if len(l) == 1 {
		return nil
	}
	k := split(len(l))
	if m < k {
		return append(Path(m, l[:k]), MTH(l[k:]))
	}
	return append(Path(m-k, l[k:]), MTH(l[:k]))
}

// Proof is the consistency proof from size m (RFC 6962 2.1.2).
func Proof(m int, l [][]byte) [][]byte { return sub(m, l, true) }

func sub(m int, l [][]byte, b bool) [][]byte {
	if m == len(l) {
		if b {
			return nil
		}
		return [][]byte{MTH(l)}
	}
	k := split(len(l))
	if m <= k {
		return append(sub(m, l[:k], b), MTH(l[k:]))
	}
	return append(sub(m-k, l[k:], false), MTH(l[:k]))
}
