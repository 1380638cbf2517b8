package ref

import "crypto/sha256"

// Empty is the hash of an absent map value.
var Empty = Leaf(nil)

var defaults = mkDefaults()

func mkDefaults() [257][]byte {
	var d [257][]byte
	d[256] = Empty
	for i := 255; i >= 0; i-- {
		d[i] = Node(d[i+1], d[i+1])
	}
	return d
}

// KV is one present key: its place in the tree and the hash of its value.
type KV struct {
	Path [32]byte
	Leaf []byte
}

// Path is the place of a key.
func KeyPath(key []byte) [32]byte { return sha256.Sum256(key) }

func bit(p *[32]byte, i int) bool { return p[i/8]>>(7-uint(i%8))&1 == 1 }

// MapRoot is the root hash of the sparse Merkle tree of the given keys, by its
// definition: 256 levels, absent values count as empty.
func MapRoot(kvs []*KV) []byte { return mapRoot(kvs, 0) }

func mapRoot(kvs []*KV, d int) []byte {
	if len(kvs) == 0 {
		return defaults[d]
	}
	if d == 256 {
		return kvs[0].Leaf
	}
	var l, r []*KV
	for _, kv := range kvs {
		if bit(&kv.Path, d) {
			r = append(r, kv)
		} else {
			l = append(l, kv)
		}
	}
	return Node(mapRoot(l, d+1), mapRoot(r, d+1))
}

// MapPath gives the sibling hashes from the root down for a key.
func MapPath(kvs []*KV, p [32]byte) [][]byte {
	rv := make([][]byte, 256)
	cur := kvs
	for d := 0; d < 256; d++ {
		var same, other []*KV
		for _, kv := range cur {
			if bit(&kv.Path, d) == bit(&p, d) {
				same = append(same, kv)
			} else {
				other = append(other, kv)
			}
		}
		rv[d] = mapRoot(other, d+1)
		cur = same
	}
	return rv
}

// Default is the hash of an empty subtree at depth d.
func Default(d int) []byte { return defaults[d] }
