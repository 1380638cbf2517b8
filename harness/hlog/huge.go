package hlog

import (
	"bytes"
	"context"
	"fmt"

	"gosymharness/henv"
	"gosymharness/ref"
	"gosymharness/symrt"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

// tree has the hashes of all complete subtrees of a log, by height.
type tree [][][]byte

func (t *tree) add(leaf []byte) {
	for h := 0; ; h++ {
		if h == len(*t) {
			*t = append(*t, nil)
		}
		(*t)[h] = append((*t)[h], leaf)
		n := len((*t)[h])
		if n%2 == 1 {
			return
		}
		leaf = ref.Node((*t)[h][n-2], (*t)[h][n-1])
	}
}

// root of the first n leaves.
func (t tree) root(n int) (rv []byte) {
	for h, at := 0, n; at > 0; h, at = h+1, at/2 {
		if at%2 == 1 {
			if rv == nil {
				rv = t[h][at-1]
			} else {
				rv = ref.Node(t[h][at-1], rv)
			}
		}
	}
	return rv
}

// Huge: a log of more entries than two bytes can count has the right heads,
// proofs and entries around the sizes where counts take another byte.
func Huge() {
	n := int(symrt.Param("n", 65540))
	log := henv.Memory().Account("acct", "key").VerifiableLog("log")
	var t tree
	at := func(i int) []byte { return []byte(fmt.Sprint("entry ", i)) }
	last := append([]byte("the last "), symrt.Bytes("d", 1)...)
	for i := 0; i < n; i++ {
		d := at(i)
		if i == n-1 {
			d = last
		}
		_, err := log.Add(henv.Ctx, &pb.LeafData{LeafInput: d})
		bad(err, "add of an entry fails")
		t.add(ref.Leaf(d))
	}
	var ms []int
	for _, m := range []int{1, 2, 3, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 2047, 4095, 4096, 4097, 65535, 65536, 65537, n - 1, n} {
		if m <= n && (len(ms) == 0 || ms[len(ms)-1] < m) {
			ms = append(ms, m)
		}
	}
	var heads []*pb.LogTreeHashResponse
	for _, m := range ms {
		h, err := log.TreeHead(henv.Ctx, int64(m))
		bad(err, "tree head")
		symrt.Assert(h.TreeSize == int64(m) && bytes.Equal(h.RootHash, t.root(m)), "root hash is the RFC 6962 Merkle tree hash of the first entries")
		heads = append(heads, h)
	}
	h, err := log.TreeHead(henv.Ctx, verifiable.Head)
	bad(err, "tree head")
	symrt.Assert(h.TreeSize == int64(n) && bytes.Equal(h.RootHash, t.root(n)), "the latest head is that of all entries")
	for i, a := range heads {
		for _, b := range heads[i:] {
			bad(log.VerifyConsistency(henv.Ctx, a, b), "two heads of a log are not consistent")
			bad(log.VerifyInclusion(henv.Ctx, b, t[0][a.TreeSize-1]), "an entry is not included")
			p, err := log.InclusionProofByIndex(henv.Ctx, b.TreeSize, a.TreeSize-1)
			bad(err, "inclusion proof by index")
			symrt.Assert(p.LeafIndex == a.TreeSize-1, "inclusion proof by index")
			bad(verifiable.VerifyLogInclusionProof(p, t[0][a.TreeSize-1], b), "inclusion proof by index")
		}
		e, err := log.Entry(henv.Ctx, a.TreeSize-1)
		bad(err, "entry")
		if int(a.TreeSize) == n {
			symrt.Assert(bytes.Equal(e.LeafInput, last), "an entry is the one added")
		} else {
			symrt.Assert(bytes.Equal(e.LeafInput, at(int(a.TreeSize)-1)), "an entry is the one added")
		}
	}
	// what is in it already is not added again
	for _, m := range ms {
		_, err := log.Add(henv.Ctx, &pb.LeafData{LeafInput: at(m - 1)})
		bad(err, "add of an entry again fails")
		if m == n {
			break
		}
		h, err := log.TreeHead(henv.Ctx, verifiable.Head)
		bad(err, "tree head")
		symrt.Assert(h.TreeSize == int64(n), "an entry is in a log once")
	}
	k := n - 10
	bad(log.VerifyEntries(henv.Ctx, &pb.LogTreeHashResponse{TreeSize: int64(k), RootHash: t.root(k)}, h, func(_ context.Context, idx int64, e *pb.LeafData) error {
		symrt.Assert(idx == int64(k), "entries are audited in order")
		k++
		return nil
	}), "auditing an honest log fails")
	symrt.Assert(k == n, "every entry between the heads is audited")
	symrt.Reach("checked")
}
