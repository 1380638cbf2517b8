package hlog

import (
	"bytes"
	"context"

	"gosymharness/henv"
	"gosymharness/ref"
	"gosymharness/symrt"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

// sizes of logs that no one can build here.
var wide = []int64{1<<16 + 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 6, 1<<33 + 1<<31 + 7, 1<<53 + 1, 1<<62 + 1, 1<<63 - 1}

// split is the largest power of 2 below n, which is over 1.
func split(n int64) int64 {
	k := int64(1)
	for k < n-k {
		k *= 2
	}
	return k
}

// pathRoot is the root that the path says, by RFC 6962 2.1.1, nil if it is of a wrong length.
func pathRoot(i, n int64, leaf []byte, path [][]byte) []byte {
	if n == 1 || len(path) == 0 {
		if n != 1 || len(path) != 0 {
			return nil
		}
		return leaf
	}
	l, rest := path[len(path)-1], path[:len(path)-1]
	if k := split(n); i < k {
		if r := pathRoot(i, k, leaf, rest); r != nil {
			return ref.Node(r, l)
		}
	} else if r := pathRoot(i-k, n-k, leaf, rest); r != nil {
		return ref.Node(l, r)
	}
	return nil
}

// proofRoots are the roots that the proof says, by RFC 6962 2.1.2.
func proofRoots(m, n int64, whole bool, first []byte, path [][]byte) (a, b []byte) {
	if m == n {
		if whole && len(path) == 0 {
			return first, first
		}
		if whole || len(path) != 1 {
			return nil, nil
		}
		return path[0], path[0]
	}
	if len(path) == 0 {
		return nil, nil
	}
	l, rest := path[len(path)-1], path[:len(path)-1]
	k := split(n)
	if m <= k {
		if a, b = proofRoots(m, k, whole, first, rest); a != nil {
			return a, ref.Node(b, l)
		}
	} else if a, b = proofRoots(m-k, n-k, false, first, rest); a != nil {
		return ref.Node(l, a), ref.Node(l, b)
	}
	return nil, nil
}

func pathLen(i, n int64) (rv int) {
	for ; n > 1; rv++ {
		if k := split(n); i < k {
			n = k
		} else {
			i, n = i-k, n-k
		}
	}
	return rv
}

func proofLen(m, n int64) int {
	rv, whole := 0, true
	for ; m != n; rv++ {
		if k := split(n); m <= k {
			n = k
		} else {
			m, n, whole = m-k, n-k, false
		}
	}
	if whole {
		return rv
	}
	return rv + 1
}

// place is a number in a log of n entries, one of the first, the last, or around
// the boundaries of its subtrees and of the numbers of 16 and 32 bits.
func place(n int64) int64 {
	k := split(n)
	i := []int64{0, 1, 5, k - 1, k, k + 1, n - 2, n - 1, 1<<16 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 1}[symrt.Choose("place", 12)]
	symrt.Assume(i >= 0 && i < n)
	return i
}

// lengths of proofs: the right one, and some wrong.
func about(n, other int) int {
	rv := []int{n, n - 1, n + 1, other, 0, n - 32}[symrt.Choose("len", 6)]
	symrt.Assume(rv >= 0)
	return rv
}

func hs(name string, n int) (rv [][]byte) {
	for i := 0; i < n; i++ {
		rv = append(rv, symrt.Hash(name))
	}
	return rv
}

// InclusionWide: in logs of any size an inclusion proof is accepted exactly if it
// leads to the root of the head as RFC 6962 says.
func InclusionWide() {
	n := wide[symrt.Choose("size", len(wide))]
	i := place(n)
	leaf := symrt.Hash("leaf")
	path := hs("p", about(pathLen(i, n), pathLen(i&(1<<31-1), n&(1<<31-1)+1)))
	head := &pb.LogTreeHashResponse{TreeSize: n, RootHash: symrt.Hash("root")}
	want := pathRoot(i, n, leaf, path)
	if want != nil && symrt.Choose("right", 2) == 1 {
		head.RootHash = want
	}
	err := verifiable.VerifyLogInclusionProof(&pb.LogInclusionProofResponse{LeafIndex: i, TreeSize: n, AuditPath: path}, leaf, head)
	symrt.Assert((err == nil) == (want != nil && bytes.Equal(want, head.RootHash)), "an inclusion proof is not accepted as RFC 6962 says")
	if err == nil {
		symrt.Reach("checked")
	} else {
		symrt.Reach("rejected")
	}
}

// ConsistencyWide: so is a consistency proof.
func ConsistencyWide() {
	n := wide[symrt.Choose("size", len(wide))]
	m := place(n)
	symrt.Assume(m > 0)
	path := hs("p", about(proofLen(m, n), proofLen(m&(1<<31-1)+1, n&(1<<31-1)+1<<31)))
	a := &pb.LogTreeHashResponse{TreeSize: m, RootHash: symrt.Hash("first")}
	b := &pb.LogTreeHashResponse{TreeSize: n, RootHash: symrt.Hash("second")}
	x, y := proofRoots(m, n, true, a.RootHash, path)
	if x != nil {
		right := symrt.Choose("right", 4)
		if right&1 == 1 {
			a.RootHash = x
		}
		if right&2 == 2 {
			x, y = proofRoots(m, n, true, a.RootHash, path)
			b.RootHash = y
		}
		x, y = proofRoots(m, n, true, a.RootHash, path)
	}
	err := verifiable.VerifyLogConsistencyProof(&pb.LogConsistencyProofResponse{FromSize: m, TreeSize: n, AuditPath: path}, a, b)
	symrt.Assert((err == nil) == (x != nil && symrt.And(bytes.Equal(x, a.RootHash), bytes.Equal(y, b.RootHash))), "a consistency proof is not accepted as RFC 6962 says")
	if err == nil {
		symrt.Reach("checked")
	} else {
		symrt.Reach("rejected")
	}
}

type subTree struct {
	n int64
	h []byte
}

func grow(ts []subTree, leaf []byte) []subTree {
	ts = append(append([]subTree{}, ts...), subTree{1, leaf})
	for i := len(ts) - 2; i >= 0 && ts[i].n == ts[i+1].n; i-- {
		ts = append(ts[:i], subTree{2 * ts[i].n, ref.Node(ts[i].h, ts[i+1].h)})
	}
	return ts
}

func rootOf(ts []subTree) []byte {
	r := ts[len(ts)-1].h
	for i := len(ts) - 2; i >= 0; i-- {
		r = ref.Node(ts[i].h, r)
	}
	return r
}

// EntriesWide: the last few entries of a log of any size are audited right.
func EntriesWide() {
	n := wide[symrt.Choose("size", len(wide)-1)]
	k := 1 + symrt.Choose("more", 3)
	var ts []subTree
	for b := int64(1) << 62; b > 0; b >>= 1 {
		if n&b != 0 {
			ts = append(ts, subTree{b, symrt.Hash("sub")})
		}
	}
	prev := &pb.LogTreeHashResponse{TreeSize: n, RootHash: rootOf(ts)}
	f := &fake{}
	path := [][]byte{}
	for _, t := range ts {
		path = append([][]byte{t.h}, path...)
	}
	lie := symrt.Choose("lie", 6)
	switch lie {
	case 1:
		path[symrt.Choose("at", len(path))] = symrt.Hash("other")
	case 2:
		path = path[1:]
	case 3:
		path = append(path, symrt.Hash("other"))
	}
	f.incl = func(r *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
		symrt.Assert(r.LeafIndex < r.TreeSize && r.TreeSize <= n+int64(k), "a proof is asked for that there is not")
		if r.LeafIndex != n || r.TreeSize != n+1 {
			return nil, errServer
		}
		return &pb.LogInclusionProofResponse{LeafIndex: n, TreeSize: n + 1, AuditPath: path}, nil
	}
	es := someEntries(k)
	for _, e := range es {
		ts = grow(ts, ref.Leaf(e.LeafInput))
	}
	head := &pb.LogTreeHashResponse{TreeSize: n + int64(k), RootHash: rootOf(ts)}
	said := es
	switch lie {
	case 4:
		said = append([]*pb.LeafData{}, es...)
		said[symrt.Choose("at", k)] = someEntries(1)[0]
	case 5:
		head.RootHash = symrt.Hash("other")
	}
	f.fetch = func(r *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
		symrt.Assert(r.First >= n && r.First < r.Last && r.Last <= n+int64(k), "entries are asked for that are not needed")
		return &pb.LogFetchEntriesResponse{Values: said[r.First-n : r.Last-n]}, nil
	}
	i := 0
	err := f.log().VerifyEntries(henv.Ctx, prev, head, func(_ context.Context, idx int64, e *pb.LeafData) error {
		symrt.Assert(idx == n+int64(i) && e == said[i], "entries are audited in order")
		i++
		return nil
	})
	right := bytes.Equal(rootOf(ts), head.RootHash)
	for j := range es {
		right = symrt.And(right, bytes.Equal(es[j].LeafInput, said[j].LeafInput))
	}
	if err == nil {
		symrt.Assert(i == k && right, "an audit of other entries succeeds")
		symrt.Reach("checked")
		return
	}
	symrt.Assert(lie != 0, "auditing an honest log fails: "+err.Error())
	symrt.Reach("rejected")
}
