// Package hlog holds harnesses for verifiable logs.
package hlog

import (
	"bytes"
	"context"
	"errors"

	"gosymharness/henv"
	"gosymharness/ref"
	"gosymharness/symrt"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

func bad(err error, msg string) {
	if err != nil {
		symrt.Fail(msg + ": " + err.Error())
	}
}

// fill adds n entries, after the first "fixed" ones with arbitrary content; with distinct they differ.
func fill(log *verifiable.Log, n int, distinct bool) (datas [][]byte) {
	for i := 0; i < n; i++ {
		d := []byte{byte(i >> 8), byte(i)}
		if i >= int(symrt.Param("fixed", 0)) {
			d = symrt.Bytes("d", 2)
			for _, x := range datas {
				symrt.Assume(!distinct || !bytes.Equal(x, d))
			}
		}
		datas = append(datas, d)
		p, err := log.Add(henv.Ctx, &pb.LeafData{LeafInput: d})
		bad(err, "add of an entry fails")
		symrt.Assert(bytes.Equal(p.LeafHash(), ref.Leaf(d)), "add returns the RFC 6962 leaf hash of the entry")
	}
	return datas
}

func leaves(ds [][]byte) (rv [][]byte) {
	for _, d := range ds {
		rv = append(rv, ref.Leaf(d))
	}
	return rv
}

// RootDistinct: every historic root of n different entries is the RFC 6962 hash.
func RootDistinct() {
	n := int(symrt.Param("n", 6))
	log := henv.Memory().Account("acct", "key").VerifiableLog("log")
	ls := leaves(fill(log, n, true))
	for s := 1; s <= n; s++ {
		h, err := log.TreeHead(henv.Ctx, int64(s))
		bad(err, "tree head at an existing size fails")
		symrt.Assert(h.TreeSize == int64(s), "tree head has the requested size")
		symrt.Assert(bytes.Equal(h.RootHash, ref.MTH(ls[:s])), "root hash is the RFC 6962 Merkle tree hash of the first entries")
	}
	h, err := log.TreeHead(henv.Ctx, verifiable.Head)
	bad(err, "latest tree head fails")
	symrt.Assert(h.TreeSize == int64(n), "the latest head covers every entry")
	symrt.Assert(bytes.Equal(h.RootHash, ref.MTH(ls)), "latest root hash is the RFC 6962 Merkle tree hash of all entries")
	symrt.Reach("checked")
}

// RootDup: as RootDistinct but entries may repeat: repeated ones are not added again.
func RootDup() {
	n := int(symrt.Param("n", 4))
	log := henv.Memory().Account("acct", "key").VerifiableLog("log")
	var ls [][]byte
	for i := 0; i < n; i++ {
		d := symrt.Bytes("d", 1)
		p, err := log.Add(henv.Ctx, &pb.LeafData{LeafInput: d})
		bad(err, "add of an entry fails")
		lh := ref.Leaf(d)
		symrt.Assert(bytes.Equal(p.LeafHash(), lh), "add returns the leaf hash")
		dup := false
		for _, x := range ls {
			if bytes.Equal(x, lh) {
				dup = true
			}
		}
		if !dup {
			ls = append(ls, lh)
		}
		h, err := log.TreeHead(henv.Ctx, verifiable.Head)
		bad(err, "latest tree head fails")
		symrt.Assert(h.TreeSize == int64(len(ls)), "the log grows by one exactly for new entries")
		symrt.Assert(bytes.Equal(h.RootHash, ref.MTH(ls)), "root hash is that of the different entries in order of first addition")
	}
	for s := 1; s <= len(ls); s++ {
		h, err := log.TreeHead(henv.Ctx, int64(s))
		bad(err, "historic head")
		symrt.Assert(bytes.Equal(h.RootHash, ref.MTH(ls[:s])), "historic root hash stays the same")
	}
	symrt.Reach("checked")
}

func same(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = symrt.And(ok, bytes.Equal(a[i], b[i]))
	}
	return ok
}

// InclusionComplete: for every tree size and index the server gives the RFC
// 6962 audit path and it verifies; for every other request it gives an error.
func InclusionComplete() {
	n := int64(symrt.Param("n", 5))
	log := henv.Memory().Account("acct", "key").VerifiableLog("log")
	ls := leaves(fill(log, int(n), true))
	i, s := symrt.Int64("index"), symrt.Int64("size")
	eff := symrt.IteInt64(s == 0, n, s)
	symrt.Assume(symrt.Or(s <= 0, s >= symrt.Param("from", 0)))
	valid := symrt.And(s >= 0, s <= n, i >= 0, i < eff)
	var p *pb.LogInclusionProofResponse
	var err error
	if symrt.Choose("byHash", 2) == 1 {
		symrt.Assume(symrt.And(i >= 0, i < n))
		p, err = log.InclusionProof(henv.Ctx, s, ls[symrt.Concretize(i)])
	} else {
		p, err = log.InclusionProofByIndex(henv.Ctx, s, i)
	}
	if err != nil {
		symrt.Assert(symrt.Not(valid), "an inclusion proof is given for every entry of every tree size")
		symrt.Reach("rejected")
		return
	}
	symrt.Assert(valid, "no inclusion proof for a size or index out of range")
	symrt.Assert(symrt.And(p.LeafIndex == i, p.TreeSize == eff), "the proof is for the index and size asked for")
	ii, ss := symrt.Concretize(p.LeafIndex), symrt.Concretize(p.TreeSize)
	symrt.Assert(same(p.AuditPath, ref.Path(int(ii), ls[:ss])), "the audit path is that of RFC 6962")
	head, err := log.TreeHead(henv.Ctx, ss)
	bad(err, "tree head")
	bad(verifiable.VerifyLogInclusionProof(p, ls[ii], head), "the proof given verifies")
	bad(log.VerifyInclusion(henv.Ctx, head, ls[ii]), "client verification of inclusion succeeds")
	symrt.Reach("checked")
}

// InclusionDup: with repeated entries, the proof by hash is for the first occurrence.
func InclusionDup() {
	n := int(symrt.Param("n", 4))
	log := henv.Memory().Account("acct", "key").VerifiableLog("log")
	var ls [][]byte
	for i := 0; i < n; i++ {
		d := symrt.Bytes("d", symrt.Choose("len", 2))
		_, err := log.Add(henv.Ctx, &pb.LeafData{LeafInput: d})
		bad(err, "add")
		lh := ref.Leaf(d)
		dup := false
		for _, x := range ls {
			if bytes.Equal(x, lh) {
				dup = true
			}
		}
		if !dup {
			ls = append(ls, lh)
		}
	}
	head, err := log.TreeHead(henv.Ctx, verifiable.Head)
	bad(err, "head")
	symrt.Assert(head.TreeSize == int64(len(ls)), "repeated entries are stored once")
	for i, l := range ls {
		p, err := log.InclusionProof(henv.Ctx, head.TreeSize, l)
		bad(err, "inclusion proof by hash")
		symrt.Assert(p.LeafIndex == int64(i), "index of first addition")
		bad(verifiable.VerifyLogInclusionProof(p, l, head), "proof verifies")
	}
	// any hash that the log proves is one of its entries
	h := symrt.Hash("h")
	p, err := log.InclusionProof(henv.Ctx, head.TreeSize, h)
	if err == nil {
		symrt.Assert(bytes.Equal(ls[symrt.Concretize(p.LeafIndex)], h), "a proof by hash is given for entries of the log only")
		symrt.Reach("found")
	} else {
		for _, l := range ls {
			symrt.Assert(symrt.Not(bytes.Equal(l, h)), "every entry of the log is found by its hash")
		}
		symrt.Reach("notfound")
	}
	symrt.Reach("checked")
}

func audit(name string, n int) [][]byte {
	rv := make([][]byte, n)
	for i := range rv {
		rv[i] = symrt.Hash(name)
	}
	if n > 0 && symrt.Param("odd", 0) == 1 { // one that is no hash
		lens := []int{0, 31, 33, 64}
		rv[symrt.Choose("oddat", n)] = symrt.Bytes(name+"odd", lens[symrt.Choose("oddlen", len(lens))])
	}
	return rv
}

// cut is the hash, or what is no hash made of it.
func cut(h []byte) []byte {
	if symrt.Param("odd", 0) == 1 {
		switch symrt.Choose("cut", 4) {
		case 1:
			return nil
		case 2:
			return h[:31]
		case 3:
			return append(append([]byte{}, h...), symrt.Bytes("extra", 1)...)
		}
	}
	return h
}

// InclusionBind: for any size, index and root there is one leaf hash at most
// that verifies.
func InclusionBind() {
	max := int(symrt.Param("path", 3))
	head := &pb.LogTreeHashResponse{TreeSize: symrt.Int64("size"), RootHash: symrt.Hash("root")}
	symrt.Assume(head.TreeSize <= int64(1)<<uint(symrt.Param("bits", 62)))
	i := symrt.Int64("index")
	x, y := symrt.Hash("leaf1"), symrt.Hash("leaf2")
	p1 := &pb.LogInclusionProofResponse{LeafIndex: i, TreeSize: symrt.Int64("psize"), AuditPath: audit("p1", symrt.Choose("len1", max+1))}
	if verifiable.VerifyLogInclusionProof(p1, x, head) != nil {
		symrt.Reach("rejected")
		return
	}
	p2 := &pb.LogInclusionProofResponse{LeafIndex: i, TreeSize: head.TreeSize, AuditPath: audit("p2", symrt.Choose("len2", max+1))}
	if verifiable.VerifyLogInclusionProof(p2, y, head) != nil {
		return
	}
	symrt.Assert(symrt.And(i >= 0, i < head.TreeSize), "an accepted index is inside the tree")
	symrt.Assert(p1.TreeSize == head.TreeSize, "an accepted proof is for the size of the head")
	symrt.Assert(bytes.Equal(x, y), "two different entries are accepted at one index under one tree head")
	symrt.Assert(same(p1.AuditPath, p2.AuditPath), "the accepted audit path is unique")
	symrt.Reach("checked")
}

// InclusionReal: what verifies against the head of a log is its entry.
func InclusionReal() {
	max := int(symrt.Param("n", 5))
	n := 1 + symrt.Choose("n", max)
	var ls [][]byte
	for i := 0; i < n; i++ {
		ls = append(ls, ref.Leaf(symrt.Bytes("d", 2)))
	}
	head := &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: cut(ref.MTH(ls))}
	i := symrt.Int64("index")
	x := ref.Leaf(symrt.Bytes("x", 2))
	p := &pb.LogInclusionProofResponse{LeafIndex: i, TreeSize: symrt.Int64("psize"), AuditPath: audit("p", symrt.Choose("len", int(symrt.Param("path", 4))+1))}
	if verifiable.VerifyLogInclusionProof(p, x, head) != nil {
		symrt.Reach("rejected")
		return
	}
	symrt.Assert(len(head.RootHash) == 32, "a proof is accepted against a root that is no hash")
	symrt.Assert(symrt.And(i >= 0, i < int64(n)), "an accepted index is inside the tree")
	symrt.Assert(bytes.Equal(x, ls[symrt.Concretize(i)]), "an entry that is not at that index of the log is accepted")
	symrt.Reach("checked")
}

// ConsistencyComplete: every valid pair of sizes gets the RFC 6962 proof and it verifies.
func ConsistencyComplete() {
	n := int64(symrt.Param("n", 5))
	log := henv.Memory().Account("acct", "key").VerifiableLog("log")
	ls := leaves(fill(log, int(n), true))
	m, s := symrt.Int64("from"), symrt.Int64("size")
	eff := symrt.IteInt64(s == 0, n, s)
	symrt.Assume(symrt.Or(s <= 0, s >= symrt.Param("from", 0)))
	valid := symrt.And(s >= 0, s <= n, m >= 1, m < eff)
	p, err := log.ConsistencyProof(henv.Ctx, m, s)
	if err != nil {
		symrt.Assert(symrt.Not(valid), "a consistency proof is given for every pair of sizes")
		symrt.Reach("rejected")
		return
	}
	symrt.Assert(valid, "no consistency proof for sizes out of range")
	symrt.Assert(symrt.And(p.FromSize == m, p.TreeSize == eff), "the proof is for the sizes asked for")
	mm, ss := symrt.Concretize(p.FromSize), symrt.Concretize(p.TreeSize)
	symrt.Assert(same(p.AuditPath, ref.Proof(int(mm), ls[:ss])), "the consistency proof is that of RFC 6962")
	a, err := log.TreeHead(henv.Ctx, mm)
	bad(err, "tree head")
	b, err := log.TreeHead(henv.Ctx, ss)
	bad(err, "tree head")
	bad(verifiable.VerifyLogConsistencyProof(p, a, b), "the proof given verifies")
	bad(log.VerifyConsistency(henv.Ctx, a, b), "client verification succeeds")
	bad(log.VerifyConsistency(henv.Ctx, b, a), "client verification succeeds in either order")
	bad(log.VerifyConsistency(henv.Ctx, a, a), "a head is consistent with itself")
	symrt.Reach("checked")
}

// ConsistencyReal: an accepted proof between the heads of two logs means that
// the first is a prefix of the second.
func ConsistencyReal() {
	max := int(symrt.Param("n", 5))
	n := 2 + symrt.Choose("n", max-1)
	m := 1 + symrt.Choose("m", n-1)
	var a, b [][]byte
	for i := 0; i < m; i++ {
		a = append(a, ref.Leaf(symrt.Bytes("a", 2)))
	}
	for i := 0; i < n; i++ {
		b = append(b, ref.Leaf(symrt.Bytes("b", 2)))
	}
	first := &pb.LogTreeHashResponse{TreeSize: int64(m), RootHash: cut(ref.MTH(a))}
	second := &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: cut(ref.MTH(b))}
	p := &pb.LogConsistencyProofResponse{FromSize: symrt.Int64("from"), TreeSize: symrt.Int64("to"), AuditPath: audit("p", symrt.Choose("len", int(symrt.Param("path", 5))+1))}
	if verifiable.VerifyLogConsistencyProof(p, first, second) != nil {
		symrt.Reach("rejected")
		return
	}
	symrt.Assert(len(first.RootHash) == 32 && len(second.RootHash) == 32, "a proof is accepted between roots that are no hashes")
	symrt.Assert(same(a, b[:m]), "heads of diverging logs are accepted as consistent")
	symrt.Reach("checked")
}

// ConsistencyBind: for any sizes and second root there is at most one first
// root that verifies, and the other way round the proof fixes the second root.
func ConsistencyBind() {
	max := int(symrt.Param("path", 3))
	m, n := symrt.Int64("from"), symrt.Int64("to")
	symrt.Assume(n < int64(1)<<uint(symrt.Param("bits", 12)))
	second := &pb.LogTreeHashResponse{TreeSize: n, RootHash: symrt.Hash("root")}
	r1 := &pb.LogTreeHashResponse{TreeSize: symrt.Int64("hfrom"), RootHash: symrt.Hash("first1")}
	p1 := &pb.LogConsistencyProofResponse{FromSize: m, TreeSize: symrt.Int64("pto"), AuditPath: audit("p1", symrt.Choose("len1", max+1))}
	if verifiable.VerifyLogConsistencyProof(p1, r1, second) != nil {
		symrt.Reach("rejected")
		return
	}
	symrt.Assert(symrt.And(m >= 1, m < n), "accepted sizes grow")
	symrt.Assert(symrt.And(r1.TreeSize == m, p1.TreeSize == n), "an accepted proof is for the sizes of the heads")
	r2 := &pb.LogTreeHashResponse{TreeSize: m, RootHash: symrt.Hash("first2")}
	p2 := &pb.LogConsistencyProofResponse{FromSize: m, TreeSize: n, AuditPath: audit("p2", symrt.Choose("len2", max+1))}
	if verifiable.VerifyLogConsistencyProof(p2, r2, second) != nil {
		return
	}
	symrt.Assert(bytes.Equal(r1.RootHash, r2.RootHash), "two different earlier heads are accepted as consistent with one later head")
	symrt.Reach("checked")
}

// Fetch: every range of entries comes back exactly as it was added; other ranges are errors.
func Fetch() {
	n := int64(symrt.Param("n", 4))
	log := henv.Memory().Account("acct", "key").VerifiableLog("log")
	var in []*pb.LeafData
	for i := int64(0); i < n; i++ {
		l := &pb.LeafData{LeafInput: symrt.Bytes("d", 1), ExtraData: symrt.Bytes("x", symrt.Choose("xlen", 2)), Format: pb.DataFormat(symrt.Choose("fmt", 2))}
		for _, y := range in {
			symrt.Assume(!bytes.Equal(y.LeafInput, l.LeafInput))
		}
		in = append(in, l)
		_, err := log.Add(henv.Ctx, &pb.LeafData{LeafInput: l.LeafInput, ExtraData: l.ExtraData, Format: l.Format})
		bad(err, "add")
	}
	first, last := symrt.Int64("first"), symrt.Int64("last")
	eff := symrt.IteInt64(last == 0, n, last)
	valid := symrt.And(first >= 0, last >= 0, last <= n, first < eff)
	r, err := log.Service.LogFetchEntries(henv.Ctx, &pb.LogFetchEntriesRequest{Log: log.Log, First: first, Last: last})
	if err != nil {
		symrt.Assert(symrt.Not(valid), "every range inside the log can be fetched")
		symrt.Reach("rejected")
		return
	}
	symrt.Assert(valid, "no entries for a range outside the log")
	f, l := symrt.Concretize(first), symrt.Concretize(eff)
	symrt.Assert(int64(len(r.Values)) == l-f, "as many entries as asked for")
	for i, v := range r.Values {
		w := in[int(f)+i]
		symrt.Assert(symrt.And(bytes.Equal(v.LeafInput, w.LeafInput), bytes.Equal(v.ExtraData, w.ExtraData), v.Format == w.Format), "entries come back as added, in order")
	}
	e, err := log.Entry(henv.Ctx, f)
	bad(err, "single entry")
	symrt.Assert(bytes.Equal(e.LeafInput, in[f].LeafInput), "single entry is the one at that index")
	k := f
	for e := range log.Entries(henv.Ctx, f, l) {
		symrt.Assert(bytes.Equal(e.LeafInput, in[k].LeafInput), "streamed entries come in order")
		k++
	}
	symrt.Assert(k == l, "the stream ends after the last entry")
	symrt.Reach("checked")
}

var errServer = errors.New("server says no")

// fake is a service whose answers the harness makes up.
type fake struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	fetch func(*pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error)
	incl  func(*pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error)
	cons  func(*pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error)
	head  func(*pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error)
}

func (f *fake) LogFetchEntries(_ context.Context, r *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	return f.fetch(r)
}

func (f *fake) LogInclusionProof(_ context.Context, r *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	return f.incl(r)
}

func (f *fake) LogConsistencyProof(_ context.Context, r *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	return f.cons(r)
}

func (f *fake) LogTreeHash(_ context.Context, r *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	return f.head(r)
}

func (f *fake) log() *verifiable.Log {
	return (&verifiable.Client{Service: f}).Account("acct", "key").VerifiableLog("log")
}

func idx8(i int64) []byte {
	return []byte{byte(i >> 56), byte(i >> 48), byte(i >> 40), byte(i >> 32), byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)}
}

// Stream: over a server that gives at most a number of entries per answer and
// may fail at some request, the stream is start, start+1, ... in order, whole
// unless a request failed.
func Stream() {
	span := int64(symrt.Param("span", 1003))
	caps := []int64{1 << 40, 500, 499, 300}
	limit := caps[symrt.Choose("cap", len(caps))]
	failAt := symrt.Choose("failAt", 4) // 0: never
	start := symrt.Int64("start")
	symrt.Assume(symrt.And(start >= 0, start < 1<<40))
	count := []int64{0, 1, 499, 500, 501, span}[symrt.Choose("count", 6)]
	calls := 0
	f := &fake{}
	f.fetch = func(r *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
		calls++
		if calls == failAt {
			return nil, errServer
		}
		symrt.Assert(symrt.And(r.First >= start, r.First < r.Last, r.Last <= start+count), "only entries of the range are asked for")
		k := symrt.Concretize(r.Last - r.First)
		if k > limit {
			k = limit
		}
		rv := &pb.LogFetchEntriesResponse{}
		for i := int64(0); i < k; i++ {
			rv.Values = append(rv.Values, &pb.LeafData{LeafInput: idx8(symrt.Concretize(r.First-start) + i)})
		}
		return rv, nil
	}
	k := int64(0)
	for e := range f.log().Entries(henv.Ctx, start, start+count) {
		symrt.Assert(bytes.Equal(e.LeafInput, idx8(k)), "the stream is in order with nothing left out or repeated")
		k++
	}
	symrt.Assert(k <= count, "nothing beyond the end")
	if failAt == 0 || calls < failAt {
		symrt.Assert(k == count, "the stream is whole when no request fails")
	}
	symrt.Reach("checked")
}

func someEntries(n int) (rv []*pb.LeafData) {
	for i := 0; i < n; i++ {
		rv = append(rv, &pb.LeafData{LeafInput: symrt.Bytes("e", 1)})
	}
	return rv
}

// EntriesReal: an audit of entries that succeeds has seen exactly the entries
// behind the two heads, whatever the server answers.
func EntriesReal() {
	max := int(symrt.Param("n", 4))
	n := 1 + symrt.Choose("n", max)
	m := symrt.Choose("m", n)
	var a, b [][]byte
	for i := 0; i < m; i++ {
		a = append(a, ref.Leaf(symrt.Bytes("a", 1)))
	}
	for i := 0; i < n; i++ {
		b = append(b, ref.Leaf(symrt.Bytes("b", 1)))
	}
	var prev *pb.LogTreeHashResponse
	if m > 0 {
		prev = &pb.LogTreeHashResponse{TreeSize: int64(m), RootHash: ref.MTH(a)}
	}
	head := &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: ref.MTH(b)}
	f := &fake{}
	f.incl = func(r *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
		if err := henv.Refusal("irefuse"); err != nil {
			return nil, err
		}
		return &pb.LogInclusionProofResponse{LeafIndex: r.LeafIndex, TreeSize: r.TreeSize, AuditPath: audit("p", symrt.Choose("plen", int(symrt.Param("path", 3))+1))}, nil
	}
	f.fetch = func(r *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
		k := int(r.Last-r.First) + 1 - symrt.Choose("short", int(symrt.Param("short", 3)))
		if k < 0 {
			return nil, errServer
		}
		return &pb.LogFetchEntriesResponse{Values: someEntries(k)}, nil
	}
	var seen [][]byte
	next := int64(m)
	err := f.log().VerifyEntries(henv.Ctx, prev, head, func(_ context.Context, idx int64, e *pb.LeafData) error {
		symrt.Assert(idx == next, "entries are audited in order")
		next++
		seen = append(seen, ref.Leaf(e.GetLeafInput()))
		return nil
	})
	if err != nil {
		symrt.Reach("rejected")
		return
	}
	symrt.Assert(len(seen) == n-m, "a successful audit has seen every entry once")
	symrt.Assert(same(seen, b[m:]), "the audited entries are those behind the head")
	symrt.Assert(same(a, b[:m]), "the earlier head is for a prefix of the later one")
	symrt.Reach("checked")
}

// EntriesComplete: auditing an honest log succeeds between any two of its sizes
// and shows each entry once.
func EntriesComplete() {
	n := int(symrt.Param("n", 5))
	log := henv.Memory().Account("acct", "key").VerifiableLog("log")
	ds := fill(log, n, true)
	s := 1 + symrt.Choose("s", n)
	m := symrt.Choose("m", s+1)
	head, err := log.TreeHead(henv.Ctx, int64(s))
	bad(err, "head")
	var prev *pb.LogTreeHashResponse
	if m > 0 {
		prev, err = log.TreeHead(henv.Ctx, int64(m))
		bad(err, "head")
	}
	k := m
	err = log.VerifyEntries(henv.Ctx, prev, head, func(_ context.Context, idx int64, e *pb.LeafData) error {
		symrt.Assert(idx == int64(k), "index")
		symrt.Assert(bytes.Equal(e.LeafInput, ds[k]), "entry")
		k++
		return nil
	})
	bad(err, "auditing an honest log fails")
	symrt.Assert(k == s, "every entry between the heads is audited")
	// the verdict of the caller counts
	if m < s {
		err = log.VerifyEntries(henv.Ctx, prev, head, func(_ context.Context, idx int64, e *pb.LeafData) error {
			if idx == int64(s-1) {
				return errServer
			}
			return nil
		})
		symrt.Assert(err == errServer, "an error of the audit function ends the audit with that error")
	}
	symrt.Reach("checked")
}

// Heads: whatever the server answers, a verified head is consistent with the
// previous one, the latest head never goes back.
func Heads() {
	max := int(symrt.Param("n", 4))
	m := symrt.Choose("m", max+1)
	n := symrt.Choose("n", max+1)
	var a, b [][]byte
	for i := 0; i < m; i++ {
		a = append(a, ref.Leaf(symrt.Bytes("a", 1)))
	}
	for i := 0; i < n; i++ {
		b = append(b, ref.Leaf(symrt.Bytes("b", 1)))
	}
	var prev *pb.LogTreeHashResponse
	if m > 0 {
		prev = &pb.LogTreeHashResponse{TreeSize: int64(m), RootHash: ref.MTH(a)}
	}
	answer := &pb.LogTreeHashResponse{TreeSize: int64(n)}
	if n > 0 {
		answer.RootHash = ref.MTH(b)
	}
	f := &fake{}
	f.head = func(r *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
		if err := henv.Refusal("hrefuse"); err != nil {
			return nil, err
		}
		return answer, nil
	}
	f.cons = func(r *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
		if err := henv.Refusal("crefuse"); err != nil {
			return nil, err
		}
		return &pb.LogConsistencyProofResponse{FromSize: symrt.Int64("from"), TreeSize: symrt.Int64("to"), AuditPath: audit("p", symrt.Choose("plen", int(symrt.Param("path", 4))+1))}, nil
	}
	var got *pb.LogTreeHashResponse
	var err error
	ask := int64(0)
	x := ref.Leaf(symrt.Bytes("x", 1))
	ip := &pb.LogInclusionProofResponse{LeafIndex: symrt.Int64("index")}
	op := symrt.Choose("op", 3)
	switch op {
	case 0:
		got, err = f.log().VerifiedLatestTreeHead(henv.Ctx, prev)
	case 1:
		ask = int64(symrt.Choose("ask", max+1))
		got, err = f.log().VerifiedTreeHead(henv.Ctx, prev, ask)
	case 2:
		ask = int64(1 + symrt.Choose("ask", max))
		ip.TreeSize = ask
		ip.AuditPath = audit("ip", symrt.Choose("iplen", 4))
		got, err = f.log().VerifySuppliedInclusionProof(henv.Ctx, prev, ip, x)
	}
	if err != nil {
		symrt.Reach("rejected")
		return
	}
	symrt.Assert(got != nil, "a head comes with success")
	if ask != 0 {
		symrt.Assert(got.TreeSize == ask, "the head is of the size asked for")
	}
	var of [][]byte
	if prev != nil && got.TreeSize == prev.TreeSize && symrt.Concretize(b2i(bytes.Equal(got.RootHash, prev.RootHash))) == 1 {
		of = a
		symrt.Reach("kept")
	} else {
		symrt.Assert(got.TreeSize == int64(n), "the head is the old one or that of the server")
		symrt.Assert(bytes.Equal(got.RootHash, answer.RootHash), "the head is the old one or that of the server")
		of = b
		if prev != nil {
			k := len(a)
			if len(b) < k {
				k = len(b)
			}
			symrt.Assert(same(a[:k], b[:k]), "a head that is inconsistent with the previous one is accepted")
		}
		if op == 0 && prev != nil {
			symrt.Assert(got.TreeSize > prev.TreeSize, "the latest head goes back")
		}
		symrt.Reach("checked")
	}
	if op == 2 {
		symrt.Assert(symrt.And(ip.LeafIndex >= 0, ip.LeafIndex < int64(len(of))), "index inside the tree")
		symrt.Assert(bytes.Equal(of[symrt.Concretize(ip.LeafIndex)], x), "an accepted inclusion proof is for an entry of the log")
	}
}

func b2i(b bool) int64 { return symrt.IteInt64(b, 1, 0) }

// Consistent: the client's own comparison of two heads of which one may be
// missing or empty.
func Consistent() {
	a := &pb.LogTreeHashResponse{TreeSize: symrt.Int64("asize"), RootHash: symrt.Hash("aroot")}
	b := &pb.LogTreeHashResponse{TreeSize: symrt.Int64("bsize"), RootHash: symrt.Hash("broot")}
	f := &fake{}
	asked := false
	f.cons = func(r *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
		asked = true
		symrt.Assert(symrt.And(r.FromSize < r.TreeSize, r.FromSize > 0), "a proof from the smaller to the larger size is asked for")
		return nil, errServer
	}
	if symrt.Choose("nil", 4) == 1 {
		a = nil
	}
	err := f.log().VerifyConsistency(henv.Ctx, a, b)
	if err == nil {
		symrt.Assert(a != nil && !asked, "no success without proof")
		symrt.Assert(symrt.And(a.TreeSize > 0, a.TreeSize == b.TreeSize, bytes.Equal(a.RootHash, b.RootHash)), "heads of one size are consistent only when equal")
		symrt.Reach("equal")
	}
	symrt.Reach("checked")
}

// VerifyInclusionReal: what the client's own inclusion check accepts is an
// entry of the log behind the head, whatever the server answers.
func VerifyInclusionReal() {
	max := int(symrt.Param("n", 5))
	n := symrt.Choose("n", max+1)
	var ls [][]byte
	for i := 0; i < n; i++ {
		ls = append(ls, ref.Leaf(symrt.Bytes("d", 2)))
	}
	head := &pb.LogTreeHashResponse{TreeSize: int64(n)}
	if n > 0 {
		head.RootHash = ref.MTH(ls)
	}
	f := &fake{}
	f.incl = func(r *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
		symrt.Assert(r.TreeSize == int64(n), "a proof for the size of the head is asked for")
		if err := henv.Refusal("irefuse"); err != nil {
			return nil, err
		}
		return &pb.LogInclusionProofResponse{LeafIndex: symrt.Int64("index"), TreeSize: symrt.Int64("psize"), AuditPath: audit("p", symrt.Choose("len", int(symrt.Param("path", 4))+1))}, nil
	}
	x := ref.Leaf(symrt.Bytes("x", 2))
	if f.log().VerifyInclusion(henv.Ctx, head, x) != nil {
		symrt.Reach("rejected")
		return
	}
	in := false
	for _, l := range ls {
		in = symrt.Or(in, bytes.Equal(l, x))
	}
	symrt.Assert(in, "something that is not in the log is accepted as included")
	symrt.Reach("checked")
}

// Add: an addition answers with the leaf hash of its entry, which is in the
// log from then on, once, as first added.
func Add() {
	log := henv.Memory().Account("acct", "key").VerifiableLog("log")
	n := int(symrt.Param("n", 3))
	var es []*pb.LeafData
	for i := 0; i < n; i++ {
		e := &pb.LeafData{LeafInput: symrt.Bytes("d", []int{1, 0, 3}[symrt.Choose("len", 3)]), ExtraData: symrt.Bytes("x", 1), Format: pb.DataFormat(symrt.Choose("format", 2))}
		p, err := log.Add(henv.Ctx, e)
		bad(err, "add")
		symrt.Assert(bytes.Equal(p.LeafHash(), ref.Leaf(e.LeafInput)), "the answer to an addition is the leaf hash of the entry")
		at := -1
		for j, o := range es {
			if bytes.Equal(o.LeafInput, e.LeafInput) {
				at = j
				break
			}
		}
		if at < 0 {
			at = len(es)
			es = append(es, e)
			symrt.Reach("new")
		} else {
			symrt.Reach("again")
		}
		h, err := p.Wait(henv.Ctx)
		bad(err, "wait")
		symrt.Assert(h.TreeSize == int64(len(es)), "an entry is added once, at the end")
		pr, err := log.InclusionProof(henv.Ctx, h.TreeSize, p.LeafHash())
		bad(err, "inclusion proof of an added entry")
		symrt.Assert(pr.LeafIndex == int64(at), "an entry stays where it was added")
		for j, o := range es {
			g, err := log.Entry(henv.Ctx, int64(j))
			bad(err, "entry")
			symrt.Assert(symrt.And(bytes.Equal(g.LeafInput, o.LeafInput), bytes.Equal(g.ExtraData, o.ExtraData), g.Format == o.Format), "an entry stays as it was added")
		}
	}
	symrt.Reach("checked")
}
