package hlog

import (
	"bytes"
	"context"

	"gosymharness/henv"
	"gosymharness/ref"
	"gosymharness/symrt"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

// sizes of entries in a long log.
var lens = []int{2, 30, 31, 32, 33, 62, 63, 64, 65, 127, 128, 200}

// long is a log of n entries of many sizes with a history that is fixed, except
// for the last entry. One is added again now and then.
func long(n int) (*verifiable.Log, []*pb.LeafData) {
	log := henv.Memory().Account("acct", "key").VerifiableLog("log")
	var es []*pb.LeafData
	for i := 0; i < n; i++ {
		d := bytes.Repeat([]byte{byte(i)}, lens[i%len(lens)])
		switch {
		case i == 3: // no input at all
			d = nil
		case i == n/2: // a large one
			d = bytes.Repeat([]byte{7}, int(symrt.Param("large", 70000)))
		case i == n-1:
			d = append([]byte("the last "), symrt.Bytes("d", 2)...)
		default:
			d[0], d[1] = byte(i>>8), byte(i)
		}
		e := &pb.LeafData{LeafInput: d, ExtraData: bytes.Repeat([]byte{byte(i)}, i%4), Format: pb.DataFormat(i % 2)}
		p, err := log.Add(henv.Ctx, e)
		bad(err, "add of an entry fails")
		symrt.Assert(bytes.Equal(p.LeafHash(), ref.Leaf(d)), "add returns the leaf hash of the entry")
		es = append(es, e)
		if i%100 == 99 { // again
			_, err := log.Add(henv.Ctx, &pb.LeafData{LeafInput: es[i*3/4].LeafInput, ExtraData: []byte("other")})
			bad(err, "add of an entry again fails")
		}
	}
	return log, es
}

func sameEntry(a, b *pb.LeafData) bool {
	return symrt.And(bytes.Equal(a.GetLeafInput(), b.GetLeafInput()), bytes.Equal(a.GetExtraData(), b.GetExtraData()), a.GetFormat() == b.GetFormat())
}

// marks are places in a log of n entries: the ends, and around the sizes at which
// the trees and the answers change their form.
func marks(n int) (rv []int) {
	for _, x := range []int{1, 2, 63, 64, 65, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, n - 1, n} {
		if x > 0 && x <= n && (len(rv) == 0 || rv[len(rv)-1] < x) {
			rv = append(rv, x)
		}
	}
	return rv
}

// Long: between any two of the marks of a long log, its entries are streamed and
// audited in full, its heads are consistent, and the entries at the marks included.
func Long() {
	n := int(symrt.Param("n", 300))
	log, es := long(n)
	ms := marks(n)
	i := symrt.Choose("i", len(ms)+1) // len(ms): from the start
	lo := 0
	var prev *pb.LogTreeHashResponse
	var err error
	if i < len(ms) {
		lo = ms[i]
		prev, err = log.TreeHead(henv.Ctx, int64(lo))
		bad(err, "tree head")
	}
	ls := make([][]byte, n)
	for j, e := range es {
		ls[j] = ref.Leaf(e.LeafInput)
	}
	for _, hi := range ms {
		if hi < lo {
			continue
		}
		head, err := log.TreeHead(henv.Ctx, int64(hi))
		bad(err, "tree head")
		symrt.Assert(head.TreeSize == int64(hi) && bytes.Equal(head.RootHash, ref.MTH(ls[:hi])), "root hash is the RFC 6962 Merkle tree hash of the first entries")
		k := lo
		bad(log.VerifyEntries(henv.Ctx, prev, head, func(_ context.Context, idx int64, e *pb.LeafData) error {
			symrt.Assert(k < hi && idx == int64(k), "entries are audited in order")
			symrt.Assert(sameEntry(e, es[k]), "an audited entry is the one added")
			k++
			return nil
		}), "auditing an honest log fails")
		symrt.Assert(k == hi, "every entry between the heads is audited")
		if prev != nil {
			bad(log.VerifyConsistency(henv.Ctx, prev, head), "two heads of a log are not consistent")
		}
		if lo < hi {
			bad(log.VerifyInclusion(henv.Ctx, head, ls[lo]), "an entry is not included")
			bad(log.VerifyInclusion(henv.Ctx, head, ls[hi-1]), "an entry is not included")
			p, err := log.InclusionProofByIndex(henv.Ctx, int64(hi), int64(lo))
			bad(err, "inclusion proof by index")
			bad(verifiable.VerifyLogInclusionProof(p, ls[lo], head), "inclusion proof by index")
		}
	}
	h, err := log.TreeHead(henv.Ctx, verifiable.Head)
	bad(err, "tree head")
	symrt.Assert(h.TreeSize == int64(n), "additions made again do not count")
	k := lo
	for e := range log.Entries(henv.Ctx, int64(lo), int64(n)) {
		symrt.Assert(k < n && sameEntry(e, es[k]), "a streamed entry is the one added")
		k++
	}
	symrt.Assert(k == n, "the stream is whole")
	if lo < n {
		r, err := log.Entry(henv.Ctx, int64(lo))
		bad(err, "entry")
		symrt.Assert(sameEntry(r, es[lo]), "an entry is the one added")
		all, err := log.Service.LogFetchEntries(henv.Ctx, &pb.LogFetchEntriesRequest{Log: log.Log, First: int64(lo), Last: int64(n)})
		bad(err, "fetching the rest of a log")
		symrt.Assert(len(all.Values) == n-lo, "a range is not answered in full")
		for j, e := range all.Values {
			symrt.Assert(sameEntry(e, es[lo+j]), "a fetched entry is the one added")
		}
	}
	symrt.Reach("checked")
}
