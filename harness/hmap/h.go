// Package hmap holds harnesses for verifiable maps.
package hmap

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"

	"gosymharness/henv"
	"gosymharness/ref"
	"gosymharness/symrt"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

func bad(err error, msg string) {
	if err != nil {
		symrt.Fail(msg + ": " + err.Error())
	}
}

// depths are lengths of common prefixes, those around whole bytes first.
var depths = []int{7, 8, 15, 9, 16, 6, 14, 1, 2, 3, 4, 5, 10, 11, 12, 13, 17, 18, 19, 20}

// keys gives k keys whose places in the tree are arbitrary within a window of
// bits below a common prefix.
func keys(k int) (rv [][]byte) {
	pb := int(symrt.Param("pbits", 0))
	if n := int(symrt.Param("depths", 0)); n > 0 {
		pb = depths[symrt.Choose("depth", n)]
	}
	wb := int(symrt.Param("wbits", 2))
	for i := 0; i < k; i++ {
		rv = append(rv, symrt.WindowKey("key", 0x15a5a5a5&(1<<uint(pb)-1), pb, wb))
	}
	return rv
}

// model is what the map must be after each mutation.
type model struct {
	keys  [][]byte
	paths [][32]byte
	vals  [][][]byte // per size, per key: leaf input, empty if absent
	muts  []*pb.MapMutation
	log   [][]byte // leaf hashes of the mutations
	used  int
	state *verifiable.MapTreeState // one had on the way
}

func newModel(ks [][]byte) *model {
	m := &model{keys: ks}
	for _, k := range ks {
		m.paths = append(m.paths, ref.KeyPath(k))
	}
	m.vals = append(m.vals, make([][]byte, len(ks)))
	for i := range m.paths { // no two keys share a place
		for j := range m.paths[:i] {
			symrt.Assume(m.paths[i] != m.paths[j])
		}
	}
	return m
}

func (m *model) kvs(s int) (rv []*ref.KV) {
	for i, v := range m.vals[s] {
		if len(v) > 0 {
			rv = append(rv, &ref.KV{Path: m.paths[i], Leaf: ref.Leaf(v)})
		}
	}
	return rv
}

func (m *model) cur(k int) []byte { return m.vals[len(m.vals)-1][k] }

// mutate performs an arbitrary mutation and mirrors it in the model.
func (m *model) mutate(vm *verifiable.Map) []byte {
	k := symrt.Choose("k", len(m.keys))
	symrt.Assume(k <= m.used) // the first uses of keys are in order: they are alike
	if k == m.used {
		m.used++
	}
	var p verifiable.MapUpdatePromise
	var err error
	cur := m.cur(k)
	next := cur
	switch symrt.Choose("action", int(symrt.Param("actions", 5))) {
	case 0:
		next = symrt.Bytes("v", 1)
		p, err = vm.Set(henv.Ctx, m.keys[k], &pb.LeafData{LeafInput: next})
	case 1:
		p, err = vm.Delete(henv.Ctx, m.keys[k])
		next = nil
	case 2: // conditional on a previous value that may or may not be the current one
		v, w := symrt.Bytes("v", 1), symrt.Bytes("w", symrt.Choose("wl", 2))
		p, err = vm.Update(henv.Ctx, m.keys[k], &pb.LeafData{LeafInput: v}, ref.Leaf(w))
		if bytes.Equal(w, cur) {
			next = v
		}
	case 3: // an empty value is no value
		p, err = vm.Set(henv.Ctx, m.keys[k], &pb.LeafData{})
		next = nil
	case 4: // the previous hash is not a leaf hash at all
		p, err = vm.Update(henv.Ctx, m.keys[k], &pb.LeafData{LeafInput: symrt.Bytes("v", 1)}, symrt.Bytes("h", symrt.Choose("hl", 2)))
	}
	bad(err, "a mutation fails")
	n := append([][]byte(nil), m.vals[len(m.vals)-1]...)
	n[k] = next
	m.vals = append(m.vals, n)
	m.log = append(m.log, p.LeafHash())
	return p.LeafHash()
}

func same(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = symrt.And(ok, bytes.Equal(a[i], b[i]))
	}
	return ok
}

func theMap() *verifiable.Map { return henv.Memory().Account("acct", "key").VerifiableMap("map") }

// Root: the root hash at every size is that of the sparse Merkle tree of the
// values present after that many mutations.
func Root() {
	vm := theMap()
	m := newModel(keys(int(symrt.Param("keys", 2))))
	n := int(symrt.Param("ops", 2))
	for i := 0; i < n; i++ {
		m.mutate(vm)
	}
	for s := 0; s <= n; s++ {
		h, err := vm.TreeHead(henv.Ctx, int64(s))
		bad(err, "map tree head at an existing size fails")
		want := s
		if s == 0 { // latest
			want = n
		}
		symrt.Assert(h.MutationLog.GetTreeSize() == int64(want), "map tree head has the size asked for")
		symrt.Assert(bytes.Equal(h.RootHash, ref.MapRoot(m.kvs(want))), "map root hash is that of the sparse Merkle tree of the values present")
		symrt.Assert(bytes.Equal(h.MutationLog.GetRootHash(), ref.MTH(m.log[:want])), "map tree head has the mutation log's root hash")
	}
	symrt.Reach("checked")
}

// check compares everything readable at size s (asked for as q) with the model.
func (m *model) check(vm *verifiable.Map, q, s int) {
	st := &verifiable.MapTreeState{MapTreeHead: &pb.MapTreeHashResponse{
		RootHash:    ref.MapRoot(m.kvs(s)),
		MutationLog: &pb.LogTreeHashResponse{TreeSize: int64(s)},
	}}
	for k, key := range m.keys {
		g, err := vm.Get(henv.Ctx, key, int64(q))
		bad(err, "getting a value at an existing size fails")
		symrt.Assert(g.TreeSize == int64(s), "the value is for the size asked for")
		symrt.Assert(bytes.Equal(g.GetValue().GetLeafInput(), m.vals[s][k]), "the value is the one the key had at that size")
		path := ref.MapPath(m.kvs(s), m.paths[k])
		symrt.Assert(len(g.AuditPath) == 256, "a map proof has 256 hashes")
		ok := true
		for i, h := range g.AuditPath {
			if len(h) == 0 {
				h = ref.Default(i + 1)
			}
			ok = symrt.And(ok, bytes.Equal(h, path[i]))
		}
		symrt.Assert(ok, "the proof has the hashes beside the path to the key")
		bad(verifiable.VerifyMapInclusionProof(g, key, st.MapTreeHead), "the proof for a value or its absence fails to verify")
		if q != 0 && symrt.Param("last", 0) == 0 {
			v, err := vm.VerifiedGet(henv.Ctx, key, st)
			bad(err, "verified get fails")
			symrt.Assert(bytes.Equal(v.GetLeafInput(), m.vals[s][k]), "verified get gives the value")
		}
	}
}

// Get: every key, present or not, reads at every size as the model says, with
// a proof that verifies.
func Get() {
	vm := theMap()
	m := newModel(keys(int(symrt.Param("keys", 2))))
	n := int(symrt.Param("ops", 2))
	for i := 0; i < n; i++ {
		m.mutate(vm)
	}
	if symrt.Param("last", 0) == 1 {
		m.check(vm, n, n)
		symrt.Reach("checked")
		return
	}
	for s := 1; s <= n; s++ {
		m.check(vm, s, s)
	}
	m.check(vm, 0, n)
	symrt.Reach("checked")
}

// Kept: what a map gives with a value at any size is what the mutation that
// first gave it that input came with, and the entries of its mutation log stay
// as they were added, whatever inputs the values have.
func Kept() {
	vm := theMap()
	ks := keys(int(symrt.Param("keys", 2)))
	symrt.Assume(ref.KeyPath(ks[0]) != ref.KeyPath(ks[1]))
	log := vm.MutationLog()
	n := int(symrt.Param("ops", 3))
	var entries, vals []*pb.LeafData // entries added; values put in effect
	at := make([][]*pb.LeafData, n+1)
	at[0] = make([]*pb.LeafData, len(ks))
	for i := 0; i < n; i++ {
		k := symrt.Choose("k", len(ks))
		symrt.Assume(i > 0 || k == 0)
		var v *pb.LeafData
		var err error
		cur := at[i][k]
		if i > 0 && symrt.Choose("delete", 2) == 1 {
			_, err = vm.Delete(henv.Ctx, ks[k])
		} else {
			v = &pb.LeafData{ExtraData: symrt.Bytes("x", 1), Format: pb.DataFormat(symrt.Choose("format", int(symrt.Param("formats", 2))))}
			if c := symrt.Choose("input", i+1); c == 0 {
				v.LeafInput = symrt.Bytes("v", 1)
			} else { // that of an entry of the mutation log
				v.LeafInput = entries[c-1].LeafInput
			}
			if symrt.Choose("update", int(symrt.Param("updates", 2))) == 1 {
				_, err = vm.Update(henv.Ctx, ks[k], v, ref.Leaf(cur.GetLeafInput()))
			} else {
				_, err = vm.Set(henv.Ctx, ks[k], v)
			}
			for _, o := range vals {
				if bytes.Equal(o.LeafInput, v.LeafInput) {
					v = o
					break
				}
			}
			vals = append(vals, v)
		}
		bad(err, "a mutation fails")
		at[i+1] = append([]*pb.LeafData(nil), at[i]...)
		at[i+1][k] = v
		e, err := log.Entry(henv.Ctx, int64(i))
		bad(err, "an entry of the mutation log cannot be read")
		entries = append(entries, e)
	}
	for s := 1; s <= n; s++ {
		for k := range ks {
			g, err := vm.Get(henv.Ctx, ks[k], int64(s))
			bad(err, "getting a value at an existing size fails")
			symrt.Assert(sameLeaf(g.Value, at[s][k]), "a value comes with what it was set with")
		}
	}
	for i, e := range entries {
		f, err := log.Entry(henv.Ctx, int64(i))
		bad(err, "an entry of the mutation log cannot be read any more")
		symrt.Assert(sameLeaf(e, f), "an entry of the mutation log stays as it was")
	}
	symrt.Reach("checked")
}

func sameLeaf(a, b *pb.LeafData) bool {
	return symrt.And(symrt.And(bytes.Equal(a.GetLeafInput(), b.GetLeafInput()), bytes.Equal(a.GetExtraData(), b.GetExtraData())), a.GetFormat() == b.GetFormat())
}

// Latest: as Get for the latest values, over longer histories.
func Latest() {
	vm := theMap()
	m := newModel(keys(int(symrt.Param("keys", 2))))
	n := int(symrt.Param("ops", 3))
	for i := 0; i < n; i++ {
		m.mutate(vm)
	}
	for k, key := range m.keys {
		g, err := vm.Get(henv.Ctx, key, verifiable.Head)
		bad(err, "get")
		symrt.Assert(bytes.Equal(g.GetValue().GetLeafInput(), m.cur(k)), "a key reads as its last effective mutation left it")
	}
	h, err := vm.TreeHead(henv.Ctx, verifiable.Head)
	bad(err, "head")
	symrt.Assert(bytes.Equal(h.RootHash, ref.MapRoot(m.kvs(n))), "root hash")
	symrt.Reach("checked")
}

// Sizes: any size outside of the map's history is an error for every read.
func Sizes() {
	vm := theMap()
	m := newModel(keys(1))
	n := symrt.Choose("ops", int(symrt.Param("ops", 2))+1)
	for i := 0; i < n; i++ {
		_, err := vm.Set(henv.Ctx, m.keys[0], &pb.LeafData{LeafInput: []byte{byte(i + 1)}})
		bad(err, "set")
	}
	s := symrt.Int64("size")
	valid := symrt.And(s >= 0, s <= int64(n))
	eff := symrt.IteInt64(s == 0, int64(n), s)
	g, err := vm.Get(henv.Ctx, m.keys[0], s)
	symrt.Assert((err == nil) == (symrt.Concretize(b2i(valid)) == 1), "a value is given exactly for sizes of the map")
	if err == nil {
		symrt.Assert(g.TreeSize == eff, "size")
		symrt.Assert(len(g.GetValue().GetLeafInput()) == int(b2i(eff > 0)), "value")
	}
	h, err := vm.TreeHead(henv.Ctx, s)
	symrt.Assert((err == nil) == (symrt.Concretize(b2i(valid)) == 1), "a map head is given exactly for sizes of the map")
	if err == nil {
		symrt.Assert(h.MutationLog.GetTreeSize() == eff, "size")
		if n == 0 {
			symrt.Assert(bytes.Equal(h.RootHash, ref.Default(0)), "the empty map has the root of the empty tree")
			symrt.Reach("empty")
		}
		symrt.Reach("checked")
	} else {
		symrt.Reach("rejected")
	}
}

func b2i(b bool) int64 { return symrt.IteInt64(b, 1, 0) }

// GetReal: an accepted value proof against the root of a map is for the value
// the key has in it.
func GetReal() {
	n := int(symrt.Param("keys", 2))
	m := newModel(keys(n))
	cur := make([][]byte, n)
	for i := range cur {
		cur[i] = symrt.Bytes("v", symrt.Choose("vl", 2))
	}
	m.vals = append(m.vals, cur)
	size := symrt.Int64("size")
	head := &pb.MapTreeHashResponse{RootHash: ref.MapRoot(m.kvs(1)), MutationLog: &pb.LogTreeHashResponse{TreeSize: size}}
	g := &pb.MapGetValueResponse{TreeSize: symrt.Int64("psize")}
	nils := uint64(0)
	if symrt.Param("odd", 0) == 0 && symrt.Choose("shape", 2) == 1 { // some of the first hashes left out
		nils = uint64(1 + symrt.Choose("nils", 15))
	}
	for i := 0; i < 256; i++ {
		if i < 4 && nils>>uint(i)&1 == 1 || i > 6 && nils&2 != 0 {
			g.AuditPath = append(g.AuditPath, nil)
		} else {
			g.AuditPath = append(g.AuditPath, symrt.Hash("p"))
		}
	}
	if symrt.Param("odd", 0) == 1 { // one that is no hash, or such a root
		switch at := []int{0, 1, 255, 256}[symrt.Choose("oddat", 4)]; at {
		case 256:
			switch symrt.Choose("cut", 3) {
			case 0:
				head.RootHash = nil
			case 1:
				head.RootHash = head.RootHash[:31]
			case 2:
				head.RootHash = append(append([]byte{}, head.RootHash...), symrt.Bytes("extra", 1)...)
			}
		default:
			g.AuditPath[at] = symrt.Bytes("odd", []int{1, 31, 33, 64}[symrt.Choose("oddlen", 4)])
		}
	}
	switch l := []int{-1, 0, 1, 2, 64}[symrt.Choose("gl", 5)]; l {
	case -1:
	default:
		g.Value = &pb.LeafData{LeafInput: symrt.Bytes("g", l)}
	}
	if symrt.Param("client", 0) == 1 { // as a client gets it
		n := []int{256, 0, 1, 255, 257}[symrt.Choose("hashes", 5)]
		symrt.Assume(nils == 0 || n == 256 && nils < 4)
		if n < 256 {
			g.AuditPath = g.AuditPath[:n]
		} else if n > 256 {
			g.AuditPath = append(g.AuditPath, symrt.Hash("p"))
		}
		vmap := (&verifiable.Client{Service: &valued{g: g}}).Account("1", "").VerifiableMap("map")
		v, err := vmap.VerifiedGet(henv.Ctx, m.keys[0], &verifiable.MapTreeState{MapTreeHead: head})
		if err != nil {
			symrt.Reach("rejected")
			return
		}
		symrt.Assert(bytes.Equal(v.GetLeafInput(), cur[0]), "a value that the key does not have is accepted")
		symrt.Reach("checked")
		return
	}
	if verifiable.VerifyMapInclusionProof(g, m.keys[0], head) != nil {
		symrt.Reach("rejected")
		return
	}
	symrt.Assert(len(head.RootHash) == 32, "a proof is accepted against a root that is no hash")
	symrt.Assert(g.TreeSize == size, "an accepted proof is for the size of the head")
	symrt.Assert(bytes.Equal(g.GetValue().GetLeafInput(), cur[0]), "a value that the key does not have is accepted")
	symrt.Reach("checked")
}

// valued answers for any key alike.
type valued struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	g *pb.MapGetValueResponse
}

func (c *valued) MapGetValue(context.Context, *pb.MapGetValueRequest) (*pb.MapGetValueResponse, error) {
	return c.g, nil
}

// GetBind: under any root there is one value at most for a key.
func GetBind() {
	key := symrt.WindowKey("key", 0, 0, int(symrt.Param("wbits", 3)))
	head := &pb.MapTreeHashResponse{RootHash: symrt.Hash("root"), MutationLog: &pb.LogTreeHashResponse{TreeSize: symrt.Int64("size")}}
	prove := func(name string) []byte {
		g := &pb.MapGetValueResponse{TreeSize: head.MutationLog.TreeSize, Value: &pb.LeafData{LeafInput: symrt.Bytes(name+"v", symrt.Choose(name+"l", 3))}}
		nils := symrt.Choose(name+"nils", 4)
		for i := 0; i < 256; i++ {
			switch {
			case nils == 1 && i > 0, nils == 2 && i > 250, nils == 3:
				g.AuditPath = append(g.AuditPath, nil)
			default:
				g.AuditPath = append(g.AuditPath, symrt.Hash(name))
			}
		}
		if verifiable.VerifyMapInclusionProof(g, key, head) != nil {
			symrt.End()
		}
		return g.Value.LeafInput
	}
	a := prove("a")
	b := prove("b")
	symrt.Assert(bytes.Equal(a, b), "two different values are accepted for one key under one map head")
	symrt.Reach("checked")
}

// content is what an honest looking server presents: entries of the mutation
// log and of the tree head log that the harness makes up.
type content struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	mut, ths []*pb.LeafData
	mapHead  *pb.MapTreeHashResponse
}

func hashes(es []*pb.LeafData) (rv [][]byte) {
	for _, e := range es {
		rv = append(rv, ref.Leaf(e.LeafInput))
	}
	return rv
}

func (c *content) log(r *pb.LogRef) []*pb.LeafData {
	if r.LogType == pb.LogType_STRUCT_TYPE_MUTATION_LOG {
		return c.mut
	}
	return c.ths
}

func (c *content) LogTreeHash(_ context.Context, r *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	es := c.log(r.Log)
	n := r.TreeSize
	if n == 0 {
		n = int64(len(es))
	}
	if n == 0 {
		return &pb.LogTreeHashResponse{}, nil
	}
	if n > int64(len(es)) {
		return nil, errServer
	}
	return &pb.LogTreeHashResponse{TreeSize: n, RootHash: ref.MTH(hashes(es)[:n])}, nil
}

func (c *content) LogFetchEntries(_ context.Context, r *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	return &pb.LogFetchEntriesResponse{Values: c.log(r.Log)[r.First:r.Last]}, nil
}

func (c *content) LogConsistencyProof(_ context.Context, r *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	return &pb.LogConsistencyProofResponse{FromSize: r.FromSize, TreeSize: r.TreeSize, AuditPath: ref.Proof(int(r.FromSize), hashes(c.log(r.Log))[:r.TreeSize])}, nil
}

func (c *content) LogInclusionProof(_ context.Context, r *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	hs := hashes(c.log(r.Log))[:r.TreeSize]
	i := int(r.LeafIndex)
	if len(r.MtlHash) != 0 {
		for i = 0; i < len(hs) && !bytes.Equal(hs[i], r.MtlHash); i++ {
		}
		if i == len(hs) {
			return nil, errServer
		}
	}
	return &pb.LogInclusionProofResponse{LeafIndex: int64(i), TreeSize: r.TreeSize, AuditPath: ref.Path(i, hs)}, nil
}

func (c *content) MapTreeHash(_ context.Context, r *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	return c.mapHead, nil
}

var errServer = errors.New("server says no")
var errAudit = errors.New("auditor says no")

// mutation makes an arbitrary mutation entry and mirrors it in the model.
func (m *model) mutation(i int) *pb.LeafData {
	k := symrt.Choose("k", len(m.keys))
	symrt.Assume(k <= m.used)
	if k == m.used {
		m.used++
	}
	mm := &pb.MapMutation{Key: m.keys[k], Timestamp: fmt.Sprintf("t%d", i)}
	cur := m.cur(k)
	next := cur
	switch symrt.Choose("action", int(symrt.Param("actions", 3))) {
	case 0:
		next = symrt.Bytes("v", 1)
		mm.Action, mm.Value = "set", &pb.LeafData{LeafInput: next, ExtraData: []byte("x")}
	case 1:
		next = nil
		mm.Action = "delete"
	case 2:
		v, w := symrt.Bytes("v", 1), symrt.Bytes("w", symrt.Choose("wl", 2))
		mm.Action, mm.Value, mm.PreviousLeafHash = "update", &pb.LeafData{LeafInput: v}, ref.Leaf(w)
		if bytes.Equal(w, cur) {
			next = v
		}
	}
	n := append([][]byte(nil), m.vals[len(m.vals)-1]...)
	n[k] = next
	m.vals = append(m.vals, n)
	m.muts = append(m.muts, mm)
	e, err := verifiable.CreateJSONLeafDataFromMutation(mm)
	bad(err, "mutation entry")
	m.log = append(m.log, ref.Leaf(e.LeafInput))
	return e
}

func (m *model) head(s int) *pb.MapTreeHashResponse {
	return &pb.MapTreeHashResponse{RootHash: ref.MapRoot(m.kvs(s)), MutationLog: &pb.LogTreeHashResponse{TreeSize: int64(s), RootHash: ref.MTH(m.log[:s])}}
}

// AuditReal: an audit of a map succeeds exactly if every published head is the
// one that its mutations give.
func AuditReal() {
	m := newModel(keys(int(symrt.Param("keys", 2))))
	n := int(symrt.Param("ops", 2))
	c := &content{}
	for i := 0; i < n; i++ {
		c.mut = append(c.mut, m.mutation(i))
	}
	honest := true
	var order []int // the sizes of the published heads
	for s := 1; s <= n; s++ {
		order = append(order, s)
	}
	if symrt.Choose("again", 2) == 1 { // the first is published again
		order = append(order, 1)
	}
	wrong := symrt.Choose("wrong", len(order)+1) // len(order): nothing wrong
	for i, s := range order {
		h := m.head(s)
		if wrong == i {
			switch symrt.Choose("what", 3) {
			case 0:
				r := symrt.Hash("root")
				honest = symrt.Concretize(b2i(bytes.Equal(r, h.RootHash))) == 1
				h.RootHash = r
			case 1:
				r := symrt.Hash("mroot")
				honest = symrt.Concretize(b2i(bytes.Equal(r, h.MutationLog.RootHash))) == 1
				h.MutationLog.RootHash = r
			case 2: // of another size of the same map
				o := symrt.Choose("other", n) + 1
				h.RootHash = m.head(o).RootHash
				honest = symrt.Concretize(b2i(bytes.Equal(h.RootHash, m.head(s).RootHash))) == 1
			}
		}
		e, err := verifiable.CreateJSONLeafDataFromProto(h)
		bad(err, "head entry")
		c.ths = append(c.ths, e)
	}
	vm := (&verifiable.Client{Service: c}).Account("acct", "key").VerifiableMap("map")
	thl := &pb.LogTreeHashResponse{TreeSize: int64(len(order)), RootHash: ref.MTH(hashes(c.ths))}
	seen := 0
	err := vm.VerifyMap(henv.Ctx, nil, &verifiable.MapTreeState{MapTreeHead: m.head(n), TreeHeadLogTreeHead: thl}, nil, func(_ context.Context, idx int64, key []byte, v *pb.LeafData) error {
		seen++
		return nil
	})
	if err != nil {
		symrt.Assert(!honest, "the audit of an honest map fails")
		symrt.Reach("rejected")
		return
	}
	symrt.Assert(honest, "a wrong map head passes the audit")
	symrt.Reach("checked")
}

// AuditCalls: the audit functions are called for each mutation, in order, that
// changed the map, and their verdict counts.
func AuditCalls() {
	vm := theMap()
	m := newModel(keys(int(symrt.Param("keys", 2))))
	n := int(symrt.Param("ops", 2))
	prevAt := symrt.Choose("prev", n+1) // 0: none
	var prev *verifiable.MapTreeState
	var err error
	for i := 0; i < n; i++ {
		if i == prevAt && i > 0 {
			prev, err = vm.VerifiedLatestMapState(henv.Ctx, nil)
			bad(err, "map state")
		}
		m.mutate(vm)
	}
	if prevAt == n {
		prev, err = vm.VerifiedLatestMapState(henv.Ctx, nil)
		bad(err, "map state")
	}
	st, err := vm.VerifiedLatestMapState(henv.Ctx, prev)
	bad(err, "map state")
	symrt.Assert(st.TreeSize() == int64(n), "the latest state covers every mutation")
	leafs0 := n
	var want []int
	for i := 0; i < n; i++ {
		changed := false
		for k := range m.keys {
			if !bytes.Equal(m.vals[i][k], m.vals[i+1][k]) {
				changed = true
			}
		}
		if changed {
			want = append(want, i)
		}
	}
	if prevAt == n { // nothing new to audit
		want, leafs0 = nil, 0
	}
	var got []int
	leafs := 0
	stop := symrt.Choose("stop", len(want)+1) // len(want): never
	err = vm.VerifyMap(henv.Ctx, prev, st, func(_ context.Context, l *pb.LeafData) error {
		leafs++
		return nil
	}, func(_ context.Context, idx int64, key []byte, v *pb.LeafData) error {
		got = append(got, int(idx))
		hit := false
		for k := range m.keys {
			if bytes.Equal(key, m.keys[k]) {
				hit = true
				symrt.Assert(bytes.Equal(v.GetLeafInput(), m.vals[idx+1][k]), "the audit function gets the value that the key took")
			}
		}
		symrt.Assert(hit, "the audit function gets the key that changed")
		if len(got)-1 == stop {
			return errAudit
		}
		return nil
	})
	if stop < len(want) {
		symrt.Assert(err == errAudit, "the verdict of the audit function is the verdict of the audit")
		symrt.Reach("stopped")
		return
	}
	bad(err, "auditing an honest map fails")
	symrt.Assert(len(got) == len(want), "the audit function is called once for each mutation that changes the map")
	for i := range got {
		symrt.Assert(got[i] == want[i], "the audit function is called for exactly the mutations that change the map, in order")
	}
	symrt.Assert(leafs == leafs0, "every mutation's value is checked")
	symrt.Reach("checked")
}

func someLeaves(name string, n int) (rv [][]byte) {
	for i := 0; i < n; i++ {
		rv = append(rv, ref.Leaf(symrt.Bytes(name, 1)))
	}
	return rv
}

func audit(name string, max int) [][]byte {
	rv := make([][]byte, symrt.Choose(name+"len", max+1))
	for i := range rv {
		rv[i] = symrt.Hash(name)
	}
	return rv
}

// evil answers with fixed heads and arbitrary proofs.
type evil struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	head *pb.MapTreeHashResponse
	thl  *pb.LogTreeHashResponse
	path int
}

func (c *evil) MapTreeHash(_ context.Context, r *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	return c.head, nil
}

func (c *evil) LogTreeHash(_ context.Context, r *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	return c.thl, nil
}

func (c *evil) LogConsistencyProof(_ context.Context, r *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	if err := henv.Refusal("crefuse"); err != nil {
		return nil, err
	}
	return &pb.LogConsistencyProofResponse{FromSize: symrt.Int64("from"), TreeSize: symrt.Int64("to"), AuditPath: audit("c", c.path)}, nil
}

func (c *evil) LogInclusionProof(_ context.Context, r *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	if err := henv.Refusal("irefuse"); err != nil {
		return nil, err
	}
	return &pb.LogInclusionProofResponse{LeafIndex: symrt.Int64("index"), TreeSize: symrt.Int64("isize"), AuditPath: audit("i", c.path)}, nil
}

// StateReal: whatever the server answers, a verified map state has a head that
// is in the tree head log it comes with, and both logs grow from those of the
// previous state.
func StateReal() {
	max := int(symrt.Param("n", 2))
	ms := 1 + symrt.Choose("msize", max)
	mut := someLeaves("mut", ms)
	head := &pb.MapTreeHashResponse{RootHash: symrt.Hash("root"), MutationLog: &pb.LogTreeHashResponse{TreeSize: int64(ms), RootHash: ref.MTH(mut)}}
	e, err := verifiable.CreateJSONLeafDataFromObject(head)
	bad(err, "head entry")
	self := ref.Leaf(e.LeafInput)
	// the tree head log shown: any entries, this head among them or not
	n := 1 + symrt.Choose("tsize", max)
	ths := someLeaves("th", n)
	at := symrt.Choose("at", n+1)
	if at < n {
		ths[at] = self
	}
	c := &evil{head: head, thl: &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: ref.MTH(ths)}, path: int(symrt.Param("path", 2))}
	var prev *verifiable.MapTreeState
	var pmut, pths [][]byte
	if symrt.Choose("prev", 2) == 1 {
		pmut = someLeaves("pmut", 1+symrt.Choose("pmsize", max))
		pths = someLeaves("pth", 1+symrt.Choose("ptsize", max))
		if symrt.Choose("pself", 2) == 1 {
			pths[0] = self
		}
		prev = &verifiable.MapTreeState{
			MapTreeHead:         &pb.MapTreeHashResponse{RootHash: symrt.Hash("proot"), MutationLog: &pb.LogTreeHashResponse{TreeSize: int64(len(pmut)), RootHash: ref.MTH(pmut)}},
			TreeHeadLogTreeHead: &pb.LogTreeHashResponse{TreeSize: int64(len(pths)), RootHash: ref.MTH(pths)},
		}
	}
	vm := (&verifiable.Client{Service: c}).Account("acct", "key").VerifiableMap("map")
	var got *verifiable.MapTreeState
	ask := int64(symrt.Choose("ask", max+1))
	if ask == 0 && symrt.Choose("latest", 2) == 1 {
		got, err = vm.VerifiedLatestMapState(henv.Ctx, prev)
		if err == nil && prev != nil {
			symrt.Assert(got.TreeSize() >= prev.TreeSize(), "the latest map state goes back")
		}
	} else {
		got, err = vm.VerifiedMapState(henv.Ctx, prev, ask)
		if err == nil && ask != 0 {
			symrt.Assert(got.TreeSize() == ask, "a map state of another size than asked for is accepted")
		}
	}
	if err != nil {
		symrt.Reach("rejected")
		return
	}
	if prev != nil && got == prev {
		symrt.Reach("kept")
		return
	}
	symrt.Assert(got.MapTreeHead == head, "the state is the one the server showed")
	of := ths
	if prev != nil {
		k := len(pmut)
		if ms < k {
			k = ms
		}
		symrt.Assert(same(mut[:k], pmut[:k]), "a map head whose mutation log forks from the previous one is accepted")
		if got.TreeHeadLogTreeHead == prev.TreeHeadLogTreeHead {
			of = pths
		} else {
			k := len(pths)
			if n < k {
				k = n
			}
			symrt.Assert(same(ths[:k], pths[:k]), "a tree head log that forks from the previous one is accepted")
		}
	}
	in := false
	for _, l := range of {
		in = symrt.Or(in, bytes.Equal(l, self))
	}
	symrt.Assert(in, "a map head that is not in the tree head log is accepted")
	symrt.Reach("checked")
}

// StateComplete: on an honest map every state can be had, verified, at every
// size and from every earlier state; the tree head log holds the map head of
// each size in order, the mutation log the mutations.
func StateComplete() {
	vm := theMap()
	m := newModel(keys(int(symrt.Param("keys", 2))))
	n := int(symrt.Param("ops", 3))
	st, err := vm.VerifiedLatestMapState(henv.Ctx, nil)
	symrt.Assert(err == nil && st == nil, "the state of an empty map is none")
	at := 1 + symrt.Choose("prev", n) // a state from this size on
	var prev *verifiable.MapTreeState
	for i := 1; i <= n; i++ {
		m.mutate(vm)
		if i == at {
			prev, err = vm.VerifiedLatestMapState(henv.Ctx, nil)
			bad(err, "first state")
			symrt.Assert(prev.TreeSize() == int64(i), "the latest state has the latest size")
		}
	}
	for s := 1; s <= n; s++ {
		for p := 0; p < 2; p++ {
			from := prev
			if p == 0 {
				from = nil
			}
			st, err := vm.VerifiedMapState(henv.Ctx, from, int64(s))
			bad(err, "a state of an honest map does not verify")
			symrt.Assert(st.TreeSize() == int64(s), "the state has the size asked for")
			symrt.Assert(bytes.Equal(st.MapTreeHead.RootHash, ref.MapRoot(m.kvs(s))), "the state has the root of that size")
		}
	}
	st, err = vm.VerifiedLatestMapState(henv.Ctx, prev)
	bad(err, "latest state")
	symrt.Assert(st.TreeSize() == int64(n), "the latest state has the latest size")
	symrt.Assert(at < n || st == prev, "without news the state is the one held")

	// what the logs hold
	i := 0
	var ths [][]byte
	for e := range vm.TreeHeadLog().Entries(henv.Ctx, 0, int64(n)) {
		h := &pb.MapTreeHashResponse{}
		bad(verifiable.ValidateJSONLeafData(henv.Ctx, e), "tree head entry")
		bad(json.Unmarshal(e.ExtraData, h), "tree head entry")
		i++
		symrt.Assert(h.MutationLog.GetTreeSize() == int64(i), "the i-th tree head entry is for size i")
		symrt.Assert(symrt.And(bytes.Equal(h.RootHash, ref.MapRoot(m.kvs(i))), bytes.Equal(h.MutationLog.RootHash, ref.MTH(m.log[:i]))), "the tree head entry is the map head of its size")
		ths = append(ths, ref.Leaf(e.LeafInput))
	}
	symrt.Assert(i == n, "there is a tree head entry for every size")
	tl, err := vm.TreeHeadLog().TreeHead(henv.Ctx, verifiable.Head)
	bad(err, "tree head log head")
	symrt.Assert(tl.TreeSize == int64(n) && bytes.Equal(tl.RootHash, ref.MTH(ths)), "the tree head log has one entry for every size")
	i = 0
	for e := range vm.MutationLog().Entries(henv.Ctx, 0, int64(n)) {
		symrt.Assert(bytes.Equal(ref.Leaf(e.LeafInput), m.log[i]), "the mutation log holds the mutations in order")
		i++
	}
	symrt.Assert(i == n, "there is an entry for every mutation")
	symrt.Reach("checked")
}
