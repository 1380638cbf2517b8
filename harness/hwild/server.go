package hwild

import (
	"time"

	"gosymharness/henv"
	"gosymharness/ref"
	"gosymharness/symrt"

	"github.com/continusec/verifiabledatastructures/mutator/batch"
	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/storage/memory"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// account, aLog and aMap: references as a peer may send them, any of which may
// lack a part or name something that does not exist.
func account() *pb.AccountRef {
	switch symrt.Choose("account", 3) {
	case 0:
		return nil
	case 1:
		return &pb.AccountRef{Id: "other"}
	}
	return henv.Acc()
}

func aLog() *pb.LogRef {
	switch symrt.Choose("log", 3) {
	case 0:
		return nil
	case 1:
		t := symrt.Int32("type")
		symrt.Assume(symrt.And(t >= -1, t <= 3))
		return &pb.LogRef{Account: account(), LogType: pb.LogType(t)}
	}
	t := symrt.Int32("type")
	symrt.Assume(symrt.And(t >= -1, t <= 3))
	name := "log"
	if t != int32(pb.LogType_STRUCT_TYPE_LOG) {
		name = "map"
	}
	return &pb.LogRef{Account: account(), Name: name, LogType: pb.LogType(t)}
}

func aMap() *pb.MapRef {
	switch symrt.Choose("map", 3) {
	case 0:
		return nil
	case 1:
		return &pb.MapRef{Account: account()}
	}
	return &pb.MapRef{Account: account(), Name: "map"}
}

func aLeaf() *pb.LeafData {
	switch symrt.Choose("leaf", 3) {
	case 0:
		return nil
	case 1:
		return &pb.LeafData{}
	}
	return &pb.LeafData{LeafInput: symrt.Bytes("leaf", 1), ExtraData: []byte("{"), Format: pb.DataFormat(symrt.Choose("format", 2) * 7)}
}

func aMutation() *pb.MapMutation {
	actions := []string{"set", "update", "delete", "", "SET"}
	switch symrt.Choose("mutation", 3) {
	case 0:
		return nil
	case 1:
		return &pb.MapMutation{Action: actions[symrt.Choose("action", len(actions))]}
	}
	m := &pb.MapMutation{Action: actions[symrt.Choose("action", len(actions))], Key: []byte("k"), Value: aLeaf()}
	switch symrt.Choose("previous", 3) {
	case 1:
		m.PreviousLeafHash = ref.Leaf([]byte("v"))
	case 2:
		m.PreviousLeafHash = symrt.Bytes("previous", 33)
	}
	return m
}

func mtlHash() []byte {
	switch symrt.Choose("mtl", 4) {
	case 1:
		return symrt.Bytes("mtl", 1)
	case 2:
		return symrt.Hash("mtl")
	case 3:
		return ref.Leaf([]byte("a"))
	}
	return nil
}

// size is any small or negative number, or a huge one.
func size(name string) int64 {
	switch symrt.Choose(name+"large", 3) {
	case 1:
		return 1<<63 - 1
	case 2:
		return -1 << 63
	}
	n := symrt.Int64(name)
	symrt.Assume(symrt.And(n >= -2, n <= 4))
	return n
}

// Server: every request to a server over a working store ends with either a
// response or the status of a bad request, and a refused one changes nothing.
func Server() {
	st := &memory.TransientStorage{}
	set := &verifiable.Service{AccessPolicy: policy.Open, Reader: st, Mutator: &instant.Mutator{Writer: st}}
	settle := func() {}
	if symrt.Param("batch", 0) == 1 {
		set.Mutator = (&batch.Mutator{Writer: st, BatchSize: 3, BufferSize: 4, Timeout: time.Millisecond}).MustCreate()
		settle = func() { time.Sleep(100 * time.Millisecond) }
	}
	cl := &verifiable.Client{Service: set.MustCreate()}
	acc := cl.Account("acct", "key")
	l, m := acc.VerifiableLog("log"), acc.VerifiableMap("map")
	entries := symrt.Choose("entries", 2) * 2
	for i := 0; i < entries; i++ {
		_, err := l.Add(henv.Ctx, &pb.LeafData{LeafInput: []byte{byte('a' + i)}})
		bad(err, "add")
		_, err = m.Set(henv.Ctx, []byte{byte('k' + i)}, &pb.LeafData{LeafInput: []byte("v")})
		bad(err, "set")
	}
	settle()
	readonly := symrt.Choose("readonly", 2) == 1
	if readonly {
		set = &verifiable.Service{AccessPolicy: policy.Open, Reader: st}
	}
	s := set.MustCreate()
	heads := func() (int64, int64) {
		lh, err := l.TreeHead(henv.Ctx, 0)
		bad(err, "log head")
		mh, err := m.TreeHead(henv.Ctx, 0)
		bad(err, "map head")
		return lh.TreeSize, mh.MutationLog.GetTreeSize()
	}

	var err error
	var some, write, accept, refuse bool
	op := int(symrt.Param("op", -1))
	if op < 0 {
		op = symrt.Choose("op", 8)
	}
	switch op {
	case 0:
		req := &pb.LogAddEntryRequest{Log: aLog(), Value: aLeaf()}
		t := req.GetLog().GetLogType()
		write = true
		accept = !readonly && t == pb.LogType_STRUCT_TYPE_LOG && req.Value != nil
		refuse = !accept
		var rv *pb.LogAddEntryResponse
		rv, err = s.LogAddEntry(henv.Ctx, req)
		some = rv != nil
	case 1:
		req := &pb.LogFetchEntriesRequest{Log: aLog(), First: size("first"), Last: size("last")}
		refuse = symrt.Or(req.First < 0, req.Last < 0, req.Last > int64(entries))
		var rv *pb.LogFetchEntriesResponse
		rv, err = s.LogFetchEntries(henv.Ctx, req)
		some = rv != nil
	case 2:
		req := &pb.LogTreeHashRequest{Log: aLog(), TreeSize: size("size")}
		refuse = symrt.Or(req.TreeSize < 0, req.TreeSize > int64(entries))
		var rv *pb.LogTreeHashResponse
		rv, err = s.LogTreeHash(henv.Ctx, req)
		some = rv != nil
	case 3:
		req := &pb.LogInclusionProofRequest{Log: aLog(), TreeSize: size("size"), MtlHash: mtlHash(), LeafIndex: size("index")}
		refuse = symrt.Or(req.TreeSize < 0, req.TreeSize > int64(entries))
		var rv *pb.LogInclusionProofResponse
		rv, err = s.LogInclusionProof(henv.Ctx, req)
		some = rv != nil
	case 4:
		req := &pb.LogConsistencyProofRequest{Log: aLog(), FromSize: size("from"), TreeSize: size("size")}
		refuse = symrt.Or(req.TreeSize < 0, req.TreeSize > int64(entries), req.FromSize < 1)
		var rv *pb.LogConsistencyProofResponse
		rv, err = s.LogConsistencyProof(henv.Ctx, req)
		some = rv != nil
	case 5:
		req := &pb.MapSetValueRequest{Map: aMap(), Mutation: aMutation()}
		a := req.GetMutation().GetAction()
		write = true
		accept = !readonly && (a == "set" || a == "update" || a == "delete")
		refuse = !accept
		var rv *pb.MapSetValueResponse
		rv, err = s.MapSetValue(henv.Ctx, req)
		some = rv != nil
	case 6:
		req := &pb.MapGetValueRequest{Map: aMap(), TreeSize: size("size"), Key: [][]byte{nil, []byte("k"), []byte("z")}[symrt.Choose("key", 3)]}
		refuse = symrt.Or(req.TreeSize < 0, req.TreeSize > int64(entries))
		var rv *pb.MapGetValueResponse
		rv, err = s.MapGetValue(henv.Ctx, req)
		some = rv != nil
	case 7:
		req := &pb.MapTreeHashRequest{Map: aMap(), TreeSize: size("size")}
		refuse = symrt.Or(req.TreeSize < 0, req.TreeSize > int64(entries))
		var rv *pb.MapTreeHashResponse
		rv, err = s.MapTreeHash(henv.Ctx, req)
		some = rv != nil
	}
	if write {
		settle()
	}
	symrt.Assert(some == (err == nil), "neither or both of a response and an error")
	if accept {
		bad(err, "a proper write is refused")
	}
	symrt.Assert(symrt.Implies(refuse, err != nil), "a request that cannot be answered is answered")
	if err != nil {
		sc, ok := status.FromError(err)
		symrt.Assert(ok, "an error that is no status")
		switch sc.Code() {
		case codes.InvalidArgument, codes.NotFound, codes.PermissionDenied, codes.Unimplemented:
		default:
			symrt.Fail("a bad request is taken for a failure of the server: " + err.Error())
		}
		symrt.Reach("refused")
	} else {
		symrt.Reach("answered")
	}
	if !write || err != nil {
		a, b := heads()
		symrt.Assert(a == int64(entries) && b == int64(entries), "a refused request or a read changes the log or the map")
	} else {
		symrt.Reach("written")
	}
	// the service still works
	if readonly {
		return
	}
	_, err = l.Add(henv.Ctx, &pb.LeafData{LeafInput: []byte("later")})
	bad(err, "add later")
	_, err = m.Set(henv.Ctx, []byte("later"), &pb.LeafData{LeafInput: []byte("v")})
	bad(err, "set later")
	settle()
	heads()
}
