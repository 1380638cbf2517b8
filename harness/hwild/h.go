// Package hwild holds harnesses for clients of servers that answer anything.
package hwild

import (
	"context"
	"encoding/json"

	"gosymharness/henv"
	"gosymharness/ref"
	"gosymharness/symrt"

	"github.com/continusec/objecthash"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

func bad(err error, msg string) {
	if err != nil {
		symrt.Fail(msg + ": " + err.Error())
	}
}

// wild is a server that answers each request with something that can be sent
// over the wire: any message may lack any part of it, numbers are arbitrary.
type wild struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	left  int // answers left before the server fails, or has nothing more to say
	empty bool
	calls int
}

// over says that the server answers no more, but for an empty message.
func (w *wild) over() (bool, error) {
	if w.left > 0 {
		w.left--
		return false, nil
	}
	w.calls++
	if w.calls > 40 {
		symrt.Fail("asks without end")
	}
	if w.empty {
		return true, nil
	}
	return true, verifiable.ErrInternalError
}

// number is any small or negative number, or one of some large ones.
func number(name string) int64 {
	large := []int64{0, 1 << 31, 1<<62 + 1, 1<<63 - 1, -1 << 63, -1 << 31}
	if symrt.Param("few", 0) == 1 {
		large = []int64{0, 1<<62 + 1, -1 << 63}
	}
	if k := symrt.Choose(name+"large", len(large)); k > 0 {
		return large[k]
	}
	n := symrt.Int64(name)
	symrt.Assume(symrt.And(n >= -2, n < 6))
	return n
}

func hash(name string) []byte {
	if symrt.Param("few", 0) == 1 || symrt.Choose(name+"kind", 2) == 1 {
		return symrt.Hash(name)
	}
	return nil
}

func logHead(name string) *pb.LogTreeHashResponse {
	return &pb.LogTreeHashResponse{TreeSize: number(name + "size"), RootHash: hash(name + "root")}
}

func path(name string, lens ...int) (rv [][]byte) {
	if symrt.Param("few", 0) == 1 {
		lens = lens[:2]
	}
	n := lens[symrt.Choose(name+"len", len(lens))]
	odd := 0
	if n > 0 && symrt.Param("few", 0) == 0 {
		odd = symrt.Choose(name+"odd", 3)
	}
	for i := 0; i < n; i++ {
		switch {
		case odd == 0 || i > 3:
			rv = append(rv, symrt.Hash(name))
		case odd == 1:
			rv = append(rv, nil)
		default:
			rv = append(rv, symrt.Bytes(name, 33))
		}
	}
	return rv
}

func (w *wild) LogTreeHash(_ context.Context, r *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	if over, err := w.over(); over {
		return &pb.LogTreeHashResponse{}, err
	}
	return logHead("l"), nil
}

func (w *wild) MapTreeHash(_ context.Context, r *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	if over, err := w.over(); over {
		return &pb.MapTreeHashResponse{}, err
	}
	return mapHead("m"), nil
}

func mapHead(name string) *pb.MapTreeHashResponse {
	rv := &pb.MapTreeHashResponse{RootHash: hash(name + "map")}
	if symrt.Choose(name+"log", 2) == 1 {
		rv.MutationLog = logHead(name + "log")
	}
	return rv
}

func (w *wild) LogInclusionProof(_ context.Context, r *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	if over, err := w.over(); over {
		return &pb.LogInclusionProofResponse{}, err
	}
	return &pb.LogInclusionProofResponse{LeafIndex: number("index"), TreeSize: number("isize"), AuditPath: path("i", 0, 1, 2)}, nil
}

func (w *wild) LogConsistencyProof(_ context.Context, r *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	if over, err := w.over(); over {
		return &pb.LogConsistencyProofResponse{}, err
	}
	return &pb.LogConsistencyProofResponse{FromSize: number("from"), TreeSize: number("csize"), AuditPath: path("c", 0, 1, 2)}, nil
}

func (w *wild) MapGetValue(_ context.Context, r *pb.MapGetValueRequest) (*pb.MapGetValueResponse, error) {
	if over, err := w.over(); over {
		return &pb.MapGetValueResponse{}, err
	}
	rv := &pb.MapGetValueResponse{TreeSize: number("gsize"), AuditPath: path("g", 0, 1, 255, 256, 257)}
	if symrt.Choose("value", 2) == 1 {
		rv.Value = &pb.LeafData{LeafInput: symrt.Bytes("value", 1)}
	}
	return rv, nil
}

func (w *wild) LogFetchEntries(_ context.Context, r *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	if over, err := w.over(); over {
		return &pb.LogFetchEntriesResponse{}, err
	}
	rv := &pb.LogFetchEntriesResponse{}
	for i := symrt.Choose("entries", 3); i > 0; i-- {
		rv.Values = append(rv.Values, &pb.LeafData{LeafInput: symrt.Bytes("entry", 1)})
	}
	return rv, nil
}

func (w *wild) LogAddEntry(_ context.Context, r *pb.LogAddEntryRequest) (*pb.LogAddEntryResponse, error) {
	if over, err := w.over(); over {
		return &pb.LogAddEntryResponse{}, err
	}
	return &pb.LogAddEntryResponse{LeafHash: hash("added")}, nil
}

func (w *wild) MapSetValue(_ context.Context, r *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
	if over, err := w.over(); over {
		return &pb.MapSetValueResponse{}, err
	}
	return &pb.MapSetValueResponse{LeafHash: hash("added")}, nil
}

// heads that a client may hold.
func aHead() *pb.LogTreeHashResponse {
	if symrt.Choose("prev", 2) == 0 {
		return nil
	}
	return &pb.LogTreeHashResponse{TreeSize: number("psize"), RootHash: hash("proot")}
}

func aState() *verifiable.MapTreeState {
	if symrt.Choose("prev", 2) == 0 {
		return nil
	}
	return &verifiable.MapTreeState{MapTreeHead: mapHead("pm"), TreeHeadLogTreeHead: logHead("pt")}
}

// Client: every operation of the client ends with a result or an error.
func Client() {
	w := &wild{left: int(symrt.Param("left", 2))}
	acc := (&verifiable.Client{Service: w}).Account("acct", "key")
	l, m := acc.VerifiableLog("log"), acc.VerifiableMap("map")
	leaf := ref.Leaf([]byte("x"))
	val := &pb.LeafData{LeafInput: []byte("x")}
	var err error
	op := int(symrt.Param("op", -1))
	if op < 0 {
		op = symrt.Choose("op", 15)
	}
	switch op {
	case 0, 8, 9, 12: // a wait goes on as long as there are answers
	default:
		w.empty = symrt.Choose("empty", 2) == 1
	}
	switch op {
	case 0:
		var p verifiable.LogUpdatePromise
		if p, err = l.Add(henv.Ctx, val); err == nil {
			_, err = p.Wait(henv.Ctx)
		}
	case 1:
		_, err = l.VerifiedTreeHead(henv.Ctx, aHead(), number("ask"))
	case 2:
		_, err = l.VerifiedLatestTreeHead(henv.Ctx, aHead())
	case 3:
		_, err = l.VerifySuppliedInclusionProof(henv.Ctx, aHead(), &pb.LogInclusionProofResponse{LeafIndex: number("index"), TreeSize: number("isize"), AuditPath: path("i", 0, 1, 2)}, leaf)
	case 4:
		prev := aHead()
		head := logHead("h")
		symrt.Assume(head.TreeSize < 4)
		if prev != nil {
			symrt.Assume(prev.TreeSize < 4)
		}
		err = l.VerifyEntries(henv.Ctx, prev, head, func(context.Context, int64, *pb.LeafData) error { return nil })
	case 5:
		err = l.VerifyInclusion(henv.Ctx, logHead("h"), leaf)
	case 6:
		err = l.VerifyConsistency(henv.Ctx, aHead(), logHead("h"))
	case 7:
		_, err = l.Entry(henv.Ctx, number("at"))
	case 8:
		_, err = l.BlockUntilPresent(henv.Ctx, leaf)
	case 9:
		var p verifiable.MapUpdatePromise
		if p, err = m.Set(henv.Ctx, []byte("k"), val); err == nil {
			_, err = p.Wait(henv.Ctx)
		}
	case 10:
		_, err = m.VerifiedMapState(henv.Ctx, aState(), number("ask"))
	case 11:
		_, err = m.VerifiedLatestMapState(henv.Ctx, aState())
	case 12:
		_, err = m.BlockUntilSize(henv.Ctx, number("ask"))
	case 13:
		_, err = m.VerifiedGet(henv.Ctx, []byte("k"), &verifiable.MapTreeState{MapTreeHead: mapHead("h")})
	case 14:
		st := aState()
		head := &verifiable.MapTreeState{MapTreeHead: mapHead("h"), TreeHeadLogTreeHead: logHead("t")}
		symrt.Assume(head.TreeHeadLogTreeHead.TreeSize < 3)
		if st != nil {
			symrt.Assume(st.TreeHeadLogTreeHead.TreeSize < 3)
		}
		err = m.VerifyMap(henv.Ctx, st, head, nil, nil)
	}
	if err != nil {
		symrt.Reach("error")
	} else {
		symrt.Reach("result")
	}
}

// content is a server whose logs are what they are, so that their entries pass
// as far as they can.
type content struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	mut, ths []*pb.LeafData
}

func (c *content) log(r *pb.LogRef) []*pb.LeafData {
	if r.LogType == pb.LogType_STRUCT_TYPE_MUTATION_LOG {
		return c.mut
	}
	return c.ths
}

func hashes(es []*pb.LeafData) (rv [][]byte) {
	for _, e := range es {
		rv = append(rv, ref.Leaf(e.GetLeafInput()))
	}
	return rv
}

func head(es []*pb.LeafData) *pb.LogTreeHashResponse {
	if len(es) == 0 {
		return &pb.LogTreeHashResponse{}
	}
	return &pb.LogTreeHashResponse{TreeSize: int64(len(es)), RootHash: ref.MTH(hashes(es))}
}

func (c *content) LogTreeHash(_ context.Context, r *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	return head(c.log(r.Log)), nil
}

func (c *content) LogFetchEntries(_ context.Context, r *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	return &pb.LogFetchEntriesResponse{Values: c.log(r.Log)[r.First:r.Last]}, nil
}

func (c *content) LogConsistencyProof(_ context.Context, r *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	return &pb.LogConsistencyProofResponse{FromSize: r.FromSize, TreeSize: r.TreeSize, AuditPath: ref.Proof(int(r.FromSize), hashes(c.log(r.Log))[:r.TreeSize])}, nil
}

const someHash = `"YWFhYWFhYWFhYWFhYWFhYWFhYWFhYWFhYWFhYWFhYWE="`

// what a mutation log may hold, as far as its entries are objects with the right hash.
var mutations = []string{
	`null`, `{}`, `[]`, `5`, `"x"`,
	`{"action":"set","key":"aw=="}`,
	`{"action":"set"}`,
	`{"action":"set","key":"aw==","value":{}}`,
	`{"action":"set","key":"aw==","value":null}`,
	`{"action":"update","key":"aw=="}`,
	`{"action":"update","key":"aw==","previous_leaf_hash":"bjQLnP+zepicpUTmu3gKLHiQHT+zNzh2hRGjBhevoB0="}`,
	`{"action":"delete","key":"aw=="}`,
	`{"action":"other","key":"aw==","value":{"leaf_input":"dg=="}}`,
	`{"action":"set","key":"aw==","value":{"leaf_input":"dg=="}}`,
}

// what a tree head log may hold.
var treeHeads = []string{
	`null`, `{}`, `[]`, `5`, `"x"`,
	`{"root_hash":` + someHash + `}`,
	`{"root_hash":` + someHash + `,"mutation_log":{}}`,
	`{"root_hash":` + someHash + `,"mutation_log":null}`,
	`{"mutation_log":{"tree_size":1}}`,
	`{"mutation_log":{"tree_size":-1,"root_hash":` + someHash + `}}`,
	`{"mutation_log":{"tree_size":2}}`,
	`{"mutation_log":{"tree_size":9223372036854775807}}`,
	`{"mutation_log":{"tree_size":-9223372036854775808}}`,
}

func object(text string, canon interface{}) *pb.LeafData {
	b := []byte(text)
	if canon != nil {
		if json.Unmarshal(b, canon) == nil {
			b, _ = json.Marshal(canon)
		}
	}
	var o interface{}
	bad(json.Unmarshal(b, &o), "object")
	h, err := objecthash.ObjectHashWithStdRedaction(o)
	bad(err, "object hash")
	return &pb.LeafData{LeafInput: h, ExtraData: []byte(text), Format: pb.DataFormat_JSON}
}

// Audit: the audit of a map whose logs hold any objects ends, and succeeds only
// if the tree head log has heads of the map alone.
func Audit() {
	c := &content{}
	for i := symrt.Choose("muts", int(symrt.Param("muts", 1))+1); i > 0; i-- {
		t := mutations[symrt.Choose("mut", len(mutations))]
		if t == `null` {
			c.mut = append(c.mut, object(t, nil))
		} else {
			c.mut = append(c.mut, object(t, &pb.MapMutation{}))
		}
	}
	switch symrt.Choose("th", 3) {
	case 0:
		c.ths = append(c.ths, &pb.LeafData{LeafInput: symrt.Bytes("input", 1), ExtraData: []byte("{}")})
	case 1:
		c.ths = append(c.ths, &pb.LeafData{})
	case 2:
		c.ths = append(c.ths, object(treeHeads[symrt.Choose("head", len(treeHeads))], nil))
	}
	m := (&verifiable.Client{Service: c}).Account("acct", "key").VerifiableMap("map")
	err := m.VerifyMap(henv.Ctx, nil, &verifiable.MapTreeState{MapTreeHead: &pb.MapTreeHashResponse{}, TreeHeadLogTreeHead: head(c.ths)},
		func(_ context.Context, v *pb.LeafData) error { return nil },
		func(_ context.Context, idx int64, key []byte, v *pb.LeafData) error { return nil })
	symrt.Assert(err != nil, "an audit succeeds without right map heads")
	symrt.Reach("checked")
}

// Data: entries of any content are validated or refused.
func Data() {
	texts := append(append([]string{"", "{", "nul"}, mutations...), treeHeads...)
	t := []byte(texts[symrt.Choose("text", len(texts))])
	e := &pb.LeafData{LeafInput: hash("input"), ExtraData: t, Format: pb.DataFormat(symrt.Int32("format"))}
	switch symrt.Choose("op", 5) {
	case 0:
		symrt.Assert(verifiable.ValidateJSONLeafData(henv.Ctx, e) != nil || len(e.LeafInput) == 32, "validated against no hash")
	case 1:
		symrt.Assert(verifiable.ValidateJSONLeafDataFromMutation(e) != nil || len(e.LeafInput) == 32, "validated against no hash")
	case 2:
		verifiable.ShedRedactedJSONFields(t)
	case 3:
		if e, err := verifiable.CreateJSONLeafData(t); err == nil {
			bad(verifiable.ValidateJSONLeafData(henv.Ctx, e), "created data does not validate")
		}
	case 4:
		if e, err := verifiable.CreateRedactableJSONLeafData(t); err == nil {
			bad(verifiable.ValidateJSONLeafData(henv.Ctx, e), "created data does not validate")
		}
	}
	symrt.Reach("checked")
}
