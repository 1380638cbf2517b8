// Package hrest holds harnesses for the REST front end and its client.
package hrest

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"
	"strings"

	"gosymharness/henv"
	_ "gosymharness/models/httpm"
	"gosymharness/symrt"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/server/httprest"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

func bad(err error, msg string) {
	if err != nil {
		symrt.Fail(msg + ": " + err.Error())
	}
}

// wire carries requests from the client to the handler, as HTTP does.
type wire struct{ h http.Handler }

// Carry gives the way from a client to the handler.
func Carry(h http.Handler) http.RoundTripper { return &wire{h} }

type answer struct {
	code   int
	header http.Header
	sent   http.Header
	body   bytes.Buffer
}

func (a *answer) Header() http.Header { return a.header }

func (a *answer) WriteHeader(code int) {
	if a.code == 0 {
		a.code = code
		a.sent = a.header.Clone()
	}
}

func (a *answer) Write(b []byte) (int, error) {
	a.WriteHeader(200)
	return a.body.Write(b)
}

func carried(h http.Header) http.Header {
	rv := http.Header{}
	for k, vs := range h {
		for _, v := range vs {
			rv[k] = append(rv[k], strings.TrimSpace(v))
		}
	}
	return rv
}

func (w *wire) RoundTrip(req *http.Request) (*http.Response, error) {
	var body []byte
	if req.Body != nil {
		var err error
		if body, err = io.ReadAll(req.Body); err != nil {
			return nil, err
		}
	}
	u, err := url.ParseRequestURI(req.URL.RequestURI())
	if err != nil {
		return nil, err
	}
	r := &http.Request{Method: req.Method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: carried(req.Header), Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body)), Host: req.URL.Host, RequestURI: req.URL.RequestURI()}
	a := &answer{header: http.Header{}}
	w.h.ServeHTTP(a, r)
	a.WriteHeader(200)
	return &http.Response{StatusCode: a.code, Header: carried(a.sent), Body: io.NopCloser(bytes.NewReader(a.body.Bytes()))}, nil
}

// rec is a service that keeps the request and gives an answer set beforehand.
type rec struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	got  []proto.Message
	resp proto.Message
	err  error
}

func give[T proto.Message](r *rec, m proto.Message) (T, error) {
	r.got = append(r.got, proto.Clone(m))
	var none T
	if r.err != nil {
		return none, r.err
	}
	v, ok := r.resp.(T)
	symrt.Assert(ok, "the request reaches the service as one for another operation")
	return v, nil
}

func (r *rec) LogAddEntry(_ context.Context, q *pb.LogAddEntryRequest) (*pb.LogAddEntryResponse, error) {
	return give[*pb.LogAddEntryResponse](r, q)
}

func (r *rec) LogFetchEntries(_ context.Context, q *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	return give[*pb.LogFetchEntriesResponse](r, q)
}

func (r *rec) LogTreeHash(_ context.Context, q *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	return give[*pb.LogTreeHashResponse](r, q)
}

func (r *rec) LogInclusionProof(_ context.Context, q *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	return give[*pb.LogInclusionProofResponse](r, q)
}

func (r *rec) LogConsistencyProof(_ context.Context, q *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	return give[*pb.LogConsistencyProofResponse](r, q)
}

func (r *rec) MapSetValue(_ context.Context, q *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
	return give[*pb.MapSetValueResponse](r, q)
}

func (r *rec) MapGetValue(_ context.Context, q *pb.MapGetValueRequest) (*pb.MapGetValueResponse, error) {
	return give[*pb.MapGetValueResponse](r, q)
}

func (r *rec) MapTreeHash(_ context.Context, q *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	return give[*pb.MapTreeHashResponse](r, q)
}

func client(s pb.VerifiableDataStructuresServiceServer) pb.VerifiableDataStructuresServiceServer {
	if symrt.Param("grpc", 0) == 1 {
		return overGrpc(s)
	}
	return (&httprest.Client{BaseURL: "http://host", HTTPClient: &http.Client{Transport: &wire{httprest.CreateRESTHandler(s, nil, nil)}}}).MustDial()
}

// Remote is s behind the REST endpoints (or gRPC with the parameter grpc).
func Remote(s pb.VerifiableDataStructuresServiceServer) pb.VerifiableDataStructuresServiceServer {
	return client(s)
}

var below bool // a number below zero was asked with, which no path has

var part int // what varies: 0 references, 1 what is asked, 2 what is answered

func choose(name string, n int, in int) int {
	if part != in {
		return 0
	}
	return symrt.Choose(name, n)
}

func pick[T any](in int, name string, of ...T) T { return of[choose(name, len(of), in)] }

func pickRef(name string, of ...string) string { return pick(0, name, of...) }

// addressable says whether the documented paths have such names.
func addressable(a *pb.AccountRef, name string) bool {
	return okChars(a.Id, false) && okChars(name, true)
}

func okChars(s string, letters bool) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= '0' && c <= '9' || letters && (c >= 'a' && c <= 'z' || c == '-' || c == '_') {
			continue
		}
		return false
	}
	return len(s) > 0
}

func size(in int, name string) int64 {
	if part == 1 && in == 1 && symrt.Choose(name+"<0", 2) == 1 {
		below = true
		return pick[int64](in, name, -1, -1<<63)
	}
	return pick[int64](in, name, 37, 0, 1, 1<<40, 1<<63-1)
}

var aHash = []byte("\x00\x01\x0a\xff of some entry in the logs!!")

func account() *pb.AccountRef {
	if part == 0 && symrt.Param("any", 0) > 0 {
		k := symrt.Bytes("key", 2)
		for _, c := range k {
			symrt.Assume(c > ' ' && c < 0x7f)
		}
		return &pb.AccountRef{Id: "5", ApiKey: string(k)}
	}
	return &pb.AccountRef{Id: pickRef("account", "5", "0", "x/y"), ApiKey: pickRef("key", "sEcret_1", "")}
}

// names of objects, some of which the paths of requests cannot have.
func name() string {
	if n := int(symrt.Param("any", 0)); n > 0 && part == 0 {
		b := symrt.Bytes("name", n)
		for _, c := range b {
			symrt.Assume(symrt.Param("grpc", 0) == 0 || c < 0x80) // others do not go over as text
		}
		return "a" + string(b)
	}
	return pickRef("name", "log", "a-b_9", "x/../log", "log/tree/3?", "lo%67", "log#f", "Log", "", "..", "map/log/mutation")
}

func aLog() *pb.LogRef {
	return &pb.LogRef{Account: account(), Name: name(), LogType: pick(0, "type", pb.LogType_STRUCT_TYPE_LOG, pb.LogType_STRUCT_TYPE_MUTATION_LOG, pb.LogType_STRUCT_TYPE_TREEHEAD_LOG, pb.LogType(3))}
}

func aMap() *pb.MapRef { return &pb.MapRef{Account: account(), Name: name()} }

func leaf(in int) *pb.LeafData {
	return &pb.LeafData{LeafInput: symrt.Bytes("input", 1), ExtraData: symrt.Bytes("extra", int(symrt.Param("extra", 1))), Format: pb.DataFormat(choose("format", 2, in))}
}

func key() []byte {
	return pick(1, "mkey", symrt.Bytes("mapKey", int(symrt.Param("key", 2))), nil, aHash)
}

func logHead() *pb.LogTreeHashResponse {
	if choose("empty", 2, 2) == 1 {
		return &pb.LogTreeHashResponse{}
	}
	return &pb.LogTreeHashResponse{TreeSize: size(2, "tree"), RootHash: symrt.Hash("root")}
}

func path() [][]byte {
	switch choose("path", 3, 2) {
	case 1:
		return [][]byte{symrt.Hash("p")}
	case 2:
		return [][]byte{symrt.Hash("p"), symrt.Hash("q")}
	}
	return nil
}

var errs = []error{nil, status.Error(codes.PermissionDenied, "no"), status.Error(codes.InvalidArgument, "bad"), status.Error(codes.NotFound, "none"), status.Error(codes.Internal, "broken"), status.Error(codes.Unimplemented, "not here"), errors.New("lost")}

func code(err error) codes.Code {
	switch c := status.Code(err); c {
	case codes.OK, codes.PermissionDenied, codes.InvalidArgument, codes.NotFound:
		return c
	}
	return codes.Internal
}

// Client: a request over REST reaches the service as it is and its answer comes
// back as it is, or the request is refused and does not reach the service at all.
func Client() {
	s := &rec{}
	c := client(s)
	defer done()
	op := int(symrt.Param("op", -1))
	if op < 0 {
		op = symrt.Choose("op", 8)
	}
	part = int(symrt.Param("part", -1))
	if part < 0 {
		part = symrt.Choose("part", 3)
	}
	s.err = pick(2, "answer", errs...)
	var q, r proto.Message
	var err error
	must := true // the paths of REST can say it
	switch op {
	case 0:
		x := &pb.LogAddEntryRequest{Log: aLog(), Value: leaf(1)}
		q, s.resp = x, &pb.LogAddEntryResponse{LeafHash: symrt.Hash("leaf")}
		r, err = c.LogAddEntry(henv.Ctx, x)
	case 1:
		x := &pb.LogFetchEntriesRequest{Log: aLog(), First: size(1, "first"), Last: size(1, "last")}
		a := &pb.LogFetchEntriesResponse{}
		for i := choose("entries", 3, 2); i > 0; i-- {
			a.Values = append(a.Values, leaf(2))
		}
		q, s.resp = x, a
		r, err = c.LogFetchEntries(henv.Ctx, x)
	case 2:
		x := &pb.LogTreeHashRequest{Log: aLog(), TreeSize: size(1, "size")}
		q, s.resp = x, logHead()
		r, err = c.LogTreeHash(henv.Ctx, x)
	case 3:
		x := &pb.LogInclusionProofRequest{Log: aLog(), TreeSize: size(1, "size")}
		if choose("by", 2, 1) == 1 {
			x.MtlHash = pick(1, "mtl", symrt.Bytes("mtlHash", int(symrt.Param("key", 2))), aHash)
		} else {
			x.LeafIndex = size(1, "index")
		}
		q, s.resp = x, &pb.LogInclusionProofResponse{TreeSize: size(2, "tree"), LeafIndex: size(2, "leaf"), AuditPath: path()}
		r, err = c.LogInclusionProof(henv.Ctx, x)
	case 4:
		x := &pb.LogConsistencyProofRequest{Log: aLog(), FromSize: size(1, "from"), TreeSize: size(1, "size")}
		q, s.resp = x, &pb.LogConsistencyProofResponse{TreeSize: size(2, "tree"), FromSize: size(2, "older"), AuditPath: path()}
		r, err = c.LogConsistencyProof(henv.Ctx, x)
	case 5:
		x := &pb.MapSetValueRequest{Map: aMap(), Mutation: &pb.MapMutation{Action: pick(1, "action", "set", "update", "delete", "other", ""), Key: key()}}
		switch x.Mutation.Action {
		case "update":
			x.Mutation.PreviousLeafHash = pick(1, "prev", symrt.Hash("prevHash"), nil, symrt.Bytes("prev1", 1))
			x.Mutation.Value = leaf(1)
		case "set":
			x.Mutation.Value = leaf(1)
		case "delete":
		default:
			must = false
		}
		must = must && len(x.Mutation.Key) > 0
		q, s.resp = x, &pb.MapSetValueResponse{LeafHash: symrt.Hash("leaf")}
		r, err = c.MapSetValue(henv.Ctx, x)
	case 6:
		x := &pb.MapGetValueRequest{Map: aMap(), TreeSize: size(1, "size"), Key: key()}
		must = len(x.Key) > 0
		a := &pb.MapGetValueResponse{TreeSize: size(2, "tree"), Value: leaf(2), AuditPath: make([][]byte, 256)}
		for i := choose("proof", 3, 2); i > 0; i-- {
			a.AuditPath[pick(2, "at", 0, 9, 255)] = symrt.Hash("proof")
		}
		q, s.resp = x, a
		r, err = c.MapGetValue(henv.Ctx, x)
	case 7:
		x := &pb.MapTreeHashRequest{Map: aMap(), TreeSize: size(1, "size")}
		a := &pb.MapTreeHashResponse{RootHash: symrt.Hash("map")}
		if choose("mutlog", 2, 2) == 1 {
			a.MutationLog = logHead()
		}
		q, s.resp = x, a
		r, err = c.MapTreeHash(henv.Ctx, x)
	}
	must = must && !below
	if x, ok := q.(interface{ GetLog() *pb.LogRef }); ok {
		l := x.GetLog()
		must = must && addressable(l.Account, l.Name) && l.LogType < 3 && (op > 0 || l.LogType == 0)
	}
	if x, ok := q.(interface{ GetMap() *pb.MapRef }); ok {
		l := x.GetMap()
		must = must && addressable(l.Account, l.Name)
	}
	must = must || symrt.Param("grpc", 0) == 1
	if len(s.got) == 0 {
		symrt.Assert(err != nil, "an answer to a request that never reached the service")
		symrt.Assert(!must, "a proper request does not reach the service")
		symrt.Reach("refused")
		return
	}
	symrt.Assert(len(s.got) == 1, "a request reaches the service more than once")
	symrt.Assert(proto.Equal(s.got[0], q), "another request reaches the service")
	symrt.Assert(code(err) == code(s.err), "another error comes back")
	if err == nil {
		symrt.Assert(proto.Equal(r, s.resp), "another answer comes back")
		symrt.Reach("answered")
	} else {
		symrt.Reach("failed")
	}
}
