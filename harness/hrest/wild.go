package hrest

import (
	"bytes"
	"context"
	"encoding/hex"
	"io"
	"net/http"
	"strconv"
	"time"

	"gosymharness/henv"
	"gosymharness/symrt"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/server/httprest"
	"google.golang.org/grpc/codes"
)

// other is a server that answers anything, or nothing while waits is set.
type other struct {
	waits bool
	sent  *http.Request
	code  int
	body  []byte
	head  http.Header
}

func (o *other) RoundTrip(req *http.Request) (*http.Response, error) {
	o.sent = req
	if o.waits {
		select {
		case <-req.Context().Done():
			return nil, req.Context().Err()
		case <-time.After(time.Second):
		}
	}
	return &http.Response{StatusCode: o.code, Header: o.head, Body: io.NopCloser(bytes.NewReader(o.body))}, nil
}

func over(o *other) pb.VerifiableDataStructuresServiceServer {
	return (&httprest.Client{BaseURL: "http://host", HTTPClient: &http.Client{Transport: o}}).MustDial()
}

var (
	theLog = &pb.LogRef{Account: &pb.AccountRef{Id: "5"}, Name: "log"}
	theMap = &pb.MapRef{Account: &pb.AccountRef{Id: "5"}, Name: "map"}
)

// ask sends one of the requests. It gives the answer, if there is one.
func ask(ctx context.Context, c pb.VerifiableDataStructuresServiceServer, op int) (any, error) {
	switch op {
	case 0:
		r, err := c.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: theLog, Value: &pb.LeafData{LeafInput: []byte("x")}})
		if err == nil {
			return r, nil
		}
		return nil, err
	case 1:
		r, err := c.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: theLog, First: 3, Last: 5})
		if err == nil {
			symrt.Assert(r != nil, "neither an answer nor an error")
			for _, x := range r.Values {
				symrt.Assert(x != nil, "an entry that is not there is handed out")
			}
			return r, nil
		}
		return nil, err
	case 2:
		r, err := c.LogTreeHash(ctx, &pb.LogTreeHashRequest{Log: theLog, TreeSize: 3})
		if err == nil {
			return r, nil
		}
		return nil, err
	case 3:
		r, err := c.LogInclusionProof(ctx, &pb.LogInclusionProofRequest{Log: theLog, TreeSize: 3, LeafIndex: 1})
		if err == nil {
			return r, nil
		}
		return nil, err
	case 4:
		r, err := c.LogInclusionProof(ctx, &pb.LogInclusionProofRequest{Log: theLog, TreeSize: 3, MtlHash: []byte("h")})
		if err == nil {
			return r, nil
		}
		return nil, err
	case 5:
		r, err := c.LogConsistencyProof(ctx, &pb.LogConsistencyProofRequest{Log: theLog, TreeSize: 3, FromSize: 1})
		if err == nil {
			return r, nil
		}
		return nil, err
	case 6, 7, 8:
		r, err := c.MapSetValue(ctx, &pb.MapSetValueRequest{Map: theMap, Mutation: &pb.MapMutation{Action: []string{"set", "update", "delete"}[op-6], Key: []byte("k"), Value: &pb.LeafData{LeafInput: []byte("x")}, PreviousLeafHash: []byte("y")}})
		if err == nil {
			return r, nil
		}
		return nil, err
	case 9:
		r, err := c.MapGetValue(ctx, &pb.MapGetValueRequest{Map: theMap, TreeSize: 3, Key: []byte("k")})
		if err == nil {
			symrt.Assert(r != nil && r.Value != nil, "a value that is not there is handed out")
			return r, nil
		}
		return nil, err
	}
	r, err := c.MapTreeHash(ctx, &pb.MapTreeHashRequest{Map: theMap, TreeSize: 3})
	if err == nil {
		return r, nil
	}
	return nil, err
}

func anOp() int {
	if op := int(symrt.Param("op", -1)); op >= 0 {
		return op
	}
	return symrt.Choose("op", 11)
}

var bodies = []string{
	`{}`, `null`, `[]`, `3`, ``, `{`, `{"values":null}`, `{"values":[null]}`, `{"values":[{"leaf_input":"eA=="},null]}`, `{"values":[{}]}`,
	`{"values":{}}`, `{"values":[3]}`, `{"audit_path":[null,"eA=="],"tree_size":-1}`, `{"tree_size":"3"}`, `{"mutation_log":null}`, `{"leaf_hash":null,"other":[{}]}`,
}

func ascii(name string, n int) string {
	b := symrt.Bytes(name, n)
	for _, c := range b {
		symrt.Assume(c < 0x80)
	}
	return string(b)
}

// Answers: whatever a server answers, the client gives an error or an answer
// without holes in it, and a status other than 200 is the error it stands for.
func Answers() {
	o := &other{code: []int{200, 401, 400, 404, 500, 403, 201, 204, 429}[symrt.Choose("code", 9)], head: http.Header{}}
	op := anOp()
	if o.code == 200 {
		o.body = []byte(bodies[symrt.Choose("body", len(bodies))])
	}
	if op == 9 && o.code == 200 {
		o.head["X-Verified-Treesize"] = []string{"3"}
		switch symrt.Choose("headers", 7) {
		case 0:
		case 1:
			delete(o.head, "X-Verified-Treesize")
		case 2:
			o.head["X-Verified-Treesize"] = []string{ascii("verified", 2)}
		case 3:
			o.head["X-Verified-Treesize"] = []string{"9223372036854775808"}
		case 4:
			o.head["X-Verified-Proof"] = []string{ascii("at", int(symrt.Param("at", 2))) + "/" + hex.EncodeToString(symrt.Hash("p"))}
		case 5:
			o.head["X-Verified-Proof"] = []string{"3/" + ascii("hex", 2), "7/00 , 300/00, -1/00"}
		case 6: // perhaps the same place twice
			o.head["X-Verified-Proof"] = []string{ascii("at", 1) + "/00," + ascii("again", 1) + "/01", "5/02,5/03"}
		}
	}
	r, err := ask(henv.Ctx, over(o), op)
	symrt.Assert(o.sent != nil, "no request is sent")
	if o.code != 200 {
		want := codes.Internal
		switch o.code {
		case 400:
			want = codes.InvalidArgument
		case 401:
			want = codes.PermissionDenied
		case 404:
			want = codes.NotFound
		}
		symrt.Assert(err != nil && r == nil, "an error of the server counts as an answer")
		symrt.Assert(code(err) == want, "an error of the server counts as another error")
		symrt.Reach("status")
	} else if err != nil {
		symrt.Reach("refused")
	} else {
		symrt.Reach("answered")
	}
}

// slow answers after a second.
type slow struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
}

func later[T any](v T) (T, error) {
	time.Sleep(time.Second)
	return v, nil
}

func (slow) LogAddEntry(context.Context, *pb.LogAddEntryRequest) (*pb.LogAddEntryResponse, error) {
	return later(&pb.LogAddEntryResponse{})
}

func (slow) LogFetchEntries(context.Context, *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	return later(&pb.LogFetchEntriesResponse{})
}

func (slow) LogTreeHash(context.Context, *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	return later(&pb.LogTreeHashResponse{})
}

func (slow) LogInclusionProof(context.Context, *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	return later(&pb.LogInclusionProofResponse{})
}

func (slow) LogConsistencyProof(context.Context, *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	return later(&pb.LogConsistencyProofResponse{})
}

func (slow) MapSetValue(context.Context, *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
	return later(&pb.MapSetValueResponse{})
}

func (slow) MapGetValue(context.Context, *pb.MapGetValueRequest) (*pb.MapGetValueResponse, error) {
	return later(&pb.MapGetValueResponse{Value: &pb.LeafData{}})
}

func (slow) MapTreeHash(context.Context, *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	return later(&pb.MapTreeHashResponse{})
}

// Ended: a request whose context ends, before it or meanwhile, is over, whether
// or not the server answers.
func Ended() {
	ctx, cancel := context.WithCancel(context.Background())
	o := &other{waits: true, code: 200, body: []byte("{}"), head: http.Header{"X-Verified-Treesize": {strconv.Itoa(3)}}}
	ends := symrt.Choose("ends", 3)
	c := over(o)
	if symrt.Param("grpc", 0) == 1 {
		c = overGrpc(slow{})
		defer func() { done() }()
	}
	switch ends {
	case 1:
		cancel()
	case 2:
		go func() {
			time.Sleep(200 * time.Millisecond)
			cancel()
		}()
	}
	_, err := ask(ctx, c, anOp())
	if ends > 0 {
		symrt.Assert(err != nil, "a request goes on after its context has ended")
		symrt.Reach("ended")
	} else {
		symrt.Assert(err == nil, "a slow answer is lost")
		symrt.Reach("answered")
	}
}
