package hrest

import (
	"bytes"
	"context"
	"encoding/json"
	"net/http"
	"strings"

	"gosymharness/henv"
	"gosymharness/symrt"

	"github.com/continusec/objecthash"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
)

func large(n int) []byte {
	rv := bytes.Repeat([]byte("some data "), n/10)
	rv[len(rv)-2] = '!'
	return rv
}

// Large: what is large, or many, goes through a client and a server whole, as
// entries, values, keys, names and answers.
func Large() {
	ctx := context.Background()
	cl := henv.Memory()
	c := (&verifiable.Client{Service: client(cl.Service)}).Account("5", "key")
	defer done()
	n := []int{5000, 70000, 300000}[symrt.Choose("size", 3)]
	d := &pb.LeafData{LeafInput: large(n), ExtraData: symrt.Bytes("extra", 2), Format: pb.DataFormat_JSON}
	switch symrt.Choose("what", 6) {
	case 0:
		log := c.VerifiableLog("log")
		_, err := log.Add(ctx, d)
		bad(err, "a large entry is not added")
		e, err := log.Entry(ctx, 0)
		bad(err, "a large entry is not fetched")
		symrt.Assert(proto.Equal(e, d), "a large entry comes back as another")
	case 1:
		vm := c.VerifiableMap("map")
		_, err := vm.Set(ctx, []byte("key"), d)
		bad(err, "a large value is not set")
		g, err := vm.Get(ctx, []byte("key"), verifiable.Head)
		bad(err, "a large value is not got")
		symrt.Assert(proto.Equal(g.Value, d), "a large value comes back as another")
		m, err := vm.MutationLog().Entry(ctx, 0)
		bad(err, "the entry of a large mutation is not fetched")
		bad(verifiable.ValidateJSONLeafDataFromMutation(m), "the entry of a large mutation is not valid")
	case 2: // a long key
		vm := c.VerifiableMap("map")
		k := large(n / 10)
		_, err := vm.Set(ctx, k, &pb.LeafData{LeafInput: []byte("value")})
		bad(err, "a long key is not set")
		g, err := vm.Get(ctx, k, verifiable.Head)
		bad(err, "a long key is not got")
		symrt.Assert(string(g.Value.GetLeafInput()) == "value", "a long key has another value")
		g, err = vm.Get(ctx, k[:len(k)-1], verifiable.Head)
		bad(err, "a long key is not got")
		symrt.Assert(len(g.Value.GetLeafInput()) == 0, "part of a long key has its value")
	case 3: // long names
		x := (&verifiable.Client{Service: c.Service}).Account(strings.Repeat("1", n/50), strings.Repeat("k", n/50))
		name := strings.Repeat("l", n/50)
		_, err := x.VerifiableLog(name).Add(ctx, &pb.LeafData{LeafInput: []byte("x")})
		bad(err, "an entry is not added to a log with a long name")
		for i, l := range []*verifiable.Log{x.VerifiableLog(name), x.VerifiableLog(name[1:]), c.VerifiableLog(name)} {
			h, err := l.TreeHead(ctx, verifiable.Head)
			bad(err, "a log with a long name has no head")
			symrt.Assert((h.TreeSize == 1) == (i == 0), "long names are mixed up")
		}
	case 4: // many entries
		log := c.VerifiableLog("log")
		direct := cl.Account("5", "key").VerifiableLog("log")
		k := n / 500
		for i := 0; i < k; i++ {
			_, err := direct.Add(ctx, &pb.LeafData{LeafInput: append([]byte{byte(i), byte(i >> 8)}, large(100)...)})
			bad(err, "add")
		}
		q := &pb.LogFetchEntriesRequest{Log: log.Log, First: 0, Last: int64(k)}
		a, err := log.Service.LogFetchEntries(ctx, q)
		bad(err, "many entries are not fetched")
		b, err := direct.Service.LogFetchEntries(ctx, q)
		bad(err, "fetch")
		symrt.Assert(proto.Equal(a, b) && len(a.Values) == k, "many entries come back as others")
	case 5: // proofs of a map with long common parts
		vm := c.VerifiableMap("map")
		for _, k := range []string{"key 17153368", "key 53016202"} { // the places share 49 bits
			_, err := vm.Set(ctx, []byte(k), d)
			bad(err, "set")
		}
		st, err := vm.VerifiedLatestMapState(ctx, nil)
		bad(err, "state")
		v, err := vm.VerifiedGet(ctx, []byte("key 53016202"), st)
		bad(err, "a value does not verify")
		symrt.Assert(proto.Equal(v, d), "a large value comes back as another")
	}
	symrt.Reach("whole")
}

// LargeBodies: the endpoints take large bodies whole in each form, and answer so.
func LargeBodies() {
	s := &rec{resp: &pb.LogAddEntryResponse{LeafHash: []byte("hash")}}
	n := []int{5000, 70000, 300000}[symrt.Choose("size", 3)]
	d := large(n)
	suffix, want := "", &pb.LeafData{LeafInput: d}
	switch symrt.Choose("format", 3) {
	case 1:
		d = append(append([]byte(`{"a": "`), bytes.Repeat([]byte("some data "), n/10)...), `"}`...)
		h, err := objecthash.CommonJSONHash(d)
		bad(err, "object hash")
		suffix, want = "/xjson", &pb.LeafData{LeafInput: h, ExtraData: d, Format: pb.DataFormat_JSON}
	case 2:
		want.ExtraData, suffix = symrt.Bytes("extra", 2), "/extra"
		var err error
		d, err = json.Marshal(want)
		bad(err, "JSON of an entry")
	}
	method, path := "POST", "/v2/account/5/log/log/entry"+suffix
	if symrt.Bool("map") {
		s.resp = &pb.MapSetValueResponse{LeafHash: []byte("hash")}
		method, path = "PUT", "/v2/account/5/map/map/key/s/k"+suffix
	}
	a := get(s, method, path, "", d, nil)
	symrt.Assert(a.code == http.StatusOK && len(s.got) == 1, "a large body is refused")
	switch q := s.got[0].(type) {
	case *pb.LogAddEntryRequest:
		symrt.Assert(proto.Equal(q.Value, want), "a large entry is asked for as another")
	case *pb.MapSetValueRequest:
		symrt.Assert(proto.Equal(q.Mutation.Value, want), "a large value is asked for as another")
	}
	// and out again
	s.got = nil
	s.resp = &pb.LogFetchEntriesResponse{Values: []*pb.LeafData{want}}
	a = get(s, "GET", "/v2/account/5/log/log/entry/0"+suffix, "", nil, nil)
	symrt.Assert(a.code == http.StatusOK, "a large entry is not answered")
	switch suffix {
	case "":
		symrt.Assert(bytes.Equal(a.body.Bytes(), want.LeafInput), "a large entry is answered as another")
	case "/xjson":
		symrt.Assert(bytes.Equal(a.body.Bytes(), want.ExtraData), "a large entry is answered as another")
	default:
		var x pb.LeafData
		bad(json.Unmarshal(a.body.Bytes(), &x), "a large entry is answered as what is not JSON")
		symrt.Assert(proto.Equal(&x, want), "a large entry is answered as another")
	}
	symrt.Reach("whole")
}
