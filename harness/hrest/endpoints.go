package hrest

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"gosymharness/ref"
	"gosymharness/symrt"

	"github.com/continusec/objecthash"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/server/httprest"
	"google.golang.org/protobuf/proto"
)

// get sends a request the way the documentation of the API says, and gives what comes back.
func get(s pb.VerifiableDataStructuresServiceServer, method, path, auth string, body []byte, headers http.Header) *answer {
	u, err := url.ParseRequestURI(path)
	bad(err, "path of the harness")
	if headers == nil {
		headers = http.Header{}
	}
	if auth != "" {
		headers["Authorization"] = []string{auth}
	}
	a := &answer{header: http.Header{}}
	httprest.CreateRESTHandler(s, nil, nil).ServeHTTP(a, &http.Request{Method: method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: headers, Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body)), Host: "host", RequestURI: path})
	a.WriteHeader(200)
	return a
}

// word is some bytes of which the paths allow every one.
func word(name string, n int) string {
	b := symrt.Bytes(name, n)
	for _, c := range b {
		symrt.Assume(c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c == '-' || c == '_')
	}
	return string(b)
}

// a number as it is in a path: the text and what it means, with a size only "head" gives.
func num(name string, head bool) (string, int64, bool) {
	n := 6
	if head {
		n = 7
	}
	switch symrt.Choose(name, n) {
	case 0:
		return "5", 5, true
	case 1:
		return "0", 0, true
	case 2:
		return "007", 7, true
	case 3:
		return "9223372036854775806", 1<<63 - 2, true
	case 4:
		return "9223372036854775808", 0, false
	case 5:
		d := symrt.Bytes(name+" digits", int(symrt.Param("digits", 1)))
		v := int64(0)
		for _, c := range d {
			symrt.Assume(c >= '0' && c <= '9')
			v = v*10 + int64(c-'0')
		}
		return string(d), v, true
	}
	return "head", 0, true
}

func authorization() (string, string) {
	switch symrt.Choose("auth", 5) {
	case 1:
		k := word("api key", 2)
		return "Key " + k, k
	case 2:
		return "Basic abc", ""
	case 3:
		return "Key", ""
	case 4:
		return " Key abc ", "abc"
	}
	return "", ""
}

// formats of data that is sent; 4 is one that is not JSON.
func sent() (suffix string, body []byte, want *pb.LeafData) {
	switch symrt.Choose("format", 6) {
	case 0:
		b := symrt.Bytes("body", int(symrt.Param("body", 2)))
		return "", b, &pb.LeafData{LeafInput: b}
	case 1:
		b := []byte(`{"a": [1, "x", null, true]}`)
		h, err := objecthash.CommonJSONHash(b)
		bad(err, "object hash")
		return "/xjson", b, &pb.LeafData{LeafInput: h, ExtraData: b, Format: pb.DataFormat_JSON}
	case 2:
		x := &pb.LeafData{LeafInput: symrt.Bytes("body", 2), ExtraData: symrt.Bytes("extra", 1), Format: pb.DataFormat(symrt.Choose("data", 2))}
		b, err := json.Marshal(x)
		bad(err, "JSON of an entry")
		return "/extra", b, x
	case 3:
		return "/extra", []byte(`{"leaf_input": "eA==", "unknown": 3}`), &pb.LeafData{LeafInput: []byte("x")}
	case 4:
		return []string{"/xjson", "/xjson/redactable", "/extra"}[symrt.Choose("which", 3)], []byte([]string{`{"a":`, ``, "\xff"}[symrt.Choose("broken", 3)]), nil
	}
	return "", nil, &pb.LeafData{}
}

// Endpoints: each documented endpoint asks the service for what the documentation
// says, and answers with what the service gave it.
func Endpoints() {
	s := &rec{}
	auth, apiKey := "", ""
	prefix, lt := "/v2/account/5/log/log", pb.LogType_STRUCT_TYPE_LOG
	name := "log"
	op := int(symrt.Param("op", -1))
	if op < 0 {
		op = symrt.Choose("op", 12)
	}
	what := 3 // which part varies
	if op < 10 {
		what = symrt.Choose("what", 3)
	}
	if what == 0 {
		auth, apiKey = authorization()
		name = "a" + word("name", 1)
		for _, c := range []byte(name) {
			symrt.Assume(c < 'A' || c > 'Z')
		}
		switch symrt.Choose("type", 3) {
		case 0:
			prefix = "/v2/account/5/log/" + name
		case 1:
			prefix, lt = "/v2/account/5/map/"+name+"/log/mutation", pb.LogType_STRUCT_TYPE_MUTATION_LOG
		case 2:
			prefix, lt = "/v2/account/5/map/"+name+"/log/treehead", pb.LogType_STRUCT_TYPE_TREEHEAD_LOG
		}
	}
	mapPrefix := "/v2/account/5/map/" + name
	acc := &pb.AccountRef{Id: "5", ApiKey: apiKey}
	lr, mr := &pb.LogRef{Account: acc, Name: name, LogType: lt}, &pb.MapRef{Account: acc, Name: name}
	if what == 1 {
		s.err = errs[symrt.Choose("error", len(errs))]
	}
	option := func(n string, k int) int { // what does not matter for the names
		if what == 0 {
			return 0
		}
		return symrt.Choose(n, k)
	}
	number := func(n string, head bool) (string, int64, bool) {
		if what != 2 {
			return "5", 5, true
		}
		return num(n, head)
	}
	key := func() (string, []byte, bool) {
		if what != 2 {
			return "s/k", []byte("k"), true
		}
		switch symrt.Choose("key", 4) {
		case 3:
			k := strings.Repeat("0a", 31) + word("key", 2)
			return "s/" + k, []byte(k), true
		case 0:
			k := word("key", int(symrt.Param("key", 2)))
			return "s/" + k, []byte(k), true
		case 1:
			k := symrt.Bytes("key", int(symrt.Param("key", 2)))
			return "h/" + hex.EncodeToString(k), k, true
		}
		return "h/abc", nil, false
	}
	data := func() (string, []byte, *pb.LeafData) {
		if what != 2 {
			return "", []byte("x"), &pb.LeafData{LeafInput: []byte("x")}
		}
		return sent()
	}
	var want proto.Message // what reaches the service
	var a *answer
	jsonOf := func() {
		if a.code != 200 {
			return
		}
		b, err := json.Marshal(s.resp)
		bad(err, "JSON of an answer")
		symrt.Assert(bytes.Equal(a.body.Bytes(), append(b, '\n')), "the body is not the JSON of the answer")
	}
	entry := &pb.LeafData{LeafInput: symrt.Bytes("input", 1), ExtraData: symrt.Bytes("extraData", 1), Format: pb.DataFormat_JSON}
	shown := func(f int) {
		if a.code != 200 {
			return
		}
		b, err := json.Marshal(entry)
		bad(err, "JSON of an entry")
		symrt.Assert(bytes.Equal(a.body.Bytes(), [][]byte{entry.LeafInput, entry.ExtraData, b}[f]), "the body is not the part of the entry asked for")
	}
	suffixes := []string{"", "/xjson", "/extra"}
	switch op {
	case 0:
		suffix, body, v := data()
		if v != nil {
			want = &pb.LogAddEntryRequest{Log: lr, Value: v}
		}
		s.resp = &pb.LogAddEntryResponse{LeafHash: symrt.Hash("leaf")}
		a = get(s, "POST", prefix+"/entry"+suffix, auth, body, nil)
		jsonOf()
	case 1:
		n, v, ok := number("number", false)
		if ok {
			want = &pb.LogFetchEntriesRequest{Log: lr, First: v, Last: v + 1}
		}
		f := option("suffix", 3)
		r := &pb.LogFetchEntriesResponse{}
		some := 1
		if what > 0 {
			some = symrt.Choose("some", 3)
		}
		for i := 0; i < some; i++ {
			r.Values = append(r.Values, entry)
		}
		s.resp = r
		a = get(s, "GET", prefix+"/entry/"+n+suffixes[f], auth, nil, nil)
		if some != 1 {
			if ok && s.err == nil {
				symrt.Assert(a.code == 404, "not one entry, and yet not 404")
				symrt.Reach("none")
				return
			}
		} else {
			shown(f)
		}
	case 2:
		n, v, ok := number("first", false)
		m, w, ok2 := number("last", false)
		if ok && ok2 {
			want = &pb.LogFetchEntriesRequest{Log: lr, First: v, Last: w}
		}
		s.resp = &pb.LogFetchEntriesResponse{Values: []*pb.LeafData{entry, entry}}
		a = get(s, "GET", prefix+"/entries/"+n+"-"+m+suffixes[option("suffix", 3)], auth, nil, nil)
		jsonOf()
	case 3:
		n, v, ok := number("size", true)
		if ok {
			want = &pb.LogTreeHashRequest{Log: lr, TreeSize: v}
		}
		s.resp = &pb.LogTreeHashResponse{TreeSize: 5, RootHash: symrt.Hash("root")}
		a = get(s, "GET", prefix+"/tree/"+n, auth, nil, nil)
		jsonOf()
	case 4:
		n, v, ok := number("size", false)
		m, w, ok2 := number("from", false)
		if ok && ok2 {
			want = &pb.LogConsistencyProofRequest{Log: lr, TreeSize: v, FromSize: w}
		}
		s.resp = &pb.LogConsistencyProofResponse{TreeSize: 5, FromSize: 3, AuditPath: [][]byte{symrt.Hash("p")}}
		a = get(s, "GET", prefix+"/tree/"+n+"/consistency/"+m, auth, nil, nil)
		jsonOf()
	case 5:
		n, v, ok := number("size", false)
		s.resp = &pb.LogInclusionProofResponse{TreeSize: 5, LeafIndex: 3, AuditPath: [][]byte{symrt.Hash("p")}}
		q := &pb.LogInclusionProofRequest{Log: lr, TreeSize: v}
		p := ""
		switch option("by", 4) {
		case 0:
			m, w, ok2 := number("index", false)
			p, ok, q.LeafIndex = m, ok && ok2, w
		case 1:
			e := word("entry", 2)
			if option("long", 2) == 1 {
				e = strings.Repeat("0a", 31) + e
			}
			p, q.MtlHash = "s/"+e, ref.Leaf([]byte(e))
		case 2:
			q.MtlHash = symrt.Bytes("hash", 1)
			p = "h/" + hex.EncodeToString(q.MtlHash)
		case 3:
			p, ok = "h/abc", false
		}
		if ok {
			want = q
		}
		a = get(s, "GET", prefix+"/tree/"+n+"/inclusion/"+p, auth, nil, nil)
		jsonOf()
	case 6, 7:
		k, b, ok := key()
		m := &pb.MapMutation{Key: b}
		s.resp = &pb.MapSetValueResponse{LeafHash: symrt.Hash("leaf")}
		if op == 7 {
			m.Action = "delete"
			if ok {
				want = &pb.MapSetValueRequest{Map: mr, Mutation: m}
			}
			a = get(s, "DELETE", mapPrefix+"/key/"+k, auth, nil, nil)
			jsonOf()
			break
		}
		suffix, body, v := data()
		m.Action, m.Value = "set", v
		h := http.Header{}
		switch option("previous", 3) {
		case 1:
			m.Action, m.PreviousLeafHash = "update", symrt.Hash("prev")
			h["X-Previous-Leafhash"] = []string{hex.EncodeToString(m.PreviousLeafHash)}
		case 2:
			ok = false
			h["X-Previous-Leafhash"] = []string{"abc"}
		}
		if ok && v != nil {
			want = &pb.MapSetValueRequest{Map: mr, Mutation: m}
		}
		a = get(s, "PUT", mapPrefix+"/key/"+k+suffix, auth, body, h)
		jsonOf()
	case 8:
		k, b, ok := key()
		n, v, ok2 := number("size", true)
		if ok && ok2 {
			want = &pb.MapGetValueRequest{Map: mr, Key: b, TreeSize: v}
		}
		f := option("suffix", 3)
		r := &pb.MapGetValueResponse{TreeSize: 1<<40 + 5, Value: entry, AuditPath: make([][]byte, 256)}
		at := 7
		if what > 0 {
			at = []int{0, 7, 255}[symrt.Choose("at", 3)]
		}
		r.AuditPath[at], r.AuditPath[100] = symrt.Hash("p"), symrt.Hash("q")
		s.resp = r
		a = get(s, "GET", mapPrefix+"/tree/"+n+"/key/"+k+suffixes[f], auth, nil, nil)
		shown(f)
		if a.code == 200 {
			ps := a.sent["X-Verified-Proof"]
			x, y := strconv.Itoa(at)+"/"+hex.EncodeToString(r.AuditPath[at]), "100/"+hex.EncodeToString(r.AuditPath[100])
			symrt.Assert(len(ps) == 2 && (ps[0] == x && ps[1] == y || ps[0] == y && ps[1] == x), "the headers are not the proof")
			ts := a.sent["X-Verified-Treesize"]
			symrt.Assert(len(ts) == 1 && ts[0] == "1099511627781", "the header is not the tree size")
		}
	case 9:
		n, v, ok := number("size", true)
		if ok {
			want = &pb.MapTreeHashRequest{Map: mr, TreeSize: v}
		}
		s.resp = &pb.MapTreeHashResponse{RootHash: symrt.Hash("root"), MutationLog: &pb.LogTreeHashResponse{TreeSize: 5, RootHash: symrt.Hash("log")}}
		a = get(s, "GET", mapPrefix+"/tree/"+n, auth, nil, nil)
		jsonOf()
	case 10:
		// paths and methods that are not documented
		p := []string{"/v2/account/x/log/log/tree/5", "/v2/account/5/log/Log/tree/5", "/v1/account/5/log/log/tree/5", prefix + "/tree/-1", prefix + "/tree/", prefix + "/entry/5/xjson/redactable", prefix + "/tree/head/consistency/3", mapPrefix + "/tree/5/key/s/a%2fb", mapPrefix + "/tree/5/key/h/AB"}
		a = get(s, "GET", p[symrt.Choose("path", len(p))], auth, nil, nil)
		symrt.Assert((a.code == 404 || a.code == 405) && len(s.got) == 0, "a path that is not in the API")
		symrt.Reach("no path")
		return
	case 11:
		a = get(s, []string{"PUT", "DELETE", "PATCH"}[symrt.Choose("method", 3)], prefix+"/tree/5", auth, nil, nil)
		symrt.Assert((a.code == 404 || a.code == 405) && len(s.got) == 0, "a method that is not in the API")
		symrt.Reach("no method")
		return
	}
	if want == nil {
		symrt.Assert(a.code == 400 || a.code == 404, "a request that means nothing is not refused"+strconv.Itoa(a.code))
		symrt.Assert(len(s.got) == 0, "a request that means nothing reaches the service")
		symrt.Reach("refused")
		return
	}
	symrt.Assert(len(s.got) == 1, "a documented request does not reach the service")
	symrt.Assert(proto.Equal(s.got[0], want), "another request reaches the service")
	code := 200
	if s.err != nil {
		code = []int{0, 401, 400, 404, 500, 500, 500}[indexErr(s.err)]
	}
	symrt.Assert(a.code == code, "another status comes back")
	if s.err != nil {
		symrt.Assert(a.body.Len() == 0 || !bytes.Contains(a.body.Bytes(), []byte("{")), "an answer comes with an error")
		symrt.Reach("error")
	} else {
		symrt.Reach("answered")
	}
}

func indexErr(err error) int {
	for i, e := range errs {
		if e == err {
			return i
		}
	}
	return 0
}
