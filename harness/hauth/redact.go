package hauth

import (
	"bytes"
	"encoding/json"
	"strings"

	"gosymharness/henv"
	"gosymharness/ref"
	"gosymharness/symrt"

	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/storage/memory"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

func bad(err error, msg string) {
	if err != nil {
		symrt.Fail(msg + ": " + err.Error())
	}
}

var subsets = [][]string{{}, {"a"}, {"b"}, {"a", "b"}, {"other"}, {"*"}}

// doc is a JSON object with arbitrary text in its fields.
func doc(name string) ([]byte, map[string]string) {
	m := map[string]string{"a": text(name+"a", 1), "b": "secret" + text(name+"b", 1)}
	for _, v := range m {
		for i := 0; i < len(v); i++ { // no escaping needed
			c := v[i]
			symrt.Assume(symrt.And(c != '"', c != '\\', c != '<', c != '>', c != '&', c != '*'))
		}
	}
	b, err := json.Marshal(m)
	bad(err, "marshal")
	return b, m
}

type setup struct {
	admin, reader *verifiable.Account
	keep          map[string]bool
}

func restricted() *setup {
	fields := subsets[symrt.Choose("fields", len(subsets))]
	all := []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}
	pol := &policy.Static{Policy: []*pb.ResourceAccount{{Id: "acct", Policy: []*pb.AccessPolicy{
		{ApiKey: "admin", NameMatch: "*", Permissions: all, AllowedFields: []string{"*"}},
		{ApiKey: "reader", NameMatch: "*", Permissions: all, AllowedFields: fields},
	}}}}
	st := &memory.TransientStorage{}
	c := &verifiable.Client{Service: (&verifiable.Service{Mutator: &instant.Mutator{Writer: st}, AccessPolicy: pol, Reader: st}).MustCreate()}
	keep := map[string]bool{}
	for _, f := range fields {
		keep[f] = true
	}
	if keep["*"] {
		keep["a"], keep["b"] = true, true
	}
	return &setup{admin: c.Account("acct", "admin"), reader: c.Account("acct", "reader"), keep: keep}
}

// redacted checks what a reader sees of an entry.
func (s *setup) redacted(full, seen *pb.LeafData, vals map[string]string, redactable bool) {
	symrt.Assert(bytes.Equal(full.LeafInput, seen.LeafInput), "the input of an entry is changed")
	symrt.Assert(seen.Format == full.Format, "the format of an entry is changed")
	var f, g map[string]interface{}
	bad(json.Unmarshal(full.ExtraData, &f), "full data")
	bad(json.Unmarshal(seen.ExtraData, &g), "redacted data")
	symrt.Assert(len(g) == len(f), "the fields of an entry")
	for k, v := range vals {
		if s.keep[k] {
			symrt.Assert(plain(g[k], redactable) == v, "a field that may be read is not what it was")
			continue
		}
		t, ok := g[k].(string)
		symrt.Assert(ok && strings.HasPrefix(t, "***REDACTED*** Hash: "), "a field that may not be read is not redacted")
		symrt.Assert(len(t) == 21+64, "a redacted field holds a hash only")
	}
	bad(verifiable.ValidateJSONLeafData(henv.Ctx, seen), "a redacted entry does not validate")
	if redactable {
		b, err := verifiable.ShedRedactedJSONFields(seen.ExtraData)
		bad(err, "shedding redacted fields")
		var h map[string]string
		bad(json.Unmarshal(b, &h), "what remains")
		n := 0
		for k, v := range vals {
			if s.keep[k] {
				n++
				symrt.Assert(h[k] == v, "shedding keeps the fields that may be read")
			}
		}
		symrt.Assert(len(h) == n, "shedding leaves other fields")
	}
}

func plain(v interface{}, redactable bool) string {
	if redactable {
		l, ok := v.([]interface{})
		symrt.Assert(ok && len(l) == 2, "a redactable field is a nonce and a value")
		n, ok := l[0].(string)
		symrt.Assert(ok && len(n) > 0, "a redactable field has a nonce")
		v = l[1]
	}
	t, ok := v.(string)
	symrt.Assert(ok, "a field is not the text it was")
	return t
}

func entry(b []byte) (*pb.LeafData, bool) {
	redactable := symrt.Choose("redactable", 2) == 1
	var e *pb.LeafData
	var err error
	if redactable {
		e, err = verifiable.CreateRedactableJSONLeafData(b)
	} else {
		e, err = verifiable.CreateJSONLeafData(b)
	}
	bad(err, "creating an entry")
	bad(verifiable.ValidateJSONLeafData(henv.Ctx, e), "a created entry does not validate")
	return e, redactable
}

// RedactLog: readers of a log see the fields they may see and hashes of the others.
func RedactLog() {
	s := restricted()
	b, vals := doc("d")
	e, red := entry(b)
	_, err := s.admin.VerifiableLog("log").Add(henv.Ctx, e)
	bad(err, "add")
	n := 0
	for g := range s.admin.VerifiableLog("log").Entries(henv.Ctx, 0, 1) {
		symrt.Assert(symrt.And(bytes.Equal(g.LeafInput, e.LeafInput), bytes.Equal(g.ExtraData, e.ExtraData)), "who may see all fields sees the entry")
		n++
	}
	g, err := s.reader.VerifiableLog("log").Entry(henv.Ctx, 0)
	bad(err, "a reader cannot read the entry")
	symrt.Assert(n == 1, "one entry")
	s.redacted(e, g, vals, red)
	symrt.Reach("checked")
}

// RedactMap: the same for the values of a map, and for its mutations.
func RedactMap() {
	s := restricted()
	b, vals := doc("d")
	e, red := entry(b)
	key := []byte("k")
	vm, rm := s.admin.VerifiableMap("map"), s.reader.VerifiableMap("map")
	// the value gets in by any action that carries one, or is refused at the time
	var err error
	how := symrt.Choose("how", 3)
	switch how {
	case 0:
		_, err = vm.Set(henv.Ctx, key, e)
	case 1:
		_, err = vm.Update(henv.Ctx, key, e, ref.Leaf(nil))
	case 2: // another value is expected: no effect but in the mutation log
		_, err = vm.Update(henv.Ctx, key, e, ref.Leaf([]byte("y")))
	}
	bad(err, "set")
	_, err = vm.Delete(henv.Ctx, key)
	bad(err, "delete")
	v, err := rm.Get(henv.Ctx, key, 1)
	bad(err, "a reader cannot get the value")
	if how == 2 {
		symrt.Assert(len(v.GetValue().GetLeafInput()) == 0, "the value is not set")
	} else {
		s.redacted(e, v.Value, vals, red)
	}
	v, err = rm.Get(henv.Ctx, key, 2)
	bad(err, "a reader cannot get an absent value")
	symrt.Assert(len(v.GetValue().GetLeafInput()) == 0 && len(v.GetValue().GetExtraData()) == 0, "the value is gone")
	for i := int64(0); i < 2; i++ {
		m, err := rm.MutationLog().Entry(henv.Ctx, i)
		bad(err, "a reader cannot read a mutation")
		full, err := vm.MutationLog().Entry(henv.Ctx, i)
		bad(err, "mutation")
		symrt.Assert(bytes.Equal(m.LeafInput, full.LeafInput), "the input of a mutation is changed")
		bad(verifiable.ValidateJSONLeafDataFromMutation(m), "a redacted mutation does not validate")
		var mm, fm pb.MapMutation
		bad(json.Unmarshal(m.ExtraData, &mm), "mutation")
		bad(json.Unmarshal(full.ExtraData, &fm), "mutation")
		symrt.Assert(mm.Action == fm.Action && bytes.Equal(mm.Key, fm.Key) && mm.Timestamp == fm.Timestamp, "a mutation is changed")
		if i == 0 {
			s.redacted(e, mm.Value, vals, red)
		} else {
			symrt.Assert(mm.Value == nil, "a delete has no value")
		}
	}
	symrt.Reach("checked")
}

// RedactRaw: data that cannot be redacted is not shown to who may not see all of it.
func RedactRaw() {
	s := restricted()
	e := &pb.LeafData{LeafInput: []byte("secret" + text("s", 1)), ExtraData: []byte([]string{"", "x", `{"c":"secret"}`}[symrt.Choose("x", 3)]), Format: pb.DataFormat(symrt.Choose("format", 2))}
	_, err := s.admin.VerifiableLog("log").Add(henv.Ctx, e)
	bad(err, "add")
	_, err = s.admin.VerifiableMap("map").Set(henv.Ctx, []byte("k"), e)
	bad(err, "set")
	g, err := s.reader.VerifiableLog("log").Entry(henv.Ctx, 0)
	v, err2 := s.reader.VerifiableMap("map").Get(henv.Ctx, []byte("k"), 1)
	if s.keep["*"] {
		bad(err, "entry")
		bad(err2, "get")
		symrt.Assert(symrt.And(bytes.Equal(g.LeafInput, e.LeafInput), bytes.Equal(g.ExtraData, e.ExtraData)), "who may see all fields sees the entry")
		symrt.Assert(symrt.And(bytes.Equal(v.Value.LeafInput, e.LeafInput), bytes.Equal(v.Value.ExtraData, e.ExtraData)), "who may see all fields sees the value")
		symrt.Reach("open")
		return
	}
	if e.Format != pb.DataFormat_JSON {
		symrt.Assert(err != nil && g == nil && err2 != nil && v == nil, "data that cannot be redacted is shown")
	}
	if g != nil {
		symrt.Assert(!bytes.Equal(g.ExtraData, e.ExtraData), "data is shown unredacted")
	}
	symrt.Reach("checked")
}
