// Package hjson holds harnesses for JSON leaf data.
package hjson

import (
	"bytes"
	"encoding/hex"
	"encoding/json"

	"gosymharness/henv"
	"gosymharness/symrt"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
)

func bad(err error, msg string) {
	if err != nil {
		symrt.Fail(msg + ": " + err.Error())
	}
}

// text is text that needs no escaping.
func text(name string) string {
	b := symrt.Bytes(name, 1)
	c := b[0]
	symrt.Assume(symrt.And(c >= 0x20, c < 0x7f, c != '"', c != '\\', c != '<', c != '>', c != '&'))
	return string(b)
}

// shapes are ways to write down an object that holds the texts x and y, each
// with another way to write the same and one to write another.
var shapes = []func(x, y string) (one, same, other string){
	func(x, y string) (string, string, string) {
		return `{"a":"` + x + `","b":"` + y + `"}`, "{ \"b\" : \"" + y + "\",\n \"a\":\"" + x + "\" }", `{"a":"` + x + `","c":"` + y + `"}`
	},
	func(x, y string) (string, string, string) {
		return `{"o":{"a":"` + x + `","b":["` + y + `",1]}}`, `{"o":{"b":["` + y + `",1.0],"a":"` + x + `"}}`, `{"o":{"a":"` + x + `","b":[1,"` + y + `"]}}`
	},
	func(x, y string) (string, string, string) {
		return `{"a":1.5,"b":true,"c":null,"d":"` + x + y + `"}`, `{"d":"` + x + y + `","c":null,"b":true,"a":15e-1}`, `{"a":-1.5,"b":true,"c":null,"d":"` + x + y + `"}`
	},
	func(x, y string) (string, string, string) {
		return `["` + x + `",{"k":["` + y + `",false]}]`, ` ["` + x + `", {"k":[ "` + y + `", false]} ]`, `["` + x + `",{"k":["` + y + `",null]}]`
	},
	func(x, y string) (string, string, string) {
		return `"` + x + y + `"`, "\t\"" + x + y + `"`, `["` + x + y + `"]`
	},
	func(x, y string) (string, string, string) {
		return `{"a":[],"b":"` + x + `"}`, `{"b":"` + x + `","a":[]}`, `{"a":{},"b":"` + x + `"}`
	},
	func(x, y string) (string, string, string) {
		return `{"a":"x","":"` + y + `"}`, `{"":"` + y + `", "a":"x"}`, `{"a":"x"}`
	},
}

func create(t string) *pb.LeafData {
	b := []byte(t)
	e, err := verifiable.CreateJSONLeafData(b)
	bad(err, "creating an entry")
	symrt.Assert(bytes.Equal(e.ExtraData, []byte(t)), "the data of an entry is changed")
	symrt.Assert(e.Format == pb.DataFormat_JSON, "the format of an entry")
	symrt.Assert(len(e.LeafInput) == 32, "the input of an entry is no hash")
	validates(e, true)
	return e
}

func validates(e *pb.LeafData, want bool) {
	c := proto.Clone(e).(*pb.LeafData)
	err := verifiable.ValidateJSONLeafData(henv.Ctx, e)
	if want {
		bad(err, "an entry does not validate")
	} else {
		symrt.Assert(err == verifiable.ErrVerificationFailed, "an entry validates that should not")
	}
	symrt.Assert(bytes.Equal(c.LeafInput, e.LeafInput) && bytes.Equal(c.ExtraData, e.ExtraData) && c.Format == e.Format, "validation changes the entry")
}

// Hash: entries hash and validate by the object that they hold.
func Hash() {
	sh := shapes[symrt.Choose("shape", len(shapes))]
	x, y := text("x"), text("y")
	one, same, other := sh(x, y)
	e := create(one)
	f := create(same)
	symrt.Assert(bytes.Equal(e.LeafInput, f.LeafInput), "equal objects have different inputs")
	g := create(other)
	symrt.Assert(!bytes.Equal(e.LeafInput, g.LeafInput), "different objects have equal inputs")
	validates(&pb.LeafData{LeafInput: e.LeafInput, ExtraData: f.ExtraData, Format: pb.DataFormat(symrt.Int32("format"))}, true)
	validates(&pb.LeafData{LeafInput: e.LeafInput, ExtraData: g.ExtraData}, false)
	validates(&pb.LeafData{LeafInput: e.LeafInput[:31], ExtraData: e.ExtraData}, false)
	validates(&pb.LeafData{ExtraData: e.ExtraData}, false)
	validates(&pb.LeafData{LeafInput: e.LeafInput}, false)
	// changed text
	x2 := text("x2")
	third, _, _ := sh(x2, y)
	symrt.Assert(symrt.Or(third == one, !bytes.Equal(create(third).LeafInput, e.LeafInput)), "different texts have equal inputs")
	// from an object
	var o interface{}
	bad(json.Unmarshal([]byte(same), &o), "parsing")
	p, err := verifiable.CreateJSONLeafDataFromObject(o)
	bad(err, "from an object")
	symrt.Assert(bytes.Equal(p.LeafInput, e.LeafInput), "an entry of an object has another input than that of its text")
	validates(p, true)
	symrt.Reach("checked")
}

// Redactable: entries made to be redacted validate, whole and in part, and can
// be turned back.
func Redactable() {
	sh := shapes[symrt.Choose("shape", len(shapes))]
	x := text("x")
	if symrt.Choose("prefix", 2) == 1 { // text that looks redacted
		x = "***REDACTED*** Hash: " + []string{"", "zz", "61"}[symrt.Choose("hash", 3)]
	}
	one, _, _ := sh(x, text("y"))
	e, err := verifiable.CreateRedactableJSONLeafData([]byte(one))
	if err != nil {
		symrt.Assert(len(x) > 1, "refuses an object")
		symrt.Reach("refused")
		return
	}
	validates(e, true)
	plain := create(one)
	if len(x) == 1 {
		b, err := verifiable.ShedRedactedJSONFields(e.ExtraData)
		bad(err, "turning back")
		symrt.Assert(bytes.Equal(create(string(b)).LeafInput, plain.LeafInput), "what is turned back is another object")
	}
	var m map[string]json.RawMessage
	if json.Unmarshal(e.ExtraData, &m) != nil {
		symrt.Reach("checked")
		return
	}
	symrt.Assert(!bytes.Equal(e.LeafInput, plain.LeafInput), "an entry has no nonces")
	f, err := verifiable.CreateRedactableJSONLeafData([]byte(one))
	bad(err, "creating again")
	symrt.Assert(!bytes.Equal(e.LeafInput, f.LeafInput), "nonces are used again")
	for k := range m { // redact each field in turn, as a server does
		v, err := verifiable.CreateJSONLeafData(m[k])
		bad(err, "hash of a field")
		old := m[k]
		m[k] = json.RawMessage(`"***REDACTED*** Hash: ` + hex.EncodeToString(v.LeafInput) + `"`)
		b, err := json.Marshal(m)
		bad(err, "redacting")
		validates(&pb.LeafData{LeafInput: e.LeafInput, ExtraData: b}, true)
		s, err := verifiable.ShedRedactedJSONFields(b)
		bad(err, "shedding")
		var left map[string]json.RawMessage
		bad(json.Unmarshal(s, &left), "what is left")
		_, there := left[k]
		symrt.Assert(!there && len(left) == len(m)-1, "shedding takes away just the redacted field")
		m[k] = json.RawMessage(`"***REDACTED*** Hash: ` + hex.EncodeToString(symrt.Hash("h")) + `"`)
		symrt.Assume(!bytes.Equal(hashOf(m[k]), v.LeafInput))
		b, err = json.Marshal(m)
		bad(err, "redacting")
		validates(&pb.LeafData{LeafInput: e.LeafInput, ExtraData: b}, false)
		m[k] = old
	}
	symrt.Reach("checked")
}

func hashOf(m json.RawMessage) []byte {
	b, err := hex.DecodeString(string(m[len(m)-65 : len(m)-1]))
	bad(err, "hash")
	return b
}

func mutation() *pb.MapMutation {
	m := &pb.MapMutation{Timestamp: text("timestamp"), Action: []string{"set", "delete", "update"}[symrt.Choose("action", 3)], Key: symrt.Bytes("key", 1)}
	if symrt.Choose("previous", 2) == 1 {
		m.PreviousLeafHash = symrt.Hash("previous")
	}
	if symrt.Choose("value", 2) == 1 {
		m.Value = &pb.LeafData{LeafInput: symrt.Bytes("input", 1), ExtraData: symrt.Bytes("extra", 1), Format: pb.DataFormat(symrt.Choose("format", 2))}
	}
	return m
}

func sameMutation(a, b *pb.MapMutation) bool {
	return symrt.And(a.Timestamp == b.Timestamp, a.Action == b.Action, bytes.Equal(a.Key, b.Key), bytes.Equal(a.PreviousLeafHash, b.PreviousLeafHash), (a.Value == nil) == (b.Value == nil),
		bytes.Equal(a.GetValue().GetLeafInput(), b.GetValue().GetLeafInput()), bytes.Equal(a.GetValue().GetExtraData(), b.GetValue().GetExtraData()), a.GetValue().GetFormat() == b.GetValue().GetFormat())
}

// Mutation: entries of mutations hash all but the extra data of their values,
// and hold all of it.
func Mutation() {
	m := mutation()
	c := proto.Clone(m).(*pb.MapMutation)
	e, err := verifiable.CreateJSONLeafDataFromMutation(m)
	bad(err, "entry of a mutation")
	symrt.Assert(sameMutation(m, c), "the mutation is changed")
	symrt.Assert(e.Format == pb.DataFormat_JSON && len(e.LeafInput) == 32, "format")
	var back pb.MapMutation
	bad(json.Unmarshal(e.ExtraData, &back), "the data of the entry")
	symrt.Assert(sameMutation(m, &back), "the data of the entry is another mutation")
	bad(verifiable.ValidateJSONLeafDataFromMutation(e), "the entry does not validate")
	// another one
	switch symrt.Choose("change", 7) {
	case 0:
		c.Timestamp = text("t2")
		symrt.Assume(c.Timestamp != m.Timestamp)
	case 1:
		c.Action += "x"
	case 2:
		c.Key = symrt.Bytes("k2", 1)
		symrt.Assume(!bytes.Equal(c.Key, m.Key))
	case 3:
		c.PreviousLeafHash = symrt.Hash("p2")
		symrt.Assume(!bytes.Equal(c.PreviousLeafHash, m.PreviousLeafHash))
	case 4:
		if c.Value == nil {
			c.Value = &pb.LeafData{}
		} else {
			c.Value = nil
		}
	case 5:
		if c.Value == nil {
			symrt.End()
		}
		c.Value.LeafInput = symrt.Bytes("i2", 1)
		symrt.Assume(!bytes.Equal(c.Value.LeafInput, m.Value.LeafInput))
	case 6: // not part of the hash
		if c.Value == nil {
			symrt.End()
		}
		c.Value.ExtraData, c.Value.Format = symrt.Bytes("e2", 1), 1-c.Value.Format
		f, err := verifiable.CreateJSONLeafDataFromMutation(c)
		bad(err, "entry of a mutation")
		symrt.Assert(bytes.Equal(e.LeafInput, f.LeafInput), "extra data is part of the hash")
		bad(verifiable.ValidateJSONLeafDataFromMutation(&pb.LeafData{LeafInput: e.LeafInput, ExtraData: f.ExtraData}), "extra data matters")
		symrt.Reach("same")
		return
	}
	f, err := verifiable.CreateJSONLeafDataFromMutation(c)
	bad(err, "entry of a mutation")
	symrt.Assert(!bytes.Equal(e.LeafInput, f.LeafInput), "different mutations have equal inputs")
	symrt.Assert(verifiable.ValidateJSONLeafDataFromMutation(&pb.LeafData{LeafInput: e.LeafInput, ExtraData: f.ExtraData}) == verifiable.ErrVerificationFailed, "validates another mutation")
	symrt.Reach("other")
}

// Proto: entries of messages validate and hold the message.
func Proto() {
	m := &pb.MapTreeHashResponse{RootHash: symrt.Hash("root"), MutationLog: &pb.LogTreeHashResponse{TreeSize: []int64{0, 1, 1 << 40}[symrt.Choose("size", 3)], RootHash: symrt.Bytes("log", 1)}}
	e, err := verifiable.CreateJSONLeafDataFromProto(m)
	bad(err, "entry of a message")
	validates(e, true)
	var back pb.MapTreeHashResponse
	bad(json.Unmarshal(e.ExtraData, &back), "the data of the entry")
	symrt.Assert(symrt.And(bytes.Equal(back.RootHash, m.RootHash), back.GetMutationLog().GetTreeSize() == m.MutationLog.TreeSize, bytes.Equal(back.GetMutationLog().GetRootHash(), m.MutationLog.RootHash)), "the data of the entry is another message")
	m.RootHash = symrt.Hash("other")
	symrt.Assume(!bytes.Equal(m.RootHash, back.RootHash))
	f, err := verifiable.CreateJSONLeafDataFromProto(m)
	bad(err, "entry of a message")
	symrt.Assert(!bytes.Equal(e.LeafInput, f.LeafInput), "different messages have equal inputs")
	symrt.Reach("checked")
}
