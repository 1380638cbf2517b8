package hauth

import (
	"bytes"
	"encoding/hex"
	"encoding/json"

	"gosymharness/henv"
	"gosymharness/symrt"

	"github.com/continusec/objecthash"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

// docs are objects of different shapes that hold the text x.
var docs = []func(x string) string{
	func(x string) string { return `{"a":{"b":"` + x + `","c":{"a":1}},"b":"` + x + `"}` },
	func(x string) string { return `{"b":["` + x + `",{"a":"in"},[]],"a":[],"d":{}}` },
	func(x string) string { return `{"a":1.5,"b":-3,"c":true,"d":null,"e":"` + x + `"}` },
	func(x string) string { return `{"ab":"` + x + `","A":"upper","a":"","z":"none"}` },
	func(x string) string { return `{}` },
}

func object(b []byte, msg string) map[string]interface{} {
	var m map[string]interface{}
	bad(json.Unmarshal(b, &m), msg)
	return m
}

func alike(a, b interface{}) bool {
	x, err := json.Marshal(a)
	bad(err, "marshal")
	y, err := json.Marshal(b)
	bad(err, "marshal")
	return bytes.Equal(x, y)
}

// sees compares what a reader gets for an entry with what it may.
func (s *setup) sees(full, seen *pb.LeafData, all bool) {
	symrt.Assert(bytes.Equal(full.LeafInput, seen.GetLeafInput()) && full.Format == seen.GetFormat(), "the input or format of an entry is changed")
	bad(verifiable.ValidateJSONLeafData(henv.Ctx, seen), "a redacted entry does not validate")
	f, g := object(full.ExtraData, "full data"), object(seen.ExtraData, "redacted data")
	symrt.Assert(len(f) == len(g), "the fields of an entry")
	for k, v := range f {
		w, ok := g[k]
		symrt.Assert(ok, "a field of an entry is missing")
		if all || s.keep["*"] || s.keep[k] {
			symrt.Assert(alike(v, w), "a field that may be read is not what it was")
			continue
		}
		h, err := objecthash.ObjectHashWithStdRedaction(v)
		bad(err, "hash")
		t, ok := w.(string)
		symrt.Assert(ok && t == "***REDACTED*** Hash: "+hex.EncodeToString(h), "a field that may not be read is not redacted to its hash")
	}
}

// RedactMany: of many entries of several shapes, read at once or one by one, from a
// log and as values of a map at each of its sizes, each is redacted as it must be.
func RedactMany() {
	s := restricted()
	n := int(symrt.Param("n", 3))
	var es []*pb.LeafData
	at := symrt.Choose("first", len(docs))
	red := symrt.Bool("redactable")
	for i := 0; i < n; i++ {
		b := []byte(docs[(at+i)%len(docs)]("secret" + string(rune('0'+i))))
		var e *pb.LeafData
		var err error
		if red != (i == 1) {
			e, err = verifiable.CreateRedactableJSONLeafData(b)
		} else {
			e, err = verifiable.CreateJSONLeafData(b)
		}
		bad(err, "creating an entry")
		es = append(es, e)
		_, err = s.admin.VerifiableLog("log").Add(henv.Ctx, e)
		bad(err, "add")
		_, err = s.admin.VerifiableMap("map").Set(henv.Ctx, []byte{byte(i % 2)}, e)
		bad(err, "set")
	}
	if symrt.Bool("admin") { // reads before, which changes nothing
		for g := range s.admin.VerifiableLog("log").Entries(henv.Ctx, 0, int64(n)) {
			s.sees(g, g, true)
		}
	}
	r := s.reader.VerifiableLog("log")
	first := symrt.Choose("from", n)
	i := first
	for g := range r.Entries(henv.Ctx, int64(first), int64(n)) {
		s.sees(es[i], g, false)
		i++
	}
	symrt.Assert(i == n, "a reader gets every entry of a range")
	rm := s.reader.VerifiableMap("map")
	for z := 1; z <= n; z++ {
		for k := 0; k < 2; k++ {
			v, err := rm.Get(henv.Ctx, []byte{byte(k)}, int64(z))
			bad(err, "a reader cannot get a value")
			j := z - 1 // the last one set by then
			if j%2 != k {
				j--
			}
			if j < 0 {
				symrt.Assert(len(v.GetValue().GetLeafInput()) == 0 && len(v.GetValue().GetExtraData()) == 0, "a value that is not set")
				continue
			}
			s.sees(es[j], v.Value, false)
		}
	}
	i = 0
	for g := range rm.MutationLog().Entries(henv.Ctx, 0, int64(n)) {
		bad(verifiable.ValidateJSONLeafDataFromMutation(g), "a redacted mutation does not validate")
		var m pb.MapMutation
		bad(json.Unmarshal(g.ExtraData, &m), "mutation")
		symrt.Assert(m.Action == "set" && bytes.Equal(m.Key, []byte{byte(i % 2)}), "a mutation is changed")
		s.sees(es[i], m.Value, false)
		i++
	}
	symrt.Assert(i == n, "a reader gets every mutation")
	// what is stored is still there in full
	i = 0
	for g := range s.admin.VerifiableLog("log").Entries(henv.Ctx, 0, int64(n)) {
		symrt.Assert(bytes.Equal(g.ExtraData, es[i].ExtraData), "who may see all fields sees the entry")
		i++
	}
	symrt.Assert(i == n, "all entries")
	symrt.Reach("checked")
}
