// Package hpath holds harnesses for the places of keys in the tree of a map.
package hpath

import (
	"bytes"

	"gosymharness/ref"
	"gosymharness/symrt"

	"github.com/continusec/verifiabledatastructures/merkle"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

// encode is the stored form of a path: its length (256 as 0), then its bits
// from the highest of each byte on, the rest 0.
func encode(bits []bool) []byte {
	if len(bits) == 0 {
		return nil
	}
	rv := make([]byte, 1+(len(bits)+7)/8)
	rv[0] = byte(len(bits))
	for i, b := range bits {
		rv[1+i/8] |= byte(symrt.IteInt64(b, 0x80>>uint(i%8), 0))
	}
	return rv
}

// path gives a path of n bits, of which those around the given places are arbitrary.
func path(name string, n int, around ...int) []bool {
	rv := make([]bool, n)
	free := map[int]bool{}
	w := int(symrt.Param("window", 2))
	for _, a := range around {
		for i := a - w/2; i < a-w/2+w; i++ {
			if i >= 0 && i < n {
				free[i] = true
			}
		}
	}
	for i := range rv {
		if free[i] {
			rv[i] = symrt.Bool(name)
		} else {
			rv[i] = (i*7+i/5)%3 == 1
		}
	}
	return rv
}

var lens = []int{0, 1, 2, 7, 8, 9, 15, 16, 17, 127, 128, 129, 248, 249, 255, 256}

func is(p verifiable.BPath, bits []bool) {
	symrt.Assert(p.Length() == uint(len(bits)), "the length of a path")
	ok := true
	for i, b := range bits {
		ok = symrt.And(ok, p.At(uint(i)) == b)
	}
	symrt.Assert(ok, "the bits of a path")
	symrt.Assert(bytes.Equal(p, encode(bits)), "a path has one stored form")
	s := p.Str()
	symrt.Assert(len(s) == len(bits), "the text of a path")
	for i, b := range bits {
		symrt.Assert((s[i] == '1') == b, "the text of a path")
	}
}

// Slice: a slice of a path has the bits from start to before end.
func Slice() {
	n := lens[symrt.Choose("n", len(lens))]
	start := symrt.Choose("start", 18)
	if symrt.Choose("late", 2) == 1 {
		start = n - start
		symrt.Assume(start >= 0)
	}
	l := lens[symrt.Choose("l", len(lens))]
	symrt.Assume(start+l <= n)
	bits := path("bit", n, start, start+l)
	p := verifiable.BPath(encode(bits))
	is(p.Slice(uint(start), uint(start+l)), bits[start:start+l])
	is(p, bits)
	symrt.Assert(p.Slice(uint(start), uint(start)).Length() == 0, "an empty slice")
	symrt.Reach("checked")
}

// Join: two joined paths have the bits of the one and then of the other.
func Join() {
	a, b := lens[symrt.Choose("a", len(lens))], lens[symrt.Choose("b", len(lens))]
	if symrt.Choose("full", 2) == 1 {
		b = 256 - a
	}
	symrt.Assume(a+b <= 256)
	x, y := path("bit", a, 0, a), path("bit", b, 0, b)
	j := verifiable.BPathJoin(verifiable.BPath(encode(x)), verifiable.BPath(encode(y)))
	is(j, append(append([]bool{}, x...), y...))
	is(verifiable.BPathJoin(j, verifiable.BPathEmpty), append(append([]bool{}, x...), y...))
	if a+b < 256 {
		is(verifiable.BPathJoin(j, verifiable.BPathTrue), append(append(append([]bool{}, x...), y...), true))
		is(verifiable.BPathJoin(j, verifiable.BPathFalse), append(append(append([]bool{}, x...), y...), false))
	}
	symrt.Reach("checked")
}

// Key: the place of a key is given by the bits of its SHA-256, the same for
// the server and for who verifies.
func Key() {
	at := symrt.Choose("at", 11)
	k := symrt.WindowKey("key", 0x2a5>>uint(10-at), at, int(symrt.Param("window", 2)))
	p := verifiable.BPathFromKey(k)
	want := ref.KeyPath(k)
	var bits []bool
	for i := 0; i < 256; i++ {
		bits = append(bits, want[i/8]&(0x80>>uint(i%8)) != 0)
	}
	is(p, bits)
	c := merkle.ConstructMapKeyPath(k)
	symrt.Assert(len(c) == 256, "a place has 256 bits")
	for i, b := range bits {
		symrt.Assert(c[i] == b, "server and client place a key differently")
	}
	symrt.Reach("checked")
}

// Lengths: keys of all lengths up to 130, and of some more, have their place by
// the one rule.
func Lengths() {
	n := symrt.Choose("len", 136)
	if n > 130 {
		n = []int{255, 256, 1000, 4096, 70000}[n-131]
	}
	k := make([]byte, n)
	for i := range k {
		k[i] = byte(i + n)
	}
	want, c := ref.KeyPath(k), merkle.ConstructMapKeyPath(k)
	symrt.Assert(len(c) == 256, "a place has 256 bits")
	for i := range c {
		symrt.Assert(c[i] == (want[i/8]&(0x80>>uint(i%8)) != 0), "the place of a key is not given by its SHA-256 for who verifies")
	}
	// for the server, with arbitrary bytes at the ends
	if n > 0 {
		k[n-1] = symrt.Bytes("last", 1)[0]
		k[0] = symrt.Bytes("first", 1)[0]
	}
	p := verifiable.BPathFromKey(k)
	want = ref.KeyPath(k)
	symrt.Assert(p.Length() == 256, "a place has 256 bits")
	symrt.Assert(bytes.Equal(p[1:], want[:]), "the place of a key is not given by its SHA-256")
	symrt.Reach("checked")
}
