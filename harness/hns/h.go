// Package hns holds harnesses for the separation of logs and maps.
package hns

import (
	"bytes"

	"gosymharness/henv"
	"gosymharness/ref"
	"gosymharness/symrt"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

func bad(err error, msg string) {
	if err != nil {
		symrt.Fail(msg + ": " + err.Error())
	}
}

func text(name string) string {
	return string(symrt.Bytes(name, symrt.Choose(name+"len", int(symrt.Param("len", 2))+1)))
}

// Separate: what is added to one log or map is seen in it and nowhere else.
func Separate() {
	c := henv.Memory()
	a1, n1, a2, n2 := text("acc"), text("name"), text("acc2"), text("name2")
	k1, k2 := symrt.Choose("map", 2), symrt.Choose("map2", 2)
	x := symrt.Bytes("x", 1)
	key := []byte("k")
	if k1 == 0 {
		_, err := c.Account(a1, "k").VerifiableLog(n1).Add(henv.Ctx, &pb.LeafData{LeafInput: x})
		bad(err, "add")
	} else {
		_, err := c.Account(a1, "k").VerifiableMap(n1).Set(henv.Ctx, key, &pb.LeafData{LeafInput: x})
		bad(err, "set")
	}
	same := k1 == k2 && a1 == a2 && n1 == n2
	acc := c.Account(a2, "other")
	var logs []*verifiable.Log
	if k2 == 0 {
		logs = append(logs, acc.VerifiableLog(n2))
	} else {
		vm := acc.VerifiableMap(n2)
		logs = append(logs, vm.MutationLog(), vm.TreeHeadLog())
		h, err := vm.TreeHead(henv.Ctx, verifiable.Head)
		bad(err, "map head")
		g, err := vm.Get(henv.Ctx, key, verifiable.Head)
		bad(err, "get")
		if same {
			symrt.Assert(h.MutationLog.TreeSize == 1 && bytes.Equal(g.GetValue().GetLeafInput(), x), "the map does not hold what was set")
		} else {
			symrt.Assert(h.MutationLog.TreeSize == 0 && len(g.GetValue().GetLeafInput()) == 0, "a map holds what was set or added elsewhere")
			_, err = vm.TreeHead(henv.Ctx, 1)
			symrt.Assert(err != nil, "a map has the size of another")
		}
	}
	for _, l := range logs {
		h, err := l.TreeHead(henv.Ctx, verifiable.Head)
		bad(err, "head")
		e, err := l.Entry(henv.Ctx, 0)
		_, err2 := l.InclusionProof(henv.Ctx, 1, ref.Leaf(x))
		if same {
			symrt.Assert(h.TreeSize == 1 && err == nil, "the log does not hold what was added")
			if k2 == 0 {
				symrt.Assert(bytes.Equal(e.LeafInput, x) && err2 == nil, "the log does not hold what was added")
			}
		} else {
			symrt.Assert(h.TreeSize == 0 && err != nil && err2 != nil, "a log holds what was set or added elsewhere")
		}
	}
	if same {
		symrt.Reach("same")
	} else {
		symrt.Reach("other")
	}
}

// Interleaved: two logs or maps filled in turn are as if each were filled alone.
func Interleaved() {
	c := henv.Memory()
	acc := c.Account("acct", "k")
	n := int(symrt.Param("ops", 4))
	maps := symrt.Choose("maps", 3)
	var ls [2][][]byte
	var kv [2][][]byte // values of the one key of each map, per size
	key := []byte("k")
	kv[0], kv[1] = [][]byte{nil}, [][]byte{nil}
	names := []string{"x", "y"}
	isMap := func(w int) bool { return w < maps }
	for i := 0; i < n; i++ {
		w := symrt.Choose("which", 2)
		v := symrt.Bytes("v", 1)
		if isMap(w) {
			_, err := acc.VerifiableMap(names[w]).Set(henv.Ctx, key, &pb.LeafData{LeafInput: v})
			bad(err, "set")
			kv[w] = append(kv[w], v)
			continue
		}
		_, err := acc.VerifiableLog(names[w]).Add(henv.Ctx, &pb.LeafData{LeafInput: v})
		bad(err, "add")
		l := ref.Leaf(v)
		dup := false
		for _, o := range ls[w] {
			if bytes.Equal(o, l) {
				dup = true
				break
			}
		}
		if !dup {
			ls[w] = append(ls[w], l)
		}
	}
	for w := 0; w < 2; w++ {
		if isMap(w) {
			vm := acc.VerifiableMap(names[w])
			for s := 1; s < len(kv[w]); s++ {
				h, err := vm.TreeHead(henv.Ctx, int64(s))
				bad(err, "map head")
				root := ref.MapRoot([]*ref.KV{{Path: ref.KeyPath(key), Leaf: ref.Leaf(kv[w][s])}})
				symrt.Assert(bytes.Equal(h.RootHash, root), "a map head depends on other objects")
			}
			h, err := vm.TreeHead(henv.Ctx, verifiable.Head)
			bad(err, "map head")
			symrt.Assert(h.MutationLog.TreeSize == int64(len(kv[w])-1), "the size of a map depends on other objects")
			continue
		}
		h, err := acc.VerifiableLog(names[w]).TreeHead(henv.Ctx, verifiable.Head)
		bad(err, "head")
		symrt.Assert(h.TreeSize == int64(len(ls[w])), "the size of a log depends on other objects")
		if len(ls[w]) > 0 {
			symrt.Assert(bytes.Equal(h.RootHash, ref.MTH(ls[w])), "a log head depends on other objects")
		}
	}
	symrt.Reach("checked")
}
