package hmap

import (
	"bytes"
	"context"
	"fmt"

	"gosymharness/henv"
	"gosymharness/ref"
	"gosymharness/symrt"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

// deep are numbers of keys whose places share much: two the first 49 bits, three
// 38, five 31, and with those three one each 1, 6 to 10, 14 to 18 and 20 to 23.
var deep = []int{
	17153368, 53016202,
	2844986, 40518455, 25913182,
	51662976, 51278090, 66554450, 13380262, 15660817,
	15403344, 23125226, 11851464, 10714747, 36178212, 13039438,
	20698857, 54312283, 63230746, 27357054, 10154091,
	21304315, 3342440, 8222485, 44973397,
}

// grown is a map of some size with a fixed history: sets, deletions, updates
// that take effect and that do not.
func grown(n, nk int, at ...int) (*verifiable.Map, *model) {
	vm := theMap()
	var ks [][]byte
	if symrt.Param("deep", 0) == 1 {
		for _, i := range deep {
			ks = append(ks, []byte(fmt.Sprintf("key %d", i)))
		}
		nk = len(ks)
	}
	for i := len(ks); i < nk; i++ {
		key := []byte(fmt.Sprintf("key %d", i))
		switch i { // ones of other forms
		case 2:
			key = []byte{}
		case 4:
			key = bytes.Repeat([]byte("long "), 50)
		case 6:
			key = []byte{0, 0xff, 0}
		case 8: // of the length of a hash
			key = bytes.Repeat([]byte{8}, 32)
		}
		ks = append(ks, key)
	}
	m := newModel(ks)
	for i := 0; i < n; i++ {
		k := i * 7 % (nk - 1) // the last key stays absent
		v := []byte(fmt.Sprintf("value %d", i))
		if i%11 == 10 { // one that another key may have too
			v = []byte("value 0")
		}
		if i%13 == 6 { // a large one
			v = bytes.Repeat(v, 100)
		}
		cur := m.cur(k)
		next := v
		var p verifiable.MapUpdatePromise
		var err error
		switch i % 5 {
		case 2:
			p, err = vm.Delete(henv.Ctx, ks[k])
			next = nil
		case 3:
			p, err = vm.Update(henv.Ctx, ks[k], &pb.LeafData{LeafInput: v}, ref.Leaf(cur))
		case 4:
			p, err = vm.Update(henv.Ctx, ks[k], &pb.LeafData{LeafInput: v}, ref.Leaf([]byte("none")))
			next = cur
		default:
			p, err = vm.Set(henv.Ctx, ks[k], &pb.LeafData{LeafInput: v})
		}
		bad(err, "a mutation fails")
		m.note(k, next, p)
		if len(at) > 0 && i+1 == at[0] {
			m.state, err = vm.VerifiedLatestMapState(henv.Ctx, nil)
			bad(err, "an earlier state does not verify")
		}
	}
	return vm, m
}

func (m *model) note(k int, next []byte, p verifiable.MapUpdatePromise) {
	n := append([][]byte(nil), m.vals[len(m.vals)-1]...)
	n[k] = next
	m.vals = append(m.vals, n)
	m.log = append(m.log, p.LeafHash())
}

// close gives two keys of the model that share the longest part of their paths,
// of those for which f holds.
func (m *model) close(f func(a, b int) bool) (x, y int) {
	best := -1
	for i := range m.keys {
		for j := range m.keys {
			if i == j || !f(i, j) {
				continue
			}
			n := 0
			for n < 256 && m.paths[i][n/8]>>(7-uint(n%8))&1 == m.paths[j][n/8]>>(7-uint(n%8))&1 {
				n++
			}
			if n > best {
				best, x, y = n, i, j
			}
		}
	}
	return x, y
}

// interesting keys to mutate next: present, absent, and close to others.
func (m *model) interesting() []int {
	if symrt.Param("deep", 0) == 1 {
		var all []int
		for i := range m.keys {
			all = append(all, i)
		}
		return all
	}
	here := func(k int) bool { return len(m.cur(k)) > 0 }
	a, b := m.close(func(a, b int) bool { return here(a) && here(b) })
	c, d := m.close(func(a, b int) bool { return !here(a) && here(b) })
	return []int{a, c, b, d, len(m.keys) - 1}[:symrt.Param("interesting", 5)]
}

// more performs an arbitrary mutation of an interesting key.
func (m *model) more(vm *verifiable.Map, ks []int) {
	k := ks[symrt.Choose("k", len(ks))]
	cur := m.cur(k)
	next := cur
	var p verifiable.MapUpdatePromise
	var err error
	switch symrt.Choose("action", int(symrt.Param("actions", 3))) {
	case 0:
		next = symrt.Bytes("v", 1)
		p, err = vm.Set(henv.Ctx, m.keys[k], &pb.LeafData{LeafInput: next})
	case 1:
		p, err = vm.Delete(henv.Ctx, m.keys[k])
		next = nil
	case 2:
		v := symrt.Bytes("v", 1)
		w := cur
		if symrt.Bool("other") {
			w = []byte("another value")
		} else {
			next = v
		}
		p, err = vm.Update(henv.Ctx, m.keys[k], &pb.LeafData{LeafInput: v}, ref.Leaf(w))
	}
	bad(err, "a mutation fails")
	m.note(k, next, p)
}

// Grown: a map with a history takes further mutations as it must: its head at
// each size from there, and at one before, and all that can be read.
func Grown() {
	n := int(symrt.Param("n", 20))
	vm, m := grown(n, int(symrt.Param("keys", 12)))
	old := []int{1, n / 2, n - 1, n}[symrt.Choose("old", 4)]
	ks := m.interesting()
	ops := int(symrt.Param("ops", 1))
	for i := 0; i < ops; i++ {
		m.more(vm, ks)
	}
	for s := n; s <= n+ops; s++ {
		if s == n {
			s = old
		}
		h, err := vm.TreeHead(henv.Ctx, int64(s))
		bad(err, "map tree head at an existing size fails")
		symrt.Assert(h.MutationLog.GetTreeSize() == int64(s), "map tree head has the size asked for")
		symrt.Assert(bytes.Equal(h.RootHash, ref.MapRoot(m.kvs(s))), "map root hash is that of the sparse Merkle tree of the values present")
		symrt.Assert(bytes.Equal(h.MutationLog.GetRootHash(), ref.MTH(m.log[:s])), "map tree head has the mutation log's root hash")
		if s == old {
			s = n
		}
	}
	symrt.Reach("checked")
}

// GrownGet: all keys of such a map read as they must at the latest size and at
// one before.
func GrownGet() {
	n := int(symrt.Param("n", 20))
	vm, m := grown(n, int(symrt.Param("keys", 12)))
	ks := m.interesting()
	ops := int(symrt.Param("ops", 1))
	for i := 0; i < ops; i++ {
		m.more(vm, ks)
	}
	if o := []int{0, n, 1, n / 2}[symrt.Choose("old", int(symrt.Param("olds", 4)))]; o > 0 {
		m.check(vm, o, o)
	} else {
		m.check(vm, 0, n+ops)
	}
	symrt.Reach("checked")
}

// GrownAudit: such a map passes its audit from each of a few earlier states, and
// verifies as their successor.
func GrownAudit() {
	n := int(symrt.Param("n", 20))
	from := []int{0, 1, n / 2, n - 1, n}[symrt.Choose("from", int(symrt.Param("froms", 5)))]
	vm, m := grown(n, int(symrt.Param("keys", 12)), from)
	prev := m.state
	ops := int(symrt.Param("ops", 1))
	ks := m.interesting()
	for i := 0; i < ops; i++ {
		m.more(vm, ks)
	}
	n += ops
	st, err := vm.VerifiedLatestMapState(henv.Ctx, prev)
	bad(err, "the latest state does not verify")
	symrt.Assert(st.TreeSize() == int64(n) && bytes.Equal(st.MapTreeHead.RootHash, ref.MapRoot(m.kvs(n))), "the latest state is that of all mutations")
	var want []int
	for i := 0; i < n; i++ { // it plays all of them
		same := true
		for k := range m.keys {
			same = same && bytes.Equal(m.vals[i][k], m.vals[i+1][k])
		}
		if !same {
			want = append(want, i)
		}
	}
	i := 0
	err = vm.VerifyMap(henv.Ctx, prev, st, nil, func(_ context.Context, idx int64, key []byte, v *pb.LeafData) error {
		symrt.Assert(i < len(want) && int(idx) == want[i], "the audit function is called for exactly the mutations that change the map, in order")
		for k := range m.keys {
			if bytes.Equal(key, m.keys[k]) {
				symrt.Assert(bytes.Equal(v.GetLeafInput(), m.vals[idx+1][k]) && !bytes.Equal(m.vals[idx][k], m.vals[idx+1][k]), "the audit function gets the key and the value that it took")
				i++
				return nil
			}
		}
		symrt.Fail("the audit function gets a key that is not in the map")
		return nil
	})
	bad(err, "auditing an honest map fails")
	symrt.Assert(i == len(want), "the audit function is called once for each mutation that changes the map")
	symrt.Reach("checked")
}
