// Package hconc holds harnesses for requests that are served at once.
package hconc

import (
	"context"
	"fmt"
	"sync"

	"gosymharness/henv"
	"gosymharness/hrest"
	"gosymharness/ref"
	"gosymharness/symrt"

	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/storage/memory"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

func bad(err error, msg string) {
	if err != nil {
		symrt.Fail(msg + ": " + err.Error())
	}
}

// world is a service with a log and a map that hold something, and the
// handles that all share.
type world struct {
	acc   *verifiable.Account
	fresh string // the name of objects that nobody used before
	log   *verifiable.Log
	vm    *verifiable.Map
	lh    *pb.LogTreeHashResponse
	mh    *verifiable.MapTreeState
}

func leaf(b ...byte) *pb.LeafData { return &pb.LeafData{LeafInput: b} }

var keyA, keyB = []byte("a"), []byte("b")

func newWorld(fresh string) *world {
	st := &memory.TransientStorage{}
	s := (&verifiable.Service{Mutator: &instant.Mutator{Writer: st}, AccessPolicy: policy.Open, Reader: st}).MustCreate()
	if symrt.Param("remote", 0) == 1 {
		s = hrest.Remote(s)
	}
	acc := (&verifiable.Client{Service: s}).Account("1", "key")
	w := &world{acc: acc, fresh: fresh, log: acc.VerifiableLog("log"), vm: acc.VerifiableMap("map")}
	for i := byte(0); i < 2; i++ {
		_, err := w.log.Add(henv.Ctx, leaf(i))
		bad(err, "add")
	}
	_, err := w.vm.Set(henv.Ctx, keyA, leaf(7))
	bad(err, "set")
	w.lh, err = w.log.TreeHead(henv.Ctx, 2)
	bad(err, "head")
	w.mh, err = w.vm.VerifiedLatestMapState(henv.Ctx, nil)
	bad(err, "map state")
	return w
}

const ops = 20

// run performs an operation and gives all that it says, except what depends
// on the time of mutations.
func (w *world) run(op int, v []byte) string {
	show := func(err error, x ...any) string {
		bad(err, "an operation fails")
		s := ""
		for _, y := range x {
			switch y := y.(type) {
			case []byte:
				s += string(y) + "|"
			case [][]byte:
				for _, z := range y {
					s += string(z) + ","
				}
				s += "|"
			default:
				s += fmt.Sprint(y) + "|"
			}
		}
		return s
	}
	ctx := henv.Ctx
	switch op {
	case 0:
		p, err := w.log.Add(ctx, &pb.LeafData{LeafInput: v})
		bad(err, "add")
		return show(err, p.LeafHash())
	case 1:
		_, err := w.vm.Set(ctx, keyA, &pb.LeafData{LeafInput: v})
		return show(err)
	case 2:
		_, err := w.vm.Delete(ctx, keyA)
		return show(err)
	case 3:
		_, err := w.vm.Update(ctx, keyA, &pb.LeafData{LeafInput: v}, hashOf(7))
		return show(err)
	case 4:
		h, err := w.log.TreeHead(ctx, verifiable.Head)
		bad(err, "head")
		return show(err, h.TreeSize, h.RootHash)
	case 5:
		p, err := w.log.ConsistencyProof(ctx, 1, verifiable.Head)
		bad(err, "consistency proof")
		return show(err, p.FromSize, p.TreeSize, p.AuditPath)
	case 6:
		p, err := w.log.InclusionProofByIndex(ctx, verifiable.Head, 1)
		bad(err, "inclusion proof")
		return show(err, p.LeafIndex, p.TreeSize, p.AuditPath)
	case 7:
		e, err := w.log.Entry(ctx, 1)
		bad(err, "entry")
		return show(err, e.LeafInput)
	case 8:
		h, err := w.log.VerifiedLatestTreeHead(ctx, w.lh)
		bad(err, "verified head")
		return show(err, h.TreeSize, h.RootHash)
	case 9:
		n := 0
		return show(w.log.VerifyEntries(ctx, nil, w.lh, func(_ context.Context, idx int64, e *pb.LeafData) error {
			n++
			return nil
		}), n)
	case 10:
		g, err := w.vm.Get(ctx, keyA, verifiable.Head)
		bad(err, "get")
		return show(err, g.TreeSize, g.Value.GetLeafInput(), g.AuditPath)
	case 11:
		g, err := w.vm.VerifiedGet(ctx, keyA, w.mh)
		bad(err, "verified get")
		return show(err, g.LeafInput)
	case 12:
		h, err := w.vm.TreeHead(ctx, verifiable.Head)
		bad(err, "map head")
		return show(err, h.MutationLog.TreeSize, h.RootHash)
	case 13:
		h, err := w.vm.VerifiedLatestMapState(ctx, w.mh)
		bad(err, "verified state")
		return show(err, h.TreeSize(), h.MapTreeHead.RootHash)
	case 14:
		_, err := w.vm.Set(ctx, keyB, &pb.LeafData{LeafInput: v})
		return show(err)
	// objects that come into being
	case 16:
		p, err := w.acc.VerifiableLog(w.fresh).Add(ctx, &pb.LeafData{LeafInput: v})
		bad(err, "add to a new log")
		return show(err, p.LeafHash())
	case 17:
		_, err := w.acc.VerifiableMap(w.fresh).Set(ctx, keyA, &pb.LeafData{LeafInput: v})
		return show(err)
	case 18:
		h, err := w.acc.VerifiableLog(w.fresh).TreeHead(ctx, verifiable.Head)
		bad(err, "head of a new log")
		return show(err, h.TreeSize, h.RootHash)
	case 19:
		h, err := w.acc.VerifiableMap(w.fresh).TreeHead(ctx, verifiable.Head)
		bad(err, "head of a new map")
		return show(err, h.MutationLog.TreeSize, h.RootHash)
	}
	s := ""
	for e := range w.log.Entries(ctx, 0, 2) {
		s += string(e.LeafInput)
	}
	return s
}

// state is what everybody sees in the end.
func (w *world) state() string {
	s := ""
	for _, op := range []int{4, 10, 12, 18, 19} {
		s += w.run(op, nil)
	}
	g, err := w.vm.Get(henv.Ctx, keyB, verifiable.Head)
	bad(err, "get")
	return s + string(g.Value.GetLeafInput())
}

func hashOf(b byte) []byte { return ref.Leaf([]byte{b}) }

// Pair: two operations at once on one service, through the same handles, say
// and leave what they would one after the other.
func Pair() {
	a, b := symrt.Choose("a", ops), symrt.Choose("b", ops)
	symrt.Assume(a <= b)
	if symrt.Param("writes", 0) == 1 { // one of them at least changes something
		symrt.Assume(a < 4 || b == 14 || a == 16 || a == 17 || b == 16 || b == 17)
	}
	races := symrt.Param("race", 0) == 1 // only whether there are any, which what was said before and after does not change
	n := 2
	if races && symrt.Symbolic() {
		n = 1
	}
	va, vb := []byte{1}, []byte{byte(2 - symrt.Choose("other", n))}
	if symrt.Param("concrete", 0) == 0 {
		va, vb = symrt.Bytes("va", 1), symrt.Bytes("vb", 1)
	}
	rounds := 1
	if !symrt.Symbolic() {
		rounds = 20
	}
	for ; rounds > 0; rounds-- {
		fresh := fmt.Sprint("new", rounds)
		w := newWorld(fresh)
		var done sync.WaitGroup
		var ra, rb string
		var problem any
		done.Add(1)
		symrt.Explore(int(symrt.Param("preempt", 1)))
		go func() {
			defer done.Done()
			if !symrt.Symbolic() {
				defer func() { problem = recover() }()
			}
			rb = w.run(b, vb)
		}()
		ra = w.run(a, va)
		done.Wait()
		symrt.NoExplore()
		if problem != nil {
			panic(problem)
		}
		if races && symrt.Symbolic() {
			break
		}
		s := w.state()
		w = newWorld(fresh)
		xa := w.run(a, va)
		xb := w.run(b, vb)
		first := symrt.And(ra == xa, symrt.And(rb == xb, s == w.state()))
		w = newWorld(fresh)
		xb = w.run(b, vb)
		xa = w.run(a, va)
		second := symrt.And(ra == xa, symrt.And(rb == xb, s == w.state()))
		symrt.Assert(symrt.Or(first, second), "operations at once are not as one after the other")
	}
	symrt.Reach("checked")
}
