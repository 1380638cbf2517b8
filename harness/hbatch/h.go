// Package hbatch holds harnesses for the batching mutator.
package hbatch

import (
	"bytes"
	"context"
	"sync"
	"time"

	"gosymharness/henv"
	"gosymharness/ref"
	"gosymharness/symrt"

	"github.com/continusec/verifiabledatastructures/mutator/batch"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/storage/memory"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

func bad(err error, msg string) {
	if err != nil {
		symrt.Fail(msg + ": " + err.Error())
	}
}

// watched looks at the objects after every update of the store.
type watched struct {
	memory.TransientStorage
	mu   sync.Mutex
	look func()
}

func (w *watched) ExecuteUpdate(ctx context.Context, ns []byte, f func(ctx context.Context, db verifiable.KeyWriter) error) error {
	err := w.TransientStorage.ExecuteUpdate(ctx, ns, f)
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.look != nil {
		w.look()
	}
	return err
}

const (
	timeout = 20 * time.Millisecond
	gap     = 200 * time.Millisecond
)

// object is a log and what it should hold.
type object struct {
	log  *verifiable.Log
	want [][]byte
	seen []*pb.LogTreeHashResponse // heads after each update
}

func (o *object) add(v []byte) {
	mine := clone(v) // the caller's memory, used for something else once the call has returned
	r, err := o.log.Service.LogAddEntry(henv.Ctx, &pb.LogAddEntryRequest{Log: o.log.Log, Value: &pb.LeafData{LeafInput: mine, ExtraData: []byte("x")}})
	bad(err, "add")
	mine[0]++
	symrt.Assert(bytes.Equal(r.LeafHash, ref.Leaf(v)), "the hash of the entry is returned")
	for _, w := range o.want {
		if symrt.Concretize(b2i(bytes.Equal(v, w))) == 1 {
			return
		}
	}
	o.want = append(o.want, v)
}

func clone(b []byte) []byte { return append([]byte{}, b...) }

func b2i(b bool) int64 {
	return symrt.IteInt64(b, 1, 0)
}

func (o *object) check() {
	var hs [][]byte
	for _, v := range o.want {
		hs = append(hs, ref.Leaf(v))
	}
	h, err := o.log.TreeHead(henv.Ctx, 0)
	bad(err, "log head")
	symrt.Assert(h.TreeSize == int64(len(hs)), "a log holds each entry queued for it once")
	if len(hs) == 0 {
		return
	}
	symrt.Assert(bytes.Equal(h.RootHash, ref.MTH(hs)), "a log holds the entries queued for it, in order")
	last := int64(0)
	for _, s := range o.seen {
		symrt.Assert(s.TreeSize >= last, "a log shrinks")
		symrt.Assert(s.TreeSize <= h.TreeSize && bytes.Equal(s.RootHash, ref.MTH(hs[:s.TreeSize])), "readers meanwhile see the first of the entries")
		last = s.TreeSize
	}
	es, err := o.log.Service.LogFetchEntries(henv.Ctx, &pb.LogFetchEntriesRequest{Log: o.log.Log, First: 0, Last: 0})
	bad(err, "entries")
	symrt.Assert(len(es.Values) == len(hs), "all entries are read")
	for i, e := range es.Values {
		symrt.Assert(bytes.Equal(e.LeafInput, o.want[i]) && string(e.ExtraData) == "x", "the entries are those queued")
		bad(o.log.VerifyInclusion(henv.Ctx, h, hs[i]), "inclusion")
	}
}

// Batch: what is queued for several logs and a map is applied once and in
// order, whatever the sizes of the batches and the times between.
func Batch() {
	st := &watched{}
	sizes := []int{1, 2, 3, 0}
	buffers := []int{4, 0, 1}
	conf := &batch.Mutator{Writer: st, Timeout: timeout, BatchSize: sizes[symrt.Choose("batch", int(symrt.Param("batches", 4)))], BufferSize: buffers[symrt.Choose("buffer", int(symrt.Param("buffers", 2)))]}
	acc := henv.Over(st, conf.MustCreate()).Account("acct", "key")
	a, b := &object{log: acc.VerifiableLog("a")}, &object{log: acc.VerifiableLog("b")}
	m := acc.VerifiableMap("a")
	var keys, vals [][]byte // what the map holds, and the keys of the mutations
	var muts [][]byte
	var mseen []int64
	st.look = func() {
		for _, o := range []*object{a, b} {
			h, err := o.log.TreeHead(henv.Ctx, 0)
			bad(err, "log head meanwhile")
			if h.TreeSize > 0 {
				o.seen = append(o.seen, h)
			}
		}
		h, err := m.TreeHead(henv.Ctx, 0)
		bad(err, "map head meanwhile")
		mseen = append(mseen, h.GetMutationLog().GetTreeSize())
	}
	n := int(symrt.Param("ops", 3))
	if e := int(symrt.Param("explore", 0)); e > 0 {
		symrt.Explore(e)
	}
	for i := 0; i < n; i++ {
		switch symrt.Choose("what", 3) {
		case 0:
			a.add(symrt.Bytes("a", 1))
		case 1:
			b.add(symrt.Bytes("b", 1))
		case 2:
			k, v := []byte{byte(symrt.Choose("key", 2))}, symrt.Bytes("m", 1)
			mine := clone(v)
			r, err := m.Service.MapSetValue(henv.Ctx, &pb.MapSetValueRequest{Map: m.Map, Mutation: &pb.MapMutation{Action: "set", Key: k, Value: &pb.LeafData{LeafInput: mine}}})
			bad(err, "set")
			mine[0]++
			muts = append(muts, r.LeafHash)
			at := -1
			for j := range keys {
				if bytes.Equal(keys[j], k) {
					at = j
				}
			}
			if at < 0 {
				keys, vals = append(keys, k), append(vals, v)
			} else {
				vals[at] = v
			}
		}
		if i < n-1 && symrt.Choose("wait", 2) == 1 {
			time.Sleep(gap)
		}
	}
	symrt.NoExplore()
	time.Sleep(2 * gap)
	st.mu.Lock()
	st.look = nil
	st.mu.Unlock()
	a.check()
	b.check()
	h, err := m.TreeHead(henv.Ctx, 0)
	bad(err, "map head")
	symrt.Assert(h.GetMutationLog().GetTreeSize() == int64(len(muts)), "a map holds each mutation queued for it once")
	last := int64(0)
	for _, s := range mseen {
		symrt.Assert(s >= last && s <= int64(len(muts)), "a map shrinks")
		last = s
	}
	if len(muts) > 0 {
		symrt.Assert(bytes.Equal(h.MutationLog.RootHash, ref.MTH(muts)), "a map holds the mutations queued for it, in order")
		state, err := m.VerifiedLatestMapState(henv.Ctx, nil)
		bad(err, "map state")
		for i, k := range keys {
			v, err := m.VerifiedGet(henv.Ctx, k, state)
			bad(err, "get")
			symrt.Assert(bytes.Equal(v.LeafInput, vals[i]), "the map holds what was set last")
		}
		if symrt.Param("audit", 0) == 1 {
			bad(m.VerifyMap(henv.Ctx, nil, state, nil, nil), "audit")
		}
		symrt.Reach("map")
	}
	symrt.Reach("checked")
}

// Callers: several callers that queue at once each have all that they queued
// in, once and in the order in which they queued it.
func Callers() {
	n, each := int(symrt.Param("callers", 2)), int(symrt.Param("each", 2))
	conf := &batch.Mutator{Writer: &memory.TransientStorage{}, Timeout: timeout, BatchSize: symrt.Choose("batch", int(symrt.Param("batches", 3))), BufferSize: symrt.Choose("buffer", 2)}
	st := conf.Writer.(*memory.TransientStorage)
	acc := henv.Over(st, conf.MustCreate()).Account("acct", "key")
	logs := []*verifiable.Log{acc.VerifiableLog("a"), acc.VerifiableLog("b")}
	where := make([][]int, n) // which log each entry goes to
	for c := range where {
		for i := 0; i < each; i++ {
			where[c] = append(where[c], symrt.Choose("log", 2))
		}
	}
	var done sync.WaitGroup
	errs := make([]error, n)
	symrt.Explore(int(symrt.Param("explore", 1)))
	for c := 0; c < n; c++ {
		done.Add(1)
		go func() {
			defer done.Done()
			for i := 0; i < each; i++ {
				v := []byte{byte(c), byte(i)}
				if _, err := logs[where[c][i]].Add(henv.Ctx, &pb.LeafData{LeafInput: v}); err != nil {
					errs[c] = err
				}
			}
		}()
	}
	done.Wait()
	symrt.NoExplore()
	for _, err := range errs {
		bad(err, "add")
	}
	time.Sleep(2 * gap)
	for l, g := range logs {
		want := 0
		for c := range where {
			for _, w := range where[c] {
				if w == l {
					want++
				}
			}
		}
		h, err := g.TreeHead(henv.Ctx, 0)
		bad(err, "head")
		symrt.Assert(h.TreeSize == int64(want), "a log does not hold what was queued for it at once")
		if want == 0 {
			continue
		}
		es, err := g.Service.LogFetchEntries(henv.Ctx, &pb.LogFetchEntriesRequest{Log: g.Log, First: 0, Last: 0})
		bad(err, "entries")
		last := make([]int, n)
		var hs [][]byte
		for _, e := range es.Values {
			c, i := int(e.LeafInput[0]), int(e.LeafInput[1])
			symrt.Assert(where[c][i] == l && i >= last[c], "the entries of a caller are out of order")
			last[c] = i + 1
			hs = append(hs, ref.Leaf(e.LeafInput))
		}
		symrt.Assert(len(hs) == want && bytes.Equal(h.RootHash, ref.MTH(hs)), "a log holds other entries")
	}
	symrt.Reach("checked")
}
