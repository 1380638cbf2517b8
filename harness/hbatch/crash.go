package hbatch

import (
	"bytes"
	"context"
	"sync"
	"time"

	"gosymharness/henv"
	"gosymharness/ref"
	"gosymharness/symrt"

	"github.com/continusec/verifiabledatastructures/mutator/batch"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
)

// store keeps an update when it is complete, and stops the process that uses
// it at one step.
type store struct {
	mu   sync.Mutex
	data map[string]map[string][]byte
	left int64 // steps before the crash, negative: none
	hit  bool
}

func (s *store) step() {
	s.mu.Lock()
	s.left--
	stop := s.left == -1
	if stop {
		s.hit = true
	}
	s.mu.Unlock()
	if stop {
		<-make(chan bool)
	}
}

type tx struct {
	s   *store
	old map[string][]byte
	new map[string][]byte
}

func (t *tx) Get(ctx context.Context, key []byte, value proto.Message) error {
	b, ok := t.new[string(key)]
	if !ok {
		b, ok = t.old[string(key)]
	}
	if !ok {
		return verifiable.ErrNoSuchKey
	}
	return proto.Unmarshal(b, value)
}

func (t *tx) Set(ctx context.Context, key []byte, value proto.Message) error {
	t.s.step()
	b, err := proto.Marshal(value)
	if err != nil {
		return err
	}
	t.new[string(key)] = b
	return nil
}

func (s *store) begin(ns []byte) *tx {
	s.step()
	s.mu.Lock()
	defer s.mu.Unlock()
	return &tx{s: s, old: s.data[string(ns)], new: map[string][]byte{}}
}

func (s *store) ExecuteReadOnly(ctx context.Context, ns []byte, f func(ctx context.Context, db verifiable.KeyReader) error) error {
	return f(ctx, s.begin(ns))
}

func (s *store) ExecuteUpdate(ctx context.Context, ns []byte, f func(ctx context.Context, db verifiable.KeyWriter) error) error {
	t := s.begin(ns)
	if err := f(ctx, t); err != nil {
		return err
	}
	n := map[string][]byte{}
	for k, v := range t.old {
		n[k] = v
	}
	for k, v := range t.new {
		n[k] = v
	}
	s.mu.Lock()
	s.data[string(ns)] = n
	s.mu.Unlock()
	s.step()
	return nil
}

// Crash: whenever the process stops, the log and the map hold the first of what
// was queued for them, and a new process carries on from there.
func Crash() {
	st := &store{data: map[string]map[string][]byte{}, left: symrt.Int64("crash")}
	symrt.Assume(symrt.And(st.left >= 0, st.left < symrt.Param("steps", 60)))
	n := int(symrt.Param("ops", 2))
	conf := &batch.Mutator{Writer: st, Timeout: timeout, BatchSize: symrt.Choose("batch", 3), BufferSize: n}
	acc := henv.Over(st, conf.MustCreate()).Account("acct", "key")
	l, m := acc.VerifiableLog("a"), acc.VerifiableMap("a")
	var in, muts, hs [][]byte
	put := func() {
		v := append([]byte{byte(len(in) + len(muts))}, symrt.Bytes("v", 1)...)
		if symrt.Choose("what", 2) == 0 {
			_, err := l.Service.LogAddEntry(henv.Ctx, &pb.LogAddEntryRequest{Log: l.Log, Value: &pb.LeafData{LeafInput: v}})
			bad(err, "add")
			in = append(in, v)
			hs = append(hs, ref.Leaf(v))
			return
		}
		r, err := m.Service.MapSetValue(henv.Ctx, &pb.MapSetValueRequest{Map: m.Map, Mutation: &pb.MapMutation{Action: "set", Key: v[:1], Value: &pb.LeafData{LeafInput: v}}})
		bad(err, "set")
		muts = append(muts, r.LeafHash)
	}
	for i := 0; i < n; i++ {
		put()
		if i < n-1 && symrt.Choose("wait", 2) == 1 {
			time.Sleep(gap)
		}
	}
	time.Sleep(2 * gap)
	st.mu.Lock()
	hit := st.hit
	st.left = -2
	st.mu.Unlock()

	check := func() (int, int) {
		h, err := l.TreeHead(henv.Ctx, 0)
		bad(err, "log head")
		s := int(h.TreeSize)
		symrt.Assert(s <= len(hs), "a log of more than was added")
		if s > 0 {
			symrt.Assert(bytes.Equal(h.RootHash, ref.MTH(hs[:s])), "a log of something else than was added")
			es, err := l.Service.LogFetchEntries(henv.Ctx, &pb.LogFetchEntriesRequest{Log: l.Log})
			bad(err, "entries")
			for i, e := range es.Values {
				symrt.Assert(bytes.Equal(e.LeafInput, in[i]), "entries that were not added")
			}
		}
		mh, err := m.TreeHead(henv.Ctx, 0)
		bad(err, "map head")
		ms := int(mh.GetMutationLog().GetTreeSize())
		symrt.Assert(ms <= len(muts), "a map of more than was set")
		if ms > 0 {
			state, err := m.VerifiedLatestMapState(henv.Ctx, nil)
			bad(err, "map state")
			symrt.Assert(bytes.Equal(mh.MutationLog.RootHash, ref.MTH(muts[:ms])), "a map of other mutations")
			bad(m.VerifyMap(henv.Ctx, nil, state, nil, nil), "audit")
		}
		return s, ms
	}
	s, ms := check()
	if !hit {
		symrt.Assert(s == len(in) && ms == len(muts), "something queued is not applied")
		symrt.Reach("whole")
		return
	}
	symrt.Reach("crashed")
	in, hs, muts = in[:s], hs[:s], muts[:ms]
	acc = henv.Over(st, (&batch.Mutator{Writer: st, Timeout: timeout, BufferSize: n}).MustCreate()).Account("acct", "key")
	l, m = acc.VerifiableLog("a"), acc.VerifiableMap("a")
	put()
	time.Sleep(gap)
	s, ms = check()
	symrt.Assert(s == len(in) && ms == len(muts), "a new process does not carry on")
	symrt.Reach("checked")
}
