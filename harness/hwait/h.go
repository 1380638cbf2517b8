// Package hwait holds harnesses for waiting until an update is in.
package hwait

import (
	"bytes"
	"context"
	"errors"
	"time"

	"gosymharness/henv"
	"gosymharness/ref"
	"gosymharness/symrt"

	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/storage/memory"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

func bad(err error, msg string) {
	if err != nil {
		symrt.Fail(msg + ": " + err.Error())
	}
}

// ending is a context that ends when it is told to.
type ending struct {
	done chan struct{}
	err  error
}

func (c *ending) Deadline() (time.Time, bool)       { return time.Time{}, false }
func (c *ending) Done() <-chan struct{}             { return c.done }
func (c *ending) Err() error                        { return c.err }
func (c *ending) Value(key interface{}) interface{} { return nil }

func (c *ending) end() {
	if c.err == nil {
		c.err = context.Canceled
		close(c.done)
	}
}

// lazy is a server that applies what it was asked to only later, grows
// meanwhile, and sometimes fails to answer.
type lazy struct {
	pb.VerifiableDataStructuresServiceServer
	acc     *verifiable.Account
	polls   int64
	arrive  int64 // poll before which the update is applied
	end     int64 // poll at which the context ends
	ctx     *ending
	fails   int
	failed  int64
	entry   []byte
	pending func()
	in      [][]byte // leaf hashes in the log
	other   func(i byte)
}

func (s *lazy) poll() {
	if s.polls == s.end {
		s.ctx.end()
	}
	if s.polls == s.arrive {
		s.pending()
	}
	if s.polls < 3 && symrt.Choose("grow", 2) == 1 {
		s.other(byte(s.polls))
	}
	s.polls++
	if s.polls > 12 {
		symrt.Fail("waits on")
	}
}

func (s *lazy) LogTreeHash(ctx context.Context, r *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	s.poll()
	return s.VerifiableDataStructuresServiceServer.LogTreeHash(ctx, r)
}

func (s *lazy) LogInclusionProof(ctx context.Context, r *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	if s.fails > 0 {
		s.fails--
		// an entry that is not found is taken not to be in the tree for good
		errs := []error{nil, verifiable.ErrInternalError, verifiable.ErrInvalidRange, errors.New("connection lost")}
		k := symrt.Choose("error", len(errs)+1)
		if k == len(errs) { // a proof of nothing
			s.failed++
			return &pb.LogInclusionProofResponse{TreeSize: r.TreeSize, LeafIndex: r.TreeSize - 1, AuditPath: [][]byte{symrt.Hash("lie")}}, nil
		}
		if errs[k] != nil {
			s.failed++
			return nil, errs[k]
		}
	}
	return s.VerifiableDataStructuresServiceServer.LogInclusionProof(ctx, r)
}

// later is a mutator that applies the first mutation when it is told to.
type later struct {
	verifiable.MutatorService
	s *lazy
}

func (m *later) QueueMutation(ctx context.Context, ns []byte, mut *pb.Mutation) error {
	if m.s.entry != nil {
		return m.MutatorService.QueueMutation(ctx, ns, mut)
	}
	m.s.entry = ref.Leaf(mut.LogAddEntry.Value.LeafInput)
	m.s.pending = func() {
		bad(m.MutatorService.QueueMutation(ctx, ns, mut), "mutation")
		m.s.in = append(m.s.in, m.s.entry)
	}
	return nil
}

func newLazy() (*lazy, *verifiable.Account) {
	st := &memory.TransientStorage{}
	s := &lazy{arrive: symrt.Int64("arrive"), end: 1 << 40, fails: int(symrt.Param("fails", 2)), ctx: &ending{done: make(chan struct{})}}
	symrt.Assume(symrt.And(s.arrive >= 0, s.arrive < symrt.Param("polls", 3)))
	in := henv.Over(st, &later{MutatorService: &instant.Mutator{Writer: st}, s: s})
	s.VerifiableDataStructuresServiceServer, s.acc = in.Service, in.Account("acct", "key")
	return s, (&verifiable.Client{Service: s}).Account("acct", "key")
}

func (s *lazy) ended() {
	symrt.Assert(symrt.And(s.polls > s.arrive, s.polls <= s.arrive+1+s.failed), "the wait ends with the first answer that has the update")
}

// Log: waiting for an addition ends when it is in the log, with a head that has it.
func Log() {
	s, acc := newLazy()
	s.other = func(i byte) {
		_, err := s.acc.VerifiableLog("log").Add(henv.Ctx, &pb.LeafData{LeafInput: []byte{'o', i}})
		bad(err, "add")
		s.in = append(s.in, ref.Leaf([]byte{'o', i}))
	}
	l := acc.VerifiableLog("log")
	p, err := l.Add(henv.Ctx, &pb.LeafData{LeafInput: symrt.Bytes("v", 1)})
	bad(err, "add")
	symrt.Assert(bytes.Equal(p.LeafHash(), s.entry), "the promise has the hash of the entry")
	h, err := p.Wait(s.ctx)
	bad(err, "wait")
	s.ended()
	n := int(h.TreeSize)
	symrt.Assert(n <= len(s.in) && bytes.Equal(h.RootHash, ref.MTH(s.in[:n])), "the wait returns a head of the log")
	has := false
	for _, e := range s.in[:n] {
		has = symrt.Or(has, bytes.Equal(e, s.entry))
	}
	symrt.Assert(has, "the wait ends before the entry is in")
	symrt.Reach("checked")
}

// Map: waiting for a mutation ends when it is in the map, with a head that has it.
func Map() {
	s, acc := newLazy()
	s.other = func(i byte) {
		_, err := s.acc.VerifiableMap("map").Set(henv.Ctx, []byte{'o', i}, &pb.LeafData{LeafInput: []byte{'o'}})
		bad(err, "set")
	}
	m := acc.VerifiableMap("map")
	v := symrt.Bytes("v", 1)
	p, err := m.Set(henv.Ctx, []byte("k"), &pb.LeafData{LeafInput: v})
	bad(err, "set")
	h, err := p.Wait(s.ctx)
	bad(err, "wait")
	s.ended()
	n := h.GetMutationLog().GetTreeSize()
	g, err := s.acc.VerifiableMap("map").Get(henv.Ctx, []byte("k"), n)
	bad(err, "get")
	bad(verifiable.VerifyMapInclusionProof(g, []byte("k"), h), "the wait returns a head of the map")
	symrt.Assert(bytes.Equal(g.Value.LeafInput, v), "the wait ends before the mutation is in")
	bad(s.acc.VerifiableMap("map").MutationLog().VerifyInclusion(henv.Ctx, h.MutationLog, p.LeafHash()), "the mutation is in the log")
	bad(func() error {
		big, err := m.BlockUntilSize(henv.Ctx, n)
		if err == nil && big.GetMutationLog().GetTreeSize() < n {
			symrt.Fail("the wait ends before the map has the size")
		}
		return err
	}(), "wait for the size")
	symrt.Reach("checked")
}

// Cancel: waiting ends when its context ends.
func Cancel() {
	s, acc := newLazy()
	s.arrive = 1 << 40
	s.end = symrt.Int64("end")
	symrt.Assume(symrt.And(s.end >= 0, s.end < symrt.Param("polls", 3)))
	s.other = func(i byte) {
		_, err := s.acc.VerifiableLog("log").Add(henv.Ctx, &pb.LeafData{LeafInput: []byte{'o', i}})
		bad(err, "add")
	}
	s.entry = ref.Leaf([]byte("x"))
	var err error
	switch symrt.Choose("what", 3) {
	case 0:
		_, err = acc.VerifiableLog("log").BlockUntilPresent(s.ctx, s.entry)
	case 1:
		_, err = acc.VerifiableMap("map").MutationLog().BlockUntilPresent(s.ctx, s.entry)
	case 2:
		_, err = acc.VerifiableMap("map").BlockUntilSize(s.ctx, 5)
	}
	symrt.Assert(err != nil, "a wait succeeds without the update")
	symrt.Assert(s.polls <= s.end+1, "waits on after its context ended")
	symrt.Reach("checked")
}

func (s *lazy) MapTreeHash(ctx context.Context, r *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	if r.TreeSize == 0 {
		s.poll()
	}
	return s.VerifiableDataStructuresServiceServer.MapTreeHash(ctx, r)
}
