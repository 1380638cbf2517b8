package hstore

import (
	"bytes"
	"context"
	"sync"

	"gosymharness/symrt"

	"github.com/continusec/verifiabledatastructures/verifiable"
)

// account is a pair of values that are only ever changed together.
type account struct {
	s      verifiable.StorageWriter
	ns     []byte
	k1, k2 []byte
}

// step gives the value that follows v.
func next(v []byte) []byte { return append(append([]byte{}, v...), 1) }

// update changes both values, and calls at between its parts.
func (a *account) update(fail bool, at func(i int)) error {
	return a.s.ExecuteUpdate(ctx, a.ns, func(ctx context.Context, db verifiable.KeyWriter) error {
		at(0)
		v1, _, err := read(db, a.k1)
		bad(err, "read in an update")
		at(1)
		bad(set(db, a.k1, next(v1)), "set")
		at(2)
		v2, _, err := read(db, a.k2)
		bad(err, "read in an update")
		symrt.Assert(bytes.Equal(v1, v2), "an update sees half of another")
		bad(set(db, a.k2, next(v2)), "set")
		at(3)
		if fail {
			return errOwn
		}
		return nil
	})
}

// read reads both values, and calls at between.
func (a *account) read(at func(i int)) (v []byte) {
	bad(a.s.ExecuteReadOnly(ctx, a.ns, func(ctx context.Context, db verifiable.KeyReader) error {
		at(0)
		v1, _, err := read(db, a.k1)
		bad(err, "read")
		at(1)
		v2, _, err := read(db, a.k2)
		bad(err, "read")
		symrt.Assert(bytes.Equal(v1, v2), "a reader sees half of an update")
		v = v1
		at(2)
		return nil
	}), "read")
	return
}

func nowhere(int) {}

// Isolated: of two transactions that run at once none sees half of the other,
// and no update is lost.
func Isolated() {
	p := newPlace()
	s, closeIt := p.open()
	a := &account{s: s, ns: namespace(0), k1: []byte("k1"), k2: []byte("k2")}
	b := &account{s: s, ns: a.ns, k1: a.k1, k2: a.k2}
	if p.kind == inPostgres && symrt.Choose("connections", 2) == 1 {
		b.s, _ = p.open() // another process
	}
	var have []byte
	if symrt.Choose("fresh", 2) == 0 {
		have = symrt.Bytes("v", 1)
		bad(s.ExecuteUpdate(ctx, a.ns, func(ctx context.Context, db verifiable.KeyWriter) error {
			bad(set(db, a.k1, have), "set")
			return set(db, a.k2, have)
		}), "update")
	}
	first, second := symrt.Choose("first", 3), symrt.Choose("second", 3)
	when := symrt.Choose("when", 4)
	if p.kind == inMemory {
		symrt.Assume(first != 2 && second != 2) // an update that fails leaves a part: documented
	}
	var done sync.WaitGroup
	var problem any
	var counts [2]int // updates of each that succeeded
	run := func(a *account, kind int, count *int, at func(int)) {
		switch kind {
		case 0:
			a.read(at)
		case 1:
			bad(a.update(false, at), "update")
			*count++
		case 2:
			symrt.Assert(a.update(true, at) == errOwn, "another outcome than that of the function")
		}
	}
	started := false
	run(a, first, &counts[0], func(i int) {
		if i != when {
			return
		}
		started = true
		done.Add(1)
		go func() {
			defer done.Done()
			if !symrt.Symbolic() {
				defer func() { problem = recover() }()
			}
			run(b, second, &counts[1], nowhere)
		}()
		symrt.Settle()
	})
	if !started {
		symrt.End()
	}
	done.Wait()
	if problem != nil {
		panic(problem)
	}
	want := append([]byte{}, have...)
	for i := 0; i < counts[0]+counts[1]; i++ {
		want = next(want)
	}
	symrt.Assert(bytes.Equal(a.read(nowhere), want), "an update is lost")
	closeIt()
	symrt.Reach("checked")
}

// AtOnce: transactions that begin at once on a store that is just opened all
// succeed, and their updates are all there.
func AtOnce() {
	rounds := 1
	if !symrt.Symbolic() {
		rounds = 30 // which comes first is left to the scheduler
	}
	for ; rounds > 0; rounds-- {
		p := newPlace()
		s, closeIt := p.open()
		n := int(symrt.Param("n", 2))
		same := symrt.Choose("same", 2) == 1
		var done sync.WaitGroup
		errs := make([]error, n)
		k := []byte("k")
		symrt.Explore(int(symrt.Param("preempt", 1)))
		for i := 0; i < n; i++ {
			ns := namespace(0)
			if !same {
				ns = namespace(byte(i))
			}
			done.Add(1)
			go func() {
				defer done.Done()
				errs[i] = s.ExecuteUpdate(ctx, ns, func(ctx context.Context, db verifiable.KeyWriter) error {
					v, _, err := read(db, k)
					if err != nil {
						return err
					}
					return set(db, k, next(v))
				})
			}()
		}
		done.Wait()
		symrt.NoExplore()
		for _, err := range errs {
			bad(err, "update")
		}
		for i := 0; i < n; i++ {
			want := []byte{1}
			if same {
				want = bytes.Repeat(want, n)
			}
			ns := namespace(0)
			if !same {
				ns = namespace(byte(i))
			}
			bad(s.ExecuteReadOnly(ctx, ns, func(ctx context.Context, db verifiable.KeyReader) error {
				v, _, err := read(db, k)
				bad(err, "read")
				symrt.Assert(bytes.Equal(v, want), "an update is lost")
				return nil
			}), "read")
		}
		closeIt()
	}
	symrt.Reach("checked")
}
