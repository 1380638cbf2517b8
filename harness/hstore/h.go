// Package hstore holds harnesses for the storage back ends.
package hstore

import (
	"bytes"
	"context"
	"errors"
	"os"
	"path/filepath"

	"gosymharness/models/badgerm"
	"gosymharness/models/boltm"
	"gosymharness/models/pgfake"
	"gosymharness/models/pgm"
	"gosymharness/symrt"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/storage/badger"
	"github.com/continusec/verifiabledatastructures/storage/bolt"
	"github.com/continusec/verifiabledatastructures/storage/memory"
	"github.com/continusec/verifiabledatastructures/storage/postgres"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"github.com/jackc/pgx/v5/pgxpool"
)

var (
	ctx    = context.Background()
	_      = boltm.Open
	_      = badgerm.Open
	errOwn = errors.New("own error")
)

const (
	inMemory = iota
	inBolt
	inBadger
	inPostgres
)

// place is where stores keep their data.
type place struct {
	kind int
	dir  string
	db   *pgfake.Database
	mem  *memory.TransientStorage
}

func newPlace() *place {
	p := &place{kind: int(symrt.Param("kind", 0)), dir: "/stores", db: pgfake.NewDatabase(), mem: &memory.TransientStorage{}}
	if !symrt.Symbolic() {
		d, err := os.MkdirTemp("", "stores")
		if err != nil {
			panic(err)
		}
		p.dir = d
	}
	return p
}

func (p *place) connect() *pgxpool.Conn {
	if symrt.Symbolic() {
		return pgm.Connect(p.db)
	}
	return pgfake.Connect(p.db)
}

// open gives a store over the place, and what closes it.
func (p *place) open() (verifiable.StorageWriter, func()) {
	switch p.kind {
	case inBolt:
		s := &bolt.Storage{Path: p.dir}
		return s, s.Close
	case inBadger:
		s := &badger.Storage{Path: p.dir}
		return s, s.Close
	case inPostgres:
		return &postgres.Storage{Pool: p.connect()}, func() {}
	}
	return p.mem, func() {}
}

func (p *place) file(ns []byte) string { return filepath.Join(p.dir, string(ns)) }

func namespace(b byte) []byte {
	rv := bytes.Repeat([]byte{7}, 32)
	rv[31] = b
	return rv
}

func bad(err error, msg string) {
	if err != nil {
		symrt.Fail(msg + ": " + err.Error())
	}
}

type pair struct{ k, v []byte }

// content is what a namespace should hold, a value of nil means nothing.
type content []pair

func (c content) get(k []byte) []byte {
	for i := len(c) - 1; i >= 0; i-- {
		if bytes.Equal(c[i].k, k) {
			return c[i].v
		}
	}
	return nil
}

func read(db verifiable.KeyReader, k []byte) ([]byte, bool, error) {
	m := &pb.LeafNode{Mth: []byte("old")}
	err := db.Get(ctx, k, m)
	if err == verifiable.ErrNoSuchKey {
		return nil, false, nil
	}
	return m.Mth, err == nil, err
}

// compare reads k and compares with what should be there.
func compare(db verifiable.KeyReader, c content, k []byte) {
	v, ok, err := read(db, k)
	bad(err, "read")
	want := c.get(k)
	if want == nil {
		symrt.Assert(!ok, "a value where there is none")
	} else {
		symrt.Assert(ok, "no value where there is one")
		symrt.Assert(bytes.Equal(v, want), "another value than was stored")
	}
}

// value is a value to store: possibly one that takes no bytes at all.
func value() []byte { return symrt.Bytes("v", symrt.Choose("len", 2)) }

func set(db verifiable.KeyWriter, k, v []byte) error { return db.Set(ctx, k, &pb.LeafNode{Mth: v}) }

// Transactions: a store over any back end does what a map of values per
// namespace does; an update that fails leaves no trace; what was committed is
// there when the store is opened again.
func Transactions() {
	p := newPlace()
	s, closeIt := p.open()
	nss := [][]byte{namespace(0), namespace(1)}
	have := make([]content, 2)
	var keys [][]byte
	key := func() []byte {
		k := append([]byte("key/"), symrt.Bytes("k", 1)...)
		keys = append(keys, k)
		return append([]byte{}, k...)
	}
	ntx, steps := int(symrt.Param("txs", 2)), int(symrt.Param("steps", 2))
	for i := 0; i < ntx; i++ {
		n := symrt.Choose("ns", 2)
		var err error
		var want error
		if symrt.Param("reads", 1) == 1 && symrt.Choose("update", 2) == 0 {
			if symrt.Choose("fails", 2) == 1 {
				want = errOwn
			}
			calls := 0
			err = s.ExecuteReadOnly(ctx, nss[n], func(ctx context.Context, db verifiable.KeyReader) error {
				calls++
				compare(db, have[n], key())
				return want
			})
			symrt.Assert(calls == 1, "a function that is not called once")
		} else {
			if p.kind != inMemory && symrt.Choose("fails", 2) == 1 {
				want = errOwn
			}
			var next content
			calls := 0
			err = s.ExecuteUpdate(ctx, nss[n], func(ctx context.Context, db verifiable.KeyWriter) error {
				calls++
				symrt.Assert(calls == 1, "a function that is called again")
				next = append(content{}, have[n]...)
				for j := 0; j < steps; j++ {
					k := key()
					switch symrt.Choose("op", 3) {
					case 0:
						compare(db, next, k)
					case 1:
						v := value()
						bad(set(db, k, v), "set")
						next = append(next, pair{append([]byte{}, k...), v})
					case 2:
						bad(db.Set(ctx, k, nil), "delete")
						next = append(next, pair{append([]byte{}, k...), nil})
					}
				}
				return want
			})
			if want == nil {
				have[n] = next
			}
		}
		symrt.Assert(err == want, "another outcome than that of the function")
	}
	if symrt.Choose("reopen", 2) == 1 {
		closeIt()
		s, closeIt = p.open()
	}
	for n := range nss {
		bad(s.ExecuteReadOnly(ctx, nss[n], func(ctx context.Context, db verifiable.KeyReader) error {
			for _, k := range keys {
				compare(db, have[n], k)
			}
			return nil
		}), "read")
	}
	closeIt()
	symrt.Reach("checked")
}

// Failures: what cannot be read is not taken for what is not there.
func Failures() {
	p := newPlace()
	s, closeIt := p.open()
	ns := namespace(0)
	k := append([]byte("key/"), symrt.Bytes("k", 1)...)
	v := value()
	var kept verifiable.KeyReader
	bad(s.ExecuteUpdate(ctx, ns, func(ctx context.Context, db verifiable.KeyWriter) error {
		kept = db
		return set(db, k, v)
	}), "update")
	if symrt.Choose("way", 2) == 1 && p.kind == inBolt {
		closeIt()
		called := false
		err := s.ExecuteReadOnly(ctx, ns, func(ctx context.Context, db verifiable.KeyReader) error {
			called = true
			_, ok, err := read(db, k)
			bad(err, "read")
			symrt.Assert(ok, "a store that is closed loses values")
			return nil
		})
		symrt.Assert(err != nil || called, "a store that is closed succeeds without doing anything")
		symrt.Assert(err != verifiable.ErrNoSuchKey, "a store that is closed takes values for absent")
		symrt.Reach("closed")
		return
	}
	if p.kind == inBadger || p.kind == inPostgres {
		// a transaction that is over
		w, ok, err := read(kept, k)
		symrt.Assert(err != nil || ok && bytes.Equal(w, v), "a transaction that is over takes values for absent")
		symrt.Reach("over")
	}
	closeIt()
	symrt.Reach("checked")
}
