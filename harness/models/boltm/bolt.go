// Package boltm models bbolt: files of buckets with one writer at a time and
// readers that keep the state they began with.
package boltm

import (
	"io/fs"
	"sync"

	bolt "go.etcd.io/bbolt"
	berrors "go.etcd.io/bbolt/errors"
)

type buckets map[string]map[string][]byte

type file struct {
	data buckets
	used bool
}

type db struct {
	f       *file
	closed  bool
	writer  sync.Mutex
	readers sync.RWMutex
}

type tx struct {
	d        *db
	writable bool
	over     bool
	managed  bool
	data     buckets
	bs       map[string]*bolt.Bucket
}

type bucket struct {
	t    *tx
	name string
}

var (
	files = map[string]*file{}
	dbs   = map[*bolt.DB]*db{}
	txs   = map[*bolt.Tx]*tx{}
	bks   = map[*bolt.Bucket]*bucket{}
)

func clone(b buckets) buckets {
	rv := buckets{}
	for n, m := range b {
		c := map[string][]byte{}
		for k, v := range m {
			c[k] = v
		}
		rv[n] = c
	}
	return rv
}

// Open models bolt.Open: a file is open once at a time.
func Open(path string, mode fs.FileMode, options *bolt.Options) (*bolt.DB, error) {
	f := files[path]
	if f == nil {
		f = &file{data: buckets{}}
		files[path] = f
	}
	if f.used {
		if options == nil || options.Timeout == 0 {
			select {}
		}
		return nil, berrors.ErrTimeout
	}
	f.used = true
	b := &bolt.DB{}
	dbs[b] = &db{f: f}
	return b, nil
}

// Close models (*DB).Close.
func Close(b *bolt.DB) error {
	d := dbs[b]
	d.writer.Lock()
	defer d.writer.Unlock()
	d.readers.Lock()
	defer d.readers.Unlock()
	if !d.closed {
		d.closed = true
		d.f.used = false
	}
	return nil
}

// Begin models (*DB).Begin.
func Begin(b *bolt.DB, writable bool) (*bolt.Tx, error) {
	d := dbs[b]
	if writable {
		d.writer.Lock()
	} else {
		d.readers.RLock()
	}
	if d.closed {
		if writable {
			d.writer.Unlock()
		} else {
			d.readers.RUnlock()
		}
		return nil, berrors.ErrDatabaseNotOpen
	}
	t := &bolt.Tx{}
	x := &tx{d: d, writable: writable, data: d.f.data, bs: map[string]*bolt.Bucket{}}
	if writable {
		x.data = clone(x.data)
	}
	txs[t] = x
	return t, nil
}

func (t *tx) end() {
	t.over = true
	if t.writable {
		t.d.writer.Unlock()
	} else {
		t.d.readers.RUnlock()
	}
}

// Commit models (*Tx).Commit.
func Commit(b *bolt.Tx) error {
	t := txs[b]
	if t.managed {
		panic("managed tx commit not allowed")
	}
	if t.over {
		return berrors.ErrTxClosed
	}
	if !t.writable {
		return berrors.ErrTxNotWritable
	}
	t.d.f.data = t.data
	t.end()
	return nil
}

// Rollback models (*Tx).Rollback.
func Rollback(b *bolt.Tx) error {
	t := txs[b]
	if t.managed {
		panic("managed tx rollback not allowed")
	}
	if t.over {
		return berrors.ErrTxClosed
	}
	t.end()
	return nil
}

func run(b *bolt.DB, writable bool, f func(*bolt.Tx) error) error {
	t, err := Begin(b, writable)
	if err != nil {
		return err
	}
	x := txs[t]
	defer func() {
		if !x.over {
			x.end()
		}
	}()
	x.managed = true
	err = f(t)
	x.managed = false
	if err != nil {
		Rollback(t)
		return err
	}
	if writable {
		return Commit(t)
	}
	return Rollback(t)
}

// View models (*DB).View.
func View(b *bolt.DB, f func(*bolt.Tx) error) error { return run(b, false, f) }

// Update models (*DB).Update.
func Update(b *bolt.DB, f func(*bolt.Tx) error) error { return run(b, true, f) }

// Batch models (*DB).Batch, with batches of one: a function that fails is
// called again on its own.
func Batch(b *bolt.DB, f func(*bolt.Tx) error) error {
	if err := run(b, true, f); err != nil {
		return run(b, true, f)
	}
	return nil
}

func (t *tx) bucket(name string) *bolt.Bucket {
	if t.data[name] == nil {
		return nil
	}
	b := t.bs[name]
	if b == nil {
		b = &bolt.Bucket{}
		bks[b] = &bucket{t, name}
		t.bs[name] = b
	}
	return b
}

// Bucket models (*Tx).Bucket.
func Bucket(b *bolt.Tx, name []byte) *bolt.Bucket {
	t := txs[b]
	if t.over {
		panic("use of a transaction that is over")
	}
	return t.bucket(string(name))
}

// CreateBucket models (*Tx).CreateBucket.
func CreateBucket(b *bolt.Tx, name []byte) (*bolt.Bucket, error) {
	t := txs[b]
	if t.over {
		return nil, berrors.ErrTxClosed
	}
	if !t.writable {
		return nil, berrors.ErrTxNotWritable
	}
	if len(name) == 0 {
		return nil, berrors.ErrBucketNameRequired
	}
	if t.data[string(name)] != nil {
		return nil, berrors.ErrBucketExists
	}
	t.data[string(name)] = map[string][]byte{}
	return t.bucket(string(name)), nil
}

// CreateBucketIfNotExists models (*Tx).CreateBucketIfNotExists.
func CreateBucketIfNotExists(b *bolt.Tx, name []byte) (*bolt.Bucket, error) {
	t := txs[b]
	if t.over {
		return nil, berrors.ErrTxClosed
	}
	if !t.writable {
		return nil, berrors.ErrTxNotWritable
	}
	if t.data[string(name)] != nil {
		return t.bucket(string(name)), nil
	}
	return CreateBucket(b, name)
}

// DeleteBucket models (*Tx).DeleteBucket.
func DeleteBucket(b *bolt.Tx, name []byte) error {
	t := txs[b]
	if t.over {
		return berrors.ErrTxClosed
	}
	if !t.writable {
		return berrors.ErrTxNotWritable
	}
	if t.data[string(name)] == nil {
		return berrors.ErrBucketNotFound
	}
	delete(t.data, string(name))
	delete(t.bs, string(name))
	return nil
}

// Get models (*Bucket).Get.
func Get(b *bolt.Bucket, key []byte) []byte {
	x := bks[b]
	if x.t.over {
		panic("use of a transaction that is over")
	}
	return x.t.data[x.name][string(key)]
}

// Put models (*Bucket).Put.
func Put(b *bolt.Bucket, key, value []byte) error {
	x := bks[b]
	if x.t.over {
		return berrors.ErrTxClosed
	}
	if !x.t.writable {
		return berrors.ErrTxNotWritable
	}
	if len(key) == 0 {
		return berrors.ErrKeyRequired
	}
	if len(key) > bolt.MaxKeySize {
		return berrors.ErrKeyTooLarge
	}
	x.t.data[x.name][string(key)] = value
	return nil
}

// Delete models (*Bucket).Delete.
func Delete(b *bolt.Bucket, key []byte) error {
	x := bks[b]
	if x.t.over {
		return berrors.ErrTxClosed
	}
	if !x.t.writable {
		return berrors.ErrTxNotWritable
	}
	delete(x.t.data[x.name], string(key))
	return nil
}

// Names gives the paths of the files there are.
func Names() []string {
	var rv []string
	for n := range files {
		rv = append(rv, n)
	}
	return rv
}
