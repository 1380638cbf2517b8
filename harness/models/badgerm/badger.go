// Package badgerm models badger: directories of versioned keys, transactions
// that read the state they began with and fail when they conflict.
package badgerm

import (
	"bytes"
	"errors"

	"github.com/dgraph-io/badger"
)

type entry struct {
	v    []byte
	at   int
	gone bool
}

type dir struct {
	data map[string][]entry // versions, oldest first
	now  int
	used bool
}

type db struct {
	d      *dir
	closed bool
}

type txn struct {
	b      *db
	update bool
	over   bool
	at     int
	reads  []string
	writes map[string]entry
	keys   []string
}

var (
	dirs  = map[string]*dir{}
	dbs   = map[*badger.DB]*db{}
	txns  = map[*badger.Txn]*txn{}
	items = map[*badger.Item][]byte{}
)

var errLocked = errors.New("Cannot acquire directory lock")

// DefaultOptions models badger.DefaultOptions.
func DefaultOptions(path string) badger.Options { return badger.Options{Dir: path, ValueDir: path} }

// Open models badger.Open: a directory is open once at a time.
func Open(o badger.Options) (*badger.DB, error) {
	d := dirs[o.Dir]
	if d == nil {
		d = &dir{data: map[string][]entry{}}
		dirs[o.Dir] = d
	}
	if d.used {
		return nil, errLocked
	}
	d.used = true
	b := &badger.DB{}
	dbs[b] = &db{d: d}
	return b, nil
}

// Close models (*DB).Close.
func Close(b *badger.DB) error {
	x := dbs[b]
	if !x.closed {
		x.closed = true
		x.d.used = false
	}
	return nil
}

// NewTransaction models (*DB).NewTransaction.
func NewTransaction(b *badger.DB, update bool) *badger.Txn {
	x := dbs[b]
	t := &badger.Txn{}
	txns[t] = &txn{b: x, update: update, at: x.d.now, writes: map[string]entry{}}
	return t
}

// Discard models (*Txn).Discard.
func Discard(b *badger.Txn) { txns[b].over = true }

// Commit models (*Txn).Commit.
func Commit(b *badger.Txn) error {
	t := txns[b]
	if t.over {
		panic("Trying to commit a discarded txn")
	}
	defer Discard(b)
	if len(t.keys) == 0 {
		return nil
	}
	d := t.b.d
	for _, k := range t.reads {
		if h := d.data[k]; len(h) > 0 && h[len(h)-1].at > t.at {
			return badger.ErrConflict
		}
	}
	if t.b.closed {
		return badger.ErrBlockedWrites
	}
	d.now++
	for k, e := range t.writes {
		e.at = d.now
		d.data[k] = append(d.data[k][:len(d.data[k]):len(d.data[k])], e)
	}
	return nil
}

// View models (*DB).View.
func View(b *badger.DB, f func(*badger.Txn) error) error {
	t := NewTransaction(b, false)
	defer Discard(t)
	return f(t)
}

// Update models (*DB).Update.
func Update(b *badger.DB, f func(*badger.Txn) error) error {
	t := NewTransaction(b, true)
	defer Discard(t)
	if err := f(t); err != nil {
		return err
	}
	return Commit(t)
}

// Get models (*Txn).Get.
func Get(b *badger.Txn, key []byte) (*badger.Item, error) {
	t := txns[b]
	if len(key) == 0 {
		return nil, badger.ErrEmptyKey
	}
	if t.over {
		return nil, badger.ErrDiscardedTxn
	}
	if t.update {
		if e, ok := t.writes[string(key)]; ok {
			if e.gone {
				return nil, badger.ErrKeyNotFound
			}
			i := &badger.Item{}
			items[i] = e.v
			return i, nil
		}
		t.reads = append(t.reads, string(key))
	}
	h := t.b.d.data[string(key)]
	for j := len(h) - 1; j >= 0; j-- {
		if h[j].at > t.at {
			continue
		}
		if h[j].gone {
			break
		}
		i := &badger.Item{}
		items[i] = h[j].v
		return i, nil
	}
	return nil, badger.ErrKeyNotFound
}

func (t *txn) modify(key []byte, e entry) error {
	switch {
	case !t.update:
		return badger.ErrReadOnlyTxn
	case t.over:
		return badger.ErrDiscardedTxn
	case len(key) == 0:
		return badger.ErrEmptyKey
	case bytes.HasPrefix(key, []byte("!badger!")):
		return badger.ErrInvalidKey
	}
	t.writes[string(key)] = e
	t.keys = append(t.keys, string(key))
	return nil
}

// Set models (*Txn).Set.
func Set(b *badger.Txn, key, val []byte) error { return txns[b].modify(key, entry{v: val}) }

// SetEntry models (*Txn).SetEntry.
func SetEntry(b *badger.Txn, e *badger.Entry) error {
	return txns[b].modify(e.Key, entry{v: e.Value})
}

// Delete models (*Txn).Delete.
func Delete(b *badger.Txn, key []byte) error { return txns[b].modify(key, entry{gone: true}) }

// Value models (*Item).Value.
func Value(i *badger.Item, f func([]byte) error) error { return f(items[i]) }

// ValueCopy models (*Item).ValueCopy.
func ValueCopy(i *badger.Item, dst []byte) ([]byte, error) { return append(dst[:0], items[i]...), nil }
