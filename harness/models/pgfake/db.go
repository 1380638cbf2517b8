// Package pgfake is a small stand-in for PostgreSQL: tables of keys and
// values, transactions, isolation levels and table locks, driven by the text
// of the few statements that such a store needs.
package pgfake

import (
	"errors"
	"strings"
	"sync"

	"gosymharness/symrt"
)

type row struct {
	v    []byte
	gone bool
}

type table map[string]row

// Database holds what is committed.
type Database struct {
	tables map[string]table
	locks  map[string]*sync.Mutex
	mu     sync.Mutex
}

// NewDatabase gives an empty one.
func NewDatabase() *Database {
	return &Database{tables: map[string]table{}, locks: map[string]*sync.Mutex{}}
}

// Session is one connection.
type Session struct {
	DB       *Database
	In       bool // a transaction is open
	Failed   bool
	repeat   bool // repeatable read
	readOnly bool
	created  map[string]bool
	writes   map[string]table
	snap     map[string]table
	held     []string
}

var (
	errAborted  = errors.New("current transaction is aborted")
	errReadOnly = errors.New("cannot execute in a read-only transaction")
	errNoTable  = errors.New("relation does not exist")
	errDup      = errors.New("duplicate key value violates unique constraint")
	errNoTx     = errors.New("LOCK TABLE can only be used in transaction blocks")
)

// Words splits a statement into words in lower case, without quotes and brackets.
func Words(sql string) []string {
	for _, c := range []string{"\"", "(", ")", ",", ";", "=", "\n", "\t"} {
		r := " "
		if c == "\"" {
			r = ""
		}
		if c == "=" {
			r = " = "
		}
		sql = strings.ReplaceAll(sql, c, r)
	}
	return strings.Fields(strings.ToLower(sql))
}

func has(ws []string, seq ...string) bool {
	for i := 0; i+len(seq) <= len(ws); i++ {
		ok := true
		for j, s := range seq {
			if ws[i+j] != s {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// Returns says whether a statement gives rows, and how many parameters it takes.
func Returns(sql string) (rows bool, params int) {
	ws := Words(sql)
	for _, w := range ws {
		if strings.HasPrefix(w, "$") && int(w[1]-'0') > params {
			params = int(w[1] - '0')
		}
	}
	return len(ws) > 0 && ws[0] == "select", params
}

func (s *Session) begin(ws []string) {
	if s.In {
		return // only a warning
	}
	s.In = true
	s.repeat = has(ws, "repeatable", "read") || has(ws, "serializable")
	s.readOnly = has(ws, "read", "only")
	s.created, s.writes, s.snap = map[string]bool{}, map[string]table{}, nil
}

func (s *Session) end(commit bool) {
	s.DB.mu.Lock()
	if commit {
		for n := range s.created {
			if s.DB.tables[n] == nil {
				s.DB.tables[n] = table{}
			}
		}
		for n, w := range s.writes {
			t := copyTable(s.DB.tables[n])
			for k, r := range w {
				if r.gone {
					delete(t, k)
				} else {
					t[k] = r
				}
			}
			s.DB.tables[n] = t
		}
	}
	ls := s.held
	s.held, s.In, s.Failed, s.repeat, s.readOnly = nil, false, false, false, false
	s.created, s.writes, s.snap = nil, nil, nil
	var ms []*sync.Mutex
	for _, n := range ls {
		ms = append(ms, s.DB.locks[n])
	}
	s.DB.mu.Unlock()
	for _, m := range ms {
		m.Unlock()
	}
}

func copyTable(t table) table {
	rv := table{}
	for k, r := range t {
		rv[k] = r
	}
	return rv
}

func (s *Session) table(n string) table {
	s.DB.mu.Lock()
	defer s.DB.mu.Unlock()
	if s.snap != nil {
		return s.snap[n]
	}
	return s.DB.tables[n]
}

func (s *Session) lock(n string) {
	for _, h := range s.held {
		if h == n {
			return
		}
	}
	s.DB.mu.Lock()
	m := s.DB.locks[n]
	if m == nil {
		m = &sync.Mutex{}
		s.DB.locks[n] = m
	}
	s.DB.mu.Unlock()
	m.Lock()
	s.held = append(s.held, n)
}

// Do runs a statement; a row is nil when there is none.
func (s *Session) Do(sql string, args [][]byte) (row []byte, found bool, tag string, err error) {
	ws := Words(sql)
	if len(ws) == 0 {
		return nil, false, "", nil
	}
	switch ws[0] {
	case "begin", "start":
		s.begin(ws)
		return nil, false, "BEGIN", nil
	case "commit", "end":
		tag = "COMMIT"
		if s.Failed {
			tag = "ROLLBACK"
		}
		if s.In {
			s.end(!s.Failed)
		}
		return nil, false, tag, nil
	case "rollback", "abort":
		if s.In {
			s.end(false)
		}
		return nil, false, "ROLLBACK", nil
	}
	if s.Failed {
		return nil, false, "", errAborted
	}
	auto := !s.In
	if auto {
		s.begin(nil)
	}
	if s.repeat && s.snap == nil && ws[0] != "lock" {
		s.DB.mu.Lock()
		s.snap = map[string]table{}
		for n, t := range s.DB.tables {
			s.snap[n] = t
		}
		s.DB.mu.Unlock()
	}
	row, found, tag, err = s.one(ws, args, auto)
	if auto {
		s.end(err == nil)
	} else if err != nil {
		s.Failed = true
	}
	return row, found, tag, err
}

func (s *Session) one(ws []string, args [][]byte, auto bool) (rv []byte, found bool, tag string, err error) {
	exists := func(n string) bool { return s.created[n] || s.table(n) != nil }
	put := func(n string, k []byte, r row) {
		if s.writes == nil {
			return // another user of the connection has ended the transaction
		}
		if s.writes[n] == nil {
			s.writes[n] = table{}
		}
		s.writes[n][string(k)] = r
	}
	get := func(n string, k []byte) (row, bool) {
		if r, ok := s.writes[n][string(k)]; ok {
			return r, !r.gone
		}
		r, ok := s.table(n)[string(k)]
		return r, ok
	}
	switch {
	case has(ws[:min(len(ws), 5)], "create", "table", "if", "not", "exists") && len(ws) > 5:
		if s.readOnly {
			return nil, false, "", errReadOnly
		}
		if !exists(ws[5]) {
			s.created[ws[5]] = true
		}
		return nil, false, "CREATE TABLE", nil
	case ws[0] == "lock" && len(ws) > 1:
		n, rest := ws[1], ws[2:]
		if n == "table" && len(ws) > 2 {
			n, rest = ws[2], ws[3:]
		}
		if auto {
			return nil, false, "", errNoTx
		}
		if !exists(n) {
			return nil, false, "", errNoTable
		}
		switch strings.Join(rest, " ") {
		case "", "in access exclusive mode", "in exclusive mode", "in share row exclusive mode", "in share update exclusive mode":
			s.lock(n)
		case "in access share mode", "in row share mode", "in row exclusive mode", "in share mode": // not in each other's way
		default:
			symrt.Skip("statement: " + strings.Join(ws, " "))
		}
		return nil, false, "LOCK TABLE", nil
	case len(ws) == 8 && has(ws, "select", "value", "from") && has(ws, "where", "key", "=", "$1"):
		if !exists(ws[3]) {
			return nil, false, "", errNoTable
		}
		r, ok := get(ws[3], args[0])
		return r.v, ok, "SELECT", nil
	case len(ws) == 7 && has(ws, "delete", "from") && has(ws, "where", "key", "=", "$1"):
		if s.readOnly {
			return nil, false, "", errReadOnly
		}
		if !exists(ws[2]) {
			return nil, false, "", errNoTable
		}
		if _, ok := get(ws[2], args[0]); ok {
			put(ws[2], args[0], row{gone: true})
		}
		return nil, false, "DELETE 1", nil
	case len(ws) >= 8 && has(ws, "insert", "into") && has(ws, "key", "value", "values", "$1", "$2"):
		if s.readOnly {
			return nil, false, "", errReadOnly
		}
		if !exists(ws[2]) {
			return nil, false, "", errNoTable
		}
		if _, ok := get(ws[2], args[0]); ok {
			switch {
			case has(ws, "on", "conflict", "key", "do", "nothing"), has(ws, "on", "conflict", "do", "nothing"):
				return nil, false, "INSERT 0 0", nil
			case has(ws, "on", "conflict", "key", "do", "update", "set", "value", "=", "$2"),
				has(ws, "on", "conflict", "key", "do", "update", "set", "value", "=", "excluded.value"):
			case has(ws, "on", "conflict"):
				symrt.Skip("statement: " + strings.Join(ws, " "))
			default:
				return nil, false, "", errDup
			}
		}
		put(ws[2], args[0], row{v: args[1]})
		return nil, false, "INSERT 0 1", nil
	}
	symrt.Skip("statement: " + strings.Join(ws, " "))
	return nil, false, "", nil
}
