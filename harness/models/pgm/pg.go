// Package pgm models pgx connections over pgfake.
package pgm

import (
	"context"
	"errors"
	"fmt"

	"gosymharness/models/pgfake"
	"gosymharness/symrt"

	"github.com/jackc/pgx/v5"
	"github.com/jackc/pgx/v5/pgconn"
	"github.com/jackc/pgx/v5/pgxpool"
)

var sessions = map[*pgxpool.Conn]*pgfake.Session{}

// Connect gives a connection to db.
func Connect(db *pgfake.Database) *pgxpool.Conn {
	c := &pgxpool.Conn{}
	sessions[c] = &pgfake.Session{DB: db}
	return c
}

type tx struct {
	pgx.Tx
	s    *pgfake.Session
	over bool
}

func params(args []any) [][]byte {
	var rv [][]byte
	for _, a := range args {
		switch a := a.(type) {
		case []byte:
			rv = append(rv, a)
		case string:
			rv = append(rv, []byte(a))
		case pgx.QueryExecMode:
		default:
			symrt.Skip(fmt.Sprintf("parameter of type %T", a))
		}
	}
	return rv
}

type answer struct {
	v     []byte
	found bool
	err   error
}

func (a answer) Scan(dest ...any) error {
	if a.err != nil {
		return a.err
	}
	if !a.found {
		return pgx.ErrNoRows
	}
	if len(dest) != 1 {
		return errors.New("number of field descriptions must equal number of destinations")
	}
	p, ok := dest[0].(*[]byte)
	if !ok {
		symrt.Skip(fmt.Sprintf("result of type %T", dest[0]))
	}
	*p = append([]byte{}, a.v...)
	return nil
}

func exec(ctx context.Context, s *pgfake.Session, sql string, args []any) (answer, pgconn.CommandTag) {
	if err := ctx.Err(); err != nil {
		return answer{err: err}, pgconn.CommandTag{}
	}
	v, ok, tag, err := s.Do(sql, params(args))
	return answer{v, ok, err}, pgconn.NewCommandTag(tag)
}

// Begin models (*pgxpool.Conn).Begin.
func Begin(c *pgxpool.Conn, ctx context.Context) (pgx.Tx, error) {
	return BeginTx(c, ctx, pgx.TxOptions{})
}

// BeginTx models (*pgxpool.Conn).BeginTx.
func BeginTx(c *pgxpool.Conn, ctx context.Context, o pgx.TxOptions) (pgx.Tx, error) {
	sql := "begin"
	if o.IsoLevel != "" {
		sql += " isolation level " + string(o.IsoLevel)
	}
	if o.AccessMode != "" {
		sql += " " + string(o.AccessMode)
	}
	if o.BeginQuery != "" {
		sql = o.BeginQuery
	}
	a, _ := exec(ctx, sessions[c], sql, nil)
	if a.err != nil {
		return nil, a.err
	}
	return &tx{s: sessions[c]}, nil
}

// Exec models (*pgxpool.Conn).Exec.
func Exec(c *pgxpool.Conn, ctx context.Context, sql string, args ...any) (pgconn.CommandTag, error) {
	a, tag := exec(ctx, sessions[c], sql, args)
	return tag, a.err
}

// QueryRow models (*pgxpool.Conn).QueryRow.
func QueryRow(c *pgxpool.Conn, ctx context.Context, sql string, args ...any) pgx.Row {
	a, _ := exec(ctx, sessions[c], sql, args)
	return a
}

func (t *tx) Commit(ctx context.Context) error {
	if t.over {
		return pgx.ErrTxClosed
	}
	a, tag := exec(ctx, t.s, "commit", nil)
	t.over = true
	if a.err != nil {
		return a.err
	}
	if tag.String() == "ROLLBACK" {
		return pgx.ErrTxCommitRollback
	}
	return nil
}

func (t *tx) Rollback(ctx context.Context) error {
	if t.over {
		return pgx.ErrTxClosed
	}
	t.over = true
	a, _ := exec(ctx, t.s, "rollback", nil)
	return a.err
}

func (t *tx) Exec(ctx context.Context, sql string, args ...any) (pgconn.CommandTag, error) {
	if t.over {
		return pgconn.CommandTag{}, pgx.ErrTxClosed
	}
	a, tag := exec(ctx, t.s, sql, args)
	return tag, a.err
}

func (t *tx) QueryRow(ctx context.Context, sql string, args ...any) pgx.Row {
	if t.over {
		return answer{err: pgx.ErrTxClosed}
	}
	a, _ := exec(ctx, t.s, sql, args)
	return a
}
