package pgfake

import (
	"context"
	"net"
	"os"
	"path/filepath"

	"github.com/jackc/pgx/v5/pgproto3"
	"github.com/jackc/pgx/v5/pgxpool"
)

const bytea = 17

func (s *Session) status() byte {
	switch {
	case s.Failed:
		return 'E'
	case s.In:
		return 'T'
	}
	return 'I'
}

func describe(b *pgproto3.Backend, sql string) {
	if rows, _ := Returns(sql); rows {
		b.Send(&pgproto3.RowDescription{Fields: []pgproto3.FieldDescription{{Name: []byte("value"), DataTypeOID: bytea, DataTypeSize: -1, TypeModifier: -1, Format: 1}}})
	} else {
		b.Send(&pgproto3.NoData{})
	}
}

// serve speaks the protocol of PostgreSQL to one client.
func (s *Session) serve(c net.Conn) {
	defer c.Close()
	defer func() {
		if s.In {
			s.end(false)
		}
	}()
	b := pgproto3.NewBackend(c, c)
	for {
		m, err := b.ReceiveStartupMessage()
		if err != nil {
			return
		}
		if _, ok := m.(*pgproto3.StartupMessage); ok {
			break
		}
		c.Write([]byte("N"))
	}
	b.Send(&pgproto3.AuthenticationOk{})
	b.Send(&pgproto3.ParameterStatus{Name: "standard_conforming_strings", Value: "on"})
	b.Send(&pgproto3.ParameterStatus{Name: "client_encoding", Value: "UTF8"})
	b.Send(&pgproto3.BackendKeyData{ProcessID: 1, SecretKey: 1})
	b.Send(&pgproto3.ReadyForQuery{TxStatus: 'I'})
	b.Flush()
	prepared, portals := map[string]string{}, map[string]string{}
	args := map[string][][]byte{}
	failed := false
	do := func(sql string, a [][]byte) {
		row, found, tag, err := s.Do(sql, a)
		if err != nil {
			code := "XX000"
			if err == errAborted {
				code = "25P02"
			}
			b.Send(&pgproto3.ErrorResponse{Severity: "ERROR", Code: code, Message: err.Error()})
			failed = true
			return
		}
		if rows, _ := Returns(sql); rows {
			tag = "SELECT 0"
			if found {
				tag = "SELECT 1"
				if row == nil {
					row = []byte{}
				}
				b.Send(&pgproto3.DataRow{Values: [][]byte{row}})
			}
		}
		b.Send(&pgproto3.CommandComplete{CommandTag: []byte(tag)})
	}
	for {
		m, err := b.Receive()
		if err != nil {
			return
		}
		if _, ok := m.(*pgproto3.Sync); failed && !ok {
			continue
		}
		switch m := m.(type) {
		case *pgproto3.Query:
			if rows, _ := Returns(m.String); rows {
				describe(b, m.String)
			}
			do(m.String, nil)
			failed = false
			b.Send(&pgproto3.ReadyForQuery{TxStatus: s.status()})
			b.Flush()
		case *pgproto3.Parse:
			prepared[m.Name] = m.Query
			b.Send(&pgproto3.ParseComplete{})
		case *pgproto3.Describe:
			if m.ObjectType == 'S' {
				_, n := Returns(prepared[m.Name])
				oids := make([]uint32, n)
				for i := range oids {
					oids[i] = bytea
				}
				b.Send(&pgproto3.ParameterDescription{ParameterOIDs: oids})
				describe(b, prepared[m.Name])
			} else {
				describe(b, portals[m.Name])
			}
		case *pgproto3.Bind:
			portals[m.DestinationPortal] = prepared[m.PreparedStatement]
			var ps [][]byte
			for _, p := range m.Parameters {
				ps = append(ps, append([]byte{}, p...))
			}
			args[m.DestinationPortal] = ps
			b.Send(&pgproto3.BindComplete{})
		case *pgproto3.Execute:
			do(portals[m.Portal], args[m.Portal])
		case *pgproto3.Close:
			b.Send(&pgproto3.CloseComplete{})
		case *pgproto3.Sync:
			failed = false
			b.Send(&pgproto3.ReadyForQuery{TxStatus: s.status()})
			b.Flush()
		case *pgproto3.Flush:
			b.Flush()
		case *pgproto3.Terminate:
			return
		}
	}
}

// Connect gives a real client connection to a server for db.
func Connect(db *Database) *pgxpool.Conn {
	dir, err := os.MkdirTemp("", "pg")
	if err != nil {
		panic(err)
	}
	l, err := net.Listen("unix", filepath.Join(dir, ".s.PGSQL.5432"))
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go (&Session{DB: db}).serve(c)
		}
	}()
	p, err := pgxpool.New(context.Background(), "host="+dir+" port=5432 user=u database=d sslmode=disable")
	if err != nil {
		panic(err)
	}
	c, err := p.Acquire(context.Background())
	if err != nil {
		panic(err)
	}
	return c
}
