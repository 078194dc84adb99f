package v

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"sync/atomic"
)

// Plan is what a database answers to one query: a fault schedule.
// Natively it is served by a driver behind the real database/sql; the engine
// replaces the methods of sql.Rows and sql.Row by the model below.
type Plan struct {
	QueryErr error // the query fails
	Cols     []string
	Rows     [][]any // driver values
	FailAt   int     // the iteration fails before row FailAt (-1: never)
	IterErr  error
	CloseErr error

	// what happened
	Opened, Closed int
	Queries        []string
	Args           [][]any
}

// DB is a database that answers with the plan.
type DB struct{ P *Plan }

func (d DB) Exec(query string, args ...any) (sql.Result, error) {
	panic("unexpected Exec")
}
func (d DB) Prepare(query string) (*sql.Stmt, error) {
	panic("unexpected Prepare")
}

func (d DB) Query(query string, args ...any) (*sql.Rows, error) {
	d.P.Queries = append(d.P.Queries, query)
	d.P.Args = append(d.P.Args, args)
	if d.P.QueryErr != nil {
		return nil, d.P.QueryErr
	}
	d.P.Opened++
	if Symbolic() {
		r := new(sql.Rows)
		rowsModels[r] = &rowsModel{p: d.P, at: -1}
		return r, nil
	}
	return d.open().Query("q")
}

func (d DB) QueryRow(query string, args ...any) *sql.Row {
	d.P.Queries = append(d.P.Queries, query)
	d.P.Args = append(d.P.Args, args)
	if d.P.QueryErr == nil {
		d.P.Opened++
	}
	if Symbolic() {
		r := new(sql.Row)
		rowModels[r] = &rowsModel{p: d.P, at: -1}
		return r
	}
	return d.open().QueryRow("q")
}

// ---- model of sql.Rows and sql.Row, executed by the engine ----

type rowsModel struct {
	p      *Plan
	at     int
	err    error // io.EOF at the end
	closed bool
}

var (
	rowsModels = map[*sql.Rows]*rowsModel{}
	rowModels  = map[*sql.Row]*rowsModel{}
)

func (m *rowsModel) next() bool {
	if m.closed {
		return false
	}
	m.at++
	if m.p.FailAt == m.at {
		m.err = m.p.IterErr
		m.close()
		return false
	}
	if m.at >= len(m.p.Rows) {
		m.err = io.EOF
		m.close()
		return false
	}
	return true
}

func (m *rowsModel) close() error {
	if m.closed {
		return nil
	}
	m.closed = true
	m.p.Closed++
	if m.lasterr() == nil && m.p.CloseErr != nil {
		m.err = m.p.CloseErr
	}
	return m.p.CloseErr
}

func (m *rowsModel) lasterr() error {
	if m.err == io.EOF {
		return nil
	}
	return m.err
}

func (m *rowsModel) scan(dest []any) error {
	if m.lasterr() != nil {
		return m.err
	}
	if m.closed {
		return errors.New("sql: Rows are closed")
	}
	if m.at < 0 {
		return errors.New("sql: Scan called without calling Next")
	}
	if len(dest) != len(m.p.Cols) {
		return fmt.Errorf("sql: expected %d destination arguments in Scan, not %d", len(m.p.Cols), len(dest))
	}
	for i, x := range m.p.Rows[m.at] {
		if err := ConvertAssign(dest[i], x); err != nil {
			return fmt.Errorf(`sql: Scan error on column index %d, name %q: %w`, i, m.p.Cols[i], err)
		}
	}
	return nil
}

// ConvertAssign is the one of database/sql; the engine executes that.
func ConvertAssign(dest, src any) error { panic("only in the engine") }

func ModelRowsNext(r *sql.Rows) bool               { return rowsModels[r].next() }
func ModelRowsScan(r *sql.Rows, dest ...any) error { return rowsModels[r].scan(dest) }
func ModelRowsClose(r *sql.Rows) error             { return rowsModels[r].close() }
func ModelRowsErr(r *sql.Rows) error               { return rowsModels[r].lasterr() }
func ModelRowsNextResultSet(r *sql.Rows) bool {
	rowsModels[r].close()
	return false
}
func ModelRowsColumns(r *sql.Rows) ([]string, error) {
	m := rowsModels[r]
	if m.closed {
		if m.lasterr() != nil {
			return nil, m.err
		}
		return nil, errors.New("sql: Rows are closed")
	}
	return append([]string{}, m.p.Cols...), nil
}
func ModelRowErr(r *sql.Row) error { return rowModels[r].p.QueryErr }
func ModelRowScan(r *sql.Row, dest ...any) error {
	m := rowModels[r]
	if m.p.QueryErr != nil {
		return m.p.QueryErr
	}
	defer m.close()
	if !m.next() {
		if m.lasterr() != nil {
			return m.err
		}
		return sql.ErrNoRows
	}
	if err := m.scan(dest); err != nil {
		return err
	}
	return m.close()
}

// ---- driver behind the real database/sql, used natively ----

var dbCount int64

func (d DB) open() *sql.DB {
	atomic.AddInt64(&dbCount, 1)
	return sql.OpenDB(connector{d.P})
}

type connector struct{ p *Plan }

func (c connector) Connect(context.Context) (driver.Conn, error) { return conn{c.p}, nil }
func (c connector) Driver() driver.Driver                        { return nil }

type conn struct{ p *Plan }

func (c conn) Prepare(query string) (driver.Stmt, error) { return stmt{c.p}, nil }
func (c conn) Close() error                              { return nil }
func (c conn) Begin() (driver.Tx, error)                 { return nil, errors.New("no") }

type stmt struct{ p *Plan }

func (s stmt) Close() error                                    { return nil }
func (s stmt) NumInput() int                                   { return -1 }
func (s stmt) Exec(args []driver.Value) (driver.Result, error) { return nil, errors.New("no") }
func (s stmt) Query(args []driver.Value) (driver.Rows, error) {
	if s.p.QueryErr != nil {
		return nil, s.p.QueryErr
	}
	return &drows{p: s.p, at: -1}, nil
}

type drows struct {
	p  *Plan
	at int
}

func (r *drows) Columns() []string { return append([]string{}, r.p.Cols...) }
func (r *drows) Close() error {
	r.p.Closed++
	return r.p.CloseErr
}
func (r *drows) Next(dest []driver.Value) error {
	r.at++
	if r.p.FailAt == r.at {
		return r.p.IterErr
	}
	if r.at >= len(r.p.Rows) {
		return io.EOF
	}
	for i, x := range r.p.Rows[r.at] {
		dest[i] = x
	}
	return nil
}
