package verifkit

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"

	"github.com/jmoiron/sqlx"
	"github.com/mrasu/GravityR/infra/mysql"
	"github.com/mrasu/GravityR/infra/postgres"
)

// A database/sql driver in front of Sim: every statement that the tool sends
// through database/sql is recorded there.

type connector struct{ s *Sim }

func (c connector) Connect(context.Context) (driver.Conn, error) { return &fconn{c.s}, nil }
func (c connector) Driver() driver.Driver                        { return fdriver{} }

type fdriver struct{}

func (fdriver) Open(string) (driver.Conn, error) { return nil, errors.New("use the connector") }

type fconn struct{ s *Sim }

func (c *fconn) Prepare(q string) (driver.Stmt, error) { return &fstmt{c, q}, nil }
func (c *fconn) Close() error                          { return nil }
func (c *fconn) Begin() (driver.Tx, error) {
	_, err := c.s.Handle("tx", "BEGIN", nil, func(e *Event) { e.Kind = "begin" })
	return ftx{c}, err
}

func (c *fconn) QueryContext(_ context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	rows, err := c.s.Handle("query", q, toArgs(args), nil)
	if err != nil {
		return nil, err
	}
	return &frows{r: rows}, nil
}

func (c *fconn) ExecContext(_ context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	_, err := c.s.Handle("exec", q, toArgs(args), nil)
	if err != nil {
		return nil, err
	}
	return driver.RowsAffected(0), nil
}

type ftx struct{ c *fconn }

func (t ftx) Commit() error {
	_, err := t.c.s.Handle("tx", "COMMIT", nil, func(e *Event) { e.Kind = "commit" })
	return err
}
func (t ftx) Rollback() error {
	_, err := t.c.s.Handle("tx", "ROLLBACK", nil, func(e *Event) { e.Kind = "rollback" })
	return err
}

type fstmt struct {
	c *fconn
	q string
}

func (s *fstmt) Close() error  { return nil }
func (s *fstmt) NumInput() int { return -1 }
func (s *fstmt) Exec(args []driver.Value) (driver.Result, error) {
	_, err := s.c.s.Handle("exec", s.q, valArgs(args), nil)
	if err != nil {
		return nil, err
	}
	return driver.RowsAffected(0), nil
}
func (s *fstmt) Query(args []driver.Value) (driver.Rows, error) {
	rows, err := s.c.s.Handle("query", s.q, valArgs(args), nil)
	if err != nil {
		return nil, err
	}
	return &frows{r: rows}, nil
}

func toArgs(a []driver.NamedValue) []string {
	var out []string
	for _, v := range a {
		out = append(out, fmt.Sprint(v.Value))
	}
	return out
}

func valArgs(a []driver.Value) []string {
	var out []string
	for _, v := range a {
		out = append(out, fmt.Sprint(v))
	}
	return out
}

type frows struct {
	r *Rows
	i int
}

func (r *frows) Columns() []string { return r.r.Cols }
func (r *frows) Close() error      { return nil }
func (r *frows) Next(dest []driver.Value) error {
	if r.i >= len(r.r.Data) {
		return io.EOF
	}
	for k, v := range r.r.Data[r.i] {
		switch x := v.(type) {
		case string:
			dest[k] = []byte(x)
		default:
			dest[k] = x
		}
	}
	r.i++
	return nil
}

// MySQLDB opens the repository's MySQL handle on the simulation.
func (s *Sim) MySQLDB() (*mysql.DB, func()) {
	db := sql.OpenDB(connector{s})
	return mysql.NewDB(sqlx.NewDb(db, "mysql")), func() { db.Close() }
}

// PostgresDB opens the repository's PostgreSQL handle on the simulation.
func (s *Sim) PostgresDB() (*postgres.DB, func()) {
	db := sql.OpenDB(connector{s})
	return postgres.NewDB(sqlx.NewDb(db, "postgres")), func() { db.Close() }
}
