package verifkit

import (
	"os"
	"path/filepath"
)

// Run drives one "suggest" command of the given flavour (mysql, postgres or
// hasura) against the simulation. For hasura o.Query is the GraphQL text and
// hs carries the SQL.
func (c *C) Suggest(flavor string, o SuggestOpts, s *Sim, hs *HasuraSim) (error, string) {
	switch flavor {
	case "mysql":
		db, done := s.MySQLDB()
		defer done()
		return protect(func() error { return c.H.MySQL(o, db, s.Schema) })
	case "postgres":
		db, done := s.PostgresDB()
		defer done()
		return protect(func() error { return c.H.Postgres(o, db, s.Schema) })
	}
	url := hs.Use()
	return protect(func() error { return c.H.Hasura(o, url, hasuraSecret) })
}

const hasuraSecret = "s3cr3t-adm1n"

// Out returns a fresh output path of the case.
func (c *C) Out(name string) string {
	p := filepath.Join(c.Dir, name)
	_ = os.Remove(p)
	return p
}

func exists(p string) bool {
	_, err := os.Stat(p)
	return err == nil
}
