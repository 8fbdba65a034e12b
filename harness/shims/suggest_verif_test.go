package suggest

import (
	"testing"

	"github.com/mrasu/GravityR/infra/mysql"
	"github.com/mrasu/GravityR/infra/postgres"
	"github.com/mrasu/GravityR/verifkit"
)

func TestVerif(t *testing.T) {
	verifkit.Main(t, &verifkit.Host{
		Name: "suggest",
		MySQL: func(o verifkit.SuggestOpts, db *mysql.DB, dbName string) error {
			vfR := mysqlRunner{query: o.Query, runsExamination: o.Examine, indexTargets: o.Targets}
			return vfR.suggest(o.Output, db, dbName)
		},
		Postgres: func(o verifkit.SuggestOpts, db *postgres.DB, schema string) error {
			vfR := postgresRunner{query: o.Query, runsExamination: o.Examine, indexTargets: o.Targets}
			return vfR.suggest(o.Output, db, schema)
		},
		Hasura: verifkit.HasuraThroughCommand(HasuraCmd),
	})
}
