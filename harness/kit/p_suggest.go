package verifkit

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strings"
)

// P04 candidate set, P05 no redundant suggestion, P06 determinism, P07 attribution.

func init() {
	register("P04", "suggest", p04)
	register("P05", "suggest", p05)
	register("P06", "suggest", p06)
	register("P07", "suggest", p07)
}

// runSuggest runs the command and returns what the report suggests.
func (c *C) runSuggest(e *exCase) ([]Target, bool) {
	c.describe(e)
	err, pan := c.Suggest(e.flavor, e.o, e.sim, e.hs)
	c.Ctx("returned: %v", err)
	c.showLog(e.sim)
	if pan != "" {
		c.Fail("panic", "the command crashed: %s", pan)
		return nil, false
	}
	if err != nil {
		c.Fail("unexpected-error", "the statement is valid but the command reported: %v", err)
		return nil, false
	}
	rep, perr := ParseReport(e.o.Output)
	if perr != nil {
		c.Fail("report", "%v", perr)
		return nil, false
	}
	got, terr := Targets(rep.Section(e.flavor))
	if terr != nil {
		c.Fail("report", "%v", terr)
		return nil, false
	}
	c.Count("reports", 1)
	c.Count("suggestions", len(got))
	return got, true
}

func q0(s string) string { return `"` + s + `"` }

// p04foreign: a table of another schema named in the statement is not this
// schema's table of the same name.
func p04foreign(c *C) {
	r := c.R
	e := c.newExCase(flavors[(c.Idx/40)%3], 4, false)
	own := e.w.Schema
	mk := func(schema, name string) *Table {
		return &Table{Schema: schema, Name: name, Cols: []Col{{Name: "id", PK: true}, {Name: "email"}, {Name: "qty"}, {Name: "note"}}}
	}
	foreign := "other"
	if e.flavor == "postgres" && own != "public" { // DB_SEARCH_PATH names another schema
		foreign = pick(r, "other", "public")
	}
	if e.base == "postgres" && chance(r, 0.2) { // quoted, another schema than this one
		foreign = strings.ToUpper(own[:1]) + own[1:]
		if foreign == own {
			foreign = strings.ToLower(own)
		}
	}
	e.w.Tables = []*Table{mk(own, "users"), mk(foreign, "users"), mk(own, "tasks")}
	e.sim.Tables = e.w.Tables
	q := func(s string) string {
		if chance(r, 0.3) || (e.base == "postgres" && !plainIdent(s)) {
			if e.flavor == "mysql" {
				return "`" + s + "`"
			}
			return `"` + s + `"`
		}
		return s
	}
	view := e.base == "postgres" && chance(r, 0.4)
	if view { // a view of that name has no indexes
		foreign = own
		e.w.Tables[0].View = true
		for i := range e.w.Tables[0].Cols {
			e.w.Tables[0].Cols[i].PK = false
		}
		e.w.Tables[1].Schema = "other"
		c.Count("views", 1)
	}
	from := q(foreign) + "." + q("users") + pick(r, "", " u", " AS u")
	if view && (own != "public" || chance(r, 0.8)) {
		from = strings.TrimPrefix(strings.TrimPrefix(from, q0(foreign)+"."), foreign+".")
	}
	al := "users"
	if strings.HasSuffix(from, " u") {
		al = "u"
	}
	e.sql = pick(r,
		"SELECT id FROM "+from+" WHERE email = 'a'",
		"SELECT "+al+".qty FROM "+from+" WHERE "+al+".email = 'a' AND "+al+".note > 1",
		"SELECT tasks.id FROM tasks JOIN "+from+" ON tasks.qty = "+al+".qty",
		"SELECT tasks.id FROM "+from+" LEFT JOIN tasks ON tasks.qty = "+al+".qty",
		"SELECT tasks.id FROM tasks, "+from+" WHERE tasks.qty = "+al+".qty",
	)
	if e.flavor != "mysql" && al == "users" && !view {
		e.sql = pick(r, e.sql, "SELECT id FROM "+from+" WHERE "+q(foreign)+".users.email = 'a'", "SELECT id FROM users AS u WHERE u.id = 1 AND "+q(foreign)+".users.email = 'a'")
	}
	if e.hs != nil {
		e.hs.SQL = e.sql
	} else {
		e.o.Query, e.sim.Query = e.sql, e.sql
	}
	c.describe(e)
	err, pan := c.Suggest(e.flavor, e.o, e.sim, e.hs)
	c.Ctx("returned: %v", err)
	if pan != "" {
		c.Fail("panic", "the command crashed: %s", pan)
		return
	}
	c.Eval(1)
	c.Seen("foreign|%v|%s|%v|%s", view, e.flavor, err != nil, e.sql)
	c.Count("foreign_schema", 1)
	if strings.EqualFold(own, foreign) && own != foreign {
		c.Count("foreign_by_case", 1)
	}
	if err != nil {
		return // not supported: said so
	}
	rep, perr := ParseReport(e.o.Output)
	if perr != nil {
		c.Fail("report", "%v", perr)
		return
	}
	got, terr := Targets(rep.Section(e.flavor))
	if terr != nil {
		c.Fail("report", "%v", terr)
		return
	}
	for _, t := range got {
		if t.Table == "users" {
			if view {
				c.Fail("view", "users is a view, suggested is %s", t)
				return
			}
			c.Fail("foreign", "the statement names table users of schema %s, suggested is %s of schema %s", foreign, t, own)
			return
		}
	}
}

// laterJoin is a known finding: inside the ON of a join only the tables joined so
// far can be named, but a name without table is matched to those of later joins too.
func laterJoin(c *C, flavor string, sub bool) {
	e := c.newExCase(flavor, 1, false)
	e.w.Tables = []*Table{
		{Schema: e.w.Schema, Name: "users", Cols: []Col{{Name: "id"}, {Name: "name"}}},
		{Schema: e.w.Schema, Name: "tasks", Cols: []Col{{Name: "user_id"}, {Name: "qty"}}},
		{Schema: e.w.Schema, Name: "notes", Cols: []Col{{Name: "task"}, {Name: "name"}}},
	}
	e.sim.Tables = e.w.Tables
	on := "tasks.user_id = name"
	if sub {
		on = "EXISTS (SELECT 1 FROM tasks t WHERE t.user_id = name)"
	}
	e.sql = "SELECT 1 FROM users JOIN tasks ON " + on + " JOIN notes ON notes.task = tasks.qty"
	if e.hs != nil {
		e.hs.SQL = e.sql
	} else {
		e.o.Query, e.sim.Query = e.sql, e.sql
	}
	u := Uses{}
	u.add("users", "name", true)
	u.add("tasks", "user_id", true)
	u.add("tasks", "qty", true)
	u.add("notes", "task", true)
	e.cands = Candidates(u, e.w.Tables, e.w.Schema, e.w.Flavor, true)
	got, ok := c.runSuggest(e)
	if !ok {
		return
	}
	c.Eval(1)
	d := DiffTargets(got, e.cands)
	if d == "" {
		return
	}
	u.add("notes", "name", true)
	if DiffTargets(got, Candidates(u, e.w.Tables, e.w.Schema, e.w.Flavor, true)) == "" {
		c.Fail("later-join", "name is users.name but was also taken for notes.name, which is joined later")
		return
	}
	c.Fail("attribution", "%s", d)
}

func p04(c *C) {
	if c.Idx == 5 || c.Idx == 6 {
		laterJoin(c, []string{"mysql", "postgres"}[c.Idx-5], false)
		return
	}
	if c.Idx%40 == 7 {
		p04foreign(c)
		return
	}
	width := 4
	if (c.Idx/3)%12 == 0 {
		width = 6
	}
	// what nested queries use counts as well; P07 looks at them in depth
	e := c.newExCase(flavors[c.Idx%3], width, (c.Idx/3)%4 == 1)
	got, ok := c.runSuggest(e)
	if !ok {
		return
	}
	c.Eval(1 + len(e.cands))
	c.Seen("%s|%s|%d", e.flavor, e.g.Features(), len(e.cands))
	if d := DiffTargets(got, e.cands); d != "" {
		c.Fail("candidates", "the suggestions differ from the columns the statement uses: %s", d)
		return
	}
	c.Sample(map[string]any{"flavor": e.flavor, "sql": e.sql, "suggested": firstN(got, 8)})
}

func firstN(ts []Target, n int) []string {
	var out []string
	for i, t := range ts {
		if i >= n {
			out = append(out, fmt.Sprintf("... %d in all", len(ts)))
			break
		}
		out = append(out, t.String())
	}
	return out
}

// p07probe is the statement of the known finding: a derived table's ORDER BY (or
// GROUP BY) column of another table hides an output of the same name.
func p07probe(c *C) {
	flavor := "postgres"
	clause := "ORDER BY"
	if c.Idx == 1 {
		flavor, clause = "hasura", "GROUP BY"
	}
	e := c.newExCase(flavor, 1, false)
	e.w.Tables = []*Table{
		{Schema: e.w.Schema, Name: "users", Cols: []Col{{Name: "id"}, {Name: "name"}}},
		{Schema: e.w.Schema, Name: "tasks", Cols: []Col{{Name: "user_id"}, {Name: "name"}}},
	}
	e.sim.Tables = e.w.Tables
	e.sql = "SELECT d.id FROM (SELECT u.* FROM users u JOIN tasks t ON u.id = t.user_id " + clause + " t.name) AS d WHERE d.name = 'x'"
	if e.hs != nil {
		e.hs.SQL = e.sql
	} else {
		e.o.Query, e.sim.Query = e.sql, e.sql
	}
	u := Uses{}
	u.add("users", "id", true)
	u.add("users", "name", true)
	u.add("tasks", "user_id", true)
	u.add("tasks", "name", false)
	e.cands = Candidates(u, e.w.Tables, e.w.Schema, "postgres", true)
	got, ok := c.runSuggest(e)
	if !ok {
		return
	}
	c.Eval(1)
	if DiffTargets(got, e.cands) == "" {
		return
	}
	w := Uses{}
	w.add("users", "id", true)
	w.add("tasks", "user_id", true)
	w.add("tasks", "name", true)
	if DiffTargets(got, Candidates(w, e.w.Tables, e.w.Schema, "postgres", true)) == "" {
		c.Fail("hidden-output", "d.name is users.name but was taken for tasks.name of the inner %s", clause)
		return
	}
	c.Fail("attribution", "%s", DiffTargets(got, e.cands))
}

// p07probe2 is the other side of it: the ORDER BY (or GROUP BY) column is no
// output of the derived table, yet a name outside is matched to it.
func p07probe2(c *C) {
	flavor := "postgres"
	clause := "ORDER BY"
	if c.Idx == 3 {
		flavor, clause = "hasura", "GROUP BY"
	}
	e := c.newExCase(flavor, 1, false)
	e.w.Tables = []*Table{
		{Schema: e.w.Schema, Name: "users", Cols: []Col{{Name: "id"}, {Name: "name"}}},
		{Schema: e.w.Schema, Name: "tasks", Cols: []Col{{Name: "id"}, {Name: "name"}}},
	}
	e.sim.Tables = e.w.Tables
	e.sql = "SELECT d.id FROM (SELECT id FROM tasks " + clause + " name) AS d JOIN users u ON d.id = u.id WHERE name = 'x'"
	if e.hs != nil {
		e.hs.SQL = e.sql
	} else {
		e.o.Query, e.sim.Query = e.sql, e.sql
	}
	u := Uses{}
	u.add("users", "id", true)
	u.add("users", "name", true)
	u.add("tasks", "id", true)
	u.add("tasks", "name", false)
	e.cands = Candidates(u, e.w.Tables, e.w.Schema, "postgres", true)
	got, ok := c.runSuggest(e)
	if !ok {
		return
	}
	c.Eval(1)
	if DiffTargets(got, e.cands) == "" {
		return
	}
	u.add("tasks", "name", true)
	if DiffTargets(got, Candidates(u, e.w.Tables, e.w.Schema, "postgres", true)) == "" {
		c.Fail("leaked-name", "name is users.name but was also taken for tasks.name of the inner %s", clause)
		return
	}
	c.Fail("attribution", "%s", DiffTargets(got, e.cands))
}

func p07(c *C) {
	if c.Idx == 4 {
		laterJoin(c, "postgres", true)
		return
	}
	if c.Idx < 2 {
		p07probe(c)
		return
	}
	if c.Idx < 4 {
		p07probe2(c)
		return
	}
	e := c.newExCase(pick(c.R, "postgres", "hasura"), 3, true)
	got, ok := c.runSuggest(e)
	if !ok {
		return
	}
	c.Eval(1 + len(e.cands))
	for f := range e.g.Feat {
		switch f {
		case "lateral", "derived", "exists", "in-subquery", "scalar-subquery-cond", "field-subquery", "correlated", "alias", "alias-again", "deep", "far-reference", "unqualified-merged", "merged-star", "using-three", "from-function", "full-join", "many-tables", "long-row", "unqualified-outer", "two-level-correlation":
			c.Count("with_"+strings.ReplaceAll(f, "-", "_"), 1)
		}
	}
	c.Seen("%s|%s", e.flavor, e.g.Features())
	if d := DiffTargets(got, e.cands); d != "" {
		c.Fail("attribution", "columns reached through aliases and subqueries were not attributed to their tables: %s", d)
		return
	}
	c.Sample(map[string]any{"flavor": e.flavor, "sql": e.sql, "suggested": firstN(got, 8)})
}

// p05 concentrates on what must not be suggested.
func p05(c *C) {
	r := c.R
	e := c.newExCase(flavors[c.Idx%3], 3, false)
	// more keys and indexes around the candidates
	base := Candidates(e.g.U, e.w.Tables, e.w.Schema, e.base, false)
	for _, t := range e.w.Tables {
		if t.Schema != e.w.Schema || !chance(r, 0.4) {
			continue
		}
		// make the primary key cover several of the used columns
		var ix []*Index
		for _, i := range t.Indexes {
			if !i.Primary {
				ix = append(ix, i)
			}
		}
		var pk []string
		for k := range t.Cols {
			_, used := e.g.U[t.Name][t.Cols[k].Name]
			t.Cols[k].PK = chance(r, 0.2) || (used && chance(r, 0.5))
			if t.Cols[k].PK {
				pk = append(pk, t.Cols[k].Name)
			}
		}
		if len(pk) > 1 && chance(r, 0.4) { // a key need not follow the column order
			pk[0], pk[len(pk)-1] = pk[len(pk)-1], pk[0]
		}
		t.Indexes = ix
		if len(pk) > 0 {
			t.Indexes = append([]*Index{{Name: pkName(e.base, t.Name), Cols: pk, Primary: true}}, ix...)
			c.Count("composite_keys", 1)
		}
	}
	e.w.AddIndexes(base)
	e.w.AddIndexes(base)
	e.cands = Candidates(e.g.U, e.w.Tables, e.w.Schema, e.base, true)
	e.sim.Tables = e.w.Tables
	got, ok := c.runSuggest(e)
	if !ok {
		return
	}
	seen := map[string]bool{}
	for _, t := range got {
		c.Eval(3)
		if seen[t.String()] {
			c.Fail("duplicate", "%s is suggested twice", t)
		}
		seen[t.String()] = true
		cols := map[string]bool{}
		for _, x := range t.Cols {
			if cols[x] {
				c.Fail("repeated-column", "%s names a column twice", t)
			}
			cols[x] = true
		}
		tab := e.sim.table(t.Table)
		if tab == nil {
			c.Fail("unknown-table", "%s is on a table that does not exist", t)
			continue
		}
		all := true
		for _, x := range t.Cols {
			pk := false
			for _, k := range tab.Cols {
				if (k.Name == x || e.base == "mysql" && strings.EqualFold(k.Name, x)) && k.PK {
					pk = true
				}
			}
			all = all && pk
		}
		if all {
			c.Fail("key-only", "%s only repeats primary key columns", t)
		}
		for _, i := range tab.Indexes {
			if len(i.Cols) != len(t.Cols) {
				continue
			}
			same := true
			for k := range i.Cols {
				if i.Cols[k] != t.Cols[k] && !(e.base == "mysql" && strings.EqualFold(i.Cols[k], t.Cols[k])) {
					same = false
				}
			}
			if same {
				c.Fail("existing", "%s already exists as %s", t, i.Name)
			}
		}
	}
	c.Count("excluded", len(base)-len(e.cands))
	for _, t := range e.cands {
		c.Eval(1)
		if !seen[t.String()] {
			c.Fail("over-filtered", "%s was left out although no such index exists", t)
			break
		}
	}
	c.Seen("%s|%s|%d|%d", e.flavor, e.g.Features(), len(base), len(e.cands))
	c.Sample(map[string]any{"flavor": e.flavor, "sql": e.sql, "excluded": len(base) - len(e.cands), "suggested": firstN(got, 6)})
}

// p06: the same input gives the same report, whatever order maps and
// unordered catalogue answers come in.
func p06(c *C) {
	r := c.R
	width := 3
	if (c.Idx/3)%5 == 0 { // many suggestions that begin alike
		width = 6
	}
	e := c.newExCase(flavors[c.Idx%3], width, chance(r, 0.5))
	n := 3
	if c.Thorough() {
		n = 6
	}
	var first []byte
	for k := 0; k < n; k++ {
		e.sim.R = rand.New(rand.NewSource(r.Int63()))
		got, ok := c.runSuggest(e)
		if !ok {
			return
		}
		for i := 1; i < len(got); i++ {
			c.Eval(1)
			if !lessTarget(got[i-1], got[i]) {
				c.Fail("order", "suggestions are out of order: %s before %s", got[i-1], got[i])
				return
			}
		}
		b, _ := os.ReadFile(e.o.Output)
		c.Eval(1)
		c.Count("repeat_runs", 1)
		if k == 0 {
			first = b
		} else if !bytes.Equal(b, first) {
			c.Fail("differs", "run %d of the same command produced a different report", k+1)
			return
		}
	}
	c.Seen("%s|%s|%d", e.flavor, e.g.Features(), len(e.cands))
	c.Sample(map[string]any{"flavor": e.flavor, "sql": e.sql, "runs": n, "bytes": len(first)})
}
