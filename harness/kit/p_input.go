package verifkit

import (
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"os"
	"runtime/debug"
	"strings"
)

// P19 only a single SELECT is run, P20 hostile statements and answers.

func init() {
	register("P19", "suggest", p19)
	register("P20", "suggest", p20)
}

func realTables(w *World) []*Table {
	var out []*Table
	for _, t := range w.Tables {
		if t.Schema == w.Schema {
			out = append(out, t)
		}
	}
	return out
}

// writing returns a statement which is not a plain SELECT.
func writing(r *rand.Rand, e *exCase) (string, string) {
	ts := realTables(e.w)
	t1, t2 := pickS(r, ts), pickS(r, ts)
	q := func(s string) string { return e.g.Q(s) }
	a, b := q(t1.Name), q(t2.Name)
	ca, cb := q(pickS(r, t1.Cols).Name), q(pickS(r, t2.Cols).Name)
	type st struct{ k, s string }
	common := []st{
		{"delete", "DELETE FROM " + a + " WHERE " + ca + " = 'x'"},
		{"delete-all", "DELETE FROM " + a},
		{"update", "UPDATE " + a + " SET " + ca + " = 'x'"},
		{"insert", "INSERT INTO " + a + " (" + ca + ") VALUES ('x')"},
		{"insert-select", "INSERT INTO " + a + " (" + ca + ") " + e.sql},
		{"insert-select2", "INSERT INTO " + a + " (" + ca + ") SELECT " + cb + " FROM " + b},
		{"truncate", "TRUNCATE TABLE " + a},
		{"drop", "DROP TABLE " + a},
		{"alter", "ALTER TABLE " + a + " ADD COLUMN zz INT"},
		{"create-as", "CREATE TABLE zz AS SELECT " + ca + " FROM " + a},
		{"create-view", "CREATE VIEW zz AS " + e.sql},
		{"with-delete", "WITH x AS (SELECT " + ca + " FROM " + a + ") DELETE FROM " + b + " WHERE " + cb + " IN (SELECT " + ca + " FROM x)"},
		{"set", "SET search_path = 'zz'"},
		{"explain-analyze", "EXPLAIN ANALYZE DELETE FROM " + a},
		{"grant", "GRANT ALL ON " + a + " TO zz"},
		{"begin", "BEGIN"},
		{"prepare", "PREPARE zz AS DELETE FROM " + a},
	}
	my := []st{
		{"multi-delete", "DELETE x FROM " + a + " x JOIN " + b + " y ON x." + ca + " = y." + cb},
		{"multi-update", "UPDATE " + a + " x JOIN " + b + " y ON x." + ca + " = y." + cb + " SET x." + ca + " = 'z'"},
		{"replace", "REPLACE INTO " + a + " (" + ca + ") SELECT " + cb + " FROM " + b},
		{"call", "CALL wipe()"},
		{"lock", "LOCK TABLES " + a + " WRITE"},
		{"do", "DO SLEEP(1)"},
		{"versioned", "/*!50000 DELETE FROM " + a + " */"},
		{"with-update", "WITH x AS (SELECT 1) UPDATE " + a + " SET " + ca + " = 'x'"},
		{"create-index", "CREATE INDEX zz ON " + a + " (" + ca + ")"},
	}
	pg := []st{
		{"cte-delete", "WITH x AS (DELETE FROM " + a + " RETURNING " + ca + ") SELECT " + ca + " FROM x"},
		{"cte-update", "WITH x AS (UPDATE " + a + " SET " + ca + " = 'q' RETURNING " + ca + ") SELECT * FROM x"},
		{"cte-insert", "WITH x AS (INSERT INTO " + a + " (" + ca + ") VALUES ('q') RETURNING " + ca + ") " + e.sql},
		{"nested-cte-delete", "SELECT " + ca + " FROM " + a + " WHERE " + ca + " IN (WITH x AS (DELETE FROM " + b + " RETURNING " + cb + ") SELECT " + cb + " FROM x)"},
		{"derived-cte-delete", "SELECT 1 FROM (WITH x AS (DELETE FROM " + b + " RETURNING " + cb + ") SELECT " + cb + " FROM x) d"},
		{"select-into", "SELECT " + ca + " INTO zz FROM " + a},
		{"update-from", "UPDATE " + a + " SET " + ca + " = 'x' FROM " + b},
		{"delete-using", "DELETE FROM " + a + " USING " + b},
		{"copy", "COPY " + a + " TO '/nowhere/zz'"},
		{"do", "DO $$ BEGIN DELETE FROM " + a + "; END $$"},
		{"vacuum", "VACUUM FULL " + a},
		{"delete-returning", "DELETE FROM " + a + " RETURNING " + ca},
		{"create-index", "CREATE INDEX zz ON " + a + " (" + ca + ")"},
	}
	if e.base == "mysql" {
		common = append(common, my...)
	} else {
		common = append(common, pg...)
	}
	x := pickS(r, common)
	return x.s, x.k
}

func mixCase(r *rand.Rand, s string) string {
	// only the first word, the rest may hold names and literals
	i := strings.IndexByte(s, ' ')
	if i < 0 {
		i = len(s)
	}
	b := []byte(s)
	for k := 0; k < i; k++ {
		if chance(r, 0.5) {
			b[k] = strings.ToLower(string(b[k]))[0]
		}
	}
	return string(b)
}

var leads = []string{"", "", "", " ", "\n\t", "/* SELECT 1 */ ", "-- SELECT 1\n"}
var seps = []string{";", " ; ", ";\n", "; /* x */ ", "; -- x\n", ";;"}

// p19: whatever the text, only one SELECT reaches the database.
func p19(c *C) {
	r := c.R
	flavor := flavors[c.Idx%3]
	e := c.newExCase(flavor, 3, chance(r, 0.4))
	e.o.Examine = chance(r, 0.6)
	if e.o.Examine && chance(r, 0.5) {
		ts := c.randomTargets(e, 1+r.Intn(2))
		e.o.Targets = texts(ts)
	}
	var class string
	refuse := chance(r, 0.6)
	if flavor == "hasura" {
		p19hasura(c, e, refuse)
		return
	}
	if refuse {
		w, k := writing(r, e)
		w = mixCase(r, w)
		switch r.Intn(8) {
		case 0, 1, 2, 3:
			class, e.sql = k, pickS(r, leads)+w
			if chance(r, 0.3) {
				e.sql += ";"
			}
		case 4, 5:
			class, e.sql = "select;"+k, pickS(r, leads)+e.sql+pickS(r, seps)+w
		case 6:
			if chance(r, 0.5) {
				class, e.sql = k+";select", w+pickS(r, seps)+e.sql
			} else {
				class, e.sql = "select;select", e.sql+pickS(r, seps)+e.sql
			}
		case 7:
			class = "nothing"
			e.sql = pick(r, "", " ", "\n", ";", ";;", " ; ", "-- SELECT 1", "/* SELECT 1 */", "-- a\n/* b */;")
		}
	} else {
		// a single SELECT in unusual clothes
		class = "plain"
		ts := realTables(e.w)
		t := pickS(r, ts)
		switch r.Intn(6) {
		case 0:
			class, e.sql = "trailing", e.sql+pick(r, ";", " ;", ";\n", "\n")
		case 1:
			class, e.sql = "leading", pick(r, "\n ", "/* a; DELETE FROM t; */ ", "-- ; DROP TABLE t;\n")+e.sql
		case 2:
			class, e.sql = "comment-after", e.sql+pick(r, " /* ; DELETE FROM t; */", " -- ; DELETE FROM t", "; -- the end")
		case 3:
			// the text of a write statement in a literal
			col := e.g.Q(t.Cols[0].Name)
			class, e.sql = "literal", "SELECT "+col+" FROM "+e.g.Q(t.Name)+" WHERE "+col+" = '; DELETE FROM "+t.Name+"; --'"
		case 4:
			class, e.sql = "lower", mixCase(r, e.sql)
		}
	}
	e.o.Query, e.sim.Query = e.sql, e.sql
	before := catalogue(e.w)
	c.Ctx("class: %s refuse: %v", class, refuse)
	c.describe(e)
	err, pan := c.Suggest(flavor, e.o, e.sim, nil)
	c.Ctx("returned: %v", err)
	c.showLog(e.sim)
	if pan != "" {
		c.Fail("panic", "the command crashed: %s", pan)
		return
	}
	c.Seen("%s|%s|%v|%s", flavor, class, e.o.Examine, kinds(e.sim.Log()))
	if refuse {
		c.Count("refused", 1)
		c.Eval(2)
		if err == nil {
			c.Fail("accepted", "a text which is not a single SELECT was accepted (%s)", class)
		}
		for _, ev := range e.sim.Log() {
			c.Eval(1)
			if ev.Kind != "columns" && ev.Kind != "indexes" {
				c.Fail("reached", "a text which is not a single SELECT (%s) reached the database: %s", class, ev)
				return
			}
		}
		if exists(e.o.Output) {
			c.Fail("report", "a report was written for a refused text")
		}
		return
	}
	c.Count("accepted", 1)
	if err != nil {
		c.Fail("refused-select", "a single SELECT (%s) was refused: %v", class, err)
		return
	}
	bare := func(s string) string { return strings.Trim(s, " \t\n;") }
	nExplain := 0
	for _, ev := range e.sim.Log() {
		c.Eval(1)
		switch ev.Kind {
		case "columns", "indexes", "create", "drop":
		case "explain":
			nExplain++
			if !strings.HasSuffix(ev.SQL, e.sql) {
				c.Fail("altered", "the analysed text is not the one given: %s", ev.SQL)
				return
			}
			if strings.Contains(strings.TrimSuffix(ev.SQL, e.sql), ";") {
				c.Fail("altered", "more than the given text was analysed: %s", ev.SQL)
				return
			}
		case "exec":
		default:
			if bare(ev.SQL) != bare(e.sql) {
				c.Fail("foreign", "a statement nobody asked for reached the database: %s", ev)
				return
			}
		}
	}
	c.Eval(2)
	if nExplain != 1 {
		c.Fail("explain", "the statement was analysed %d times", nExplain)
	}
	if catalogue(e.w) != before {
		c.Fail("schema", "the schema is not what it was before")
	}
}

// p19hasura: Hasura refuses to explain anything but one query; what it refuses
// must not be run.
func p19hasura(c *C, e *exCase, refuse bool) {
	r := c.R
	class := "query"
	if refuse {
		switch r.Intn(3) {
		case 0, 1:
			class = "mutation"
			e.o.Query = pick(r, "mutation M { delete_users(where: {}) { affected_rows } }", "mutation { update_users(where: {}, _set: {name: \"x\"}) { affected_rows } }",
				"query A { users { id } } mutation B { delete_users(where: {}) { affected_rows } }", "subscription S { users { id } }")
			code := pick(r, 200, 400)
			e.hs.Reply = func(ev *Event, w http.ResponseWriter) bool {
				if ev.Kind != "explain" {
					return false
				}
				w.Header().Set("Content-Type", "application/json")
				if code == 400 {
					w.WriteHeader(400)
				}
				_, _ = w.Write([]byte(`{"path":"$","error":"only queries can be explained","code":"invalid-params"}`))
				return true
			}
		case 2:
			class = "several"
			e.hs.NPlans = pick(r, -1, 2, 3)
		}
	}
	e.sim.Query = e.o.Query
	c.Ctx("class: %s", class)
	c.describe(e)
	err, pan := c.Suggest("hasura", e.o, e.sim, e.hs)
	c.Ctx("returned: %v", err)
	c.showLog(e.sim)
	if pan != "" {
		c.Fail("panic", "the command crashed: %s", pan)
		return
	}
	c.Seen("hasura|%s|%v|%s", class, e.o.Examine, kinds(e.sim.Log()))
	if !refuse {
		c.Count("accepted", 1)
		c.Eval(1)
		if err != nil {
			c.Fail("refused-select", "a query was refused: %v", err)
		}
		return
	}
	c.Count("refused", 1)
	c.Eval(2)
	if err == nil {
		c.Fail("accepted", "a text Hasura does not explain as one query was accepted (%s)", class)
	}
	for _, ev := range e.sim.Log() {
		c.Eval(1)
		if ev.Kind != "explain" && ev.Kind != "columns" && ev.Kind != "indexes" {
			c.Fail("reached", "a text Hasura does not explain as one query (%s) was run: %s", class, ev)
			return
		}
	}
	if exists(e.o.Output) {
		c.Fail("report", "a report was written for a refused text")
	}
}

// ---- P20 --------------------------------------------------------------------

var fragments = []string{"UNION", "UNION ALL SELECT 1", "EXCEPT SELECT 2", "INTERSECT", "VALUES (1)", "VALUES ROW(1,2)", "WITH x AS (SELECT 1)", "WITH RECURSIVE x AS (SELECT 1 UNION SELECT 2)", "NATURAL JOIN", "CROSS JOIN", "LEFT JOIN",
	"OVER (PARTITION BY a ORDER BY b ROWS 1 PRECEDING)", "OVER (ROWS BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW)", "OVER w", "WINDOW w AS (ORDER BY a)", "LATERAL", "USING (id)", "USING ()", "ON TRUE", "(", ")", "((", "))", ",", "*", ".", "..", "t.*", "*.*",
	"AS", "AS x(a, b)", "IN", "NOT", "EXISTS (SELECT)", "CASE WHEN 1 THEN 2 END", "CASE END", "::text", "::", "[1]", "ARRAY[1,2]", "ARRAY(SELECT 1)", "$1", "?", "@x", "@@global.x", ":=", "NULL", "DEFAULT", "DISTINCT ON (a)", "FOR UPDATE", "FOR UPDATE SKIP LOCKED", "INTO OUTFILE '/nowhere/x'", "LIMIT ALL", "LIMIT 1,2", "OFFSET 3", "FETCH FIRST ROW ONLY",
	"GROUP BY ROLLUP(a)", "GROUP BY GROUPING SETS ((a),())", "WITH ROLLUP", "HAVING", "ORDER BY 1", "ORDER BY NULL", "INTERVAL '1 day'", "INTERVAL 1 DAY", "EXTRACT(year FROM a)", "CAST(a AS int)", "COLLATE \"C\"", "MATCH(a) AGAINST ('x')", "a->'$.b'", "a#>>'{b}'", "JSON_TABLE('[]','$[*]' COLUMNS(a INT PATH '$')) j", "generate_series(1,2) g", "ROWS FROM (a(), b())", "ONLY", "TABLESAMPLE SYSTEM (1)", "PARTITION (p0)", "STRAIGHT_JOIN", "USE INDEX (a)", "SOUNDS LIKE 'x'", "REGEXP 'x'", "RLIKE", "SIMILAR TO 'x'", "IS DISTINCT FROM NULL", "(a).b", "(a).*", "ROW(1,2)", "GROUPING(a)", "COUNT(DISTINCT a)", "FILTER (WHERE a)", "WITHIN GROUP (ORDER BY a)", "AT TIME ZONE 'utc'", "[DELETE FROM t RETURNING 1]", "[1 AS t]", "TABLE users", "\x00", "\xff\xfe", "'", "\"", "`", "--", "/*", "*/", ";", "\\", "é", "１", "NaN", "1e400", "0x", "b'1'", "E'\\'", "$$a$$", "U&'x'", "IF(1,2,3)", "IFERROR(1,2)", "NULLIF(a,b)", "COALESCE()", "CURRENT_DATE", "SELECT", "FROM", "WHERE", "dual", "information_schema.tables", "public.users", "a.b.c.d", "x.y.z"}

func mutateSQL(r *rand.Rand, e *exCase) string {
	q := e.sql
	switch r.Intn(9) {
	case 0:
		q = "(" + q + ")"
	case 1:
		q = q + pick(r, " UNION ", " UNION ALL ", " EXCEPT ", " INTERSECT ") + q
	case 2:
		q = "WITH x AS (" + q + ") " + q
	case 3:
		q = "SELECT * FROM " + pick(r, "", "LATERAL ") + "(" + q + ") " + pick(r, "x", "AS x(a)", "", "x, (VALUES (1)) y")
	case 4:
		q = "SELECT (" + q + "), EXISTS(" + q + ") FROM (" + q + ") d WHERE 1 IN (" + q + ")"
	case 5:
		q = strings.Repeat("SELECT * FROM (", 1+r.Intn(30)) + q + ")"
	}
	toks := strings.Fields(q)
	for k := r.Intn(4); k > 0 && len(toks) > 0; k-- {
		i := r.Intn(len(toks))
		switch r.Intn(7) {
		case 0:
			toks = append(toks[:i:i], toks[i+1:]...)
		case 1:
			j := r.Intn(len(toks))
			toks[i], toks[j] = toks[j], toks[i]
		case 2, 3:
			toks = append(toks[:i:i], append([]string{pickS(r, fragments)}, toks[i:]...)...)
		case 4:
			toks[i] = pickS(r, fragments)
		case 5:
			j := i + 1 + r.Intn(len(toks)-i)
			mid := append([]string{"("}, append(append([]string{}, toks[i:j]...), ")")...)
			toks = append(toks[:i:i], append(mid, toks[j:]...)...)
		case 6:
			if chance(r, 0.2) {
				toks = toks[:i]
			} else {
				toks[i] = toks[i] + pick(r, ".", "\"", "'", "(", "::int", "[0]", ",", ";")
			}
		}
	}
	s := strings.Join(toks, " ")
	if chance(r, 0.05) {
		b := []byte(s)
		for k := 0; k < 3 && len(b) > 0; k++ {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
		s = string(b)
	}
	return s
}

// mutatePlan damages the lines of a plan.
func mutatePlan(r *rand.Rand, lines []string) []string {
	out := append([]string(nil), lines...)
	for k := 1 + r.Intn(4); k > 0 && len(out) > 0; k-- {
		i := r.Intn(len(out))
		switch r.Intn(9) {
		case 0:
			out = append(out[:i:i], out[i+1:]...)
		case 1:
			out = append(out[:i:i], append([]string{out[i]}, out[i:]...)...)
		case 2:
			out[i] = strings.Repeat(" ", r.Intn(20)) + strings.TrimLeft(out[i], " ")
		case 3:
			if len(out[i]) > 0 {
				out[i] = out[i][:r.Intn(len(out[i]))]
			}
		case 4:
			out = append(out[:i:i], append([]string{pick(r, "", " ", "->", "  ->  ", "    ->    ", "JIT:", "  Functions: 3", "-> ", "()", "(cost=..)", "  (cost=1..2 rows= width=1)", "Planning:", "Planning Time:", "Trigger for x: time=1.0 calls=1", "Settings: a = 'b'", "\t-> x", "é -> ü", "Query Identifier: 1")}, out[i:]...)...)
		case 5:
			j := r.Intn(len(out))
			out[i], out[j] = out[j], out[i]
		case 6:
			out[i] = strings.NewReplacer("1", pick(r, "1e+3", "99999999999999999999", "-1", "NaN", "x", ""), "(", pick(r, "(", "((", "")).Replace(out[i])
		case 7:
			out[i] = strings.NewReplacer("rows=", pick(r, "rows=1e+06 x=", "rows=", "row="), "..", pick(r, ".", "...", ".."), "loops=1", pick(r, "loops=", "loops=0", "never executed")).Replace(out[i])
		case 8:
			out[i] = "  " + out[i]
		}
	}
	return out
}

func p20(c *C) {
	r := c.R
	debug.SetMaxStack(256 << 20)
	flavor := flavors[c.Idx%3]
	e := c.newExCase(flavor, 3, chance(r, 0.6))
	e.o.Examine = chance(r, 0.3)
	mode := pick(r, "statement", "statement", "statement", "plan", "rows", "http")
	if mode == "http" && flavor != "hasura" {
		mode = "statement"
	}
	var n int
	switch mode {
	case "statement":
		e.sql = mutateSQL(r, e)
		if e.hs != nil {
			e.hs.SQL = e.sql
		} else {
			e.o.Query, e.sim.Query = e.sql, e.sql
		}
	case "plan":
		var lines []string
		if flavor == "mysql" {
			renderMy(genTree(r, 8, func(d int) *planNode { return genMyNode(r, d) }), 0, &lines)
		} else {
			renderPg(genTree(r, 8, func(d int) *planNode { return genPgNode(r, d) }), 0, true, flavor == "postgres", &lines)
			lines = append(lines, "Planning Time: 0.1 ms", "Execution Time: 0.2 ms")
		}
		e.sim.Plan = mutatePlan(r, lines)
		e.sim.NoPlanRows = flavor != "hasura" && chance(r, 0.05)
		c.Ctx("plan:\n%s", strings.Join(e.sim.Plan, "\n"))
	case "rows":
		e.sim.Mangle = func(ev *Event, rows *Rows) *Rows {
			if rows == nil || !chance(r, 0.7) {
				return rows
			}
			n++
			out := &Rows{Cols: append([]string(nil), rows.Cols...)}
			for _, d := range rows.Data {
				out.Data = append(out.Data, append([]any(nil), d...))
			}
			switch r.Intn(6) {
			case 0:
				out.Data = nil
			case 1, 2:
				for k := 0; k < 2 && len(out.Data) > 0; k++ {
					d := out.Data[r.Intn(len(out.Data))]
					if len(d) > 0 {
						d[r.Intn(len(d))] = pick[any](r, nil, " ", "{", "{}", "{a", "\xff", "NULL", "{\"a\",b}")
					}
				}
			case 3:
				if len(out.Data) > 0 {
					out.Data = append(out.Data, out.Data[r.Intn(len(out.Data))])
				}
			case 4:
				if len(out.Cols) > 0 {
					out.Cols[r.Intn(len(out.Cols))] = pick(r, "zz", "", strings.ToUpper(out.Cols[0]))
				}
			case 5:
				out.Cols = append(out.Cols, "extra")
				for i := range out.Data {
					out.Data[i] = append(out.Data[i], "x")
				}
			}
			c.Ctx("answer to #%d became %v %v", ev.Seq, out.Cols, out.Data)
			return out
		}
	case "http":
		kind := pick(r, "explain", "columns", "indexes", "exec", "create", "drop")
		body := pick(r, "", "null", "[]", "{}", "[null]", "[{}]", `[{"sql":null,"plan":null}]`, `[{"sql":"SELECT 1","plan":[]}]`, `[{"sql":"","plan":[""]}]`, "<html>gateway</html>", `{"result":null}`, `{"result":[]}`, `{"result":[[]]}`,
			`{"result":[null]}`, `{"result":[["a"],[null]]}`, `{"result":[["a","b","c","d"],["1"]]}`, `{"result":[["a"],["1","2","3","4","5","6"]]}`, `{"result":[["a"],["1",null,"{",""]]}`, `{"errors":[]}`, `{"errors":null,"data":null}`, `{"errors":{"a":1}}`, `"x"`, "1", "{", strings.Repeat("[", 2000))
		code := pick(r, 200, 200, 200, 201, 204, 400, 404, 500, 502)
		e.o.Examine = e.o.Examine || kind == "exec" || kind == "create" || kind == "drop"
		c.Ctx("%s answered with %d %q", kind, code, body)
		e.hs.Reply = func(ev *Event, w http.ResponseWriter) bool {
			if ev == nil || ev.Kind != kind {
				return false
			}
			n++
			w.WriteHeader(code)
			if code != 204 {
				_, _ = w.Write([]byte(body))
			}
			return true
		}
	}
	if chance(r, 0.1) && e.o.Examine {
		e.sim.Fault = func(ev *Event, nth int) Action {
			if ev.Kind == "exec" && nth == 1 {
				return Action{Err: errors.New("injected")}
			}
			return Action{}
		}
	}
	c.Ctx("mode: %s", mode)
	c.describe(e)
	// what was going on survives a fatal error of the runtime
	_ = os.WriteFile(c.Dir+"/doing", []byte(fmt.Sprintf("%s %s %q", flavor, mode, e.sql)), 0o644)
	err, pan := c.Suggest(flavor, e.o, e.sim, e.hs)
	c.Ctx("returned: %v", err)
	c.Eval(3)
	if pan != "" {
		c.Fail("panic", "the command crashed: %s", pan)
		return
	}
	outcome := "error"
	if err == nil {
		outcome = "report"
		rep, perr := ParseReport(e.o.Output)
		if perr != nil {
			c.Fail("report", "the command succeeded but its report is not usable: %v", perr)
			return
		}
		if _, terr := Targets(rep.Section(flavor)); terr != nil {
			c.Fail("report", "the command succeeded but its report is not usable: %v", terr)
			return
		}
		c.Count("ended_with_report", 1)
	} else {
		c.Count("ended_with_error", 1)
		if exists(e.o.Output) {
			c.Fail("report", "the command failed but wrote a report")
		}
		if err.Error() == "" {
			c.Fail("silent", "the command failed without saying why")
		}
	}
	if left := e.sim.LiveTemp(); len(left) > 0 {
		for _, ev := range e.sim.Log() {
			if ev.Kind == "drop" && ev.Err != "" {
				left = nil
			}
		}
		if mode != "http" && len(left) > 0 {
			c.Fail("leak", "temporary indexes were left: %v", left)
		}
	}
	c.Count("mode_"+mode, 1)
	if n > 0 {
		c.Count("odd_answers", n)
	}
	msg := ""
	if err != nil {
		msg = err.Error()
		if len(msg) > 24 {
			msg = msg[:24]
		}
	}
	c.Seen("%s|%s|%s|%s", flavor, mode, outcome, msg)
	c.Sample(map[string]any{"flavor": flavor, "mode": mode, "sql": e.sql, "outcome": outcome})
}
