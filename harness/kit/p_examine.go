package verifkit

import (
	"errors"
	"fmt"
	mysqldrv "github.com/go-sql-driver/mysql"
	"github.com/lib/pq"
	"os"
	"regexp"
	"strconv"
	"strings"
	"time"
)

// P01 temporary indexes, P02 examination results, P03 what may be examined.

var simplePlan = map[string][]string{
	"mysql": {"-> Filter: (users.name = 'a')  (cost=1.10 rows=3) (actual time=0.030..0.051 rows=3 loops=1)",
		"    -> Table scan on users  (cost=1.00 rows=3) (actual time=0.020..0.040 rows=3 loops=1)"},
	"postgres": {"Seq Scan on users  (cost=0.00..1.00 rows=1 width=4) (actual time=0.010..0.020 rows=1 loops=1)",
		"  Filter: (name = 'a'::text)",
		"Planning Time: 0.100 ms",
		"Execution Time: 0.200 ms"},
}

// exCase is a prepared "suggest" run.
type exCase struct {
	flavor string // mysql | postgres | hasura
	base   string // mysql | postgres
	w      *World
	g      *QGen
	sql    string
	sim    *Sim
	hs     *HasuraSim
	o      SuggestOpts
	cands  []Target // expected suggestions
}

var flavors = []string{"mysql", "postgres", "hasura"}

func baseOf(f string) string {
	if f == "mysql" {
		return "mysql"
	}
	return "postgres"
}

// newExCase generates catalogue, statement and simulation.
func (c *C) newExCase(flavor string, maxCols int, nested bool) *exCase {
	r := c.R
	e := &exCase{flavor: flavor, base: baseOf(flavor)}
	for try := 0; ; try++ {
		e.w = GenWorld(r, e.base, 1+r.Intn(3)+r.Intn(2)*r.Intn(2)*r.Intn(2)*r.Intn(4))
		if flavor == "postgres" && chance(r, 0.25) {
			e.w.Move(pick(r, "app", "tenant_1", "Acc", "my app")) // DB_SEARCH_PATH
		}
		if flavor == "mysql" && chance(r, 0.25) {
			e.w.Move(pick(r, "my_app", "acc-2", "z"))
		}
		e.g = NewQGen(r, e.w, nested && e.base == "postgres", maxCols)
		e.sql = e.g.Statement()
		e.cands = Candidates(e.g.U, e.w.Tables, e.w.Schema, e.base, false)
		if len(e.cands) <= 3000 || try > 20 {
			break
		}
		if try > 3 && maxCols > 3 {
			maxCols--
		}
	}
	e.w.AddIndexes(e.cands)
	if chance(r, 0.7) {
		e.w.AddDecoys(e.cands)
	}
	e.cands = Candidates(e.g.U, e.w.Tables, e.w.Schema, e.base, true)
	e.sim = &Sim{Flavor: e.base, Schema: e.w.Schema, Tables: e.w.Tables, Query: e.sql, Plan: simplePlan[e.base], R: r}
	e.o = SuggestOpts{Query: e.sql, Output: c.Out("report.html")}
	if flavor == "hasura" {
		gql := "query MyQuery($x: String) {\n  users(where: {email: {_eq: $x}}) { id }\n}"
		e.sim.Query = gql
		e.hs = &HasuraSim{Sim: e.sim, SQL: e.sql}
		e.o.Query = gql
		e.o.JSONVars = `{"x": "v", "n": 3, "l": [1, 2]}`
	}
	return e
}

func (c *C) describe(e *exCase) {
	c.Ctx("flavor: %s", e.flavor)
	c.Ctx("sql: %s", e.sql)
	c.Ctx("options: examine=%v -i %q", e.o.Examine, e.o.Targets)
	for _, t := range e.w.Tables {
		var ix []string
		for _, i := range t.Indexes {
			ix = append(ix, i.Name+"("+strings.Join(i.Cols, ",")+")")
		}
		var cs []string
		for _, k := range t.Cols {
			n := k.Name
			if k.PK {
				n += "*"
			}
			cs = append(cs, n)
		}
		c.Ctx("table %s.%s (%s) indexes %s", t.Schema, t.Name, strings.Join(cs, ","), strings.Join(ix, " "))
	}
}

func (c *C) showLog(s *Sim) {
	for _, ev := range s.Log() {
		c.Ctx("%s", ev.String())
	}
}

// randomTargets picks explicit -i targets over the catalogue.
func (c *C) randomTargets(e *exCase, n int) []Target {
	var real []*Table
	for _, t := range e.w.Tables {
		if t.Schema == e.w.Schema {
			real = append(real, t)
		}
	}
	var out []Target
	for i := 0; i < n; i++ {
		t := pickS(c.R, real)
		cs := append([]Col(nil), t.Cols...)
		c.R.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
		k := 1 + c.R.Intn(3)
		if k > len(cs) {
			k = len(cs)
		}
		tg := Target{Table: t.Name}
		for _, x := range cs[:k] {
			if safeWord.MatchString(x.Name) {
				tg.Cols = append(tg.Cols, x.Name)
			}
		}
		if len(tg.Cols) > 0 {
			out = append(out, tg)
		}
	}
	if len(out) > 1 && chance(c.R, 0.2) { // the same one twice is legal
		out = append(out, out[0])
	}
	return out
}

var safeWord = regexp.MustCompile(`\A[0-9A-Za-z_]+\z`)

func texts(ts []Target) []string {
	var out []string
	for _, t := range ts {
		out = append(out, t.Table+":"+strings.Join(t.Cols, "+"))
	}
	return out
}

func catalogue(w *World) string {
	var b strings.Builder
	for _, t := range w.Tables {
		fmt.Fprintf(&b, "%s.%s:", t.Schema, t.Name)
		for _, i := range t.Indexes {
			if !i.Temp {
				fmt.Fprintf(&b, "%s%v;", i.Name, i.Cols)
			}
		}
	}
	return b.String()
}

// safeOnly drops the suggestions that cannot be named safely in DDL.
func safeOnly(ts []Target) []Target {
	var out []Target
next:
	for _, t := range ts {
		if !safeWord.MatchString(t.Table) {
			continue
		}
		for _, x := range t.Cols {
			if !safeWord.MatchString(x) {
				continue next
			}
		}
		out = append(out, t)
	}
	return out
}

var faultMsgs = []string{"Deadlock found when trying to get lock", "canceling statement due to statement timeout", "disk full", "connection reset by peer", ""}

// Faults of a kind a program might be tempted to pass over.
var typedFaults = []struct {
	my  uint16
	pg  string
	msg string
}{
	{1091, "42704", "Can't DROP 'idx'; check that column/key exists"}, {1061, "42P07", "Duplicate key name 'idx'"},
	{1205, "55P03", "Lock wait timeout exceeded; try restarting transaction"}, {1213, "40P01", "Deadlock found when trying to get lock; try restarting transaction"},
	{3024, "57014", "Query execution was interrupted, maximum statement execution time exceeded"}, {1317, "57014", "Query execution was interrupted"},
	{1146, "42P01", "Table 'app.t' doesn't exist"}, {1044, "42501", "Access denied"}, {1064, "42601", "You have an error in your SQL syntax"},
	{1062, "23505", "Duplicate entry"}, {1831, "42P07", "Duplicate index 'idx'. This is deprecated and will be disallowed in a future release"}, {1290, "25006", "The MySQL server is running with the --read-only option"},
	{1072, "42703", "Key column 'c' doesn't exist in table"}, {1114, "53100", "The table is full"}, {1927, "57P01", "terminating connection due to administrator command"},
}

func fault(flavor, msg string) error {
	if !strings.HasPrefix(msg, "typed") {
		return errors.New("injected: " + msg)
	}
	k, _ := strconv.Atoi(msg[5:])
	f := typedFaults[k%len(typedFaults)]
	switch flavor {
	case "mysql":
		return &mysqldrv.MySQLError{Number: f.my, Message: f.msg}
	case "postgres":
		return &pq.Error{Severity: "ERROR", Code: pq.ErrorCode(f.pg), Message: f.msg}
	}
	return errors.New(f.msg)
}

// faultPlan picks which requests fail. It returns a description too.
func (c *C) faultPlan(e *exCase, nTargets int, timing bool) string {
	r := c.R
	type key struct {
		kind string
		nth  int
	}
	bad := map[key]bool{}
	mode := r.Intn(10)
	desc := "none"
	any := func() int {
		if nTargets == 0 {
			return 0
		}
		return r.Intn(nTargets)
	}
	switch mode {
	case 0, 1:
		k := any()
		bad[key{"create", k}] = true
		desc = fmt.Sprintf("create#%d", k)
	case 2, 3:
		k := any() + 1
		bad[key{"exec", k}] = true
		desc = fmt.Sprintf("exec#%d", k)
		if chance(r, 0.4) {
			bad[key{"drop", k - 1}] = true
			desc += "+drop"
		}
	case 4:
		k := any()
		bad[key{"drop", k}] = true
		desc = fmt.Sprintf("drop#%d", k)
	case 5:
		k := pick(r, "exec", "columns", "indexes", "explain")
		bad[key{k, 0}] = true
		desc = k + "#0"
	}
	msg := pickS(r, faultMsgs)
	if chance(r, 0.6) {
		msg = fmt.Sprint("typed", r.Intn(len(typedFaults)))
		desc += fmt.Sprintf(" (%v)", fault(e.flavor, msg))
	}
	var delays map[string]time.Duration
	if timing {
		delays = map[string]time.Duration{}
	}
	e.sim.Fault = func(ev *Event, nth int) Action {
		var a Action
		if delays != nil && (ev.Kind == "exec" || ev.Kind == "create" || ev.Kind == "drop") {
			a.Delay = time.Duration(r.Intn(9)) * time.Millisecond
			if ev.Kind != "exec" {
				a.Delay = time.Duration(r.Intn(16)) * time.Millisecond
			}
		}
		if bad[key{ev.Kind, nth}] {
			a.Err = fault(e.flavor, msg)
		}
		return a
	}
	return desc
}

func init() {
	register("P01", "suggest", p01)
	register("P02", "suggest", p02)
	register("P03", "suggest", p03)
}

func p01(c *C) {
	r := c.R
	e := c.newExCase(flavors[c.Idx%3], 3, false)
	e.o.Examine = chance(r, 0.85)
	var want []Target
	if chance(r, 0.6) {
		want = c.randomTargets(e, 1+r.Intn(5))
		if chance(r, 0.1) && len(want) > 0 { // a target the database refuses
			want[r.Intn(len(want))] = Target{Table: want[0].Table, Cols: []string{"no_such_column"}}
		}
		e.o.Targets = texts(want)
	}
	if len(want) == 0 {
		want = safeOnly(e.cands)
	}
	desc := c.faultPlan(e, len(want), false)
	if chance(r, 0.1) {
		e.o.Output = ""
	}
	if chance(r, 0.1) {
		e.o.Output = c.Dir + "/no/such/dir/x.html"
	}
	before := catalogue(e.w)
	c.describe(e)
	c.Ctx("faults: %s", desc)
	err, pan := c.Suggest(e.flavor, e.o, e.sim, e.hs)
	c.Ctx("returned: %v", err)
	c.showLog(e.sim)
	if pan != "" {
		c.Fail("panic", "the command crashed: %s", pan)
		return
	}
	c.judgeIndexes(e, err, before)
	c.Seen("%s|%v|%s|%v", e.flavor, e.o.Examine, desc, kinds(e.sim.Log()))
	c.Sample(map[string]any{"flavor": e.flavor, "faults": desc, "targets": e.o.Targets, "events": kinds(e.sim.Log()), "error": fmt.Sprint(err)})
}

func kinds(evs []*Event) string {
	var k []string
	for _, e := range evs {
		s := e.Kind
		if e.Err != "" {
			s += "!"
		}
		k = append(k, s)
	}
	return strings.Join(k, " ")
}

// judgeIndexes is the online/offline monitor of temporary index handling.
func (c *C) judgeIndexes(e *exCase, err error, before string) {
	evs := e.sim.Log()
	type st struct {
		created int
		drops   int
		dropOK  int
	}
	byName := map[string]*st{}
	nFault := 0
	for _, ev := range evs {
		switch ev.Kind {
		case "create":
			c.Eval(1)
			c.Count("creates", 1)
			if !e.o.Examine {
				c.Fail("ddl-without-examine", "an index was created although examination was not asked for: %s", ev.SQL)
			}
			if ev.Err != "" {
				c.Count("create_failures", 1)
				nFault++
				continue
			}
			k := ev.Table + "/" + ev.Index
			if e.base == "postgres" {
				k = ev.Index
			}
			if byName[k] != nil && byName[k].created > byName[k].dropOK {
				c.Fail("name-reuse", "an index name is in use twice: %s", k)
			}
			if byName[k] == nil {
				byName[k] = &st{}
			}
			byName[k].created++
			if len(ev.Index) > 63 {
				c.Fail("name-length", "index name longer than the database keeps: %s", ev.Index)
			}
		case "drop":
			c.Eval(1)
			c.Count("drops", 1)
			k := ev.Table + "/" + ev.Index
			if e.base == "postgres" {
				k = ev.Index
			}
			s := byName[k]
			if s == nil {
				c.Fail("drop-unknown", "the command tried to drop an index it did not create: %s", ev.SQL)
				continue
			}
			s.drops++
			if ev.Err == "" {
				s.dropOK++
			} else {
				c.Count("drop_failures", 1)
				nFault++
			}
		case "drop-foreign":
			c.Fail("drop-foreign", "an index that was there before was dropped: %s", ev.SQL)
		case "other":
			if reDDL.MatchString(ev.SQL) {
				c.Fail("other-ddl", "unexpected schema change: %s", ev.SQL)
			}
		case "exec":
			c.Count("executions", 1)
			if ev.Err != "" {
				c.Count("exec_failures", 1)
				nFault++
			}
		}
	}
	for k, s := range byName {
		c.Eval(1)
		if s.dropOK > s.created || s.drops < s.created {
			c.Fail("not-dropped", "index %s was created %d time(s) but a drop was attempted %d time(s)", k, s.created, s.drops)
		} else if s.dropOK < s.created {
			if err == nil {
				c.Fail("leak-silent", "index %s could not be dropped and the command reported success", k)
			}
			c.Count("leaks_reported", 1)
		}
	}
	live := e.sim.LiveTemp()
	left := 0
	for _, s := range byName {
		left += s.created - s.dropOK
	}
	if len(live) != left {
		c.Fail("left-behind", "temporary indexes left in the database: %v", live)
	}
	if after := catalogue(e.w); after != before {
		c.Fail("catalogue-changed", "indexes that existed before changed:\nbefore %s\nafter  %s", before, after)
	}
	c.Eval(2)
	if nFault > 0 {
		c.Count("runs_with_faults", 1)
		if err == nil {
			c.Fail("fault-silent", "a step of the examination failed and the command reported success")
		}
	}
	if !e.o.Examine {
		c.Count("runs_without_examine", 1)
	}
}

func p02(c *C) {
	r := c.R
	e := c.newExCase(flavors[c.Idx%3], 3, false)
	e.o.Examine = true
	var want []Target
	if chance(r, 0.6) {
		want = c.randomTargets(e, 1+r.Intn(4))
		e.o.Targets = texts(want)
	}
	if len(want) == 0 {
		want = safeOnly(e.cands)
	}
	timing := len(want) <= 6
	desc := "none"
	if chance(r, 0.7) {
		e.sim.Fault = nil
		if timing {
			e.sim.Fault = func(ev *Event, nth int) Action {
				switch ev.Kind {
				case "exec":
					return Action{Delay: time.Duration(r.Intn(12)) * time.Millisecond}
				case "create", "drop":
					return Action{Delay: time.Duration(r.Intn(12)) * time.Millisecond}
				}
				return Action{}
			}
		}
	} else {
		desc = c.faultPlan(e, len(want), false)
	}
	old := ""
	if chance(r, 0.3) {
		old = "old report"
		_ = os.WriteFile(e.o.Output, []byte(old), 0o644)
	}
	c.describe(e)
	c.Ctx("faults: %s", desc)
	err, pan := c.Suggest(e.flavor, e.o, e.sim, e.hs)
	end := time.Now()
	c.Ctx("returned: %v", err)
	c.showLog(e.sim)
	if pan != "" {
		c.Fail("panic", "the command crashed: %s", pan)
		return
	}
	evs := e.sim.Log()
	c.Seen("%s|%s|%s", e.flavor, desc, kinds(evs))
	failed := false
	for _, ev := range evs {
		if ev.Err != "" {
			failed = true
		}
	}
	if failed {
		c.Eval(2)
		c.Count("failed_runs", 1)
		if err == nil {
			c.Fail("silent", "a step failed but the command reported success")
		}
		b, rerr := os.ReadFile(e.o.Output)
		if old == "" && rerr == nil {
			c.Fail("report-after-failure", "a report was written although a step failed (%d bytes)", len(b))
		}
		if old != "" && string(b) != old {
			c.Fail("report-after-failure", "the previous report was replaced although a step failed")
		}
		return
	}
	if err != nil {
		c.Fail("unexpected-error", "nothing failed but the command reported: %v", err)
		return
	}
	rep, perr := ParseReport(e.o.Output)
	if perr != nil {
		c.Fail("report", "%v", perr)
		return
	}
	sec := rep.Section(e.flavor)
	orig, res, present, xerr := Exam(sec)
	if xerr != nil || !present {
		c.Fail("no-result", "the report has no examination result: %v", xerr)
		return
	}
	c.Count("reports", 1)
	c.Count("examined_indexes", len(res))
	c.Ctx("report: original=%d results=%v", orig, res)
	// which targets, in which order
	if len(res) != len(want) {
		c.Fail("result-count", "%d indexes should have been examined, the report shows %d", len(want), len(res))
		return
	}
	for i := range want {
		c.Eval(1)
		if res[i].Target.String() != want[i].String() {
			c.Fail("result-order", "result %d is for %s, expected %s", i, res[i].Target, want[i])
			return
		}
	}
	// the order of requests: exec, then (create, exec, drop) per target
	var seq []*Event
	var all []*Event
	for _, ev := range evs {
		all = append(all, ev)
		switch ev.Kind {
		case "create", "drop", "exec":
			seq = append(seq, ev)
		case "begin", "commit", "rollback":
		}
	}
	if len(seq) != 1+3*len(want) {
		c.Fail("sequence", "expected %d requests of the examination, saw %d", 1+3*len(want), len(seq))
		return
	}
	bracket := func(ev *Event, got int64, what string) {
		var lo, hi time.Time
		lo = evs[0].Start
		hi = end
		for i, x := range all {
			if x == ev {
				if i > 0 {
					lo = all[i-1].End
				}
				if i+1 < len(all) {
					hi = all[i+1].Start
				}
			}
		}
		min := ev.End.Sub(ev.Start).Milliseconds()
		max := hi.Sub(lo).Milliseconds()
		c.Eval(1)
		c.Count("timings", 1)
		if got < min || got > max {
			c.Fail("timing", "%s: reported %d ms, but the query ran between %d ms (server side) and %d ms (all time between its neighbours)", what, got, min, max)
		}
	}
	if seq[0].Kind != "exec" || len(seq[0].Live) != 0 {
		c.Fail("baseline", "the original timing was not taken on the untouched database: %s", seq[0])
		return
	}
	bracket(seq[0], orig, "original")
	for i, t := range want {
		cr, ex, dr := seq[1+3*i], seq[2+3*i], seq[3+3*i]
		c.Eval(1)
		if cr.Kind != "create" || ex.Kind != "exec" || dr.Kind != "drop" {
			c.Fail("sequence", "target %s: saw %s, %s, %s", t, cr.Kind, ex.Kind, dr.Kind)
			return
		}
		if cr.Table != t.Table || strings.Join(cr.Cols, ",") != strings.Join(t.Cols, ",") {
			c.Fail("wrong-index", "target %s: the created index is on %s(%s)", t, cr.Table, strings.Join(cr.Cols, ","))
			return
		}
		if len(ex.Live) != 1 || ex.Live[0] != cr.Table+"."+cr.Index {
			c.Fail("not-isolated", "target %s was measured with %v in place, expected only %s", t, ex.Live, cr.Index)
			return
		}
		bracket(ex, res[i].Millis, "target "+t.String())
	}
	if e.flavor == "hasura" {
		for _, ev := range seq {
			if ev.Kind == "exec" && !sameJSON(ev.Vars, e.o.JSONVars) {
				c.Fail("vars", "the query ran with variables %s instead of %s", ev.Vars, e.o.JSONVars)
			}
		}
	}
	c.Sample(map[string]any{"flavor": e.flavor, "original_ms": orig, "results": fmt.Sprint(res), "events": kinds(evs)})
}

var badTargetTexts = []string{
	"", "users", "users:", ":name", "users:na me", "users:name;drop table x", "users:name+", "users:+name", "users:name++email",
	"us`ers:name", "users:na\"me", "users:name+em ail", "a:b:c", "users:name,email", "us ers:name", "users.name:id",
	"users:na`me", "users:name)", "users:\"name\"", "`users`:name", "users:name\nemail", "users\n:name", "x\nusers:name",
	"users:name\n", "\nusers:name", "users:name+\n", "users:name\n; DROP TABLE users", "users: name", " users:name", "users:name ", "users:é", "usérs:name", "users:name--", "users:name\x00", "users:name%", "public.users:name",
}

func p03(c *C) {
	r := c.R
	e := c.newExCase(flavors[c.Idx%3], 3, false)
	e.o.Examine = chance(r, 0.85)
	switch r.Intn(4) {
	case 0: // malformed -i
		n := 1 + r.Intn(3)
		good := texts(c.randomTargets(e, n))
		bad := pickS(r, badTargetTexts)
		if chance(r, 0.3) && len(good) > 0 { // mutate a good one
			g := good[0]
			k := r.Intn(len(g) + 1)
			bad = g[:k] + pick(r, " ", ";", "`", "\"", "'", "\n", "(", "é", "-", ".", "\t", "\\", "$", "/*") + g[k:]
		}
		at := r.Intn(len(good) + 1)
		e.o.Targets = append(append(append([]string{}, good[:at]...), bad), good[at:]...)
		c.describe(e)
		err, pan := c.Suggest(e.flavor, e.o, e.sim, e.hs)
		c.Ctx("returned: %v", err)
		c.showLog(e.sim)
		c.Eval(2)
		c.Count("malformed", 1)
		c.Seen("bad|%s|%q", e.flavor, bad)
		if pan != "" {
			c.Fail("panic", "the command crashed: %s", pan)
			return
		}
		if err == nil {
			c.Fail("accepted", "the malformed index %q was accepted", bad)
		}
		for _, ev := range e.sim.Log() {
			if ev.Kind == "create" || ev.Kind == "drop" || ev.Kind == "exec" {
				c.Fail("ran", "the malformed index %q did not stop the command: %s", bad, ev)
			}
		}
		if exists(e.o.Output) {
			c.Fail("report", "a report was written although the index %q is malformed", bad)
		}
		return
	case 1: // names that need quoting beyond \w
		var real []*Table
		for _, t := range e.w.Tables {
			if t.Schema == e.w.Schema {
				real = append(real, t)
			}
		}
		t := pickS(r, real)
		weird := pick(r, "first name", "na-me", "prix€", "a.b", "x'y", "semi;colon", "par(en", "a+b", "über", "it`s", "q\"q")
		if strings.Contains(weird, "`") && e.base == "mysql" || strings.Contains(weird, `"`) && e.base == "postgres" {
			weird = "first name"
		}
		t.Cols = append(t.Cols, Col{Name: weird})
		q := func(s string) string {
			if e.base == "mysql" {
				return "`" + s + "`"
			}
			return `"` + s + `"`
		}
		o := t.Cols[r.Intn(len(t.Cols)-1)].Name
		e.sql = fmt.Sprintf("SELECT %s FROM %s WHERE %s = 1 AND %s = 2", q(t.Cols[0].Name), q(t.Name), q(weird), q(o))
		u := Uses{}
		u.add(t.Name, t.Cols[0].Name, false)
		u.add(t.Name, weird, true)
		u.add(t.Name, o, true)
		e.cands = Candidates(u, e.w.Tables, e.w.Schema, e.base, true)
		if e.hs != nil {
			e.hs.SQL = e.sql
		} else {
			e.o.Query = e.sql
			e.sim.Query = e.sql
		}
		c.Count("odd_names", 1)
	}
	var want []Target
	if chance(r, 0.5) {
		want = c.randomTargets(e, 1+r.Intn(4))
		e.o.Targets = texts(want)
	}
	explicit := len(want) > 0
	if !explicit {
		want = safeOnly(e.cands)
	}
	if !e.o.Examine {
		want = nil
	}
	c.describe(e)
	err, pan := c.Suggest(e.flavor, e.o, e.sim, e.hs)
	c.Ctx("returned: %v", err)
	c.showLog(e.sim)
	if pan != "" {
		c.Fail("panic", "the command crashed: %s", pan)
		return
	}
	if err != nil {
		c.Fail("unexpected-error", "nothing failed but the command reported: %v", err)
		return
	}
	var got []Target
	for _, ev := range e.sim.Log() {
		switch ev.Kind {
		case "create":
			got = append(got, Target{Table: ev.Table, Cols: ev.Cols})
			if !safeWord.MatchString(ev.Index) {
				c.Fail("index-name", "unsafe characters in the index name: %s", ev.SQL)
			}
		case "other":
			if reDDL.MatchString(ev.SQL) {
				c.Fail("bad-ddl", "not a plain quoted statement: %s", ev.SQL)
			}
		}
	}
	c.Eval(1 + len(want))
	c.Count("created", len(got))
	if explicit {
		c.Count("explicit_runs", 1)
	} else {
		c.Count("default_runs", 1)
	}
	c.Seen("%s|%v|%v|%d", e.flavor, e.o.Examine, explicit, len(want))
	if len(got) != len(want) {
		c.Fail("targets", "%d indexes should have been tried, %d were: %v", len(want), len(got), got)
		return
	}
	for i := range want {
		if got[i].String() != want[i].String() {
			c.Fail("targets", "index %d tried is %s, expected %s", i, got[i], want[i])
			return
		}
	}
	if len(got) > 0 {
		c.Sample(map[string]any{"flavor": e.flavor, "targets": e.o.Targets, "tried": fmt.Sprint(got)})
	}
}
