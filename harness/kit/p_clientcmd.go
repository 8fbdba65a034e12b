package verifkit

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os/exec"
	"regexp"
	"sort"
	"strings"
)

// P25 the commands and statements of the pages can be used as they stand.

func init() {
	register("P25", "suggest", p25)
	register("P25", "pi", p25pi)
}

// shell runs what a page shows in a shell where gr and curl only say how they
// were called: the assignment of DB_DATABASE and the arguments.
func shell(text string) (prog, db string, argv []string, err error) {
	script := `gr() { printf '%s\0' gr "${DB_DATABASE-unset}" "$@"; }
curl() { printf '%s\0' curl "${DB_DATABASE-unset}" "$@"; }
HASURA_URL=http://hasura.example/base
HASURA_ADMIN_SECRET='s3cr et'
` + text + "\n"
	cmd := exec.Command("bash", "--norc", "--noprofile")
	cmd.Env = []string{"PATH=/nonexistent", "LC_ALL=C.UTF-8"}
	cmd.Dir = "/"
	cmd.Stdin = strings.NewReader(script)
	var out, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &er
	rerr := cmd.Run()
	if rerr != nil || er.Len() > 0 {
		return "", "", nil, fmt.Errorf("the shell says %v %.200q", rerr, er.String())
	}
	parts := strings.Split(strings.TrimSuffix(out.String(), "\x00"), "\x00")
	if len(parts) < 2 {
		return "", "", nil, fmt.Errorf("the shell ran no command: %.100q", out.String())
	}
	return parts[0], parts[1], parts[2:], nil
}

// callOf reads arguments: the words before the options, the options by name.
func callOf(argv []string) (words []string, opts map[string][]string, why string) {
	opts = map[string][]string{}
	long := map[string]string{"--output": "-o", "--query": "-q", "--index": "-i", "--json-variables": "--json-variables", "--with-examine": "--with-examine"}
	for i := 0; i < len(argv); i++ {
		a := argv[i]
		if !strings.HasPrefix(a, "-") {
			words = append(words, a)
			continue
		}
		if l, ok := long[a]; ok {
			a = l
		}
		if a == "--with-examine" {
			opts[a] = append(opts[a], "")
			continue
		}
		switch a {
		case "-o", "-q", "-i", "--json-variables":
		default:
			return nil, nil, "there is no option " + a
		}
		if i+1 >= len(argv) {
			return nil, nil, a + " has no value"
		}
		i++
		opts[a] = append(opts[a], argv[i])
	}
	return words, opts, ""
}

func callText(words []string, opts map[string][]string) string {
	var ks []string
	for k := range opts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := strings.Join(words, " ")
	for _, k := range ks {
		v := append([]string(nil), opts[k]...)
		sort.Strings(v)
		out += fmt.Sprintf(" %s=%q", k, v)
	}
	return out
}

// prompted finds the command shown in a part of the page.
func prompted(n *PNode) (string, bool) {
	codes := n.All("code")
	if len(codes) != 1 {
		return "", false
	}
	t := jsTrim(codes[0].Text())
	return strings.TrimPrefix(t, "$ "), true
}

var pgReserved = words("all analyse analyze and any array as asc asymmetric both case cast check collate column constraint create current_date current_role current_time current_timestamp current_user default deferrable desc distinct do else end except false fetch for foreign from grant group having in initially intersect into lateral leading limit localtime localtimestamp not null offset on only or order placing primary references returning select session_user some symmetric table then to trailing true union unique user using variadic when where window with")
var myReserved = words("accessible add all alter analyze and as asc asensitive before between bigint binary blob both by call cascade case change char character check collate column condition constraint continue convert create cross cube cume_dist current_date current_time current_timestamp current_user cursor database databases day_hour day_microsecond day_minute day_second dec decimal declare default delayed delete dense_rank desc describe deterministic distinct distinctrow div double drop dual each else elseif empty enclosed escaped except exists exit explain false fetch first_value float float4 float8 for force foreign from fulltext function generated get grant group grouping groups having high_priority hour_microsecond hour_minute hour_second if ignore in index infile inner inout insensitive insert int int1 int2 int3 int4 int8 integer intersect interval into io_after_gtids io_before_gtids is iterate join json_table key keys kill lag last_value lateral lead leading leave left like limit linear lines load localtime localtimestamp lock long longblob longtext loop low_priority master_bind match maxvalue mediumblob mediumint mediumtext middleint minute_microsecond minute_second mod modifies natural not no_write_to_binlog nth_value ntile null numeric of on optimize optimizer_costs option optionally or order out outer outfile over partition percent_rank precision primary procedure purge range rank read reads read_write real recursive references regexp release rename repeat replace require resignal restrict return revoke right rlike row rows row_number schema schemas second_microsecond select sensitive separator set show signal smallint spatial specific sql sqlexception sqlstate sqlwarning sql_big_result sql_calc_found_rows sql_small_result ssl starting stored straight_join system table terminated then tinyblob tinyint tinytext to trailing trigger true undo union unique unlock unsigned update usage use using utc_date utc_time utc_timestamp values varbinary varchar varcharacter varying virtual when where while window with write xor year_month zerofill")

func words(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}

var sqlTok = regexp.MustCompile("^(?:`((?:[^`]|``)*)`|\"((?:[^\"]|\"\")*)\"|([A-Za-z0-9_$\\x{80}-\\x{ffff}]+)|([(),;.]))")

type sqlTk struct {
	kind byte // q quoted name, w word, p sign
	v    string
}

func sqlTokens(s string) ([]sqlTk, string) {
	var out []sqlTk
	for s = strings.TrimSpace(s); s != ""; s = strings.TrimSpace(s) {
		m := sqlTok.FindStringSubmatchIndex(s)
		if m == nil {
			return nil, "cannot read " + s
		}
		sub := func(i int) (string, bool) {
			if m[2*i] < 0 {
				return "", false
			}
			return s[m[2*i]:m[2*i+1]], true
		}
		if v, ok := sub(1); ok {
			out = append(out, sqlTk{'`', strings.ReplaceAll(v, "``", "`")})
		} else if v, ok := sub(2); ok {
			out = append(out, sqlTk{'"', strings.ReplaceAll(v, `""`, `"`)})
		} else if v, ok := sub(3); ok {
			out = append(out, sqlTk{'w', v})
		} else if v, ok := sub(4); ok {
			out = append(out, sqlTk{'p', v})
		}
		s = s[m[1]:]
	}
	return out, ""
}

var digitsRE = regexp.MustCompile(`^[0-9]+$`)
var numLike = regexp.MustCompile(`^[0-9]+[eE][0-9]*$|^0[xXbB][0-9A-Fa-f]*$`)

// indexSQL reads a statement that makes an index the way the database would.
func indexSQL(base, s string) (t Target, why string) {
	tks, why := sqlTokens(s)
	if why != "" {
		return t, why
	}
	i := 0
	word := func(ws ...string) bool {
		for _, w := range ws {
			if i >= len(tks) || tks[i].kind != 'w' || !strings.EqualFold(tks[i].v, w) {
				return false
			}
			i++
		}
		return true
	}
	name := func() (string, string) {
		if i >= len(tks) {
			return "", "it ends too early"
		}
		k := tks[i]
		i++
		switch {
		case k.kind == '`' && base == "mysql", k.kind == '"' && base != "mysql":
			return k.v, ""
		case k.kind != 'w':
			return "", "not a name: " + k.v
		case base == "mysql":
			if myReserved[strings.ToLower(k.v)] {
				return "", k.v + " is a reserved word"
			}
			if digitsRE.MatchString(k.v) || numLike.MatchString(k.v) {
				return "", k.v + " is a number"
			}
			return k.v, ""
		default:
			if pgReserved[strings.ToLower(k.v)] {
				return "", k.v + " is a reserved word"
			}
			if k.v[0] >= '0' && k.v[0] <= '9' || k.v[0] == '$' {
				return "", k.v + " cannot begin a name"
			}
			return strings.ToLower(k.v), ""
		}
	}
	if base == "mysql" {
		at := i
		if !word("alter", "table") {
			i = at
			return t, "it is not ALTER TABLE"
		}
		if t.Table, why = name(); why != "" {
			return t, why
		}
		if !word("add", "index") && !word("add", "key") {
			return t, "it does not add an index"
		}
	} else {
		if !word("create", "index") {
			return t, "it is not CREATE INDEX"
		}
		if !word("on") {
			if _, why = name(); why != "" {
				return t, why
			}
			if !word("on") {
				return t, "no table is given"
			}
		}
		if t.Table, why = name(); why != "" {
			return t, why
		}
	}
	if i >= len(tks) || tks[i].v != "(" || tks[i].kind != 'p' {
		return t, "no columns are given"
	}
	for {
		i++
		n, why := name()
		if why != "" {
			return t, why
		}
		t.Cols = append(t.Cols, n)
		if i < len(tks) && tks[i] == (sqlTk{'p', ","}) {
			continue
		}
		break
	}
	if i >= len(tks) || tks[i] != (sqlTk{'p', ")"}) {
		return t, "the list of columns does not end"
	}
	for i++; i < len(tks); i++ {
		if tks[i] != (sqlTk{'p', ";"}) {
			return t, "there is more: " + tks[i].v
		}
	}
	return t, ""
}

var wordNames = []string{"users", "order", "Users", "userId", "group", "key", "rank", "desc", "user", "USER_ID", "values", "limit", "table", "2020", "1st", "_x", "index", "select", "created_at", "id", "range", "all", "1e5", "Order"}

func p25(c *C) {
	r := c.R
	flavor := flavors[c.Idx%3]
	e := c.newExCase(flavor, 3, false)
	c.nastyCase(e)
	if e.flavor != "hasura" && chance(r, 0.1) {
		e.o.Query = e.sql
	}
	p := c.newPlace(true)
	defer p.leave()
	e.o.Output = p.out
	e.o.Examine = chance(r, 0.6)
	if e.o.Examine && chance(r, 0.6) {
		e.o.Targets = texts(safeOnly(c.randomTargets(e, 1+r.Intn(4))))
	}
	rep := c.report(e)
	if rep == nil {
		return
	}
	sec := rep.Section(flavor)
	rename := func(v any) {
		m, _ := v.(map[string]any)
		if m == nil {
			return
		}
		m["tableName"] = pickS(r, wordNames)
		cols, _ := m["columns"].([]any)
		for _, x := range cols {
			x.(map[string]any)["name"] = pickS(r, wordNames)
		}
	}
	if ex, _ := sec["examinationResult"].(map[string]any); ex != nil {
		l, _ := ex["indexResults"].([]any)
		for i, x := range l {
			m := x.(map[string]any)
			m["executionTimeMillis"] = json.Number(fmt.Sprint(i)) // keeps the order
			if chance(r, 0.5) {
				rename(m["indexTarget"])
			}
		}
	}
	if chance(r, 0.3) {
		l, _ := sec["indexTargets"].([]any)
		for _, x := range l {
			if chance(r, 0.5) {
				rename(x)
				if chance(r, 0.3) {
					x.(map[string]any)["tableName"] = pick(r, "a b", "x$y", "`id`", "$(id)", "it's", `q"q`, "a\\b", "a;b", "a!b", "*", "été")
				}
			}
		}
	}
	rep.Raw = js(rep.Data)
	v := c.Open("main", rep)
	if v == nil {
		return
	}
	targets, terr := Targets(sec)
	if terr != nil {
		c.Fail("targets", "%v", terr)
		return
	}
	c.Seen("%s|%v|%d|%s", flavor, e.o.Examine, minInt(len(targets), 6), p.kind)
	if sec["indexTargets"] != nil {
		on := make([]bool, len(targets))
		for i := range on {
			on[i] = true
		}
		if !c.judgeCommand(e, sec, v, targets, on) {
			return
		}
		for k := 0; k < 3 && len(on) > 0; k++ {
			i := r.Intn(len(on))
			if len(on) == 1 || k == 2 {
				i = len(on) - 1
			}
			boxes := v.Tree.TestID("suggest").All("checkbox", "input")
			if len(boxes) != len(on) || boxes[i].N == nil {
				c.Fail("boxes", "there are %d boxes to tick for %d suggestions", len(boxes), len(on))
				return
			}
			if v = c.Do("press", map[string]any{"n": *boxes[i].N}); v == nil {
				return
			}
			on[i] = !on[i]
			if !c.judgeCommand(e, sec, v, targets, on) {
				return
			}
		}
	}
	c.judgeStatements(e, sec, v)
}

// judgeCommand runs the command the page proposes with the ticked suggestions.
func (c *C) judgeCommand(e *exCase, sec map[string]any, v *PView, targets []Target, on []bool) bool {
	c.Eval(3)
	text, ok := prompted(v.Tree.TestID("suggest"))
	if !ok {
		c.Fail("command", "the page proposes no command")
		return false
	}
	c.Ctx("shown command: %s", text)
	prog, _, argv, err := shell(text)
	if err != nil {
		c.Fail("command", "the proposed command cannot be run: %v", err)
		return false
	}
	words, opts, why := callOf(argv)
	if why != "" || prog != "gr" {
		c.Fail("command", "the proposed command is not right: %s %q: %s", prog, argv, why)
		return false
	}
	want := map[string][]string{"--with-examine": {""}}
	for i, t := range targets {
		if on[i] {
			want["-i"] = append(want["-i"], t.Table+":"+strings.Join(t.Cols, "+"))
		}
	}
	if len(want["-i"]) == 0 && fmt.Sprint(opts["-i"]) == "[...]" {
		want["-i"] = []string{"..."} // nothing ticked: a place to fill in
	}
	os, why := cmdOpts(sec)
	if why != "" {
		c.Fail("options", "%s", why)
		return false
	}
	for n, o := range os {
		d := "--"
		if o.short {
			d = "-"
		}
		want[d+n] = []string{o.value}
	}
	sub := map[string]string{"mysql": "mysql", "postgres": "postgres", "hasura": "hasura postgres"}[e.flavor]
	a, b := callText(words, opts), callText(strings.Fields("db suggest "+sub), want)
	if a != b {
		c.Fail("command", "the proposed command runs %s, expected %s", cut(a), cut(b))
		return false
	}
	c.Count("commands_run", 1)
	return true
}

func (c *C) judgeStatements(e *exCase, sec map[string]any, v *PView) {
	_, res, present, err := Exam(sec)
	if err != nil || !present {
		return
	}
	card := v.Tree.TestID("examination")
	var rows []*PNode
	for _, tr := range card.All("tr") {
		if len(tr.All("th")) == 0 {
			rows = append(rows, tr)
		}
	}
	if len(rows) != len(res)+1 {
		c.Fail("exam", "the page shows %d rows, the examination has %d results", len(rows), len(res))
		return
	}
	for i, x := range res {
		c.Eval(1)
		var td *PNode
		n := 0
		for _, k := range rows[i+1].C {
			if k.Node != nil && k.Node.T == "td" {
				if n == 3 {
					td = k.Node
				}
				n++
			}
		}
		if td == nil {
			c.Fail("sql", "row %d has no statement", i)
			return
		}
		sql := ""
		for _, k := range td.C {
			if k.Node == nil {
				sql += k.Text
			} else if len(k.Node.All("button")) == 0 && k.Node.T != "button" {
				sql += k.Node.Text()
			}
		}
		sql = jsTrim(sql)
		got, why := indexSQL(e.base, sql)
		if why != "" {
			c.Fail("sql", "the statement %q cannot be run: %s", sql, why)
			return
		}
		if got.String() != x.Target.String() {
			c.Fail("sql", "the statement %q makes an index on %s, examined was %s", sql, got, x.Target)
			return
		}
		c.Count("statements", 1)
		if e.flavor != "hasura" {
			continue
		}
		var press *int
		td.Walk(func(n *PNode) bool {
			if n.N != nil && n.T == "button" && strings.Contains(n.Text(), "Copy as Curl") && len(n.All("button")) == 1 {
				press = n.N
			}
			return true
		})
		if press == nil {
			c.Fail("curl", "row %d has nothing to copy", i)
			return
		}
		w := c.Do("press", map[string]any{"n": *press})
		if w == nil {
			return
		}
		if len(w.Clip) == 0 {
			c.Fail("curl", "nothing was copied")
			return
		}
		text := w.Clip[len(w.Clip)-1]
		c.Ctx("copied: %s", text)
		prog, _, argv, serr := shell(text)
		if serr != nil || prog != "curl" {
			c.Fail("curl", "the copied command cannot be run: %v", serr)
			return
		}
		if why := curlMakes(argv, x.Target); why != "" {
			c.Fail("curl", "the copied command is not right: %s: %q", why, argv)
			return
		}
		c.Count("curl_commands", 1)
	}
}

func curlMakes(argv []string, t Target) string {
	var url, method, data string
	head := map[string]string{}
	for i := 0; i < len(argv); i++ {
		next := func() string {
			if i+1 < len(argv) {
				i++
				return argv[i]
			}
			return ""
		}
		switch a := argv[i]; a {
		case "--request", "-X":
			method = next()
		case "--url":
			url = next()
		case "--header", "-H":
			k, v, _ := strings.Cut(next(), ":")
			head[strings.ToLower(k)] = strings.TrimSpace(v)
		case "--data", "-d", "--data-raw", "--data-binary":
			data = next()
		default:
			if strings.HasPrefix(a, "-") {
				return "unknown option " + a
			}
			url = a
		}
	}
	if method != "POST" && method != "" || data == "" {
		return "it posts nothing"
	}
	if url != "http://hasura.example/base/v2/query" {
		return "it goes to " + url
	}
	if head["x-hasura-admin-secret"] != "s3cr et" || !strings.HasPrefix(head["content-type"], "application/json") {
		return fmt.Sprintf("its headers are %v", head)
	}
	var m map[string]any
	if err := json.Unmarshal([]byte(data), &m); err != nil {
		return "its body is not JSON: " + err.Error()
	}
	args, _ := m["args"].(map[string]any)
	sql, _ := args["sql"].(string)
	if m["type"] != "run_sql" {
		return "it does not run a statement"
	}
	got, why := indexSQL("postgres", sql)
	if why != "" {
		return fmt.Sprintf("the statement %q cannot be run: %s", sql, why)
	}
	if got.String() != t.String() {
		return fmt.Sprintf("the statement makes an index on %s, examined was %s", got, t)
	}
	return ""
}

// p25pi: the command a load page proposes for a statement.
func p25pi(c *C) {
	r := c.R
	startStr, start := piStart(r)
	sim := genPi(r, start, false)
	for _, in := range sim.Insts {
		in.engine = "mysql"
		for _, s := range in.series {
			if chance(r, 0.6) {
				s.sql = strings.ReplaceAll("SELECT "+nastyText(r), "\x00", "")
			}
			for i := range s.pts {
				if chance(r, 0.5) {
					s.pts[i].Value = sp(0.01 + r.Float64())
				}
			}
		}
	}
	rep := c.piReport(sim, startStr)
	if rep == nil {
		return
	}
	v := c.Open("main", rep)
	if v == nil {
		return
	}
	// the plain tab: every bar is a statement
	for _, id := range []string{"sqls", "timeline"} {
		ci := chartIn(v.Tree.TestID(id))
		if ci < 0 {
			c.Fail("chart", "no chart in %s", id)
			return
		}
		for k := 0; k < 3; k++ {
			s, p, sql, ok := pickBar(r, v.Charts[ci], id == "sqls")
			if !ok {
				break
			}
			w := c.Do("bar", map[string]any{"chart": ci, "s": s, "p": p})
			if w == nil {
				return
			}
			dbs := dbsOf(rep, "sqlDbLoads")
			if !c.judgePiCommand(w.Tree.TestID(id), sql, dbs[:1]) {
				return
			}
			c.Seen("%s|%d|%d", id, len(sql), len(dbs))
		}
	}
	// the tokenized tab: choose one of the plain statements behind a bar
	if v = c.pressTab(v, "tokenized"); v == nil {
		return
	}
	raw, _ := piCells(rep, "sqlDbLoads")
	for k := 0; k < 2; k++ {
		part := piPart(v, k)
		ci := chartIn(part)
		if ci < 0 {
			c.Fail("chart", "no chart in the tokenized tab")
			return
		}
		s, p, _, ok := pickBar(r, v.Charts[ci], k == 0)
		if !ok {
			continue
		}
		if v = c.Do("bar", map[string]any{"chart": ci, "s": s, "p": p}); v == nil {
			return
		}
		rows := dataRows(piPart(v, k))
		for n := 0; n < 2; n++ {
			i := r.Intn(len(rows))
			row := cells(rows[i])
			radios := rows[i].All("radio")
			if len(row) != 5 || len(radios) != 1 || radios[0].N == nil {
				break // none to choose
			}
			if v = c.Do("press", map[string]any{"n": *radios[0].N}); v == nil {
				return
			}
			rows = dataRows(piPart(v, k))
			sqls := map[string]bool{}
			db := ""
			for _, x := range raw {
				if squeeze(x.sql) == row[4] && squeeze(x.db) == row[1] {
					sqls[x.sql] = true
					db = x.db
				}
			}
			if len(sqls) != 1 {
				continue
			}
			for sql := range sqls {
				if !c.judgePiCommand(piPart(v, k), sql, []string{db}) {
					return
				}
			}
			c.Count("plain_statements_chosen", 1)
		}
	}
}
