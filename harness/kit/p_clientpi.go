package verifkit

import (
	"encoding/json"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"time"
)

// piReport runs the dig command and reads its report.
func (c *C) piReport(sim *PiSim, startStr string) *Report {
	sim.describe(c, startStr)
	out := c.Out("report.html")
	rds, pi := sim.clients()
	err, pan := protect(func() error { return c.H.PI(startStr, out, rds, pi) })
	if pan != "" || err != nil {
		c.Fail("unexpected-error", "nothing failed but the command reported: %v %s", err, pan)
		return nil
	}
	rep, perr := ParseReport(out)
	if perr != nil {
		c.Fail("report", "%v", perr)
		return nil
	}
	c.Ctx("report: %.6000s", rep.Raw)
	return rep
}

// piCell is one statement's load in one hour of the report.
type piCell struct {
	hour     int
	ts       int64
	db, sql  string
	token    string
	max, sum float64
}

func piCells(rep *Report, key string) (cells []piCell, hours []int64) {
	l, _ := rep.At("digData", "performanceInsights", key).([]any)
	for i, e := range l {
		m, _ := e.(map[string]any)
		n, _ := m["timestamp"].(json.Number)
		ts, _ := n.Int64()
		hours = append(hours, ts)
		dbs, _ := m["databases"].([]any)
		for _, de := range dbs {
			dm, _ := de.(map[string]any)
			name, _ := dm["name"].(string)
			sqls, _ := dm["sqls"].([]any)
			for _, se := range sqls {
				sm, _ := se.(map[string]any)
				x := piCell{hour: i, ts: ts, db: name}
				x.sql, _ = sm["sql"].(string)
				x.token, _ = sm["tokenizedId"].(string)
				x.max, _ = fnum(sm, "loadMax")
				x.sum, _ = fnum(sm, "loadSum")
				cells = append(cells, x)
			}
		}
	}
	return cells, hours
}

// dbsOf lists the databases of a list of loads the way the page orders them.
func dbsOf(rep *Report, key string) []string {
	l, _ := rep.At("digData", "performanceInsights", key).([]any)
	seen := map[string]bool{}
	var out []string
	for _, e := range l {
		m, _ := e.(map[string]any)
		dbs, _ := m["databases"].([]any)
		for _, de := range dbs {
			dm, _ := de.(map[string]any)
			if n, _ := dm["name"].(string); !seen[n] {
				seen[n] = true
				out = append(out, n)
			}
		}
	}
	sort.Strings(out)
	return out
}

func chartIn(n *PNode) int {
	ci := -1
	n.Walk(func(x *PNode) bool {
		if x.Chart != nil {
			ci = *x.Chart
		}
		return true
	})
	return ci
}

// pickBar chooses a bar with a load: its place and its statement.
func pickBar(r *rand.Rand, ch pChart, ranking bool) (s, p int, sql string, ok bool) {
	type at struct{ s, p int }
	var all []at
	for i, se := range ch.Series {
		for j, d := range se.Data {
			if len(d) == 2 {
				if y, ok := anyNum(d[1]); ok && y > 0 {
					all = append(all, at{i, j})
				}
			}
		}
	}
	if len(all) == 0 {
		return 0, 0, "", false
	}
	x := all[r.Intn(len(all))]
	se := ch.Series[x.s]
	if ranking {
		sql, _ = se.Data[x.p][0].(string)
	} else if se.Name != nil {
		sql = *se.Name
	}
	return x.s, x.p, sql, true
}

// judgePiCommand runs the command a load page proposes.
func (c *C) judgePiCommand(part *PNode, sql string, dbs []string) bool {
	c.Eval(3)
	text, ok := prompted(part)
	if !ok {
		c.Fail("command", "the page proposes no command")
		return false
	}
	c.Ctx("shown command: %s", text)
	prog, db, argv, err := shell(text)
	if err != nil {
		c.Fail("command", "the proposed command cannot be run: %v", err)
		return false
	}
	words, opts, why := callOf(argv)
	if why != "" || prog != "gr" {
		c.Fail("command", "the proposed command is not right: %s %q: %s", prog, argv, why)
		return false
	}
	found := false
	for _, d := range dbs {
		found = found || d == db
	}
	if !found {
		c.Fail("command", "the proposed command is for database %q, the statement was seen on %q", db, dbs)
		return false
	}
	a := callText(words, map[string][]string{"-q": opts["-q"]})
	b := callText(strings.Fields("db suggest mysql"), map[string][]string{"-q": {sql}})
	if a != b || len(opts["-o"]) != 1 || len(opts) != 2 || opts["-o"][0] == "" {
		c.Fail("command", "the proposed command runs %s with the output %q, expected %s", cut(a), opts["-o"], cut(b))
		return false
	}
	c.Count("commands_run", 1)
	return true
}

// P26 the load pages show exactly the report's loads.

func init() {
	register("P26", "pi", p26)
}

const heavy = 0.005 // loads below half a percent are left out of the timeline

func piPage(r *rand.Rand, sim *PiSim) {
	for _, in := range sim.Insts {
		if chance(r, 0.8) {
			in.engine = "mysql"
		}
		for _, s := range in.series {
			if chance(r, 0.3) {
				s.sql = strings.ReplaceAll("SELECT "+nastyText(r), "\x00", "")
			}
			if chance(r, 0.3) { // more than one raw statement of one shape
				s.token = "0000AAAA"
			}
			for i := range s.pts {
				switch r.Intn(6) {
				case 0:
					s.pts[i].Value = sp(heavy)
				case 1:
					s.pts[i].Value = sp(heavy * (0.9 + 0.2*r.Float64()))
				case 2:
					s.pts[i].Value = sp(r.Float64() * 3)
				}
			}
		}
	}
}

// parts of the open page by the cards' order: ranking first, then timeline
func piParts(v *PView) (rank, line *PNode) {
	ds := v.Tree.All("details")
	if len(ds) != 2 {
		return nil, nil
	}
	return ds[0], ds[1]
}

func p26(c *C) {
	r := c.R
	startStr, start := piStart(r)
	sim := genPi(r, start, chance(r, 0.15))
	piPage(r, sim)
	rep := c.piReport(sim, startStr)
	if rep == nil {
		return
	}
	v := c.Open("main", rep)
	if v == nil {
		return
	}
	for _, tab := range []string{"plain", "tokenized"} {
		if tab == "tokenized" {
			if v = c.pressTab(v, tab); v == nil {
				return
			}
		}
		key := map[string]string{"plain": "sqlDbLoads", "tokenized": "tokenizedSqlDbLoads"}[tab]
		for k := 0; k < 2; k++ {
			if v = c.judgePiPart(rep, v, tab, key, k); v == nil || c.Failed() {
				return
			}
		}
	}
}

func piPart(v *PView, k int) *PNode {
	a, b := piParts(v)
	if k == 0 {
		return a
	}
	return b
}

// judgePiPart judges one chart (k 0: ranking, 1: timeline) under several choices of databases.
func (c *C) judgePiPart(rep *Report, v *PView, tab, key string, k int) *PView {
	r := c.R
	cells, hours := piCells(rep, key)
	raw, _ := piCells(rep, "sqlDbLoads")
	dbs := dbsOf(rep, key)
	on := map[string]bool{}
	if len(dbs) > 0 {
		on[dbs[0]] = true
	}
	for round := 0; round < 3; round++ {
		part := piPart(v, k)
		if part == nil {
			c.Fail("parts", "the page has not the two charts of the %s tab", tab)
			return nil
		}
		boxes := part.All("checkbox")
		if len(dbs) > 1 {
			if len(boxes) != len(dbs) {
				c.Fail("databases", "%d databases can be chosen, the report has %d", len(boxes), len(dbs))
				return nil
			}
			for i, b := range boxes {
				c.Eval(1)
				if squeeze(b.Text()) != squeeze(dbs[i]) || (b.A["checked"] == "true") != on[dbs[i]] {
					c.Fail("databases", "box %d is %q checked=%s, expected %q checked=%v", i, b.Text(), b.A["checked"], dbs[i], on[dbs[i]])
					return nil
				}
			}
		}
		ci := chartIn(part)
		if ci < 0 {
			c.Fail("chart", "there is no chart")
			return nil
		}
		if k == 0 {
			c.judgeRanking(cells, on, v.Charts[ci])
		} else {
			c.judgeTimeline(cells, hours, on, v.Charts[ci])
		}
		if c.Failed() {
			c.Ctx("tab %s part %d databases %v", tab, k, on)
			return nil
		}
		c.Seen("%s|%d|%d|%d|%d", tab, k, len(on), len(v.Charts[ci].Series), minInt(len(cells), 30))
		if s, p, sql, ok := pickBar(r, v.Charts[ci], k == 0); ok {
			if v = c.judgeBar(v, ci, s, p, sql, tab, k, cells, raw, on, hours); v == nil {
				return nil
			}
		}
		if len(dbs) < 2 {
			break
		}
		i := r.Intn(len(dbs))
		boxes = piPart(v, k).All("checkbox")
		if len(boxes) != len(dbs) || boxes[i].N == nil {
			c.Fail("databases", "the databases cannot be chosen")
			return nil
		}
		if v = c.Do("press", map[string]any{"n": *boxes[i].N}); v == nil {
			return nil
		}
		if on[dbs[i]] {
			delete(on, dbs[i])
		} else {
			on[dbs[i]] = true
		}
	}
	return v
}

type dbSQL struct{ db, sql string }

func (c *C) judgeRanking(cells []piCell, on map[string]bool, ch pChart) {
	sums := map[dbSQL]float64{}
	for _, x := range cells {
		if on[x.db] {
			sums[dbSQL{x.db, x.sql}] += x.sum * 100
		}
	}
	var ys []float64
	for _, y := range sums {
		ys = append(ys, y)
	}
	sort.Sort(sort.Reverse(sort.Float64Slice(ys)))
	n := minInt(len(ys), 20)
	if len(ch.Series) != 1 || len(ch.Series[0].Data) != n {
		c.Fail("ranking", "the ranking shows %d statements, expected %d", len(ch.Series[0].Data), n)
		return
	}
	left := map[dbSQL]bool{}
	for k := range sums {
		left[k] = true
	}
	for i, d := range ch.Series[0].Data {
		c.Eval(2)
		sql, _ := d[0].(string)
		y, ok := anyNum(d[1])
		if !ok || !near(y, ys[i]) {
			c.Fail("ranking", "place %d has the load %v, expected %v", i, d[1], ys[i])
			return
		}
		found := false
		for k := range left {
			if k.sql == sql && near(sums[k], y) {
				delete(left, k)
				found = true
				break
			}
		}
		if !found {
			c.Fail("ranking", "place %d is %q with %v, no such load", i, sql, y)
			return
		}
		c.Count("ranked", 1)
	}
}

func (c *C) judgeTimeline(cells []piCell, hours []int64, on map[string]bool, ch pChart) {
	want := map[dbSQL][]float64{}
	for _, x := range cells {
		if !on[x.db] || x.max < heavy {
			continue
		}
		k := dbSQL{x.db, x.sql}
		if want[k] == nil {
			want[k] = make([]float64, len(hours))
		}
		want[k][x.hour] = x.max * 100
	}
	seen := map[dbSQL]bool{}
	for _, s := range ch.Series {
		if s.Name == nil || s.Database == nil {
			c.Fail("timeline", "a series has no name: %s", js(s))
			return
		}
		k := dbSQL{*s.Database, *s.Name}
		w := want[k]
		if w == nil || seen[k] {
			c.Fail("timeline", "unexpected series for %q of %q (again: %v)", k.sql, k.db, seen[k])
			return
		}
		seen[k] = true
		if len(s.Data) != len(hours) {
			c.Fail("timeline", "the series of %q has %d points, there are %d hours", k.sql, len(s.Data), len(hours))
			return
		}
		for i, d := range s.Data {
			c.Eval(1)
			x, _ := anyNum(d[0])
			y, ok := anyNum(d[1])
			if int64(x) != hours[i] || !ok || !near(y, w[i]) {
				c.Fail("timeline", "point %d of %q is %v at %v, expected %v at %d", i, k.sql, d[1], d[0], w[i], hours[i])
				return
			}
		}
		c.Count("timeline_points", len(s.Data))
	}
	if len(seen) != len(want) {
		c.Fail("timeline", "the timeline shows %d statements, expected %d", len(seen), len(want))
	}
}

func fixed2(y float64) (string, string) { // both ways of rounding a tie
	return strconv.FormatFloat(y-1e-9, 'f', 2, 64), strconv.FormatFloat(y+1e-9, 'f', 2, 64)
}

// judgeBar points at and clicks a bar.
func (c *C) judgeBar(v *PView, ci, s, p int, sql, tab string, k int, all, raw []piCell, on map[string]bool, hours []int64) *PView {
	d := v.Charts[ci].Series[s].Data[p]
	y, _ := anyNum(d[1])
	// which statements of the report the bar can stand for
	var dbs []string
	tokens := map[string]bool{}
	var db string
	if k == 1 {
		db = *v.Charts[ci].Series[s].Database
	}
	sums := map[dbSQL]float64{}
	for _, x := range all {
		sums[dbSQL{x.db, x.sql}] += x.sum * 100
	}
	got := map[string]bool{}
	for _, x := range all {
		if x.sql != sql || !on[x.db] || db != "" && x.db != db || k == 0 && !near(sums[dbSQL{x.db, x.sql}], y) {
			continue
		}
		tokens[x.token] = true
		if !got[x.db] {
			got[x.db] = true
			dbs = append(dbs, x.db)
		}
	}
	t := c.Do("tooltip", map[string]any{"chart": ci, "s": s, "p": p})
	if t == nil {
		return nil
	}
	c.Eval(3)
	tip := squeeze(htmlText(t.Text))
	c.Ctx("tooltip: %s", t.Text)
	a, b := fixed2(y)
	okDB := false
	for _, x := range dbs {
		okDB = okDB || strings.Contains(tip, "Database: "+squeeze(x))
	}
	if !okDB || !strings.HasSuffix(tip, squeeze(sql)) || !strings.Contains(tip, a+"%") && !strings.Contains(tip, b+"%") {
		c.Fail("tooltip", "the tooltip says %.300q, the bar is %q of %q with %v%%", tip, sql, dbs, y)
		return nil
	}
	if k == 1 && !strings.Contains(tip, time.UnixMilli(hours[p]).UTC().Format("02 Jan 2006 15:04:05")) {
		c.Fail("tooltip", "the tooltip says %.300q, the hour is %s", tip, time.UnixMilli(hours[p]).UTC())
		return nil
	}
	c.Count("tooltips", 1)
	w := c.Do("bar", map[string]any{"chart": ci, "s": s, "p": p})
	if w == nil {
		return nil
	}
	if tab == "plain" {
		return w
	}
	part := piPart(w, k)
	var rows [][]string
	for _, tr := range dataRows(part) {
		rows = append(rows, cells(tr))
	}
	why := ""
	var chosen []piCell
	for tok := range tokens {
		chosen = nil
		for _, x := range raw {
			if x.token == tok {
				chosen = append(chosen, x)
			}
		}
		sort.SliceStable(chosen, func(i, j int) bool { return chosen[i].max > chosen[j].max })
		if why = rawRows(rows, chosen); why == "" {
			break
		}
	}
	c.Eval(1 + len(rows))
	if why != "" {
		c.Fail("raw", "clicking %q lists %s", sql, why)
		return nil
	}
	c.Count("raw_rows", len(rows))
	if len(chosen) == 0 {
		c.Count("no_raw_statement", 1)
	}
	return w
}

// dataRows are the rows of a part that are not headings.
func dataRows(part *PNode) (out []*PNode) {
	for _, tr := range part.All("tr") {
		if len(tr.All("th")) == 0 {
			out = append(out, tr)
		}
	}
	return out
}

// pressTab opens a tab of the load page.
func (c *C) pressTab(v *PView, id string) *PView {
	for _, t := range v.Tree.All("tab") {
		if t.A["tabid"] == id && t.N != nil {
			return c.Do("press", map[string]any{"n": *t.N})
		}
	}
	c.Fail("tab", "there is no tab %s", id)
	return nil
}

// rawRows compares the listed raw statements with those of the shape, heaviest first.
func rawRows(rows [][]string, want []piCell) string {
	if len(want) == 0 {
		if len(rows) == 1 && strings.Contains(strings.Join(rows[0], " "), "No data") {
			return ""
		}
		return "statements although there are none: " + js(rows)
	}
	n := minInt(len(want), 10)
	if len(rows) != n {
		return "a number of statements that is not " + strconv.Itoa(n) + ": " + js(rows)
	}
	used := make([]bool, len(want))
	for i, row := range rows {
		if len(row) != 5 {
			return "a row that cannot be read: " + js(row)
		}
		a, b := fixed2(want[i].max * 100)
		if row[2] != a+"%" && row[2] != b+"%" {
			return "place " + strconv.Itoa(i) + " with the load " + row[2] + ", expected " + a + "%"
		}
		found := false
		for j, x := range want {
			a, b := fixed2(x.max * 100)
			if !used[j] && squeeze(x.sql) == row[4] && squeeze(x.db) == row[1] && (row[2] == a+"%" || row[2] == b+"%") &&
				strings.Contains(row[3], time.UnixMilli(x.ts).UTC().Format("02 Jan 2006 15:04:05")) {
				used[j], found = true, true
				break
			}
		}
		if !found {
			return "a statement that is not in the report: " + js(row)
		}
	}
	return ""
}
