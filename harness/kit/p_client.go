package verifkit

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// P24 what the page of a suggestion report shows.

func init() {
	register("P24", "suggest", p24)
}

// flatNode is a plan node of the report's data with its place in the chart.
type flatNode struct {
	m          map[string]any
	text       string
	title      string
	table      string
	start, end float64
	kids       int
}

func fnum(m map[string]any, k string) (float64, bool) {
	n, ok := m[k].(json.Number)
	if !ok {
		return 0, false
	}
	f, err := n.Float64()
	return f, err == nil
}

// flatten lists the nodes in the order of the text and works out when each runs.
func flatten(v any, flavor string, out *[]*flatNode) float64 {
	m, _ := v.(map[string]any)
	f := &flatNode{m: m}
	f.text, _ = m["text"].(string)
	f.title, _ = m["title"].(string)
	f.table, _ = m["tableName"].(string)
	*out = append(*out, f)
	kids, _ := m["children"].([]any)
	f.kids = len(kids)
	for _, k := range kids {
		f.start = math.Max(f.start, flatten(k, flavor, out))
	}
	f.end = f.start
	if flavor == "hasura" {
		if c, ok := fnum(m, "estimatedCost"); ok {
			f.end = math.Max(f.start, c)
		}
		return f.end
	}
	avg, ok := fnum(m, "actualTimeAvg")
	if !ok {
		return f.end
	}
	own := avg
	loops, _ := fnum(m, "actualLoopCount")
	if flavor == "mysql" && loops > 1 {
		own = f.start + avg*loops
		if avg == 0 && loops > 1000 {
			own = f.start + 0.0001*loops
		}
	}
	f.end = math.Max(f.start, own)
	return f.end
}

func near(a, b float64) bool { return math.Abs(a-b) <= 1e-9+1e-9*math.Max(math.Abs(a), math.Abs(b)) }

func anyNum(v any) (float64, bool) {
	f, ok := v.(float64)
	return f, ok
}

// jsNum is a JSON number as the page writes it.
func jsNum(n json.Number) string {
	f, err := n.Float64()
	if err != nil {
		return string(n)
	}
	if f == math.Trunc(f) && math.Abs(f) < 1e21 {
		return strconv.FormatFloat(f, 'f', -1, 64)
	}
	if math.Abs(f) < 1e21 && math.Abs(f) >= 1e-6 {
		return strconv.FormatFloat(f, 'f', -1, 64)
	}
	s := strconv.FormatFloat(f, 'e', -1, 64)
	s = regexp.MustCompile(`e([+-])0+`).ReplaceAllString(s, "e$1")
	return s
}

// planOf gives the case a plan of its own.
func (c *C) planOf(e *exCase, r *rand.Rand) {
	max := 12
	if chance(r, 0.1) {
		max = 40
	}
	var lines []string
	if e.base == "mysql" {
		renderMy(genTree(r, max, func(d int) *planNode { return genMyNode(r, d) }), 0, &lines)
		for k := 1; k < 3 && chance(r, 0.15); k++ { // subqueries of the select list stand beside the plan
			renderMy(genTree(r, 6, func(d int) *planNode { return genMyNode(r, d) }), 0, &lines)
			c.Count("plans_of_several_trees", 1)
		}
		e.sim.Plan = lines
		return
	}
	renderPg(genTree(r, max, func(d int) *planNode { return genPgNode(r, d) }), 0, true, e.flavor == "postgres", &lines)
	if e.flavor == "postgres" || chance(r, 0.3) {
		if chance(r, 0.4) {
			lines = append(lines, "Planning:", "  Buffers: shared hit=3")
		}
		lines = append(lines, "Planning Time: 0.123 ms", "Execution Time: 1.234 ms")
	}
	e.sim.Plan = lines
}

// report runs a suggest command and reads its report.
func (c *C) report(e *exCase) *Report {
	c.Ctx("query %q", e.o.Query)
	c.describe(e)
	err, pan := c.Suggest(e.flavor, e.o, e.sim, e.hs)
	if pan != "" || err != nil {
		c.Fail("unexpected-error", "nothing failed but the command reported: %v %s", err, pan)
		return nil
	}
	rep, perr := ParseReport(e.o.Output)
	if perr != nil {
		c.Fail("report", "%v", perr)
		return nil
	}
	c.Ctx("report: %s", rep.Raw)
	return rep
}

func p24(c *C) {
	r := c.R
	flavor := flavors[c.Idx%3]
	e := c.newExCase(flavor, 3, false)
	if chance(r, 0.6) {
		c.nastyCase(e)
	}
	if chance(r, 0.7) {
		c.planOf(e, r)
	}
	e.o.Examine = chance(r, 0.6)
	if e.o.Examine {
		if chance(r, 0.6) {
			e.o.Targets = texts(safeOnly(c.randomTargets(e, 1+r.Intn(8))))
		}
	}
	rep := c.report(e)
	if rep == nil {
		return
	}
	sec := rep.Section(flavor)
	if ex, _ := sec["examinationResult"].(map[string]any); ex != nil && chance(r, 0.7) {
		// as if the database had taken longer
		ms := func() json.Number {
			return json.Number(fmt.Sprint(r.Int63n(pick(r, int64(2), 10, 100, 2000, 5000000))))
		}
		ex["originalTimeMillis"] = ms()
		l, _ := ex["indexResults"].([]any)
		for _, x := range l {
			x.(map[string]any)["executionTimeMillis"] = ms()
		}
		rep.Raw = js(rep.Data)
	}
	v := c.Open("main", rep)
	if v == nil {
		return
	}
	c.judgeTexts(e, sec, v)
	if !c.Failed() {
		c.judgeChart(e, sec, v)
	}
	if !c.Failed() {
		c.judgeList(sec, v)
	}
	if !c.Failed() {
		c.judgeExamTable(e, sec, v)
	}
}

func (c *C) judgeTexts(e *exCase, sec map[string]any, v *PView) {
	c.Eval(2)
	q, _ := sec["query"].(string)
	card := v.Tree.TestID("sql")
	if card == nil {
		c.Fail("sql", "the page does not show the statement")
		return
	}
	if why := follow(card.Own(), []string{jsTrim(q)}); why != "" {
		c.Fail("sql", "the page does not show the statement: %s", why)
		return
	}
	if e.flavor == "hasura" {
		c.Eval(2)
		card := v.Tree.TestID("query")
		if card == nil {
			c.Fail("gql", "the page does not show the GraphQL query")
			return
		}
		t := jsTrim(card.Own())
		g, _ := sec["gql"].(string)
		if !strings.HasPrefix(t, jsTrim(g)) {
			c.Fail("gql", "the page does not show the GraphQL query: %.200q", t)
			return
		}
		rest := t[len(jsTrim(g)):]
		i := strings.Index(rest, "{")
		if n := strings.Index(rest, "null"); i < 0 || (n >= 0 && n < i) {
			i = n
		}
		if i < 0 || strings.Count(jsTrim(rest[:i]), "\n") > 0 {
			c.Fail("gql", "the page does not show the variables: %.200q", rest)
			return
		}
		var got, want any
		if json.Unmarshal([]byte(js(sec["gqlVariables"])), &want) != nil {
			c.Count("numbers_beyond_javascript", 1)
		} else if json.Unmarshal([]byte(rest[i:]), &got) != nil || js(got) != js(want) {
			c.Fail("gql", "the page shows the variables %.200q, they are %.200q", rest[i:], js(sec["gqlVariables"]))
			return
		}
	}
	var flat []*flatNode
	for _, n := range sec["analyzeNodes"].([]any) {
		flatten(n, e.flavor, &flat)
	}
	var pieces []string
	for _, f := range flat {
		pieces = append(pieces, f.text)
	}
	if s, _ := sec["summaryText"].(string); s != "" {
		pieces = append(pieces, "-----------", s)
	}
	card = v.Tree.TestID("explain")
	if card == nil {
		c.Fail("plan", "the page does not show the plan")
		return
	}
	c.Eval(len(pieces))
	if why := follow(card.Own(), pieces); why != "" {
		c.Fail("plan", "the page does not show the plan as it is: %s", why)
		return
	}
	c.Count("plan_lines", len(pieces))
	sh := ""
	for _, f := range flat {
		sh += strconv.Itoa(f.kids)
	}
	c.Seen("%s|%v|%s", e.flavor, e.o.Examine, sh)
}

var tipLabels = []struct{ label, key string }{
	{"Initial cost (estimated)", "estimatedInitCost"},
	{"Cost (estimated)", "estimatedCost"},
	{"Rows returned (estimated)", "estimatedReturnedRows"},
	{"Width (estimated)", "estimatedWidth"},
	{"Time first row (actual)", "actualTimeFirstRow"},
	{"Rows returned (actual)", "actualReturnedRows"},
	{"Loop count (actual)", "actualLoopCount"},
}

func tipLine(tip, label string) (string, bool) {
	for _, l := range strings.Split(tip, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, label) {
			if i := strings.Index(l, ":"); i >= 0 {
				return strings.TrimSpace(l[i+1:]), true
			}
		}
	}
	return "", false
}

func (c *C) judgeChart(e *exCase, sec map[string]any, v *PView) {
	r := c.R
	var flat []*flatNode
	for _, n := range sec["analyzeNodes"].([]any) {
		flatten(n, e.flavor, &flat)
	}
	card := v.Tree.TestID("explainChart")
	ci := -1
	card.Walk(func(n *PNode) bool {
		if n.Chart != nil {
			ci = *n.Chart
		}
		return true
	})
	if ci < 0 || ci >= len(v.Charts) {
		c.Fail("chart", "the page draws no timeline")
		return
	}
	ch := v.Charts[ci]
	if len(ch.Series) != 1 || len(ch.Series[0].Data) != len(flat) {
		c.Fail("chart", "the timeline has %d series, the plan %d nodes: %s", len(ch.Series), len(flat), js(ch.Series))
		return
	}
	xs := map[string]bool{}
	for i, f := range flat {
		d := ch.Series[0].Data[i]
		c.Eval(3)
		if len(d) != 3 {
			c.Fail("chart", "bar %d is %s", i, js(d))
			return
		}
		a, ok1 := anyNum(d[1])
		b, ok2 := anyNum(d[2])
		if !ok1 || !ok2 {
			c.Fail("chart", "bar %d (%q) runs from %v to %v", i, f.title, d[1], d[2])
			return
		}
		if !near(b, f.end) || a > f.start+1e-9 || a < math.Min(f.start, f.end)-0.0011 {
			c.Fail("chart", "bar %d (%q) runs from %v to %v, expected %v to %v", i, f.title, a, b, f.start, f.end)
			return
		}
		x := fmt.Sprint(d[0])
		if xs[x] {
			c.Fail("chart", "two bars stand in the same row %s", x)
			return
		}
		xs[x] = true
		if len(ch.Labels) != 1 || ch.Labels[0][i] != f.title {
			c.Fail("label", "bar %d is labelled %s, expected %q", i, js(ch.Labels), f.title)
			return
		}
	}
	c.Count("bars", len(flat))
	for k := 0; k < 3; k++ {
		i := r.Intn(len(flat))
		f := flat[i]
		t := c.Do("tooltip", map[string]any{"chart": ci, "s": 0, "p": i})
		if t == nil {
			return
		}
		c.Eval(9)
		c.Count("tooltips", 1)
		c.Ctx("tooltip of bar %d: %s", i, t.Text)
		tip := htmlText(t.Text)
		if want := squeeze(prefix16(jsTrim(f.text), 49)); !strings.Contains(squeeze(tip), want) {
			c.Fail("tooltip", "the tooltip of bar %d says %.300q, it stands for %q", i, squeeze(tip), want)
			return
		}
		if f.table != "" && !strings.Contains(squeeze(tip), "Table: "+squeeze(f.table)) {
			c.Fail("tooltip", "the tooltip of bar %d says %.300q, the table is %q", i, squeeze(tip), f.table)
			return
		}
		for _, l := range tipLabels {
			got, there := tipLine(tip, l.label)
			n, has := f.m[l.key].(json.Number)
			if !has {
				if there && got != "-" {
					c.Fail("tooltip", "the tooltip of bar %d says %s is %q, it is not known", i, l.label, got)
					return
				}
				continue
			}
			if l.key == "actualTimeFirstRow" && e.flavor == "postgres" {
				continue // part of "Time (actual)"
			}
			if strings.HasPrefix(l.key, "actual") && e.flavor == "hasura" {
				continue // its plans are estimates
			}
			if !there || got != jsNum(n) {
				c.Fail("tooltip", "the tooltip of bar %d says %s is %q, it is %s", i, l.label, got, n)
				return
			}
		}
		if avg, has := f.m["actualTimeAvg"].(json.Number); has && e.flavor != "hasura" {
			first, _ := f.m["actualTimeFirstRow"].(json.Number)
			got, _ := tipLine(tip, "Time (actual)")
			want := jsNum(avg)
			if e.flavor == "postgres" {
				want = jsNum(first) + " ~ " + jsNum(avg)
			} else if l, _ := fnum(f.m, "actualLoopCount"); l > 1 {
				got, _ = tipLine(tip, "Time per loop (actual)")
			}
			if got != want {
				c.Fail("tooltip", "the tooltip of bar %d says the time is %q, it is %q", i, got, want)
				return
			}
		}
		// pointing at the bar marks its text and no other
		h := c.Do("hover", map[string]any{"chart": ci, "s": 0, "p": i})
		if h == nil {
			return
		}
		var bold []string
		h.Tree.TestID("explain").Walk(func(n *PNode) bool {
			for _, w := range strings.Fields(n.A["class"]) {
				if w == "bold" {
					bold = append(bold, n.Text())
				}
			}
			return true
		})
		if len(bold) != 1 || jsTrim(bold[0]) != jsTrim(f.text) {
			c.Fail("hover", "pointing at bar %d marks %s, expected %q", i, js(bold), f.text)
			return
		}
		c.Count("hovers", 1)
	}
}

func (c *C) judgeList(sec map[string]any, v *PView) {
	want, err := Targets(sec)
	if err != nil {
		c.Fail("targets", "%v", err)
		return
	}
	if sec["indexTargets"] == nil {
		return
	}
	card := v.Tree.TestID("suggest")
	if card == nil {
		c.Fail("suggest", "the page does not show the suggestions")
		return
	}
	var got []string
	for _, n := range card.All("li") {
		got = append(got, squeeze(n.Text()))
	}
	c.Eval(1 + len(want))
	if len(got) != len(want) {
		c.Fail("suggest", "the page lists %d suggestions, the report holds %d", len(got), len(want))
		return
	}
	for i, t := range want {
		if w := squeeze("Table=" + t.Table + " / Column=" + strings.Join(t.Cols, ", ")); got[i] != w {
			c.Fail("suggest", "suggestion %d is shown as %q, expected %q", i, got[i], w)
			return
		}
	}
	c.Count("suggestions", len(want))
}

func cells(tr *PNode) []string {
	var out []string
	for _, k := range tr.C {
		if k.Node != nil && (k.Node.T == "td" || k.Node.T == "th") {
			out = append(out, squeeze(k.Node.Text()))
		}
	}
	return out
}

func group3(s string) string {
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	frac := ""
	if i := strings.Index(s, "."); i >= 0 {
		s, frac = s[:i], s[i:]
	}
	for i := len(s) - 3; i > 0; i -= 3 {
		s = s[:i] + "," + s[i:]
	}
	if neg {
		s = "-" + s
	}
	return s + frac
}

func (c *C) judgeExamTable(e *exCase, sec map[string]any, v *PView) {
	orig, res, present, err := Exam(sec)
	if err != nil {
		c.Fail("exam", "%v", err)
		return
	}
	card := v.Tree.TestID("examination")
	if !present {
		if card != nil && len(card.All("tr")) > 0 {
			c.Fail("exam", "the page shows an examination, there was none")
		}
		return
	}
	if card == nil {
		c.Fail("exam", "the page does not show the examination")
		return
	}
	var rows [][]string
	for _, tr := range card.All("tr") {
		if len(tr.All("th")) == 0 {
			rows = append(rows, cells(tr))
		}
	}
	c.Eval(1 + 3*len(res))
	c.Count("exam_rows", len(rows))
	if len(rows) != len(res)+1 {
		c.Fail("exam", "the page shows %d rows, the examination has %d results", len(rows), len(res))
		return
	}
	if got := rows[0][0]; got != group3(fmt.Sprint(orig))+"ms" {
		c.Fail("exam", "the original time is shown as %q, it is %d", got, orig)
		return
	}
	sort.SliceStable(res, func(i, j int) bool { return res[i].Millis < res[j].Millis })
	left := map[string]int{}
	for _, x := range res {
		left[fmt.Sprintf("%dms %s", x.Millis, squeeze("Table="+x.Target.Table+" / Column="+strings.Join(x.Target.Cols, ", ")))]++
	}
	for i, x := range res {
		row := rows[i+1]
		if len(row) < 4 {
			c.Fail("exam", "row %d is %s", i, js(row))
			return
		}
		if row[0] != group3(fmt.Sprint(x.Millis))+"ms" {
			c.Fail("exam", "row %d shows %q, the time there is %d ms", i, row[0], x.Millis)
			return
		}
		k := fmt.Sprintf("%dms %s", x.Millis, row[2])
		if left[k] == 0 {
			c.Fail("exam", "row %d shows %q at %d ms, no index had that time", i, row[2], x.Millis)
			return
		}
		left[k]--
		if orig > 0 {
			want := (1 - float64(x.Millis)/float64(orig)) * 100
			got, perr := strconv.ParseFloat(strings.ReplaceAll(strings.TrimSuffix(row[1], "%"), ",", ""), 64)
			if perr != nil || math.Abs(got-want) > 0.0051 {
				c.Fail("exam", "row %d shows the reduction %q, it is %.4f%%", i, row[1], want)
				return
			}
		}
	}
}
