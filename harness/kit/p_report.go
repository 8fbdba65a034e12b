package verifkit

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/mrasu/GravityR/injection"
)

// P10 the report file, P11 the command a report proposes.

func init() {
	register("P10", "suggest", p10)
	register("P10", "jaeger", p10jaeger)
	register("P10", "pi", p10pi)
	register("P11", "suggest", p11)
}

var nasty = []string{"</script><script>alert(1)</script>", "</SCRIPT >", "<!--<script>", "-->", "]]>", "<![CDATA[", "a\u2028b\u2029c", `\u003c/script\u003e`, `\`, `\\`, `\n`, "\"", "'", "`", "${x}", "{{.gr}}", `{{template "x"}}`, "{{", "}}", "\U0001F600", "\t", "\r\n", "\n", "&lt;&amp;&#39;", "%3C/script%3E", "\ufeff", "e\u0301", "\u0085", "\u00a0", "\x7f", "\x01\x1f", "<", ">", "&", "+", "/", "</style>", "<img src=x onerror=alert(1)>", "//", "null", "1e999", "__proto__", "é日本"}

func nastyText(r *rand.Rand) string {
	var b strings.Builder
	for k := 1 + r.Intn(4); k > 0; k-- {
		b.WriteString(pickS(r, nasty))
		if chance(r, 0.4) {
			b.WriteString(pick(r, "a", " ", "x1"))
		}
	}
	if chance(r, 0.01) {
		b.WriteString(strings.Repeat("long </script> ", 20000))
	}
	return b.String()
}

// place is where a report goes.
type place struct {
	kind   string
	dir    string
	out    string
	before map[string]string
	fails  bool
	abs    string // out from the root
	back   string // the directory to return to
}

// leave undoes the change of directory a relative output came with.
func (p *place) leave() {
	if p.back != "" {
		_ = os.Chdir(p.back)
	}
}

var outNames = []string{"report.html", "report", "a.b.html", ".html", "rep.tar.gz", "rep.", "日本.html", "with space.html", "q'uo\"te.html", "-dash.html", "$x`y.html", "report_examine.html", "REPORT.HTML", "r%20.html"}

func (c *C) newPlace(ok bool) *place {
	r := c.R
	p := &place{kind: pick(r, "fresh", "fresh", "old", "old", "missing-dir", "is-dir", "full")}
	if ok {
		p.kind = pick(r, "fresh", "old")
	}
	p.dir = filepath.Join(c.Dir, "place")
	_ = os.RemoveAll(p.dir)
	sub := p.dir
	if chance(r, 0.3) {
		sub = filepath.Join(p.dir, pick(r, "sub", "v1.2", "a b", "x_examine.d"))
	}
	if err := os.MkdirAll(sub, 0o755); err != nil {
		panic(err)
	}
	p.out = filepath.Join(sub, pickS(r, outNames))
	put := func(f, s string) {
		if err := os.WriteFile(f, []byte(s), 0o644); err != nil {
			panic(err)
		}
	}
	put(filepath.Join(sub, "neighbour.html"), "neighbour")
	if chance(r, 0.5) {
		put(p.out+".bak", "backup")
	}
	switch p.kind {
	case "old":
		put(p.out, strings.Repeat("<script>window.grParam = {\"old\": 1}</script>\n", pick(r, 1, 20000)))
	case "missing-dir":
		p.out = filepath.Join(sub, "nowhere", "report.html")
		p.fails = true
	case "is-dir":
		if err := os.MkdirAll(p.out, 0o755); err != nil {
			panic(err)
		}
		p.fails = true
	case "full":
		p.out = "/dev/full"
		p.fails = true
	}
	p.abs = p.out
	if !p.fails && chance(r, 0.35) { // the output is named from the current directory
		base := filepath.Base(p.out)
		p.back, _ = os.Getwd()
		if err := os.Chdir(sub); err != nil {
			panic(err)
		}
		p.out = pick(r, base, base, "./"+base, "../"+filepath.Base(sub)+"/"+base)
		c.Count("relative_outputs", 1)
	}
	p.before = p.files()
	c.Ctx("output %s: %q", p.kind, p.out)
	return p
}

func (p *place) files() map[string]string {
	m := map[string]string{}
	_ = filepath.Walk(p.dir, func(f string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if i.IsDir() {
			m[f] = "<dir>"
			return nil
		}
		b, _ := os.ReadFile(f)
		m[f] = string(b)
		return nil
	})
	return m
}

// judge looks at what became of the place; true when there is a report to read.
func (p *place) judge(c *C, err error, pan, bundle string) *Report {
	c.Ctx("returned: %v", err)
	c.Count("place_"+p.kind, 1)
	if pan != "" {
		c.Fail("panic", "the command crashed: %s", pan)
		return nil
	}
	c.Eval(3)
	after := p.files()
	for f, s := range after {
		if f == p.abs && !p.fails {
			continue
		}
		if b, ok := p.before[f]; !ok {
			c.Fail("stray", "an unexpected file appeared: %s", f)
			return nil
		} else if b != s {
			c.Fail("neighbour", "another file was changed: %s", f)
			return nil
		}
	}
	for f := range p.before {
		if _, ok := after[f]; !ok {
			c.Fail("neighbour", "a file disappeared: %s", f)
			return nil
		}
	}
	if p.fails {
		if err == nil {
			c.Fail("unnoticed", "the report could not be written (%s) but the command succeeded", p.kind)
		}
		return nil
	}
	if err != nil {
		c.Fail("unexpected-error", "nothing failed but the command reported: %v", err)
		return nil
	}
	rep, perr := ParseReport(p.out)
	if perr != nil {
		c.Fail("report", "the page is not usable: %v", perr)
		return nil
	}
	for _, ext := range []string{"js", "css"} {
		own, _ := readAsset(bundle + "." + ext)
		other, _ := readAsset(map[string]string{"main": "mermaid", "mermaid": "main"}[bundle] + "." + ext)
		if strings.Count(rep.HTML, own) != 1 {
			c.Fail("bundle", "the page holds %s.%s %d times", bundle, ext, strings.Count(rep.HTML, own))
			return nil
		}
		if strings.Contains(rep.HTML, other) {
			c.Fail("bundle", "the page holds the other front end")
			return nil
		}
	}
	if t := strings.TrimSpace(rep.HTML); !strings.HasSuffix(strings.ToLower(t), "</html>") || strings.Count(strings.ToLower(rep.HTML), "</html>") != 1 {
		c.Fail("report", "the page does not end where it should")
		return nil
	}
	if strings.Count(rep.HTML, `id="app"`) != 1 {
		c.Fail("report", "the page has no place for the front end")
		return nil
	}
	c.Count("pages", 1)
	return rep
}

func readAsset(n string) (string, error) {
	b, err := func() ([]byte, error) {
		f, err := injection.ClientDist.Open("client/dist/assets/" + n)
		if err != nil {
			return nil, err
		}
		defer f.Close()
		var buf bytes.Buffer
		_, err = buf.ReadFrom(f)
		return buf.Bytes(), err
	}()
	return string(b), err
}

// only checks that the data is of the kind asked for.
func only(rep *Report, group, kind string) string {
	for _, g := range []string{"suggestData", "digData"} {
		if g != group && rep.Data[g] != nil {
			return g + " is there too"
		}
	}
	m, ok := rep.Data[group].(map[string]any)
	if !ok {
		return "there is no " + group
	}
	for k, v := range m {
		if (k == kind) != (v != nil) {
			return fmt.Sprintf("%s.%s is %.40s", group, k, js(v))
		}
	}
	return ""
}

// nastyCase gives the statement, plan and GraphQL of a case odd texts.
func (c *C) nastyCase(e *exCase) (planText string) {
	r := c.R
	clean := func(s string) string { return strings.NewReplacer("*/", "", "/*", "", "\x00", "").Replace(s) }
	if chance(r, 0.8) {
		e.sql += " /* " + clean(nastyText(r)) + " */"
	}
	if chance(r, 0.3) {
		e.sql = "/* " + clean(nastyText(r)) + " */ " + e.sql
	}
	one := func(s string) string {
		return strings.NewReplacer("\n", " ", "\r", " ", "'", "", "->", "", "(", "", ")", "", "\\", "", "\u0085", "", "\u2028", "\u2029").Replace(s)
	}
	planText = "a" + strings.TrimSpace(one(nastyText(r))) + "z"
	if e.base == "mysql" {
		e.sim.Plan = []string{"-> Filter: (users.name = '" + planText + "')  (cost=1.10 rows=3) (actual time=0.030..0.051 rows=3 loops=1)", simplePlan["mysql"][1]}
	} else {
		e.sim.Plan = append([]string(nil), simplePlan["postgres"]...)
		e.sim.Plan[1] = "  Filter: (name = '" + planText + "'::text)"
	}
	if e.hs != nil {
		e.hs.SQL = e.sql
		e.o.Query = gqlText(r) + "\n# " + strings.NewReplacer("\n", " ", "\r", " ").Replace(nastyText(r))
		e.sim.Query = e.o.Query
		e.o.JSONVars = varsText(r)
	} else {
		e.o.Query, e.sim.Query = e.sql, e.sql
	}
	return planText
}

func holds(v any, s string) bool {
	switch x := v.(type) {
	case string:
		return strings.Contains(x, s)
	case []any:
		for _, e := range x {
			if holds(e, s) {
				return true
			}
		}
	case map[string]any:
		for _, e := range x {
			if holds(e, s) {
				return true
			}
		}
	}
	return false
}

func p10(c *C) {
	r := c.R
	flavor := flavors[c.Idx%3]
	e := c.newExCase(flavor, 2, false)
	e.o.Examine = chance(r, 0.3)
	plan := c.nastyCase(e)
	p := c.newPlace(false)
	defer p.leave()
	e.o.Output = p.out
	c.Ctx("query %q", e.o.Query)
	c.describe(e)
	err, pan := c.Suggest(flavor, e.o, e.sim, e.hs)
	c.showLog(e.sim)
	c.Seen("%s|%s|%v|%s", flavor, p.kind, e.o.Examine, filepath.Base(p.out))
	rep := p.judge(c, err, pan, "main")
	if rep == nil {
		return
	}
	c.Eval(4)
	kind := flavor
	if why := only(rep, "suggestData", kind); why != "" {
		c.Fail("section", "%s", why)
		return
	}
	sec := rep.Section(flavor)
	if got, _ := sec["query"].(string); got != e.sql {
		c.Fail("query", "the report says %q, expected %q", cut(got), cut(e.sql))
		return
	}
	if flavor == "hasura" {
		if got, _ := sec["gql"].(string); got != e.o.Query {
			c.Fail("query", "the report says %q, expected %q", cut(got), cut(e.o.Query))
			return
		}
		want, _ := decodeNum(e.o.JSONVars)
		if got := sec["gqlVariables"]; !reflect.DeepEqual(got, want) {
			c.Fail("vars", "the report says the variables are %s, expected %s", cut(js(got)), cut(e.o.JSONVars))
			return
		}
	}
	if !holds(sec["analyzeNodes"], plan) {
		c.Fail("plan", "the report's plan lacks %q: %s", cut(plan), cut(js(sec["analyzeNodes"])))
		return
	}
	got, terr := Targets(sec)
	if terr != nil {
		c.Fail("targets", "%v", terr)
		return
	}
	want := append([]Target(nil), e.cands...)
	SortTargets(want)
	if d := DiffTargets(got, want); d != "" {
		c.Fail("targets", "the report's suggestions are not right: %s", d)
		return
	}
	_, _, present, xerr := Exam(sec)
	if xerr != nil || present != e.o.Examine {
		c.Fail("exam", "examined %v, result present %v (%v)", e.o.Examine, present, xerr)
	}
}

func cut(s string) string {
	if len(s) > 400 {
		return s[:400] + "…"
	}
	return s
}

func p10jaeger(c *C) {
	r := c.R
	j := c.newJCase(1+r.Intn(4), 12)
	j.o.DurationMilli = pick(r, 0, 0, 1)
	j.o.UIURL = pick(r, "http://localhost:16686", "http://j/"+nastyText(r))
	names := map[string]string{}
	for _, t := range j.sim.Traces {
		for _, s := range t.spans {
			if chance(r, 0.5) {
				s.name = nastyText(r)
			}
			if s.svc != j.o.Service {
				if chance(r, 0.5) {
					if names[s.svc] == "" {
						names[s.svc] = s.svc + nastyText(r)
					}
				} else {
					names[s.svc] = s.svc
				}
				s.svc = names[s.svc]
			}
		}
	}
	p := c.newPlace(false)
	defer p.leave()
	j.o.Output = p.out
	j.describe(c)
	cli := j.sim.Use()
	err, pan := protect(func() error { return c.H.Jaeger(j.o, cli) })
	c.Seen("jaeger|%s|%s", p.kind, filepath.Base(p.out))
	rep := p.judge(c, err, pan, "mermaid")
	if rep == nil {
		return
	}
	if why := only(rep, "digData", "jaeger"); why != "" {
		c.Fail("section", "%s", why)
		return
	}
	if !j.read(c) {
		return
	}
	exp := j.expected()
	for _, l := range [][]*jShown{j.slow, j.same} {
		for _, s := range l {
			c.Eval(1)
			x := exp[s.key()]
			if x == nil {
				c.Fail("tree", "an unknown trace is shown: %s", s.key())
				return
			}
			if why := judgeTree("root", x.c, s.root); why != "" {
				c.Fail("tree", "%s", cut(why))
				return
			}
		}
	}
	if len(exp) > 0 && len(j.slow) == 0 {
		c.Fail("tree", "no trace is shown")
	}
}

func p10pi(c *C) {
	r := c.R
	startStr, start := piStart(r)
	sim := genPi(r, start, false)
	for _, in := range sim.Insts {
		if chance(r, 0.3) {
			in.name = nastyText(r) + in.name
		}
		for _, s := range in.series {
			if chance(r, 0.6) {
				s.sql = nastyText(r)
			}
		}
	}
	p := c.newPlace(false)
	defer p.leave()
	sim.describe(c, startStr)
	rds, pi := sim.clients()
	err, pan := protect(func() error { return c.H.PI(startStr, p.out, rds, pi) })
	c.Seen("pi|%s|%s|%d", p.kind, filepath.Base(p.out), len(sim.Sent))
	rep := p.judge(c, err, pan, "main")
	if rep == nil {
		return
	}
	if why := only(rep, "digData", "performanceInsights"); why != "" {
		c.Fail("section", "%s", why)
		return
	}
	for g, k := range map[string]string{"db.sql": "sqlDbLoads", "db.sql_tokenized": "tokenizedSqlDbLoads"} {
		want := map[string]bool{}
		for _, s := range sim.Sent {
			if s.group == g && s.v > 0 {
				want[s.db+"|"+s.sql] = true
			}
		}
		got := map[string]bool{}
		l, _ := rep.At("digData", "performanceInsights", k).([]any)
		for _, h := range l {
			hm, _ := h.(map[string]any)
			ds, _ := hm["databases"].([]any)
			for _, d := range ds {
				dm, _ := d.(map[string]any)
				n, _ := dm["name"].(string)
				ss, _ := dm["sqls"].([]any)
				for _, s := range ss {
					sm, _ := s.(map[string]any)
					t, _ := sm["sql"].(string)
					got[n+"|"+t] = true
				}
			}
		}
		c.Eval(1)
		if !reflect.DeepEqual(got, want) {
			c.Fail("statements", "%s shows %d statements, %d were sent; e.g. %s", k, len(got), len(want), cut(firstDiff(got, want)))
			return
		}
	}
}

func firstDiff(a, b map[string]bool) string {
	for k := range a {
		if !b[k] {
			return "only shown: " + k
		}
	}
	for k := range b {
		if !a[k] {
			return "not shown: " + k
		}
	}
	return ""
}

// ---- P11 --------------------------------------------------------------------

type cmdOpt struct {
	short bool
	value string
}

func cmdOpts(sec map[string]any) (map[string]cmdOpt, string) {
	l, ok := sec["examinationCommandOptions"].([]any)
	if !ok {
		return nil, "the report proposes no command"
	}
	out := map[string]cmdOpt{}
	for _, v := range l {
		m, _ := v.(map[string]any)
		n, ok1 := m["name"].(string)
		x, ok2 := m["value"].(string)
		b, ok3 := m["isShort"].(bool)
		if !ok1 || !ok2 || !ok3 {
			return nil, "an option is not readable: " + js(v)
		}
		if _, dup := out[n]; dup {
			return nil, "an option is there twice: " + n
		}
		out[n] = cmdOpt{b, x}
	}
	return out, ""
}

// judgeOpts checks the options proposed by a report.
func (c *C) judgeOpts(e *exCase, sec map[string]any) (map[string]cmdOpt, bool) {
	c.Eval(4)
	os, why := cmdOpts(sec)
	if why != "" {
		c.Fail("options", "%s", why)
		return nil, false
	}
	want := map[string]string{"o": "", "q": e.o.Query}
	if e.flavor == "hasura" {
		want["json-variables"] = e.o.JSONVars
	}
	for n := range os {
		if _, ok := want[n]; !ok {
			c.Fail("options", "an unexpected option is proposed: %s", n)
			return nil, false
		}
	}
	for n, v := range want {
		o, ok := os[n]
		if !ok {
			c.Fail("options", "the option %s is missing", n)
			return nil, false
		}
		if o.short != (len(n) == 1) {
			c.Fail("options", "the option %s is given the wrong number of dashes", n)
			return nil, false
		}
		if n != "o" && o.value != v {
			c.Fail("options", "the option %s is %q, expected %q", n, cut(o.value), cut(v))
			return nil, false
		}
	}
	o := os["o"].value
	if e.o.Examine {
		if o != e.o.Output {
			c.Fail("output", "an examined report proposes the output %q, expected %q", o, e.o.Output)
			return nil, false
		}
		return os, true
	}
	dir, base := filepath.Split(e.o.Output)
	ext := filepath.Ext(base)
	wantO := dir + strings.TrimSuffix(base, ext) + "_examine" + ext
	if o != wantO {
		c.Fail("output", "the proposed output is %q, expected %q", o, wantO)
		return nil, false
	}
	return os, true
}

// p11: doing what a report proposes examines the same thing and keeps the report.
func p11(c *C) {
	r := c.R
	flavor := flavors[c.Idx%3]
	e := c.newExCase(flavor, 2, false)
	c.nastyCase(e)
	p := c.newPlace(true)
	defer p.leave()
	e.o.Output = p.out
	e.o.Examine = chance(r, 0.3)
	c.Ctx("query %q", e.o.Query)
	c.describe(e)
	err, pan := c.Suggest(flavor, e.o, e.sim, e.hs)
	if pan != "" || err != nil {
		c.Fail("unexpected-error", "nothing failed but the command reported: %v %s", err, pan)
		return
	}
	first, rerr := os.ReadFile(p.out)
	if rerr != nil {
		c.Fail("report", "%v", rerr)
		return
	}
	rep, perr := ParseReportBytes(first)
	if perr != nil {
		c.Fail("report", "%v", perr)
		return
	}
	sec := rep.Section(flavor)
	opts, ok := c.judgeOpts(e, sec)
	if !ok {
		return
	}
	c.Count("proposals", 1)
	targets, terr := Targets(sec)
	if terr != nil {
		c.Fail("targets", "%v", terr)
		return
	}
	c.Seen("%s|%v|%s|%d", flavor, e.o.Examine, filepath.Base(p.out), minInt(len(targets), 5))

	// what the reader does: the proposed options, examination on, some of the suggestions
	var chosen []Target
	for _, t := range safeOnly(targets) {
		if len(chosen) < 3 && chance(r, 0.5) {
			chosen = append(chosen, t)
		}
	}
	log1 := e.sim.Log()
	e2 := *e
	e2.sim = &Sim{Flavor: e.base, Schema: e.w.Schema, Tables: e.w.Tables, Query: e.sim.Query, Plan: e.sim.Plan, R: r}
	if e.hs != nil {
		e2.hs = &HasuraSim{Sim: e2.sim, SQL: e.hs.SQL}
	}
	e2.o = SuggestOpts{Query: opts["q"].value, Output: opts["o"].value, Examine: true, Targets: texts(chosen), JSONVars: opts["json-variables"].value}
	c.Ctx("second run: %s -> %q", js(e2.o.Targets), e2.o.Output)
	err, pan = c.Suggest(flavor, e2.o, e2.sim, e2.hs)
	c.showLog(e2.sim)
	if pan != "" || err != nil {
		c.Fail("second", "the proposed command fails: %v %s", err, pan)
		return
	}
	c.Eval(5)
	if !e.o.Examine {
		now, _ := os.ReadFile(p.out)
		if !bytes.Equal(now, first) {
			c.Fail("overwritten", "the proposed command overwrote the report it came from")
			return
		}
	}
	pick1 := func(evs []*Event, kind string) *Event {
		for _, ev := range evs {
			if ev.Kind == kind {
				return ev
			}
		}
		return nil
	}
	a, b := pick1(log1, "explain"), pick1(e2.sim.Log(), "explain")
	if a == nil || b == nil || a.SQL != b.SQL || a.Vars != b.Vars {
		c.Fail("differs", "the proposed command analyses something else")
		return
	}
	rep2, perr := ParseReport(e2.o.Output)
	if perr != nil {
		c.Fail("second", "%v", perr)
		return
	}
	sec2 := rep2.Section(flavor)
	_, res, present, xerr := Exam(sec2)
	if xerr != nil || !present {
		c.Fail("second", "the second report has no result: %v", xerr)
		return
	}
	want := chosen
	if len(want) == 0 {
		want = safeOnly(targets)
	}
	var got []Target
	for _, x := range res {
		got = append(got, x.Target)
	}
	if js(got) != js(want) {
		c.Fail("second", "the second report examined %v, expected %v", got, want)
		return
	}
	e2.o.Examine = true
	if _, ok := c.judgeOpts(&e2, sec2); !ok {
		return
	}
	c.Count("second_runs", 1)
}
