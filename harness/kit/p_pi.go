package verifkit

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	api "github.com/aws/aws-sdk-go-v2/service/pi"
	ptypes "github.com/aws/aws-sdk-go-v2/service/pi/types"
	ards "github.com/aws/aws-sdk-go-v2/service/rds"
	rtypes "github.com/aws/aws-sdk-go-v2/service/rds/types"
	"github.com/mrasu/GravityR/infra/aws"
)

// P17 load figures of Performance Insights, P18 what is asked for.

func init() {
	register("P17", "pi", p17)
	register("P18", "pi", p18)
}

type piSeries struct {
	group, sql, token string
	only              bool               // the statement is the only dimension told
	pts               []ptypes.DataPoint // in time order
}

type piInst struct {
	name, resource, engine string
	series                 []*piSeries
}

// piCall is one recorded request.
type piCall struct {
	kind     string // "rds" or "pi"
	resource string
	group    string
	start    time.Time
	end      time.Time
	metric   string
	period   int
	limit    int
	service  string
	token    string
	failed   bool
	bad      string
}

// piSent is a data point the stand-in handed out.
type piSent struct {
	db, group, sql, token string
	at                    time.Time
	v                     float64
}

// PiSim stands in for RDS and Performance Insights.
type PiSim struct {
	R       *rand.Rand
	Insts   []*piInst
	PageRDS int // 0: one page
	PagePI  int
	Empty   bool            // some pages are empty
	owed    map[string]bool // pages announced and not read yet
	Noise   bool
	FailAt  int
	Log     []piCall
	Sent    []piSent
	// Mangle, when set, may damage an answer.
	Mangle func(rds *ards.DescribeDBInstancesOutput, pi *api.GetResourceMetricsOutput)
}

func (s *PiSim) fail() bool { return s.FailAt == len(s.Log) }

func (s *PiSim) owe(k string) {
	if s.owed == nil {
		s.owed = map[string]bool{}
	}
	s.owed[k] = true
}

// judgePages tells if a page was announced and never asked for.
func (s *PiSim) judgePages(c *C) bool {
	c.Eval(1)
	for k := range s.owed {
		c.Fail("page-not-read", "the answer announced a further page, which was not asked for: %s", k)
		return false
	}
	return true
}

func sp[T any](v T) *T { return &v }

var errInjected = errors.New("injected failure")

func (s *PiSim) DescribeDBInstances(_ context.Context, in *ards.DescribeDBInstancesInput, _ ...func(*ards.Options)) (*ards.DescribeDBInstancesOutput, error) {
	c := piCall{kind: "rds"}
	if in.Marker != nil {
		c.token = *in.Marker
	}
	c.failed = s.fail()
	engines := map[string]bool{}
	filtered := false
	for _, f := range in.Filters {
		if f.Name != nil && *f.Name == "engine" {
			filtered = true
			for _, v := range f.Values {
				engines[v] = true
			}
		}
	}
	s.Log = append(s.Log, c)
	if c.failed {
		return nil, errInjected
	}
	var all []rtypes.DBInstance
	for k, i := range s.Insts {
		if filtered && !engines[i.engine] {
			continue
		}
		all = append(all, rtypes.DBInstance{DBInstanceIdentifier: sp(i.name), DbiResourceId: sp(i.resource), Engine: sp(i.engine), DBInstanceStatus: sp(instStatus[(len(i.name)+len(i.resource)+k)%len(instStatus)]), MultiAZ: k%2 == 0})
	}
	from := 0
	if c.token != "" {
		n, err := strconv.Atoi(c.token[1:])
		if err != nil || c.token[0] != 'm' && c.token[0] != 'n' {
			return nil, fmt.Errorf("InvalidParameterValue: marker %q", c.token)
		}
		from = n
	}
	to := len(all)
	out := &ards.DescribeDBInstancesOutput{}
	if s.Empty && (c.token == "" || c.token[0] == 'm') && chance(s.R, 0.5) {
		// a page of an answer may hold nothing although others follow
		to = from
		out.Marker = sp(fmt.Sprintf("n%d", to))
	} else if s.PageRDS > 0 && from+s.PageRDS < to {
		to = from + s.PageRDS
		out.Marker = sp(fmt.Sprintf("m%d", to))
	} else if chance(s.R, 0.2) {
		out.Marker = sp("")
	}
	out.DBInstances = all[from:to]
	delete(s.owed, "databases "+c.token)
	if out.Marker != nil && *out.Marker != "" {
		s.owe("databases " + *out.Marker)
	}
	if s.Mangle != nil {
		s.Mangle(out, nil)
	}
	return out, nil
}

func (s *PiSim) GetResourceMetrics(_ context.Context, in *api.GetResourceMetricsInput, _ ...func(*api.Options)) (*api.GetResourceMetricsOutput, error) {
	c := piCall{kind: "pi", service: string(in.ServiceType)}
	if in.Identifier != nil {
		c.resource = *in.Identifier
	}
	if in.StartTime != nil {
		c.start = *in.StartTime
	}
	if in.EndTime != nil {
		c.end = *in.EndTime
	}
	if in.PeriodInSeconds != nil {
		c.period = int(*in.PeriodInSeconds)
	}
	if in.NextToken != nil {
		c.token = *in.NextToken
	}
	if len(in.MetricQueries) != 1 {
		c.bad = fmt.Sprintf("%d metric queries", len(in.MetricQueries))
	} else {
		q := in.MetricQueries[0]
		if q.Metric != nil {
			c.metric = *q.Metric
		}
		if q.GroupBy != nil {
			if q.GroupBy.Group != nil {
				c.group = *q.GroupBy.Group
			}
			if q.GroupBy.Limit != nil {
				c.limit = int(*q.GroupBy.Limit)
			}
		}
	}
	c.failed = s.fail()
	s.Log = append(s.Log, c)
	if c.failed {
		return nil, errInjected
	}
	var inst *piInst
	for _, i := range s.Insts {
		if i.resource == c.resource {
			inst = i
		}
	}
	if inst == nil {
		return nil, errors.New("NotAuthorizedException: unknown resource")
	}
	type entry struct {
		e     ptypes.MetricKeyDataPoints
		s     *piSeries
		total float64
	}
	var list []entry
	for _, se := range inst.series {
		if se.group != c.group {
			continue
		}
		dims := map[string]string{}
		if c.group == "db.sql" {
			dims["db.sql.statement"], dims["db.sql.tokenized_id"], dims["db.sql.id"], dims["db.sql.db_id"] = se.sql, se.token, "id-"+se.token, "x"
		} else {
			dims["db.sql_tokenized.statement"], dims["db.sql_tokenized.id"], dims["db.sql_tokenized.db_id"] = se.sql, se.token, "x"
		}
		if se.only {
			dims = map[string]string{c.group + ".statement": se.sql}
		}
		e := entry{s: se, e: ptypes.MetricKeyDataPoints{Key: &ptypes.ResponseResourceMetricKey{Metric: sp("db.load.avg"), Dimensions: dims}}}
		for _, p := range se.pts {
			if p.Timestamp != nil && (p.Timestamp.Before(c.start) || !p.Timestamp.Before(c.end)) {
				continue
			}
			e.e.DataPoints = append(e.e.DataPoints, p)
			if p.Value != nil {
				e.total += *p.Value
			}
		}
		if len(e.e.DataPoints) > 0 {
			list = append(list, e)
		}
	}
	sort.SliceStable(list, func(i, j int) bool { return list[i].total > list[j].total })
	if c.limit > 0 && len(list) > c.limit {
		list = list[:c.limit]
	}
	if s.Noise {
		// the total over all statements comes without dimensions
		at := c.start.UTC().Truncate(time.Hour).Add(time.Hour)
		tot := entry{e: ptypes.MetricKeyDataPoints{Key: &ptypes.ResponseResourceMetricKey{Metric: sp("db.load.avg")},
			DataPoints: []ptypes.DataPoint{{Timestamp: sp(at), Value: sp(99.5)}}}}
		list = append([]entry{tot}, list...)
		// another metric is none of our business, even with the dimensions of a statement
		if len(list) > 1 && chance(s.R, 0.5) {
			o := pickS(s.R, list[1:])
			other := entry{e: ptypes.MetricKeyDataPoints{Key: &ptypes.ResponseResourceMetricKey{Metric: sp(pick(s.R, "db.load.max", "db.sql.stats.calls_per_sec.avg", "os.cpuUtilization.user.avg")), Dimensions: o.e.Key.Dimensions},
				DataPoints: []ptypes.DataPoint{{Timestamp: sp(at), Value: sp(88.25)}}}}
			list = append(list, other)
		}
	}
	from, rest := 0, 0
	if c.token != "" {
		pos, more, _ := strings.Cut(c.token[1:], ".")
		n, err := strconv.Atoi(pos)
		if err != nil || !strings.Contains("tuv", c.token[:1]) {
			return nil, fmt.Errorf("InvalidArgumentException: token %q", c.token)
		}
		from = n
		rest, _ = strconv.Atoi(more)
	}
	if from > len(list) {
		from = len(list)
	}
	to := len(list)
	out := &api.GetResourceMetricsOutput{AlignedStartTime: sp(c.start), AlignedEndTime: sp(c.end), Identifier: sp(c.resource)}
	if s.Empty && (c.token == "" || c.token[0] == 't') && chance(s.R, 0.3) {
		to = from
		out.NextToken = sp(fmt.Sprintf("u%d", to))
		if chance(s.R, 0.02) { // a long row of them
			out.NextToken = sp(fmt.Sprintf("v%d.%d", to, 20+s.R.Intn(90)))
		}
	} else if rest > 0 {
		to = from
		out.NextToken = sp(fmt.Sprintf("v%d.%d", to, rest-1))
	} else if s.PagePI > 0 && from+s.PagePI < to {
		to = from + s.PagePI
		out.NextToken = sp(fmt.Sprintf("t%d", to))
	}
	key := fmt.Sprintf("%s %s %s ", c.resource, c.group, c.start.UTC().Format(time.RFC3339Nano))
	delete(s.owed, key+c.token)
	if out.NextToken != nil {
		s.owe(key + *out.NextToken)
	}
	for _, e := range list[from:to] {
		out.MetricList = append(out.MetricList, e.e)
		if e.s == nil {
			continue
		}
		for _, p := range e.e.DataPoints {
			if p.Timestamp != nil && p.Value != nil && *p.Value != 0 {
				s.Sent = append(s.Sent, piSent{inst.name, c.group, e.s.sql, e.s.token, *p.Timestamp, *p.Value})
			}
		}
	}
	if s.Mangle != nil {
		s.Mangle(nil, out)
	}
	return out, nil
}

var piSQLs = []string{"SELECT * FROM users", "SELECT * FROM users WHERE id = ?", "select * from users", "UPDATE t SET a = '</script><script>x'", "SELECT '決済'", "SELECT \"a\\\\b\"\nFROM t", "COMMIT", "", "SELECT 1 -- \u2028", "INSERT INTO tasks(user_id..."}

// genPi makes instances with load points of the seven days from start.
func genPi(r *rand.Rand, start time.Time, dense bool) *PiSim {
	s := &PiSim{R: r, FailAt: -1, Noise: chance(r, 0.5)}
	n := r.Intn(4)
	if chance(r, 0.1) {
		n = 5 + r.Intn(6)
	}
	if chance(r, 0.02) {
		n = 20 + r.Intn(15)
	}
	first := start.UTC().Truncate(5 * time.Minute)
	if first.Before(start) {
		first = first.Add(5 * time.Minute)
	}
	steps := 7 * 24 * 12
	for i := 0; i < n; i++ {
		in := &piInst{name: fmt.Sprintf("db-%d", i), resource: fmt.Sprintf("db-RES%d", r.Intn(1000)*64+i), engine: "mysql"}
		if chance(r, 0.25) {
			in.engine = pick(r, "postgres", "aurora-mysql", "mariadb", "oracle-ee")
		}
		if chance(r, 0.2) {
			in.name = pick(r, "Prod", "prod", "決", "a</script>") + fmt.Sprint(i)
		}
		for _, g := range []string{"db.sql", "db.sql_tokenized"} {
			ns := r.Intn(6)
			if chance(r, 0.1) {
				ns = 12
			}
			for k := 0; k < ns; k++ {
				se := &piSeries{group: g, sql: pickS(r, piSQLs), token: fmt.Sprintf("%08X", r.Intn(5))}
				if chance(r, 0.3) {
					se.sql += fmt.Sprintf(" /* %d */", k)
				}
				if chance(r, 0.1) { // only white space apart from another
					se.sql = pick(r, se.sql+" ", " "+se.sql, se.sql+"\n", strings.Replace(se.sql, " ", "  ", 1))
				}
				if chance(r, 0.1) {
					se.only, se.token = true, ""
				}
				np := 1 + r.Intn(8)
				if dense {
					np = 1 + r.Intn(60)
				}
				seen := map[int]bool{}
				var at []int
				base := r.Intn(steps)
				for q := 0; q < np; q++ {
					x := r.Intn(steps)
					switch r.Intn(4) {
					case 0: // crowded in one hour
						x = base + r.Intn(12)
					case 1: // around the borders of the requests and of the period
						x = r.Intn(15)*144 + r.Intn(3) - 1
					}
					if x < 0 || x >= steps || seen[x] {
						continue
					}
					seen[x] = true
					at = append(at, x)
				}
				sort.Ints(at)
				for _, x := range at {
					p := ptypes.DataPoint{Timestamp: sp(first.Add(time.Duration(x) * 5 * time.Minute))}
					switch r.Intn(8) {
					case 0:
						p.Value = sp(0.0)
					case 1: // PI sends no value when there is none
					case 2:
						p.Value = sp(math.Floor(r.Float64()*8) / 4)
					default:
						p.Value = sp(r.Float64() * math.Pow(10, float64(r.Intn(6)-3)))
					}
					se.pts = append(se.pts, p)
				}
				in.series = append(in.series, se)
			}
		}
		s.Insts = append(s.Insts, in)
	}
	return s
}

var instStatus = []string{"available", "available", "stopped", "backing-up", "modifying", "storage-optimization", "starting"}

func piStart(r *rand.Rand) (string, time.Time) {
	t := time.Unix(1640000000+r.Int63n(60000000), 0).UTC()
	switch r.Intn(4) {
	case 0:
		t = t.Truncate(time.Hour)
	case 1:
		t = t.Truncate(5 * time.Minute)
	}
	z := pick(r, 0, 0, 9*3600, -5*3600, 5*3600+1800, 5*3600+2700, -(3*3600 + 1800), 12*3600+2700)
	t = t.In(time.FixedZone("", z))
	return t.Format(time.RFC3339), t
}

func (s *PiSim) clients() (*aws.Rds, *aws.PerformanceInsights) {
	return aws.NewRdsWithCli(s), aws.NewPerformanceInsightsWithCli(s)
}

func (s *PiSim) describe(c *C, start string) {
	c.Ctx("start-from %s; pages: rds %d pi %d; failing request %d", start, s.PageRDS, s.PagePI, s.FailAt)
	for _, i := range s.Insts {
		c.Ctx("instance %q resource %q engine %q with %d series", i.name, i.resource, i.engine, len(i.series))
	}
}

type piKey struct {
	hour    int64
	db, sql string
}

type piAgg struct {
	sum, max float64
	tokens   map[string]bool
	n        int
}

func p17(c *C) {
	r := c.R
	startStr, start := piStart(r)
	sim := genPi(r, start, chance(r, 0.2))
	if chance(r, 0.3) {
		sim.PagePI = 1 + r.Intn(4)
	}
	if chance(r, 0.2) {
		sim.PageRDS = 1 + r.Intn(3)
	}
	sim.Empty = chance(r, 0.2)
	sim.describe(c, startStr)
	out := c.Out("report.html")
	rds, pi := sim.clients()
	err, pan := protect(func() error { return c.H.PI(startStr, out, rds, pi) })
	if pan != "" {
		c.Fail("panic", "the command crashed: %s", pan)
		return
	}
	if err != nil {
		c.Fail("unexpected-error", "nothing failed but the command reported: %v", err)
		return
	}
	rep, perr := ParseReport(out)
	if perr != nil {
		c.Fail("report", "%v", perr)
		return
	}
	sim.judgeLoads(c, rep, startStr, start)
}

// judgeLoads compares a report with what was handed out.
func (sim *PiSim) judgeLoads(c *C, rep *Report, startStr string, start time.Time) {
	for _, g := range []struct{ group, key string }{{"db.sql", "sqlDbLoads"}, {"db.sql_tokenized", "tokenizedSqlDbLoads"}} {
		want := map[piKey]*piAgg{}
		for _, p := range sim.Sent {
			if p.group != g.group {
				continue
			}
			k := piKey{p.at.UTC().Truncate(time.Hour).UnixMilli(), p.db, p.sql}
			a := want[k]
			if a == nil {
				a = &piAgg{tokens: map[string]bool{}}
				want[k] = a
			}
			a.sum += p.v
			a.n++
			if p.v > a.max {
				a.max = p.v
			}
			a.tokens[p.token] = true
			c.Count("points", 1)
		}
		l, _ := rep.At("digData", "performanceInsights", g.key).([]any)
		first := start.UTC().Truncate(time.Hour)
		end := start.Add(7 * 24 * time.Hour)
		if len(l) == 0 {
			c.Fail("hours", "%s shows no hours", g.key)
			return
		}
		seen := map[piKey]bool{}
		for i, e := range l {
			m, _ := e.(map[string]any)
			n, _ := m["timestamp"].(json.Number)
			ts, _ := n.Int64()
			exp := first.Add(time.Duration(i) * time.Hour)
			c.Eval(1)
			if ts != exp.UnixMilli() {
				c.Fail("hours", "%s entry %d is for %s, expected %s", g.key, i, time.UnixMilli(ts).UTC(), exp)
				return
			}
			if i == len(l)-1 && (exp.After(end) || !exp.Add(time.Hour).After(end)) {
				c.Fail("hours", "%s ends with %s, the period ends at %s", g.key, exp, end.UTC())
				return
			}
			dbs, ok := m["databases"].([]any)
			if !ok {
				c.Fail("shape", "%s entry %d has no list of databases: %s", g.key, i, js(m))
				return
			}
			names := map[string]bool{}
			for _, de := range dbs {
				dm, _ := de.(map[string]any)
				name, _ := dm["name"].(string)
				if names[name] {
					c.Fail("repeated", "%s entry %d shows database %q twice", g.key, i, name)
					return
				}
				names[name] = true
				sqls, _ := dm["sqls"].([]any)
				for _, se := range sqls {
					sm, _ := se.(map[string]any)
					sql, _ := sm["sql"].(string)
					k := piKey{ts, name, sql}
					if seen[k] {
						c.Fail("repeated", "%s shows %q of %q twice for one hour", g.key, sql, name)
						return
					}
					seen[k] = true
					a := want[k]
					c.Eval(1)
					if a == nil {
						c.Fail("unknown", "%s shows load of %q of %q at %s, none was measured", g.key, sql, name, exp)
						return
					}
					mx, _ := sm["loadMax"].(json.Number)
					sm2, _ := sm["loadSum"].(json.Number)
					fm, _ := mx.Float64()
					fs, _ := sm2.Float64()
					tok, _ := sm["tokenizedId"].(string)
					if fm != a.max {
						c.Fail("max", "%s: %q of %q at %s: largest load %v, measured %v", g.key, sql, name, exp, fm, a.max)
						return
					}
					if math.Abs(fs-a.sum) > 1e-9*math.Max(1e-6, math.Abs(a.sum)) {
						c.Fail("sum", "%s: %q of %q at %s: load sum %v, measured %v in %d points", g.key, sql, name, exp, fs, a.sum, a.n)
						return
					}
					if !a.tokens[tok] {
						c.Fail("token", "%s: %q of %q at %s: tokenized id %q is not its own", g.key, sql, name, exp, tok)
						return
					}
					if a.n > 1 {
						c.Count("merged", 1)
					}
				}
			}
		}
		for k, a := range want {
			c.Eval(1)
			if !seen[k] {
				c.Fail("lost", "%s: load %v of %q of %q at %s is not shown", g.key, a.sum, k.sql, k.db, time.UnixMilli(k.hour).UTC())
				return
			}
		}
		_, off := start.Zone()
		c.Seen("%s|%d|%d|%d|%d", g.group, len(want), len(sim.Insts), off, start.UTC().Minute())
		c.Sample(map[string]any{"from": startStr, "list": g.key, "points": len(sim.Sent), "cells": len(want), "hours": len(l)})
	}
}

func p18(c *C) {
	r := c.R
	startStr, start := piStart(r)
	sim := genPi(r, start, false)
	if chance(r, 0.5) {
		sim.PageRDS = 1 + r.Intn(3)
	}
	if chance(r, 0.3) {
		sim.PagePI = 1 + r.Intn(4)
	}
	sim.Empty = chance(r, 0.2)
	var mysqls []*piInst
	for _, i := range sim.Insts {
		if i.engine == "mysql" {
			mysqls = append(mysqls, i)
		}
	}
	if chance(r, 0.4) {
		sim.FailAt = r.Intn(2 + 28*len(mysqls))
	}
	dflt := chance(r, 0.15)
	bad := !dflt && chance(r, 0.1)
	arg := startStr
	if dflt {
		arg = ""
	}
	if bad {
		arg = pick(r, "2022-07-29", "yesterday", startStr+" ", startStr[:10]+" "+startStr[11:], "2022-13-01T00:00:00Z", "1659074400")
	}
	sim.describe(c, arg)
	out := c.Out("report.html")
	old := chance(r, 0.5)
	if old {
		_ = os.WriteFile(out, []byte("old report"), 0o644)
	}
	rds, pi := sim.clients()
	before := time.Now()
	err, pan := protect(func() error { return c.H.PI(arg, out, rds, pi) })
	after := time.Now()
	c.Ctx("returned: %v", err)
	if pan != "" {
		c.Fail("panic", "the command crashed: %s", pan)
		return
	}
	failed := false
	for _, l := range sim.Log {
		failed = failed || l.failed
	}
	c.Count("requests", len(sim.Log))
	c.Seen("%d|%d|%v|%v|%d|%d|%d", len(mysqls), len(sim.Insts), bad, dflt, sim.PageRDS, sim.PagePI, sim.FailAt)
	if failed || bad {
		c.Eval(2)
		if failed {
			c.Count("failed_requests", 1)
		} else {
			c.Count("malformed_starts", 1)
		}
		if err == nil {
			c.Fail("silent", "a request failed or the start is malformed, but the command reported success")
			return
		}
		b, rerr := os.ReadFile(out)
		if old && string(b) != "old report" || !old && rerr == nil {
			c.Fail("report-after-failure", "a report was written although the data is incomplete")
		}
		return
	}
	if err != nil {
		c.Fail("unexpected-error", "nothing failed but the command reported: %v", err)
		return
	}
	if _, perr := ParseReport(out); perr != nil {
		c.Fail("report", "%v", perr)
		return
	}
	if !sim.judgePages(c) {
		return
	}
	// what was asked for, pages of one request taken as one
	type win struct{ from, to time.Time }
	got := map[string][]win{}
	for _, l := range sim.Log {
		if l.kind != "pi" {
			continue
		}
		c.Eval(1)
		if l.bad != "" || l.metric != "db.load.avg" || l.service != "RDS" || l.period != 300 || l.limit < 10 {
			c.Fail("parameters", "asked for metric %q of service %q every %d s, %d statements %s", l.metric, l.service, l.period, l.limit, l.bad)
			return
		}
		if l.group != "db.sql" && l.group != "db.sql_tokenized" {
			c.Fail("parameters", "asked for group %q", l.group)
			return
		}
		k := l.resource + "|" + l.group
		w := win{l.start, l.end}
		ws := got[k]
		if l.token != "" && len(ws) > 0 && ws[len(ws)-1] == w {
			continue
		}
		got[k] = append(ws, w)
	}
	for _, i := range sim.Insts {
		for _, g := range []string{"db.sql", "db.sql_tokenized"} {
			k := i.resource + "|" + g
			ws := got[k]
			c.Eval(1)
			if i.engine != "mysql" {
				if len(ws) > 0 {
					c.Fail("other-engine", "figures of %q (%s) were asked for", i.name, i.engine)
					return
				}
				continue
			}
			delete(got, k)
			sort.Slice(ws, func(a, b int) bool { return ws[a].from.Before(ws[b].from) })
			if len(ws) == 0 {
				c.Fail("gap", "nothing was asked for %s of %q", g, i.name)
				return
			}
			s := start
			if dflt {
				s = ws[0].from
				lo, hi := before.Add(-7*24*time.Hour), after.Add(-7*24*time.Hour)
				if s.Before(lo.Add(-time.Second)) || s.After(hi.Add(time.Second)) {
					c.Fail("default-start", "the default start is %s, seven days ago is %s", s, lo)
					return
				}
				c.Count("default_starts", 1)
			}
			end := s.Add(7 * 24 * time.Hour)
			at := s
			for n, w := range ws {
				if !w.from.Equal(at) {
					c.Fail("gap", "request %d of %s of %q covers %s..%s, expected from %s", n, g, i.name, w.from, w.to, at)
					return
				}
				at = w.to
				if w.to.Sub(w.from) > 12*time.Hour {
					c.Fail("window", "a request covers %s; each gives only ten statements", w.to.Sub(w.from))
					return
				}
			}
			if !at.Equal(end) {
				c.Fail("gap", "%s of %q is asked for until %s, the period ends at %s", g, i.name, at, end)
				return
			}
			c.Count("covered", 1)
		}
	}
	if sim.PageRDS > 0 && sim.PageRDS < len(mysqls) {
		c.Count("paged_databases", 1)
	}
	c.Sample(map[string]any{"from": arg, "databases": len(mysqls), "requests": len(sim.Log)})
}
