package verifkit

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	common "github.com/jaegertracing/jaeger/proto-gen/otel/common/v1"
	"google.golang.org/grpc/codes"
)

// P12 call trees, P13 slow traces, P14 same-service traces, P15 time-consuming
// service, P16 coverage of the period.

func init() {
	register("P12", "jaeger", p12)
	register("P13", "jaeger", p13)
	register("P14", "jaeger", p14)
	register("P15", "jaeger", p15)
	register("P16", "jaeger", p16)
}

type jCase struct {
	sim *JaegerSim
	o   JaegerOpts
	// what the report says
	slow, same []*jShown
}

// jShown is a trace of the report.
type jShown struct {
	traceID, consuming string
	count              int64
	root               map[string]any
}

func (c *C) newJCase(nTraces, maxSpans int) *jCase {
	r := c.R
	start := time.Unix(1660000000+r.Int63n(40000000), 0).UTC()
	if chance(r, 0.2) {
		start = start.Add(time.Duration(r.Intn(1000)) * time.Millisecond)
	}
	if chance(r, 0.2) {
		start = start.In(time.FixedZone("x", 5*3600+1800))
	}
	end := start.Add(24 * time.Hour)
	switch r.Intn(4) {
	case 0: // "now" cuts the period
		end = start.Add(time.Duration(1+r.Intn(86400)) * time.Second)
	case 1:
		end = start.Add(time.Duration(r.Intn(48)) * 30 * time.Minute)
	}
	o := JaegerOpts{
		Service: pick(r, "bff", "user", "決済"), DurationMilli: pick(r, 0, 0, 1, 10, 999, 1000, 1500, 2001), Threshold: r.Intn(7), Count: 1000,
		Start: start, End: end, UIURL: pick(r, "http://localhost:16686", "https://j/?a=</script>"), Output: c.Out("report.html"),
	}
	if chance(r, 0.06) { // very long searches: more than fits in 32 bits of microseconds
		o.DurationMilli = pick(r, 60000, 2147483, 2147484, 4294968, 7200001)
	}
	sim := &JaegerSim{R: r, FailAt: -1, Empty: chance(r, 0.2)}
	span := end.Sub(start).Nanoseconds()
	for i := 0; i < nTraces; i++ {
		var off int64
		if span > 0 {
			off = r.Int63n(span)
			if chance(r, 0.3) { // near a multiple of half an hour
				off = r.Int63n(span/int64(30*time.Minute)+1)*int64(30*time.Minute) + int64(r.Intn(5)-2)*int64(time.Second)/int64(1+r.Intn(3))
				if off < 0 || off >= span {
					off = r.Int63n(span)
				}
			}
		}
		d := uint64(o.DurationMilli)*1000000 + uint64(rnd(r, uint64(pick(r, int64(1), 1000, 5000000, 3000000000, 7200000000000, 90000000000000))))
		if chance(r, 0.05) { // not slow enough to be found
			d = uint64(o.DurationMilli) * 1000000 / 2
		}
		sim.Traces = append(sim.Traces, genTrace(r, uint64(i+1), uint64(start.UnixNano()+off), maxSpans, o.Service, d))
	}
	return &jCase{sim: sim, o: o}
}

func (j *jCase) describe(c *C) {
	c.Ctx("options: service=%q min-duration=%dms threshold=%d count=%d from %s to %s", j.o.Service, j.o.DurationMilli, j.o.Threshold, j.o.Count, j.o.Start.Format(time.RFC3339Nano), j.o.End.Format(time.RFC3339Nano))
	for i, t := range j.sim.Traces {
		if i >= 3 {
			c.Ctx("... %d traces in all", len(j.sim.Traces))
			break
		}
		c.Ctx("trace %x", t.id)
		for _, root := range t.roots {
			c.Ctx("%s", dumpSpan(root, 1, root.start))
		}
	}
}

func dumpSpan(s *jSpan, d int, base uint64) string {
	db := ""
	if s.db != nil {
		db = " db=" + *s.db
	}
	out := fmt.Sprintf("%s%x %q %q%s %d..%d", strings.Repeat("  ", d), s.id, s.svc, s.name, db, int64(s.start-base), int64(s.end-base))
	for _, k := range s.kids {
		out += "\n" + dumpSpan(k, d+1, base)
	}
	return out
}

// run runs the command and reads the report.
func (j *jCase) run(c *C) bool {
	cli := j.sim.Use()
	err, pan := protect(func() error { return c.H.Jaeger(j.o, cli) })
	c.Ctx("returned: %v", err)
	for _, w := range j.sim.Log {
		if len(j.sim.Log) <= 6 || w.Sent > 0 {
			c.Ctx("search %s .. %s service=%q num=%d min=%s -> %d traces", w.Min.Format(time.RFC3339Nano), w.Max.Format(time.RFC3339Nano), w.Service, w.Num, w.Dur, w.Sent)
		}
	}
	if pan != "" {
		c.Fail("panic", "the command crashed: %s", pan)
		return false
	}
	if err != nil {
		c.Fail("unexpected-error", "nothing failed but the command reported: %v", err)
		return false
	}
	c.Count("searches", len(j.sim.Log))
	if j.sim.EmptySent > 0 {
		c.Count("empty_messages", j.sim.EmptySent)
	}
	return j.read(c)
}

func (j *jCase) read(c *C) bool {
	rep, perr := ParseReport(j.o.Output)
	if perr != nil {
		c.Fail("report", "%v", perr)
		return false
	}
	sec, _ := rep.At("digData", "jaeger").(map[string]any)
	if sec == nil {
		c.Fail("report", "no jaeger section")
		return false
	}
	list := func(k string) ([]*jShown, bool) {
		var out []*jShown
		l, _ := sec[k].([]any)
		for _, e := range l {
			m, _ := e.(map[string]any)
			s := &jShown{}
			s.traceID, _ = m["traceId"].(string)
			s.consuming, _ = m["timeConsumingServiceName"].(string)
			n, _ := m["sameServiceAccessCount"].(json.Number)
			s.count, _ = n.Int64()
			s.root, _ = m["root"].(map[string]any)
			if s.root == nil {
				c.Fail("report", "a trace of %s has no root: %s", k, js(e))
				return nil, false
			}
			out = append(out, s)
		}
		return out, true
	}
	var ok bool
	if j.slow, ok = list("slowTraces"); !ok {
		return false
	}
	if j.same, ok = list("sameServiceTraces"); !ok {
		return false
	}
	num := func(k string, want int) bool {
		n, _ := sec[k].(json.Number)
		if string(n) != fmt.Sprint(want) {
			c.Fail("settings", "%s is %v, expected %d", k, sec[k], want)
			return false
		}
		return true
	}
	if !num("slowThresholdMilli", j.o.DurationMilli) || !num("sameServiceThreshold", j.o.Threshold) {
		return false
	}
	if s, _ := sec["uiPath"].(string); s != j.o.UIURL {
		c.Fail("settings", "uiPath is %q, expected %q", s, j.o.UIURL)
		return false
	}
	c.Count("reports", 1)
	return true
}

// jExpect is a tree that the found traces amount to.
type jExpect struct {
	t    *jTrace
	root *jSpan
	c    *cSpan
}

func (e *jExpect) key() string { return fmt.Sprintf("%x/%x", e.t.id, e.root.id) }

func (s *jShown) key() string {
	id, _ := s.root["spanId"].(string)
	return s.traceID + "/" + id
}

func (j *jCase) expected() map[string]*jExpect {
	out := map[string]*jExpect{}
	for _, t := range j.sim.Traces {
		if j.sim.Sent[t] == 0 {
			continue
		}
		for _, r := range t.roots {
			e := &jExpect{t: t, root: r, c: compact(r)}
			out[e.key()] = e
		}
	}
	return out
}

// match pairs shown traces with generated ones; each may be shown once.
func (j *jCase) match(c *C, what string, shown []*jShown, exp map[string]*jExpect) ([]*jExpect, bool) {
	seen := map[string]bool{}
	var out []*jExpect
	for _, s := range shown {
		c.Eval(1)
		e := exp[s.key()]
		if e == nil {
			c.Fail("unknown-trace", "%s lists %s which is not a root of a found trace", what, s.key())
			return nil, false
		}
		if seen[s.key()] {
			c.Fail("listed-twice", "%s lists %s twice", what, s.key())
			return nil, false
		}
		seen[s.key()] = true
		out = append(out, e)
	}
	return out, true
}

func judgeTree(path string, x *cSpan, m map[string]any) string {
	str := func(k string) string { s, _ := m[k].(string); return s }
	num := func(k string) string { n, _ := m[k].(json.Number); return string(n) }
	if str("spanId") != fmt.Sprintf("%x", x.s.id) {
		return fmt.Sprintf("%s: span %s is shown, expected %x", path, str("spanId"), x.s.id)
	}
	if str("name") != x.s.name {
		return fmt.Sprintf("%s: name %q, expected %q", path, str("name"), x.s.name)
	}
	if str("serviceName") != x.svc && (x.s.dbOther == nil || len(x.s.kids) > 0 || !strings.HasSuffix(str("serviceName"), "("+x.s.svc+")")) {
		return fmt.Sprintf("%s: service %q, expected %q", path, str("serviceName"), x.svc)
	}
	if num("startTimeMillis") != fmt.Sprint(x.s.start/1000000) || num("endTimeMillis") != fmt.Sprint(x.s.end/1000000) {
		return fmt.Sprintf("%s: times %s..%s, expected %d..%d", path, num("startTimeMillis"), num("endTimeMillis"), x.s.start/1000000, x.s.end/1000000)
	}
	kids, _ := m["children"].([]any)
	if len(kids) != len(x.kids) {
		return fmt.Sprintf("%s: %d calls below, expected %d", path, len(kids), len(x.kids))
	}
	for i := range kids {
		km, _ := kids[i].(map[string]any)
		if s := judgeTree(fmt.Sprintf("%s.%d", path, i), x.kids[i], km); s != "" {
			return s
		}
	}
	return ""
}

func cShape(x *cSpan) string {
	s := "("
	for _, k := range x.kids {
		s += cShape(k)
	}
	return s + ")"
}

func p12(c *C) {
	r := c.R
	max := 12
	if chance(r, 0.1) {
		max = 80
	}
	j := c.newJCase(1+r.Intn(6), max)
	for _, t := range j.sim.Traces { // database systems that are no texts
		for _, s := range t.spans {
			if s.db != nil && chance(r, 0.15) {
				no := ""
				s.db, s.dbOther = &no, anyAttr(r, 0)
				if _, text := s.dbOther.GetValue().(*common.AnyValue_StringValue); text || s.dbOther == nil {
					s.dbOther = strVal("")
				}
				c.Count("systems_without_text", 1)
			}
		}
	}
	j.o.Threshold = -1 // every trace is listed among the same-service ones
	j.describe(c)
	if !j.run(c) {
		return
	}
	exp := j.expected()
	for what, shown := range map[string][]*jShown{"the slow list": j.slow, "the same-service list": j.same} {
		es, ok := j.match(c, what, shown, exp)
		if !ok {
			return
		}
		if len(es) != len(exp) {
			c.Fail("lost-trace", "%s has %d entries, %d trees were found", what, len(es), len(exp))
			return
		}
		for i, e := range es {
			c.Eval(1)
			c.Count("trees", 1)
			if d := judgeTree(e.key(), e.c, shown[i].root); d != "" {
				c.Fail("tree", "%s", d)
				return
			}
			c.Seen("%s|%d", cShape(e.c), len(e.t.spans))
		}
	}
	for _, e := range exp {
		n := 0
		e.c.each(func(*cSpan) { n++ })
		c.Count("spans_shown", n)
		c.Sample(map[string]any{"trace": fmt.Sprintf("%x", e.t.id), "spans": len(e.t.spans), "shown": n, "shape": cShape(e.c)})
	}
	for _, t := range j.sim.Traces {
		if j.sim.Sent[t] > 0 {
			c.Count("spans_sent", len(t.spans))
			if len(t.roots) > 1 {
				c.Count("traces_with_orphans", 1)
			}
		}
	}
}

func p13(c *C) {
	r := c.R
	n := r.Intn(12)
	switch r.Intn(4) {
	case 0:
		n = 90 + r.Intn(40)
	case 1:
		n = 100 + r.Intn(200)
	}
	j := c.newJCase(n, 3)
	j.describe(c)
	if !j.run(c) {
		return
	}
	exp := j.expected()
	es, ok := j.match(c, "the slow list", j.slow, exp)
	if !ok {
		return
	}
	var ds []uint64
	for _, e := range exp {
		ds = append(ds, e.root.end-e.root.start)
	}
	sort.Slice(ds, func(i, k int) bool { return ds[i] > ds[k] })
	if len(ds) > 100 {
		ds = ds[:100]
		c.Count("over_100", 1)
	}
	c.Count("found_trees", len(exp))
	c.Seen("%d|%d", len(exp), len(es))
	if len(es) != len(ds) {
		c.Fail("count", "%d slow traces are listed, expected %d of %d", len(es), len(ds), len(exp))
		return
	}
	for i, e := range es {
		c.Eval(1)
		if d := e.root.end - e.root.start; d != ds[i] {
			c.Fail("order", "entry %d of the slow list took %d ns, the trace of that rank took %d ns", i, d, ds[i])
			return
		}
	}
	if len(ds) > 0 {
		c.Sample(map[string]any{"found": len(exp), "listed": len(es), "slowest_ns": ds[0]})
	}
}

func p14(c *C) {
	r := c.R
	max := 12
	if chance(r, 0.3) {
		max = 60
	}
	j := c.newJCase(r.Intn(20), max)
	if chance(r, 0.1) {
		j.o.Threshold = r.Intn(30)
	}
	j.describe(c)
	if !j.run(c) {
		return
	}
	exp := j.expected()
	es, ok := j.match(c, "the same-service list", j.same, exp)
	if !ok {
		return
	}
	listed := map[string]bool{}
	for i, e := range es {
		c.Eval(1)
		listed[e.key()] = true
		if int(j.same[i].count) != e.c.maxCount() {
			c.Fail("count", "%s shows %d accesses of one service, there are %d", e.key(), j.same[i].count, e.c.maxCount())
			return
		}
	}
	es2, ok := j.match(c, "the slow list", j.slow, exp)
	if !ok {
		return
	}
	for i, e := range es2 {
		if int(j.slow[i].count) != e.c.maxCount() {
			c.Fail("count", "%s shows %d accesses of one service, there are %d", e.key(), j.slow[i].count, e.c.maxCount())
			return
		}
	}
	for k, e := range exp {
		c.Eval(1)
		n := e.c.maxCount()
		if n > j.o.Threshold && !listed[k] {
			c.Fail("missing", "%s accesses one service %d times (threshold %d) but is not listed", k, n, j.o.Threshold)
			return
		}
		if n <= j.o.Threshold && listed[k] {
			c.Fail("extra", "%s accesses no service more than %d times (threshold %d) but is listed", k, n, j.o.Threshold)
			return
		}
		switch {
		case n == j.o.Threshold:
			c.Count("at_threshold", 1)
		case n == j.o.Threshold+1:
			c.Count("just_over", 1)
		}
		c.Seen("%d|%d|%s", n, j.o.Threshold, cShape(e.c))
		c.Sample(map[string]any{"accesses": n, "threshold": j.o.Threshold, "listed": listed[k]})
	}
}

func p15(c *C) {
	r := c.R
	max := 10
	if chance(r, 0.2) {
		max = 50
	}
	j := c.newJCase(1+r.Intn(10), max)
	j.o.Threshold = -1
	j.describe(c)
	if !j.run(c) {
		return
	}
	exp := j.expected()
	for what, shown := range map[string][]*jShown{"the slow list": j.slow, "the same-service list": j.same} {
		es, ok := j.match(c, what, shown, exp)
		if !ok {
			return
		}
		for i, e := range es {
			c.Eval(1)
			st := e.c.selfTimes()
			var best uint64
			for _, v := range st {
				if v > best {
					best = v
				}
			}
			got := shown[i].consuming
			v, has := st[got]
			if best == 0 && got == "" || has && v == best {
				c.Count("named", 1)
				c.Seen("%s|%d", cShape(e.c), len(st))
				continue
			}
			c.Ctx("self times of %s: %v", e.key(), st)
			c.Fail("service", "%s: %q is named as consuming most time (%d ns), but another service took %d ns", e.key(), got, v, best)
			return
		}
	}
	for _, e := range exp {
		over := false
		e.c.each(func(x *cSpan) {
			for _, k := range x.kids {
				over = over || k.s.end > x.s.end
			}
		})
		if over {
			c.Count("with_async_calls", 1)
		}
		c.Sample(map[string]any{"self_times": e.c.selfTimes(), "shape": cShape(e.c)})
	}
}

func p16(c *C) {
	r := c.R
	j := c.newJCase(r.Intn(60), 4)
	fault := chance(r, 0.35)
	if fault {
		nw := int(j.o.End.Sub(j.o.Start)/(30*time.Minute)) + 1
		j.sim.FailAt = r.Intn(nw)
		j.sim.FailMid = chance(r, 0.5)
		j.sim.Code = pick(r, codes.Internal, codes.ResourceExhausted, codes.PermissionDenied, codes.DeadlineExceeded, codes.NotFound, codes.OutOfRange, codes.Canceled)
	}
	if chance(r, 0.3) {
		j.o.Count = 1 + r.Intn(5)
	}
	old := chance(r, 0.3)
	if old {
		_ = os.WriteFile(j.o.Output, []byte("old report"), 0o644)
	}
	if chance(r, 0.1) {
		j.o.Output = ""
	}
	j.describe(c)
	cli := j.sim.Use()
	err, pan := protect(func() error { return c.H.Jaeger(j.o, cli) })
	c.Ctx("returned: %v", err)
	for _, w := range j.sim.Log {
		c.Ctx("search %s .. %s service=%q num=%d min=%s -> %d traces", w.Min.Format(time.RFC3339Nano), w.Max.Format(time.RFC3339Nano), w.Service, w.Num, w.Dur, w.Sent)
	}
	if pan != "" {
		c.Fail("panic", "the command crashed: %s", pan)
		return
	}
	failed := false
	for _, w := range j.sim.Log {
		failed = failed || w.Failed
		c.Eval(1)
		c.Count("searches", 1)
		if w.Service != j.o.Service || w.Num != j.o.Count || w.Dur != time.Duration(j.o.DurationMilli)*time.Millisecond {
			c.Fail("parameters", "a search was for service %q, %d traces, at least %s; asked for %q, %d, %d ms", w.Service, w.Num, w.Dur, j.o.Service, j.o.Count, j.o.DurationMilli)
			return
		}
	}
	c.Seen("%d|%v|%v|%d", len(j.sim.Log), failed, j.sim.FailMid, len(j.sim.Sent))
	if j.sim.EmptySent > 0 {
		c.Count("empty_messages", j.sim.EmptySent)
	}
	if failed {
		c.Count("failed_searches", 1)
		c.Eval(2)
		if err == nil {
			c.Fail("silent", "a search failed but the command reported success")
		}
		if j.o.Output != "" {
			b, rerr := os.ReadFile(j.o.Output)
			if old && string(b) != "old report" || !old && rerr == nil {
				c.Fail("report-after-failure", "a report was written although a search failed")
			}
		}
		return
	}
	if err != nil {
		c.Fail("unexpected-error", "nothing failed but the command reported: %v", err)
		return
	}
	// no moment of the period is left out
	ws := append([]jWindow(nil), j.sim.Log...)
	sort.Slice(ws, func(a, b int) bool { return ws[a].Min.Before(ws[b].Min) })
	at := j.o.Start
	for _, w := range ws {
		c.Eval(1)
		if w.Max.Sub(w.Min) > 31*time.Minute {
			c.Fail("window", "a search spans %s; each is limited to %d traces", w.Max.Sub(w.Min), j.o.Count)
			return
		}
		if w.Min.After(at) {
			c.Fail("gap", "nothing was searched between %s and %s", at.Format(time.RFC3339Nano), w.Min.Format(time.RFC3339Nano))
			return
		}
		if w.Max.After(at) {
			at = w.Max
		}
	}
	if at.Before(j.o.End.Add(-time.Second)) {
		c.Fail("gap", "nothing was searched after %s, the period ends at %s", at.Format(time.RFC3339Nano), j.o.End.Format(time.RFC3339Nano))
		return
	}
	if len(ws) > 0 && ws[0].Min.Before(j.o.Start.Add(-time.Minute)) {
		c.Fail("outside", "the search began at %s, before the period", ws[0].Min)
		return
	}
	if j.o.Output == "" {
		return
	}
	if !j.read(c) {
		return
	}
	exp := j.expected()
	c.Count("found_trees", len(exp))
	es, ok := j.match(c, "the slow list", j.slow, exp)
	if !ok {
		return
	}
	if want := minInt(100, len(exp)); len(es) != want {
		c.Fail("lost-trace", "%d trees were found, %d are listed", len(exp), len(es))
		return
	}
	if _, ok = j.match(c, "the same-service list", j.same, exp); !ok {
		return
	}
	twice := 0
	for _, n := range j.sim.Sent {
		if n > 1 {
			twice++
		}
	}
	c.Count("traces_in_two_searches", twice)
	c.Sample(map[string]any{"searches": len(ws), "found": len(exp), "in_two_searches": twice, "from": j.o.Start.Format(time.RFC3339), "to": j.o.End.Format(time.RFC3339)})
}
