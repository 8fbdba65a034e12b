package verifkit

import (
	"math"
	"math/rand"
	"runtime/debug"
	"time"

	api "github.com/aws/aws-sdk-go-v2/service/pi"
	ptypes "github.com/aws/aws-sdk-go-v2/service/pi/types"
	ards "github.com/aws/aws-sdk-go-v2/service/rds"
	common "github.com/jaegertracing/jaeger/proto-gen/otel/common/v1"
	resource "github.com/jaegertracing/jaeger/proto-gen/otel/resource/v1"
	trace "github.com/jaegertracing/jaeger/proto-gen/otel/trace/v1"
)

// P20 for the commands which read traces and load: odd answers never crash them.

func init() {
	register("P20", "jaeger", p20jaeger)
	register("P20", "pi", p20pi)
}

func (c *C) judgeEnd(out string, err error, pan string, check func(rep *Report) bool) string {
	c.Eval(3)
	if pan != "" {
		c.Fail("panic", "the command crashed: %s", pan)
		return "panic"
	}
	if err != nil {
		c.Count("ended_with_error", 1)
		if exists(out) {
			c.Fail("report", "the command failed but wrote a report")
		}
		if err.Error() == "" {
			c.Fail("silent", "the command failed without saying why")
		}
		return "error"
	}
	rep, perr := ParseReport(out)
	if perr != nil {
		c.Fail("report", "the command succeeded but its report is not usable: %v", perr)
		return "report"
	}
	if !check(rep) {
		c.Fail("report", "the command succeeded but its report lacks its data")
	}
	c.Count("ended_with_report", 1)
	return "report"
}

func p20jaeger(c *C) {
	r := c.R
	debug.SetMaxStack(256 << 20)
	j := c.newJCase(1+r.Intn(6), 25)
	j.o.DurationMilli = 0
	var done []string
	j.sim.Mangle = func(rs []*trace.ResourceSpans) []*trace.ResourceSpans { return mangleTrace(r, rs, &done) }
	if chance(r, 0.05) {
		j.o.Count = pick(r, 0, -1, math.MaxInt32)
	}
	if chance(r, 0.05) {
		j.o.Threshold = pick(r, -1, 0, math.MaxInt32)
	}
	if chance(r, 0.05) {
		j.o.End = j.o.Start.Add(-time.Hour)
	}
	j.describe(c)
	cli := j.sim.Use()
	err, pan := protect(func() error { return c.H.Jaeger(j.o, cli) })
	c.Ctx("returned: %v", err)
	c.Ctx("damage: %v", done)
	c.Count("odd_answers", len(done))
	end := c.judgeEnd(j.o.Output, err, pan, func(rep *Report) bool {
		m, ok := rep.At("digData", "jaeger").(map[string]any)
		return ok && len(m) > 0
	})
	if len(done) > 3 {
		done = done[:3]
	}
	c.Seen("jaeger|%s|%v", end, done)
}

func mangleTrace(r *rand.Rand, rs []*trace.ResourceSpans, done *[]string) []*trace.ResourceSpans {
	var all []*trace.Span
	for _, x := range rs {
		for _, l := range x.InstrumentationLibrarySpans {
			all = append(all, l.Spans...)
		}
	}
	for k := r.Intn(3); k >= 0 && len(all) > 0; k-- {
		s, t := pickS(r, all), pickS(r, all)
		what := ""
		switch r.Intn(14) {
		case 0:
			what = "self-parent"
			s.ParentSpanId = s.SpanId
		case 1:
			what = "cycle"
			s.ParentSpanId, t.ParentSpanId = t.SpanId, s.SpanId
		case 2:
			what = "same-id"
			s.SpanId = t.SpanId
		case 3:
			what = "no-ids"
			s.SpanId, s.TraceId = nil, nil
		case 4:
			what = "short-ids"
			s.SpanId, s.ParentSpanId = []byte{1}, []byte{2}
		case 5:
			what = "ends-before-start"
			s.StartTimeUnixNano, s.EndTimeUnixNano = s.EndTimeUnixNano+5, s.StartTimeUnixNano
		case 6:
			what = "extreme-times"
			s.StartTimeUnixNano, s.EndTimeUnixNano = pick[uint64](r, 0, 1, math.MaxUint64), pick[uint64](r, 0, math.MaxUint64, math.MaxInt64)
		case 7:
			what = "odd-service"
			x := pickS(r, rs)
			x.Resource = &resource.Resource{Attributes: []*common.KeyValue{{Key: "service.name", Value: anyAttr(r, 0)}, {Key: "service.name"}}}
		case 8:
			what = "no-resource"
			pickS(r, rs).Resource = nil
		case 9:
			what = "odd-db"
			s.Attributes = append(s.Attributes, &common.KeyValue{Key: "db.system", Value: anyAttr(r, 0)})
		case 10:
			what = "no-spans"
			if len(rs) > 0 {
				pickS(r, rs).InstrumentationLibrarySpans = nil
			}
		case 11:
			what = "no-resource-spans"
			rs = nil
		case 12:
			what = "twice"
			rs = append(rs, rs...)
		case 13:
			what = "all-same-time"
			for _, x := range all {
				x.StartTimeUnixNano, x.EndTimeUnixNano = 7, 7
			}
		}
		*done = append(*done, what)
		if rs == nil {
			break
		}
	}
	return rs
}

func p20pi(c *C) {
	r := c.R
	startStr, start := piStart(r)
	sim := genPi(r, start, false)
	if chance(r, 0.3) {
		sim.PagePI = 1 + r.Intn(4)
	}
	var done []string
	n := 0
	sim.Mangle = func(rds *ards.DescribeDBInstancesOutput, pi *api.GetResourceMetricsOutput) {
		if n++; n > 200 || !chance(r, 0.3) {
			return
		}
		what := ""
		if rds != nil {
			if len(rds.DBInstances) == 0 {
				return
			}
			switch x := r.Intn(len(rds.DBInstances)); r.Intn(3) {
			case 0:
				what = "no-instances"
				rds.DBInstances = nil
				rds.Marker = nil
			case 1:
				what = "no-identifier"
				rds.DBInstances = append(rds.DBInstances[:0:0], rds.DBInstances...)
				rds.DBInstances[x].DBInstanceIdentifier = nil
			case 2: // an instance that is being created
				what = "no-resource-id"
				rds.DBInstances = append(rds.DBInstances[:0:0], rds.DBInstances...)
				rds.DBInstances[x].DbiResourceId = nil
			}
			done = append(done, what)
			return
		}
		if len(pi.MetricList) == 0 {
			return
		}
		k := r.Intn(len(pi.MetricList))
		if pi.MetricList[k].Key == nil {
			return
		}
		switch r.Intn(9) {
		case 6:
			what = "no-metric"
			pi.MetricList[k].Key.Metric = nil
		case 7:
			what = "no-key"
			pi.MetricList[k].Key = nil
		case 8:
			what = "no-time"
			if ps := pi.MetricList[k].DataPoints; len(ps) > 0 {
				q := append([]ptypes.DataPoint(nil), ps...)
				q[r.Intn(len(q))].Timestamp = nil
				pi.MetricList[k].DataPoints = q
			}
		case 0:
			what = "no-dimensions"
			pi.MetricList[k].Key.Dimensions = nil
		case 1:
			what = "other-dimensions"
			pi.MetricList[k].Key.Dimensions = map[string]string{"db.host.id": "1"}
		case 2:
			what = "no-points"
			pi.MetricList[k].DataPoints = nil
		case 3:
			what = "odd-value"
			if ps := pi.MetricList[k].DataPoints; len(ps) > 0 {
				q := append([]ptypes.DataPoint(nil), ps...)
				x := r.Intn(len(q))
				q[x].Value = pick(r, nil, sp(0.0), sp(1e-12), sp(1e300))
				pi.MetricList[k].DataPoints = q
			}
		case 4:
			what = "out-of-range"
			if ps := pi.MetricList[k].DataPoints; len(ps) > 0 {
				q := append([]ptypes.DataPoint(nil), ps...)
				x := r.Intn(len(q))
				q[x].Timestamp = sp(start.Add(pick(r, -time.Nanosecond, -time.Hour, -1000*time.Hour, 7*24*time.Hour, 2000*time.Hour)))
				pi.MetricList[k].DataPoints = q
			}
		case 5:
			what = "empty"
			pi.MetricList = nil
		}
		done = append(done, what)
	}
	sim.describe(c, startStr)
	out := c.Out("report.html")
	rds, pi := sim.clients()
	err, pan := protect(func() error { return c.H.PI(startStr, out, rds, pi) })
	c.Ctx("returned: %v", err)
	c.Ctx("damage: %v", done)
	c.Count("odd_answers", len(done))
	end := c.judgeEnd(out, err, pan, func(rep *Report) bool {
		m, ok := rep.At("digData", "performanceInsights").(map[string]any)
		return ok && len(m) > 0
	})
	if len(done) > 3 {
		done = done[:3]
	}
	c.Seen("pi|%s|%v", end, done)
}
