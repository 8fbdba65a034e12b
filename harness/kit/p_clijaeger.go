package verifkit

import (
	"fmt"
	"math/rand"
	"net"
	"strings"
	"time"

	"google.golang.org/grpc/codes"
)

// cliJaeger prepares a run of "app dig jaeger".
func (c *C) cliJaeger(x *cli, groups *[][]string, opt func(short, long, v string) []string, defect, out *string) (func() int, func()) {
	r := c.R
	sim := &JaegerSim{R: rand.New(rand.NewSource(r.Int63())), FailAt: -1}
	sim.Use()
	svc := pick(r, "bff", "決済", "a b", "-x", "</script>")
	ui := pick(r, "http://localhost:16686", "https://jaeger.example/x?y=</script>")
	x.env["JAEGER_UI_URL"], x.env["JAEGER_GRPC_ADDRESS"] = ui, jaegerAddr
	dur, thr, cnt := 1000, 5, 500
	add := func(g []string) { *groups = append(*groups, g) }
	if chance(r, 0.4) {
		dur = pick(r, 0, 1, 250, 5000)
		add(opt("d", "min-duration-millisecond", fmt.Sprint(dur)))
	}
	if chance(r, 0.4) {
		thr = pick(r, 0, 1, 2, 50)
		add(opt("t", "same-service-threshold", fmt.Sprint(thr)))
	}
	if chance(r, 0.4) {
		cnt = pick(r, 1, 100, 5000)
		add(opt("c", "count", fmt.Sprint(cnt)))
	}
	started := time.Now()
	var start, end time.Time
	kind := pick(r, "default", "past", "recent", "recent")
	switch kind {
	case "past":
		start = time.Unix(1650000000+r.Int63n(60000000), 0).In(time.FixedZone("", pick(r, 0, 9*3600, -5*3600, 5*3600+1800)))
		end = start.Add(24 * time.Hour)
	case "recent":
		start = started.Add(-time.Duration(r.Intn(23*3600)) * time.Second).Truncate(time.Second).UTC()
	default:
		start = started.Add(-24 * time.Hour)
	}
	if kind != "default" {
		add(opt("", "start-from", start.Format(time.RFC3339)))
	}
	// one trace somewhere in the period, slow enough
	base := start.Add(time.Hour / 2)
	if kind == "recent" {
		base = start.Add(time.Since(start) / 2)
	}
	for i := 0; i < 1+r.Intn(3); i++ {
		sim.Traces = append(sim.Traces, genTrace(r, uint64(i+1), uint64(base.UnixNano())+uint64(i)*1000000, 12, svc, uint64(dur)*1000000+uint64(r.Intn(1000000000))))
	}
	switch *defect {
	case "missing-env":
		k := pick(r, "JAEGER_UI_URL", "JAEGER_GRPC_ADDRESS")
		c.Ctx("missing %s", k)
		delete(x.env, k)
	case "missing-flag":
		if chance(r, 0.5) {
			*out = ""
		}
	case "bad-value":
		bad := [][]string{{"--start-from", pick(r, "yesterday", "2022-01-01", "2022-13-01T00:00:00Z", "2022-01-01 00:00:00", "1650000000", "2022-01-01T00:00:00")}, {"--count=x"}, {"-d", "1s"}, {"-t", "many"}}
		k := r.Intn(len(bad))
		if k == 0 {
			g := (*groups)[:0:0]
			for _, o := range *groups {
				if !strings.HasPrefix(o[0], "--start-from") {
					g = append(g, o)
				}
			}
			*groups = g
		}
		add(bad[k])
	case "refused":
		x.env["JAEGER_GRPC_ADDRESS"] = closedPort()
	case "fault":
		sim.FailAt = 0
		sim.Code = pick(r, codes.Unavailable, codes.Internal, codes.NotFound)
	case "bad-login":
		*defect = "none"
	}
	if *defect != "missing-flag" || *out == "" {
		add(opt("s", "service-name", svc))
	}
	conns := func() int { return len(sim.Log) }
	judge := func() {
		ended := time.Now()
		if kind != "past" {
			end = ended
			if e := start.Add(24 * time.Hour); kind == "recent" && e.Before(end) {
				end = e
			}
		}
		c.Eval(4)
		if len(sim.Log) == 0 {
			c.Fail("search", "nothing was searched")
			return
		}
		lo, hi := sim.Log[0].Min, sim.Log[0].Max
		for _, w := range sim.Log {
			if w.Service != svc || w.Num != cnt || w.Dur != time.Duration(dur)*time.Millisecond {
				c.Fail("settings", "a search was for %q, %d, %s; expected %q, %d, %dms", w.Service, w.Num, w.Dur, svc, cnt, dur)
				return
			}
			if w.Min.Before(lo) {
				lo = w.Min
			}
			if w.Max.After(hi) {
				hi = w.Max
			}
		}
		c.Ctx("searched %s .. %s of %s .. %s", lo, hi, start, end)
		slack := ended.Sub(started) + 2*time.Second
		if d := lo.Sub(start); d > slack || d < -slack {
			c.Fail("period", "the search begins at %s, expected %s (%s)", lo, start, kind)
			return
		}
		if hi.Before(end.Add(-slack)) || hi.After(end.Add(31*time.Minute)) {
			c.Fail("period", "the search ends at %s, expected %s (%s)", hi, end, kind)
			return
		}
		j := &jCase{sim: sim, o: JaegerOpts{Service: svc, DurationMilli: dur, Threshold: thr, Count: cnt, UIURL: ui, Output: x.out}}
		if !j.read(c) {
			return
		}
		exp := j.expected()
		for _, s := range j.slow {
			e := exp[s.key()]
			if e == nil {
				c.Fail("tree", "an unknown trace is shown")
				return
			}
		}
		if len(exp) != len(j.slow) {
			c.Fail("tree", "%d trees are shown, expected %d", len(j.slow), len(exp))
		}
	}
	return conns, judge
}

var _ = net.Listen
