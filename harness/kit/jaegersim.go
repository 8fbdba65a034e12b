package verifkit

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"sort"
	"sync"
	"time"

	"github.com/gogo/protobuf/types"
	"github.com/jaegertracing/jaeger/proto-gen/api_v3"
	common "github.com/jaegertracing/jaeger/proto-gen/otel/common/v1"
	resource "github.com/jaegertracing/jaeger/proto-gen/otel/resource/v1"
	trace "github.com/jaegertracing/jaeger/proto-gen/otel/trace/v1"
	ijaeger "github.com/mrasu/GravityR/infra/jaeger"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// jSpan is a generated span.
type jSpan struct {
	id, parentID []byte
	name, svc    string
	start, end   uint64
	db           *string          // db.system
	dbOther      *common.AnyValue // db.system holding no text
	attrs        []*common.KeyValue
	kids         []*jSpan
	up           *jSpan
}

// jTrace is a generated trace: a forest (orphans are roots of their own).
type jTrace struct {
	id    []byte
	spans []*jSpan
	roots []*jSpan
}

// jWindow is one recorded search.
type jWindow struct {
	Service  string
	Min, Max time.Time
	Num      int
	Dur      time.Duration
	Sent     int
	Failed   bool
}

// JaegerSim is a query service holding traces; it answers like Jaeger does: a
// trace is returned whole when one of its spans matches.
type JaegerSim struct {
	mu      sync.Mutex
	Traces  []*jTrace
	R       *rand.Rand
	Log     []jWindow
	Sent    map[*jTrace]int
	FailAt  int // index of the search that fails; -1: none
	FailMid bool
	Code    codes.Code
	// Empty makes some messages empty.
	Empty     bool
	EmptySent int
	// Mangle, when set, may replace a message.
	Mangle func([]*trace.ResourceSpans) []*trace.ResourceSpans
}

func (s *JaegerSim) GetTrace(*api_v3.GetTraceRequest, api_v3.QueryService_GetTraceServer) error {
	return status.Error(codes.Unimplemented, "not simulated")
}

func (s *JaegerSim) GetServices(context.Context, *api_v3.GetServicesRequest) (*api_v3.GetServicesResponse, error) {
	return &api_v3.GetServicesResponse{}, nil
}

func (s *JaegerSim) GetOperations(context.Context, *api_v3.GetOperationsRequest) (*api_v3.GetOperationsResponse, error) {
	return &api_v3.GetOperationsResponse{}, nil
}

type jaegerFront struct {
	mu  sync.Mutex
	cur *JaegerSim
}

func (f *jaegerFront) get() *JaegerSim { f.mu.Lock(); defer f.mu.Unlock(); return f.cur }

func (f *jaegerFront) GetTrace(r *api_v3.GetTraceRequest, st api_v3.QueryService_GetTraceServer) error {
	return f.get().GetTrace(r, st)
}
func (f *jaegerFront) GetServices(c context.Context, r *api_v3.GetServicesRequest) (*api_v3.GetServicesResponse, error) {
	return f.get().GetServices(c, r)
}
func (f *jaegerFront) GetOperations(c context.Context, r *api_v3.GetOperationsRequest) (*api_v3.GetOperationsResponse, error) {
	return f.get().GetOperations(c, r)
}
func (f *jaegerFront) FindTraces(r *api_v3.FindTracesRequest, st api_v3.QueryService_FindTracesServer) error {
	return f.get().FindTraces(r, st)
}

func (s *JaegerSim) FindTraces(r *api_v3.FindTracesRequest, st api_v3.QueryService_FindTracesServer) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	q := r.GetQuery()
	w := jWindow{Service: q.GetServiceName(), Num: int(q.GetNumTraces())}
	var err error
	if q.GetStartTimeMin() == nil || q.GetStartTimeMax() == nil {
		s.Log = append(s.Log, w)
		return status.Error(codes.InvalidArgument, "start time min and max are required parameters")
	}
	if w.Min, err = types.TimestampFromProto(q.GetStartTimeMin()); err != nil {
		return err
	}
	if w.Max, err = types.TimestampFromProto(q.GetStartTimeMax()); err != nil {
		return err
	}
	if q.GetDurationMin() != nil {
		if w.Dur, err = types.DurationFromProto(q.GetDurationMin()); err != nil {
			return err
		}
	}
	nth := len(s.Log)
	type hit struct {
		t  *jTrace
		at uint64
	}
	var hits []hit
	for _, t := range s.Traces {
		for _, sp := range t.spans {
			if sp.svc == w.Service && time.Duration(sp.end-sp.start) >= w.Dur &&
				int64(sp.start) >= w.Min.UnixNano() && int64(sp.start) <= w.Max.UnixNano() {
				hits = append(hits, hit{t, sp.start})
				break
			}
		}
	}
	sort.Slice(hits, func(i, j int) bool { return hits[i].at > hits[j].at })
	if lim := -minInt(-w.Num, 0); len(hits) > lim {
		hits = hits[:lim]
	}
	s.R.Shuffle(len(hits), func(i, j int) { hits[i], hits[j] = hits[j], hits[i] })
	fail := nth == s.FailAt
	if fail && !s.FailMid {
		w.Failed = true
		s.Log = append(s.Log, w)
		return status.Error(s.Code, "injected")
	}
	for i, h := range hits {
		if fail && i == len(hits)/2 {
			break
		}
		if s.Empty && chance(s.R, 0.2) { // a message may hold nothing although others follow
			if err := st.Send(&api_v3.SpansResponseChunk{}); err != nil {
				return err
			}
			s.EmptySent++
		}
		chunk := h.t.wire(s.R)
		if s.Mangle != nil {
			chunk = s.Mangle(chunk)
		}
		if err := st.Send(&api_v3.SpansResponseChunk{ResourceSpans: chunk}); err != nil {
			return err
		}
		w.Sent++
		s.Sent[h.t]++
	}
	w.Failed = fail
	s.Log = append(s.Log, w)
	if fail {
		return status.Error(s.Code, "injected")
	}
	return nil
}

// wire spreads the spans over resources and instrumentation libraries in any order.
func (t *jTrace) wire(r *rand.Rand) []*trace.ResourceSpans {
	order := r.Perm(len(t.spans))
	var out []*trace.ResourceSpans
	byKey := map[string]*trace.ResourceSpans{}
	for _, k := range order {
		sp := t.spans[k]
		key := sp.svc
		rs := byKey[key]
		if rs == nil || chance(r, 0.3) {
			rs = &trace.ResourceSpans{}
			if sp.svc != "" {
				at := []*common.KeyValue{{Key: "service.name", Value: strVal(sp.svc)}}
				if chance(r, 0.3) {
					at = append([]*common.KeyValue{{Key: "host.name", Value: strVal("h1")}}, at...)
				}
				if chance(r, 0.2) {
					at = append(at, &common.KeyValue{Key: "process.pid", Value: &common.AnyValue{Value: &common.AnyValue_IntValue{IntValue: 7}}})
				}
				rs.Resource = &resource.Resource{Attributes: at}
			} else if chance(r, 0.5) {
				rs.Resource = &resource.Resource{}
			}
			byKey[key] = rs
			out = append(out, rs)
		}
		if n := len(rs.InstrumentationLibrarySpans); n == 0 || chance(r, 0.3) {
			rs.InstrumentationLibrarySpans = append(rs.InstrumentationLibrarySpans, &trace.InstrumentationLibrarySpans{})
		}
		l := rs.InstrumentationLibrarySpans[len(rs.InstrumentationLibrarySpans)-1]
		attrs := append([]*common.KeyValue(nil), sp.attrs...)
		if sp.db != nil {
			k := r.Intn(len(attrs) + 1)
			kv := &common.KeyValue{Key: "db.system", Value: strVal(*sp.db)}
			if sp.dbOther != nil {
				kv.Value = sp.dbOther
			}
			attrs = append(attrs[:k:k], append([]*common.KeyValue{kv}, attrs[k:]...)...)
		}
		l.Spans = append(l.Spans, &trace.Span{
			TraceId: t.id, SpanId: sp.id, ParentSpanId: sp.parentID, Name: sp.name,
			StartTimeUnixNano: sp.start, EndTimeUnixNano: sp.end, Attributes: attrs,
		})
	}
	return out
}

func strVal(s string) *common.AnyValue {
	return &common.AnyValue{Value: &common.AnyValue_StringValue{StringValue: s}}
}

var (
	jaegerOnce  sync.Once
	jaegerF     = &jaegerFront{}
	jaegerClose func()
	jaegerCli   *ijaeger.Client
	jaegerAddr  string
)

// Use installs the simulation behind the shard's server and returns the client.
func (s *JaegerSim) Use() *ijaeger.Client {
	jaegerOnce.Do(func() {
		lis, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		jaegerAddr = lis.Addr().String()
		g := grpc.NewServer()
		api_v3.RegisterQueryServiceServer(g, jaegerF)
		go func() { _ = g.Serve(lis) }()
		jaegerCli, err = ijaeger.Open(lis.Addr().String(), false)
		if err != nil {
			panic(err)
		}
	})
	if s.Sent == nil {
		s.Sent = map[*jTrace]int{}
	}
	jaegerF.mu.Lock()
	jaegerF.cur = s
	jaegerF.mu.Unlock()
	return jaegerCli
}

var jServices = []string{"bff", "user", "item", "order", "auth", "bff2", "User", "mysql (user)", "決済", "</script>", ""}
var jDbs = []string{"mysql", "postgresql", "redis", "</script><b>", "mysql (user)"}
var jNames = []string{"GET /", "query", "SELECT", "rpc.call", "a\"b", "<!--x", "名前", "", "line\nbreak", "\u2028"}

// anyAttr makes an attribute of any kind, also one without a value.
func anyAttr(r *rand.Rand, depth int) *common.AnyValue {
	switch r.Intn(9) {
	case 0:
		return strVal(pickS(r, jNames))
	case 1:
		return &common.AnyValue{Value: &common.AnyValue_BoolValue{BoolValue: true}}
	case 2:
		return &common.AnyValue{Value: &common.AnyValue_IntValue{IntValue: r.Int63()}}
	case 3:
		return &common.AnyValue{Value: &common.AnyValue_DoubleValue{DoubleValue: r.Float64()}}
	case 4:
		return &common.AnyValue{Value: &common.AnyValue_BytesValue{BytesValue: []byte{1, 2}}}
	case 5:
		av := &common.ArrayValue{}
		for i := r.Intn(3); i > 0 && depth < 3; i-- {
			av.Values = append(av.Values, anyAttr(r, depth+1))
		}
		return &common.AnyValue{Value: &common.AnyValue_ArrayValue{ArrayValue: av}}
	case 6:
		kl := &common.KeyValueList{}
		for i := r.Intn(3); i > 0 && depth < 3; i-- {
			kl.Values = append(kl.Values, &common.KeyValue{Key: fmt.Sprint("k", i), Value: anyAttr(r, depth+1)})
		}
		return &common.AnyValue{Value: &common.AnyValue_KvlistValue{KvlistValue: kl}}
	case 7:
		return &common.AnyValue{}
	default:
		if depth == 0 {
			return nil
		}
		return strVal("x")
	}
}

// genTrace makes a trace whose first root begins at base.
func genTrace(r *rand.Rand, id uint64, base uint64, maxSpans int, mainSvc string, dur uint64) *jTrace {
	t := &jTrace{id: make([]byte, 16)}
	binary.BigEndian.PutUint64(t.id[8:], id)
	if chance(r, 0.3) {
		binary.BigEndian.PutUint64(t.id, r.Uint64())
	}
	used := map[uint64]bool{}
	ids := map[string]bool{}
	newID := func() []byte {
		for {
			b := make([]byte, 8)
			if chance(r, 0.3) {
				b[7] = byte(1 + r.Intn(255))
			} else {
				r.Read(b)
			}
			if !ids[string(b)] && !bytes.Equal(b, make([]byte, 8)) {
				ids[string(b)] = true
				return b
			}
		}
	}
	uniq := func(v uint64) uint64 { // distinct starts make the order of siblings definite
		for used[v] {
			v++
		}
		used[v] = true
		return v
	}
	mk := func(up *jSpan) *jSpan {
		s := &jSpan{id: newID(), name: pickS(r, jNames), up: up}
		if up == nil {
			s.svc = mainSvc
			s.start = uniq(base)
			s.end = s.start + dur
		} else {
			s.svc = pickS(r, jServices)
			if chance(r, 0.55) {
				s.svc = up.svc
			}
			d := up.end - up.start
			switch r.Intn(8) {
			case 0: // outlives its parent
				s.start = uniq(up.start + rnd(r, d))
				s.end = up.end + rnd(r, d+1000)
				if s.end < s.start {
					s.end = s.start
				}
			case 1: // begins after its parent ended
				s.start = uniq(up.end + rnd(r, 1000000))
				s.end = s.start + rnd(r, d+10)
			case 2: // clock skew: begins before its parent
				s.start = uniq(up.start - minU(up.start, rnd(r, 2000000)))
				s.end = s.start + rnd(r, d+10)
			default:
				s.start = uniq(up.start + rnd(r, d))
				if s.start > up.end {
					s.end = s.start
				} else {
					s.end = s.start + rnd(r, up.end-s.start)
				}
			}
			s.parentID = up.id
			up.kids = append(up.kids, s)
		}
		if chance(r, 0.3) {
			d := pickS(r, jDbs)
			s.db = &d
		}
		for i := r.Intn(3); i > 0; i-- {
			s.attrs = append(s.attrs, &common.KeyValue{Key: fmt.Sprintf("attr.%d", i), Value: anyAttr(r, 0)})
		}
		t.spans = append(t.spans, s)
		return s
	}
	root := mk(nil)
	t.roots = append(t.roots, root)
	switch r.Intn(3) {
	case 0:
		root.parentID = nil
	default:
		root.parentID = make([]byte, 8)
	}
	nodes := []*jSpan{root}
	for k := r.Intn(maxSpans); k > 0; k-- {
		if chance(r, 0.04) { // parent was not recorded
			o := mk(nil)
			o.svc = pickS(r, jServices)
			o.start = uniq(base + rnd(r, dur))
			o.end = o.start + rnd(r, dur+5)
			o.parentID = newID()
			t.roots = append(t.roots, o)
			nodes = append(nodes, o)
			continue
		}
		p := nodes[r.Intn(len(nodes))]
		if chance(r, 0.5) {
			p = nodes[len(nodes)-1]
		}
		nodes = append(nodes, mk(p))
	}
	for _, s := range t.spans {
		sort.Slice(s.kids, func(i, j int) bool { return s.kids[i].start < s.kids[j].start })
	}
	return t
}

func rnd(r *rand.Rand, n uint64) uint64 {
	if n == 0 {
		return 0
	}
	return uint64(r.Int63n(int64(n)))
}

func minU(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}

// cSpan is a span of the compacted tree as it should be shown.
type cSpan struct {
	s    *jSpan
	svc  string
	kids []*cSpan
}

// compact keeps the root, every span of another service than its caller, and
// database calls that call nothing further.
func compact(root *jSpan) *cSpan {
	mk := func(s *jSpan) *cSpan {
		c := &cSpan{s: s, svc: s.svc}
		if s.db != nil && len(s.kids) == 0 {
			c.svc = *s.db + " (" + s.svc + ")"
		}
		return c
	}
	top := mk(root)
	var walk func(s *jSpan, at *cSpan)
	walk = func(s *jSpan, at *cSpan) {
		for _, k := range s.kids {
			next := at
			if k.svc != s.svc || (k.db != nil && len(k.kids) == 0) {
				next = mk(k)
				at.kids = append(at.kids, next)
			}
			walk(k, next)
		}
	}
	walk(root, top)
	return top
}

func (c *cSpan) each(f func(*cSpan)) {
	f(c)
	for _, k := range c.kids {
		k.each(f)
	}
}

func (c *cSpan) maxCount() int {
	n := map[string]int{}
	m := 0
	c.each(func(x *cSpan) {
		n[x.svc]++
		if n[x.svc] > m {
			m = n[x.svc]
		}
	})
	return m
}

// selfTimes adds up, per service, the time during which a span ran and none of
// the shown calls below it did. It works on the set of elementary intervals, not
// the way the tool does.
func (c *cSpan) selfTimes() map[string]uint64 {
	out := map[string]uint64{}
	c.each(func(x *cSpan) {
		pts := []uint64{x.s.start, x.s.end}
		for _, k := range x.kids {
			for _, p := range []uint64{k.s.start, k.s.end} {
				if p > x.s.start && p < x.s.end {
					pts = append(pts, p)
				}
			}
		}
		sort.Slice(pts, func(i, j int) bool { return pts[i] < pts[j] })
		var sum uint64
		for i := 0; i+1 < len(pts); i++ {
			covered := false
			for _, k := range x.kids {
				if k.s.start <= pts[i] && k.s.end >= pts[i+1] {
					covered = true
					break
				}
			}
			if !covered {
				sum += pts[i+1] - pts[i]
			}
		}
		out[x.svc] += sum
	})
	return out
}
