package verifkit

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"time"
)

// HasuraSim is the stand-in of a Hasura server in front of a Sim.
type HasuraSim struct {
	Sim    *Sim
	SQL    string // the SQL that Hasura says it generates
	Field  string
	NPlans int    // how many plans explain returns (normally 1)
	Prefix string // path the server is mounted at
	Pad    int    // white space before each answer
	Query  string // query of the address, to be kept
	// Reply, when set, may answer a request on its own: it returns handled=true.
	Reply func(e *Event, w http.ResponseWriter) bool
}

var (
	hasuraOnce sync.Once
	hasuraSrv  *httptest.Server
	hasuraMu   sync.Mutex
	hasuraCur  *HasuraSim
)

// Use makes h the server's personality and returns the base URL.
func (h *HasuraSim) Use() string {
	hasuraOnce.Do(func() {
		hasuraSrv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			hasuraMu.Lock()
			cur := hasuraCur
			hasuraMu.Unlock()
			cur.serve(w, r)
		}))
	})
	hasuraMu.Lock()
	hasuraCur = h
	hasuraMu.Unlock()
	return hasuraSrv.URL
}

func (h *HasuraSim) serve(w http.ResponseWriter, r *http.Request) {
	raw, _ := io.ReadAll(r.Body)
	var body map[string]json.RawMessage
	_ = json.Unmarshal(raw, &body)
	hdr := map[string]string{}
	for k := range r.Header {
		hdr[k] = r.Header.Get(k)
	}
	base := func(kind string) func(e *Event) {
		return func(e *Event) {
			if kind != "" {
				e.Kind = kind
			}
			e.Path = r.Method + " " + r.URL.Path
			if r.URL.RawQuery != h.Query {
				e.Path += fmt.Sprintf(" (query %q, given %q)", r.URL.RawQuery, h.Query)
			}
			e.Header = hdr
			e.RawBody = string(raw)
		}
	}
	fail := func(code int, err error) {
		w.Header().Set("Content-Type", "application/json")
		w.WriteHeader(code)
		b, _ := json.Marshal(map[string]string{"path": "$", "error": err.Error(), "code": "unexpected"})
		_, _ = w.Write(b)
	}
	var ev *Event
	grab := func(f func(*Event)) func(*Event) {
		return func(e *Event) { f(e); ev = e }
	}
	where := r.URL.Path
	if h.Prefix != "" {
		where = "!" + where
		if strings.HasPrefix(r.URL.Path, h.Prefix+"/") {
			where = r.URL.Path[len(h.Prefix):]
		}
	}
	switch where {
	case "/v1/graphql/explain":
		var q struct {
			Query     string          `json:"query"`
			Variables json.RawMessage `json:"variables"`
		}
		_ = json.Unmarshal(body["query"], &q)
		_, err := h.Sim.Handle("hasura", q.Query, nil, grab(func(e *Event) { base("explain")(e); e.Vars = string(q.Variables) }))
		if h.Reply != nil && h.Reply(ev, w) {
			return
		}
		if err != nil {
			fail(400, err)
			return
		}
		n := h.NPlans
		if n == 0 {
			n = 1
		}
		if n < 0 {
			n = 0
		}
		out := []map[string]any{}
		for i := 0; i < n; i++ {
			out = append(out, map[string]any{"field": "q", "sql": h.SQL, "plan": h.Sim.Plan})
		}
		h.writeJSON(w, out)
	case "/v1/graphql":
		var q string
		_ = json.Unmarshal(body["query"], &q)
		_, err := h.Sim.Handle("hasura", q, nil, grab(func(e *Event) {
			base("")(e)
			if q == h.Sim.Query {
				e.Kind = "exec"
			} else {
				e.Kind = "other"
			}
			e.Vars = string(body["variables"])
		}))
		if h.Reply != nil && h.Reply(ev, w) {
			return
		}
		if err != nil {
			fail(500, err)
			return
		}
		h.writeJSON(w, map[string]any{"data": map[string]any{"q": []any{}}})
	case "/v2/query":
		var typ string
		_ = json.Unmarshal(body["type"], &typ)
		var a struct {
			SQL      string `json:"sql"`
			ReadOnly *bool  `json:"read_only"`
		}
		_ = json.Unmarshal(body["args"], &a)
		if typ != "run_sql" {
			_, _ = h.Sim.Handle("hasura", typ, nil, grab(base("other")))
			fail(400, fmt.Errorf("unknown type %q", typ))
			return
		}
		rows, err := h.Sim.Handle("hasura", a.SQL, nil, grab(func(e *Event) {
			base("")(e)
			e.ReadOnly = a.ReadOnly
			if e.Kind == "exec" { // raw SQL is never the GraphQL text
				e.Kind = "other"
			}
		}))
		if err == nil && a.ReadOnly != nil && *a.ReadOnly && (ev.Kind == "create" || ev.Kind == "drop") {
			err = fmt.Errorf("cannot execute DDL in a read-only transaction")
		}
		if h.Reply != nil && h.Reply(ev, w) {
			return
		}
		if err != nil {
			fail(400, err)
			return
		}
		if ev.Kind == "create" || ev.Kind == "drop" || ev.Kind == "drop-foreign" {
			h.writeJSON(w, map[string]any{"result_type": "CommandOk", "result": nil})
			return
		}
		res := [][]any{}
		head := []any{}
		for _, c := range rows.Cols {
			head = append(head, c)
		}
		res = append(res, head)
		for _, d := range rows.Data {
			row := []any{}
			for _, v := range d {
				switch x := v.(type) {
				case bool:
					if x {
						row = append(row, "t")
					} else {
						row = append(row, "f")
					}
				default:
					row = append(row, fmt.Sprint(x))
				}
			}
			res = append(res, row)
		}
		h.writeJSON(w, map[string]any{"result_type": "TuplesOk", "result": res})
	default:
		_, _ = h.Sim.Handle("hasura", r.URL.Path, nil, grab(base("other")))
		fail(404, fmt.Errorf("no such path %s", r.URL.Path))
	}
}

func (h *HasuraSim) writeJSON(w http.ResponseWriter, v any) {
	w.Header().Set("Content-Type", "application/json")
	b, _ := json.Marshal(v)
	if h.Pad > 0 { // a long answer
		_, _ = w.Write(bytes.Repeat([]byte(" "), h.Pad))
	}
	_, _ = w.Write(b)
}

var _ = time.Now
