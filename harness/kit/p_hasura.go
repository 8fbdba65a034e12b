package verifkit

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"os"
	"reflect"
	"regexp"
	"strings"
)

// P21: what is said to Hasura and what its answers are taken for.

func init() {
	register("P21", "suggest", p21)
}

// exactJSON compares two JSON texts keeping numbers as they are written, up to
// the spelling of the same number.
func exactJSON(a, b string) bool {
	x, e1 := decodeNum(a)
	y, e2 := decodeNum(b)
	return e1 == nil && e2 == nil && reflect.DeepEqual(x, y)
}

func randVars(r *rand.Rand, depth int) any {
	switch n := r.Intn(11); {
	case n == 0:
		return nil
	case n == 1:
		return chance(r, 0.5)
	case n <= 4:
		return json.Number(pick(r, "0", "1", "-1", "9007199254740993", "9223372036854775807", "-9223372036854775808", "123456789012345678901234567890", "0.1", "1.0", "1e3", "12345678.90123456789", "1E400", "0.30000000000000004", "100", "42"))
	case n <= 7 || depth <= 0:
		return pick(r, "", "x", "2022-01-01T00:00:00Z", "</script>", "a\"b", "é\u2028\U0001F600", "9007199254740993", "a\\nb", "line\nbreak", "%", "<&>")
	case n <= 8:
		var l []any
		for k := r.Intn(4); k > 0; k-- {
			l = append(l, randVars(r, depth-1))
		}
		if l == nil {
			l = []any{}
		}
		return l
	default:
		m := map[string]any{}
		for k := r.Intn(4); k > 0; k-- {
			m[pick(r, "_eq", "_in", "id", "a b", "é", "<", "limit")] = randVars(r, depth-1)
		}
		return m
	}
}

// varsText renders variables in a layout of its own.
func varsText(r *rand.Rand) string {
	m := map[string]any{}
	for k := r.Intn(5); k > 0; k-- {
		m[pick(r, "x", "id", "where", "limit", "é", "a-b", "n")] = randVars(r, 2)
	}
	var b []byte
	if chance(r, 0.5) {
		b, _ = json.MarshalIndent(m, "", pick(r, "", " ", "\t"))
	} else {
		b, _ = json.Marshal(m)
	}
	return pick(r, "", "", " ", "\n") + string(b) + pick(r, "", "", " ", "\n")
}

func gqlText(r *rand.Rand) string {
	lit := pick(r, "a", "</script>", "<!--", "\\\"q\\\"", "é\U0001F600", "$x", "`", "'", "\u2028", "{{.gr}}", "%s%d", "&amp;")
	return pick(r, "", "\n", "# comment </script>\n") + "query MyQuery($x: String, $id: bigint) {\n\tusers(where: {email: {_eq: \"" + lit + "\"}}) { id }\n}" + pick(r, "", "\n", "  ")
}

var reLits = regexp.MustCompile(`'(?:[^']|'')*'(?:\s*,\s*'(?:[^']|'')*')*`)

// skeleton is a statement without its literals.
func skeleton(sql string) string {
	return strings.Join(strings.Fields(reLits.ReplaceAllString(sql, "?")), " ")
}

func p21(c *C) {
	r := c.R
	e := c.newExCase("hasura", 3, chance(r, 0.3))
	e.o.Examine = chance(r, 0.6)
	if e.o.Examine && chance(r, 0.5) {
		e.o.Targets = texts(c.randomTargets(e, 1+r.Intn(2)))
	}
	e.o.JSONVars = varsText(r)
	e.o.Query = gqlText(r)
	e.sim.Query = e.o.Query
	e.hs.Prefix = pick(r, "", "", "/hasura", "/a/b", "/v1", "/a%20b", "/日本")
	if e.hs.Prefix == "/a%20b" {
		e.hs.Prefix = "/a b"
	}
	if chance(r, 0.1) {
		e.hs.Query = pick(r, "tenant=a%20b&x=1", "key=Zz%2F")
	}
	if c.Idx%100 == 7 {
		e.hs.Pad = 1500000 + r.Intn(9000000)
		c.Count("long_answers", 1)
	}
	secret := pick(r, "s3cr3t", "with space", "p@ss:w/rd?#%", "\"quoted\"", strings.Repeat("k", 300))

	mode := pick(r, "plain", "plain", "answer", "answer", "answer", "variables", "names")
	wantErr := false
	hostile := ""
	var hit *Event
	what := ""
	switch mode {
	case "variables":
		wantErr = true
		e.o.JSONVars = pick(r, "{", "[1]", "1", "\"x\"", "{} x", "{}{}", "{a:1}", "{'a':1}", "{\"a\":}", "{\"a\":1,}", "x", " ", "{\"a\":1e}", "tru", "{\"a\":01}", "{\"a\":1}]", "\xff")
	case "names":
		// a table whose name would end the literal of a careless catalogue query
		hostile = pick(r, "a'b", "x') OR ('1'='1", "u'; DROP TABLE users; --", "a\\'", "users', 'tasks", "a b", "a-b", "é'x", "?", "a?b", "'", "''", "$1", "x\n'y")
		e.sql = `SELECT "n" FROM "` + strings.ReplaceAll(hostile, `"`, `""`) + `" WHERE "n" = 1`
		e.hs.SQL = e.sql
	case "answer":
		kinds := []string{"explain", "columns", "indexes"}
		if e.o.Examine {
			kinds = append(kinds, "exec", "exec", "create", "drop")
		}
		kind := pickS(r, kinds)
		nth := 0
		if kind == "exec" || kind == "create" || kind == "drop" {
			nth = r.Intn(3)
		}
		how := pick(r, "status", "status", "junk", "cut", "close")
		code, body := 200, ""
		switch how {
		case "status":
			code = pick(r, 201, 202, 204, 301, 400, 401, 403, 404, 409, 429, 500, 502, 503, 504)
			body = pick(r, `{"path":"$","error":"x","code":"y"}`, "", "<html>", `{"errors":[{"message":"x"}]}`, `{"data":{}}`, `{"result_type":"CommandOk","result":null}`, `[{"field":"q","sql":"SELECT 1","plan":["Seq Scan"]}]`)
		case "junk":
			body = pick(r, "", "<html>proxy</html>", "{", "x", "\"text\"", "12", "{\"result\":[[\"a\"]", "[{\"sql\":")
		}
		if kind == "exec" && chance(r, 0.5) {
			how = "gql-errors"
			code = 200
			body = pick(r, `{"errors":[{"extensions":{"path":"$","code":"validation-failed"},"message":"field not found"}]}`, `{"data":null,"errors":[{"message":""}]}`,
				`{"errors":[{}],"data":{"q":[]}}`, `{"data":{"q":[{"id":1}]},"errors":[{"message":"partial"}]}`)
		}
		if kind == "explain" && chance(r, 0.3) {
			how = "plans"
			body = pick(r, "[]", "null", "[null]", `[{"field":"a","sql":"SELECT id FROM users","plan":["Seq Scan on users  (cost=0.00..1.00 rows=1 width=4)"]},{"field":"b","sql":"SELECT id FROM users","plan":["Seq Scan on users  (cost=0.00..1.00 rows=1 width=4)"]}]`, `{"error":"x"}`)
			code = 200
		}
		what = fmt.Sprintf("%s#%d %s %d %.40s", kind, nth, how, code, body)
		seen := 0
		e.hs.Reply = func(ev *Event, w http.ResponseWriter) bool {
			if ev == nil || ev.Kind != kind {
				return false
			}
			seen++
			if seen-1 != nth {
				return false
			}
			hit = ev
			ev.Err = "answered with " + what
			switch how {
			case "cut", "close":
				h, ok := w.(http.Hijacker)
				if !ok {
					return false
				}
				conn, buf, err := h.Hijack()
				if err != nil {
					return false
				}
				if how == "cut" {
					_, _ = buf.WriteString("HTTP/1.1 " + pick(r, "200 OK", "200 OK", "500 Internal Server Error") + "\r\nContent-Type: application/json\r\nContent-Length: 100000\r\n\r\n" + pick(r, `{"data":{}}`, `[{"field":"q","sql":"SELECT`, `{"result":[["a"]]}`, ""))
					_ = buf.Flush()
				}
				_ = conn.Close()
				return true
			}
			if code >= 300 && code < 400 {
				// no Location: nothing to follow
				code = 300
			}
			w.Header().Set("Content-Type", "application/json")
			w.WriteHeader(code)
			if code != 204 {
				_, _ = w.Write([]byte(body))
			}
			return true
		}
	}
	old := ""
	if chance(r, 0.3) {
		old = "an earlier report"
		if err := os.WriteFile(e.o.Output, []byte(old), 0o644); err != nil {
			panic(err)
		}
	}
	c.Ctx("mode: %s %s", mode, what)
	c.Ctx("prefix %q secret %q variables %q gql %q", e.hs.Prefix, secret, e.o.JSONVars, e.o.Query)
	c.describe(e)
	url := e.hs.Use() + strings.ReplaceAll(e.hs.Prefix, " ", "%20") + pick(r, "", "/")
	if e.hs.Query != "" {
		url += "?" + e.hs.Query
		c.Count("addresses_with_query", 1)
	}
	err, pan := protect(func() error { return c.H.Hasura(e.o, url, secret) })
	c.Ctx("returned: %v", err)
	c.showLog(e.sim)
	if pan != "" {
		c.Fail("panic", "the command crashed: %s", pan)
		return
	}
	log := e.sim.Log()
	c.Seen("%s|%s|%v|%q|%s", mode, what, e.o.Examine, e.hs.Prefix, kinds(log))
	if hit != nil {
		wantErr = true
		c.Count("odd_answers", 1)
	}
	if mode == "variables" {
		c.Count("malformed_variables", 1)
		c.Eval(1)
		if len(log) > 0 {
			c.Fail("variables", "Hasura was asked although the variables are malformed")
		}
	}
	if !c.sayRight(e, log, secret) {
		return
	}
	if mode == "names" {
		c.judgeNames(e, log, hostile, err)
	}
	c.Eval(1)
	if wantErr {
		if err == nil {
			c.Fail("unnoticed", "a failing answer or malformed variables were not noticed (%s)", what)
		}
		got := ""
		if b, rerr := os.ReadFile(e.o.Output); rerr == nil {
			got = string(b)
		} else if !errors.Is(rerr, os.ErrNotExist) {
			panic(rerr)
		}
		if got != old {
			c.Fail("report", "the command could not be completed but a report was written")
		}
		return
	}
	if mode != "names" && err != nil {
		c.Fail("unexpected-error", "nothing failed but the command reported: %v", err)
	}
}

// sayRight judges the requests themselves.
func (c *C) sayRight(e *exCase, log []*Event, secret string) bool {
	nExplain := 0
	for _, ev := range log {
		c.Eval(4)
		var want string
		switch ev.Kind {
		case "explain":
			want = "/v1/graphql/explain"
			nExplain++
		case "exec":
			want = "/v1/graphql"
		case "columns", "indexes", "create", "drop":
			want = "/v2/query"
		default:
			c.Fail("foreign", "an unexpected request reached Hasura: %s %s", ev.Path, ev)
			return false
		}
		if ev.Path != "POST "+e.hs.Prefix+want {
			c.Fail("path", "a %s request went to %q", ev.Kind, ev.Path)
			return false
		}
		if got := ev.Header["X-Hasura-Admin-Secret"]; got != secret {
			c.Fail("secret", "a %s request carried the secret %q, expected %q", ev.Kind, got, secret)
			return false
		}
		switch ev.Kind {
		case "explain", "exec":
			if ev.SQL != e.o.Query {
				c.Fail("query", "%s was sent %q, expected %q", ev.Kind, ev.SQL, e.o.Query)
				return false
			}
			if !exactJSON(ev.Vars, e.o.JSONVars) {
				c.Fail("vars", "%s was sent the variables %s, expected %s", ev.Kind, ev.Vars, e.o.JSONVars)
				return false
			}
			c.Count("graphql_requests", 1)
			if ev.Kind == "exec" && !e.o.Examine {
				c.Fail("exec", "the query was run without examination")
				return false
			}
		case "columns", "indexes":
			c.Count("catalogue_requests", 1)
			if ev.ReadOnly == nil || !*ev.ReadOnly {
				c.Fail("read-only", "a catalogue request is not read-only")
				return false
			}
		default:
			if !e.o.Examine {
				c.Fail("ddl", "a schema change without examination: %s", ev)
				return false
			}
		}
	}
	if len(log) > 0 && nExplain != 1 {
		c.Fail("explain", "the query was explained %d times", nExplain)
		return false
	}
	return true
}

// judgeNames: a name never changes what a catalogue request says.
func (c *C) judgeNames(e *exCase, log []*Event, hostile string, err error) {
	c.Count("hostile_names", 1)
	for _, ev := range log {
		if ev.Kind != "columns" && ev.Kind != "indexes" {
			continue
		}
		c.Eval(1)
		// what the same request says about an ordinary table
		want := catalogueSkeleton(c, ev.Kind)
		if want != "" && skeleton(ev.SQL) != want {
			c.Fail("injection", "the name %q changed the %s request: %s", hostile, ev.Kind, ev.SQL)
			return
		}
		lits := reLits.FindAllString(ev.SQL, -1)
		for _, l := range lits {
			if strings.Contains(l, "tasks") && !strings.Contains(l, "''") && hostile == "users', 'tasks" {
				c.Fail("injection", "the name %q was taken for several: %s", hostile, ev.SQL)
				return
			}
		}
	}
}

var skel map[string]string

// catalogueSkeleton learns the shape of catalogue requests from ordinary runs.
func catalogueSkeleton(c *C, kind string) string {
	if skel != nil {
		return skel[kind]
	}
	skel = map[string]string{}
	t := &Table{Schema: "public", Name: "users", Cols: []Col{{Name: "id", PK: true}, {Name: "name"}}}
	sql := "SELECT id FROM users WHERE name = 'a'"
	s := &Sim{Flavor: "postgres", Schema: "public", Tables: []*Table{t}, Query: "query { users { id } }", Plan: simplePlan["postgres"], R: rand.New(rand.NewSource(1))}
	hs := &HasuraSim{Sim: s, SQL: sql}
	_, _ = protect(func() error { return c.H.Hasura(SuggestOpts{Query: s.Query, Output: ""}, hs.Use(), "x") })
	for _, ev := range s.Log() {
		if ev.Kind == "columns" || ev.Kind == "indexes" {
			skel[ev.Kind] = skeleton(ev.SQL)
		}
	}
	return skel[kind]
}
