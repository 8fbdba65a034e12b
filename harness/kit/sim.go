package verifkit

import (
	"errors"
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Col, Index and Table are the catalogue of the simulated database.
type Col struct {
	Name string
	PK   bool
}

type Index struct {
	Name    string
	Cols    []string
	Primary bool
	Unique  bool
	Temp    bool // created by the tool while we watched
}

type Table struct {
	Schema  string
	Name    string
	Cols    []Col
	Indexes []*Index
	View    bool
	Dropped []int // columns were dropped before these positions
}

func (t *Table) hasCol(n string, fold bool) bool {
	for _, c := range t.Cols {
		if c.Name == n || (fold && strings.EqualFold(c.Name, n)) {
			return true
		}
	}
	return false
}

// Event is one request that reached the outside world.
type Event struct {
	Seq        int
	Kind       string // explain, columns, indexes, exec, create, drop, other, begin, commit, rollback
	SQL        string
	Args       []string
	Via        string
	Err        string
	Start, End time.Time
	Live       []string // temporary indexes that existed when it arrived
	Table      string
	Index      string
	Cols       []string
	Applied    bool
	ReadOnly   *bool
	Vars       string
	Header     map[string]string
	Path       string
	RawBody    string
}

func (e *Event) String() string {
	s := fmt.Sprintf("#%d %-8s", e.Seq, e.Kind)
	q := strings.Join(strings.Fields(e.SQL), " ")
	if len(q) > 160 {
		q = q[:160] + "…"
	}
	s += " " + q
	if len(e.Args) > 0 {
		s += " args=" + strings.Join(e.Args, ",")
	}
	if len(e.Live) > 0 {
		s += " live=" + strings.Join(e.Live, ",")
	}
	if e.Err != "" {
		s += " -> error: " + e.Err
	}
	return s
}

// Action is what the fault plan wants done with an event.
type Action struct {
	Delay time.Duration
	Err   error
}

// Sim is the stateful stand-in of MySQL/PostgreSQL.
type Sim struct {
	mu     sync.Mutex
	Flavor string // mysql | postgres
	Schema string
	Tables []*Table
	Query  string // the user's statement
	Plan   []string
	Events []*Event
	Fault  func(e *Event, nthOfKind int) Action
	R      *rand.Rand
	ixDefs map[int64][]string
	nth    map[string]int
	// PlanOverride, when set, answers EXPLAIN with raw rows.
	NoPlanRows bool
	// Mangle, when set, may replace an answer.
	Mangle func(e *Event, r *Rows) *Rows
}

// catInterpreted, catRefused and catGuessed count the catalogue requests run by the interpreter, those
// of them that it answered with an error, and those only recognized by their text.
var catInterpreted, catRefused, catGuessed atomic.Int64

var (
	reMyAdd   = regexp.MustCompile("(?is)^\\s*ALTER\\s+TABLE\\s+`([^`]*)`\\s+ADD\\s+(?:INDEX|KEY)\\s+`([^`]*)`\\s*\\((.*)\\)\\s*;?\\s*$")
	reMyDrop  = regexp.MustCompile("(?is)^\\s*ALTER\\s+TABLE\\s+`([^`]*)`\\s+DROP\\s+(?:INDEX|KEY)\\s+`([^`]*)`\\s*;?\\s*$")
	reMyAdd2  = regexp.MustCompile("(?is)^\\s*CREATE\\s+INDEX\\s+`([^`]*)`\\s+ON\\s+`([^`]*)`\\s*\\((.*)\\)\\s*;?\\s*$")
	reMyDrop2 = regexp.MustCompile("(?is)^\\s*DROP\\s+INDEX\\s+`([^`]*)`\\s+ON\\s+`([^`]*)`\\s*;?\\s*$")
	rePgAdd   = regexp.MustCompile(`(?is)^\s*CREATE\s+INDEX\s+(?:CONCURRENTLY\s+)?"([^"]*)"\s+ON\s+(?:"?public"?\.)?"([^"]*)"\s*\((.*)\)\s*;?\s*$`)
	rePgDrop  = regexp.MustCompile(`(?is)^\s*DROP\s+INDEX\s+(?:CONCURRENTLY\s+)?(IF\s+EXISTS\s+)?(?:"?public"?\.)?"([^"]*)"\s*;?\s*$`)
	reExplain = regexp.MustCompile(`(?is)^\s*EXPLAIN\b`)
	reDDL     = regexp.MustCompile(`(?is)^\s*(ALTER|CREATE|DROP|TRUNCATE|RENAME)\b`)
)

func splitIdent(list string, q byte) ([]string, error) {
	var out []string
	for _, p := range strings.Split(list, ",") {
		p = strings.TrimSpace(p)
		if len(p) < 2 || p[0] != q || p[len(p)-1] != q {
			return nil, fmt.Errorf("not a quoted identifier: %s", p)
		}
		out = append(out, p[1:len(p)-1])
	}
	return out, nil
}

func (s *Sim) classify(e *Event) {
	sql := e.SQL
	switch {
	case s.Query != "" && sql == s.Query:
		e.Kind = "exec"
		return
	case reExplain.MatchString(sql):
		e.Kind = "explain"
		return
	}
	low := strings.ToLower(sql)
	if s.Flavor == "mysql" {
		if m := reMyAdd.FindStringSubmatch(sql); m != nil {
			e.Kind, e.Table, e.Index = "create", m[1], m[2]
			e.Cols, _ = splitIdent(m[3], '`')
			return
		}
		if m := reMyAdd2.FindStringSubmatch(sql); m != nil {
			e.Kind, e.Table, e.Index = "create", m[2], m[1]
			e.Cols, _ = splitIdent(m[3], '`')
			return
		}
		if m := reMyDrop.FindStringSubmatch(sql); m != nil {
			e.Kind, e.Table, e.Index = "drop", m[1], m[2]
			return
		}
		if m := reMyDrop2.FindStringSubmatch(sql); m != nil {
			e.Kind, e.Table, e.Index = "drop", m[2], m[1]
			return
		}
		if strings.Contains(low, "information_schema.statistics") {
			e.Kind = "indexes"
			return
		}
		if strings.Contains(low, "information_schema.columns") {
			e.Kind = "columns"
			return
		}
	} else {
		if m := rePgAdd.FindStringSubmatch(sql); m != nil {
			e.Kind, e.Table, e.Index = "create", m[2], m[1]
			e.Cols, _ = splitIdent(m[3], '"')
			return
		}
		if m := rePgDrop.FindStringSubmatch(sql); m != nil {
			e.Kind, e.Index = "drop", m[2]
			return
		}
		if strings.Contains(low, "pg_get_indexdef") {
			e.Kind = "indexes"
			return
		}
		if strings.Contains(low, "pg_attribute") {
			e.Kind = "columns"
			return
		}
	}
	e.Kind = "other"
}

func (s *Sim) live() []string {
	var out []string
	for _, t := range s.Tables {
		for _, i := range t.Indexes {
			if i.Temp {
				out = append(out, t.Name+"."+i.Name)
			}
		}
	}
	sort.Strings(out)
	return out
}

// LiveTemp lists the temporary indexes still present.
func (s *Sim) LiveTemp() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.live()
}

// Log returns the recorded events.
func (s *Sim) Log() []*Event {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*Event(nil), s.Events...)
}

// Rows is a result set; a nil cell is NULL.
type Rows struct {
	Cols []string
	Data [][]any
}

// Handle runs one statement. args are the bound parameters (nil for inlined
// SQL, where schema and tables are read from the text).
func (s *Sim) Handle(via, sql string, args []string, tweak func(*Event)) (*Rows, error) {
	s.mu.Lock()
	e := &Event{Seq: len(s.Events), SQL: sql, Args: args, Via: via, Start: time.Now()}
	s.Events = append(s.Events, e)
	s.classify(e)
	if tweak != nil {
		tweak(e)
	}
	e.Live = s.live()
	if s.nth == nil {
		s.nth = map[string]int{}
	}
	n := s.nth[e.Kind]
	s.nth[e.Kind]++
	var act Action
	if s.Fault != nil {
		act = s.Fault(e, n)
	}
	s.mu.Unlock()
	if act.Delay > 0 {
		time.Sleep(act.Delay)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	rows, err := (*Rows)(nil), act.Err
	if err == nil {
		rows, err = s.apply(e)
		if err == nil && s.Mangle != nil {
			rows = s.Mangle(e, rows)
		}
	}
	if err != nil {
		e.Err = err.Error()
	} else {
		e.Applied = true
	}
	e.End = time.Now()
	return rows, err
}

func (s *Sim) table(name string) *Table {
	for _, t := range s.Tables {
		if t.Schema == s.Schema && (t.Name == name || (s.Flavor == "mysql" && strings.EqualFold(t.Name, name))) {
			return t
		}
	}
	return nil
}

func (s *Sim) apply(e *Event) (*Rows, error) {
	switch e.Kind {
	case "exec":
		return &Rows{Cols: []string{"a"}, Data: [][]any{{"1"}}}, nil
	case "begin", "commit", "rollback", "gql":
		return &Rows{}, nil
	case "explain":
		if s.NoPlanRows {
			return &Rows{Cols: []string{"EXPLAIN"}}, nil
		}
		if s.Flavor == "mysql" {
			return &Rows{Cols: []string{"EXPLAIN"}, Data: [][]any{{strings.Join(s.Plan, "\n")}}}, nil
		}
		r := &Rows{Cols: []string{"QUERY PLAN"}}
		for _, l := range s.Plan {
			r.Data = append(r.Data, []any{l})
		}
		return r, nil
	case "create":
		t := s.table(e.Table)
		if t == nil || t.View {
			return nil, fmt.Errorf("table %q does not exist", e.Table)
		}
		if len(e.Cols) == 0 {
			return nil, errors.New("syntax error in column list")
		}
		seen := map[string]bool{}
		for _, c := range e.Cols {
			if !t.hasCol(c, s.Flavor == "mysql") {
				return nil, fmt.Errorf("column %q does not exist", c)
			}
			if s.Flavor == "mysql" && seen[strings.ToLower(c)] {
				return nil, fmt.Errorf("duplicate column name %q", c)
			}
			seen[strings.ToLower(c)] = true
		}
		if e.Index == "" || len(e.Index) > 64 {
			return nil, fmt.Errorf("bad identifier %q", e.Index)
		}
		for _, tt := range s.Tables {
			if s.Flavor == "mysql" && tt != t {
				continue
			}
			for _, i := range tt.Indexes {
				if i.Name == e.Index {
					return nil, fmt.Errorf("index %q already exists", e.Index)
				}
			}
		}
		t.Indexes = append(t.Indexes, &Index{Name: e.Index, Cols: e.Cols, Temp: true})
		return &Rows{}, nil
	case "drop":
		for _, t := range s.Tables {
			if t.Schema != s.Schema {
				continue
			}
			if s.Flavor == "mysql" && !strings.EqualFold(t.Name, e.Table) {
				continue
			}
			for k, i := range t.Indexes {
				if i.Name == e.Index {
					t.Indexes = append(t.Indexes[:k:k], t.Indexes[k+1:]...)
					e.Table = t.Name
					e.Cols = i.Cols
					if !i.Temp {
						e.Kind = "drop-foreign"
					}
					return &Rows{}, nil
				}
			}
		}
		return nil, fmt.Errorf("index %q does not exist", e.Index)
	case "columns", "indexes":
		// what the statement says is what it gets; a statement beyond the interpreter is answered
		// by recognizing what it is for
		rows, err := s.Interpret(e)
		if !errors.Is(err, errUnsupported) {
			catInterpreted.Add(1)
			if err != nil {
				catRefused.Add(1)
			}
			return rows, err
		}
		catGuessed.Add(1)
		if e.Kind == "columns" {
			return s.columns(e)
		}
		return s.indexes(e)
	}
	if reDDL.MatchString(e.SQL) {
		return nil, fmt.Errorf("statement not understood: %s", e.SQL)
	}
	return &Rows{}, nil
}

var reInList = regexp.MustCompile(`(?is)\bIN\s*\(([^()]*)\)`)
var reStrEq = regexp.MustCompile(`(?is)(?:nspname|table_schema)\s*=\s*'([^']*)'`)

// scopeOf finds which schema and tables a catalogue query asks for.
func (s *Sim) scopeOf(e *Event) (schema *string, tables map[string]bool, err error) {
	tables = map[string]bool{}
	if len(e.Args) > 0 {
		sc := e.Args[0]
		for _, a := range e.Args[1:] {
			tables[a] = true
		}
		if !regexp.MustCompile(`(?i)(nspname|table_schema)\s*=\s*(\?|\$1)`).MatchString(e.SQL) {
			return nil, tables, nil
		}
		return &sc, tables, nil
	}
	for _, m := range reInList.FindAllStringSubmatch(e.SQL, -1) {
		for _, p := range strings.Split(m[1], ",") {
			p = strings.TrimSpace(p)
			if p == "" {
				return nil, nil, errors.New(`syntax error at or near ")"`)
			}
			if strings.HasPrefix(p, "'") && strings.HasSuffix(p, "'") && len(p) >= 2 {
				tables[p[1:len(p)-1]] = true
			}
		}
	}
	if m := reStrEq.FindStringSubmatch(e.SQL); m != nil {
		return &m[1], tables, nil
	}
	return nil, tables, nil
}

func (s *Sim) wanted(e *Event) ([]*Table, error) {
	schema, names, err := s.scopeOf(e)
	if err != nil {
		return nil, err
	}
	var out []*Table
	for _, t := range s.Tables {
		if schema != nil && t.Schema != *schema {
			continue
		}
		ok := names[t.Name]
		if !ok && s.Flavor == "mysql" {
			for n := range names {
				if strings.EqualFold(n, t.Name) {
					ok = true
				}
			}
		}
		if ok {
			out = append(out, t)
		}
	}
	return out, nil
}

// orderedBy tells if the statement's last ORDER BY mentions all of the words, in order.
func orderedBy(sql string, words ...string) bool {
	low := strings.ToLower(sql)
	i := strings.LastIndex(low, "order by")
	if i < 0 {
		return false
	}
	low = low[i:]
	for _, w := range words {
		k := strings.Index(low, w)
		if k < 0 {
			return false
		}
		low = low[k+len(w):]
	}
	return true
}

func (s *Sim) shuffle(d [][]any) {
	if s.R == nil {
		s.R = rand.New(rand.NewSource(1))
	}
	s.R.Shuffle(len(d), func(i, j int) { d[i], d[j] = d[j], d[i] })
}

func (s *Sim) shuffle2(d [][]cval) {
	if s.R == nil {
		s.R = rand.New(rand.NewSource(1))
	}
	s.R.Shuffle(len(d), func(i, j int) { d[i], d[j] = d[j], d[i] })
}

func (s *Sim) columns(e *Event) (*Rows, error) {
	ts, err := s.wanted(e)
	if err != nil {
		return nil, err
	}
	ts = append([]*Table(nil), ts...)
	sort.SliceStable(ts, func(i, j int) bool { return ts[i].Name < ts[j].Name })
	low := strings.ToLower(e.SQL)
	if s.Flavor == "mysql" {
		r := &Rows{Cols: []string{"COLUMN_NAME", "COLUMN_KEY", "TABLE_NAME"}}
		for _, t := range ts {
			for _, c := range t.Cols {
				key := ""
				if c.PK {
					key = "PRI"
				} else {
					for _, ix := range t.Indexes {
						if len(ix.Cols) > 0 && ix.Cols[0] == c.Name {
							key = "MUL"
							if ix.Unique && len(ix.Cols) == 1 {
								key = "UNI"
								break
							}
						}
					}
				}
				r.Data = append(r.Data, []any{c.Name, key, t.Name})
			}
		}
		if !orderedBy(e.SQL, "table_name", "ordinal_position") {
			s.shuffle(r.Data)
		}
		return r, nil
	}
	r := &Rows{Cols: []string{"table_name", "column_name", "is_pk"}}
	onlyTables := regexp.MustCompile(`relkind\s*(=|in)`).MatchString(low)
	onlyUser := regexp.MustCompile(`attnum\s*(>|>=)\s*[01]`).MatchString(low)
	for _, t := range ts {
		if t.View && onlyTables {
			continue
		}
		if !onlyUser {
			for _, n := range []string{"tableoid", "cmax", "xmax", "cmin", "xmin", "ctid"} {
				r.Data = append(r.Data, []any{t.Name, n, false})
			}
		}
		for _, c := range t.Cols {
			// a column that is part of n indexes comes back n times
			n := 0
			for _, ix := range t.Indexes {
				for _, ic := range ix.Cols {
					if ic == c.Name {
						r.Data = append(r.Data, []any{t.Name, c.Name, ix.Primary})
						n++
						break
					}
				}
			}
			if n == 0 {
				r.Data = append(r.Data, []any{t.Name, c.Name, false})
			}
		}
	}
	if !orderedBy(e.SQL, "relname", "attnum") {
		s.shuffle(r.Data)
	}
	return r, nil
}

// ExprKey marks an index key that is an expression, not a column.
const ExprKey = "\x00expr"

var rePlainPg = regexp.MustCompile(`\A[a-z_][a-z0-9_]*\z`)

// indexDef is what pg_get_indexdef says about one key: names are quoted where needed.
func indexDef(c string) string {
	if c == ExprKey {
		return `lower("Name" || "note")`
	}
	if rePlainPg.MatchString(c) && !reserved[c] {
		return c
	}
	return `"` + strings.ReplaceAll(c, `"`, `""`) + `"`
}

func pgArray(cols []string) string {
	var out []string
	for _, c := range cols {
		c = indexDef(c)
		if regexp.MustCompile(`\A[a-z_][a-z0-9_]*\z`).MatchString(c) && !strings.EqualFold(c, "null") {
			out = append(out, c)
		} else {
			out = append(out, `"`+strings.ReplaceAll(strings.ReplaceAll(c, `\`, `\\`), `"`, `\"`)+`"`)
		}
	}
	return "{" + strings.Join(out, ",") + "}"
}

func (s *Sim) indexes(e *Event) (*Rows, error) {
	ts, err := s.wanted(e)
	if err != nil {
		return nil, err
	}
	ts = append([]*Table(nil), ts...)
	sort.SliceStable(ts, func(i, j int) bool { return ts[i].Name < ts[j].Name })
	if s.Flavor == "mysql" {
		r := &Rows{Cols: []string{"TABLE_NAME", "INDEX_NAME", "COLUMN_NAME"}}
		for _, t := range ts {
			ixs := append([]*Index(nil), t.Indexes...)
			sort.SliceStable(ixs, func(i, j int) bool { return ixs[i].Name < ixs[j].Name })
			for _, ix := range ixs {
				cols := append([]string(nil), ix.Cols...)
				if !orderedBy(e.SQL, "table_name", "index_name", "seq_in_index") {
					for i, j := 0, len(cols)-1; i < j; i, j = i+1, j-1 {
						cols[i], cols[j] = cols[j], cols[i]
					}
				}
				for _, c := range cols {
					if c == ExprKey { // a functional key part has no column name
						r.Data = append(r.Data, []any{t.Name, ix.Name, nil})
						continue
					}
					r.Data = append(r.Data, []any{t.Name, ix.Name, c})
				}
			}
		}
		if !orderedBy(e.SQL, "table_name", "index_name") {
			s.shuffle(r.Data)
		}
		return r, nil
	}
	withName := strings.Contains(strings.ToLower(e.SQL), "as index_name")
	r := &Rows{Cols: []string{"index_name", "table_name", "column_names"}}
	if !withName {
		r.Cols = r.Cols[1:]
	}
	innerOrdered := regexp.MustCompile(`(?is)generate_subscripts.*?order\s+by\s+k\b`).MatchString(e.SQL) &&
		!regexp.MustCompile(`(?is)generate_subscripts.*?order\s+by\s+k\s+desc`).MatchString(e.SQL)
	for _, t := range ts {
		ixs := append([]*Index(nil), t.Indexes...)
		sort.SliceStable(ixs, func(i, j int) bool { return ixs[i].Name < ixs[j].Name })
		for _, ix := range ixs {
			cols := append([]string(nil), ix.Cols...)
			if !innerOrdered {
				for i, j := 0, len(cols)-1; i < j; i, j = i+1, j-1 {
					cols[i], cols[j] = cols[j], cols[i]
				}
			}
			row := []any{ix.Name, t.Name, pgArray(cols)}
			if !withName {
				row = row[1:]
			}
			r.Data = append(r.Data, row)
		}
	}
	if !orderedBy(e.SQL, "relname") {
		s.shuffle(r.Data)
	}
	return r, nil
}
