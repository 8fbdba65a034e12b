package verifkit

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

// World is a generated catalogue.
type World struct {
	Flavor string // mysql | postgres
	Schema string
	Tables []*Table
	R      *rand.Rand
	nIdx   int
}

var tablePool = []string{"users", "tasks", "orders", "item_logs", "a", "team_members", "order2"}
var colPool = []string{"id", "name", "email", "status", "created_at", "user_id", "title", "qty", "c1", "c10", "c2", "team_id", "note", "flag", "zz", "price"}

// GenWorld makes n real tables plus decoys in other schemas.
func GenWorld(r *rand.Rand, flavor string, n int) *World {
	w := &World{Flavor: flavor, Schema: "app", R: r}
	if flavor == "postgres" {
		w.Schema = "public"
	}
	names := append([]string(nil), tablePool...)
	if flavor == "postgres" && chance(r, 0.3) {
		names = append(names, "Mixed", "UserTask")
	}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for i := 0; i < n; i++ {
		t := &Table{Schema: w.Schema, Name: names[i]}
		cols := append([]string(nil), colPool...)
		r.Shuffle(len(cols), func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
		k := 3 + r.Intn(5)
		cs := []string{"id"}
		for _, c := range cols {
			if c != "id" && len(cs) < k {
				cs = append(cs, c)
			}
		}
		// a name no other table has
		cs = append(cs, fmt.Sprintf("u%d_%s", i, pick(r, "x", "y", "key")))
		if chance(r, 0.25) {
			cs = append(cs, pick(r, "userId", "createdAt"))
		}
		if chance(r, 0.15) {
			cs = append(cs, pick(r, "order", "user", "group"))
		}
		if chance(r, 0.08) { // names that are not words
			cs = append(cs, pick(r, "full name", "zip-code", "名 前", "a.b", "x+y"))
		}
		if flavor == "postgres" && chance(r, 0.1) { // PostgreSQL tells these apart
			cs = append(cs, pick(r, "STATUS", "NAME", "USER_ID"), "status")
		}
		cs = uniqS(cs)
		npk := pick(r, 1, 1, 1, 2, 0)
		for j, c := range cs {
			t.Cols = append(t.Cols, Col{Name: c, PK: j < npk})
		}
		if npk > 0 {
			var pk []string
			for _, c := range t.Cols {
				if c.PK {
					pk = append(pk, c.Name)
				}
			}
			t.Indexes = append(t.Indexes, &Index{Name: pkName(flavor, t.Name), Cols: pk, Primary: true})
		}
		for flavor == "postgres" && chance(r, 0.12) {
			t.Dropped = append(t.Dropped, r.Intn(len(t.Cols)+1))
		}
		w.Tables = append(w.Tables, t)
	}
	return w
}

func pkName(flavor, t string) string {
	if flavor == "mysql" {
		return "PRIMARY"
	}
	return t + "_pkey"
}

// Move puts all tables in another schema.
func (w *World) Move(schema string) {
	for _, t := range w.Tables {
		t.Schema = schema
	}
	w.Schema = schema
}

// AddDecoys puts tables with the same names, other keys and other indexes in other schemas.
func (w *World) AddDecoys(want []Target) {
	for _, t := range append([]*Table(nil), w.Tables...) {
		if t.Schema != w.Schema {
			continue
		}
		d := &Table{Schema: "other", Name: t.Name}
		if w.Flavor == "postgres" && w.Schema != "public" && chance(w.R, 0.7) {
			d.Schema = "public"
		}
		if strings.Contains(w.Schema, "_") && chance(w.R, 0.5) {
			d.Schema = strings.Replace(w.Schema, "_", pick(w.R, "x", "-", "0"), 1) // LIKE takes it for the same
		}
		for _, c := range t.Cols {
			d.Cols = append(d.Cols, Col{Name: c.Name, PK: !c.PK})
		}
		d.Cols = append(d.Cols, Col{Name: "decoy_only"})
		for i, k := range want {
			if strings.EqualFold(k.Table, t.Name) {
				d.Indexes = append(d.Indexes, &Index{Name: fmt.Sprintf("d%d", i), Cols: k.Cols})
			}
		}
		w.Tables = append(w.Tables, d)
	}
}

// AddIndexes gives the real tables indexes: some exactly like candidates, some
// near misses (prefix, extension, reordering, other table).
func (w *World) AddIndexes(cands []Target) {
	r := w.R
	add := func(t *Table, cols []string) {
		w.nIdx++
		t.Indexes = append(t.Indexes, &Index{Name: fmt.Sprintf("%s_%d", pick(r, "idx", "a_idx", "z_idx"), w.nIdx), Cols: cols, Unique: chance(r, 0.3)})
	}
	get := func(name string) *Table {
		for _, t := range w.Tables {
			if t.Schema == w.Schema && strings.EqualFold(t.Name, name) {
				return t
			}
		}
		return nil
	}
	if len(cands) == 0 {
		return
	}
	for i := 0; i < 1+r.Intn(4); i++ {
		c := pickS(r, cands)
		t := get(c.Table)
		cols := append([]string(nil), c.Cols...)
		switch r.Intn(8) {
		case 7: // a key that is an expression
			k := r.Intn(len(cols) + 1)
			cols = append(cols[:k:k], append([]string{ExprKey}, cols[k:]...)...)
			if len(cols) > 1 && chance(r, 0.5) {
				cols = cols[:len(cols)-1]
			}
		case 0, 1, 2:
			if w.Flavor == "mysql" && chance(r, 0.3) { // MySQL stores names in their declared case
				for k := range cols {
					for _, tc := range t.Cols {
						if strings.EqualFold(tc.Name, cols[k]) {
							cols[k] = tc.Name
						}
					}
				}
			}
		case 3:
			cols = cols[:1+r.Intn(len(cols))]
		case 4:
			cols = append(cols, t.Cols[r.Intn(len(t.Cols))].Name)
		case 5:
			r.Shuffle(len(cols), func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
		case 6:
			t = w.Tables[r.Intn(len(w.Tables))]
			if t.Schema != w.Schema {
				t = get(c.Table)
			}
		}
		seen := map[string]bool{}
		ok := true
		for _, x := range cols {
			k := x
			if w.Flavor == "mysql" {
				k = strings.ToLower(x)
			}
			if seen[k] {
				ok = false
			}
			seen[k] = true
		}
		if ok {
			add(t, cols)
		}
	}
}

func uniqS(in []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range in {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// gBase is a base column; gCol an exposed column of a source.
type gBase struct{ t, c string }
type gCol struct {
	name  string
	bases []gBase
}
type gSrc struct {
	poison map[string]bool
	alias  string // how columns are qualified
	cols   []gCol
	names  map[string]int // names that exist inside: 1 exposed, 2 only inside
	star   bool
	// schema that columns may be qualified with as well
	schema string
	lvl    int // depth of the query it belongs to
	// columns that USING made one with that of these sources
	merged map[string][]*gSrc
	// only qualified for now
	mustQ bool
}

// oneWith tells whether USING made the column of both sources one.
func (s *gSrc) oneWith(o *gSrc, name string) bool {
	for _, x := range s.merged[name] {
		if x == o {
			return true
		}
	}
	for _, x := range o.merged[name] {
		if x == s {
			return true
		}
	}
	return false
}

// QGen builds statements together with their reference uses.
type QGen struct {
	R      *rand.Rand
	W      *World
	U      Uses
	Allow  map[string][]string // table -> columns the statement may touch
	nAlias int
	Nested bool // allow derived tables, lateral joins and subqueries
	Feat   map[string]bool
	Depth  int
	allQ   bool // qualify everything
	// how deep queries are nested
	maxDepth int
	// arguments of functions in the FROM just rendered
	fromArgs []gCol
}

// NewQGen prepares a generator over the world.
func NewQGen(r *rand.Rand, w *World, nested bool, maxCols int) *QGen {
	g := &QGen{R: r, W: w, U: Uses{}, Allow: map[string][]string{}, Nested: nested, Feat: map[string]bool{}, maxDepth: 2}
	if nested && chance(r, 0.3) {
		g.maxDepth = 3
	} else if nested && chance(r, 0.2) {
		g.maxDepth = 4 + r.Intn(2)
	}
	for _, t := range w.Tables {
		if t.Schema != w.Schema {
			continue
		}
		var cs []string
		for _, c := range t.Cols {
			cs = append(cs, c.Name)
		}
		r.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
		k := 1 + r.Intn(maxCols)
		if k > len(cs) {
			k = len(cs)
		}
		g.Allow[t.Name] = cs[:k]
	}
	return g
}

func (g *QGen) feat(s string) { g.Feat[s] = true }

// Features lists what the statement exercises.
func (g *QGen) Features() string {
	var f []string
	for k := range g.Feat {
		f = append(f, k)
	}
	sort.Strings(f)
	return strings.Join(f, ",")
}

func plainIdent(s string) bool {
	for i, c := range s {
		if !(c == '_' || (c >= 'a' && c <= 'z') || (i > 0 && c >= '0' && c <= '9')) {
			return false
		}
	}
	return s != ""
}

func wordIdent(s string) bool { return plainIdent(strings.ToLower(s)) }

var reserved = map[string]bool{"order": true, "user": true, "select": true, "group": true}

// Q quotes an identifier, always when needed and sometimes when not.
func (g *QGen) Q(s string) string {
	if g.W.Flavor == "mysql" {
		if !wordIdent(s) || reserved[s] || chance(g.R, 0.2) {
			return "`" + s + "`"
		}
		if chance(g.R, 0.1) { // MySQL does not care about the case of columns
			return s
		}
		return s
	}
	if !plainIdent(s) || reserved[s] || chance(g.R, 0.2) {
		return `"` + s + `"`
	}
	if chance(g.R, 0.08) {
		return strings.ToUpper(s)
	}
	return s
}

// QCol is Q for a column name.
func (g *QGen) QCol(s string) string {
	if g.W.Flavor == "mysql" && wordIdent(s) && !reserved[s] && chance(g.R, 0.08) {
		return strings.ToUpper(s)
	}
	return g.Q(s)
}

func (g *QGen) alias() string {
	g.nAlias++
	if g.W.Flavor == "postgres" && chance(g.R, 0.1) { // as Hasura names them
		return fmt.Sprintf("_%d_root.base", g.nAlias)
	}
	return fmt.Sprintf("%s%d", pick(g.R, "x", "t", "q"), g.nAlias)
}

// aliasFor is an alias for a source, sometimes the name of a table as well.
func (g *QGen) aliasFor(srcs, outer []*gSrc) string {
	if g.W.Flavor == "postgres" && g.Nested && chance(g.R, 0.15) {
		t := pickS(g.R, g.W.Tables)
		for _, o := range append(append([]*gSrc(nil), srcs...), outer...) {
			if strings.EqualFold(o.alias, t.Name) {
				t = nil
				break
			}
		}
		if t != nil {
			g.feat("alias-is-table")
			return t.Name
		}
	}
	if len(outer) > 0 && g.Nested && chance(g.R, 0.15) {
		// the alias of an enclosing query, hidden from here on
		o := pickS(g.R, outer)
		for _, s := range srcs {
			if strings.EqualFold(s.alias, o.alias) {
				o = nil
				break
			}
		}
		if o != nil {
			g.feat("alias-again")
			return o.alias
		}
	}
	return g.alias()
}

// deepen raises a probability in statements that nest deeply.
func (g *QGen) deepen(p float64) float64 {
	if g.maxDepth > 3 {
		return 0.8
	}
	return p
}

func (g *QGen) konst() string {
	return pick(g.R, "1", "42", "'abc'", "'it''s'", "'x@example.com'", "NULL", "0", "3.5")
}

// use records a reference and renders it.
func (g *QGen) use(local []*gSrc, s *gSrc, c gCol, cond bool, outer ...*gSrc) string {
	for _, b := range c.bases {
		g.U.add(b.t, b.c, cond)
	}
	qual := true
	if !g.allQ && !s.mustQ && chance(g.R, 0.4) {
		// unqualified is fine when no other source of this scope knows the name
		qual = false
		found := false
		merged := false
		for _, o := range local {
			if o == s {
				found = true
				continue
			}
			if _, ok := o.names[strings.ToLower(c.name)]; ok {
				if s.oneWith(o, c.name) {
					merged = true
					continue
				}
				qual = true
			}
		}
		if merged && !qual {
			g.feat("unqualified-merged")
		}
		if !found {
			// outer reference: unknown here and in every nearer query
			for _, o := range outer {
				if _, ok := o.names[strings.ToLower(c.name)]; ok && o != s && o.lvl >= s.lvl && !s.oneWith(o, c.name) {
					qual = true
				}
			}
			if len(outer) == 0 || len(local) == 0 {
				qual = true
			}
			if !qual {
				g.feat("unqualified-outer")
			}
		}
	}
	if qual {
		if s.schema != "" && chance(g.R, 0.3) {
			g.feat("schema-column")
			return g.Q(s.schema) + "." + g.Q(s.alias) + "." + g.QCol(c.name)
		}
		if g.W.Flavor == "postgres" && chance(g.R, 0.03) {
			g.feat("column-access")
			return "(" + g.Q(s.alias) + ")." + g.QCol(c.name)
		}
		return g.Q(s.alias) + "." + g.QCol(c.name)
	}
	g.feat("unqualified")
	return g.QCol(c.name)
}

func (g *QGen) anyCol(local, outer []*gSrc) (string, *gSrc, gCol, bool) {
	srcs := local
	if len(outer) > 0 && chance(g.R, 0.35) {
		srcs = outer
	}
	if len(srcs) == 0 {
		srcs = outer
	}
	far := 0
	if len(local) == 0 && g.maxDepth > 3 && chance(g.R, 0.5) {
		far = 10 // the outermost query that can be named
	}
	for tries := 0; tries < 20 && len(srcs) > 0; tries++ {
		s := pickS(g.R, srcs)
		if tries < far && (s.lvl > 1+tries/4 || len(s.cols) == 0) {
			continue
		}
		if len(s.cols) == 0 {
			continue
		}
		if far > 0 && g.Depth-s.lvl > 2 {
			g.feat("far-reference")
		}
		return "", s, pickS(g.R, s.cols), true
	}
	return "", nil, gCol{}, false
}

func (g *QGen) col(local, outer []*gSrc, cond bool) string {
	_, s, c, ok := g.anyCol(local, outer)
	if !ok {
		return g.konst()
	}
	return g.use(local, s, c, cond, outer...)
}

// outerCol is a column of an enclosing query.
func (g *QGen) outerCol(local, outer []*gSrc) string {
	_, s, c, ok := g.anyCol(nil, outer)
	if !ok {
		return g.konst()
	}
	return g.use(local, s, c, true, outer...)
}

// either renders the constant or, half of the time, what f makes.
func (g *QGen) either(k string, f func() string) string {
	if chance(g.R, 0.5) {
		return k
	}
	return f()
}

// scalar renders an expression over the sources.
func (g *QGen) scalar(local, outer []*gSrc, cond bool, depth int) string {
	r := g.R
	col := func() string { return g.col(local, outer, cond) }
	switch r.Intn(22) {
	case 0:
		g.feat("func")
		return "UPPER(" + col() + ")"
	case 1:
		g.feat("coalesce")
		last := ""
		for k := r.Intn(4); k > 1; k-- {
			last += ", " + g.either(g.konst(), col)
		}
		return "COALESCE(" + col() + ", " + g.either(g.konst(), col) + last + ")"
	case 2:
		g.feat("arith")
		return col() + pick(r, " + 1", " * 2", " - 3")
	case 3:
		g.feat("case")
		if depth <= 0 {
			return col()
		}
		return "CASE WHEN " + g.pred(local, outer, cond, depth-1) + " THEN " + col() + " ELSE " + g.either(g.konst(), col) + " END"
	case 4:
		g.feat("cast")
		if g.W.Flavor == "mysql" {
			return "CAST(" + col() + " AS CHAR)"
		}
		if chance(r, 0.5) {
			return col() + "::text"
		}
		return "CAST(" + col() + " AS TEXT)"
	case 5:
		g.feat("paren")
		return "(" + col() + ")"
	case 6:
		g.feat("nullif")
		return "NULLIF(" + col() + ", " + g.either(g.konst(), col) + ")"
	case 7:
		g.feat("concat")
		if g.W.Flavor == "mysql" {
			return "CONCAT(" + col() + ", '-', " + col() + ")"
		}
		return col() + " || " + col()
	case 8:
		g.feat("case2")
		return "CASE " + col() + " WHEN " + g.either("1", col) + " THEN " + col() + " WHEN 2 THEN 'b'" + g.either(pick(r, "", " ELSE NULL"), func() string { return " ELSE " + col() }) + " END"
	case 9:
		g.feat("minus")
		return "-" + col()
	case 10:
		g.feat("collate")
		if g.W.Flavor == "mysql" {
			return col() + " COLLATE utf8mb4_bin"
		}
		return col() + ` COLLATE "C"`
	case 11:
		g.feat("trim")
		return pick(r, "TRIM(LEADING 'x' FROM ", "TRIM(BOTH ' ' FROM ", "TRIM(") + col() + ")"
	case 12:
		g.feat("substring")
		if g.W.Flavor == "mysql" && chance(r, 0.5) {
			return "SUBSTRING(" + col() + ", " + g.either("1", col) + ", 3)"
		}
		return "SUBSTRING(" + col() + " FROM " + g.either("1", col) + " FOR 3)"
	case 13:
		g.feat("date")
		if g.W.Flavor == "mysql" {
			return pick(r,
				func() string { return "DATE_ADD(" + col() + ", INTERVAL " + g.either("1", col) + " DAY)" },
				func() string { return "TIMESTAMPDIFF(HOUR, " + col() + ", " + g.either("NOW()", col) + ")" },
				func() string { return "DATE_FORMAT(" + col() + ", GET_FORMAT(DATE, 'USA'))" },
				func() string { return "(" + col() + " + INTERVAL 2 MONTH)" })()
		}
		return pick(r,
			func() string { return "DATE_TRUNC('day', " + col() + ")" },
			func() string { return "(" + col() + " - INTERVAL '1 day')" },
			func() string { return "(" + col() + " AT TIME ZONE 'utc')" })()
	case 14:
		g.feat("extract")
		return "EXTRACT(YEAR FROM " + col() + ")"
	case 15:
		g.feat("json")
		if g.W.Flavor == "mysql" {
			c := col()
			if strings.Contains(c, ".") && chance(r, 0.5) {
				return c + pick(r, "->'$.a'", "->>'$.b'")
			}
			return "JSON_EXTRACT(" + c + ", '$.a')"
		}
		return "(" + col() + pick(r, " -> 'a')", " ->> 'b')", " #> '{a,b}')")
	case 16:
		g.feat("func-many")
		if g.W.Flavor == "mysql" {
			return "IF(" + col() + " > 1, " + col() + ", " + g.either("0", col) + ")"
		}
		return "GREATEST(" + col() + ", " + g.either("3", col) + ", " + col() + ")"
	case 17:
		if g.W.Flavor == "mysql" {
			if chance(r, 0.3) {
				g.feat("variable")
				return pick(r, "(@v := ", "(@`x y` := ") + col() + ")"
			}
			return pick(r, "BINARY ", "~", "!") + col()
		}
		g.feat("array")
		return "ARRAY[" + col() + ", " + g.either("1", col) + "]"
	}
	return col()
}

// pred renders a condition.
func (g *QGen) pred(local, outer []*gSrc, cond bool, depth int) string {
	r := g.R
	if depth > 0 && chance(r, 0.45) {
		a, b := g.pred(local, outer, cond, depth-1), g.pred(local, outer, cond, depth-1)
		switch r.Intn(4) {
		case 0:
			g.feat("or")
			return "(" + a + " OR " + b + ")"
		case 1:
			g.feat("not")
			return "NOT (" + a + ") AND " + b
		default:
			return a + " AND " + b
		}
	}
	if g.maxDepth > 3 && g.Depth < g.maxDepth && cond && chance(r, 0.25) {
		return g.subPred(local, outer)
	}
	sc := func() string { return g.scalar(local, outer, cond, 0) }
	ccol := func() string { return g.col(local, outer, cond) }
	switch r.Intn(20) {
	case 0:
		g.feat("between")
		return g.col(local, outer, cond) + pick(r, " BETWEEN ", " NOT BETWEEN ") + g.either("1", ccol) + " AND " + g.either("9", ccol)
	case 1:
		g.feat("in")
		return g.col(local, outer, cond) + pick(r, " IN ", " NOT IN ") + "(1, 2, " + g.either("3", ccol) + ")"
	case 2:
		g.feat("like")
		return g.col(local, outer, cond) + pick(r, " LIKE ", " NOT LIKE ") + g.either(pick(r, "'a%'", "'%(b'", "'c: d'"), ccol)
	case 3:
		g.feat("isnull")
		return sc() + pick(r, " IS NULL", " IS NOT NULL")
	case 4:
		g.feat("colcol")
		return g.col(local, outer, cond) + pick(r, " = ", " < ", " >= ", " <> ") + g.col(local, outer, cond)
	case 5:
		g.feat("row")
		if chance(r, 0.3) { // long rows
			g.feat("long-row")
			l := "(" + g.either("1", ccol) + ", " + ccol()
			rr := "(1, " + g.either("2", ccol)
			for k := 1 + r.Intn(3); k > 0; k-- {
				l += ", " + ccol()
				rr += ", " + g.either("3", ccol)
			}
			return l + pick(r, ") = ", ") <> ") + rr + ")"
		}
		l := "(" + g.col(local, outer, cond) + ", " + g.col(local, outer, cond) + ")"
		switch r.Intn(3) {
		case 0:
			return l + " = (1, " + g.either("2", ccol) + ")"
		case 1:
			return l + " IN ((1, 2), (" + g.either("3", ccol) + ", 4))"
		}
		return "ROW" + l + " <> ROW(" + g.either("1", ccol) + ", 2)"
	case 6:
		g.feat("regexp")
		if g.W.Flavor == "mysql" {
			return g.col(local, outer, cond) + " REGEXP " + g.either("'a.*'", ccol)
		}
		return g.col(local, outer, cond) + pick(r, " ~ ", " !~* ", " ILIKE ") + g.either("'a.*'", ccol)
	case 7:
		if g.W.Flavor == "mysql" {
			return sc() + " <=> " + g.either("1", ccol)
		}
		g.feat("distinct-from")
		return sc() + pick(r, " IS DISTINCT FROM ", " IS NOT DISTINCT FROM ") + g.either("3", ccol)
	case 8, 9:
		if g.W.Flavor == "mysql" && cond && chance(r, 0.5) {
			return g.mysqlSub(local)
		}
		if g.Nested && g.W.Flavor == "postgres" && g.Depth < g.maxDepth && cond {
			return g.subPred(local, outer)
		}
	case 10:
		g.feat("is-true")
		return ccol() + pick(r, " IS TRUE", " IS NOT TRUE", " IS FALSE", " IS NOT FALSE", " IS UNKNOWN")
	case 11:
		if g.W.Flavor == "mysql" {
			g.feat("match")
			m := "MATCH (" + g.plainCol(local, cond)
			if chance(r, 0.5) {
				m += ", " + g.plainCol(local, cond)
			}
			return m + ") AGAINST ('+a -b'" + pick(r, "", " IN BOOLEAN MODE") + ")"
		}
		g.feat("any-array")
		if chance(r, 0.3) {
			return ccol() + " = ANY('{1,2}')"
		}
		return ccol() + pick(r, " = ANY(", " <> ALL(") + "ARRAY[1, " + g.either("2", ccol) + "])"
	case 12:
		g.feat("xor")
		if g.W.Flavor == "mysql" {
			return "(" + ccol() + " = 1 XOR " + ccol() + " = 2)"
		}
		return "(" + ccol() + pick(r, " @> ", " && ", " <@ ") + g.either("'{1}'", ccol) + ")"
	}
	return sc() + pick(r, " = ", " > ", " <= ", " != ") + g.konst()
}

// orderedAggregate renders an aggregate with a clause of its own.
func (g *QGen) orderedAggregate(srcs []*gSrc) string {
	col := func() string { return g.col(srcs, nil, false) }
	if g.W.Flavor == "mysql" {
		g.feat("group-concat")
		return pick(g.R, "GROUP_CONCAT(", "GROUP_CONCAT(DISTINCT ") + col() + " ORDER BY " + col() + g.more(col) + pick(g.R, "", " DESC SEPARATOR ','") + ")"
	}
	if chance(g.R, 0.5) {
		g.feat("filter")
		return "SUM(" + col() + ") FILTER (WHERE " + col() + " > 1)"
	}
	g.feat("ordered-aggregate")
	return "ARRAY_AGG(" + col() + " ORDER BY " + col() + g.more(col) + pick(g.R, "", " DESC") + ")"
}

// more is at times one more column of a list.
func (g *QGen) more(col func() string) string {
	if chance(g.R, 0.3) {
		return ", " + col()
	}
	return ""
}

// window renders a window function.
func (g *QGen) window(srcs []*gSrc) string {
	r := g.R
	col := func() string { return g.col(srcs, nil, false) }
	f := pick(r,
		func() string { return "ROW_NUMBER()" },
		func() string { return "RANK()" },
		func() string { return "SUM(" + col() + ")" },
		func() string { return "LAG(" + col() + ", 1, " + g.either("0", col) + ")" })()
	var over []string
	if chance(r, 0.7) {
		p := "PARTITION BY " + col()
		if chance(r, 0.3) {
			p += ", " + col()
		}
		over = append(over, p)
	}
	if chance(r, 0.7) {
		over = append(over, "ORDER BY "+col()+pick(r, "", " DESC"))
		if chance(r, 0.3) {
			over = append(over, pick(r, "ROWS BETWEEN 1 PRECEDING AND CURRENT ROW", "ROWS UNBOUNDED PRECEDING"))
		}
	}
	return f + " OVER (" + strings.Join(over, " ") + ")"
}

// plainCol is a column where only a column may stand.
func (g *QGen) plainCol(local []*gSrc, cond bool) string {
	for _, i := range g.R.Perm(len(local)) {
		s := local[i]
		if len(s.cols) > 0 {
			return g.use(local, s, pickS(g.R, s.cols), cond)
		}
	}
	panic("no column")
}

// mysqlSub renders a subquery in a condition of a MySQL statement: what is inside
// is not analysed (only the outermost SELECT is), what stands beside it is.
func (g *QGen) mysqlSub(local []*gSrc) string {
	r := g.R
	g.feat("mysql-subquery")
	var ts []*Table
	for _, t := range g.W.Tables {
		if t.Schema == g.W.Schema {
			ts = append(ts, t)
		}
	}
	t := pickS(r, ts)
	al := g.alias()
	q := "SELECT " + al + "." + g.Q(t.Cols[0].Name) + " FROM " + g.Q(t.Name) + " " + al
	if chance(r, 0.5) {
		q += " WHERE " + al + "." + g.Q(pickS(r, t.Cols).Name) + pick(r, " > 1", " = 'x'", " IS NULL")
	}
	if chance(r, 0.2) {
		return pick(r, "EXISTS (", "NOT EXISTS (") + q + ")"
	}
	lhs := g.col(local, nil, true)
	switch r.Intn(4) {
	case 0:
		return lhs + pick(r, " IN (", " NOT IN (") + q + ")"
	case 1:
		return lhs + pick(r, " > ALL (", " = ANY (", " <= SOME (") + q + ")"
	case 2:
		return "(" + q + " LIMIT 1) < " + lhs
	}
	return lhs + " = (" + q + " LIMIT 1)"
}

// subPred renders a subquery used in a condition, correlated with this scope.
func (g *QGen) subPred(local, outer []*gSrc) string {
	// a subquery sees the scopes around this one as well
	vis := append(append([]*gSrc(nil), local...), outer...)
	allQ := g.allQ
	lhs := ""
	k := g.R.Intn(4)
	if k > 0 {
		lhs = g.col(local, nil, true)
	}
	g.allQ = false
	defer func() { g.allQ = allQ }()
	if len(outer) > 0 {
		g.feat("two-level-correlation")
	}
	switch k {
	case 0:
		g.feat("exists")
		q, _ := g.sel(vis, selOpt{one: true})
		return pick(g.R, "EXISTS (", "NOT EXISTS (") + q + ")"
	case 1:
		g.feat("in-subquery")
		q, _ := g.sel(vis, selOpt{single: true})
		return lhs + pick(g.R, " IN (", " NOT IN (") + q + ")"
	}
	if k == 2 {
		g.feat("any-subquery")
		q, _ := g.sel(vis, selOpt{single: true})
		return lhs + pick(g.R, " = ANY (", " > ALL (", " <> SOME (") + q + ")"
	}
	g.feat("scalar-subquery-cond")
	q, _ := g.sel(vis, selOpt{single: true})
	return lhs + " = (" + q + ")"
}

type selOpt struct {
	one     bool // SELECT 1
	single  bool // exactly one output
	named   bool // outputs must have names (derived table)
	lateral bool
}

// from renders the FROM clause and returns its sources.
func (g *QGen) from(outer []*gSrc) (string, []*gSrc) {
	r := g.R
	n := 1
	if chance(r, 0.5) {
		n = 2
	}
	if chance(r, 0.1) {
		n = 3
	}
	if len(g.W.Tables) > 4 && g.Depth == 1 && chance(r, 0.5) {
		g.feat("many-tables")
		n = 4 + r.Intn(3)
	}
	if g.Depth > 3 {
		g.feat("deep")
		n = 1 + n/3
	}
	var text string
	var srcs []*gSrc
	for i := 0; i < n; i++ {
		var item string
		var s *gSrc
		if g.Nested && g.W.Flavor == "postgres" && g.Depth < g.maxDepth && chance(r, 0.35) {
			var lat []*gSrc
			pre := ""
			if i > 0 && chance(r, 0.5) {
				g.feat("lateral")
				pre = "LATERAL "
				lat = srcs
			} else {
				g.feat("derived")
				if len(outer) > 0 && chance(r, g.deepen(0.3)) {
					g.feat("derived-correlated-outside")
					lat = outer
				}
			}
			q, out := g.sel(lat, selOpt{named: true, lateral: lat != nil})
			s = &gSrc{alias: g.aliasFor(srcs, outer), cols: out.cols, names: out.names}
			item = pre + "(" + q + ") AS " + g.Q(s.alias)
		} else {
			var ts []*Table
			for _, t := range g.W.Tables {
				if t.Schema == g.W.Schema {
					ts = append(ts, t)
				}
			}
			t := pickS(r, ts)
			s = &gSrc{alias: t.Name, names: map[string]int{}}
			for _, c := range t.Cols {
				s.names[strings.ToLower(c.Name)] = 1
			}
			for _, c := range g.Allow[t.Name] {
				s.cols = append(s.cols, gCol{name: c, bases: []gBase{{t.Name, c}}})
			}
			dup := false
			for i, o := range append(append([]*gSrc(nil), srcs...), outer...) {
				if strings.EqualFold(o.alias, t.Name) {
					if i >= len(srcs) && chance(r, 0.4) {
						g.feat("shadowing") // a table of an enclosing query of the same name
						continue
					}
					dup = true
				}
			}
			item = g.Q(t.Name)
			if g.W.Flavor == "postgres" && g.W.Schema == "public" && chance(r, 0.15) {
				g.feat("schema-qualified")
				item = g.Q(g.W.Schema) + "." + item
				s.schema = g.W.Schema
			}
			if dup || chance(r, 0.5) {
				s.alias = g.aliasFor(srcs, outer)
				s.schema = ""
				item += pick(r, " AS ", " ") + g.Q(s.alias)
				g.feat("alias")
			}
		}
		if i == 0 {
			text = item
			s.lvl = g.Depth
			srcs = append(srcs, s)
			continue
		}
		s.lvl = g.Depth
		srcs = append(srcs, s)
		// in an ON only the tables joined so far are visible: what is unambiguous
		// there may be ambiguous for the whole FROM, so names are qualified
		g.allQ = i < n-1
		for _, s := range srcs {
			s.mustQ = g.allQ // from within subqueries as well
		}
		if u := g.maybeUsing(srcs); u != "" {
			g.feat("using")
			text += pick(r, " JOIN ", " LEFT JOIN ", " RIGHT JOIN ", g.fullJoin()) + item + " USING (" + u + ")"
			g.allQ = false
			continue
		}
		switch r.Intn(6) {
		case 0:
			g.feat("comma-join")
			text += ", " + item
			// (a comma binds weaker than JOIN: nothing after it may name the earlier
			// tables in its ON, which our generated ON clauses of later joins could do)
			if n > i+1 {
				n = i + 1
			}
		case 1:
			g.feat("cross-join")
			text += " CROSS JOIN " + item
		case 2:
			g.feat("left-join")
			text += pick(r, " LEFT OUTER JOIN ", " RIGHT JOIN ", " RIGHT OUTER JOIN ", g.fullJoin()) + item + " ON " + g.pred(srcs, nil, true, 1)
		default:
			g.feat("join")
			text += pick(r, " JOIN ", " INNER JOIN ", "\n\tINNER JOIN ") + item + " ON " + g.onPred(srcs)
		}
		g.allQ = false
	}
	for _, s := range srcs {
		s.mustQ = false
	}
	if g.W.Flavor == "postgres" && chance(r, 0.06) {
		g.feat("from-function")
		arg := "3"
		if _, s, c, ok := g.anyCol(srcs, nil); ok {
			arg = g.use(srcs, s, c, false)
			g.fromArgs = append(g.fromArgs, c) // leaks as grouping columns do
		}
		text += pick(r, ", ", " CROSS JOIN ", ", LATERAL ") + pick(r, "GENERATE_SERIES(1, "+arg+")", "UNNEST(ARRAY["+arg+"])", "JSONB_ARRAY_ELEMENTS("+arg+")") + pick(r, " AS ", " ") + g.Q(g.alias())
	}
	return text, srcs
}

// fullJoin is a join MySQL does not have.
func (g *QGen) fullJoin() string {
	if g.W.Flavor == "mysql" {
		return " LEFT JOIN "
	}
	g.feat("full-join")
	return pick(g.R, " FULL JOIN ", " FULL OUTER JOIN ")
}

func (g *QGen) maybeUsing(srcs []*gSrc) string {
	if chance(g.R, 0.8) {
		return ""
	}
	return g.usingCol(srcs)
}

// usingCol finds a column of the last source that exactly one earlier source
// has too, records its use and returns its text.
func (g *QGen) usingCol(srcs []*gSrc) string {
	last := srcs[len(srcs)-1]
	for _, k := range g.R.Perm(len(last.cols)) {
		c := last.cols[k]
		var other *gCol
		n := 0
		var with []*gSrc
		for _, o := range srcs[:len(srcs)-1] {
			if _, ok := o.names[strings.ToLower(c.name)]; !ok {
				continue
			}
			if n == 0 || !with[0].oneWith(o, c.name) {
				n++
			}
			with = append(with, o)
			for x := range o.cols {
				if o.cols[x].name == c.name {
					other = &o.cols[x]
				}
			}
		}
		if n != 1 || other == nil || len(c.bases) == 0 || len(other.bases) == 0 {
			continue
		}
		if len(with) > 1 {
			g.feat("using-three")
		}
		if last.merged == nil {
			last.merged = map[string][]*gSrc{}
		}
		last.merged[c.name] = with
		return g.usingText(c, *other)
	}
	return ""
}

func (g *QGen) usingText(a, b gCol) string {
	for _, x := range append(append([]gBase(nil), a.bases...), b.bases...) {
		g.U.add(x.t, x.c, true)
	}
	return g.QCol(a.name)
}

func (g *QGen) onPred(srcs []*gSrc) string {
	a, b := srcs[len(srcs)-2], srcs[len(srcs)-1]
	if len(a.cols) == 0 || len(b.cols) == 0 {
		return "1 = 1"
	}
	return g.use(srcs, a, pickS(g.R, a.cols), true) + " = " + g.use(srcs, b, pickS(g.R, b.cols), true)
}

// sel renders a SELECT; outer are the sources it may be correlated with.
func (g *QGen) sel(outer []*gSrc, o selOpt) (string, *gSrc) {
	r := g.R
	g.Depth++
	defer func() { g.Depth-- }()
	from, srcs := g.from(outer)
	fromArgs := g.fromArgs
	g.fromArgs = nil
	// what is hidden by a name of this query cannot be named, but still be ambiguous
	if len(outer) > 0 {
		outer = append([]*gSrc(nil), outer...)
		for i, o := range outer {
			for _, s := range srcs {
				if strings.EqualFold(o.alias, s.alias) {
					outer[i] = &gSrc{alias: o.alias, names: o.names, lvl: o.lvl}
				}
			}
		}
	}
	out := &gSrc{names: map[string]int{}}
	// names of grouping/ordering columns are kept apart: see PHANTOM in DESIGN.md
	inner := map[string][]gBase{}
	phantom := func(c gCol) {
		k := strings.ToLower(c.name)
		if out.names[k] == 0 {
			out.names[k] = 2
		}
		inner[k] = append(inner[k], c.bases...)
	}
	for _, c := range fromArgs {
		phantom(c)
	}
	gcol := func() string {
		_, s, c, ok := g.anyCol(srcs, nil)
		if !ok {
			return "1"
		}
		phantom(c)
		return g.use(srcs, s, c, false)
	}
	var items []string
	if o.one {
		items = []string{"1"}
	} else {
		n := 1 + r.Intn(3)
		if o.single {
			n = 1
		}
		for i := 0; i < n; i++ {
			k := r.Intn(10)
			switch {
			case k == 0 && !o.single && i == 0:
				g.feat("star")
				items = append(items, "*")
				for _, s := range srcs {
					if len(s.merged) > 0 {
						g.feat("merged-star")
						m := &gSrc{names: map[string]int{}, poison: s.poison}
						for _, c := range s.cols {
							if s.merged[c.name] == nil {
								m.cols = append(m.cols, c)
							}
						}
						for n, k := range s.names {
							if s.merged[n] == nil {
								m.names[n] = k
							}
						}
						s = m
					}
					out.exposeAll(s)
				}
			case k == 1 && !o.single:
				s := pickS(r, srcs)
				g.feat("table-star")
				items = append(items, g.Q(s.alias)+".*")
				out.exposeAll(s)
			case k == 2 && g.Depth == 1:
				g.feat("aggregate")
				items = append(items, pick(r,
					func() string { return "COUNT(*)" },
					func() string { return "MAX(" + g.col(srcs, nil, false) + ")" },
					func() string { return "COUNT(DISTINCT " + g.col(srcs, nil, false) + ")" },
					func() string { return g.orderedAggregate(srcs) })())
			case k == 3 && g.Nested && g.W.Flavor == "postgres" && g.Depth < g.maxDepth && !o.single:
				g.feat("field-subquery")
				vis := srcs
				if len(outer) > 0 && chance(r, 0.5) {
					g.feat("field-subquery-two-levels")
					vis = append(append([]*gSrc(nil), srcs...), outer...)
				}
				q, _ := g.sel(vis, selOpt{single: true})
				al := g.alias()
				switch v := r.Intn(8); {
				case v == 0:
					q = "COALESCE((" + q + "), 0)"
				case v == 1:
					q = "CASE WHEN EXISTS (" + q + ") THEN 1 ELSE 0 END"
				case v == 2:
					q = "ARRAY[1, (" + q + ")]"
				case v == 3:
					q = "((" + q + ") = 2)"
				case v == 4 && g.Depth == 1:
					g.feat("window-subquery")
					q = "RANK() OVER (ORDER BY (" + q + "))"
				case v == 5 && g.Depth == 1:
					g.feat("aggregate-subquery")
					q = pick(r, "ARRAY_AGG(1 ORDER BY (", "MAX((") + q + "))"
				default:
					q = "(" + q + ")"
				}
				items = append(items, q+" AS "+g.Q(al))
				// using its value outside uses no column of the subquery
				out.expose(al, nil)
			case k == 4 && g.Depth > 1 && !o.single:
				g.feat("constant-output")
				al := g.alias()
				items = append(items, pick(r, "COUNT(*)", "1", "NOW()", "'k'")+" AS "+g.Q(al))
				out.expose(al, nil)
			case k == 4 && g.Depth == 1:
				g.feat("window")
				items = append(items, g.window(srcs))
			case k <= 6:
				// expression with a name
				sn := g.recordUses(func() string { return g.scalar(srcs, lateralOuter(outer, o), false, 1) })
				al := g.alias()
				items = append(items, sn.text+pick(r, " AS ", " AS ")+g.Q(al))
				out.expose(al, sn.bases)
			default:
				_, s, c, ok := g.anyCol(srcs, nil)
				if !ok {
					items = append(items, "1 AS "+g.Q(g.alias()))
					continue
				}
				if out.names[strings.ToLower(c.name)] == 1 {
					al := g.alias()
					items = append(items, g.use(srcs, s, c, false)+" AS "+g.Q(al))
					out.expose(al, c.bases)
					continue
				}
				items = append(items, g.use(srcs, s, c, false))
				out.expose(c.name, c.bases)
			}
		}
	}
	sql := "SELECT "
	if chance(r, 0.04) && !o.one && !o.single && g.W.Flavor == "postgres" {
		sql += "DISTINCT ON (" + gcol() + ") "
		g.feat("distinct-on")
	} else if chance(r, 0.1) && !o.one {
		sql += "DISTINCT "
		g.feat("distinct")
	}
	sql += strings.Join(items, pick(r, ", ", ",", ",\n\t")) + pick(r, " ", "\n") + "FROM " + from
	if chance(r, 0.8) || (len(outer) > 0 && !o.lateral) {
		sql += pick(r, " WHERE ", "\nWHERE ")
		if len(outer) > 0 && chance(r, 0.9) {
			g.feat("correlated")
			sql += g.col(srcs, nil, true) + " = " + g.outerCol(srcs, outer)
			if chance(r, 0.5) {
				sql += " AND " + g.pred(srcs, outer, true, 1)
			}
		} else {
			sql += g.pred(srcs, nil, true, 2)
		}
	}
	if chance(r, 0.2) && !o.single && !o.one {
		g.feat("group-by")
		sql += " GROUP BY " + gcol()
		if chance(r, 0.5) {
			sql += ", " + gcol()
		}
		if chance(r, 0.5) {
			g.feat("having")
			if chance(r, 0.5) {
				sql += " HAVING COUNT(*) > 1"
			} else {
				sql += " HAVING MAX(" + gcol() + ") > 1"
			}
		}
	}
	if chance(r, 0.25) {
		g.feat("order-by")
		sql += " ORDER BY " + gcol()
		if g.W.Flavor == "postgres" && chance(r, 0.2) {
			sql += pick(r, " NULLS FIRST", " DESC NULLS LAST") // all that the parser knows
		} else {
			sql += pick(r, "", " DESC")
		}
		if chance(r, 0.3) {
			sql += ", " + gcol()
		}
	}
	if chance(r, 0.2) {
		g.feat("limit")
		if g.Nested && g.W.Flavor == "postgres" && g.Depth == 1 && chance(r, 0.2) {
			g.feat("limit-subquery")
			q, _ := g.sel(nil, selOpt{single: true})
			sql += pick(r, " LIMIT (", " LIMIT 4 OFFSET (", " OFFSET (") + q + ")"
		} else {
			sql += pick(r, " LIMIT 10", " LIMIT 5 OFFSET 3")
		}
	}
	// an output whose name a grouping/ordering column of another table has too is
	// not used from outside: the known finding of P07
	var cs []gCol
	for _, c := range out.cols {
		clash := out.poison[strings.ToLower(c.name)]
		for _, b := range inner[strings.ToLower(c.name)] {
			if len(c.bases) != 1 || c.bases[0] != b {
				clash = true
			}
		}
		if !clash {
			cs = append(cs, c)
		}
	}
	out.cols = cs
	return sql, out
}

func lateralOuter(outer []*gSrc, o selOpt) []*gSrc {
	if o.lateral {
		return outer
	}
	return nil
}

// expose adds an output column; a name that occurs twice is ambiguous and usable by nobody.
func (s *gSrc) expose(name string, bases []gBase) {
	k := strings.ToLower(name)
	if s.names[k] == 1 {
		var cs []gCol
		for _, c := range s.cols {
			if strings.ToLower(c.name) != k {
				cs = append(cs, c)
			}
		}
		s.cols = cs
		return
	}
	s.names[k] = 1
	s.cols = append(s.cols, gCol{name: name, bases: bases})
}

func (s *gSrc) exposeAll(o *gSrc) {
	have := map[string]bool{}
	for _, c := range o.cols {
		have[strings.ToLower(c.name)] = true
		s.expose(c.name, c.bases)
	}
	for n, k := range o.names {
		if k == 2 {
			// what the star wrongly brings out: see PHANTOM in DESIGN.md
			if s.names[n] == 0 {
				s.names[n] = 2
			}
			if s.poison == nil {
				s.poison = map[string]bool{}
			}
			s.poison[n] = true
		}
		if k == 1 && !have[n] {
			s.expose(n, nil)
			for i, c := range s.cols {
				if strings.ToLower(c.name) == n {
					s.cols = append(s.cols[:i:i], s.cols[i+1:]...)
					break
				}
			}
		}
	}
}

type recUse struct {
	text  string
	bases []gBase
}

// recordUses runs f on a separate use table to learn which base columns it touched.
func (g *QGen) recordUses(f func() string) recUse {
	old := g.U
	g.U = Uses{}
	t := f()
	var bs []gBase
	for tn, cs := range g.U {
		for c := range cs {
			bs = append(bs, gBase{tn, c})
		}
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].t+"."+bs[i].c < bs[j].t+"."+bs[j].c })
	mine := g.U
	g.U = old
	g.U.merge(mine)
	return recUse{t, bs}
}

// Statement renders a top level statement.
func (g *QGen) Statement() string {
	q, _ := g.sel(nil, selOpt{})
	r := g.R
	if chance(r, 0.15) {
		q = "\n" + q + "\n"
	}
	if chance(r, 0.08) {
		q += ";"
	}
	return q
}
