package verifkit

import (
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// A small SQL interpreter over the catalogues of the simulated databases, so that what a catalogue
// request of the tool says is what it gets. Statements it does not know give errUnsupported.

var errUnsupported = errors.New("not understood by the interpreter")

type cval any // nil, bool, int64, string, []cval

type crel struct {
	cols []ccol
	rows [][]cval
}

type ccol struct{ tab, name string }

type cenv struct {
	rel   *crel
	row   []cval
	group [][]cval // rows of the group an aggregate works on
	outer *cenv
}

type cat struct {
	my    bool
	rels  map[string]*crel
	args  []string
	toks  []ctok
	pos   int
	nArg  int
	aggs  int
	ctes  map[string]*crel
	s     *Sim
	plain func(*crel) *crel // rows of a table in no particular order
}

type ctok struct {
	k string // id qid str num op
	v string
}

var reCtok = regexp.MustCompile("(?s)^(?:\\s+|--[^\\n]*|/\\*.*?\\*/|#[^\\n]*)")

func clex(sql string, my bool) ([]ctok, error) {
	var out []ctok
	for len(sql) > 0 {
		if m := reCtok.FindString(sql); m != "" && (my || sql[0] != '#') {
			sql = sql[len(m):]
			continue
		}
		ch := sql[0]
		switch {
		case ch == '\'' || ch == '"' && my:
			j := 1
			var b strings.Builder
			for {
				if j >= len(sql) {
					return nil, errors.New("unterminated quoted string")
				}
				if sql[j] == '\\' && my && j+1 < len(sql) {
					b.WriteByte(sql[j+1])
					j += 2
					continue
				}
				if sql[j] == ch {
					if j+1 < len(sql) && sql[j+1] == ch {
						b.WriteByte(ch)
						j += 2
						continue
					}
					break
				}
				b.WriteByte(sql[j])
				j++
			}
			out = append(out, ctok{"str", b.String()})
			sql = sql[j+1:]
		case ch == '"' || ch == '`':
			j := strings.IndexByte(sql[1:], ch)
			if j < 0 {
				return nil, errors.New("unterminated quoted identifier")
			}
			out = append(out, ctok{"qid", sql[1 : 1+j]})
			sql = sql[j+2:]
		case ch >= '0' && ch <= '9':
			j := 0
			for j < len(sql) && sql[j] >= '0' && sql[j] <= '9' {
				j++
			}
			out = append(out, ctok{"num", sql[:j]})
			sql = sql[j:]
		case ch == '_' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= 0x80:
			j := 0
			for j < len(sql) && (sql[j] == '_' || sql[j] == '$' || sql[j] >= '0' && sql[j] <= '9' || sql[j] >= 'a' && sql[j] <= 'z' || sql[j] >= 'A' && sql[j] <= 'Z' || sql[j] >= 0x80) {
				j++
			}
			out = append(out, ctok{"id", strings.ToLower(sql[:j])})
			sql = sql[j:]
		default:
			op := sql[:1]
			for _, o := range []string{"<>", "!=", "<=", ">=", "||", "::", "<=>"} {
				if strings.HasPrefix(sql, o) {
					op = o
				}
			}
			if !strings.Contains("(),.=<>+-*/%?$[];|:!", op[:1]) {
				return nil, errUnsupported
			}
			out = append(out, ctok{"op", op})
			sql = sql[len(op):]
		}
	}
	return out, nil
}

func (c *cat) peek() ctok {
	if c.pos < len(c.toks) {
		return c.toks[c.pos]
	}
	return ctok{"end", ""}
}

func (c *cat) at(words ...string) bool {
	for i, w := range words {
		if c.pos+i >= len(c.toks) {
			return false
		}
		t := c.toks[c.pos+i]
		if (t.k != "id" && t.k != "op") || t.v != w {
			return false
		}
	}
	return true
}

func (c *cat) take(words ...string) bool {
	if !c.at(words...) {
		return false
	}
	c.pos += len(words)
	return true
}

func (c *cat) need(w string) {
	if !c.take(w) {
		panic(fmt.Errorf("syntax error at or near %q, expected %q", c.peek().v, w))
	}
}

func unsup() { panic(errUnsupported) }

// ---- statements ------------------------------------------------------------

type cexpr func(e *cenv) cval

type citem struct {
	name string
	star string // "*" or the table of t.*
	f    cexpr
	agg  bool
}

type corder struct {
	f         cexpr
	desc      bool
	nullsLast bool
}

type cselect struct {
	from     func(outer *cenv) *crel
	where    cexpr
	items    []citem
	group    []cexpr
	having   cexpr
	order    []corder
	limit    cexpr
	distinct bool
	agg      bool
	union    *cselect
	all      bool
}

var cstop = map[string]bool{"from": true, "where": true, "group": true, "having": true, "order": true, "limit": true, "union": true, "inner": true, "left": true, "right": true, "cross": true, "join": true, "on": true, "using": true, "natural": true, "full": true, "and": true, "or": true, "not": true, "is": true, "in": true, "like": true, "between": true, "as": true, "with": true, "asc": true, "desc": true, "nulls": true, "then": true, "else": true, "when": true, "end": true, "filter": true, "fetch": true, "offset": true, "for": true, "window": true, "lateral": true, "except": true, "intersect": true, "straight_join": true, "force": true, "use": true, "collate": true, "regexp": true, "rlike": true, "ilike": true, "similar": true}

func (c *cat) parseSelect() *cselect {
	if c.take("with") {
		if c.at("recursive") {
			unsup()
		}
		for {
			n := c.ident()
			if c.at("(") {
				unsup()
			}
			c.need("as")
			c.take("materialized")
			c.need("(")
			s := c.parseSelect()
			c.need(")")
			c.ctes[n] = c.run(s, nil)
			if !c.take(",") {
				break
			}
		}
	}
	s := c.parseCore()
	last := s
	for c.take("union") {
		last.all = c.take("all")
		last.union = c.parseCore()
		last = last.union
	}
	if s.union != nil && len(last.order) > 0 {
		unsup()
	}
	return s
}

func (c *cat) parseCore() *cselect {
	if c.take("(") {
		s := c.parseSelect()
		c.need(")")
		return s
	}
	s := &cselect{}
	c.need("select")
	s.distinct = c.take("distinct")
	if s.distinct && c.at("on") {
		unsup()
	}
	c.take("all")
	for {
		s.items = append(s.items, c.item())
		if !c.take(",") {
			break
		}
	}
	s.from = func(*cenv) *crel { return &crel{rows: [][]cval{{}}} }
	if c.take("from") {
		s.from = c.parseFrom()
	}
	if c.take("where") {
		s.where = c.expr()
	}
	if c.take("group", "by") {
		s.agg = true
		for {
			s.group = append(s.group, c.orderKey(s))
			if !c.take(",") {
				break
			}
		}
	}
	if c.take("having") {
		s.agg = true
		s.having = c.expr()
	}
	for _, it := range s.items {
		s.agg = s.agg || it.agg
	}
	if c.take("order", "by") {
		for {
			o := corder{f: c.orderKey(s), nullsLast: !c.my}
			if c.take("desc") {
				o.desc, o.nullsLast = true, false
			} else {
				c.take("asc")
			}
			if c.take("nulls", "first") {
				o.nullsLast = o.desc
				if !o.desc {
					unsup()
				}
			} else if c.take("nulls", "last") && o.desc {
				unsup()
			}
			s.order = append(s.order, o)
			if !c.take(",") {
				break
			}
		}
	}
	if c.take("limit") {
		s.limit = c.expr()
		if c.at(",") || c.at("offset") {
			unsup()
		}
	}
	return s
}

// orderKey reads a key that may be an output's name or number.
func (c *cat) orderKey(s *cselect) cexpr {
	t := c.peek()
	from := c.pos
	f := c.expr()
	if c.pos == from+1 {
		if t.k == "num" {
			k, _ := strconv.Atoi(t.v)
			if k < 1 || k > len(s.items) || s.items[k-1].star != "" {
				unsup()
			}
			return s.items[k-1].f
		}
		if t.k == "id" || t.k == "qid" {
			for _, it := range s.items {
				if it.name != "" && (it.name == t.v || c.my && strings.EqualFold(it.name, t.v)) {
					return it.f
				}
			}
		}
	}
	return f
}

func (c *cat) ident() string {
	t := c.peek()
	if t.k != "id" && t.k != "qid" {
		panic(fmt.Errorf("syntax error at or near %q", t.v))
	}
	c.pos++
	return t.v
}

func (c *cat) item() citem {
	if c.take("*") {
		return citem{star: "*"}
	}
	if t := c.peek(); (t.k == "id" || t.k == "qid") && c.pos+2 < len(c.toks) && c.toks[c.pos+1].v == "." && c.toks[c.pos+2].k == "op" && c.toks[c.pos+2].v == "*" {
		c.pos += 3
		return citem{star: t.v}
	}
	from := c.pos
	n := c.aggs
	f := c.expr()
	it := citem{f: f, agg: c.aggs > n}
	last := c.toks[c.pos-1]
	if last.k == "id" || last.k == "qid" {
		it.name = last.v
	}
	if last.v == ")" && c.toks[from].k == "id" {
		it.name = c.toks[from].v
	}
	if c.take("as") {
		it.name = c.ident()
	} else if t := c.peek(); t.k == "qid" || t.k == "id" && !cstop[t.v] {
		it.name = c.ident()
	}
	return it
}

func (c *cat) parseFrom() func(*cenv) *crel {
	left := c.parseJoined()
	for c.take(",") {
		r := c.parseJoined()
		left = c.join(left, r, "inner", nil, nil)
	}
	return left
}

func (c *cat) parseJoined() func(*cenv) *crel {
	left := c.tref()
	for {
		kind := ""
		switch {
		case c.take("inner", "join"), c.take("join"), c.take("straight_join"):
			kind = "inner"
		case c.take("left", "outer", "join"), c.take("left", "join"):
			kind = "left"
		case c.take("right", "outer", "join"), c.take("right", "join"):
			kind = "right"
		case c.take("cross", "join"):
			kind = "inner"
		case c.at("natural"), c.at("full"):
			unsup()
		default:
			return left
		}
		right := c.tref()
		var on cexpr
		var using []string
		if c.take("on") {
			on = c.expr()
		} else if c.take("using") {
			c.need("(")
			for {
				using = append(using, c.ident())
				if !c.take(",") {
					break
				}
			}
			c.need(")")
		}
		if kind == "right" {
			if using != nil {
				unsup()
			}
			left = c.join(right, left, "left", on, nil)
		} else {
			left = c.join(left, right, kind, on, using)
		}
	}
}

func (c *cat) join(l, r func(*cenv) *crel, kind string, on cexpr, using []string) func(*cenv) *crel {
	return func(outer *cenv) *crel {
		lr := l(outer)
		out := &crel{}
		for i, row := range lr.rows {
			// the right side may refer to the left one (LATERAL and functions)
			rr := r(&cenv{rel: lr, row: row, outer: outer})
			if i == 0 {
				out.cols = append(append([]ccol{}, lr.cols...), rr.cols...)
			}
			hit := false
			for _, rrow := range rr.rows {
				both := append(append([]cval{}, row...), rrow...)
				e := &cenv{rel: out, row: both, outer: outer}
				ok := on == nil || on(e) == true
				for _, u := range using {
					a, b := c.lookup(&cenv{rel: lr, row: row}, "", u), c.lookup(&cenv{rel: rr, row: rrow}, "", u)
					ok = ok && c.cmp("=", a, b) == true
				}
				if ok {
					hit = true
					out.rows = append(out.rows, both)
				}
			}
			if !hit && kind == "left" {
				out.rows = append(out.rows, append(append([]cval{}, row...), make([]cval, len(rr.cols))...))
			}
		}
		if len(lr.rows) == 0 {
			rr := r(outer)
			out.cols = append(append([]ccol{}, lr.cols...), rr.cols...)
		}
		return out
	}
}

func (c *cat) tref() func(*cenv) *crel {
	c.take("lateral")
	if c.take("(") {
		if c.at("select") || c.at("with") {
			s := c.parseSelect()
			c.need(")")
			name, names := c.alias("")
			return func(o *cenv) *crel { return rename(c.run(s, o), name, names) }
		}
		f := c.parseFrom()
		c.need(")")
		return f
	}
	name := c.ident()
	full := name
	if c.take(".") {
		name = c.ident()
		full += "." + name
	}
	if c.at("(") {
		c.need("(")
		var args []cexpr
		for !c.take(")") {
			args = append(args, c.expr())
			c.take(",")
		}
		ord := c.take("with", "ordinality")
		al, names := c.alias(name)
		return func(o *cenv) *crel {
			var vs []cval
			for _, a := range args {
				vs = append(vs, a(o))
			}
			rel := &crel{cols: []ccol{{al, al}}}
			if ord {
				rel.cols = append(rel.cols, ccol{al, "ordinality"})
			}
			for i, v := range c.setFunc(name, vs) {
				row := []cval{v}
				if ord {
					row = append(row, int64(i+1))
				}
				rel.rows = append(rel.rows, row)
			}
			return rename(rel, al, names)
		}
	}
	al, names := c.alias(name)
	low := strings.ToLower(full)
	low = strings.TrimPrefix(low, "pg_catalog.")
	return func(*cenv) *crel {
		if r, ok := c.ctes[name]; ok {
			return rename(r, al, names)
		}
		r := c.rels[low]
		if r == nil {
			unsup()
		}
		return rename(c.plain(r), al, names)
	}
}

func (c *cat) alias(dflt string) (string, []string) {
	if c.take("as") {
		dflt = c.ident()
	} else if t := c.peek(); t.k == "qid" || t.k == "id" && !cstop[t.v] {
		dflt = c.ident()
	}
	var names []string
	if c.take("(") {
		for !c.take(")") {
			names = append(names, c.ident())
			c.take(",")
		}
	}
	return dflt, names
}

func rename(r *crel, tab string, names []string) *crel {
	out := &crel{rows: r.rows}
	for i, cc := range r.cols {
		n := cc.name
		if i < len(names) {
			n = names[i]
		}
		out.cols = append(out.cols, ccol{tab, n})
	}
	return out
}

func (c *cat) run(s *cselect, outer *cenv) *crel {
	rel := s.from(outer)
	var rows [][]cval
	for _, row := range rel.rows {
		if s.where == nil || s.where(&cenv{rel: rel, row: row, outer: outer}) == true {
			rows = append(rows, row)
		}
	}
	var envs []*cenv
	if s.agg {
		groups := map[string]*cenv{}
		for _, row := range rows {
			e := &cenv{rel: rel, row: row, outer: outer}
			k := ""
			for _, g := range s.group {
				k += fmt.Sprintf("%T%v\x00", g(e), g(e))
			}
			if groups[k] == nil {
				groups[k] = e
				envs = append(envs, e)
			}
			groups[k].group = append(groups[k].group, row)
		}
		if len(s.group) == 0 && len(envs) == 0 {
			envs = []*cenv{{rel: rel, row: make([]cval, len(rel.cols)), group: [][]cval{}, outer: outer}}
		}
		if s.having != nil {
			var keep []*cenv
			for _, e := range envs {
				if s.having(e) == true {
					keep = append(keep, e)
				}
			}
			envs = keep
		}
	} else {
		for _, row := range rows {
			envs = append(envs, &cenv{rel: rel, row: row, outer: outer})
		}
	}
	out := &crel{}
	for _, it := range s.items {
		if it.star == "" {
			out.cols = append(out.cols, ccol{"", it.name})
			continue
		}
		for _, cc := range rel.cols {
			if it.star == "*" || cc.tab == it.star {
				out.cols = append(out.cols, cc)
			}
		}
	}
	type keyed struct {
		row  []cval
		keys []cval
	}
	var ks []keyed
	seen := map[string]bool{}
	for _, e := range envs {
		var k keyed
		for _, it := range s.items {
			if it.star == "" {
				k.row = append(k.row, it.f(e))
				continue
			}
			for i, cc := range rel.cols {
				if it.star == "*" || cc.tab == it.star {
					k.row = append(k.row, e.row[i])
				}
			}
		}
		if s.distinct {
			d := fmt.Sprintf("%#v", k.row)
			if seen[d] {
				continue
			}
			seen[d] = true
		}
		for _, o := range s.order {
			k.keys = append(k.keys, o.f(e))
		}
		ks = append(ks, k)
	}
	sort.SliceStable(ks, func(i, j int) bool {
		for n, o := range s.order {
			a, b := ks[i].keys[n], ks[j].keys[n]
			if a == nil || b == nil {
				if a == nil && b == nil {
					continue
				}
				if c.my {
					return (a == nil) != o.desc
				}
				return (b == nil) != o.desc
			}
			if c.cmp("=", a, b) == true {
				continue
			}
			return (c.cmp("<", a, b) == true) != o.desc
		}
		return false
	})
	for _, k := range ks {
		out.rows = append(out.rows, k.row)
	}
	if s.limit != nil {
		n, ok := s.limit(&cenv{outer: outer, rel: &crel{}}).(int64)
		if ok && int(n) < len(out.rows) {
			out.rows = out.rows[:n]
		}
	}
	if s.union != nil {
		o := c.run(s.union, outer)
		out.rows = append(out.rows, o.rows...)
		if !s.all {
			seen := map[string]bool{}
			var rs [][]cval
			for _, r := range out.rows {
				if d := fmt.Sprintf("%#v", r); !seen[d] {
					seen[d] = true
					rs = append(rs, r)
				}
			}
			out.rows = rs
		}
	}
	return out
}

// ---- expressions -----------------------------------------------------------

func (c *cat) lookup(e *cenv, tab, name string) cval {
	for ; e != nil; e = e.outer {
		hit := -1
		for i, cc := range e.rel.cols {
			if strings.EqualFold(cc.name, name) && (tab == "" || strings.EqualFold(cc.tab, tab)) {
				if hit >= 0 {
					panic(fmt.Errorf("column reference %q is ambiguous", name))
				}
				hit = i
			}
		}
		if hit >= 0 {
			return e.row[hit]
		}
	}
	panic(fmt.Errorf("column %q does not exist", name))
}

func (c *cat) expr() cexpr {
	l := c.and()
	for c.take("or") {
		a, b := l, c.and()
		l = func(e *cenv) cval {
			x := a(e)
			if x == true {
				return true
			}
			y := b(e)
			if y == true {
				return true
			}
			if x == nil || y == nil {
				return nil
			}
			return false
		}
	}
	return l
}

func (c *cat) and() cexpr {
	l := c.not()
	for c.take("and") {
		a, b := l, c.not()
		l = func(e *cenv) cval {
			x := a(e)
			if x == false {
				return false
			}
			y := b(e)
			if y == false {
				return false
			}
			if x == nil || y == nil {
				return nil
			}
			return true
		}
	}
	return l
}

func negate(f cexpr) cexpr {
	return func(e *cenv) cval {
		switch v := f(e).(type) {
		case bool:
			return !v
		case nil:
			return nil
		}
		unsup()
		return nil
	}
}

func (c *cat) not() cexpr {
	if c.take("not") {
		return negate(c.not())
	}
	return c.compare()
}

func (c *cat) cmp(op string, a, b cval) cval {
	if a == nil || b == nil {
		return nil
	}
	r := 0
	switch x := a.(type) {
	case string:
		y, ok := b.(string)
		if !ok {
			unsup()
		}
		if c.my {
			x, y = strings.ToLower(x), strings.ToLower(y)
		}
		r = strings.Compare(x, y)
	case int64:
		y, ok := b.(int64)
		if s, isStr := b.(string); isStr {
			n, err := strconv.ParseInt(s, 10, 64)
			y, ok = n, err == nil
		}
		if !ok {
			unsup()
		}
		r = int(x - y)
	case bool:
		y, ok := b.(bool)
		if !ok {
			unsup()
		}
		if x != y {
			r = 1
			if !x {
				r = -1
			}
		}
	default:
		unsup()
	}
	switch op {
	case "=":
		return r == 0
	case "<>", "!=":
		return r != 0
	case "<":
		return r < 0
	case "<=":
		return r <= 0
	case ">":
		return r > 0
	case ">=":
		return r >= 0
	}
	unsup()
	return nil
}

func (c *cat) anyOf(op string, l cexpr, vals func(e *cenv) []cval, all bool) cexpr {
	return func(e *cenv) cval {
		v := l(e)
		unknown := false
		for _, x := range vals(e) {
			switch c.cmp(op, v, x) {
			case true:
				if !all {
					return true
				}
			case false:
				if all {
					return false
				}
			default:
				unknown = true
			}
		}
		if unknown {
			return nil
		}
		return all
	}
}

func (c *cat) compare() cexpr {
	l := c.sum()
	for {
		neg := false
		if c.at("not", "in") || c.at("not", "like") || c.at("not", "between") {
			c.pos++
			neg = true
		}
		var f cexpr
		switch {
		case c.take("in"):
			c.need("(")
			if c.at("select") || c.at("with") {
				s := c.parseSelect()
				f = c.anyOf("=", l, func(e *cenv) []cval { return firsts(c.run(s, e)) }, false)
			} else {
				var es []cexpr
				if c.at(")") {
					panic(errors.New(`syntax error at or near ")"`))
				}
				for {
					es = append(es, c.expr())
					if !c.take(",") {
						break
					}
				}
				f = c.anyOf("=", l, func(e *cenv) []cval {
					var vs []cval
					for _, x := range es {
						vs = append(vs, x(e))
					}
					return vs
				}, false)
			}
			c.need(")")
		case c.take("like"):
			r := c.sum()
			a := l
			f = func(e *cenv) cval {
				x, ok1 := a(e).(string)
				y, ok2 := r(e).(string)
				if !ok1 || !ok2 {
					return nil
				}
				p := "(?s)"
				if c.my {
					p = "(?is)"
				}
				p += "\\A"
				for i := 0; i < len(y); i++ {
					switch {
					case y[i] == '\\' && i+1 < len(y):
						i++
						p += regexp.QuoteMeta(y[i : i+1])
					case y[i] == '%':
						p += ".*"
					case y[i] == '_':
						p += "."
					default:
						p += regexp.QuoteMeta(y[i : i+1])
					}
				}
				return regexp.MustCompile(p + "\\z").MatchString(x)
			}
		case c.take("between"):
			lo := c.sum()
			c.need("and")
			hi := c.sum()
			a := l
			f = func(e *cenv) cval {
				x, y := c.cmp(">=", a(e), lo(e)), c.cmp("<=", a(e), hi(e))
				if x == nil || y == nil {
					return nil
				}
				return x == true && y == true
			}
		case c.take("is"):
			n := c.take("not")
			a := l
			switch {
			case c.take("null"):
				f = func(e *cenv) cval { return a(e) == nil }
			case c.take("true"):
				f = func(e *cenv) cval { return a(e) == true }
			case c.take("false"):
				f = func(e *cenv) cval { return a(e) == false }
			case c.take("distinct", "from"):
				r := c.sum()
				f = func(e *cenv) cval {
					x, y := a(e), r(e)
					if x == nil || y == nil {
						return (x == nil) != (y == nil)
					}
					return c.cmp("<>", x, y)
				}
			default:
				unsup()
			}
			if n {
				f = negate(f)
			}
		default:
			op := c.peek()
			if op.k != "op" || !map[string]bool{"=": true, "<>": true, "!=": true, "<": true, "<=": true, ">": true, ">=": true}[op.v] {
				return l
			}
			c.pos++
			if c.at("any") || c.at("all") || c.at("some") {
				all := c.at("all")
				c.pos++
				c.need("(")
				if c.at("select") {
					s := c.parseSelect()
					f = c.anyOf(op.v, l, func(e *cenv) []cval { return firsts(c.run(s, e)) }, all)
				} else {
					x := c.expr()
					f = c.anyOf(op.v, l, func(e *cenv) []cval {
						v, ok := x(e).([]cval)
						if !ok {
							unsup()
						}
						return v
					}, all)
				}
				c.need(")")
			} else {
				a, r := l, c.sum()
				f = func(e *cenv) cval { return c.cmp(op.v, a(e), r(e)) }
			}
		}
		if neg {
			f = negate(f)
		}
		l = f
	}
}

func firsts(r *crel) []cval {
	var vs []cval
	for _, row := range r.rows {
		vs = append(vs, row[0])
	}
	return vs
}

func (c *cat) sum() cexpr {
	l := c.unary()
	for {
		op := c.peek()
		if op.k != "op" || op.v != "+" && op.v != "-" && op.v != "||" {
			return l
		}
		c.pos++
		a, b := l, c.unary()
		l = func(e *cenv) cval {
			x, y := a(e), b(e)
			if x == nil || y == nil {
				return nil
			}
			if op.v == "||" {
				xs, ok1 := x.(string)
				ys, ok2 := y.(string)
				if !ok1 || !ok2 || c.my {
					unsup()
				}
				return xs + ys
			}
			xi, ok1 := x.(int64)
			yi, ok2 := y.(int64)
			if !ok1 || !ok2 {
				unsup()
			}
			if op.v == "-" {
				yi = -yi
			}
			return xi + yi
		}
	}
}

func (c *cat) unary() cexpr {
	if c.take("-") {
		f := c.unary()
		return func(e *cenv) cval {
			n, ok := f(e).(int64)
			if !ok {
				unsup()
			}
			return -n
		}
	}
	f := c.primary()
	for {
		switch {
		case c.take("::"):
			t := c.ident()
			for c.take("[") {
				c.need("]")
				t += "[]"
			}
			f = castTo(f, t)
		case c.take("["):
			i := c.expr()
			c.need("]")
			a := f
			f = func(e *cenv) cval {
				vs, ok := a(e).([]cval)
				n, ok2 := i(e).(int64)
				if !ok || !ok2 {
					return nil
				}
				// int2vector counts from 0, other arrays from 1; the only subscripted one is indkey
				if n < 0 || int(n) >= len(vs) {
					return nil
				}
				return vs[n]
			}
		default:
			return f
		}
	}
}

func castTo(f cexpr, t string) cexpr {
	switch t {
	case "text", "name", "varchar", "char", "text[]", "name[]", "varchar[]", "int2[]", "int4[]", "smallint[]", "int[]", "oid", "bool", "boolean":
		return f
	case "int", "integer", "bigint", "smallint", "int2", "int4", "int8":
		return func(e *cenv) cval {
			switch v := f(e).(type) {
			case string:
				n, err := strconv.ParseInt(v, 10, 64)
				if err != nil {
					panic(err)
				}
				return n
			default:
				return v
			}
		}
	}
	unsup()
	return nil
}

func (c *cat) bind(i int) cexpr {
	if i >= len(c.args) {
		panic(errors.New("there is no parameter"))
	}
	v := c.args[i]
	return func(*cenv) cval { return v }
}

func (c *cat) primary() cexpr {
	t := c.peek()
	c.pos++
	switch t.k {
	case "str":
		return func(*cenv) cval { return t.v }
	case "num":
		n, err := strconv.ParseInt(t.v, 10, 64)
		if err != nil {
			panic(err)
		}
		return func(*cenv) cval { return n }
	case "op":
		switch t.v {
		case "?":
			c.nArg++
			return c.bind(c.nArg - 1)
		case "$":
			n := c.peek()
			c.pos++
			k, _ := strconv.Atoi(n.v)
			return c.bind(k - 1)
		case "(":
			if c.at("select") || c.at("with") {
				s := c.parseSelect()
				c.need(")")
				return func(e *cenv) cval {
					r := c.run(s, e)
					if len(r.rows) == 0 {
						return nil
					}
					if len(r.rows) > 1 {
						panic(errors.New("more than one row returned by a subquery used as an expression"))
					}
					return r.rows[0][0]
				}
			}
			f := c.expr()
			c.need(")")
			return f
		}
		panic(fmt.Errorf("syntax error at or near %q", t.v))
	case "id", "qid":
		if t.k == "id" {
			switch t.v {
			case "null":
				return func(*cenv) cval { return nil }
			case "true":
				return func(*cenv) cval { return true }
			case "false":
				return func(*cenv) cval { return false }
			case "exists":
				c.need("(")
				s := c.parseSelect()
				c.need(")")
				return func(e *cenv) cval { return len(c.run(s, e).rows) > 0 }
			case "case":
				return c.parseCase()
			case "cast":
				c.need("(")
				f := c.expr()
				c.need("as")
				ty := c.ident()
				if c.take("(") {
					c.pos++
					c.need(")")
				}
				c.need(")")
				return castTo(f, ty)
			case "array":
				if c.take("(") {
					s := c.parseSelect()
					c.need(")")
					return func(e *cenv) cval { return append([]cval{}, firsts(c.run(s, e))...) }
				}
				c.need("[")
				var es []cexpr
				for !c.take("]") {
					es = append(es, c.expr())
					c.take(",")
				}
				return func(e *cenv) cval {
					out := []cval{}
					for _, x := range es {
						out = append(out, x(e))
					}
					return out
				}
			}
		}
		name := t.v
		if c.take(".") {
			n2 := c.ident()
			if c.at("(") && (name == "pg_catalog" || name == "public") {
				return c.call(n2)
			}
			if c.take(".") { // schema.table.column
				n3 := c.ident()
				return func(e *cenv) cval { return c.lookup(e, n2, n3) }
			}
			return func(e *cenv) cval { return c.lookup(e, name, n2) }
		}
		if c.at("(") && t.k == "id" {
			return c.call(name)
		}
		if t.k == "id" && (name == "current_schema" || name == "current_database") {
			return func(*cenv) cval { return c.s.Schema }
		}
		return func(e *cenv) cval { return c.lookup(e, "", name) }
	}
	panic(fmt.Errorf("syntax error at or near %q", t.v))
}

func (c *cat) parseCase() cexpr {
	var subject cexpr
	if !c.at("when") {
		subject = c.expr()
	}
	var ws, ts []cexpr
	for c.take("when") {
		ws = append(ws, c.expr())
		c.need("then")
		ts = append(ts, c.expr())
	}
	var el cexpr
	if c.take("else") {
		el = c.expr()
	}
	c.need("end")
	return func(e *cenv) cval {
		for i, w := range ws {
			v := w(e)
			if subject != nil {
				v = c.cmp("=", subject(e), v)
			}
			if v == true {
				return ts[i](e)
			}
		}
		if el == nil {
			return nil
		}
		return el(e)
	}
}

var caggs = map[string]bool{"array_agg": true, "bool_or": true, "bool_and": true, "every": true, "count": true, "max": true, "min": true, "string_agg": true, "group_concat": true}

func (c *cat) call(name string) cexpr {
	c.need("(")
	if caggs[name] {
		return c.aggregate(name)
	}
	var args []cexpr
	for !c.take(")") {
		args = append(args, c.expr())
		if !c.take(",") && !c.at(")") {
			unsup()
		}
	}
	return func(e *cenv) cval {
		if name == "coalesce" || name == "ifnull" {
			for _, a := range args {
				if v := a(e); v != nil {
					return v
				}
			}
			return nil
		}
		var vs []cval
		for _, a := range args {
			vs = append(vs, a(e))
		}
		switch {
		case name == "pg_get_indexdef" && len(vs) == 3:
			return c.s.indexDefOf(vs[0], vs[1])
		case (name == "lower" || name == "upper") && len(vs) == 1:
			s, ok := vs[0].(string)
			if !ok {
				return nil
			}
			if name == "lower" {
				return strings.ToLower(s)
			}
			return strings.ToUpper(s)
		case name == "if" && len(vs) == 3:
			if vs[0] == true {
				return vs[1]
			}
			return vs[2]
		case name == "concat":
			out := ""
			for _, v := range vs {
				if v == nil {
					if c.my {
						return nil
					}
					continue
				}
				out += fmt.Sprint(v)
			}
			return out
		case name == "array_length" || name == "cardinality":
			a, ok := vs[0].([]cval)
			if !ok || len(a) == 0 && name == "array_length" {
				return nil
			}
			return int64(len(a))
		case name == "array_position":
			a, ok := vs[0].([]cval)
			if !ok {
				unsup()
			}
			for i, x := range a {
				if c.cmp("=", x, vs[1]) == true {
					return int64(i) // of an int2vector
				}
			}
			return nil
		case (name == "current_schema" || name == "database" || name == "schema" || name == "current_database") && len(vs) == 0:
			return c.s.Schema
		case name == "pg_table_is_visible" && len(vs) == 1:
			unsup()
		}
		unsup()
		return nil
	}
}

func (c *cat) aggregate(name string) cexpr {
	c.aggs++
	var args []cexpr
	star := c.take("*")
	distinct := c.take("distinct")
	var order []corder
	sep := ","
	for !c.at(")") && !c.at("order") && !c.at("separator") {
		args = append(args, c.expr())
		if !c.take(",") && !c.at(")") && !c.at("order") && !c.at("separator") {
			unsup()
		}
	}
	if c.take("order", "by") {
		for {
			o := corder{f: c.expr()}
			if c.take("desc") {
				o.desc = true
			} else {
				c.take("asc")
			}
			order = append(order, o)
			if !c.take(",") {
				break
			}
		}
	}
	if c.take("separator") {
		sep = c.peek().v
		c.pos++
	}
	c.need(")")
	var filter cexpr
	if c.take("filter") {
		c.need("(")
		c.need("where")
		filter = c.expr()
		c.need(")")
	}
	return func(e *cenv) cval {
		if e.group == nil {
			unsup()
		}
		type kv struct {
			v    cval
			keys []cval
		}
		var vals []kv
		for _, row := range e.group {
			re := &cenv{rel: e.rel, row: row, outer: e.outer}
			if filter != nil && filter(re) != true {
				continue
			}
			if star {
				vals = append(vals, kv{v: int64(1)})
				continue
			}
			k := kv{v: args[0](re)}
			if name == "string_agg" {
				sep, _ = args[1](re).(string)
			}
			for _, o := range order {
				k.keys = append(k.keys, o.f(re))
			}
			vals = append(vals, k)
		}
		sort.SliceStable(vals, func(i, j int) bool {
			for n, o := range order {
				a, b := vals[i].keys[n], vals[j].keys[n]
				if a == nil || b == nil || c.cmp("=", a, b) == true {
					continue
				}
				return (c.cmp("<", a, b) == true) != o.desc
			}
			return false
		})
		if distinct {
			seen := map[string]bool{}
			var vs []kv
			for _, k := range vals {
				if d := fmt.Sprintf("%#v", k.v); !seen[d] {
					seen[d] = true
					vs = append(vs, k)
				}
			}
			vals = vs
		}
		if name == "array_agg" {
			if len(vals) == 0 {
				return nil
			}
			var out []cval
			for _, k := range vals {
				out = append(out, k.v)
			}
			return out
		}
		var acc cval
		n := int64(0)
		for _, k := range vals {
			if k.v == nil {
				continue
			}
			n++
			switch name {
			case "bool_or":
				acc = acc == true || k.v == true
			case "bool_and", "every":
				acc = (acc == nil || acc == true) && k.v == true
			case "max", "min":
				op := ">"
				if name == "min" {
					op = "<"
				}
				if acc == nil || c.cmp(op, k.v, acc) == true {
					acc = k.v
				}
			case "string_agg", "group_concat":
				if acc == nil {
					acc = fmt.Sprint(k.v)
				} else {
					acc = acc.(string) + sep + fmt.Sprint(k.v)
				}
			}
		}
		if name == "count" {
			return n
		}
		return acc
	}
}

func (c *cat) setFunc(name string, vs []cval) []cval {
	switch {
	case name == "generate_subscripts" && len(vs) >= 2:
		a, ok := vs[0].([]cval)
		if !ok {
			return nil
		}
		var out []cval
		for i := range a {
			out = append(out, int64(i)) // of an int2vector
		}
		return out
	case name == "unnest" && len(vs) == 1:
		a, _ := vs[0].([]cval)
		return a
	case name == "generate_series" && len(vs) == 2:
		a, ok1 := vs[0].(int64)
		b, ok2 := vs[1].(int64)
		if !ok1 || !ok2 {
			return nil
		}
		var out []cval
		for ; a <= b; a++ {
			out = append(out, a)
		}
		return out
	}
	unsup()
	return nil
}

// ---- the catalogues --------------------------------------------------------

func (s *Sim) catalogue() map[string]*crel {
	mk := func(cols ...string) *crel {
		r := &crel{}
		for _, n := range cols {
			r.cols = append(r.cols, ccol{"", n})
		}
		return r
	}
	if s.Flavor == "mysql" {
		cols := mk("table_catalog", "table_schema", "table_name", "column_name", "ordinal_position", "column_key", "extra", "is_nullable")
		st := mk("table_catalog", "table_schema", "table_name", "non_unique", "index_schema", "index_name", "seq_in_index", "column_name", "nullable", "index_type", "expression")
		for _, t := range s.Tables {
			for i, c := range t.Cols {
				key := ""
				if c.PK {
					key = "PRI"
				} else {
					for _, ix := range t.Indexes {
						if len(ix.Cols) > 0 && ix.Cols[0] == c.Name {
							key = "MUL"
							if ix.Unique && len(ix.Cols) == 1 {
								key = "UNI"
								break
							}
						}
					}
				}
				cols.rows = append(cols.rows, []cval{"def", t.Schema, t.Name, c.Name, int64(i + 1), key, "", "YES"})
			}
			for _, ix := range t.Indexes {
				nu := int64(1)
				if ix.Primary || ix.Unique {
					nu = 0
				}
				for i, c := range ix.Cols {
					var name, ex cval = c, nil
					if c == ExprKey {
						name, ex = nil, "lower(`note`)"
					}
					st.rows = append(st.rows, []cval{"def", t.Schema, t.Name, nu, t.Schema, ix.Name, int64(i + 1), name, "YES", "BTREE", ex})
				}
			}
		}
		return map[string]*crel{"information_schema.columns": cols, "information_schema.statistics": st}
	}
	ns := mk("oid", "nspname")
	class := mk("oid", "relname", "relnamespace", "relkind", "relnatts")
	attr := mk("attrelid", "attname", "attnum", "attisdropped", "attnotnull")
	idx := mk("indexrelid", "indrelid", "indnatts", "indnkeyatts", "indisunique", "indisprimary", "indisvalid", "indkey", "indexprs", "indpred")
	nsOid := map[string]int64{"pg_catalog": 11}
	ns.rows = append(ns.rows, []cval{int64(11), "pg_catalog"})
	s.ixDefs = map[int64][]string{}
	oid := int64(16384)
	for _, t := range s.Tables {
		if nsOid[t.Schema] == 0 {
			oid++
			nsOid[t.Schema] = oid
			ns.rows = append(ns.rows, []cval{oid, t.Schema})
		}
	}
	for _, t := range s.Tables {
		oid++
		rel := oid
		kind := "r"
		if t.View {
			kind = "v"
		}
		class.rows = append(class.rows, []cval{rel, t.Name, nsOid[t.Schema], kind, int64(len(t.Cols))})
		for k, n := range []string{"ctid", "xmin", "cmin", "xmax", "cmax", "tableoid"} {
			attr.rows = append(attr.rows, []cval{rel, n, int64(-1 - k), false, true})
		}
		num := map[string]int64{}
		at := int64(0)
		gone := func(i int) {
			for _, d := range t.Dropped {
				if d == i {
					at++
					attr.rows = append(attr.rows, []cval{rel, fmt.Sprintf("........pg.dropped.%d........", at), at, true, false})
				}
			}
		}
		for i, c := range t.Cols {
			gone(i)
			at++
			num[c.Name] = at
			attr.rows = append(attr.rows, []cval{rel, c.Name, at, false, c.PK})
		}
		gone(len(t.Cols))
		for _, ix := range t.Indexes {
			oid++
			class.rows = append(class.rows, []cval{oid, ix.Name, nsOid[t.Schema], "i", int64(len(ix.Cols))})
			var key []cval
			var exprs cval
			for i, c := range ix.Cols {
				if c == ExprKey {
					key, exprs = append(key, int64(0)), "({FUNCEXPR})"
				} else {
					key = append(key, num[c])
				}
				attr.rows = append(attr.rows, []cval{oid, c, int64(i + 1), false, false})
			}
			idx.rows = append(idx.rows, []cval{oid, rel, int64(len(ix.Cols)), int64(len(ix.Cols)), ix.Primary || ix.Unique, ix.Primary, true, key, exprs, nil})
			s.ixDefs[oid] = ix.Cols
		}
	}
	return map[string]*crel{"pg_namespace": ns, "pg_class": class, "pg_attribute": attr, "pg_index": idx}
}

func (s *Sim) indexDefOf(oid, k cval) cval {
	o, ok := oid.(int64)
	n, ok2 := k.(int64)
	if !ok || !ok2 {
		return nil
	}
	if n == 0 {
		unsup()
	}
	cs := s.ixDefs[o]
	if n < 0 || int(n) > len(cs) {
		return ""
	}
	return indexDef(cs[n-1])
}

// Interpret runs a catalogue request of the tool on the catalogue.
func (s *Sim) Interpret(e *Event) (rows *Rows, err error) {
	defer func() {
		if p := recover(); p != nil {
			if er, ok := p.(error); ok {
				rows, err = nil, er
				return
			}
			panic(p)
		}
	}()
	size := 0
	for _, t := range s.Tables {
		size += len(t.Cols) + len(t.Dropped) + 2*len(t.Indexes)
	}
	if size > 400 { // joining takes the square of it
		return nil, errUnsupported
	}
	c := &cat{my: s.Flavor == "mysql", rels: s.catalogue(), args: e.Args, ctes: map[string]*crel{}, s: s}
	shuffled := map[*crel]*crel{}
	c.plain = func(r *crel) *crel {
		if shuffled[r] == nil {
			n := &crel{cols: r.cols, rows: append([][]cval{}, r.rows...)}
			s.shuffle2(n.rows)
			shuffled[r] = n
		}
		return shuffled[r]
	}
	c.toks, err = clex(e.SQL, c.my)
	if err != nil {
		return nil, err
	}
	sel := c.parseSelect()
	c.take(";")
	if c.pos != len(c.toks) {
		unsup()
	}
	rel := c.run(sel, nil)
	rows = &Rows{}
	for _, cc := range rel.cols {
		n := cc.name
		if c.my && !strings.ContainsAny(n, "`") {
			n = myLabel(e.SQL, n)
		}
		rows.Cols = append(rows.Cols, n)
	}
	for _, r := range rel.rows {
		var row []any
		for _, v := range r {
			if a, ok := v.([]cval); ok {
				v = arrayText(a)
			}
			row = append(row, v)
		}
		rows.Data = append(rows.Data, row)
	}
	return rows, nil
}

// myLabel gives an output the letter case it has in the statement.
func myLabel(sql, name string) string {
	if m := regexp.MustCompile(`(?i)\b` + regexp.QuoteMeta(name) + `\b`).FindString(sql); m != "" {
		return m
	}
	return name
}

func arrayText(a []cval) string {
	var out []string
	for _, v := range a {
		if v == nil {
			out = append(out, "NULL")
			continue
		}
		c := fmt.Sprint(v)
		if rePlainPg.MatchString(c) && !strings.EqualFold(c, "null") {
			out = append(out, c)
		} else {
			out = append(out, `"`+strings.ReplaceAll(strings.ReplaceAll(c, `\`, `\\`), `"`, `\"`)+`"`)
		}
	}
	return "{" + strings.Join(out, ",") + "}"
}
