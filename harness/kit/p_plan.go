package verifkit

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
)

// P08 MySQL plans, P09 PostgreSQL/Hasura plans: whatever tree the database
// prints comes back in the report with the same shape, text and numbers.

func init() {
	register("P08", "suggest", p08)
	register("P09", "suggest", p09)
}

// planNode is a node of the generated plan.
type planNode struct {
	head     string   // text after the arrow, without measurements
	info     []string // pg: lines below
	planName string   // pg: SubPlan 1, InitPlan 2 (returns $1), CTE x
	title    string   // "" = not judged
	table    string
	tables   []string // acceptable table names; nil = [table]
	est      []string // initCost, cost, rows, width ("" = absent)
	act      []string // first, avg, rows, loops ("" = absent)
	never    bool
	kids     []*planNode
	text     string // expected text of the report
}

// zeros makes some of the figures nothing, as plans over empty tables have them.
func zeros(r *rand.Rand, fig []string, dec int) {
	if !chance(r, 0.15) {
		return
	}
	all := chance(r, 0.4)
	for i := range fig[:3] {
		if fig[i] == "" || !(all || chance(r, 0.4)) {
			continue
		}
		if strings.Contains(fig[i], ".") {
			fig[i] = "0." + strings.Repeat("0", dec)
		} else {
			fig[i] = "0"
		}
	}
	if all && chance(r, 0.2) && fig[3] != "" {
		fig[3] = "0"
	}
}

func num(r *rand.Rand, dec int) string {
	var n int64
	switch r.Intn(4) {
	case 0:
		n = r.Int63n(10)
	case 1:
		n = r.Int63n(1000)
	case 2:
		n = r.Int63n(10000000)
	default:
		n = r.Int63n(1000000000000)
	}
	if dec == 0 {
		return strconv.FormatInt(n, 10)
	}
	m := int64(1)
	for i := 0; i < dec; i++ {
		m *= 10
	}
	return fmt.Sprintf("%d.%0*d", n, dec, r.Int63n(m))
}

var hostileLits = []string{"abc", "sale on items", "a: b", "x (cost=9.99 rows=9) (actual time=1.0..2.0 rows=3 loops=4)", "-> Table scan on zzz",
	"it''s on us", " Filter: (evil.x", "left join right", "Planning Time: 1 ms", "é—漢字", "</script><script>alert(1)</script>", "a.b", "100%", "\\\\", "Sort Key: evil.c",
	" Key: evil.x", "(cost=1.0..2.0 rows=9 width=9)", "<!--", "it\\' on zzz", "\\'(cost=8.5 rows=8)", "a\\\\\\' on zzz (actual time=7.0..8.0 rows=9 loops=9)", "x\\\\"}

// MySQL prints backslashes and quotes of a literal with a backslash, PostgreSQL doubles quotes.
var pgLits = strings.NewReplacer(`\\`, `\`, `\'`, `''`)

var planTables = []string{"users", "tasks", "t1", "order_items", "a", "Mixed", "logs_2024", "_tmp", "x__y"}

func genMyNode(r *rand.Rand, depth int) *planNode {
	n := &planNode{}
	t := pickS(r, planTables)
	if chance(r, 0.05) {
		t = "2024_logs"
	}
	lit := "'" + pickS(r, hostileLits) + "'"
	switch r.Intn(18) {
	case 16:
		n.head, n.title, n.table = fmt.Sprintf("Covering index lookup on %s using k (name=%s)", t, lit), "Covering index lookup", t
	case 17:
		n.head, n.title, n.table = fmt.Sprintf("Covering index scan on %s using k (reverse)", t), "Covering index scan", t
	case 0:
		n.head, n.title, n.table = "Table scan on "+t, "Table scan", t
	case 1:
		n.head, n.title, n.table = fmt.Sprintf("Index lookup on %s using idx_%s (user_id=users.id)", t, t), "Index lookup", t
	case 2:
		n.head, n.title, n.table = fmt.Sprintf("Single-row index lookup on %s using PRIMARY (id=tasks.user_id)", t), "Single-row index lookup", t
	case 3:
		n.head, n.title, n.table = fmt.Sprintf("Index range scan on %s using i1 over (%s <= name <= %s)", t, lit, lit), "Index range scan", t
	case 4:
		n.head, n.title, n.table = fmt.Sprintf("Filter: (%s.name = %s)", t, lit), "Filter", t
	case 5:
		n.head, n.title, n.tables = fmt.Sprintf("Filter: ((%s.name = %s) and (%s.id > 3))", t, lit, t), "Filter", []string{"", t}
	case 6:
		n.head, n.title, n.table = "Nested loop inner join", "Nested loop inner join", ""
	case 7:
		n.head, n.title, n.table = "Nested loop left join", "Nested loop left join", ""
	case 8:
		n.head, n.title, n.table = fmt.Sprintf("Sort: %s.created_at DESC, %s.id", t, t), "Sort", t
	case 9:
		n.head, n.title, n.table = fmt.Sprintf("Aggregate: %s(%s.id)", pick(r, "count", "max", "sum", "min", "avg", "group_concat", "std", "bit_or", "json_arrayagg"), t), "Aggregate", t
	case 10:
		n.head, n.title, n.table = "Limit: 10 row(s)", "Limit", ""
	case 11:
		n.head, n.title, n.table = "Table scan on <temporary>", "Table scan", ""
	case 12:
		n.head, n.title, n.table = "Inner hash join (tasks.user_id = users.id)", "Inner hash join", ""
	case 13:
		n.head, n.table = pick(r, "Materialize", "Hash", "Stream results", "Temporary table with deduplication", "Group aggregate: count(0)"), ""
	case 14:
		n.head, n.table = "Select #2 (subquery in condition; dependent)", ""
	case 15:
		n.head, n.title, n.table = fmt.Sprintf("Index scan on %s using name_idx", t), "Index scan", t
	}
	if n.tables == nil {
		n.tables = []string{n.table}
	}
	n.est = make([]string, 4)
	n.act = make([]string, 4)
	if !strings.HasPrefix(n.head, "Select #") {
		switch r.Intn(6) {
		case 0:
			n.est[0], n.est[1], n.est[2] = num(r, 2), num(r, 2), num(r, 0)
		case 1:
			n.est[1] = num(r, 2)
		case 2:
		default:
			n.est[1], n.est[2] = num(r, 2), num(r, 0)
		}
		zeros(r, n.est, 2)
		switch r.Intn(6) {
		case 0:
			n.never = true
		default:
			n.act[0], n.act[1], n.act[2], n.act[3] = num(r, 3), num(r, 3), num(r, 0), num(r, 0)
			zeros(r, n.act, 3)
		}
	}
	return n
}

// genTree shapes a tree of up to max nodes.
func genTree(r *rand.Rand, max int, mk func(depth int) *planNode) *planNode {
	root := mk(0)
	nodes := []*planNode{root}
	depth := map[*planNode]int{root: 0}
	deepest, chain := 12, 0.5
	if chance(r, 0.06) { // queries within queries within queries
		deepest, chain, max = 10+r.Intn(60), 0.93, max+80
	}
	for k := r.Intn(max); k > 0; k-- {
		p := nodes[r.Intn(len(nodes))]
		if chance(r, chain) {
			p = nodes[len(nodes)-1]
		}
		if depth[p] > deepest || len(p.kids) > 5 {
			continue
		}
		n := mk(depth[p] + 1)
		depth[n] = depth[p] + 1
		p.kids = append(p.kids, n)
		nodes = append(nodes, n)
	}
	return root
}

func renderMy(n *planNode, depth int, out *[]string) {
	s := strings.Repeat("    ", depth) + "-> " + n.head
	if n.est[1] != "" {
		s += "  (cost="
		if n.est[0] != "" {
			s += n.est[0] + ".."
		}
		s += n.est[1]
		if n.est[2] != "" {
			s += " rows=" + n.est[2]
		}
		s += ")"
	} else if n.never || n.act[0] != "" {
		s += " "
	}
	if n.never {
		s += " (never executed)"
	} else if n.act[0] != "" {
		s += fmt.Sprintf(" (actual time=%s..%s rows=%s loops=%s)", n.act[0], n.act[1], n.act[2], n.act[3])
	}
	n.text = s
	*out = append(*out, s)
	for _, k := range n.kids {
		renderMy(k, depth+1, out)
	}
}

func (c *C) judgePlan(path string, n *planNode, v any, pg bool) bool {
	m, ok := v.(map[string]any)
	if !ok {
		c.Fail("plan-shape", "%s: the report has no node for %q", path, n.text)
		return false
	}
	c.Eval(1)
	c.Count("plan_nodes", 1)
	str := func(k string) string { s, _ := m[k].(string); return s }
	if str("text") != n.text {
		c.Fail("plan-text", "%s: text is %q, the database printed %q", path, str("text"), n.text)
		return false
	}
	if n.title != "" && str("title") != n.title {
		c.Fail("plan-title", "%s: title is %q, expected %q for %q", path, str("title"), n.title, n.text)
		return false
	}
	okT := false
	for _, t := range n.tables {
		okT = okT || str("tableName") == t
	}
	if !okT {
		c.Fail("plan-table", "%s: table is %q, expected %q for %q", path, str("tableName"), n.tables, n.text)
		return false
	}
	chk := func(k, want string) bool {
		got, has := m[k].(json.Number)
		if want == "" {
			if has {
				c.Fail("plan-number", "%s: %s is %s but the database printed none: %q", path, k, got, n.text)
				return false
			}
			return true
		}
		if !has {
			c.Fail("plan-number", "%s: %s is missing, the database printed %s: %q", path, k, want, n.text)
			return false
		}
		a, _ := strconv.ParseFloat(string(got), 64)
		b, _ := strconv.ParseFloat(want, 64)
		if a != b {
			c.Fail("plan-number", "%s: %s is %s, the database printed %s: %q", path, k, got, want, n.text)
			return false
		}
		return true
	}
	if !(chk("estimatedInitCost", n.est[0]) && chk("estimatedCost", n.est[1]) && chk("estimatedReturnedRows", n.est[2]) &&
		chk("actualTimeFirstRow", n.act[0]) && chk("actualTimeAvg", n.act[1]) && chk("actualReturnedRows", n.act[2]) && chk("actualLoopCount", n.act[3])) {
		return false
	}
	if pg && !chk("estimatedWidth", n.est[3]) {
		return false
	}
	kids, _ := m["children"].([]any)
	if len(kids) != len(n.kids) {
		c.Fail("plan-shape", "%s: %d children in the report, the plan has %d", path, len(kids), len(n.kids))
		return false
	}
	for i := range kids {
		if !c.judgePlan(fmt.Sprintf("%s.%d", path, i), n.kids[i], kids[i], pg) {
			return false
		}
	}
	return true
}

func shape(n *planNode) string {
	s := "("
	for _, k := range n.kids {
		s += shape(k)
	}
	return s + ")"
}

func p08(c *C) {
	r := c.R
	e := c.newExCase("mysql", 2, false)
	max := 12
	if chance(r, 0.1) {
		max = 60
	}
	roots := []*planNode{genTree(r, max, func(d int) *planNode { return genMyNode(r, d) })}
	for chance(r, 0.1) && len(roots) < 3 {
		roots = append(roots, genTree(r, 5, func(d int) *planNode { return genMyNode(r, d) }))
	}
	var lines []string
	for _, n := range roots {
		renderMy(n, 0, &lines)
	}
	e.sim.Plan = lines
	if chance(r, 0.5) { // the server ends the text with a line break
		e.sim.Plan = append(append([]string(nil), lines...), "")
	}
	c.planCase(e, roots, lines, "", false)
}

func (c *C) planCase(e *exCase, roots []*planNode, lines []string, summary string, pg bool) {
	e.o.Examine = false
	c.Ctx("plan:\n%s", strings.Join(e.sim.Plan, "\n"))
	err, pan := c.Suggest(e.flavor, e.o, e.sim, e.hs)
	if pan != "" {
		c.Fail("panic", "the command crashed: %s", pan)
		return
	}
	if err != nil {
		c.Fail("unexpected-error", "the plan was not understood: %v", err)
		return
	}
	rep, perr := ParseReport(e.o.Output)
	if perr != nil {
		c.Fail("report", "%v", perr)
		return
	}
	sec := rep.Section(e.flavor)
	nodes, _ := sec["analyzeNodes"].([]any)
	if len(nodes) != len(roots) {
		c.Fail("plan-shape", "%d top level nodes in the report, the plan has %d", len(nodes), len(roots))
		return
	}
	for i := range roots {
		if !c.judgePlan(strconv.Itoa(i), roots[i], nodes[i], pg) {
			return
		}
	}
	if pg {
		s, _ := sec["summaryText"].(string)
		c.Eval(1)
		if e.flavor == "hasura" && sec["summaryText"] == nil && summary == "" {
		} else if s != summary {
			c.Fail("plan-summary", "summary is %q, the database printed %q", s, summary)
			return
		}
	}
	c.Count("plans", 1)
	sh := ""
	for _, n := range roots {
		sh += shape(n)
	}
	c.Seen("%s|%s|%d", e.flavor, sh, len(lines))
	c.Sample(map[string]any{"flavor": e.flavor, "lines": lines[:minInt(len(lines), 5)], "shape": sh})
}

func genPgNode(r *rand.Rand, depth int) *planNode {
	n := &planNode{}
	t := pickS(r, planTables)
	qt := t
	if !plainIdent(t) {
		qt = `"` + t + `"`
	}
	lit := "'" + pgLits.Replace(pickS(r, hostileLits)) + "'::text"
	add := func(f string, a ...any) { n.info = append(n.info, fmt.Sprintf(f, a...)) }
	switch r.Intn(19) {
	case 14:
		n.head, n.title, n.table = "Memoize", "Memoize", "users"
		add("Cache Key: users.id")
		add("Cache Mode: logical")
		add("Hits: 0  Misses: %s  Evictions: 0  Overflows: 0  Memory Usage: 1kB", num(r, 0))
	case 15:
		n.head, n.title, n.table = pick(r, "Finalize GroupAggregate", "Partial HashAggregate", "Incremental Sort"), "", "tasks"
		n.title = n.head
		if n.head == "Incremental Sort" {
			add("Sort Key: tasks.user_id, tasks.id")
			add("Presorted Key: tasks.user_id")
			add("Full-sort Groups: 1  Sort Method: quicksort  Average Memory: 27kB  Peak Memory: 27kB")
		} else {
			add("Group Key: tasks.user_id, users.name")
		}
	case 16:
		idx := pick(r, `"My-idx"`, `"idx.2024"`, "users_lower_idx")
		k := pick(r, "Index Scan using ", "Index Scan Backward using ", "Index Only Scan Backward using ")
		n.head, n.title, n.table = k+idx+" on "+qt, k+idx, t
		add("Index Cond: (lower(name) = %s)", lit)
	case 17:
		k := pick(r, "CTE Scan", "WorkTable Scan", "Foreign Scan", "Function Scan", "Tid Scan", "Sample Scan", "Parallel Index Scan using k", "Subquery Scan")
		n.head, n.title, n.table = k+" on "+qt, k, t
		if chance(r, 0.4) {
			add("Filter: (name <> %s)", lit)
		}
	case 18:
		n.head = pick(r, "Append", "Merge Append", "Materialize", "Unique", "LockRows", "ProjectSet", "WindowAgg", "SetOp Except", "Hash Right Anti Join", "Parallel Hash Left Join", "Merge Full Join", "BitmapOr", "Recursive Union")
		n.title = n.head
		if strings.HasPrefix(n.head, "Merge Full") {
			add("Merge Cond: (users.id = tasks.user_id)")
		}
	case 0, 1:
		n.head, n.title, n.table = pick(r, "Seq Scan", "Parallel Seq Scan")+" on "+qt, "", t
		n.title = strings.TrimSuffix(n.head, " on "+qt)
		if chance(r, 0.5) {
			n.head += " x1"
		}
		if chance(r, 0.7) {
			add("Filter: (name = %s)", lit)
			add("Rows Removed by Filter: %s", num(r, 0))
		}
	case 2:
		n.head, n.title, n.table = fmt.Sprintf("Index Scan using idx_1 on %s u", qt), "Index Scan using idx_1", t
		add("Index Cond: (email = %s)", lit)
	case 3:
		n.head, n.title, n.table = fmt.Sprintf("Index Only Scan using idx_1 on %s", qt), "Index Only Scan using idx_1", t
		add("Index Cond: (id = 1)")
		add("Heap Fetches: 0")
	case 4:
		n.head, n.title = "Hash Join", "Hash Join"
		add("Hash Cond: (tasks.user_id = users.id)")
		if chance(r, 0.5) {
			add("Join Filter: ((users.name)::text = %s)", lit)
		}
	case 5:
		n.head, n.title = pick(r, "Nested Loop", "Nested Loop Left Join"), ""
		n.title = n.head
	case 6:
		n.head, n.title, n.table = "Sort", "Sort", t
		if !plainIdent(t) {
			t = "users"
			n.table = t
		}
		add("Sort Key: %s.created_at DESC", t)
		add("Sort Method: quicksort  Memory: 25kB")
	case 7:
		n.head, n.title = "Aggregate", "Aggregate"
	case 8:
		n.head, n.title, n.table = "HashAggregate", "HashAggregate", "users"
		add("Group Key: users.name")
		add("Batches: 1  Memory Usage: 24kB")
	case 9:
		n.head, n.title = "Limit", "Limit"
	case 10:
		n.head, n.title = "Hash", "Hash"
		add("Buckets: 1024  Batches: 1  Memory Usage: 9kB")
	case 11:
		n.head, n.title = pick(r, "Gather", "Gather Merge"), ""
		n.title = n.head
		add("Workers Planned: 2")
		add("Workers Launched: 2")
	case 12:
		n.head, n.title, n.table = "Bitmap Heap Scan on "+qt, "Bitmap Heap Scan", t
		add("Recheck Cond: (name = %s)", lit)
		add("Heap Blocks: exact=3")
	case 13:
		n.head, n.title = "Result", "Result"
		if chance(r, 0.5) {
			add("One-Time Filter: (%s IS NOT NULL)", lit)
		}
	}
	if chance(r, 0.5) {
		add("Buffers: shared hit=%s read=3", num(r, 0))
	}
	if depth > 0 && chance(r, 0.12) {
		n.planName = pick(r, "SubPlan 1", "InitPlan 1 (returns $0)", "CTE recent", "SubPlan 2")
	}
	n.tables = []string{n.table}
	n.est = []string{num(r, 2), num(r, 2), num(r, 0), num(r, 0)}
	zeros(r, n.est, 2)
	n.act = make([]string, 4)
	if chance(r, 0.1) {
		n.never = true
	} else {
		n.act = []string{num(r, 3), num(r, 3), num(r, 0), num(r, 0)}
		zeros(r, n.act, 3)
	}
	return n
}

func renderPg(n *planNode, indent int, root, analyze bool, out *[]string) {
	sp := func(k int) string { return strings.Repeat(" ", 2*k) }
	var mine []string
	if n.planName != "" {
		mine = append(mine, sp(indent)+n.planName)
		indent++
	}
	pre := sp(indent)
	if !root {
		pre += "->  "
		indent += 2
	}
	s := pre + n.head + fmt.Sprintf("  (cost=%s..%s rows=%s width=%s)", n.est[0], n.est[1], n.est[2], n.est[3])
	if !analyze {
		n.act = make([]string, 4)
		n.never = false
		var keep []string
		for _, l := range n.info { // only planning information
			if strings.Contains(l, "Filter: ") || strings.Contains(l, "Cond: ") || strings.Contains(l, " Key: ") || strings.HasPrefix(l, "Workers Planned") {
				if !strings.HasPrefix(l, "Rows Removed") {
					keep = append(keep, l)
				}
			}
		}
		n.info = keep
	}
	if n.never {
		s += " (never executed)"
	} else if n.act[0] != "" {
		s += fmt.Sprintf(" (actual time=%s..%s rows=%s loops=%s)", n.act[0], n.act[1], n.act[2], n.act[3])
	}
	mine = append(mine, s)
	indent++
	for _, l := range n.info {
		mine = append(mine, sp(indent)+l)
	}
	n.text = strings.Join(mine, "\n")
	*out = append(*out, mine...)
	for _, k := range n.kids {
		renderPg(k, indent, false, analyze, out)
	}
}

func p09(c *C) {
	r := c.R
	e := c.newExCase(pick(r, "postgres", "hasura"), 2, false)
	max := 12
	if chance(r, 0.1) {
		max = 60
	}
	root := genTree(r, max, func(d int) *planNode { return genPgNode(r, d) })
	analyze := e.flavor == "postgres"
	var lines []string
	renderPg(root, 0, true, analyze, &lines)
	var sum []string
	if chance(r, 0.2) {
		sum = append(sum, pick(r, "Settings: work_mem = '1MB', search_path = 'a: b'", "Query Identifier: -6523231512"))
		if !analyze && chance(r, 0.5) {
			sum = append(sum, "JIT:", "  Functions: 30", "  Options: Inlining false, Optimization false, Expressions true, Deforming true")
		}
	}
	if analyze || chance(r, 0.2) {
		if chance(r, 0.4) {
			sum = append(sum, "Planning:", "  Buffers: shared hit=3")
		}
		sum = append(sum, "Planning Time: "+num(r, 3)+" ms")
		if chance(r, 0.05) {
			sum = append(sum, "Trigger for constraint t_fk on users: time=0.101 calls=1")
		}
		if chance(r, 0.2) {
			sum = append(sum, "JIT:", "  Functions: 3", "  Options: Inlining false, Optimization false")
		}
		sum = append(sum, "Execution Time: 1.234 ms")
	}
	e.sim.Plan = append(append([]string(nil), lines...), sum...)
	c.planCase(e, []*planNode{root}, lines, strings.Join(sum, "\n"), true)
}
