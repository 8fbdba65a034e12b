package verifkit

import (
	"encoding/json"
	"fmt"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// P27 the trace page shows exactly the report's traces.

func init() {
	register("P27", "jaeger", p27)
}

func p27(c *C) {
	r := c.R
	n := r.Intn(9)
	if chance(r, 0.1) {
		n = 0
	}
	j := c.newJCase(n, pick(r, 3, 8, 20, 40))
	j.o.UIURL = pick(r, "http://localhost:16686", "http://localhost:16686/", "https://ops.example.com/jaeger", "https://ops.example.com/jaeger/ui/", "localhost:16686", "", "https://j/?a=</script>", "http://[::1]:16686/j", "not a url")
	for _, t := range j.sim.Traces {
		for k := r.Intn(3); k > 0; k-- { // one call after the other to the same place
			up := pickS(r, t.spans)
			at := up.start + rnd(r, up.end-up.start+1)
			svc, db := pickS(r, jServices), pickS(r, jDbs)
			for q := 1 + r.Intn(9); q > 0; q-- {
				id := make([]byte, 8)
				r.Read(id)
				s := &jSpan{id: id, parentID: up.id, name: "q", svc: svc, start: at + uint64(9-q), end: at + uint64(9-q) + 1, up: up}
				if chance(r, 0.9) {
					s.db = &db
				}
				up.kids = append(up.kids, s)
				t.spans = append(t.spans, s)
			}
		}
	}
	j.describe(c)
	if !j.run(c) {
		return
	}
	rep, perr := ParseReport(j.o.Output)
	if perr != nil {
		c.Fail("report", "%v", perr)
		return
	}
	c.Ctx("report: %.6000s", rep.Raw)
	v := c.Open("mermaid", rep)
	if v == nil {
		return
	}
	for _, l := range []struct {
		id    string
		shown []*jShown
	}{{"slowTraces", j.slow}, {"sameServiceTraces", j.same}} {
		if v = c.judgeTraces(j, v, l.id, l.shown); v == nil {
			return
		}
	}
}

func spanMillis(m map[string]any) int64 {
	a, _ := m["startTimeMillis"].(json.Number)
	b, _ := m["endTimeMillis"].(json.Number)
	x, _ := a.Int64()
	y, _ := b.Int64()
	return y - x
}

func (c *C) judgeTraces(j *jCase, v *PView, id string, shown []*jShown) *PView {
	r := c.R
	card := v.Tree.TestID(id)
	if card == nil {
		c.Fail("list", "the page has no list %s", id)
		return nil
	}
	text := squeeze(card.Own())
	c.Eval(2)
	if !strings.Contains(text, group3(strconv.Itoa(j.o.DurationMilli))+" ms") || id == "sameServiceTraces" && !strings.Contains(text, strconv.Itoa(j.o.Threshold)+" times") {
		c.Fail("settings", "%s does not say what it lists: %.200q", id, text)
		return nil
	}
	rows := dataRows(card)
	if len(shown) == 0 {
		if len(rows) != 1 || !strings.Contains(rows[0].Text(), "No trace found") {
			c.Fail("list", "%s is empty, shown is %.200q", id, text)
			return nil
		}
		c.Count("empty_lists", 1)
		return v
	}
	if len(rows) != len(shown) {
		c.Fail("list", "%s shows %d traces, the report holds %d", id, len(rows), len(shown))
		return nil
	}
	want := append([]*jShown(nil), shown...)
	sort.SliceStable(want, func(i, k int) bool { return spanMillis(want[i].root) > spanMillis(want[k].root) })
	used := make([]bool, len(want))
	at := make([][]*jShown, len(rows)) // which traces a row can stand for
	for i, tr := range rows {
		c.Eval(3)
		row := cells(tr)
		if len(row) < 4 {
			c.Fail("list", "row %d of %s is %s", i, id, js(row))
			return nil
		}
		if d := group3(fmt.Sprint(spanMillis(want[i].root))) + "ms"; row[1] != d {
			c.Fail("order", "row %d of %s shows %s, the trace of that place took %s", i, id, row[1], d)
			return nil
		}
		same := func(w *jShown) bool {
			return row[0] == w.traceID && row[1] == group3(fmt.Sprint(spanMillis(w.root)))+"ms" &&
				row[2] == group3(fmt.Sprint(w.count))+" times" && row[3] == squeeze(w.consuming)
		}
		found := false
		for k, w := range want {
			if same(w) {
				at[i] = append(at[i], w)
				if !used[k] && !found {
					used[k], found = true, true
				}
			}
		}
		if !found {
			c.Fail("list", "row %d of %s is %s, no trace of the report is like that", i, id, js(row))
			return nil
		}
		var href *string
		for _, a := range tr.All("a") {
			h := a.A["href"]
			href = &h
		}
		if why := traceLink(j.o.UIURL, row[0], href); why != "" {
			c.Fail("link", "row %d of %s: %s", i, id, why)
			return nil
		}
		c.Count("rows", 1)
	}
	for k := 0; k < 3; k++ {
		i := r.Intn(len(rows))
		var n *int
		for _, b := range dataRows(v.Tree.TestID(id))[i].All("button") {
			if strings.Contains(b.Text(), "diagram") {
				n = b.N
			}
		}
		if n == nil {
			c.Fail("diagram", "row %d has no diagram", i)
			return nil
		}
		before := len(v.Diagrams)
		w := c.Do("press", map[string]any{"n": *n})
		if w == nil {
			return nil
		}
		modals := w.Tree.TestID(id).All("modal")
		if len(modals) != 1 || len(w.Diagrams) != before+1 {
			c.Fail("diagram", "asking for the diagram of row %d shows %d, draws %d", i, len(modals), len(w.Diagrams)-before)
			return nil
		}
		if !strings.Contains(modals[0].Text(), at[i][0].traceID) {
			c.Fail("diagram", "the diagram of row %d is headed %.100q, the trace is %s", i, squeeze(modals[0].Text()), at[i][0].traceID)
			return nil
		}
		inner := ""
		modals[0].Walk(func(n *PNode) bool { inner += n.Inner; return true })
		if !strings.Contains(inner, fmt.Sprintf("data-diagram='%d'", before)) {
			c.Fail("diagram", "the drawn diagram is not shown: %q", inner)
			return nil
		}
		d := w.Diagrams[before]
		why := ""
		for _, cand := range at[i] {
			if why = judgeDiagram(d, cand.root); why == "" {
				c.Seen("%s", diagShape(cand.root))
				break
			}
		}
		c.Eval(1 + strings.Count(d, "\n"))
		if why != "" {
			c.Ctx("diagram:\n%s", d)
			c.Fail("diagram", "the diagram of row %d does not show the calls: %s", i, why)
			return nil
		}
		c.Count("diagrams", 1)
		c.Count("arrows", strings.Count(d, "->>"))
		if strings.Contains(d, "More ") {
			c.Count("shortened", 1)
		}
		if modals[0].N == nil {
			c.Fail("diagram", "the diagram cannot be closed")
			return nil
		}
		if v = c.Do("press", map[string]any{"n": *modals[0].N}); v == nil {
			return nil
		}
	}
	return v
}

func diagShape(m map[string]any) string {
	s := "("
	kids, _ := m["children"].([]any)
	for _, k := range kids {
		s += diagShape(k.(map[string]any))
	}
	return s + ")"
}

// traceLink: the link of a trace lies under the address of the user interface.
func traceLink(ui, id string, href *string) string {
	if href == nil {
		return "it has no link"
	}
	u, err := url.Parse(ui)
	if err != nil || u.Scheme != "http" && u.Scheme != "https" || u.Host == "" || u.RawQuery != "" || u.Fragment != "" {
		return "" // nothing can lie under it
	}
	want := strings.TrimRight(ui, "/") + "/trace/" + id
	if *href != want {
		return fmt.Sprintf("it leads to %q, expected %q", *href, want)
	}
	return ""
}

var moreRE = regexp.MustCompile(`^More (\d+) times`)

// judgeDiagram follows the text of a sequence diagram along the calls of a trace.
func judgeDiagram(d string, root map[string]any) string {
	lines := strings.FieldsFunc(d, func(r rune) bool { return r == '\n' || r == '\r' })
	var ls []string
	for _, l := range lines {
		if t := strings.TrimLeft(l, " \t"); strings.TrimSpace(t) != "" {
			ls = append(ls, t)
		}
	}
	if len(ls) == 0 || strings.TrimSpace(ls[0]) != "sequenceDiagram" {
		return "it is no sequence diagram"
	}
	ls = ls[1:]
	pos := 0
	name := func(m map[string]any) string { s, _ := m["serviceName"].(string); return s }
	// arrow takes the next line as an arrow and returns its text
	arrow := func(from, to string) (string, bool) {
		if pos >= len(ls) {
			return "", false
		}
		lead := from + "->>" + to + ":"
		if !strings.HasPrefix(ls[pos], lead) {
			return "", false
		}
		t := strings.TrimSpace(ls[pos][len(lead):])
		pos++
		return t, true
	}
	line := func(s string) bool {
		if pos < len(ls) && strings.TrimSpace(ls[pos]) == strings.TrimSpace(s) {
			pos++
			return true
		}
		return false
	}
	here := func() string {
		if pos < len(ls) {
			return fmt.Sprintf("line %d is %q", pos, ls[pos])
		}
		return "it ends"
	}
	kidsOf := func(m map[string]any) []map[string]any {
		l, _ := m["children"].([]any)
		var out []map[string]any
		for _, k := range l {
			out = append(out, k.(map[string]any))
		}
		return out
	}
	var follow func(m map[string]any) string
	follow = func(m map[string]any) string {
		kids := kidsOf(m)
		for i := 0; i < len(kids); {
			k := kids[i]
			if len(kidsOf(k)) > 0 {
				if t, ok := arrow(name(m), name(k)); !ok || t != strings.TrimSpace(name(k)) {
					return fmt.Sprintf("%s, expected the call of %q by %q", here(), name(k), name(m))
				}
				if !line("activate " + name(k)) {
					return fmt.Sprintf("%s, expected %q to start", here(), name(k))
				}
				if why := follow(k); why != "" {
					return why
				}
				if _, ok := arrow(name(k), name(m)); !ok {
					return fmt.Sprintf("%s, expected %q to return to %q", here(), name(k), name(m))
				}
				if !line("deactivate " + name(k)) {
					return fmt.Sprintf("%s, expected %q to end", here(), name(k))
				}
				i++
				continue
			}
			run := 1
			for i+run < len(kids) && len(kidsOf(kids[i+run])) == 0 && name(kids[i+run]) == name(k) {
				run++
			}
			counted := 0
			for counted < run {
				t, ok := arrow(name(m), name(k))
				if !ok {
					return fmt.Sprintf("%s, expected %d calls of %q by %q, saw %d", here(), run, name(k), name(m), counted)
				}
				if mm := moreRE.FindStringSubmatch(t); mm != nil && t != strings.TrimSpace(name(k)) {
					n, _ := strconv.Atoi(mm[1])
					counted += n
					for f := 1; f < n && pos < len(ls); f++ { // hints without a text
						p := pos
						if t, ok := arrow(name(m), name(k)); !ok || t != "" {
							pos = p
							break
						}
					}
					break
				}
				if t != strings.TrimSpace(name(k)) {
					return fmt.Sprintf("line %d is named %q, it calls %q", pos-1, t, name(k))
				}
				counted++
			}
			if counted != run {
				return fmt.Sprintf("%d calls of %q by %q are shown, there were %d", counted, name(k), name(m), run)
			}
			i += run
		}
		return ""
	}
	if len(kidsOf(root)) == 0 {
		if _, ok := arrow(name(root), name(root)); !ok {
			return here() + ", expected only " + name(root)
		}
	} else if why := follow(root); why != "" {
		return why
	}
	if pos != len(ls) {
		return here() + ", there are no more calls"
	}
	return ""
}
