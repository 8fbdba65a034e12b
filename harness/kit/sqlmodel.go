package verifkit

import (
	"fmt"
	"sort"
	"strings"
)

// The reference model of index candidates.
//
// For every base table the statement uses some columns as conditions (WHERE,
// JOIN ON) and some in other places (select list, grouping, ordering, ...). A
// column used both ways counts as condition. The worthwhile indexes are every
// ordering of every non-empty set of condition columns and, if there are other
// columns, the covering ones: an ordering of all condition columns followed by
// the other columns in name order. Those whose columns all belong to the
// primary key, and those the table already has, are left out.

// Uses maps table -> column -> is condition.
type Uses map[string]map[string]bool

func (u Uses) add(table, col string, cond bool) {
	if u[table] == nil {
		u[table] = map[string]bool{}
	}
	u[table][col] = u[table][col] || cond
}

func (u Uses) merge(o Uses) {
	for t, cs := range o {
		for c, k := range cs {
			u.add(t, c, k)
		}
	}
}

func permsOfSubsets(cols []string) [][]string {
	var out [][]string
	var rec func(cur []string, used map[int]bool)
	rec = func(cur []string, used map[int]bool) {
		if len(cur) > 0 {
			out = append(out, append([]string(nil), cur...))
		}
		for i, c := range cols {
			if used[i] {
				continue
			}
			used[i] = true
			rec(append(cur, c), used)
			delete(used, i)
		}
	}
	rec(nil, map[int]bool{})
	return out
}

// Candidates computes the expected suggestions, in the documented order.
func Candidates(u Uses, tables []*Table, schema string, flavor string, withExisting bool) []Target {
	var out []Target
	fold := func(s string) string {
		if flavor == "mysql" {
			return strings.ToLower(s)
		}
		return s
	}
	for tn, cs := range u {
		var tab *Table
		for _, t := range tables {
			if t.Schema == schema && fold(t.Name) == fold(tn) {
				tab = t
			}
		}
		if tab == nil {
			panic("model: unknown table " + tn)
		}
		pk := map[string]bool{}
		for _, c := range tab.Cols {
			if c.PK {
				pk[fold(c.Name)] = true
			}
		}
		var cond, ref []string
		for c, k := range cs {
			if k {
				cond = append(cond, fold(c))
			} else {
				ref = append(ref, fold(c))
			}
		}
		sort.Strings(cond)
		sort.Strings(ref)
		cands := permsOfSubsets(cond)
		if len(ref) > 0 {
			if len(cond) == 0 {
				cands = append(cands, ref)
			} else {
				for _, p := range permsOfSubsets(cond) {
					if len(p) == len(cond) {
						cands = append(cands, append(append([]string(nil), p...), ref...))
					}
				}
			}
		}
	next:
		for _, cd := range cands {
			all := true
			for _, c := range cd {
				if !pk[c] {
					all = false
				}
			}
			if all {
				continue
			}
			if withExisting {
				for _, ix := range tab.Indexes {
					if ix.Temp || len(ix.Cols) != len(cd) {
						continue
					}
					same := true
					for i := range cd {
						if fold(ix.Cols[i]) != cd[i] {
							same = false
						}
					}
					if same {
						continue next
					}
				}
			}
			out = append(out, Target{Table: fold(tn), Cols: cd})
		}
	}
	SortTargets(out)
	return out
}

// SortTargets puts targets in the documented order: table, length, columns.
func SortTargets(ts []Target) {
	sort.SliceStable(ts, func(i, j int) bool { return lessTarget(ts[i], ts[j]) })
}

func lessTarget(a, b Target) bool {
	if a.Table != b.Table {
		return a.Table < b.Table
	}
	if len(a.Cols) != len(b.Cols) {
		return len(a.Cols) < len(b.Cols)
	}
	for k := range a.Cols {
		if a.Cols[k] != b.Cols[k] {
			return a.Cols[k] < b.Cols[k]
		}
	}
	return false
}

// DiffTargets explains how two sets differ ("" when equal as sets and free of duplicates).
func DiffTargets(got, want []Target) string {
	g, w := map[string]int{}, map[string]int{}
	for _, t := range got {
		g[t.String()]++
	}
	for _, t := range want {
		w[t.String()]++
	}
	var miss, extra, dup []string
	for k := range w {
		if g[k] == 0 {
			miss = append(miss, k)
		}
	}
	for k, n := range g {
		if w[k] == 0 {
			extra = append(extra, k)
		}
		if n > 1 {
			dup = append(dup, k)
		}
	}
	sort.Strings(miss)
	sort.Strings(extra)
	sort.Strings(dup)
	var p []string
	lim := func(n string, l []string) {
		if len(l) > 0 {
			k := len(l)
			if k > 6 {
				l = l[:6]
			}
			p = append(p, fmt.Sprintf("%s %d: %s", n, k, strings.Join(l, " ")))
		}
	}
	lim("missing", miss)
	lim("unexpected", extra)
	lim("duplicated", dup)
	return strings.Join(p, "; ")
}
