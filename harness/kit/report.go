package verifkit

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"strings"
)

// Report is the data block of a produced HTML file.
type Report struct {
	HTML string
	Raw  string // JSON text as it stands in the file
	Data map[string]any
}

// ParseReport reads the file the way a browser would: it walks the HTML raw
// text rules for <script> (a script ends at the first "</script", whatever the
// JSON thinks) and decodes the object assigned to window.grParam.
func ParseReport(path string) (*Report, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	return ParseReportBytes(b)
}

// ParseReportBytes is ParseReport on memory.
func ParseReportBytes(b []byte) (*Report, error) {
	s := string(b)
	blocks, err := scripts(s)
	if err != nil {
		return nil, err
	}
	if len(blocks) != 2 {
		return nil, fmt.Errorf("the page has %d script elements, expected 2", len(blocks))
	}
	const lead = "window.grParam ="
	k := strings.Index(blocks[0], lead)
	if k < 0 {
		return nil, fmt.Errorf("no grParam assignment in the first script")
	}
	if strings.TrimSpace(blocks[0][:k]) != "" {
		return nil, fmt.Errorf("unexpected text before grParam: %.80q", blocks[0][:k])
	}
	rest := blocks[0][k+len(lead):]
	dec := json.NewDecoder(strings.NewReader(rest))
	dec.UseNumber()
	var m map[string]any
	if err := dec.Decode(&m); err != nil {
		return nil, fmt.Errorf("the data block is not readable: %w", err)
	}
	tail := rest[dec.InputOffset():]
	if t := strings.Trim(tail, " \t\r\n;"); t != "" {
		return nil, fmt.Errorf("unexpected text after the data block: %.80q", t)
	}
	raw := rest[:dec.InputOffset()]
	if strings.Contains(raw, "<!--") || strings.ContainsAny(raw, "\u2028\u2029") {
		return nil, fmt.Errorf("the data block holds text a browser does not read as data")
	}
	return &Report{HTML: s, Raw: raw, Data: m}, nil
}

// scripts returns the content of the script elements.
func scripts(s string) ([]string, error) {
	var out []string
	low := strings.ToLower(s)
	pos := 0
	for {
		i := strings.Index(low[pos:], "<script")
		if i < 0 {
			return out, nil
		}
		i += pos
		j := strings.Index(low[i:], ">")
		if j < 0 {
			return nil, fmt.Errorf("unterminated script tag")
		}
		st := i + j + 1
		e := strings.Index(low[st:], "</script")
		if e < 0 {
			return nil, fmt.Errorf("script element is not closed")
		}
		out = append(out, s[st:st+e])
		pos = st + e + len("</script")
	}
}

// At walks the data by keys.
func (r *Report) At(keys ...string) any {
	var v any = r.Data
	for _, k := range keys {
		m, ok := v.(map[string]any)
		if !ok {
			return nil
		}
		v = m[k]
	}
	return v
}

// Section returns the suggest section of the flavour.
func (r *Report) Section(flavor string) map[string]any {
	switch flavor {
	case "mysql":
		m, _ := r.At("suggestData", "mysql").(map[string]any)
		return m
	case "postgres":
		m, _ := r.At("suggestData", "postgres").(map[string]any)
		return m
	default:
		m, _ := r.At("suggestData", "hasura", "postgres").(map[string]any)
		return m
	}
}

// Target is an index target of the report: table(col,col).
type Target struct {
	Table string
	Cols  []string
}

func (t Target) String() string { return t.Table + "(" + strings.Join(t.Cols, ",") + ")" }

func toTarget(v any) (Target, error) {
	m, ok := v.(map[string]any)
	if !ok {
		return Target{}, fmt.Errorf("not an index target: %v", v)
	}
	t := Target{}
	if t.Table, ok = m["tableName"].(string); !ok {
		return t, fmt.Errorf("target has no table name: %s", js(v))
	}
	cols, ok := m["columns"].([]any)
	if !ok {
		return t, fmt.Errorf("target has no columns: %s", js(v))
	}
	for _, c := range cols {
		cm, _ := c.(map[string]any)
		n, ok := cm["name"].(string)
		if !ok {
			return t, fmt.Errorf("bad column: %s", js(c))
		}
		t.Cols = append(t.Cols, n)
	}
	return t, nil
}

// Targets reads the suggested indexes of a section.
func Targets(sec map[string]any) ([]Target, error) {
	v := sec["indexTargets"]
	if v == nil {
		return nil, nil
	}
	l, ok := v.([]any)
	if !ok {
		return nil, fmt.Errorf("indexTargets is not a list")
	}
	var out []Target
	for _, e := range l {
		t, err := toTarget(e)
		if err != nil {
			return nil, err
		}
		out = append(out, t)
	}
	return out, nil
}

// ExamResult is one examined index of the report.
type ExamResult struct {
	Target Target
	Millis int64
}

// Exam reads the examination result; nil when there is none.
func Exam(sec map[string]any) (orig int64, res []ExamResult, present bool, err error) {
	v := sec["examinationResult"]
	if v == nil {
		return 0, nil, false, nil
	}
	m, ok := v.(map[string]any)
	if !ok {
		return 0, nil, false, fmt.Errorf("examinationResult is not an object")
	}
	n, ok := m["originalTimeMillis"].(json.Number)
	if !ok {
		return 0, nil, true, fmt.Errorf("no originalTimeMillis")
	}
	if orig, err = n.Int64(); err != nil {
		return 0, nil, true, err
	}
	if m["indexResults"] == nil {
		return orig, nil, true, nil
	}
	l, ok := m["indexResults"].([]any)
	if !ok {
		return orig, nil, true, fmt.Errorf("indexResults is not a list")
	}
	for _, e := range l {
		em, _ := e.(map[string]any)
		t, err := toTarget(em["indexTarget"])
		if err != nil {
			return orig, nil, true, err
		}
		n, ok := em["executionTimeMillis"].(json.Number)
		if !ok {
			return orig, nil, true, fmt.Errorf("no executionTimeMillis")
		}
		ms, err := n.Int64()
		if err != nil {
			return orig, nil, true, err
		}
		res = append(res, ExamResult{t, ms})
	}
	return orig, res, true, nil
}

var _ = bytes.NewReader
