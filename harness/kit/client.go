package verifkit

import (
	"bufio"
	"encoding/json"
	"fmt"
	"html"
	"io"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"unicode/utf16"
)

// The pages of the report, opened in a small stand-in for a browser: the front
// end of the current tree, bundled by harness/client, run by node.

// PNode is a part of an open page.
type PNode struct {
	T     string            `json:"t"`
	A     map[string]string `json:"a"`
	C     []PKid            `json:"c"`
	N     *int              `json:"n"`
	Chart *int              `json:"chart"`
	Inner string            `json:"inner"`
	H     string            `json:"h"`
}

// PKid is a text or a part.
type PKid struct {
	Text string
	Node *PNode
}

func (k *PKid) UnmarshalJSON(b []byte) error {
	if len(b) > 0 && b[0] == '"' {
		return json.Unmarshal(b, &k.Text)
	}
	k.Node = &PNode{}
	return json.Unmarshal(b, k.Node)
}

type pSeries struct {
	Name     *string `json:"name"`
	Database *string `json:"database"`
	Data     [][]any `json:"data"`
}

type pChart struct {
	Type   string     `json:"type"`
	Series []pSeries  `json:"series"`
	Labels [][]string `json:"labels"`
	Title  *string    `json:"title"`
}

// PView is what an open page shows.
type PView struct {
	Tree     *PNode   `json:"tree"`
	Charts   []pChart `json:"charts"`
	Diagrams []string `json:"diagrams"`
	Clip     []string `json:"clip"`
	Text     string   `json:"text"`
	Error    string   `json:"error"`
}

type browser struct {
	in  io.WriteCloser
	out *bufio.Reader
	cmd *exec.Cmd
}

var theBrowser *browser

func (c *C) browse(req map[string]any) *PView {
	if theBrowser == nil {
		cmd := exec.Command("node", os.Getenv("VERIF_PAGE"), os.Getenv("VERIF_CLIENT"))
		in, err := cmd.StdinPipe()
		if err != nil {
			panic(err)
		}
		out, err := cmd.StdoutPipe()
		if err != nil {
			panic(err)
		}
		cmd.Stderr = os.Stderr
		cmd.Env = append(os.Environ(), "TZ=UTC", "LC_ALL=en_US.UTF-8")
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		theBrowser = &browser{in, bufio.NewReaderSize(out, 1<<20), cmd}
	}
	b, err := json.Marshal(req)
	if err != nil {
		panic(err)
	}
	if _, err := theBrowser.in.Write(append(b, '\n')); err != nil {
		panic("the page runner is gone: " + err.Error())
	}
	line, err := theBrowser.out.ReadBytes('\n')
	if err != nil {
		panic("the page runner is gone: " + err.Error())
	}
	v := &PView{}
	if err := json.Unmarshal(line, v); err != nil {
		panic(fmt.Sprintf("the page runner answered %.200q: %v", line, err))
	}
	return v
}

// Open opens the page of a report; nil after a failure.
func (c *C) Open(kind string, rep *Report) *PView {
	v := c.browse(map[string]any{"do": "open", "kind": kind, "param": rep.Raw})
	c.Count("pages_opened", 1)
	c.Eval(1)
	if v.Error != "" {
		c.Fail("page", "the page cannot be shown: %s", v.Error)
		return nil
	}
	return v
}

// Do does something on the open page; nil after a failure.
func (c *C) Do(what string, req map[string]any) *PView {
	req["do"] = what
	v := c.browse(req)
	c.Count("page_actions", 1)
	if v.Error != "" {
		c.Fail("page", "%s on the page fails: %s", what, v.Error)
		return nil
	}
	return v
}

// Walk visits the parts in document order; f says whether to go deeper.
func (n *PNode) Walk(f func(*PNode) bool) {
	if n == nil || !f(n) {
		return
	}
	for _, k := range n.C {
		if k.Node != nil {
			k.Node.Walk(f)
		}
	}
}

// All lists the parts with the tag.
func (n *PNode) All(tags ...string) []*PNode {
	var out []*PNode
	n.Walk(func(x *PNode) bool {
		for _, t := range tags {
			if x.T == t {
				out = append(out, x)
			}
		}
		return true
	})
	return out
}

// TestID returns the part with the data-testid.
func (n *PNode) TestID(id string) *PNode {
	var out *PNode
	n.Walk(func(x *PNode) bool {
		if x.A["data-testid"] == id && out == nil {
			out = x
		}
		return true
	})
	return out
}

var inlineTags = map[string]bool{"span": true, "b": true, "i": true, "strong": true, "em": true, "a": true, "code": true, "button": true, "label": true}

// Text is what the part shows; block parts end lines.
func (n *PNode) Text() string {
	var b strings.Builder
	var walk func(x *PNode)
	walk = func(x *PNode) {
		if x.T == "br" {
			b.WriteString("\n")
			return
		}
		if x.T == "#html" {
			b.WriteString(htmlText(x.H))
			return
		}
		block := !inlineTags[x.T] && !strings.HasPrefix(x.T, "#")
		if block {
			b.WriteString("\n")
		}
		for _, k := range x.C {
			if k.Node != nil {
				walk(k.Node)
			} else {
				b.WriteString(k.Text)
			}
		}
		if block {
			b.WriteString("\n")
		}
	}
	if n == nil {
		return ""
	}
	walk(n)
	return b.String()
}

// Own is the text of a card without its heading: the parts in the summary are
// left out by their slot attribute.
func (n *PNode) Own() string {
	cp := *n
	cp.C = nil
	for _, k := range n.C {
		if k.Node != nil && (k.Node.A["slot"] == "summary" || k.Node.T == "summary") {
			continue
		}
		cp.C = append(cp.C, k)
	}
	return cp.Text()
}

func jsSpace(r rune) bool {
	switch r {
	case ' ', '\t', '\n', '\v', '\f', '\r', 0x85, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000, 0xfeff:
		return true
	}
	return r >= 0x2000 && r <= 0x200a
}

func jsTrim(s string) string { return strings.TrimFunc(s, jsSpace) }

// squeeze makes every run of blanks one space.
func squeeze(s string) string { return strings.Join(strings.FieldsFunc(s, jsSpace), " ") }

// follow checks that the text is the pieces one after the other with nothing
// but blanks between; indentation inside and before the pieces counts.
func follow(text string, pieces []string) string {
	rest := text
	for i, p := range pieces {
		core := jsTrim(p)
		if core == "" {
			continue
		}
		lead := p[:strings.Index(p, core)]
		at := len(rest) - len(strings.TrimLeftFunc(rest, jsSpace))
		if !strings.HasPrefix(rest[at:], core) {
			return fmt.Sprintf("piece %d is %.120q, shown is %.120q", i, core, rest[at:])
		}
		if strings.Trim(lead, " \t") == "" && !strings.HasSuffix(rest[:at], lead) {
			return fmt.Sprintf("piece %d %.120q has lost its indentation", i, p)
		}
		rest = rest[at+len(core):]
	}
	if jsTrim(rest) != "" {
		return fmt.Sprintf("there is more: %.200q", jsTrim(rest))
	}
	return ""
}

var tagRE = regexp.MustCompile(`(?s)<!--.*?-->|</?[A-Za-z][^>]*>`)

// htmlText is what a browser shows of a piece of HTML.
func htmlText(s string) string {
	return html.UnescapeString(tagRE.ReplaceAllStringFunc(s, func(t string) string {
		l := strings.ToLower(t)
		if strings.HasPrefix(l, "<span") || strings.HasPrefix(l, "</span") {
			return ""
		}
		return "\n"
	}))
}

// knownTags are the only elements the tool's own HTML uses: any other comes from data.
var strangeTag = regexp.MustCompile(`(?i)<\s*/?\s*(script|img|svg|iframe|b|i|u|a|style|h1|x|object|input|body|html|title|textarea)\b`)

// prefix16 is the beginning of s of at most n UTF-16 units.
func prefix16(s string, n int) string {
	u := 0
	for i, r := range s {
		u += utf16.RuneLen(r)
		if u > n {
			return s[:i]
		}
	}
	return s
}
