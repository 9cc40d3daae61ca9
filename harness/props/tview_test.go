package props

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"gopkg.in/yaml.v3"
)

// tview is a tree of any engine in a common form.
type tview struct {
	kind   string // seq, map (keys and values alternate), scalar, null, alias, bad
	text   string
	quoted bool
	anchor string
	kids   []*tview
}

func viewYay(n ast.Node) *tview {
	if !ast.ValidNode(n) {
		return &tview{kind: "null"}
	}
	switch x := n.(type) {
	case *ast.SequenceNode:
		v := &tview{kind: "seq"}
		for _, e := range x.Entries() {
			if e.Type() == ast.MappingEntryType {
				e = ast.NewMappingNode([]ast.Node{e})
			}
			v.kids = append(v.kids, viewYay(e))
		}
		return v
	case *ast.MappingNode:
		v := &tview{kind: "map"}
		for _, e := range x.Entries() {
			m, ok := e.(*ast.MappingEntryNode)
			if !ok {
				return &tview{kind: "bad", text: fmt.Sprintf("%T in a mapping", e)}
			}
			v.kids = append(v.kids, viewYay(m.Key()), viewYay(m.Value()))
		}
		return v
	case *ast.ContentNode:
		v := viewYay(x.Content())
		if p, ok := x.Properties().(*ast.PropertiesNode); ok && ast.ValidNode(p.Anchor()) {
			v.anchor = p.Anchor().(ast.Texter).Text()
		}
		return v
	case *ast.TextNode:
		q := x.QuotingType() != ast.AbsentQuotingType && x.QuotingType() != ast.UnknownQuotingType
		if !q && oNull(x.Text()) {
			return &tview{kind: "null"}
		}
		return &tview{kind: "scalar", text: x.Text(), quoted: q}
	case *ast.AliasNode:
		return &tview{kind: "alias", text: x.Text()}
	case *ast.NullNode:
		return &tview{kind: "null"}
	default:
		return &tview{kind: "bad", text: fmt.Sprintf("%T", n)}
	}
}

func viewGo(n *yaml.Node) *tview {
	if n == nil || n.Kind == 0 {
		return &tview{kind: "null"}
	}
	v := &tview{anchor: n.Anchor}
	switch n.Kind {
	case yaml.DocumentNode:
		if len(n.Content) == 0 {
			return &tview{kind: "null"}
		}
		return viewGo(n.Content[0])
	case yaml.SequenceNode:
		v.kind = "seq"
	case yaml.MappingNode:
		v.kind = "map"
	case yaml.AliasNode:
		v.kind, v.text = "alias", n.Value
	default:
		v.quoted = n.Style&(yaml.SingleQuotedStyle|yaml.DoubleQuotedStyle|yaml.LiteralStyle|yaml.FoldedStyle) != 0
		v.kind, v.text = "scalar", n.Value
		if !v.quoted && oNull(n.Value) {
			v.kind, v.text = "null", ""
		}
	}
	for _, e := range n.Content {
		v.kids = append(v.kids, viewGo(e))
	}
	return v
}

func (v *tview) String() string {
	var sb strings.Builder
	v.to(&sb)
	return sb.String()
}

func (v *tview) to(sb *strings.Builder) {
	if v.anchor != "" {
		sb.WriteString("&" + v.anchor + " ")
	}
	switch v.kind {
	case "scalar":
		sb.WriteString(textMeaning(v.text, v.quoted))
	case "alias":
		sb.WriteString("*" + v.text)
	case "bad":
		sb.WriteString("<" + v.text + ">")
	default:
		sb.WriteString(v.kind)
		if v.kind == "null" {
			return
		}
		sb.WriteString("(")
		for i, k := range v.kids {
			if i > 0 {
				sb.WriteString(", ")
			}
			k.to(sb)
		}
		sb.WriteString(")")
	}
}

// resolved is the view with the anchored nodes instead of the aliases, and without anchors.
func (v *tview) resolved(anchors map[string]*tview) *tview {
	if v.kind == "alias" {
		if a, ok := anchors[v.text]; ok {
			return a
		}
		return &tview{kind: "bad", text: "unknown alias " + v.text}
	}
	c := &tview{kind: v.kind, text: v.text, quoted: v.quoted}
	for _, k := range v.kids {
		c.kids = append(c.kids, k.resolved(anchors))
	}
	if v.anchor != "" {
		anchors[v.anchor] = c
	}
	return c
}

// bnode is what a history of insertions should build.
type bnode struct {
	kind string // seq, map, or "value"
	v    any    // nil, bool, int64, uint64, float64, string, time.Time, or *tview for raw insertions
	kids []*bnode
}

func (b *bnode) String() string {
	if b.kind == "value" {
		if t, ok := b.v.(*tview); ok {
			return "raw " + t.String()
		}
		return fmt.Sprintf("%T(%#v)", b.v, b.v)
	}
	var parts []string
	for _, k := range b.kids {
		parts = append(parts, k.String())
	}
	return b.kind + "(" + strings.Join(parts, ", ") + ")"
}

// matches compares a tree with the expectation; "" means equal.
func (b *bnode) matches(v *tview, path string) string {
	if b.kind != "value" {
		if v.kind != b.kind || len(v.kids) != len(b.kids) {
			return fmt.Sprintf("%s: want %s of %d nodes, got %s", path, b.kind, len(b.kids), v)
		}
		for i := range b.kids {
			if s := b.kids[i].matches(v.kids[i], fmt.Sprintf("%s/%d", path, i)); s != "" {
				return s
			}
		}
		return ""
	}
	bad := func() string { return fmt.Sprintf("%s: want %s, got %s", path, b, v) }
	if t, ok := b.v.(*tview); ok {
		if t.String() != v.String() {
			return bad()
		}
		return ""
	}
	if b.v == nil {
		if v.kind != "null" {
			return bad()
		}
		return ""
	}
	if v.kind != "scalar" {
		return bad()
	}
	ok := false
	switch x := b.v.(type) {
	case string:
		ok = v.text == x && (v.quoted || !otherThanString(x))
	case bool:
		g, is := oBool(v.text)
		ok = is && g == x && !v.quoted
	case int64:
		g, is := oInt(v.text)
		ok = is && g.IsInt64() && g.Int64() == x && !v.quoted
	case uint64:
		g, is := oInt(v.text)
		ok = is && g.IsUint64() && g.Uint64() == x && !v.quoted
	case float64:
		ok = !v.quoted && floatText(v.text, x)
	case time.Time:
		g, err := time.Parse(time.RFC3339Nano, v.text)
		ok = err == nil && g.Equal(x)
	}
	if !ok {
		return bad()
	}
	return ""
}

// floatText says whether the text denotes exactly this float.
func floatText(s string, x float64) bool {
	var n yaml.Node
	if yaml.Unmarshal([]byte(s), &n) != nil {
		return false
	}
	var f float64
	if n.Decode(&f) != nil {
		return false
	}
	return f == x && math.Signbit(f) == math.Signbit(x) || f != f && x != x
}
