package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"github.com/KSpaceer/yamly/engines/yayamls/ast/astcmp"
	"github.com/KSpaceer/yamly/engines/yayamls/ast/astprint"
	"pgregory.net/rapid"
)

// spec is a mutable description of a tree.
type spec struct {
	kind string // stream seq map entry text null alias content
	text string
	quo  int
	tag  string // content: properties
	anc  string
	kids []*spec
}

func drawSpec(t *rapid.T, depth int, unique *int) *spec {
	text := func() string {
		*unique++
		return rapid.SampledFrom([]string{"", "t", "null", "a b", "x\ny", "1", "é", "│", "\\n", "[text]", " lead", "trail ", "\ttab", "end\n", " ", "  two  "}).Draw(t, "tx") + pick(t, "u", "", fmt.Sprint("_", *unique, "_"))
	}
	k := intn(t, "kind", 0, 11)
	if depth <= 0 && k > 5 {
		k = k % 6
	}
	switch {
	case k < 4:
		return &spec{kind: "text", text: text(), quo: intn(t, "q", 0, 2)}
	case k == 4:
		return &spec{kind: "null"}
	case k == 5:
		return &spec{kind: "alias", text: text()}
	case k < 8:
		s := &spec{kind: "seq"}
		for i := intn(t, "n", 0, 4); i > 0; i-- {
			e := drawSpec(t, depth-1, unique)
			if chance(t, "pair", 1, 8) {
				e = &spec{kind: "entry", kids: []*spec{drawSpec(t, 0, unique), e}}
			}
			s.kids = append(s.kids, e)
		}
		return s
	case k < 10:
		s := &spec{kind: "map"}
		for i := intn(t, "n", 0, 4); i > 0; i-- {
			e := &spec{kind: "entry", kids: []*spec{drawSpec(t, pick(t, "kd", 0, 0, 0, depth-1), unique), nil}}
			if !chance(t, "novalue", 1, 8) {
				e.kids[1] = drawSpec(t, depth-1, unique)
			}
			s.kids = append(s.kids, e)
		}
		return s
	default:
		s := &spec{kind: "content", kids: []*spec{drawSpec(t, depth-1, unique)}}
		switch intn(t, "props", 0, 2) {
		case 0:
			s.tag = "g" + text()
		case 1:
			s.anc = "n" + text()
		default:
			s.tag, s.anc = "g"+text(), "n"+text()
		}
		return s
	}
}

func (s *spec) build() ast.Node {
	if s == nil {
		return nil
	}
	var kids []ast.Node
	for _, k := range s.kids {
		kids = append(kids, k.build())
	}
	switch s.kind {
	case "stream":
		return ast.NewStreamNode(kids)
	case "seq":
		return ast.NewSequenceNode(kids)
	case "map":
		return ast.NewMappingNode(kids)
	case "entry":
		return ast.NewMappingEntryNode(kids[0], kids[1])
	case "null":
		return ast.NewNullNode()
	case "alias":
		return ast.NewAliasNode(s.text)
	case "content":
		var tag, anc ast.Node
		if s.tag != "" {
			tag = ast.NewTagNode(s.tag)
		}
		if s.anc != "" {
			anc = ast.NewAnchorNode(s.anc)
		}
		return ast.NewContentNode(ast.NewPropertiesNode(tag, anc), kids[0])
	default:
		return ast.NewTextNode(s.text, ast.WithQuotingType([]ast.QuotingType{ast.AbsentQuotingType, ast.SingleQuotingType, ast.DoubleQuotingType}[s.quo]))
	}
}

func (s *spec) clone() *spec {
	if s == nil {
		return nil
	}
	c := *s
	c.kids = nil
	for _, k := range s.kids {
		c.kids = append(c.kids, k.clone())
	}
	return &c
}

func (s *spec) all(out []*spec) []*spec {
	if s == nil {
		return out
	}
	out = append(out, s)
	for _, k := range s.kids {
		out = k.all(out)
	}
	return out
}

// mutate makes one small change.
func (s *spec) mutate(t *rapid.T) string {
	if chance(t, "regroup", 1, 4) {
		if what := s.regroup(t); what != "" {
			return what
		}
	}
	n := rapid.SampledFrom(s.all(nil)).Draw(t, "at")
	small := func() *spec { return &spec{kind: "text", text: pick(t, "mt", "", "t", "new", "null")} }
	switch n.kind {
	case "text", "alias":
		switch intn(t, "m", 0, 4) {
		case 0:
			n.text += "x"
			return "longer text"
		case 1:
			if n.text != "" {
				n.text = n.text[:len(n.text)-1]
			}
			return "shorter text"
		case 2:
			*n = spec{kind: "null"}
			return "null instead of text"
		case 3:
			n.kind = pick(t, "kind", "text", "alias")
			return "other kind"
		default:
			old := *n
			*n = spec{kind: "seq", kids: []*spec{&old}}
			return "wrapped"
		}
	case "null":
		*n = *small()
		return "text instead of null"
	case "seq", "map", "stream":
		i := intn(t, "i", 0, len(n.kids))
		if len(n.kids) > 0 && rapid.Bool().Draw(t, "remove") {
			if i == len(n.kids) {
				i--
			}
			n.kids = append(n.kids[:i:i], n.kids[i+1:]...)
			return "removed item"
		}
		if len(n.kids) > 1 && rapid.Bool().Draw(t, "swap") {
			a, b := 0, len(n.kids)-1
			n.kids[a], n.kids[b] = n.kids[b], n.kids[a]
			return "swapped items"
		}
		e := small()
		if n.kind == "map" {
			e = &spec{kind: "entry", kids: []*spec{e, small()}}
		}
		n.kids = append(n.kids[:i:i], append([]*spec{e}, n.kids[i:]...)...)
		return "added item"
	case "entry":
		if n.kids[1] == nil {
			n.kids[1] = small()
			return "added value"
		}
		if rapid.Bool().Draw(t, "drop") {
			n.kids[1] = nil
			return "dropped value"
		}
		n.kids[0], n.kids[1] = n.kids[1], n.kids[0]
		return "swapped key and value"
	default:
		switch {
		case n.tag != "" && rapid.Bool().Draw(t, "tag"):
			n.tag += "x"
			return "other tag"
		case n.anc != "":
			if n.tag != "" && rapid.Bool().Draw(t, "noanchor") {
				n.anc = ""
				return "dropped anchor"
			}
			n.anc = "m" + n.anc
			return "other anchor"
		default:
			n.anc, n.tag = n.tag, n.anc
			return "anchor instead of tag"
		}
	}
}

// regroup moves an item between a collection and a collection in it, so that all texts keep their order.
func (s *spec) regroup(t *rapid.T) string {
	type place struct {
		outer *spec
		i     int
		inner *spec
	}
	var places []place
	for _, n := range s.all(nil) {
		if n.kind != "seq" && n.kind != "map" && n.kind != "stream" {
			continue
		}
		for i, k := range n.kids {
			in := k
			for in != nil && (in.kind == "entry" || in.kind == "content") {
				in = in.kids[len(in.kids)-1]
			}
			if in != nil && (in.kind == n.kind || in.kind == "seq" && n.kind == "stream") {
				places = append(places, place{n, i, in})
			}
		}
	}
	if len(places) == 0 {
		return ""
	}
	p := rapid.SampledFrom(places).Draw(t, "place")
	rest := p.outer.kids[p.i+1:]
	if len(rest) > 0 && (len(p.inner.kids) == 0 || rapid.Bool().Draw(t, "in")) {
		n := intn(t, "moved", 1, len(rest))
		p.inner.kids = append(p.inner.kids, rest[:n]...)
		p.outer.kids = append(p.outer.kids[:p.i+1:p.i+1], rest[n:]...)
		return "moved items into a collection"
	}
	if k := len(p.inner.kids); k > 0 {
		n := intn(t, "moved", 1, k)
		moved := append([]*spec{}, p.inner.kids[k-n:]...)
		p.outer.kids = append(p.outer.kids[:p.i+1:p.i+1], append(moved, rest...)...)
		p.inner.kids = p.inner.kids[:k-n]
		return "moved items out of a collection"
	}
	return ""
}

// edges gives what is drawn before the nodes below s, in order: a line for each level and the edge to the node.
func (s *spec) edges(prefix string, out []string) []string {
	kids := make([]*spec, 0, len(s.kids)+1)
	if s.kind == "content" {
		props := &spec{kind: "props"}
		if s.tag != "" {
			props.kids = append(props.kids, &spec{kind: "tag"})
		}
		if s.anc != "" {
			props.kids = append(props.kids, &spec{kind: "anchor"})
		}
		kids = append(kids, props)
	}
	for _, k := range s.kids {
		if k != nil {
			kids = append(kids, k)
		}
	}
	for i, k := range kids {
		if i == len(kids)-1 {
			out = k.edges(prefix+"    ", append(out, prefix+"└──"))
		} else {
			out = k.edges(prefix+"│   ", append(out, prefix+"├──"))
		}
	}
	return out
}

func equalBoth(c *ctx, a, b ast.Node) bool {
	cmp := astcmp.NewComparator()
	x, y := cmp.Equal(a, b), astcmp.NewComparator().Equal(b, a)
	if x != y {
		c.Failf("comparing is not symmetric: %v and %v\n%s\n%s", x, y, dump(a), dump(b))
	}
	if cmp.Equal(a, b) != x {
		c.Failf("comparing again gives another result")
	}
	return x
}

func printed(c *ctx, n ast.Node) string {
	var buf bytes.Buffer
	if err := astprint.NewPrinter().Print(n, &buf); err != nil {
		c.Failf("printing fails: %v", err)
	}
	return buf.String()
}

func init() {
	reg("C22", "compare", "random trees of all node kinds (streams, tags, anchors, aliases, entries without value) compared with an equal copy (other quoting allowed) and with copies to which one to three random "+
		"changes were made (texts, kinds, numbers and order of entries, properties): equal exactly if the trees are the same, judged by an own dump; symmetric; trees unchanged; non-trivial: at least four nodes",
		60000, 5000000, func(t *rapid.T, c *ctx) {
			u := 0
			s := drawSpec(t, 4, &u)
			if chance(t, "stream", 1, 4) {
				s = &spec{kind: "stream", kids: []*spec{s}}
				for i := intn(t, "docs", 0, 2); i > 0; i-- {
					s.kids = append(s.kids, drawSpec(t, 2, &u))
				}
			}
			m := s.clone()
			var what []string
			for i := intn(t, "changes", 1, 3); i > 0; i-- {
				what = append(what, m.mutate(t))
			}
			a, b, mut := s.build(), s.clone().build(), m.build()
			da, dm := dumpPlain(a), dumpPlain(mut)
			full, fullMut := dump(a), dump(mut)
			c.Case("%s changed to %s (%v)", da, dm, what)
			c.Nontrivial(len(s.all(nil)) >= 4)
			for _, w := range what {
				c.Label(w)
			}
			if !equalBoth(c, a, a) || !equalBoth(c, a, b) {
				c.Failf("a tree is not equal to itself or its copy")
			}
			if got := equalBoth(c, a, mut); got != (da == dm) {
				c.Failf("Equal gives %v", got)
			}
			cmp := astcmp.NewComparator()
			if cmp.Equal(a, nil) || cmp.Equal(nil, a) || !cmp.Equal(nil, nil) {
				c.Failf("comparing with nil")
			}
			if dump(a) != full || dump(mut) != fullMut {
				c.Failf("comparing changed a tree")
			}
		})
	reg("C22", "compare parsed", "two random documents parsed: their trees are equal exactly if their own dumps are, and the tree of a document equals the tree of another parse; non-trivial: at least four nodes",
		20000, 1500000, func(t *rapid.T, c *ctx) {
			draw := func() (*val, string) {
				v := drawValue(t, genOpts{maxDepth: 2, maxItems: 2, maxStr: 2, anchors: chance(t, "anchors", 1, 3)})
				return v, newRenderer(t).document(v)
			}
			v, doc := draw()
			var other string
			if rapid.Bool().Draw(t, "restyled") {
				other = newRenderer(t).document(v)
			} else {
				_, other = draw()
			}
			c.Case("%s\nand\n%s", doc, other)
			c.Nontrivial(v.count() >= 4)
			a, err := parseYay(doc)
			if err != nil {
				c.Failf("%v", err)
			}
			a2, _ := parseYay(doc)
			b, err := parseYay(other)
			if err != nil {
				c.Failf("%v", err)
			}
			if !equalBoth(c, a, a2) {
				c.Failf("two parses are not equal")
			}
			want := dumpPlain(a) == dumpPlain(b)
			if want {
				c.Label("equal")
			}
			if got := equalBoth(c, a, b); got != want {
				c.Failf("Equal gives %v for\n%s\n%s", got, dumpPlain(a), dumpPlain(b))
			}
		})
	reg("C22", "print", "the same random trees printed: no failure, the tree is unchanged, equal trees print the same text, a printer may be reused, every text of the tree is shown as often as it occurs, and every node has a line with the edges leading to it from its parent; "+
		"non-trivial: at least four nodes",
		60000, 5000000, func(t *rapid.T, c *ctx) {
			u := 0
			s := drawSpec(t, 4, &u)
			if chance(t, "stream", 1, 4) {
				s = &spec{kind: "stream", kids: []*spec{s}}
			}
			a := s.build()
			c.Case("%s", dump(a))
			c.Nontrivial(len(s.all(nil)) >= 4)
			before := dump(a)
			out := printed(c, a)
			if dump(a) != before {
				c.Failf("printing changed the tree")
			}
			if out != printed(c, s.clone().build()) {
				c.Failf("equal trees print different texts")
			}
			p := astprint.NewPrinter()
			for i := 0; i < 2; i++ {
				var buf bytes.Buffer
				if err := p.Print(a, &buf); err != nil || buf.String() != out {
					c.Failf("a used printer prints another text: %q and %q, %v", out, buf.String(), err)
				}
			}
			var texts []string
			treeTexts(a, &texts)
			counts := map[string]int{}
			for _, x := range texts {
				counts[x]++
			}
			flat := strings.ReplaceAll(out, "\n", `\n`)
			for x, n := range counts {
				if got := strings.Count(flat, strings.ReplaceAll(x, "\n", `\n`)); x != "" && got < n {
					c.Failf("%q occurs %d times in the tree and %d times in\n%s", x, n, got, out)
				}
			}
			nodes := 0
			for _, n := range s.all(nil) {
				nodes++
				if n.kind == "content" {
					nodes++
					if n.tag != "" {
						nodes++
					}
					if n.anc != "" {
						nodes++
					}
				}
			}
			if lines := strings.Count(out, "\n"); lines < nodes {
				c.Failf("%d lines for %d nodes:\n%s", lines, nodes, out)
			}
			if s.kind != "text" && s.kind != "alias" {
				got := strings.Split(strings.TrimSuffix(out, "\n"), "\n")[1:]
				for i := range got {
					if j := strings.Index(got[i], " ["); j >= 0 {
						got[i] = got[i][:j]
					}
				}
				want := s.edges("", nil)
				if strings.Join(got, "\n") != strings.Join(want, "\n") {
					c.Failf("the drawn edges are not those of the tree:\n%s\nwant\n%s", out, strings.Join(want, "\n"))
				}
			}
		})
}
