package props

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	yencode "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
)

// meaning describes what a tree denotes: like dump, but an unquoted null text is a null, and the quoting is shown only for texts
// which would be something else (null, boolean, number, timestamp, merge key) with another quoting.
func meaning(n ast.Node) string { return meaningWith(n, false) }

// meaningWith can show tags as well.
func meaningWith(n ast.Node, tags bool) string {
	var sb strings.Builder
	var rec func(n ast.Node)
	list := func(open string, ns []ast.Node) {
		sb.WriteString(open)
		for i, e := range ns {
			if i > 0 {
				sb.WriteString(", ")
			}
			rec(e)
		}
		sb.WriteString(")")
	}
	rec = func(n ast.Node) {
		if !ast.ValidNode(n) {
			sb.WriteString("null")
			return
		}
		switch x := n.(type) {
		case *ast.StreamNode:
			list("stream(", x.Documents())
		case *ast.SequenceNode:
			// a single pair of a flow sequence is a mapping of one entry
			items := make([]ast.Node, len(x.Entries()))
			for i, e := range x.Entries() {
				if e.Type() == ast.MappingEntryType {
					e = ast.NewMappingNode([]ast.Node{e})
				}
				items[i] = e
			}
			list("seq(", items)
		case *ast.MappingNode:
			list("map(", x.Entries())
		case *ast.MappingEntryNode:
			list("entry(", []ast.Node{x.Key(), x.Value()})
		case *ast.ContentNode:
			p := x.Properties().(*ast.PropertiesNode)
			if ast.ValidNode(p.Tag()) && tags {
				fmt.Fprintf(&sb, "!%q ", p.Tag().(*ast.TagNode).Text())
			}
			if ast.ValidNode(p.Anchor()) {
				sb.WriteString("&" + p.Anchor().(*ast.AnchorNode).Text() + " ")
			}
			rec(x.Content())
		case *ast.TextNode:
			sb.WriteString(textMeaning(x.Text(), x.QuotingType() != ast.AbsentQuotingType && x.QuotingType() != ast.UnknownQuotingType))
		case *ast.AliasNode:
			sb.WriteString("*" + x.Text())
		case *ast.NullNode:
			sb.WriteString("null")
		default:
			fmt.Fprintf(&sb, "<%T>", n)
		}
	}
	rec(n)
	return sb.String()
}

// otherThanString says whether a plain scalar with this text is not a string.
func otherThanString(s string) bool {
	if oNull(s) || s == "<<" || s == "=" {
		return true
	}
	if _, ok := oBool(s); ok {
		return true
	}
	if _, ok := oInt(s); ok {
		return true
	}
	if k, _, _ := oFloat(s); k != 0 {
		return true
	}
	n := yaml.Node{Kind: yaml.ScalarNode, Value: s}
	return n.ShortTag() != "!!str"
}

func textMeaning(s string, quoted bool) string {
	switch {
	case !quoted && oNull(s):
		return "null"
	case otherThanString(s):
		return fmt.Sprintf("%v%q", quoted, s)
	default:
		return fmt.Sprintf("%q", s)
	}
}

// v3Meaning describes in the same way what the independent parser reads.
func v3Meaning(n *yaml.Node) string {
	var sb strings.Builder
	var rec func(n *yaml.Node)
	list := func(open string, ns []*yaml.Node) {
		sb.WriteString(open)
		for i, e := range ns {
			if i > 0 {
				sb.WriteString(", ")
			}
			rec(e)
		}
		sb.WriteString(")")
	}
	rec = func(n *yaml.Node) {
		if n.Anchor != "" {
			sb.WriteString("&" + n.Anchor + " ")
		}
		switch n.Kind {
		case yaml.DocumentNode:
			rec(n.Content[0])
		case yaml.SequenceNode:
			list("seq(", n.Content)
		case yaml.MappingNode:
			sb.WriteString("map(")
			for i := 0; i < len(n.Content); i += 2 {
				if i > 0 {
					sb.WriteString(", ")
				}
				list("entry(", n.Content[i:i+2])
			}
			sb.WriteString(")")
		case yaml.AliasNode:
			sb.WriteString("*" + n.Value)
		default:
			sb.WriteString(textMeaning(n.Value, n.Style&(yaml.SingleQuotedStyle|yaml.DoubleQuotedStyle|yaml.LiteralStyle|yaml.FoldedStyle) != 0))
		}
	}
	rec(n)
	return sb.String()
}

type treeGen struct {
	t       *rapid.T
	anchors []string
	names   int
	nodes   int
	maxStr  int
	tags    bool
	feats   map[string]bool
}

func (g *treeGen) text() ast.Node {
	t := g.t
	q := pick(t, "q", ast.DoubleQuotingType, ast.DoubleQuotingType, ast.SingleQuotingType, ast.AbsentQuotingType, ast.AbsentQuotingType, ast.BlockQuotingType, ast.UnknownQuotingType)
	s := modelText(t, g.maxStr)
	if chance(t, "long", 1, 50) {
		g.feats["long text"] = true
		s += strings.Repeat(pick(t, "rep", "x", "é", "\x01", "\"", "\\", "\u0085", "a b ", "\U0001f600", "\U000e0001", "'"), pick(t, "len", 60, 100, 127, 128, 129, 200, 256, 400, 1000, 1024, 1100)) + pick(t, "e", "", "e")
	}
	if s == "" && (q == ast.AbsentQuotingType || q == ast.UnknownQuotingType) {
		s = "x"
	}
	if q == ast.AbsentQuotingType || q == ast.UnknownQuotingType {
		// texts without quotes may be scalars of any kind; what they are must survive
		if !plainOK(s, true) && otherThanString(s) {
			q = ast.DoubleQuotingType
		}
	}
	if q == ast.BlockQuotingType {
		g.feats["block text"] = true
	}
	return ast.NewTextNode(s, ast.WithQuotingType(q))
}

func (g *treeGen) node(depth int) ast.Node {
	t := g.t
	g.nodes++
	if len(g.anchors) > 0 && chance(t, "alias", 1, 6) {
		g.feats["alias"] = true
		return ast.NewAliasNode(rapid.SampledFrom(g.anchors).Draw(t, "to"))
	}
	anchor := ""
	if chance(t, "anchor", 1, 6) {
		g.names++
		anchor = pick(t, "an", "a", "anc", "x-1", "A_b") + fmt.Sprint(g.names)
	}
	var tag ast.Node
	if g.tags && chance(t, "tagged", 1, 5) {
		g.feats["tag"] = true
		tag = ast.NewTagNode(pick(t, "tag", "str", "map", "local", "a-b", "", "x%20y", "tag:yaml.org,2002:str", "tag:example.com,2000:a/b&c", "int", "e(1)", "A_b.c~d*e'f"))
	}
	var n ast.Node
	switch k := intn(t, "kind", 0, 9); {
	case k == 0:
		n = ast.NewNullNode()
	case depth <= 0 || k < 5 || g.nodes > 40:
		n = g.text()
	case k < 7:
		var items []ast.Node
		for i := intn(t, "items", 0, 4); i > 0; i-- {
			items = append(items, g.node(depth-1))
		}
		n = ast.NewSequenceNode(items)
	default:
		var ents []ast.Node
		for i := intn(t, "ents", 0, 4); i > 0; i-- {
			var key ast.Node
			if chance(t, "complex", 1, 5) {
				key = g.node(depth - 1)
				if _, ok := key.(*ast.TextNode); !ok {
					g.feats["complex key"] = true
				}
			} else {
				key = g.text()
			}
			ents = append(ents, ast.NewMappingEntryNode(key, g.node(depth-1)))
		}
		n = ast.NewMappingNode(ents)
	}
	var an ast.Node
	if anchor != "" {
		g.feats["anchor"] = true
		g.anchors = append(g.anchors, anchor)
		an = ast.NewAnchorNode(anchor)
	}
	if an != nil || tag != nil {
		return ast.NewContentNode(ast.NewPropertiesNode(tag, an), n)
	}
	return n
}

// deepen puts a tree below many collections, with siblings before and behind.
func (g *treeGen) deepen(n ast.Node, levels int) ast.Node {
	t := g.t
	g.feats["more than 16 levels"] = true
	for i := 0; i < levels; i++ {
		side := func() []ast.Node {
			if chance(t, "side", 1, 4) {
				return []ast.Node{g.text()}
			}
			return nil
		}
		if rapid.Bool().Draw(t, "seq") {
			n = ast.NewSequenceNode(append(append(side(), n), side()...))
		} else {
			var ents []ast.Node
			for _, x := range append(append(side(), n), side()...) {
				var key ast.Node = ast.NewTextNode(fmt.Sprintf("k%d", len(ents)))
				if chance(t, "complex", 1, 20) {
					key, x = x, key
				}
				ents = append(ents, ast.NewMappingEntryNode(key, x))
			}
			n = ast.NewMappingNode(ents)
		}
	}
	return n
}

func genTree(t *rapid.T, depth, maxStr int) (ast.Node, *treeGen) {
	g := &treeGen{t: t, maxStr: maxStr, feats: map[string]bool{}}
	g.tags = chance(t, "tags", 1, 3)
	var n ast.Node
	for i := 0; i < 3; i++ {
		g.anchors = nil
		n = g.node(depth)
		if x := n.Type(); x == ast.SequenceType || x == ast.MappingType {
			break
		}
	}
	return n, g
}

// checkWrite serializes a tree and reads it back with both parsers.
func checkWrite(c *ctx, tree ast.Node, w *yencode.ASTWriter) string {
	before := dump(tree)
	text, err := yencode.NewASTWriter().WriteString(tree)
	if err != nil {
		c.Failf("WriteString: %v", err)
	}
	if after := dump(tree); after != before {
		c.Failf("serializing changed the tree to %s", after)
	}
	// a writer that was used before, and all forms of output
	for i := 0; i < 2; i++ {
		got, err := w.WriteString(tree)
		if err != nil || got != text {
			c.Failf("a used writer gives %q (%v), a new one %q", got, err, text)
		}
		data, err := w.WriteBytes(tree)
		if err != nil || string(data) != text {
			c.Failf("WriteBytes gives %q (%v), WriteString %q", data, err, text)
		}
		var buf bytes.Buffer
		if err := w.WriteTo(&buf, tree); err != nil || buf.String() != text {
			c.Failf("WriteTo gives %q (%v), WriteString %q", buf.String(), err, text)
		}
		if string(data) != text {
			c.Failf("bytes returned before changed to %q from %q", data, text)
		}
	}
	want := meaning(tree)
	var back ast.Node
	if tree.Type() == ast.StreamType {
		back, err = parser.ParseString(text, parser.WithUnescapedQuotedText())
	} else {
		back, err = parseYay(text)
	}
	if err != nil {
		c.Failf("the serialized tree is rejected: %v\n%s", err, text)
	}
	if got, want := meaningWith(back, true), meaningWith(tree, true); got != want {
		c.Failf("reads back as\n%s\nwant\n%s\n%s", got, want, text)
	}
	dec := yaml.NewDecoder(strings.NewReader(text))
	var docs []string
	for {
		var n yaml.Node
		err := dec.Decode(&n)
		if err == io.EOF {
			break
		}
		if err != nil {
			c.Failf("yaml.v3 rejects the serialized tree: %v\n%s", err, text)
		}
		docs = append(docs, v3Meaning(&n))
	}
	got := strings.Join(docs, ", ")
	if tree.Type() == ast.StreamType {
		got = "stream(" + got + ")"
	}
	if got != want {
		c.Failf("yaml.v3 reads\n%s\nwant\n%s\n%s", got, want, text)
	}
	return text
}

func init() {
	reg("C09", "trees", "random trees of sequences, mappings, texts of all quoting types, nulls, anchors, aliases and complex keys, serialized by a new and by a used writer in all "+
		"forms, read back by the parser and by yaml.v3; non-trivial: at least three nodes", 150000, 10000000, func(t *rapid.T, c *ctx) {
		tree, g := genTree(t, intn(t, "depth", 0, 4), 8)
		other, _ := genTree(t, 2, 4)
		if chance(t, "deep", 1, 20) {
			tree = g.deepen(tree, intn(t, "levels", 17, 80))
		}
		c.Case("%s", dump(tree))
		c.Nontrivial(g.nodes >= 3)
		for f := range g.feats {
			c.Label(f)
		}
		w := yencode.NewASTWriter()
		if chance(t, "used", 2, 3) {
			_, _ = w.WriteString(other)
		}
		checkWrite(c, tree, w)
	})
	reg("C09", "subtrees", "1 to 8 subtrees of a parsed sequence (and trees with an unknown alias) serialized by one writer which knows the anchors of the document: each text alone has the value of the subtree, "+
		"whatever was written before; non-trivial: anchors in the document, two subtrees", 30000, 2000000, func(t *rapid.T, c *ctx) {
		g := &vgen{t: t, o: genOpts{maxDepth: 2, maxItems: 3, maxStr: 4, anchors: true, merges: chance(t, "merges", 1, 4)}}
		items := &val{kind: vSeq}
		for i := intn(t, "items", 1, 5); i > 0; i-- {
			items.seq = append(items.seq, g.value(2))
		}
		r := newRenderer(t)
		doc := r.document(items)
		order := rapid.SliceOfN(rapid.IntRange(-1, len(items.seq)-1), 1, 8).Draw(t, "order")
		c.Case("%s\nsubtrees %v", doc, order)
		c.Nontrivial(strings.Contains(doc, "&") && len(order) >= 2)
		tree, err := parseYay(doc)
		if err != nil {
			c.Failf("rejected: %v", err)
		}
		k := &docAnchors{m: map[string]ast.Node{}}
		seq := k.collect(tree)
		if seq == nil || len(seq.Entries()) != len(items.seq) {
			c.Failf("the tree is no sequence of %d items: %s", len(items.seq), dump(tree))
		}
		w := yencode.NewASTWriter(yencode.WithAnchorsKeeper(k))
		for _, i := range order {
			if i < 0 {
				if text, err := w.WriteString(ast.NewSequenceNode([]ast.Node{ast.NewTextNode("x"), ast.NewAliasNode("unknown")})); err == nil {
					c.Failf("an unknown alias is written as %q", text)
				}
				c.Label("unknown alias")
				continue
			}
			text, err := w.WriteString(seq.Entries()[i])
			if err != nil {
				c.Failf("subtree %d: %v", i, err)
			}
			checkDoc(c, text, items.seq[i].toAny(), goEngine, yayEngine)
		}
	})
	reg("C09", "streams", "streams of one to four such documents; non-trivial: at least two documents with three nodes each", 40000, 3000000, func(t *rapid.T, c *ctx) {
		var docs []ast.Node
		n := intn(t, "docs", 1, 4)
		big := 0
		for i := 0; i < n; i++ {
			d, g := genTree(t, intn(t, "depth", 0, 3), 6)
			if g.nodes >= 3 {
				big++
			}
			docs = append(docs, d)
		}
		tree := ast.NewStreamNode(docs)
		c.Case("%s", dump(tree))
		c.Nontrivial(big >= 2)
		checkWrite(c, tree, yencode.NewASTWriter())
	})
	reg("C09", "parsed", "trees parsed from documents of the C06 generator (all styles, comments, anchors, aliases), serialized and read back; the value of the document must not change; "+
		"non-trivial: at least three nodes", 80000, 6000000, func(t *rapid.T, c *ctx) {
		v := drawValue(t, genOpts{maxDepth: 4, maxItems: 4, maxStr: 8, anchors: rapid.Bool().Draw(t, "anchors"), merges: rapid.Bool().Draw(t, "merges")})
		r := newRenderer(t)
		r.decor = rapid.Bool().Draw(t, "decor")
		doc := r.document(v)
		c.Case("%s", doc)
		c.Nontrivial(v.count() >= 3)
		tree, err := parseYay(doc)
		if err != nil {
			c.Failf("rejected: %v", err)
		}
		text := checkWrite(c, tree, yencode.NewASTWriter())
		checkDoc(c, text, v.toAny(), goEngine, yayEngine)
	})
}

// docAnchors knows the anchors of a document.
type docAnchors struct{ m map[string]ast.Node }

func (k *docAnchors) StoreAnchor(string)          {}
func (k *docAnchors) BindToLatestAnchor(ast.Node) {}
func (k *docAnchors) DereferenceAlias(name string) (ast.Node, error) {
	if n, ok := k.m[name]; ok {
		return n, nil
	}
	return nil, fmt.Errorf("unknown alias %q", name)
}

// collect gathers the anchors of the tree and gives its first sequence.
func (k *docAnchors) collect(n ast.Node) (first *ast.SequenceNode) {
	visit := func(ns ...ast.Node) {
		for _, x := range ns {
			if x != nil {
				if s := k.collect(x); first == nil {
					first = s
				}
			}
		}
	}
	switch n := n.(type) {
	case *ast.StreamNode:
		visit(n.Documents()...)
	case *ast.ContentNode:
		if p, ok := n.Properties().(*ast.PropertiesNode); ok {
			if a, ok := p.Anchor().(*ast.AnchorNode); ok {
				k.m[a.Text()] = n.Content()
			}
		}
		visit(n.Content())
	case *ast.SequenceNode:
		first = n
		visit(n.Entries()...)
	case *ast.MappingNode:
		visit(n.Entries()...)
	case *ast.MappingEntryNode:
		visit(n.Key(), n.Value())
	}
	return first
}
