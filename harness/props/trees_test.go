package props

import (
	"fmt"
	"strings"

	"github.com/KSpaceer/yamly/engines/yayamls/ast"
)

// dump describes a tree completely (structure, kinds, texts, quoting), without help of the repository's printer.
func dump(n ast.Node) string {
	var sb strings.Builder
	dumpTo(&sb, n, true)
	return sb.String()
}

// dumpPlain is dump without the quoting of texts.
func dumpPlain(n ast.Node) string {
	var sb strings.Builder
	dumpTo(&sb, n, false)
	return sb.String()
}

func dumpTo(sb *strings.Builder, n ast.Node, quoting bool) {
	if !ast.ValidNode(n) {
		sb.WriteString("<absent>")
		return
	}
	list := func(open string, ns []ast.Node) {
		sb.WriteString(open)
		for i, e := range ns {
			if i > 0 {
				sb.WriteString(", ")
			}
			dumpTo(sb, e, quoting)
		}
		sb.WriteString(")")
	}
	switch x := n.(type) {
	case *ast.StreamNode:
		list("stream(", x.Documents())
	case *ast.SequenceNode:
		list("seq(", x.Entries())
	case *ast.MappingNode:
		list("map(", x.Entries())
	case *ast.MappingEntryNode:
		list("entry(", []ast.Node{x.Key(), x.Value()})
	case *ast.ContentNode:
		list("content(", []ast.Node{x.Properties(), x.Content()})
	case *ast.PropertiesNode:
		list("props(", []ast.Node{x.Tag(), x.Anchor()})
	case *ast.TextNode:
		if quoting {
			fmt.Fprintf(sb, "text%d", x.QuotingType())
		}
		fmt.Fprintf(sb, "%q", x.Text())
	case *ast.AnchorNode:
		fmt.Fprintf(sb, "&%q", x.Text())
	case *ast.AliasNode:
		fmt.Fprintf(sb, "*%q", x.Text())
	case *ast.TagNode:
		fmt.Fprintf(sb, "!%q", x.Text())
	case *ast.NullNode:
		sb.WriteString("null")
	default:
		fmt.Fprintf(sb, "<%T %v>", n, n.Type())
	}
}

// malformed gives a description of the first structural defect of a parsed tree, or "".
func malformed(n ast.Node) string {
	var rec func(n ast.Node, where string) string
	rec = func(n ast.Node, where string) string {
		if !ast.ValidNode(n) {
			return "absent node " + where
		}
		switch x := n.(type) {
		case *ast.StreamNode:
			for i, d := range x.Documents() {
				if _, ok := d.(*ast.StreamNode); ok {
					return "a stream inside of a stream"
				}
				if r := rec(d, fmt.Sprintf("%s/doc%d", where, i)); r != "" {
					return r
				}
			}
		case *ast.SequenceNode:
			for i, e := range x.Entries() {
				if r := rec(e, fmt.Sprintf("%s/%d", where, i)); r != "" {
					return r
				}
			}
		case *ast.MappingNode:
			for i, e := range x.Entries() {
				if !ast.ValidNode(e) || e.Type() != ast.MappingEntryType {
					return fmt.Sprintf("%T as an entry of a mapping", e)
				}
				if r := rec(e, fmt.Sprintf("%s/%d", where, i)); r != "" {
					return r
				}
			}
		case *ast.MappingEntryNode:
			if r := rec(x.Key(), where+"/key"); r != "" {
				return r
			}
			return rec(x.Value(), where+"/value")
		case *ast.ContentNode:
			p, ok := x.Properties().(*ast.PropertiesNode)
			if !ok {
				return fmt.Sprintf("%T as properties", x.Properties())
			}
			if !ast.ValidNode(p.Tag()) && !ast.ValidNode(p.Anchor()) {
				return "empty properties"
			}
			return rec(x.Content(), where+"/content")
		case *ast.TextNode, *ast.NullNode, *ast.AliasNode:
		default:
			return fmt.Sprintf("unexpected %T %s", n, where)
		}
		return ""
	}
	return rec(n, "")
}

// treeTexts collects all texts of a tree.
func treeTexts(n ast.Node, out *[]string) {
	if !ast.ValidNode(n) {
		return
	}
	switch x := n.(type) {
	case *ast.StreamNode:
		for _, d := range x.Documents() {
			treeTexts(d, out)
		}
	case *ast.SequenceNode:
		for _, e := range x.Entries() {
			treeTexts(e, out)
		}
	case *ast.MappingNode:
		for _, e := range x.Entries() {
			treeTexts(e, out)
		}
	case *ast.MappingEntryNode:
		treeTexts(x.Key(), out)
		treeTexts(x.Value(), out)
	case *ast.ContentNode:
		treeTexts(x.Properties(), out)
		treeTexts(x.Content(), out)
	case *ast.PropertiesNode:
		treeTexts(x.Tag(), out)
		treeTexts(x.Anchor(), out)
	case ast.Texter:
		*out = append(*out, x.Text())
	}
}
