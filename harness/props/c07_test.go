package props

import (
	"strings"

	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	"pgregory.net/rapid"
)

// sameTree parses a changed document and compares its tree with the one of the original.
func sameTree(c *ctx, orig, changed string) {
	want, err := parseYay(orig)
	if err != nil {
		c.Failf("the original document is rejected: %v", err)
	}
	got, err := parseYay(changed)
	if err != nil {
		c.Failf("the changed document is rejected: %v\noriginal: %q", err, orig)
	}
	if w, g := dump(want), dump(got); w != g {
		c.Failf("the tree changed from\n%s\nto\n%s\noriginal: %q", w, g, orig)
	}
}

var commentTexts = []string{"#", "# c", "# a: b", "# - x", "#'", "# \"q", "# [", "# }", "##", "# &a *b", "# é中", "# |", "#: ", "# ---", "#!", "# %", "#\t", "# ? ", "# \\"}

// insertNeutral adds comments, blank lines and trailing spaces between and after the lines of a document made of one-line nodes.
func insertNeutral(t *rapid.T, doc string) string {
	lines := strings.Split(strings.TrimSuffix(doc, "\n"), "\n")
	var sb strings.Builder
	extra := func() {
		for i := intn(t, "extra", 0, 5) - 3; i > 0; i-- {
			switch intn(t, "what", 0, 3) {
			case 0:
				sb.WriteString("\n")
			case 1:
				sb.WriteString(strings.Repeat(" ", intn(t, "sp", 0, 8)) + "\n")
			default:
				sb.WriteString(strings.Repeat(" ", intn(t, "sp", 0, 8)) + pick(t, "comment", commentTexts...) + "\n")
			}
		}
	}
	extra()
	for i, l := range lines {
		sb.WriteString(l)
		switch intn(t, "end", 0, 5) {
		case 0:
			sb.WriteString(strings.Repeat(" ", intn(t, "sp", 1, 3)))
		case 1:
			sb.WriteString(strings.Repeat(" ", intn(t, "sp", 1, 3)) + pick(t, "comment", commentTexts...))
		case 2:
			sb.WriteString(pick(t, "tab", "\t", " \t", "\t# c"))
		}
		if i < len(lines)-1 || chance(t, "final", 1, 2) {
			sb.WriteString("\n")
			extra()
		}
	}
	return sb.String()
}

func plainDoc(t *rapid.T, anchors bool) (string, *val, *renderer) {
	v := drawValue(t, genOpts{maxDepth: 4, maxItems: 4, maxStr: 8, anchors: anchors})
	r := newRenderer(t)
	r.multiline, r.blockScalars = false, false
	return r.document(v), v, r
}

func init() {
	reg("C07", "decorated", "documents of the C06 generator rendered with comments, blank lines and trailing spaces at all places where YAML allows them "+
		"(also inside of flow collections and around block scalars): both engines must give the value of the model; non-trivial: a comment and at least three nodes",
		150000, 10000000, func(t *rapid.T, c *ctx) {
			v := drawValue(t, genOpts{maxDepth: 4, maxItems: 4, maxStr: 8})
			r := newRenderer(t)
			r.decor = true
			doc := r.document(v)
			c.Case("%s", doc)
			c.Nontrivial(r.comments > 0 && v.count() >= 3)
			featureLabels(c, r)
			checkDoc(c, doc, v.toAny(), goEngine, yayEngine)
		})
	reg("C07", "inserted", "documents of one-line nodes and the same documents with comments, blank lines and trailing white space inserted between and after their "+
		"lines: the trees must be equal; non-trivial: the document has at least three nodes", 80000, 6000000, func(t *rapid.T, c *ctx) {
		doc, v, _ := plainDoc(t, rapid.Bool().Draw(t, "anchors"))
		changed := insertNeutral(t, doc)
		c.Case("%s", changed)
		c.Nontrivial(v.count() >= 3)
		sameTree(c, doc, changed)
	})
	reg("C07", "line endings", "documents without block scalars with LF replaced by CRLF, also with comments and multi-line scalars: equal trees, and both engines give the "+
		"value of the model; non-trivial: several lines and three nodes", 80000, 6000000, func(t *rapid.T, c *ctx) {
		v := drawValue(t, genOpts{maxDepth: 4, maxItems: 4, maxStr: 8})
		r := newRenderer(t)
		r.blockScalars = false
		r.decor = rapid.Bool().Draw(t, "decor")
		doc := r.document(v)
		changed := strings.ReplaceAll(doc, "\n", "\r\n")
		c.Case("%q", changed)
		c.Nontrivial(v.count() >= 3 && strings.Count(doc, "\n") > 1)
		sameTree(c, doc, changed)
		checkDoc(c, changed, v.toAny(), goEngine, yayEngine)
	})
	reg("C07", "markers", "documents with a byte order mark, a version directive, a document start marker, a document end marker, and comments around them: equal trees and values; "+
		"non-trivial: at least one marker and three nodes", 80000, 6000000, func(t *rapid.T, c *ctx) {
		v := drawValue(t, genOpts{maxDepth: 3, maxItems: 4, maxStr: 8})
		r := newRenderer(t)
		doc := r.document(v)
		changed := ""
		what := ""
		if chance(t, "bom", 1, 3) {
			changed += "\ufeff"
			what += "bom "
		}
		if chance(t, "comment", 1, 4) {
			changed += pick(t, "c1", "# c\n", "\n", "  # c\n", "\n\n# x\n")
		}
		start := chance(t, "start", 2, 3)
		if start {
			if chance(t, "directive", 1, 4) {
				changed += pick(t, "dir", "%YAML 1.1\n", "%YAML 1.1 # c\n", "%YAML 1.2\n", "%YAML   1.1\n", "%YAML 1.1  \t# c\n", "%YAML\t1.1\n", "%TAG !e! tag:x,2000:\n", "%TAG  !e!   tag:x,2000: # c\n", "%TAG !l! !l-\n",
					"%YAML 1.1\n%TAG !xy! tag:x,2000:\n", "%FOO a b c\n", "%Reserved\n", "%x-1  y   z # c\n", "%YAML 1.2\n%FOO 1 2\n", "%TAG !a! !\n# c\n%YAML 1.1\n")
				what += "directive "
			}
			what += "start "
			changed += pick(t, "sm", "---\n", "---\n", "--- # c\n", "---  \n", "---\n\n", "---\n# c\n")
		}
		changed += doc
		if chance(t, "end", 1, 2) {
			if !strings.HasSuffix(changed, "\n") {
				changed += "\n"
			}
			changed += pick(t, "em", "...\n", "...", "... # c\n", "...\n\n", "...\n# c\n")
			what += "end "
		}
		c.Case("%q", changed)
		c.Nontrivial(what != "" && v.count() >= 3)
		c.Label(what)
		sameTree(c, doc, changed)
		if strings.Contains(changed, "%YAML 1.2\n") || strings.Contains(changed, "%FOO ") || strings.Contains(changed, "%Reserved\n") || strings.Contains(changed, "%x-1 ") {
			// yaml.v3 reads documents of version 1.1 only and refuses reserved directives
			checkDoc(c, changed, v.toAny(), yayEngine)
			return
		}
		checkDoc(c, changed, v.toAny(), goEngine, yayEngine)
	})
	reg("C07", "start line", "documents whose content begins on the line of the document start marker or after it, with and without comments: both engines give the value of the model; "+
		"non-trivial: at least three nodes", 60000, 4000000, func(t *rapid.T, c *ctx) {
		v := drawValue(t, genOpts{maxDepth: 3, maxItems: 4, maxStr: 8})
		r := newRenderer(t)
		r.startMarker = true
		r.decor = rapid.Bool().Draw(t, "decor")
		doc := r.document(v)
		if chance(t, "end", 1, 4) {
			if !strings.HasSuffix(doc, "\n") {
				doc += "\n"
			}
			doc += pick(t, "em", "...\n", "...", "... # c\n")
		}
		c.Case("%q", doc)
		c.Nontrivial(v.count() >= 3)
		featureLabels(c, r)
		checkDoc(c, doc, v.toAny(), goEngine, yayEngine)
	})
	reg("C07", "stream", "streams of 2 to 5 documents separated by start and end markers: the parsed stream must consist of exactly the trees of the documents in order, and a reader gives "+
		"their values one after another; non-trivial: at least two collections", 50000, 4000000, func(t *rapid.T, c *ctx) {
		n := intn(t, "docs", 2, 5)
		var src string
		var docs []string
		var vals []*val
		big := 0
		for i := 0; i < n; i++ {
			v := drawValue(t, genOpts{maxDepth: 3, maxItems: 3, maxStr: 6})
			r := newRenderer(t)
			r.decor = chance(t, "decor", 1, 3)
			doc := r.document(v)
			if v.kind == vSeq || v.kind == vMap {
				big++
			}
			if i == 0 && chance(t, "bare", 1, 2) {
				src += doc
			} else {
				src += pick(t, "start", "---\n", "---\n", "--- # c\n", "---\n\n") + doc
			}
			if !strings.HasSuffix(src, "\n") {
				src += "\n"
			}
			if chance(t, "end", 1, 3) {
				src += pick(t, "em", "...\n", "... # c\n", "...\n# c\n\n", "...\n...\n")
			}
			docs, vals = append(docs, doc), append(vals, v)
		}
		c.Case("%q", src)
		c.Nontrivial(big >= 2)
		tree, err := parser.ParseString(src, parser.WithUnescapedQuotedText())
		if err != nil {
			c.Failf("rejected: %v", err)
		}
		stream, ok := tree.(*ast.StreamNode)
		if !ok || len(stream.Documents()) != n {
			c.Failf("want a stream of %d documents, got %s", n, dump(tree))
		}
		for i, d := range stream.Documents() {
			one, err := parseYay(docs[i])
			if err != nil {
				c.Failf("document %d alone is rejected: %v", i, err)
			}
			if w, g := dump(one), dump(d); w != g {
				c.Failf("document %d is %s alone and %s in the stream", i, w, g)
			}
		}
		r, err := yayReader([]byte(src))
		if err != nil {
			c.Failf("the reader rejects the stream: %v", err)
		}
		for i, v := range vals {
			got := r.Any()
			if r.Error() != nil || !same(norm(got), v.toAny()) {
				c.Failf("document %d is read as %s (error %v), want %s", i, show(norm(got)), r.Error(), show(v.toAny()))
			}
		}
	})
}
