package props

import (
	"fmt"
	"io"
	"strconv"
	"strings"

	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
)

// wordDoc renders a value whose texts are words, so that every bracket and quote of the document is syntax.
// every word is unique.
func wordDoc(t *rapid.T, prep func(r *renderer)) (string, *val, []string) {
	var words []string
	word := func() string {
		w := fmt.Sprintf("w%dq", len(words)+100)
		words = append(words, w)
		return w
	}
	var gen func(d int) *val
	gen = func(d int) *val {
		k := intn(t, "k", 0, 9)
		switch {
		case d <= 0 || k < 4:
			s := word()
			if chance(t, "two", 1, 4) {
				s += " " + word()
			}
			return &val{kind: vStr, s: s}
		case k < 7:
			v := &val{kind: vSeq}
			for i := intn(t, "n", 0, 4); i > 0; i-- {
				v.seq = append(v.seq, gen(d-1))
			}
			return v
		default:
			v := &val{kind: vMap}
			for i := intn(t, "n", 0, 4); i > 0; i-- {
				v.ents = append(v.ents, entry{key: word(), v: gen(d - 1)})
			}
			return v
		}
	}
	var v *val
	for i := 0; i < 3; i++ {
		words = nil
		if v = gen(intn(t, "depth", 1, 4)); isBlockable(v) {
			break
		}
	}
	r := newRenderer(t)
	r.blockScalars = false
	// with a tab at the start of a line yaml.v3 rejects valid documents
	r.noTabs = true
	if prep != nil {
		prep(r)
	}
	return r.document(v), v, words
}

// v3Accepts says whether the independent parser accepts all documents of the source.
func v3Accepts(src string) bool {
	d := yaml.NewDecoder(strings.NewReader(src))
	for {
		var n yaml.Node
		switch err := d.Decode(&n); {
		case err == io.EOF:
			return true
		case err != nil:
			return false
		}
	}
}

// mustReject: the document was damaged in a way that makes it invalid, the independent parser agrees, so yayamls has to report it.
func mustReject(c *ctx, damaged, orig string, what string) {
	c.Case("%s: %q", what, damaged)
	c.Label(what)
	if v3Accepts(damaged) {
		c.Label("still valid for yaml.v3, not asserted")
		return
	}
	c.Nontrivial(len(damaged) > 10)
	tree, perr := parser.ParseBytes([]byte(damaged))
	r, err := yayReader([]byte(damaged))
	if err != nil {
		return
	}
	v := r.Any()
	if r.Error() != nil {
		return
	}
	s := ""
	if perr == nil {
		s = dump(tree)
	}
	c.Failf("accepted and read as %s\ntree: %s (parse error %v)\nundamaged: %q", show(v), s, perr, orig)
}

func indexesOf(s, set string) []int {
	var out []int
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(set, s[i]) >= 0 {
			out = append(out, i)
		}
	}
	return out
}

func lineIndent(l string) int { return len(l) - len(strings.TrimLeft(l, " ")) }

// missingWord gives a word which does not appear exactly once in the tree of the source.
func missingWord(c *ctx, src string, words []string) (accepted bool) {
	tree, err := parser.ParseString(src, parser.WithUnescapedQuotedText())
	if err != nil {
		return false
	}
	var texts []string
	treeTexts(tree, &texts)
	all := strings.Join(texts, "\x00")
	for _, w := range words {
		want := strings.Count(src, w)
		if n := strings.Count(all, w); n < want || n > want && !strings.Contains(src, "\\") {
			c.Failf("%q is %d times in the source and %d times in the tree %s", w, want, n, dump(tree))
		}
	}
	return true
}

func init() {
	reg("C08", "brackets", "valid documents in which all texts are words, with one bracket removed, added, doubled or exchanged; asserted when the independent parser rejects "+
		"the result, too; non-trivial: asserted and longer than 10 bytes", 100000, 6000000, func(t *rapid.T, c *ctx) {
		doc, _, _ := wordDoc(t, func(r *renderer) { r.onlyFlow = rapid.Bool().Draw(t, "onlyflow") })
		ix := indexesOf(doc, "[]{}")
		if len(ix) == 0 {
			doc = pick(t, "fallback", "[a, b]", "{a: b}", "- [a]\n- b", "k: {a: [b]}\nl: c\n")
			ix = indexesOf(doc, "[]{}")
		}
		i := rapid.SampledFrom(ix).Draw(t, "at")
		switch intn(t, "damage", 0, 3) {
		case 0:
			mustReject(c, doc[:i]+doc[i+1:], doc, "bracket removed")
		case 1:
			mustReject(c, doc[:i]+pick(t, "with", "[", "]", "{", "}")+doc[i+1:], doc, "bracket exchanged")
		case 2:
			mustReject(c, doc[:i]+doc[i:i+1]+doc[i:], doc, "bracket doubled")
		default:
			mustReject(c, strings.TrimRight(doc, "\n ")+pick(t, "sep", "", " ", "\n", "\n ")+pick(t, "with", "]", "}", "[", "{"), doc, "bracket appended")
		}
	})
	reg("C08", "commas", "valid documents in flow style in which all texts are words, with a comma after another one, or after an opening bracket; "+
		"asserted and non-trivial as before", 60000, 4000000, func(t *rapid.T, c *ctx) {
		doc, _, _ := wordDoc(t, func(r *renderer) { r.onlyFlow = chance(t, "onlyflow", 3, 4) })
		ix := indexesOf(doc, "[{,")
		if len(ix) == 0 {
			doc = pick(t, "fallback", "[a, b]", "{a: b}", "- [a]\n- b", "k: {a: [b]}\nl: c\n", "{a, b: c,}", "[[], a]")
			ix = indexesOf(doc, "[{,")
		}
		i := rapid.SampledFrom(ix).Draw(t, "at")
		mustReject(c, doc[:i+1]+pick(t, "sep", "", " ", "  ", "\n  ")+","+doc[i+1:], doc, "comma added after "+doc[i:i+1])
	})
	reg("C08", "quotes", "valid documents in which all texts are words, without the closing quote of the last scalar quoted in that way; non-trivial as before", 60000, 4000000,
		func(t *rapid.T, c *ctx) {
			doc, _, _ := wordDoc(t, nil)
			q := pick(t, "q", "'", "\"")
			i := strings.LastIndex(doc, q)
			if i < 0 {
				doc = strings.TrimRight(doc, "\n ") + "\n"
				doc = pick(t, "pre", "- ", "a: ", "", "[", "{a: ") + q + "abc" + q
				i = strings.LastIndex(doc, q)
			}
			mustReject(c, doc[:i]+doc[i+1:], doc, "closing quote removed")
		})
	reg("C08", "aliases", "documents with anchors and aliases with one alias renamed or one used anchor removed or renamed; non-trivial as before", 60000, 4000000,
		func(t *rapid.T, c *ctx) {
			v := drawValue(t, genOpts{maxDepth: 4, maxItems: 4, maxStr: 4, anchors: true})
			var used []string
			var rec func(v *val)
			rec = func(v *val) {
				if v.kind == vAlias {
					used = append(used, v.target.anchor)
				}
				for _, e := range v.seq {
					rec(e)
				}
				for _, e := range v.ents {
					if e.keyAlias != nil {
						used = append(used, e.keyAlias.anchor)
					}
					rec(e.v)
				}
			}
			rec(v)
			if len(used) == 0 {
				// an alias without any anchor
				doc := pick(t, "form", "*NAME", "- *NAME", "k: *NAME", "[a, *NAME ]", "{k: *NAME }", "*NAME : v", "- a\n- - *NAME", "? *NAME\n: v",
					"<<: *NAME", "- &other x\n- *NAME", "a: &b {c: *NAME }", "- *NAME\n- &NAME x")
				mustReject(c, strings.ReplaceAll(doc, "NAME", pick(t, "name", "x", "anc", "a-1")), doc, "alias without anchor")
				return
			}
			r := newRenderer(t)
			doc := r.document(v)
			name := rapid.SampledFrom(used).Draw(t, "name")
			// names end with a number and are followed by white space, so "*a1" is not the start of "*a12"
			find := func(s string) int {
				for i := 0; i+len(s) <= len(doc); i++ {
					if doc[i:i+len(s)] == s && (i+len(s) == len(doc) || strings.IndexByte(" \n,]}", doc[i+len(s)]) >= 0) && (i == 0 || strings.IndexByte(" \n[{,:", doc[i-1]) >= 0) {
						return i
					}
				}
				return -1
			}
			sign := pick(t, "sign", "*", "&")
			i := find(sign + name)
			if i < 0 {
				return
			}
			damaged := doc[:i] + sign + "zz" + name + doc[i+len(name)+1:]
			mustReject(c, damaged, doc, map[string]string{"*": "alias renamed", "&": "anchor renamed"}[sign])
		})
	reg("C08", "indentation", "valid block documents with an entry inserted whose indentation lies between the ones of a nested collection and of its parent, or which is "+
		"indented deeper than its completed predecessor; non-trivial as before", 60000, 4000000, func(t *rapid.T, c *ctx) {
		doc, _, _ := wordDoc(t, func(r *renderer) { r.multiline, r.noExplicit = false, true })
		lines := strings.Split(strings.TrimRight(doc, "\n"), "\n")
		i := intn(t, "line", 0, len(lines)-1)
		in := lineIndent(lines[i])
		// the indentations that are open here: collections of the lines above, compact ones included
		entryText := pick(t, "entry", "- zz", "zz: yy", "\"zz\": yy", "zz: [y]", "? zz")
		what := "entry between two indentations"
		ind := 0
		if chance(t, "deeper", 1, 3) {
			what = "entry deeper than its predecessor"
			ind = in + intn(t, "by", 1, 3)
			if strings.HasPrefix(entryText, "-") || strings.HasPrefix(entryText, "?") {
				entryText = "zz: yy"
			}
		} else if in > 0 {
			ind = intn(t, "ind", 0, in-1)
		}
		out := append([]string{}, lines[:i+1]...)
		out = append(out, strings.Repeat(" ", ind)+entryText)
		if rapid.Bool().Draw(t, "rest") {
			out = append(out, lines[i+1:]...)
		}
		mustReject(c, strings.Join(out, "\n")+"\n", doc, what)
	})
	reg("C08", "trailing text", "valid documents in which all texts are words, with another word, quoted text or collection right after a quoted text or flow collection; "+
		"non-trivial as before", 80000, 5000000, func(t *rapid.T, c *ctx) {
		doc, _, _ := wordDoc(t, nil)
		var ends []int
		open := byte(0)
		for i := 0; i < len(doc); i++ {
			switch b := doc[i]; {
			case open != 0:
				if b == open {
					open = 0
					ends = append(ends, i+1)
				}
			case b == '"' || b == '\'':
				open = b
			case b == ']' || b == '}':
				ends = append(ends, i+1)
			}
		}
		if len(ends) == 0 {
			doc = pick(t, "pre", "", "- ", "k: ", "k:\n  ") + pick(t, "node", "\"a\"", "'a'", "[]", "{}", "[a]", "{a: b}")
			ends = []int{len(doc)}
		}
		i := rapid.SampledFrom(ends).Draw(t, "at")
		text := pick(t, "text", "zz", "zz", "\"zz\"", "'zz'", "[zz]", "{}", "- zz", "&zz y", "*zz", "|", ">", "-", "1", "~", "%zz", "!zz")
		mustReject(c, doc[:i]+pick(t, "sep", " ", "  ", "\t", "")+text+doc[i:], doc, "text after a completed node")
	})
	reg("C08", "escapes", "documents with a double quoted text or key that contains an unknown or incomplete escape sequence; non-trivial as before", 60000, 4000000,
		func(t *rapid.T, c *ctx) {
			doc, _, _ := wordDoc(t, nil)
			var inside []int
			open := byte(0)
			for i := 0; i < len(doc); i++ {
				switch b := doc[i]; {
				case open != 0:
					if b == open {
						open = 0
					}
					if open == '"' || b == '"' {
						inside = append(inside, i)
					}
				case b == '"' || b == '\'':
					open = b
				}
			}
			esc := pick(t, "esc", `\q`, `\c`, `\1`, `\x`, `\xg1`, `\x1`, `\u12`, `\u12g4`, `\U0001`, `\U0011000g`, `\'`, `\-`, `\N1\z`, `\é`, `\{`, `\#`, `\A`, `\E`, `\X41`, `\ux`)
			if rapid.Bool().Draw(t, "hex") {
				// one wrong digit, or too few digits before something else
				kind := pick(t, "kind", "x2", "u4", "U8")
				n := int(kind[1] - '0')
				digits := []byte("00000000"[:n])
				for i := n - 4; i < n; i++ {
					if i >= 0 {
						digits[i] = rapid.SampledFrom([]byte("0123456789abcdefABCDEF")).Draw(t, "digit")
					}
				}
				k := intn(t, "wrong", 0, n-1)
				if rapid.Bool().Draw(t, "short") {
					digits = append(digits[:k], pick(t, "stop", " ", "-", ",", ".")...)
				} else {
					digits[k] = rapid.SampledFrom([]byte("gGhzZ@`/:-+_ .,xu")).Draw(t, "nodigit")
				}
				esc = "\\" + kind[:1] + string(digits)
			}
			if len(inside) == 0 {
				doc = pick(t, "pre", "", "- ", "k: ", "[", "{\"a\": ") + `"abc"`
				inside = []int{len(doc) - 2, len(doc) - 1, len(doc) - 4}
				if doc[0] == '[' {
					doc += "]"
				}
				if doc[0] == '{' {
					doc += "}"
				}
			}
			i := rapid.SampledFrom(inside).Draw(t, "at")
			if i > 0 && doc[i-1] == '\\' {
				return
			}
			damaged := doc[:i] + esc + pick(t, "after", " ", "zz", "") + doc[i:]
			mustReject(c, damaged, doc, "escape")
		})
	reg("C08", "complete", "random sequences of syntax with unique words instead of texts, and valid documents with 1 to 4 random edits: when they are accepted, every word of the "+
		"source must be in the tree as often as in the source; non-trivial: accepted and at least two words", 150000, 10000000, func(t *rapid.T, c *ctx) {
		var src string
		var words []string
		if rapid.Bool().Draw(t, "soup") {
			var sb strings.Builder
			for i := intn(t, "n", 1, 20); i > 0; i-- {
				p := rapid.SampledFrom(soupPieces).Draw(t, "p")
				if strings.ContainsAny(p, "#%!") {
					p = " "
				}
				if chance(t, "word", 2, 5) {
					p = "w" + strconv.Itoa(100+len(words)) + "q"
					words = append(words, p)
				}
				sb.WriteString(p)
			}
			src = sb.String()
		} else {
			var doc string
			doc, _, words = wordDoc(t, nil)
			src = mutate(t, doc)
			if strings.ContainsAny(src, "#%!") {
				return
			}
		}
		c.Case("%q", src)
		if missingWord(c, src, words) {
			c.Label("accepted")
			c.Nontrivial(len(words) >= 2)
		}
	})
}
