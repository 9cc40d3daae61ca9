package props

import (
	"errors"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/KSpaceer/yamly"
	gencode "github.com/KSpaceer/yamly/engines/goyaml/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	yencode "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
)

var errMine = errors.New("error of the caller")

// history is a generated sequence of insertions together with what it should build.
type history struct {
	calls []func(yamly.Inserter)
	names []string
	// model
	root  *bnode
	stack []*bnode
	// err says why the history is ill-formed; mine that the error of the caller has to be reported
	err  string
	mine bool
	// canFail allows ill-formed calls
	canFail bool
	plain   bool
	nodes   int
	t       *rapid.T
}

func (h *history) String() string { return strings.Join(h.names, " ") }

func (h *history) add(name string, f func(yamly.Inserter)) {
	h.names, h.calls = append(h.names, name), append(h.calls, f)
}

func (h *history) apply(in yamly.Inserter) {
	for _, f := range h.calls {
		f(in)
	}
}

// place puts a node at the current position of the model.
func (h *history) place(n *bnode, open bool) {
	if h.err != "" {
		return
	}
	h.nodes++
	if len(h.stack) == 0 {
		if h.root != nil {
			h.err = "second root"
			return
		}
		h.root = n
	} else {
		top := h.stack[len(h.stack)-1]
		top.kids = append(top.kids, n)
	}
	if open {
		h.stack = append(h.stack, n)
	}
}

func (h *history) end(kind string) {
	if h.err != "" {
		return
	}
	if len(h.stack) == 0 {
		h.err = "end without start"
		return
	}
	top := h.stack[len(h.stack)-1]
	switch {
	case top.kind != kind:
		h.err = "end of another kind"
	case kind == "map" && len(top.kids)%2 != 0:
		h.err = "key without value"
	default:
		h.stack = h.stack[:len(h.stack)-1]
	}
}

// text draws a text; without quotes no text is drawn that is a string for one schema and something else for another.
func (h *history) text() string {
	x := modelText(h.t, 10)
	if !h.plain {
		return x
	}
	if chance(h.t, "typed", 1, 4) {
		x = pick(h.t, "like", "", "null", "~", "true", "False", "12", "-3", "0x1F", "1.5", "-.inf", ".nan", "2001-12-14", "2001-12-14T21:59:43Z", "<<", "Null", "1e3", "+1", strings.Repeat("7", 70), "-"+strings.Repeat("3", 45)+".5", "0x"+strings.Repeat("f", 64))
	}
	if x == "=" || strings.ContainsAny(x, "\u0085\u2028\u2029") {
		return "x" // a value key and line breaks of YAML 1.1 for yaml.v3
	}
	if !resolvesToString(x) && !oNull(x) && x != "<<" {
		n := yaml.Node{Kind: yaml.ScalarNode, Value: x}
		_, b := oBool(x)
		_, i := oInt(x)
		k, _, _ := oFloat(x)
		if n.ShortTag() == "!!str" != !(b || i || k != 0) {
			return "x" + x
		}
	}
	return x
}

func (h *history) scalar(key bool) {
	t := h.t
	k := intn(t, "scalar", 0, 10)
	if key && k > 2 {
		k = 10
	}
	put := func(v any) { h.place(&bnode{kind: "value", v: v}, false) }
	switch k {
	case 0:
		x := rapid.Int64().Draw(t, "i")
		h.add(fmt.Sprintf("int(%d)", x), func(in yamly.Inserter) { in.InsertInteger(x) })
		put(x)
	case 1:
		x := rapid.Uint64().Draw(t, "u")
		h.add(fmt.Sprintf("uint(%d)", x), func(in yamly.Inserter) { in.InsertUnsigned(x) })
		put(x)
	case 2:
		x := rapid.Bool().Draw(t, "b")
		h.add(fmt.Sprintf("bool(%v)", x), func(in yamly.Inserter) { in.InsertBoolean(x) })
		put(x)
	case 3, 4:
		x := rapid.Float64().Draw(t, "f")
		if chance(t, "special", 1, 3) {
			x = rapid.SampledFrom([]float64{0, math.Copysign(0, -1), 1, -1, 100, math.Inf(1), math.Inf(-1), math.NaN(), 1e21, 0.1, 5e-324, math.MaxFloat64}).Draw(t, "sf")
		}
		h.add(fmt.Sprintf("float(%v)", x), func(in yamly.Inserter) { in.InsertFloat(x) })
		put(x)
	case 5:
		x := time.Unix(rapid.Int64Range(-62135596800, 253402300799).Draw(t, "sec"), rapid.Int64Range(0, 999999999).Draw(t, "ns")).In(
			time.FixedZone("", 60*intn(t, "off", -14*60, 14*60)))
		if y := x.Year(); y < 1 || y > 9999 {
			x = x.UTC()
		}
		h.add("time("+x.Format(time.RFC3339Nano)+")", func(in yamly.Inserter) { in.InsertTimestamp(x) })
		put(x)
	case 6:
		h.add("null", func(in yamly.Inserter) { in.InsertNull() })
		put(nil)
	case 7:
		x := h.text()
		h.add(fmt.Sprintf("rawtext(%q)", x), func(in yamly.Inserter) {
			b := []byte(x)
			in.InsertRawText(b, nil)
			for i := range b {
				b[i] = 'Z' // the builder must not keep the slice
			}
		})
		put(x)
	default:
		x := h.text()
		if chance(t, "long", 1, 50) {
			x = strings.Repeat(pick(t, "piece", "abcdefg ", "x", "é", "a line\n", "\x01"), pick(t, "times", 20, 128, 600, 4100)) + x
		}
		h.add(fmt.Sprintf("string(%q)", x), func(in yamly.Inserter) { in.InsertString(x) })
		put(x)
	}
}

func (h *history) raw() {
	t := h.t
	v := drawValue(t, genOpts{maxDepth: 3, maxItems: 3, maxStr: 6, anchors: chance(t, "rawanchors", 1, 4)})
	r := newRenderer(t)
	r.decor = chance(t, "rawdecor", 1, 3)
	doc := r.document(v)
	var n yaml.Node
	if yaml.Unmarshal([]byte(doc), &n) != nil || n.Kind == 0 {
		return
	}
	h.add(fmt.Sprintf("raw(%q)", doc), func(in yamly.Inserter) {
		b := []byte(doc)
		in.InsertRaw(b, nil)
		for i := range b {
			b[i] = 'Z'
		}
	})
	h.place(&bnode{kind: "value", v: viewGo(&n)}, false)
	h.nodes += v.count() - 1
}

func (h *history) fail() {
	t := h.t
	switch intn(t, "fail", 0, 5) {
	case 0:
		h.add("EndSequence", func(in yamly.Inserter) { in.EndSequence() })
		h.end("seq")
	case 1:
		h.add("EndMapping", func(in yamly.Inserter) { in.EndMapping() })
		h.end("map")
	case 2:
		h.add("raw(error)", func(in yamly.Inserter) { in.InsertRaw([]byte("a: b"), errMine) })
		if h.err == "" {
			h.err, h.mine = "raw with error", true
		}
	case 3:
		h.add("rawtext(error)", func(in yamly.Inserter) { in.InsertRawText([]byte("a"), errMine) })
		if h.err == "" {
			h.err, h.mine = "raw text with error", true
		}
	case 4:
		bad := pick(t, "bad", "[a", "\"x", "{a: b", "- a\nb: c", "a: b: c", "'", "k: [1, 2}", "\"\\q\"", "]")
		h.add(fmt.Sprintf("raw(%q)", bad), func(in yamly.Inserter) { in.InsertRaw([]byte(bad), nil) })
		if h.err == "" {
			h.err = "malformed raw"
		}
	default:
		// nothing after a complete root: an insertion too many
		switch intn(t, "too many", 0, 4) {
		case 0:
			h.add("[", func(in yamly.Inserter) { in.StartSequence() })
			h.place(&bnode{kind: "seq"}, true)
		case 1:
			h.add("{", func(in yamly.Inserter) { in.StartMapping() })
			h.place(&bnode{kind: "map"}, true)
		case 2:
			h.raw()
		default:
			h.scalar(false)
		}
	}
}

// drawBuilders makes a builder of each engine, a quarter of them with unquoted one-line strings.
func drawBuilders(t *rapid.T, c *ctx) (*yencode.ASTBuilder, *gencode.ASTBuilder, bool) {
	if chance(t, "plain", 1, 4) {
		c.Label("unquoted strings")
		return yencode.NewASTBuilder(yencode.WithUnquotedOneLineStrings()), gencode.NewASTBuilder(gencode.WithUnquotedOneLineStrings()), true
	}
	return yencode.NewASTBuilder(), gencode.NewASTBuilder(), false
}

// genHistory draws insertions; well-formed ones unless canFail is set.
func genHistory(t *rapid.T, canFail bool, maxOps int, plain ...bool) *history {
	h := &history{t: t, canFail: canFail, plain: len(plain) > 0 && plain[0]}
	n := intn(t, "ops", 1, maxOps)
	if chance(t, "deep", 1, 40) {
		for i := intn(t, "levels", 5, 40); i > 0; i-- {
			if rapid.Bool().Draw(t, "dseq") {
				h.add("[", func(in yamly.Inserter) { in.StartSequence() })
				h.place(&bnode{kind: "seq"}, true)
			} else {
				h.add("{", func(in yamly.Inserter) { in.StartMapping() })
				h.place(&bnode{kind: "map"}, true)
				h.scalar(true)
			}
		}
	}
	for i := 0; i < n; i++ {
		if canFail && chance(t, "illformed", 1, 12) {
			h.fail()
			continue
		}
		if len(h.stack) == 0 && h.root != nil && h.err == "" {
			break
		}
		inKey := len(h.stack) > 0 && h.stack[len(h.stack)-1].kind == "map" && len(h.stack[len(h.stack)-1].kids)%2 == 0
		k := intn(t, "op", 0, 11)
		if i == 0 && k < 6 {
			k += 6 // mostly collections at the root
		}
		if inKey && k >= 5 && !chance(t, "complexkey", 1, 8) {
			k = 4
			if chance(t, "close", 1, 3) {
				k = 11
			}
		}
		switch {
		case k < 5:
			h.scalar(inKey)
		case k == 5:
			h.raw()
		case k < 8:
			h.add("[", func(in yamly.Inserter) { in.StartSequence() })
			h.place(&bnode{kind: "seq"}, true)
		case k < 10:
			h.add("{", func(in yamly.Inserter) { in.StartMapping() })
			h.place(&bnode{kind: "map"}, true)
		default:
			h.close()
		}
	}
	if h.err == "" && (!canFail || chance(t, "finish", 4, 5)) {
		if h.root == nil {
			h.scalar(false)
		}
		for len(h.stack) > 0 {
			h.close()
		}
	}
	if h.err != "" {
		// what comes after an error must not matter
		for i := intn(t, "after", 0, 3); i > 0; i-- {
			h.scalar(false)
		}
	}
	return h
}

// close ends the innermost collection of the model, completing a pending entry before.
func (h *history) close() {
	if len(h.stack) == 0 || h.err != "" {
		return
	}
	top := h.stack[len(h.stack)-1]
	if top.kind == "map" {
		if len(top.kids)%2 != 0 {
			h.scalar(false)
		}
		h.add("}", func(in yamly.Inserter) { in.EndMapping() })
		h.end("map")
		return
	}
	h.add("]", func(in yamly.Inserter) { in.EndSequence() })
	h.end("seq")
}

func (h *history) complete() bool { return h.err == "" && h.root != nil && len(h.stack) == 0 }

// checkResult compares the result of a builder with the model.
func (h *history) checkResult(c *ctx, name string, view *tview, err error) {
	switch {
	case h.err != "":
		if err == nil {
			c.Failf("%s: no error for an ill-formed history (%s), but %s\nhistory: %s", name, h.err, view, h)
		}
		if h.mine && !errors.Is(err, errMine) {
			c.Failf("%s: the error of the caller is replaced by %v\nhistory: %s", name, err, h)
		}
	case h.complete():
		if err != nil {
			c.Failf("%s: unexpected error %v\nhistory: %s", name, err, h)
		}
		if s := h.root.matches(view, ""); s != "" {
			c.Failf("%s: %s\nhistory: %s", name, s, h)
		}
	}
}

func init() {
	reg("C10", "well-formed", "random well-formed histories of up to 40 insertions (all scalars, raw documents, nested collections, complex keys) given to the builders of both engines: "+
		"the built trees, and the trees read back from their serialization by both parsers, must be the ones of the model; non-trivial: at least three nodes", 100000, 6000000,
		func(t *rapid.T, c *ctx) {
			yb, gb, plain := drawBuilders(t, c)
			h := genHistory(t, false, 40, plain)
			c.Case("%s, plain %v", h, plain)
			c.Nontrivial(h.nodes >= 3)
			h.apply(yb)
			h.apply(gb)
			yt, err := yb.Result()
			h.checkResult(c, "yayamls", viewYay(yt), err)
			gt, err := gb.Result()
			h.checkResult(c, "goyaml", viewGo(gt), err)
			ys, err := yencode.NewASTWriter().WriteString(yt)
			if err != nil {
				c.Failf("yayamls: WriteString: %v", err)
			}
			gs, err := (&gencode.ASTWriter{}).WriteString(gt)
			if err != nil {
				c.Failf("goyaml: WriteString: %v", err)
			}
			for name, s := range map[string]string{"yayamls": ys, "goyaml": gs} {
				var n yaml.Node
				if err := yaml.Unmarshal([]byte(s), &n); err != nil {
					c.Failf("the document of %s is rejected by yaml.v3: %v\n%s", name, err, s)
				}
				h.checkResult(c, name+" serialized, read by yaml.v3", viewGo(&n), nil)
				back, err := parseYay(s)
				if err != nil {
					c.Failf("the document of %s is rejected by yayamls: %v\n%s", name, err, s)
				}
				h.checkResult(c, name+" serialized, read by yayamls", viewYay(back), nil)
			}
		})
	reg("C10", "quotes", "strings (words, sentences, texts like values of other types, several lines) as root, item, key or value, inserted into builders of both engines with and without the option for "+
		"unquoted one-line strings: unquoted exactly for one-line strings with the option that mean no other value, double quoted otherwise; non-trivial: with the option", 20000, 1000000,
		func(t *rapid.T, c *ctx) {
			word := rapid.StringMatching(`[g-m]{2,8}( [g-m]{2,8}){0,2}`)
			type str struct {
				s     string
				plain bool
			}
			draw := func(label string) str {
				switch intn(t, label, 0, 3) {
				case 0:
					return str{pick(t, "typed", "null", "~", "true", "12", "-3", "0x1F", "1.5", "-.inf", ".nan", "2001-12-14", ""), false}
				case 1:
					return str{word.Draw(t, "a") + "\n" + word.Draw(t, "b"), false}
				default:
					return str{word.Draw(t, "w"), true}
				}
			}
			k, v, item := draw("key"), draw("value"), draw("item")
			option := chance(t, "option", 2, 3)
			c.Case("%q: %q, %q, option %v", k.s, v.s, item.s, option)
			c.Nontrivial(option)
			yb, gb := yencode.NewASTBuilder(), gencode.NewASTBuilder()
			if option {
				yb, gb = yencode.NewASTBuilder(yencode.WithUnquotedOneLineStrings()), gencode.NewASTBuilder(gencode.WithUnquotedOneLineStrings())
			}
			for _, b := range []yamly.Inserter{yb, gb} {
				b.StartSequence()
				b.InsertString(item.s)
				b.StartMapping()
				b.InsertString(k.s)
				b.InsertString(v.s)
				b.EndMapping()
				b.EndSequence()
			}
			yt, err := yb.Result()
			if err != nil {
				c.Failf("yayamls: %v", err)
			}
			gt, err := gb.Result()
			if err != nil {
				c.Failf("goyaml: %v", err)
			}
			strs := []str{item, k, v}
			var yq []ast.QuotingType
			var walk func(n ast.Node)
			walk = func(n ast.Node) {
				switch n := n.(type) {
				case *ast.StreamNode:
					for _, d := range n.Documents() {
						walk(d)
					}
				case *ast.SequenceNode:
					for _, e := range n.Entries() {
						walk(e)
					}
				case *ast.MappingNode:
					for _, e := range n.Entries() {
						walk(e)
					}
				case *ast.MappingEntryNode:
					walk(n.Key())
					walk(n.Value())
				case *ast.TextNode:
					yq = append(yq, n.QuotingType())
				}
			}
			walk(yt)
			var gq []yaml.Style
			var gwalk func(n *yaml.Node)
			gwalk = func(n *yaml.Node) {
				if n.Kind == yaml.ScalarNode {
					gq = append(gq, n.Style)
				}
				for _, k := range n.Content {
					gwalk(k)
				}
			}
			gwalk(gt)
			if len(yq) != 3 || len(gq) != 3 {
				c.Failf("%d and %d texts in the trees", len(yq), len(gq))
			}
			for i, x := range strs {
				want := option && x.plain
				if got := yq[i] == ast.AbsentQuotingType; got != want || !got && yq[i] != ast.DoubleQuotingType {
					c.Failf("yayamls: the quoting of %q is %v", x.s, yq[i])
				}
				if got := gq[i] == 0; got != want || !got && gq[i] != yaml.DoubleQuotedStyle {
					c.Failf("goyaml: the style of %q is %v", x.s, gq[i])
				}
			}
		})
	reg("C10", "reused", "two to five random histories, well-formed, unfinished or ill-formed (misplaced ends, keys without value, second roots, failing raw insertions), built one after "+
		"another by the same builder of each engine; non-trivial: at least one ill-formed or unfinished history before another one", 80000, 5000000, func(t *rapid.T, c *ctx) {
		n := intn(t, "histories", 2, 5)
		var hs []*history
		bad := false
		yb, gb, plain := drawBuilders(t, c)
		for i := 0; i < n; i++ {
			hs = append(hs, genHistory(t, chance(t, "canfail", 2, 3), 14, plain))
		}
		c.Case("%v, plain %v", hs, plain)
		var kept []func()
		for i, h := range hs {
			if i > 0 && !hs[i-1].complete() {
				bad = true
			}
			if h.err != "" {
				c.Label(h.err)
			}
			h.apply(yb)
			yt, err := yb.Result()
			h.checkResult(c, "yayamls", viewYay(yt), err)
			h.apply(gb)
			gt, err := gb.Result()
			h.checkResult(c, "goyaml", viewGo(gt), err)
			if h.complete() {
				ys, gs := viewYay(yt).String(), viewGo(gt).String()
				kept = append(kept, func() {
					if s := viewYay(yt).String(); s != ys {
						c.Failf("yayamls: a tree built before changed from %s to %s", ys, s)
					}
					if s := viewGo(gt).String(); s != gs {
						c.Failf("goyaml: a tree built before changed from %s to %s", gs, s)
					}
				})
			}
		}
		c.Nontrivial(bad)
		for _, f := range kept {
			f()
		}
		// nothing was inserted since the last result
		if n, err := yb.Result(); ast.ValidNode(n) || err != nil {
			c.Failf("yayamls: an empty history gives %s, %v", viewYay(n), err)
		}
		if n, err := gb.Result(); n != nil || err != nil {
			c.Failf("goyaml: an empty history gives %s, %v", viewGo(n), err)
		}
	})
	reg("C10", "raw documents", "raw insertions of streams of zero to three documents at a random place: none is a null or an error, several are an error (yayamls); non-trivial: not one document",
		20000, 1000000, func(t *rapid.T, c *ctx) {
			n := intn(t, "n", 0, 3)
			src := pick(t, "pre", "", "# c\n", "\n", " \n")
			for i := 0; i < n; i++ {
				if i > 0 {
					src += "---\n"
				}
				src += pick(t, "doc", "a\n", "- a\n- b\n", "k: v\n", "[x]\n", "\"q\"\n")
			}
			where := intn(t, "where", 0, 2)
			c.Case("%d %q", where, src)
			c.Nontrivial(n != 1)
			for _, e := range engines {
				if n > 1 && e.name == "goyaml" {
					continue // yaml.v3 reads the first document
				}
				enc := e.encoder()
				switch where {
				case 1:
					enc.StartSequence()
				case 2:
					enc.StartMapping()
					enc.InsertString("k")
				}
				enc.InsertRaw([]byte(src), nil)
				switch where {
				case 1:
					enc.EndSequence()
				case 2:
					enc.EndMapping()
				}
				s, err := enc.EncodeToString()
				if err != nil {
					if n == 1 {
						c.Failf("%s: %v", e.name, err)
					}
					continue
				}
				if n > 1 {
					c.Failf("%s: several documents inserted as %q", e.name, s)
				}
				got, err := v3Any([]byte(s))
				if err != nil {
					c.Failf("%s: %q is not valid: %v", e.name, s, err)
				}
				var want any
				if n == 1 {
					want, _ = v3Any([]byte(src))
				}
				switch where {
				case 1:
					want = []any{want}
				case 2:
					want = map[string]any{"k": want}
				}
				if !same(got, want) {
					c.Failf("%s: %q is %s, want %s", e.name, s, show(got), show(want))
				}
			}
		})
}
