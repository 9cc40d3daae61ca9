package props

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

func featureLabels(c *ctx, r *renderer) {
	fs := make([]string, 0, len(r.features))
	for f := range r.features {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		c.Label(f)
	}
}

// checkDoc compares what both engines read with the value of the model.
func checkDoc(c *ctx, doc string, want any, es ...engine) {
	for _, e := range es {
		got, err := anyOf(e, []byte(doc))
		if err != nil {
			c.Failf("%s: %v\nwant %s", e.name, err, show(want))
		}
		if !same(norm(got), want) {
			c.Failf("%s reads %s\nwant %s", e.name, show(norm(got)), show(want))
		}
	}
}

func init() {
	reg("C06", "styles", "random values rendered in randomly mixed styles (block, flow, compact, explicit keys, plain, quoted, literal, folded, multi-line, "+
		"any indentation); both engines' Any must give the value of the model; non-trivial: at least three nodes",
		250000, 20000000, func(t *rapid.T, c *ctx) {
			v := drawValue(t, genOpts{maxDepth: 4, maxItems: 4, maxStr: 8})
			r := newRenderer(t)
			doc := r.document(v)
			c.Case("%s", doc)
			c.Nontrivial(v.count() >= 3)
			featureLabels(c, r)
			checkDoc(c, doc, v.toAny(), goEngine, yayEngine)
		})
	reg("C06", "flow", "random values in flow style only, with empty values whose colon is directly followed by a flow indicator ({a:, b:}), which yaml.v3 takes as part of a plain key; yayamls' Any must give the value of the model; "+
		"non-trivial: at least three nodes",
		40000, 3000000, func(t *rapid.T, c *ctx) {
			v := drawValue(t, genOpts{maxDepth: 3, maxItems: 4, maxStr: 5})
			r := newRenderer(t)
			r.onlyFlow, r.bareColons, r.keyBreaks = true, true, true
			r.spec = rapid.Bool().Draw(t, "spec")
			r.decor = chance(t, "decor", 1, 3)
			doc := r.document(v)
			c.Case("%s", doc)
			c.Nontrivial(v.count() >= 3)
			featureLabels(c, r)
			checkDoc(c, doc, v.toAny(), yayEngine)
		})
	reg("C06", "unended", "documents which end within the last line of a literal or folded scalar, without a final line break, whatever the chomping: both engines give the lines of the model "+
		"without a line break at the end; non-trivial: several lines", 20000, 1000000, func(t *rapid.T, c *ctx) {
		lines := rapid.SliceOfN(rapid.Custom(wordText), 1, 4).Draw(t, "lines")
		literal := rapid.Bool().Draw(t, "literal")
		head, sep := ">", " "
		if literal {
			head, sep = "|", "\n"
		}
		ind := intn(t, "ind", 1, 4)
		chomp := pick(t, "chomp", "", "-", "+")
		switch intn(t, "indicator", 0, 3) {
		case 0:
			head += chomp + fmt.Sprint(ind)
		case 1:
			head += fmt.Sprint(ind) + chomp
		default:
			head += chomp
		}
		want := lines[0]
		before, outer := "", 0
		wrap := func(x any) any { return map[string]any{"k": x} }
		switch intn(t, "place", 0, 3) {
		case 0:
			before = "k: "
		case 1:
			before, wrap = "- 1\n- ", func(x any) any { return []any{norm(1), x} }
		case 2:
			before, outer, wrap = "a:\n  b: ", 2, func(x any) any { return map[string]any{"a": map[string]any{"b": x}} }
		default:
			before, outer, wrap = "- k: ", 2, func(x any) any { return []any{map[string]any{"k": x}} }
		}
		doc := before + head + "\n"
		margin := strings.Repeat(" ", outer+ind)
		for i, l := range lines {
			if i > 0 {
				doc += "\n"
				if e := intn(t, "empty", 0, 5) - 3; e > 0 {
					doc += strings.Repeat("\n", e)
					want += strings.Repeat("\n", e)
					if literal {
						want += "\n"
					}
				} else {
					want += sep
				}
				want += l
			}
			doc += margin + l
		}
		c.Case("%q", doc)
		c.Nontrivial(len(lines) > 1)
		checkDoc(c, doc, wrap(want), goEngine, yayEngine)
	})
	reg("C06", "large", "the same with bigger values (up to 8 levels, 12 items, texts of 60 characters); non-trivial: at least 40 nodes", 6000, 400000,
		func(t *rapid.T, c *ctx) {
			v := drawValue(t, genOpts{maxDepth: 8, maxItems: 12, maxStr: 60, maxNodes: 400})
			r := newRenderer(t)
			doc := r.document(v)
			c.Case("%s", doc)
			c.Nontrivial(v.count() >= 40)
			checkDoc(c, doc, v.toAny(), goEngine, yayEngine)
		})
	reg("C06", "deep", "chains of 10 to 60 nested collections in flow or block style with siblings before and after; non-trivial: always", 2000, 100000,
		func(t *rapid.T, c *ctx) {
			depth := intn(t, "depth", 10, 60)
			v := &val{kind: vStr, s: wordText(t)}
			for i := 0; i < depth; i++ {
				sib := func() *val { return &val{kind: vInt, u: uint64(i)} }
				if rapid.Bool().Draw(t, "seq") {
					w := &val{kind: vSeq}
					if chance(t, "before", 1, 4) {
						w.seq = append(w.seq, sib())
					}
					w.seq = append(w.seq, v)
					if chance(t, "after", 1, 4) {
						w.seq = append(w.seq, sib())
					}
					v = w
				} else {
					w := &val{kind: vMap}
					if chance(t, "before", 1, 4) {
						w.ents = append(w.ents, entry{key: "b", v: sib()})
					}
					w.ents = append(w.ents, entry{key: "k", v: v})
					if chance(t, "after", 1, 4) {
						w.ents = append(w.ents, entry{key: "z", v: sib()})
					}
					v = w
				}
			}
			r := newRenderer(t)
			r.multiline = false
			switch intn(t, "style", 0, 2) {
			case 0:
				r.onlyFlow = true
			case 1:
				r.onlyBlock = true
			}
			doc := r.document(v)
			c.Case("%s", doc)
			c.Nontrivial(true)
			checkDoc(c, doc, v.toAny(), goEngine, yayEngine)
		})
	reg("C06", "wide", "collections of up to 600 items and texts of up to 5000 characters; non-trivial: more than 100 items or 1000 characters", 400, 20000,
		func(t *rapid.T, c *ctx) {
			var v *val
			n := intn(t, "n", 1, 600)
			x := uint64(intn(t, "x", 1, 1<<30))
			next := func() uint64 { x = x*6364136223846793005 + 1442695040888963407; return x >> 33 }
			word := func() string { return strings.Repeat(string(rune('a'+next()%26)), int(1+next()%9)) }
			leaf := func() *val {
				switch next() % 3 {
				case 0:
					return &val{kind: vInt, u: next()}
				case 1:
					return &val{kind: vStr, s: word() + " " + word()}
				default:
					return &val{kind: vStr, s: word()}
				}
			}
			switch intn(t, "what", 0, 2) {
			case 0:
				v = &val{kind: vSeq}
				for i := 0; i < n; i++ {
					v.seq = append(v.seq, leaf())
				}
			case 1:
				v = &val{kind: vMap}
				for i := 0; i < n; i++ {
					v.ents = append(v.ents, entry{key: fmt.Sprintf("k%d", i), v: leaf()})
				}
			default:
				var ws []string
				for i := 0; i < n; i++ {
					ws = append(ws, word())
				}
				v = &val{kind: vMap, ents: []entry{{key: "a", v: &val{kind: vStr, s: strings.Join(ws, pick(t, "sep", " ", "\n", ", ", "'\"\\"))}}, {key: "b", v: leaf()}}}
			}
			r := newRenderer(t)
			if n > 100 {
				r.onlyFlow = rapid.Bool().Draw(t, "flow")
			}
			doc := r.document(v)
			c.Case("%s", doc)
			c.Nontrivial(n > 100)
			checkDoc(c, doc, v.toAny(), goEngine, yayEngine)
		})
}
