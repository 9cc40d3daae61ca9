package props

import (
	"fmt"
	"strings"

	"github.com/KSpaceer/yamly"
	gdecode "github.com/KSpaceer/yamly/engines/goyaml/decode"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	ydecode "github.com/KSpaceer/yamly/engines/yayamls/decode"
	yencode "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
)

func init() {
	reg("C15", "one subtree", "random documents with anchors and aliases, in random styles with comments, read by a plan that mixes skips, generic, raw, tree and typed reads at every level (keys included), by both engines: "+
		"every read sees exactly its node, raw YAML alone denotes the value for the engine and for yaml.v3, the source tree is unchanged, then the stream ends; non-trivial: two kinds of whole-subtree reads",
		120000, 8000000, func(t *rapid.T, c *ctx) {
			v := drawValue(t, genOpts{maxDepth: 4, maxItems: 5, maxStr: 6, anchors: rapid.Bool().Draw(t, "anchors")})
			r := newRenderer(t)
			r.decor = chance(t, "decor", 1, 3)
			doc := r.document(v)
			p := planFor(t, v, planOpts{typedW: 4, anyW: 1, skipW: 1, rawW: 1, nodeW: 1}, false)
			ends := drawReads(t, 2)
			c.Case("%s\nreads: %s then %v", doc, p, ends)
			k := 0
			for _, h := range []string{"any", "skip", "raw", "node"} {
				if p.has(h) {
					c.Label(h)
					k++
				}
			}
			c.Nontrivial(k >= 2)
			walkDoc(c, doc, p, ends, engines...)
		})
	reg("C15", "siblings", "a sequence or mapping of two to eight subtrees of any content, each of the first read whole (skip, generic, raw or tree), the last by typed reads; non-trivial: at least 10 nodes",
		40000, 3000000, func(t *rapid.T, c *ctx) {
			n := intn(t, "n", 2, 8)
			g := &vgen{t: t, o: genOpts{maxDepth: 3, maxItems: 4, maxStr: 5, anchors: true, maxNodes: 80}}
			v := &val{kind: vSeq}
			isMap := rapid.Bool().Draw(t, "map")
			if isMap {
				v.kind = vMap
			}
			s := &step{v: v, how: "typed"}
			for i := 0; i < n; i++ {
				e := g.value(3)
				o := planOpts{anyW: 1, skipW: 1, rawW: 1, nodeW: 1}
				if i == n-1 {
					o = planOpts{typedW: 1}
				}
				p := planFor(t, e, o, false)
				if isMap {
					k := fmt.Sprintf("k%d", i)
					v.ents = append(v.ents, entry{key: k, v: e})
					s.kids = append(s.kids, &step{v: &val{kind: vStr, s: k}, how: "typed", key: true})
				} else {
					v.seq = append(v.seq, e)
				}
				s.kids = append(s.kids, p)
			}
			r := newRenderer(t)
			doc := r.document(v)
			ends := drawReads(t, 2)
			c.Case("%s\nreads: %s then %v", doc, s, ends)
			c.Nontrivial(v.count() >= 10)
			walkDoc(c, doc, s, ends, engines...)
		})
	reg("C15", "any keys", "sequences of two to five random trees (anchors, aliases, tags, and collections, aliases, nulls and long texts as keys), read item by item as raw YAML, as a tree, "+
		"or skipped, by both engines: raw YAML and trees, taken alone, are the item with its aliases resolved; non-trivial: ten nodes and two raw items",
		60000, 4000000, func(t *rapid.T, c *ctx) {
			g := &treeGen{t: t, maxStr: 5, tags: chance(t, "tags", 1, 3), feats: map[string]bool{}}
			var items []ast.Node
			var how []string
			raws := 0
			for i := intn(t, "n", 2, 5); i > 0; i-- {
				g.nodes = 0
				items = append(items, g.node(3))
				how = append(how, pick(t, "how", "raw", "raw", "node", "skip"))
				if how[len(how)-1] == "raw" {
					raws++
				}
			}
			doc, err := yencode.NewASTWriter().WriteString(ast.NewSequenceNode(items))
			if err != nil {
				c.Failf("WriteString: %v", err)
			}
			c.Case("%s\nreads: %v", doc, how)
			c.Nontrivial(len(doc) > 40 && raws >= 2)
			for f := range g.feats {
				c.Label(f)
			}
			anchors := map[string]*tview{}
			var want []string
			for _, it := range items {
				want = append(want, viewYay(it).resolved(anchors).String())
			}
			alone := func(e engine, i int, raw []byte) {
				var n yaml.Node
				if err := yaml.Unmarshal(raw, &n); err != nil {
					c.Failf("%s: raw %q of item %d is not YAML for yaml.v3: %v", e.name, raw, i, err)
				}
				if got := viewGo(&n).resolved(map[string]*tview{}).String(); got != want[i] {
					c.Failf("%s: raw %q of item %d is, by yaml.v3, %s, want %s", e.name, raw, i, got, want[i])
				}
				tree, err := parseYay(string(raw))
				if err != nil {
					c.Failf("%s: raw %q of item %d is rejected: %v", e.name, raw, i, err)
				}
				if got := viewYay(tree).resolved(map[string]*tview{}).String(); got != want[i] {
					c.Failf("%s: raw %q of item %d is %s, want %s", e.name, raw, i, got, want[i])
				}
			}
			for _, e := range engines {
				var r yamly.Decoder
				var node func(i int)
				if e.name == "yayamls" {
					tree, err := parseYay(doc)
					if err != nil {
						c.Failf("rejected: %v", err)
					}
					yr := ydecode.NewASTReader(tree)
					r = yr
					node = func(i int) {
						n := yr.Node()
						if n == nil {
							c.Failf("no tree: %v", yr.Error())
						}
						if got := viewYay(n).resolved(anchors).String(); got != want[i] {
							c.Failf("yayamls: the tree of item %d is %s, want %s", i, got, want[i])
						}
					}
				} else {
					var n yaml.Node
					if err := yaml.Unmarshal([]byte(doc), &n); err != nil {
						c.Failf("rejected by yaml.v3: %v", err)
					}
					gr := gdecode.NewASTReader(&n)
					r = gr
					node = func(i int) {
						n := gr.Node()
						if n == nil {
							c.Failf("no tree: %v", gr.Error())
						}
						if got := viewGo(n).resolved(anchors).String(); got != want[i] {
							c.Failf("goyaml: the tree of item %d is %s, want %s", i, got, want[i])
						}
					}
				}
				st := r.Sequence()
				if st.Size() != len(items) {
					c.Failf("%s: size %d, want %d (%v)", e.name, st.Size(), len(items), r.Error())
				}
				for i := range items {
					if !st.HasUnprocessedItems() {
						c.Failf("%s: no item %d (%v)", e.name, i, r.Error())
					}
					switch how[i] {
					case "raw":
						raw := r.Raw()
						if r.Error() != nil {
							c.Failf("%s: item %d: %v", e.name, i, r.Error())
						}
						alone(e, i, raw)
					case "node":
						node(i)
					default:
						r.Skip()
					}
					if r.Error() != nil {
						c.Failf("%s: item %d: %v", e.name, i, r.Error())
					}
				}
				if st.HasUnprocessedItems() {
					c.Failf("%s: more than %d items", e.name, len(items))
				}
			}
		})
	reg("C15", "raw stability", "the raw YAML of a subtree read raw again from the raw document, three times: always the same value, and the returned bytes are not changed by later reads; non-trivial: at least three nodes",
		30000, 2000000, func(t *rapid.T, c *ctx) {
			v := drawValue(t, genOpts{maxDepth: 4, maxItems: 4, maxStr: 8, anchors: rapid.Bool().Draw(t, "anchors")})
			r := newRenderer(t)
			doc := r.document(v)
			c.Case("%s", doc)
			c.Nontrivial(v.count() >= 3)
			for _, e := range engines {
				src := []byte(doc)
				var raws [][]byte
				var copies []string
				for i := 0; i < 3; i++ {
					x, changed := newRunner(c, e, string(src))
					raw := x.r.Raw()
					x.ok("Raw")
					x.checkRaw(raw, &step{}, v.toAny())
					if d := changed(); d != "" {
						c.Failf("%s: reading changed the tree\n%s", e.name, d)
					}
					raws, copies = append(raws, raw), append(copies, string(raw))
					src = raw
				}
				for i := range raws {
					if string(raws[i]) != copies[i] {
						c.Failf("%s: raw bytes changed from %q to %q", e.name, copies[i], raws[i])
					}
				}
			}
		})
}

func init() {
	reg("C15", "redefined anchors", "documents whose nodes at any depth are anchored with one of four names, so that the raw YAML of a part needs values anchored elsewhere under names it anchors itself, or anchored twice; "+
		"mostly raw reads (yayamls: only documents where the values of aliases contain no name anchored twice, see known-findings.txt); non-trivial: an alias to a name anchored at least twice",
		30000, 2000000, func(t *rapid.T, c *ctx) {
			v, g := redefined(t)
			doc := newRenderer(t).document(v)
			p := planFor(t, v, planOpts{typedW: 3, anyW: 0, skipW: 1, rawW: 4, nodeW: 0}, false)
			c.Case("%s\nreads: %s", doc, p)
			c.Nontrivial(g.redefinedUse)
			walkDoc(c, doc, p, drawReads(t, 1), g.engines(v)...)
		})
}

func init() {
	reg("C16", "aliases", "random documents in which most collections contain anchored nodes and aliases to earlier ones (values and keys), read by a random plan (typed, generic, raw, tree, skip) by both engines: "+
		"aliases read as their anchored value wherever and however that was read before; non-trivial: at least two aliases",
		120000, 8000000, func(t *rapid.T, c *ctx) {
			v := drawValue(t, genOpts{maxDepth: 4, maxItems: 6, maxStr: 4, anchors: true, maxNodes: 60})
			r := newRenderer(t)
			r.decor = chance(t, "decor", 1, 5)
			doc := r.document(v)
			p := planFor(t, v, planOpts{typedW: 6, anyW: 1, skipW: 1, rawW: 1, nodeW: 1}, false)
			ends := drawReads(t, 2)
			c.Case("%s\nreads: %s then %v", doc, p, ends)
			c.Nontrivial(aliases(v) >= 2)
			walkDoc(c, doc, p, ends, engines...)
		})
	reg("C16", "many", "a collection of up to 80 anchored values (nested up to three levels, nulls and keys among them), then up to 12 aliases to any of them, read by a random plan: the aliases read as their values, "+
		"however the collection was read; non-trivial: more than 20 anchors and two aliases",
		6000, 400000, func(t *rapid.T, c *ctx) {
			var all []*val
			left := intn(t, "n", 1, 80)
			var fill func(depth int) *val
			fill = func(depth int) *val {
				v := &val{kind: pick(t, "kind", vSeq, vMap)}
				for i, n := 0, intn(t, "items", 1, 40); i < n && left > 0; i++ {
					left--
					e := &val{kind: vNull}
					switch {
					case depth > 0 && chance(t, "nest", 1, 12):
						e = fill(depth - 1)
					case !chance(t, "null", 1, 6):
						e = &val{kind: vInt, u: uint64(len(all))}
					}
					x := entry{key: fmt.Sprintf("k%d", i), v: e}
					if v.kind == vMap && chance(t, "key", 1, 6) {
						x.keyAnchor = fmt.Sprintf("n%d", len(all))
						all = append(all, &val{kind: vStr, s: x.key, anchor: x.keyAnchor})
					}
					if !chance(t, "bare", 1, 4) {
						e.anchor = fmt.Sprintf("n%d", len(all))
						all = append(all, e)
					}
					v.seq, v.ents = append(v.seq, e), append(v.ents, x)
				}
				if v.kind == vSeq {
					v.ents = nil
				} else {
					v.seq = nil
				}
				return v
			}
			v := &val{kind: vSeq, seq: []*val{fill(2)}}
			uses := 0
			if len(all) > 0 {
				uses = intn(t, "uses", 1, 12)
			}
			for i := 0; i < uses; i++ {
				v.seq = append(v.seq, &val{kind: vAlias, target: all[intn(t, "target", 0, len(all)-1)]})
			}
			r := newRenderer(t)
			doc := r.document(v)
			p := planFor(t, v, planOpts{typedW: 3, anyW: 1, skipW: 1, rawW: 1, nodeW: 1}, false)
			c.Case("%s\nreads: %s", doc, p)
			c.Nontrivial(len(all) > 20 && uses >= 2)
			walkDoc(c, doc, p, drawReads(t, 1), engines...)
		})
	reg("C16", "merges", "random documents with merge keys anywhere among the entries (one mapping, an alias, a list of both; merged mappings merging others), keys drawn from a small set so that they collide, "+
		"read generically and raw by both engines: the mapping has its own entries and those of the merged mappings that are missing, earlier merged ones first; differential with yaml.v3's own decoding; "+
		"non-trivial: at least one merge key",
		100000, 8000000, func(t *rapid.T, c *ctx) {
			v := drawValue(t, genOpts{maxDepth: 4, maxItems: 6, maxStr: 3, anchors: true, merges: true, maxNodes: 60})
			r := newRenderer(t)
			r.noExplicit = true
			doc := r.document(v)
			c.Case("%s", doc)
			c.Nontrivial(merges(v) > 0)
			want := v.toAny()
			checkDoc(c, doc, want, engines...)
			for _, e := range engines {
				x, changed := newRunner(c, e, doc)
				raw := x.r.Raw()
				x.ok("Raw")
				got, err := anyOf(e, raw)
				if err != nil || !same(norm(got), want) {
					c.Failf("%s: raw %q reads as %s, %v; want %s", e.name, raw, show(norm(got)), err, show(want))
				}
				if d := changed(); d != "" {
					c.Failf("%s: reading changed the tree\n%s", e.name, d)
				}
			}
		})
	reg("C16", "merges in parts", "the same documents where typed reads lead to the mappings, some of the anchored nodes having been skipped, read raw or generically before; non-trivial: a merge key and three reads",
		60000, 4000000, func(t *rapid.T, c *ctx) {
			v := drawValue(t, genOpts{maxDepth: 4, maxItems: 6, maxStr: 3, anchors: true, merges: true, maxNodes: 60})
			r := newRenderer(t)
			r.noExplicit = true
			doc := r.document(v)
			p := planFor(t, v, planOpts{typedW: 3, anyW: 2, skipW: 1, rawW: 1, nodeW: 1}, false)
			p.noTypedMerges()
			c.Case("%s\nreads: %s", doc, p)
			c.Nontrivial(merges(v) > 0 && p.count() >= 3)
			walkDoc(c, doc, p, drawReads(t, 1), engines...)
		})
	reg("C16", "redefined", "sequences of anchored values and aliases with only three anchor names (two of them different only in case), so that anchors are redefined again and again, read by a random plan: an alias is the value most recently anchored; "+
		"non-trivial: an alias to a redefined anchor",
		40000, 3000000, func(t *rapid.T, c *ctx) {
			n := intn(t, "n", 2, 10)
			latest := map[string]*val{}
			defs := map[string]int{}
			v := &val{kind: vSeq}
			isMap := rapid.Bool().Draw(t, "map")
			redefined := false
			for i := 0; i < n; i++ {
				name := pick(t, "name", "a", "A", "b")
				if cur := latest[name]; cur != nil && rapid.Bool().Draw(t, "use") {
					v.seq = append(v.seq, &val{kind: vAlias, target: cur})
					redefined = redefined || defs[name] > 1
					continue
				}
				g := &vgen{t: t, o: genOpts{maxItems: 3, maxStr: 4}}
				e := g.value(2)
				e.anchor = name
				latest[name] = e
				defs[name]++
				v.seq = append(v.seq, e)
			}
			if isMap {
				m := &val{kind: vMap}
				for i, e := range v.seq {
					m.ents = append(m.ents, entry{key: fmt.Sprintf("k%d", i), v: e})
				}
				v = m
			}
			r := newRenderer(t)
			doc := r.document(v)
			p := planFor(t, v, planOpts{typedW: 4, anyW: 1, skipW: 1, rawW: 1, nodeW: 1}, false)
			c.Case("%s\nreads: %s", doc, p)
			c.Nontrivial(redefined)
			walkDoc(c, doc, p, drawReads(t, 1), engines...)
		})
	reg("C16", "redefined inside", "random documents in which nodes at any depth (keys too) are anchored with one of four names, so that anchors are redefined inside and outside of nodes that aliases refer to, read by a random plan: "+
		"an alias is the value most recently anchored before it in the document, also when it is read as part of another alias's value (yayamls: only documents where the values of aliases contain no name anchored twice, see known-findings.txt); "+
		"non-trivial: an alias to a name anchored at least twice",
		60000, 4000000, func(t *rapid.T, c *ctx) {
			v, g := redefined(t)
			doc := newRenderer(t).document(v)
			p := planFor(t, v, planOpts{typedW: 4, anyW: 1, skipW: 1, rawW: 2, nodeW: 0}, false)
			c.Case("%s\nreads: %s", doc, p)
			c.Nontrivial(g.redefinedUse)
			walkDoc(c, doc, p, drawReads(t, 1), g.engines(v)...)
		})
	reg("C16", "unknown", "documents with an alias whose name is anchored nowhere or only later, at a random place (value, item, key, merge value): reading generically, raw or by typed reads reports an error, never a value, "+
		"in both engines; non-trivial: always",
		30000, 2000000, func(t *rapid.T, c *ctx) {
			g := &vgen{t: t, o: genOpts{maxItems: 3, maxStr: 3, anchors: true, maxNodes: 30}}
			ghost := &val{kind: vStr, s: "ghost", anchor: pick(t, "gname", "ghost", "later", "z")}
			bad := &val{kind: vAlias, target: ghost}
			v := &val{kind: vSeq}
			for i := intn(t, "before", 0, 3); i > 0; i-- {
				v.seq = append(v.seq, g.value(2))
			}
			switch intn(t, "wrap", 0, 4) {
			case 0:
				v.seq = append(v.seq, bad)
			case 1:
				v.seq = append(v.seq, &val{kind: vSeq, seq: []*val{g.value(1), bad}})
			case 2:
				v.seq = append(v.seq, &val{kind: vMap, ents: []entry{{key: "a", v: g.value(1)}, {key: "b", v: bad}}})
			case 3:
				v.seq = append(v.seq, &val{kind: vMap, ents: []entry{{key: "ghost", keyAlias: ghost, v: g.value(1)}}})
			default:
				v.seq = append(v.seq, &val{kind: vMap, ents: []entry{{key: "<<", merge: true, v: bad}}})
			}
			if rapid.Bool().Draw(t, "later") {
				v.seq = append(v.seq, ghost)
			}
			r := newRenderer(t)
			r.noExplicit = true
			doc := r.document(v)
			how := pick(t, "how", "Any", "Raw", "typed")
			c.Case("%s\nread: %s", doc, how)
			c.Nontrivial(true)
			for _, e := range engines {
				d, err := e.reader([]byte(doc))
				if err != nil {
					continue // refused when parsed
				}
				var got any
				switch how {
				case "Any":
					got = d.Any()
				case "Raw":
					got = string(d.Raw())
				default:
					s := &schema{kind: "seq", elem: &schema{kind: "any"}}
					steps := 1000
					got = s.decode(d, &steps)
				}
				if d.Error() == nil {
					c.Failf("%s: no error, read %s", e.name, show(got))
				}
			}
		})
	reg("C16", "self", "documents with an anchored collection that contains an alias to itself, directly or through further collections and aliases: reading generically or raw ends with an error (raw YAML may keep the anchor and the alias, and then is refused itself when read generically); non-trivial: always",
		20000, 1000000, func(t *rapid.T, c *ctx) {
			depth := intn(t, "depth", 0, 4)
			name := pick(t, "name", "a", "self")
			open, close := "", ""
			put := func(o, cl string) { open += o; close = cl + close }
			for i := intn(t, "outer", 0, 2); i > 0; i-- {
				put(pick(t, "o", "[1, ", "[", "{x: 1, y: "), "")
				if strings.HasSuffix(open, "y: ") {
					close = "}" + close
				} else {
					close = "]" + close
				}
			}
			put("&"+name+" ", "")
			for i := 0; i <= depth; i++ {
				if rapid.Bool().Draw(t, "seq") {
					put(pick(t, "s", "[", "[p, "), pick(t, "s2", "]", ", q]"))
				} else {
					put(pick(t, "m", "{k: ", "{j: 1, k: "), pick(t, "m2", "}", ", l: 2}"))
				}
			}
			doc := open + "*" + name + " " + close
			if rapid.Bool().Draw(t, "nl") {
				doc += "\n"
			}
			how := pick(t, "how", "Any", "Raw", "items")
			c.Case("%s\nread: %s", doc, how)
			c.Nontrivial(true)
			for _, e := range engines {
				d, err := e.reader([]byte(doc))
				if err != nil {
					continue
				}
				var got any
				switch how {
				case "Any":
					got = d.Any()
				case "Raw":
					got = string(d.Raw())
				default: // enter the outermost collection first
					if strings.HasPrefix(strings.TrimPrefix(doc, "&"+name+" "), "[") {
						for st := d.Sequence(); st.HasUnprocessedItems(); {
							got = d.Any()
						}
					} else {
						for st := d.Mapping(); st.HasUnprocessedItems(); {
							d.String()
							got = d.Any()
						}
					}
				}
				if d.Error() == nil {
					// raw YAML with both the anchor and the alias is as it was in the document
					if raw, ok := got.(string); ok && how == "Raw" {
						if v, err := anyOf(e, []byte(raw)); err == nil {
							c.Failf("%s: raw %q is read as %T", e.name, raw, v)
						}
						continue
					}
					c.Failf("%s: no error, read %T", e.name, got)
				}
			}
		})
}

func aliases(v *val) int {
	n := 0
	if v.kind == vAlias {
		n++
	}
	for _, e := range v.seq {
		n += aliases(e)
	}
	for _, e := range v.ents {
		if e.keyAlias != nil {
			n++
		}
		n += aliases(e.v)
	}
	return n
}

func merges(v *val) int {
	n := 0
	for _, e := range v.seq {
		n += merges(e)
	}
	for _, e := range v.ents {
		if e.merge {
			n++
		}
		n += merges(e.v)
	}
	return n
}

// noTypedMerges reads mappings with merge keys generically: typed reads see the merge key itself.
func (s *step) noTypedMerges() {
	if s.how == "typed" {
		for _, e := range s.v.deref().ents {
			if e.merge {
				s.how, s.kids = "any", nil
				return
			}
		}
	}
	for _, k := range s.kids {
		k.noTypedMerges()
	}
}

// redefGen generates documents with few anchor names.
type redefGen struct {
	t            *rapid.T
	latest       map[string]*val
	defs         map[string]int
	open         map[string]int // nodes being generated which have the name
	redefinedUse bool
}

func (g *redefGen) value(depth int) *val {
	t := g.t
	name := pick(t, "name", "a", "A", "b", "ab")
	if cur := g.latest[name]; cur != nil && g.open[name] == 0 && chance(t, "use", 2, 5) {
		g.redefinedUse = g.redefinedUse || g.defs[name] > 1
		return &val{kind: vAlias, target: cur}
	}
	anchored := chance(t, "anchored", 3, 5)
	if anchored {
		g.open[name]++
		g.defs[name]++
	}
	v := &val{}
	switch k := intn(t, "kind", 0, 4); {
	case depth == 0 || k < 2:
		v = pick(t, "scalar", &val{kind: vInt, u: uint64(g.defs["a"])}, &val{kind: vStr, s: fmt.Sprint("s", g.defs["b"], g.defs["A"])}, &val{kind: vBool, b: true}, &val{kind: vStr, s: ""})
		w := *v
		v = &w
	case k == 2:
		v.kind = vSeq
		for i := intn(t, "items", 0, 3); i > 0; i-- {
			v.seq = append(v.seq, g.value(depth-1))
		}
	default:
		v.kind = vMap
		for i := intn(t, "entries", 0, 3); i > 0; i-- {
			e := entry{key: fmt.Sprint("k", i)}
			if n := pick(t, "kname", "a", "A", "b", "ab"); g.open[n] == 0 && chance(t, "keyanchor", 1, 4) {
				e.keyAnchor = n
				g.defs[n]++
				g.latest[n] = &val{kind: vStr, s: e.key, anchor: n}
			}
			e.v = g.value(depth - 1)
			v.ents = append(v.ents, e)
		}
	}
	if anchored {
		g.open[name]--
		v.anchor = name
		// a redefinition inside of the node comes later in the document
		if g.latest[name] == nil || !contains(v, g.latest[name]) {
			g.latest[name] = v
		}
	}
	return v
}

func contains(v, x *val) bool {
	if v == x {
		return true
	}
	for _, e := range v.seq {
		if contains(e, x) {
			return true
		}
	}
	for _, e := range v.ents {
		if e.keyAnchor != "" && e.keyAnchor == x.anchor || contains(e.v, x) {
			return true
		}
	}
	return false
}

// ambiguous tells if the value of an alias contains an anchor or alias whose name is anchored more than once.
func (g *redefGen) ambiguous(v *val) bool {
	if v.kind == vAlias {
		return g.multiple(v.target)
	}
	for _, e := range v.seq {
		if g.ambiguous(e) {
			return true
		}
	}
	for _, e := range v.ents {
		if g.ambiguous(e.v) {
			return true
		}
	}
	return false
}

func (g *redefGen) multiple(v *val) bool {
	for _, e := range v.seq {
		if g.names(e) || g.multiple(e) {
			return true
		}
	}
	for _, e := range v.ents {
		if g.defs[e.keyAnchor] > 1 || g.names(e.v) || g.multiple(e.v) {
			return true
		}
	}
	return v.kind == vAlias && g.multiple(v.target)
}

func (g *redefGen) names(v *val) bool {
	return g.defs[v.anchor] > 1 || v.kind == vAlias && g.defs[v.target.anchor] > 1
}

func redefined(t *rapid.T) (*val, *redefGen) {
	g := &redefGen{t: t, latest: map[string]*val{}, defs: map[string]int{}, open: map[string]int{}}
	v := &val{kind: vSeq}
	isMap := rapid.Bool().Draw(t, "map")
	for i := intn(t, "n", 2, 7); i > 0; i-- {
		v.seq = append(v.seq, g.value(3))
	}
	if isMap {
		m := &val{kind: vMap}
		for i, e := range v.seq {
			m.ents = append(m.ents, entry{key: fmt.Sprintf("k%d", i), v: e})
		}
		v = m
	}
	return v, g
}

// engines gives the engines to be checked with the document.
func (g *redefGen) engines(v *val) []engine {
	if g.ambiguous(v) {
		return []engine{goEngine}
	}
	return engines
}
