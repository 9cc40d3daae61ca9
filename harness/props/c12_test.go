package props

import (
	"fmt"
	"strings"
	"time"

	"pgregory.net/rapid"
)

func drawReads(t *rapid.T, max int) []string {
	return rapid.SliceOfN(rapid.SampledFrom(append([]string{"Node"}, readNames...)), 1, max).Draw(t, "reads")
}

func walkDoc(c *ctx, doc string, p *step, ends []string, es ...engine) {
	for _, e := range es {
		x, changed := newRunner(c, e, doc)
		x.run(p)
		x.ended(ends)
		if d := changed(); d != "" {
			c.Failf("%s: reading changed the tree\n%s", e.name, d)
		}
	}
}

func init() {
	reg("C12", "typed", "random documents in random styles read by a random plan of typed reads fitting the structure (null tests anywhere, numbers also as text or float, now and then a "+
		"generic read or a skip), by both engines: every value, size and end of iteration as in the model, then the end of the stream; non-trivial: at least four reads",
		120000, 8000000, func(t *rapid.T, c *ctx) {
			v := drawValue(t, genOpts{maxDepth: 4, maxItems: 5, maxStr: 6})
			r := newRenderer(t)
			doc := r.document(v)
			p := planFor(t, v, planOpts{typedW: 10, anyW: 1, skipW: 1}, false)
			ends := drawReads(t, 3)
			c.Case("%s\nreads: %s then %v", doc, p, ends)
			c.Nontrivial(p.count() >= 4)
			walkDoc(c, doc, p, ends, engines...)
		})
	reg("C12", "decorated", "the same with comments and blank lines in the documents; non-trivial: at least four reads",
		30000, 2000000, func(t *rapid.T, c *ctx) {
			v := drawValue(t, genOpts{maxDepth: 4, maxItems: 4, maxStr: 4, anchors: true})
			r := newRenderer(t)
			r.decor = true
			doc := r.document(v)
			p := planFor(t, v, planOpts{typedW: 12, anyW: 1, skipW: 1}, false)
			ends := drawReads(t, 3)
			c.Case("%s\nreads: %s then %v", doc, p, ends)
			c.Nontrivial(p.count() >= 4)
			walkDoc(c, doc, p, ends, engines...)
		})
	reg("C12", "wide and deep", "collections of up to 300 items and chains of up to 60 nested collections; non-trivial: at least 50 reads",
		2000, 100000, func(t *rapid.T, c *ctx) {
			var v *val
			if rapid.Bool().Draw(t, "wide") {
				v = &val{kind: vSeq}
				n := intn(t, "n", 1, 300)
				if rapid.Bool().Draw(t, "map") {
					v.kind = vMap
				}
				for i := 0; i < n; i++ {
					e := &val{kind: vInt, u: uint64(i)}
					switch (i * 7 % n) % 5 {
					case 1:
						e = &val{kind: vNull}
					case 2:
						e = &val{kind: vSeq}
					case 3:
						e = &val{kind: vMap, ents: []entry{{key: "a", v: &val{kind: vNull}}}}
					}
					v.seq = append(v.seq, e)
					v.ents = append(v.ents, entry{key: fmt.Sprintf("k%d", i), v: e})
				}
				if v.kind == vMap {
					v.seq = nil
				} else {
					v.ents = nil
				}
			} else {
				v = &val{kind: vStr, s: "x"}
				for i := intn(t, "depth", 10, 60); i > 0; i-- {
					if rapid.Bool().Draw(t, "seq") {
						v = &val{kind: vSeq, seq: []*val{v}}
						if chance(t, "more", 1, 3) {
							v.seq = append(v.seq, &val{kind: vNull})
						}
					} else {
						v = &val{kind: vMap, ents: []entry{{key: "k", v: v}}}
						if chance(t, "more", 1, 3) {
							v.ents = append(v.ents, entry{key: "z", v: &val{kind: vBool, b: true}})
						}
					}
				}
			}
			r := newRenderer(t)
			doc := r.document(v)
			p := planFor(t, v, planOpts{typedW: 200, anyW: 1, skipW: 1}, false)
			ends := drawReads(t, 2)
			c.Case("%s\nreads: %s then %v", doc, p, ends)
			c.Nontrivial(p.count() >= 50)
			walkDoc(c, doc, p, ends, engines...)
		})
	reg("C12", "timestamps", "sequences of timestamps in all documented forms, plain or quoted, among nulls and words; non-trivial: two timestamps",
		20000, 1000000, func(t *rapid.T, c *ctx) {
			n := intn(t, "n", 1, 6)
			var sb strings.Builder
			var want []any
			stamps := 0
			for i := 0; i < n; i++ {
				switch intn(t, "what", 0, 4) {
				case 0:
					sb.WriteString("- ~\n")
					want = append(want, nil)
				case 1:
					w := "w" + wordText(t)
					sb.WriteString("- " + w + "\n")
					want = append(want, w)
				default:
					s, at := drawTimestamp(t)
					q := pick(t, "q", "", "'", "\"")
					sb.WriteString("- " + q + s + q + "\n")
					want = append(want, at)
					stamps++
				}
			}
			doc := sb.String()
			c.Case("%s", doc)
			c.Nontrivial(stamps >= 2)
			for _, e := range engines {
				r, err := e.reader([]byte(doc))
				if err != nil {
					c.Failf("%s: %v", e.name, err)
				}
				st := r.Sequence()
				if st.Size() != n {
					c.Failf("%s: size %d", e.name, st.Size())
				}
				for i, w := range want {
					if !st.HasUnprocessedItems() {
						c.Failf("%s: no item %d", e.name, i)
					}
					var got any
					switch w.(type) {
					case nil:
						if !r.TryNull() {
							got = "no null"
						}
					case string:
						got = r.String()
					case time.Time:
						if r.TryNull() {
							c.Failf("%s: null", e.name)
						}
						got = r.Timestamp()
					}
					if r.Error() != nil || !same(got, w) {
						c.Failf("%s: item %d is %v, want %v (%v)", e.name, i, got, w, r.Error())
					}
				}
				if st.HasUnprocessedItems() || r.Error() != nil {
					c.Failf("%s: at the end: %v", e.name, r.Error())
				}
			}
		})
}
