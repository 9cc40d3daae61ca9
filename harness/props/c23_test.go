package props

import (
	"errors"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/KSpaceer/yamly"
	"pgregory.net/rapid"
)

// insert gives a value of the model to an inserter.
func insert(in yamly.Inserter, v *val) {
	switch v.kind {
	case vNull:
		in.InsertNull()
	case vBool:
		in.InsertBoolean(v.b)
	case vInt:
		switch {
		case v.neg:
			in.InsertInteger(int64(-v.u))
		case v.u <= math.MaxInt64 && v.u%2 == 1:
			in.InsertInteger(int64(v.u))
		default:
			in.InsertUnsigned(v.u)
		}
	case vFloat:
		in.InsertFloat(v.f)
	case vStr:
		if len(v.s)%5 == 4 {
			in.InsertRawText([]byte(v.s), nil)
		} else {
			in.InsertString(v.s)
		}
	case vSeq:
		in.StartSequence()
		for _, e := range v.seq {
			insert(in, e)
		}
		in.EndSequence()
	case vMap:
		in.StartMapping()
		for _, e := range v.ents {
			in.InsertString(e.key)
			insert(in, e.v)
		}
		in.EndMapping()
	}
}

func outcome(err error) string {
	switch {
	case err == nil:
		return "accepted"
	case errors.Is(err, yamly.ErrDenied):
		return "denied"
	default:
		return "refused"
	}
}

func init() {
	reg("C23", "encoded", "random values inserted into the encoder of one engine and read by the decoder of the other with a random plan of typed, generic, raw, tree and skipping reads; non-trivial: at least four nodes",
		100000, 8000000, func(t *rapid.T, c *ctx) {
			v := drawValue(t, genOpts{maxDepth: 4, maxItems: 5, maxStr: 12})
			p := planFor(t, v, planOpts{typedW: 8, anyW: 1, skipW: 1, rawW: 2, nodeW: 1}, false)
			from := intn(t, "from", 0, 1)
			c.Case("%s from %s reads: %s", show(v.toAny()), engines[from].name, p)
			c.Nontrivial(v.count() >= 4)
			c.Label("from " + engines[from].name)
			enc := engines[from].encoder()
			insert(enc, v)
			doc, err := enc.EncodeToString()
			if err != nil {
				c.Failf("%s cannot encode: %v", engines[from].name, err)
			}
			for _, e := range []engine{engines[1-from], engines[from]} {
				x, _ := newRunner(c, e, doc)
				x.path = append(x.path, fmt.Sprintf("(%q)", doc))
				x.run(p)
				x.ok("at the end")
			}
		})
	reg("C23", "raw relay", "a random document read raw by one engine, the raw text inserted into an encoder of the other, read raw again by the first and so on, four times: the value stays the same; non-trivial: at least four nodes",
		30000, 2000000, func(t *rapid.T, c *ctx) {
			v := drawValue(t, genOpts{maxDepth: 4, maxItems: 4, maxStr: 8, anchors: chance(t, "anchors", 1, 3)})
			r := newRenderer(t)
			r.decor = chance(t, "decor", 1, 4)
			doc := r.document(v)
			from := intn(t, "from", 0, 1)
			c.Case("%s\nfrom %s", doc, engines[from].name)
			c.Nontrivial(v.count() >= 4)
			want := v.toAny()
			cur := doc
			for i := 0; i < 4; i++ {
				a, b := engines[(from+i)%2], engines[(from+i+1)%2]
				d, err := a.reader([]byte(cur))
				if err != nil {
					c.Failf("step %d: %s cannot read %q: %v", i, a.name, cur, err)
				}
				raw := d.Raw()
				if d.Error() != nil {
					c.Failf("step %d: %s raw of %q: %v", i, a.name, cur, d.Error())
				}
				enc := b.encoder()
				wrap := i%2 == 1
				if wrap {
					enc.StartMapping()
					enc.InsertString("w")
				}
				enc.InsertRaw(raw, nil)
				if wrap {
					enc.EndMapping()
					want = map[string]any{"w": want}
				}
				next, err := enc.EncodeToString()
				if err != nil {
					c.Failf("step %d: %s cannot encode raw %q: %v", i, b.name, raw, err)
				}
				for _, e := range engines {
					got, err := anyOf(e, []byte(next))
					if err != nil || !same(norm(got), want) {
						c.Failf("step %d: %q (of %s) is read by %s as %s, %v; want %s", i, next, b.name, e.name, show(norm(got)), err, show(want))
					}
				}
				cur = next
			}
		})
	reg("C23", "requests", "random documents (any style, anchors, aliases, comments) decoded into random types by loops like the ones of generated code: both engines accept with the same values, or both deny, or both refuse; "+
		"non-trivial: at least three nodes",
		100000, 8000000, func(t *rapid.T, c *ctx) {
			v := drawValue(t, genOpts{maxDepth: 3, maxItems: 4, maxStr: 5, anchors: chance(t, "anchors", 1, 3)})
			var s *schema
			if chance(t, "unrelated", 1, 3) {
				s = drawSchema(t, 3)
			} else {
				s = schemaOf(t, v)
			}
			r := newRenderer(t)
			r.decor = chance(t, "decor", 1, 4)
			doc := r.document(v)
			c.Case("%s\nas %s", doc, s)
			c.Nontrivial(v.count() >= 3)
			sameRequest(c, doc, s)
		})
	reg("C23", "scalar requests", "single scalars of every looks (numbers and timestamps near the borders of the schema, words, quoted or plain, empty) requested as every type: both engines agree on acceptance and value; non-trivial: always",
		100000, 8000000, func(t *rapid.T, c *ctx) {
			var text string
			switch intn(t, "sk", 0, 3) {
			case 0:
				text = numberText(t)
			case 1:
				text, _ = drawTimestamp(t)
			case 2:
				text = strings.ToValidUTF8(scalarText().Draw(t, "text"), "?")
			default:
				text = modelText(t, 5)
			}
			switch style := intn(t, "q", 0, 3); {
			case style < 2 && plainOK(text, false) && !markerLike(text):
			case style == 2 && plainOK(text, false):
				text = "'" + strings.ReplaceAll(text, "'", "''") + "'"
			default:
				text = safeDouble(text)
			}
			doc := pick(t, "pre", "", "- ", "k: ") + text
			s := &schema{kind: pick(t, "as", "int", "uint", "float", "bool", "string", "time", "any"), bits: pick(t, "bits", 8, 16, 32, 64), nullable: rapid.Bool().Draw(t, "null")}
			if s.kind == "float" && s.bits < 32 {
				s.bits = 32
			}
			switch doc[0] {
			case '-':
				if doc[1] == ' ' {
					s = &schema{kind: "seq", elem: s}
				}
			case 'k':
				if len(doc) > 2 && doc[1] == ':' {
					s = &schema{kind: "map", elem: s}
				}
			}
			if ambiguousForV3(text) && s.has("any") {
				s.setKind("string")
			}
			c.Case("%s as %s", doc, s)
			c.Nontrivial(true)
			sameRequest(c, doc, s)
		})
}

func (s *schema) has(kind string) bool { return s.kind == kind || s.elem != nil && s.elem.has(kind) }
func (s *schema) setKind(kind string) {
	if s.elem != nil {
		s.elem.setKind(kind)
		return
	}
	s.kind = kind
}

// ambiguousForV3: generic reads of plain scalars which yaml.v3 resolves by YAML 1.1 rules may differ.
func ambiguousForV3(text string) bool { return true }

func sameRequest(c *ctx, doc string, s *schema) {
	var got [2]any
	var errs [2]error
	for i, e := range engines {
		d, err := e.reader([]byte(doc))
		if err != nil {
			c.Failf("%s cannot parse: %v", e.name, err)
		}
		steps := 50 + 10*len(doc)
		got[i] = s.decode(d, &steps)
		errs[i] = d.Error()
	}
	a, b := outcome(errs[0]), outcome(errs[1])
	c.Label(a)
	if a != b {
		c.Failf("%s by %s (%v), but %s by %s (%v)", a, engines[0].name, errs[0], b, engines[1].name, errs[1])
	}
	if errs[0] == nil && !alike(normTimes(got[0]), normTimes(got[1])) {
		c.Failf("%s reads %s, %s reads %s", engines[0].name, show(got[0]), engines[1].name, show(got[1]))
	}
}

func normTimes(v any) any {
	switch x := v.(type) {
	case time.Time:
		return x
	default:
		return norm(x)
	}
}
