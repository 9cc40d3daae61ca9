package props

import (
	"errors"
	"fmt"
	"math/big"
	"strings"

	"github.com/KSpaceer/yamly"
	"pgregory.net/rapid"
)

// misfits lists the reads which have to be denied for the value.
func misfits(v *val, key bool) []string {
	v = v.deref()
	switch v.kind {
	case vNull:
		return []string{"Integer", "Unsigned", "Boolean", "Float", "String", "Timestamp", "Sequence", "Mapping"}
	case vSeq:
		return []string{"Integer", "Unsigned", "Boolean", "Float", "String", "Timestamp", "Mapping"}
	case vMap:
		return []string{"Integer", "Unsigned", "Boolean", "Float", "String", "Timestamp", "Sequence"}
	case vBool:
		return []string{"Integer", "Unsigned", "Float", "Timestamp", "Sequence", "Mapping"}
	case vInt:
		return []string{"Boolean", "Timestamp", "Sequence", "Mapping"}
	case vFloat:
		return []string{"Integer", "Unsigned", "Boolean", "Timestamp", "Sequence", "Mapping"}
	default:
		out := []string{"Sequence", "Mapping"}
		if _, ok := oInt(v.s); !ok {
			out = append(out, "Integer", "Unsigned")
		}
		if _, ok := oBool(v.s); !ok {
			out = append(out, "Boolean")
		}
		if k, _, _ := oFloat(v.s); k == 0 {
			out = append(out, "Float")
		}
		if len(v.s) < 6 || !digitsOf(v.s[:4], dec) {
			out = append(out, "Timestamp")
		}
		return out
	}
}

var errCustom = errors.New("custom error")

type otherErr struct{ n int }

func (e *otherErr) Error() string { return fmt.Sprintf("other error %d", e.n) }

// failAt replaces the n-th read of the plan (in order of execution) by a failing one.
func (s *step) failAt(n *int, t *rapid.T) bool {
	if *n == 0 {
		*n--
		s.tryNull = s.tryNull && s.v.deref().kind != vNull
		if rapid.Bool().Draw(t, "custom") {
			s.how = "!custom"
		} else {
			s.how = "!" + rapid.SampledFrom(misfits(s.v, s.key)).Draw(t, "misfit")
		}
		s.kids = nil
		return true
	}
	*n--
	for _, k := range s.kids {
		if k.failAt(n, t) {
			return true
		}
	}
	return false
}

// afterError: every read gives a zero value and the error stays as it is.
func (x *runner) afterError(what string, want error, states []yamly.CollectionState, calls []string) {
	first := x.r.Error()
	if first == nil {
		x.failf("no error after %s", what)
	}
	if !errors.Is(first, want) {
		x.failf("the error after %s is %q (%T), not recognizable as %T %v", what, first, first, want, errors.Is(first, want))
	}
	for _, st := range states {
		if st.HasUnprocessedItems() {
			x.failf("a collection still has unprocessed items after %s", what)
		}
	}
	text := first.Error()
	for i, call := range calls {
		switch call {
		case "AddError":
			x.r.AddError(&otherErr{i})
		case "AddError(denied)":
			x.r.AddError(fmt.Errorf("other denial %d: %w", i, yamly.ErrDenied))
		case "AddError(nil)":
			x.r.AddError(nil)
		default:
			if v := callZero(x.r, call); v != "" {
				x.failf("%s after the error gives %s", call, v)
			}
		}
		err := x.r.Error()
		if err == nil || err.Error() != text || !errors.Is(err, want) {
			x.failf("%s changed the error %q to %v", call, text, err)
		}
	}
}

// addMisfits adds requests to be denied to the steps of a plan.
func (s *step) addMisfits(t *rapid.T) {
	if chance(t, "misfit", 1, 3) {
		s.misfits = rapid.SliceOfN(rapid.SampledFrom(misfits(s.v, s.key)), 1, 3).Draw(t, "misfits")
		if s.v.deref().kind == vNull {
			s.tryNull = false
		}
	}
	for _, k := range s.kids {
		k.addMisfits(t)
	}
}

func (s *step) misfitCount() int {
	n := len(s.misfits)
	for _, k := range s.kids {
		n += k.misfitCount()
	}
	return n
}

// collected: a reader collecting denials reports exactly the ones which happened.
func (x *runner) collected(what string) {
	err := x.r.Error()
	var errs []error
	if err != nil {
		j, ok := err.(interface{ Unwrap() []error })
		if !ok {
			x.failf("%s: the error is a %T, not several errors: %v", what, err, err)
		}
		errs = j.Unwrap()
	}
	denials := 0
	var other []error
	for _, e := range errs {
		if errors.Is(e, yamly.ErrDenied) {
			denials++
		} else {
			other = append(other, e)
		}
	}
	if denials != x.denials {
		x.failf("%s: %d denials are reported, there were %d (%v)", what, denials, x.denials, err)
	}
	if len(other) != len(x.extra) || len(other) == 1 && !errors.Is(other[0], x.extra[0]) {
		x.failf("%s: errors %v are reported besides the denials, want %v", what, other, x.extra)
	}
}

// schemas: types a document is decoded into by hand written loops, as generated code does it.

type schema struct {
	kind     string // int uint float bool string time any skip seq map
	bits     int
	nullable bool
	elem     *schema
	fields   map[string]*schema // map with named fields; others go to elem, or are skipped if elem is nil
}

func drawSchema(t *rapid.T, depth int) *schema {
	s := &schema{nullable: chance(t, "nullable", 2, 5)}
	kinds := []string{"int", "uint", "float", "bool", "string", "string", "any", "skip", "time"}
	if depth > 0 {
		kinds = append(kinds, "seq", "seq", "seq", "map", "map", "map", "map")
	}
	s.kind = rapid.SampledFrom(kinds).Draw(t, "skind")
	s.bits = pick(t, "sbits", 8, 16, 32, 64, 64)
	if s.kind == "float" {
		s.bits = 64
	}
	switch s.kind {
	case "seq":
		s.elem = drawSchema(t, depth-1)
	case "map":
		if rapid.Bool().Draw(t, "struct") {
			s.fields = map[string]*schema{}
			for _, k := range []string{"k1", "k2", "k3"} {
				if rapid.Bool().Draw(t, "field") {
					s.fields[k] = drawSchema(t, depth-1)
				}
			}
			if rapid.Bool().Draw(t, "rest") {
				s.elem = drawSchema(t, depth-1)
			}
		} else {
			s.elem = drawSchema(t, depth-1)
		}
	}
	return s
}

// schemaOf derives a schema the value fits, with some changes.
func schemaOf(t *rapid.T, v *val) *schema {
	v = v.deref()
	if chance(t, "other", 1, 14) {
		return drawSchema(t, 1)
	}
	s := &schema{nullable: rapid.Bool().Draw(t, "nl"), bits: 64}
	switch v.kind {
	case vNull:
		s = drawSchema(t, 1)
		s.nullable = s.nullable || chance(t, "nn", 9, 10)
	case vBool:
		s.kind = "bool"
	case vInt:
		s.kind = "int"
		if !v.neg && v.u%3 == 0 {
			s.kind = "uint"
		}
		if chance(t, "narrow", 1, 10) {
			s.bits = pick(t, "nb", 8, 16, 32)
		}
	case vFloat:
		s.kind = "float"
	case vStr:
		s.kind = "string"
	case vSeq:
		s.kind = "seq"
		if len(v.seq) > 0 && chance(t, "uniform", 1, 3) {
			s.elem = schemaOf(t, v.seq[0])
		} else {
			s.elem = &schema{kind: pick(t, "ek", "any", "any", "skip")}
		}
	case vMap:
		s.kind = "map"
		s.fields = map[string]*schema{}
		for _, e := range v.ents {
			if chance(t, "known", 3, 4) {
				s.fields[e.key] = schemaOf(t, e.v)
			}
		}
	}
	return s
}

func (s *schema) String() string {
	var sb strings.Builder
	if s.nullable {
		sb.WriteByte('*')
	}
	sb.WriteString(s.kind)
	if s.bits != 64 {
		fmt.Fprint(&sb, s.bits)
	}
	if s.fields != nil {
		fmt.Fprintf(&sb, "%v", s.fields)
	}
	if s.elem != nil {
		sb.WriteString("<" + s.elem.String() + ">")
	}
	return sb.String()
}

type wild struct{}

type verdict int

const (
	fine verdict = iota
	denied
	refused // an error, of whatever kind
	unknown
)

// expect: what decoding v by the schema has to give.
func (s *schema) expect(v *val) (any, verdict) {
	v = v.deref()
	if v.kind == vNull {
		switch {
		case s.nullable, s.kind == "any", s.kind == "skip":
			return nil, fine
		}
		return nil, denied
	}
	switch s.kind {
	case "any":
		return v.toAny(), fine
	case "skip":
		return nil, fine
	case "string":
		switch v.kind {
		case vStr:
			return v.s, fine
		case vSeq, vMap:
			return nil, denied
		}
		return wild{}, fine
	case "bool":
		switch v.kind {
		case vBool:
			return v.b, fine
		case vStr:
			if b, ok := oBool(v.s); ok {
				return b, fine
			}
		}
		return nil, denied
	case "int", "uint":
		i := new(big.Int)
		switch v.kind {
		case vInt:
			i.SetUint64(v.u)
			if v.neg {
				i.Neg(i)
			}
		case vStr:
			x, ok := oInt(v.s)
			if !ok {
				return nil, denied
			}
			if s.kind == "uint" && x.Sign() == 0 && v.s[0] == '-' {
				return nil, unknown
			}
			i = x
		default:
			return nil, denied
		}
		if !fits(i, s.bits, s.kind == "int") {
			return nil, refused
		}
		if s.kind == "uint" {
			return i.Uint64(), fine
		}
		return i.Int64(), fine
	case "float":
		switch v.kind {
		case vFloat:
			return v.f, fine
		case vInt:
			return nil, unknown // depends on the spelling
		case vStr:
			if k, rat, neg := oFloat(v.s); k != 0 {
				if f, over := nearest(k, rat, neg, 64); !over {
					return f, fine
				}
				return nil, refused
			}
		}
		return nil, denied
	case "time":
		if v.kind == vStr && len(v.s) >= 6 && digitsOf(v.s[:4], dec) {
			return nil, unknown
		}
		return nil, denied
	case "seq":
		if v.kind != vSeq {
			return nil, denied
		}
		out := []any{}
		for _, e := range v.seq {
			x, vd := s.elem.expect(e)
			if vd != fine {
				return nil, vd
			}
			out = append(out, x)
		}
		return out, fine
	case "map":
		if v.kind != vMap {
			return nil, denied
		}
		out := map[string]any{}
		for _, e := range v.ents {
			f := s.fields[e.key]
			if f == nil {
				f = s.elem
			}
			if f == nil {
				continue
			}
			x, vd := f.expect(e.v)
			if vd != fine {
				return nil, vd
			}
			out[e.key] = x
		}
		return out, fine
	}
	panic(s.kind)
}

// decode reads the document the way generated code does.
func (s *schema) decode(r yamly.Decoder, steps *int) any {
	if *steps--; *steps < 0 {
		panic("decoding does not end")
	}
	if s.nullable && r.TryNull() {
		return nil
	}
	switch s.kind {
	case "any":
		return r.Any()
	case "skip":
		r.Skip()
		return nil
	case "string":
		return r.String()
	case "bool":
		return r.Boolean()
	case "int":
		return r.Integer(s.bits)
	case "uint":
		return r.Unsigned(s.bits)
	case "float":
		return r.Float(s.bits)
	case "time":
		return r.Timestamp()
	case "seq":
		out := []any{}
		for st := r.Sequence(); st.HasUnprocessedItems(); {
			out = append(out, s.elem.decode(r, steps))
		}
		return out
	case "map":
		out := map[string]any{}
		for st := r.Mapping(); st.HasUnprocessedItems(); {
			*steps--
			key := r.String()
			f := s.fields[key]
			if f == nil {
				f = s.elem
			}
			if f == nil {
				r.Skip()
				continue
			}
			out[key] = f.decode(r, steps)
		}
		return out
	}
	panic(s.kind)
}

// alike compares decoded and expected values; wild matches everything.
func alike(got, want any) bool {
	switch w := want.(type) {
	case wild:
		return true
	case []any:
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			if !alike(g[i], w[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok || len(g) != len(w) {
			return false
		}
		for k := range w {
			x, ok := g[k]
			if !ok || !alike(x, w[k]) {
				return false
			}
		}
		return true
	}
	return same(got, want) || same(norm(got), norm(want))
}

func init() {
	after := append([]string{"AddError", "AddError(nil)", "AddError(denied)", "AddError", "Node"}, readNames...)
	reg("C14", "kept", "random documents read by a fitting plan up to a random node, which is then requested as a type it does not represent (or a custom error is added there), by both engines: "+
		"the error is recognizable, open collections have no more items, and 1 to 12 further calls (reads, further errors, nil errors) give zero values and leave the error as it is; "+
		"non-trivial: at least one collection is open at the failure",
		100000, 8000000, func(t *rapid.T, c *ctx) {
			v := drawValue(t, genOpts{maxDepth: 4, maxItems: 4, maxStr: 5, anchors: chance(t, "anchors", 1, 3)})
			r := newRenderer(t)
			doc := r.document(v)
			p := planFor(t, v, planOpts{typedW: 10, anyW: 1, skipW: 1}, false)
			n := intn(t, "at", 0, p.count()-1)
			top := n == 0
			p.failAt(&n, t)
			calls := rapid.SliceOfN(rapid.SampledFrom(after), 1, 12).Draw(t, "calls")
			c.Case("%s\nreads: %s then %v", doc, p, calls)
			c.Nontrivial(!top)
			for _, e := range engines {
				x, _ := newRunner(c, e, doc)
				x.calls = calls
				x.run(p)
				if !x.stopped {
					c.Failf("%s: the plan did not reach its failure", e.name)
				}
			}
		})
	reg("C14", "no error", "adding no error (nil) before any read changes nothing: random plans with nil errors added at every step read everything, and no error is reported; non-trivial: four reads",
		30000, 2000000, func(t *rapid.T, c *ctx) {
			v := drawValue(t, genOpts{maxDepth: 3, maxItems: 4, maxStr: 5})
			r := newRenderer(t)
			doc := r.document(v)
			p := planFor(t, v, planOpts{typedW: 10, anyW: 1, skipW: 1}, false)
			c.Case("%s\nreads: %s", doc, p)
			c.Nontrivial(p.count() >= 4)
			for _, e := range engines {
				x, _ := newRunner(c, e, doc)
				x.addNil = true
				x.run(p)
				x.ok("at the end")
			}
		})
	reg("C14", "collected", "random documents read by a fitting plan with readers which collect denials; before a third of the reads the node is requested 1 to 3 times as a type it does not represent: "+
		"every such request gives a zero value and adds one denial to the reported error, the node stays current so that the fitting read still gives its value, "+
		"and after the last node (or a custom error added there) the reported error has all denials and that error; non-trivial: at least two denials and four reads",
		40000, 4000000, func(t *rapid.T, c *ctx) {
			v := drawValue(t, genOpts{maxDepth: 4, maxItems: 4, maxStr: 5, anchors: chance(t, "anchors", 1, 3)})
			r := newRenderer(t)
			doc := r.document(v)
			p := planFor(t, v, planOpts{typedW: 10, anyW: 1, skipW: 1, rawW: 1}, false)
			p.addMisfits(t)
			custom := rapid.Bool().Draw(t, "custom")
			denial := custom && chance(t, "denial", 1, 3)
			reads := rapid.SliceOfN(rapid.SampledFrom(readNames), 1, 4).Draw(t, "reads")
			c.Case("%s\nreads: %s then %v %v", doc, p, custom, reads)
			c.Nontrivial(p.misfitCount() >= 2 && p.count() >= 4)
			for _, e := range engines {
				x, _ := newRunner(c, e, doc, true)
				x.run(p)
				if custom {
					x.ok("at the end")
					if denial {
						// an error of the caller stops the reader, also if it is a denial (of another reader)
						x.r.AddError(fmt.Errorf("denied elsewhere: %w", yamly.ErrDenied))
						x.denials++
					} else {
						x.r.AddError(errCustom)
						x.extra = []error{errCustom}
					}
					for _, rd := range reads {
						if v := callZero(x.r, rd); v != "" {
							x.failf("%s after the custom error gives %s", rd, v)
						}
						x.ok(rd)
					}
					continue
				}
				x.ended(reads)
			}
		})
	reg("C14", "types", "random documents decoded into random types (nested sequences, maps, structs, sized numbers, nullable, generic and skipped parts; some derived from the document with changes, some unrelated) "+
		"by loops like the ones of generated code, by both engines: decoding ends; it reports an error exactly if the document does not fit the type, a denial if the kind of a node does not fit, "+
		"and otherwise gives the value of the model; non-trivial: at least three nodes",
		120000, 8000000, func(t *rapid.T, c *ctx) {
			v := drawValue(t, genOpts{maxDepth: 3, maxItems: 4, maxStr: 5, merges: false})
			var s *schema
			if chance(t, "unrelated", 1, 4) {
				s = drawSchema(t, 3)
			} else {
				s = schemaOf(t, v)
			}
			r := newRenderer(t)
			doc := r.document(v)
			c.Case("%s\nas %s", doc, s)
			c.Nontrivial(v.count() >= 3)
			want, vd := s.expect(v)
			c.Label([]string{"fits", "denied", "refused", "unknown"}[vd])
			for _, e := range engines {
				d, err := e.reader([]byte(doc))
				if err != nil {
					c.Failf("%s: %v", e.name, err)
				}
				steps := 50 + 10*len(doc)
				got := s.decode(d, &steps)
				err = d.Error()
				switch vd {
				case fine:
					if err != nil {
						c.Failf("%s: %v", e.name, err)
					}
					if !alike(got, want) {
						c.Failf("%s decodes %s, want %s", e.name, show(got), show(want))
					}
				case denied:
					if !errors.Is(err, yamly.ErrDenied) {
						c.Failf("%s: error %v, want a denial", e.name, err)
					}
				case refused:
					if err == nil {
						c.Failf("%s: no error, decoded %s", e.name, show(got))
					}
				}
			}
		})
}
