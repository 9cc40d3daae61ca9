package props

import (
	"errors"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/KSpaceer/yamly"
	gdecode "github.com/KSpaceer/yamly/engines/goyaml/decode"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	ydecode "github.com/KSpaceer/yamly/engines/yayamls/decode"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
)

// A step is one planned read of a value: the plan is drawn before the decoders run and is then executed by both engines.
type step struct {
	v       *val
	tryNull bool
	how     string // typed, text, any, skip, raw, node, null
	kids    []*step
	key     bool
	misfits []string // requests to be denied before the read (with collected denials)
}

type planOpts struct {
	anyW, skipW, rawW, nodeW, typedW int
}

func (o planOpts) draw(t *rapid.T) string {
	x := intn(t, "how", 0, o.typedW+o.anyW+o.skipW+o.rawW+o.nodeW-1)
	for _, h := range []struct {
		w    int
		name string
	}{{o.typedW, "typed"}, {o.anyW, "any"}, {o.skipW, "skip"}, {o.rawW, "raw"}, {o.nodeW, "node"}} {
		if x < h.w {
			return h.name
		}
		x -= h.w
	}
	panic("unreachable")
}

// other draws a read which is not typed.
func (o planOpts) other(t *rapid.T) string {
	if o.typedW = 0; o == (planOpts{}) {
		return "typed"
	}
	return o.draw(t)
}

func planFor(t *rapid.T, v *val, o planOpts, key bool) *step {
	s := &step{v: v, key: key, tryNull: chance(t, "trynull", 1, 3)}
	d := v.deref()
	if d.kind == vNull {
		// a null can only be tested for, skipped or read generically
		s.how = "null"
		if s.tryNull {
			return s
		}
	} else {
		s.how = "typed"
	}
	if h := o.draw(t); h != "typed" {
		s.how = h
	}
	if s.how != "typed" {
		return s
	}
	switch d.kind {
	case vBool, vInt, vFloat:
		if chance(t, "astext", 1, 5) {
			s.how = "text"
		}
	case vSeq:
		for _, e := range d.seq {
			s.kids = append(s.kids, planFor(t, e, o, false))
		}
	case vMap:
		for _, e := range d.ents {
			k := &step{v: &val{kind: vStr, s: e.key}, how: "typed", key: true, tryNull: chance(t, "keynull", 1, 4)}
			if chance(t, "otherkey", 1, 6) {
				k.how = o.other(t)
			}
			s.kids = append(s.kids, k, planFor(t, e.v, o, false))
		}
	}
	return s
}

func (s *step) String() string {
	var sb strings.Builder
	s.to(&sb)
	return sb.String()
}

func (s *step) to(sb *strings.Builder) {
	if s.tryNull {
		sb.WriteByte('?')
	}
	if len(s.misfits) > 0 {
		fmt.Fprintf(sb, "!%v", s.misfits)
	}
	sb.WriteString(s.how)
	if len(s.kids) > 0 {
		sb.WriteByte('(')
		for i, k := range s.kids {
			if i > 0 {
				sb.WriteByte(' ')
			}
			k.to(sb)
		}
		sb.WriteByte(')')
	}
}

func (s *step) count() int {
	n := 1
	for _, k := range s.kids {
		n += k.count()
	}
	return n
}

func (s *step) has(how string) bool {
	if s.how == how {
		return true
	}
	for _, k := range s.kids {
		if k.has(how) {
			return true
		}
	}
	return false
}

// runner executes a plan with one engine.
type runner struct {
	c    *ctx
	e    engine
	r    yamly.Decoder
	node func() (any, error) // reads the current subtree as tree and gives its generic value; nil error if it has no foreign aliases
	path []string

	states  []yamly.CollectionState
	calls   []string // calls to make after a planned failure
	stopped bool
	addNil  bool

	collect bool // the reader collects denials instead of stopping at the first one
	denials int
	extra   []error // the error which stopped the reader, if any
}

func (x *runner) failf(format string, args ...any) {
	x.c.Failf("%s at /%s: %s", x.e.name, strings.Join(x.path, "/"), fmt.Sprintf(format, args...))
}

func (x *runner) ok(what string) {
	if x.collect {
		x.collected(what)
		return
	}
	if err := x.r.Error(); err != nil {
		x.failf("%s: %v", what, err)
	}
}

func hasAlias(v *val) bool {
	if v.kind == vAlias {
		return true
	}
	for _, e := range v.seq {
		if hasAlias(e) {
			return true
		}
	}
	for _, e := range v.ents {
		if e.keyAlias != nil || hasAlias(e.v) {
			return true
		}
	}
	return false
}

func (x *runner) run(s *step) {
	d := s.v.deref()
	if x.stopped {
		return
	}
	if x.addNil {
		x.r.AddError(nil)
		x.ok("AddError(nil)")
	}
	for _, call := range s.misfits {
		x.denials++
		if v := callZero(x.r, call); v != "" {
			x.failf("%s gives %s", call, v)
		}
		x.ok(call)
	}
	if s.tryNull {
		got := x.r.TryNull()
		x.ok("TryNull")
		if got != (d.kind == vNull) {
			x.failf("TryNull gives %v", got)
		}
		if got {
			return
		}
	}
	if strings.HasPrefix(s.how, "!") {
		x.stopped = true
		call := s.how[1:]
		if call == "custom" {
			x.r.AddError(fmt.Errorf("wrapped: %w", errCustom))
			x.afterError("AddError", errCustom, x.states, x.calls)
			return
		}
		if v := callZero(x.r, call); v != "" {
			x.failf("%s gives %s", call, v)
		}
		x.afterError(call, yamly.ErrDenied, x.states, x.calls)
		return
	}
	switch s.how {
	case "null":
		if !x.r.TryNull() {
			x.failf("TryNull gives false for a null: %v", x.r.Error())
		}
	case "skip":
		x.r.Skip()
		x.ok("Skip")
	case "any":
		got := x.r.Any()
		x.ok("Any")
		if !x.means(s, got, d.toAny()) {
			x.failf("Any gives %s, want %s", show(norm(got)), show(d.toAny()))
		}
	case "raw":
		raw := x.r.Raw()
		x.ok("Raw")
		x.checkRaw(raw, s, d.toAny())
	case "node":
		got, err := x.node()
		x.ok("Node")
		if err == nil && !hasAlias(d) && !x.means(s, got, d.toAny()) {
			x.failf("Node gives a tree which reads as %s, want %s", show(norm(got)), show(d.toAny()))
		}
		if err != nil && !hasAlias(d) {
			x.failf("Node gives a tree which cannot be read: %v", err)
		}
	case "text":
		got := x.r.String()
		x.ok("String")
		x.checkText(got, d)
	case "typed":
		x.typed(s, d)
	default:
		panic(s.how)
	}
	if !x.stopped {
		x.ok("after " + s.how)
	}
}

// means compares a generically read value with the wanted one. The text of a key may be written plain
// even if it looks like a number or a boolean.
func (x *runner) means(s *step, got, want any) bool {
	got = norm(got)
	if same(got, want) {
		return true
	}
	if text, ok := want.(string); ok && s.key {
		switch g := got.(type) {
		case bool:
			b, ok := oBool(text)
			return ok && b == g
		case int64, uint64:
			i, ok := oInt(text)
			// yaml.v3 takes integers with leading zeros for octal
			return ok && (i.String() == fmt.Sprint(g) || strings.HasPrefix(strings.TrimLeft(text, "+-"), "0"))
		}
	}
	return false
}

func (x *runner) typed(s *step, d *val) {
	switch d.kind {
	case vBool:
		if got := x.r.Boolean(); got != d.b {
			x.failf("Boolean gives %v (%v)", got, x.r.Error())
		}
	case vInt:
		if d.neg || d.u <= math.MaxInt64 && d.u%2 == 0 {
			want := int64(d.u)
			if d.neg {
				want = int64(-d.u)
			}
			if got := x.r.Integer(64); got != want {
				x.failf("Integer gives %v, want %v (%v)", got, want, x.r.Error())
			}
		} else if got := x.r.Unsigned(64); got != d.u {
			x.failf("Unsigned gives %v, want %v (%v)", got, d.u, x.r.Error())
		}
	case vFloat:
		if got := x.r.Float(64); !same(got, d.f) {
			x.failf("Float gives %v, want %v (%v)", got, d.f, x.r.Error())
		}
	case vStr:
		if got := x.r.String(); got != d.s {
			x.failf("String gives %q, want %q (%v)", got, d.s, x.r.Error())
		}
	case vSeq, vMap:
		var st yamly.CollectionState
		n := len(d.seq)
		per := 1
		if d.kind == vSeq {
			st = x.r.Sequence()
		} else {
			st = x.r.Mapping()
			n, per = len(d.ents), 2
		}
		x.ok("collection")
		if st.Size() != n {
			x.failf("size is %d, want %d", st.Size(), n)
		}
		x.states = append(x.states, st)
		for i := 0; i < n; i++ {
			if x.stopped {
				return
			}
			if !st.HasUnprocessedItems() {
				x.failf("iteration ends before item %d of %d", i, n)
			}
			for j := 0; j < per; j++ {
				x.path = append(x.path, fmt.Sprintf("%d%s", i, []string{"", "k"}[per-1-j]))
				x.run(s.kids[i*per+j])
				x.path = x.path[:len(x.path)-1]
			}
			if st.Size() != n {
				x.failf("size changed to %d, want %d", st.Size(), n)
			}
		}
		x.states = x.states[:len(x.states)-1]
		if st.HasUnprocessedItems() {
			x.failf("iteration does not end after %d items", n)
		}
	}
}

// checkText: the text of a boolean or number has to denote it.
func (x *runner) checkText(got string, d *val) {
	switch d.kind {
	case vBool:
		if b, ok := oBool(got); !ok || b != d.b {
			x.failf("String gives %q for %v", got, d.b)
		}
	case vInt:
		v, ok := oInt(got)
		if !ok || !v.IsInt64() && !v.IsUint64() || new(valInt).of(d) != v.String() {
			x.failf("String gives %q for %s", got, new(valInt).of(d))
		}
	case vFloat:
		k, rat, neg := oFloat(got)
		if k == 0 {
			x.failf("String gives %q for %v", got, d.f)
		}
		if f, _ := nearest(k, rat, neg, 64); !same(f, d.f) {
			x.failf("String gives %q for %v", got, d.f)
		}
	}
}

type valInt struct{}

func (valInt) of(d *val) string {
	if d.neg {
		return "-" + fmt.Sprint(d.u)
	}
	return fmt.Sprint(d.u)
}

// checkRaw: raw YAML taken alone denotes the value, for the engine itself and for an independent parser.
func (x *runner) checkRaw(raw []byte, s *step, want any) {
	got, err := anyOf(x.e, raw)
	if err != nil {
		x.failf("raw %q cannot be read: %v", raw, err)
	}
	if !x.means(s, got, want) {
		x.failf("raw %q reads as %s, want %s", raw, show(norm(got)), show(want))
	}
	ind, err := v3Any(raw)
	if err != nil {
		x.failf("raw %q is not YAML for yaml.v3: %v", raw, err)
	}
	if !x.means(s, ind, want) {
		x.failf("raw %q reads as %s by yaml.v3, want %s", raw, show(ind), show(want))
	}
}

// newRunner makes a decoder of the engine over the document; changed tells whether the source tree was changed since.
func newRunner(c *ctx, e engine, doc string, collect ...bool) (x *runner, changed func() string) {
	var yopts []ydecode.ReaderOption
	var gopts []gdecode.ReaderOption
	if len(collect) > 0 && collect[0] {
		yopts = append(yopts, ydecode.WithMultipleDenyErrors())
		gopts = append(gopts, gdecode.WithMultipleDenyErrors())
		defer func() { x.collect = true }()
	}
	if e.name == "yayamls" {
		tree, err := parseYay(doc)
		if err != nil {
			c.Failf("yayamls cannot parse: %v", err)
		}
		before := dump(tree)
		r := ydecode.NewASTReader(tree, yopts...)
		return &runner{c: c, e: e, r: r, node: func() (any, error) {
			n := r.Node()
			if n == nil {
				return nil, r.Error()
			}
			s := ydecode.NewASTReader(n)
			v := s.Any()
			return v, s.Error()
		}}, func() string {
			if now := dump(tree); now != before {
				return fmt.Sprintf("before:\n%s\nafter:\n%s", before, now)
			}
			return ""
		}
	}
	var n yaml.Node
	if err := yaml.Unmarshal([]byte(doc), &n); err != nil {
		c.Failf("yaml.v3 cannot parse: %v", err)
	}
	before := dumpGo(&n)
	r := gdecode.NewASTReader(&n, gopts...)
	return &runner{c: c, e: e, r: r, node: func() (any, error) {
		n := r.Node()
		if n == nil {
			return nil, r.Error()
		}
		s := gdecode.NewASTReader(n)
		v := s.Any()
		return v, s.Error()
	}}, func() string {
		if now := dumpGo(&n); now != before {
			return fmt.Sprintf("before:\n%s\nafter:\n%s", before, now)
		}
		return ""
	}
}

func dumpGo(n *yaml.Node) string {
	var sb strings.Builder
	var f func(n *yaml.Node, d int)
	f = func(n *yaml.Node, d int) {
		fmt.Fprintf(&sb, "%*s%d %d %q %q &%q %q %d:%d\n", d, "", n.Kind, n.Style, n.Tag, n.Value, n.Anchor, n.HeadComment+n.LineComment+n.FootComment, n.Line, n.Column)
		if n.Alias != nil {
			fmt.Fprintf(&sb, "%*s->%p\n", d, "", n.Alias)
		}
		for _, k := range n.Content {
			f(k, d+1)
		}
	}
	f(n, 0)
	return sb.String()
}

// ended: all nodes were read, every further read has to report the end of the stream.
func (x *runner) ended(reads []string) {
	x.ok("at the end")
	x.path = append(x.path, "end")
	if x.collect {
		x.extra = []error{yamly.ErrEndOfStream}
		for _, rd := range reads {
			if v := callZero(x.r, rd); v != "" {
				x.failf("%s after the last node gives %s", rd, v)
			}
			x.ok(rd)
		}
		return
	}
	for i, rd := range reads {
		v := callZero(x.r, rd)
		if v != "" {
			x.failf("%s after the last node gives %s", rd, v)
		}
		if err := x.r.Error(); !errors.Is(err, yamly.ErrEndOfStream) {
			x.failf("%s (read %d after the last node) leaves the error %v, want the end of stream", rd, i, err)
		}
	}
}

// readNames are all reading calls.
var readNames = []string{"TryNull", "Integer", "Unsigned", "Boolean", "Float", "String", "Timestamp", "Sequence", "Mapping", "Any", "Raw", "Skip"}

// callZero makes a read and describes its result unless it is the zero value.
func callZero(r yamly.Decoder, name string) string {
	switch name {
	case "TryNull":
		if r.TryNull() {
			return "true"
		}
	case "Integer":
		if v := r.Integer(64); v != 0 {
			return fmt.Sprint(v)
		}
	case "Unsigned":
		if v := r.Unsigned(64); v != 0 {
			return fmt.Sprint(v)
		}
	case "Boolean":
		if r.Boolean() {
			return "true"
		}
	case "Float":
		if v := r.Float(64); v != 0 {
			return fmt.Sprint(v)
		}
	case "String":
		if v := r.String(); v != "" {
			return fmt.Sprintf("%q", v)
		}
	case "Timestamp":
		if v := r.Timestamp(); v != (time.Time{}) {
			return v.String()
		}
	case "Sequence", "Mapping":
		var st yamly.CollectionState
		if name == "Sequence" {
			st = r.Sequence()
		} else {
			st = r.Mapping()
		}
		if st == nil {
			return "a nil collection state"
		}
		if st.Size() != 0 || st.HasUnprocessedItems() {
			return fmt.Sprintf("a collection of %d items (unprocessed: %v)", st.Size(), st.HasUnprocessedItems())
		}
	case "Any":
		if v := r.Any(); v != nil {
			return show(v)
		}
	case "Raw":
		if v := r.Raw(); len(v) != 0 {
			return fmt.Sprintf("%q", v)
		}
	case "Skip":
		r.Skip()
	case "Node":
		switch r := r.(type) {
		case yamly.ExtendedDecoder[ast.Node]:
			if n := r.Node(); n != nil {
				return "a node"
			}
		case yamly.ExtendedDecoder[*yaml.Node]:
			if n := r.Node(); n != nil {
				return "a node"
			}
		}
	}
	return ""
}
