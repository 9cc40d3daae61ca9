package props

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
)

// The value model: what a document denotes, independent of how it is written.

type vkind int

const (
	vNull vkind = iota
	vBool
	vInt
	vFloat
	vStr
	vSeq
	vMap
	vAlias
)

type val struct {
	kind vkind
	b    bool
	neg  bool   // integers: sign
	u    uint64 // integers: magnitude
	f    float64
	s    string
	seq  []*val
	ents []entry
	// anchor is the name this node is anchored with, target the node an alias refers to
	anchor string
	target *val
}

// entry is a mapping entry; merge entries have the key "<<" and a value of mappings to merge.
type entry struct {
	key   string
	v     *val
	merge bool
	// keyAlias is set if the key is written as an alias to an anchored scalar
	keyAlias *val
	// keyAnchor is the name the key itself is anchored with
	keyAnchor string
}

// toAny gives the value Any() should produce, in the form of norm.
func (v *val) toAny() any {
	switch v.kind {
	case vNull:
		return nil
	case vBool:
		return v.b
	case vInt:
		if v.neg {
			return int64(-v.u)
		}
		if v.u <= math.MaxInt64 {
			return int64(v.u)
		}
		return v.u
	case vFloat:
		return v.f
	case vStr:
		return v.s
	case vSeq:
		out := make([]any, len(v.seq))
		for i, e := range v.seq {
			out[i] = e.toAny()
		}
		return out
	case vAlias:
		return v.target.toAny()
	default:
		out := map[string]any{}
		for _, e := range v.ents {
			if !e.merge {
				out[e.key] = e.v.toAny()
			}
		}
		for _, e := range v.ents {
			if e.merge {
				mergeInto(out, e.v)
			}
		}
		return out
	}
}

func (v *val) deref() *val {
	for v.kind == vAlias {
		v = v.target
	}
	return v
}

// mergeInto adds the entries of the merged mappings which are not present yet.
func mergeInto(dst map[string]any, m *val) {
	m = m.deref()
	if m.kind == vSeq {
		for _, e := range m.seq {
			mergeInto(dst, e)
		}
		return
	}
	for k, x := range m.toAny().(map[string]any) {
		if _, ok := dst[k]; !ok {
			dst[k] = x
		}
	}
}

func (v *val) depth() int {
	d := 0
	for _, e := range v.seq {
		d = max(d, e.depth())
	}
	for _, e := range v.ents {
		d = max(d, e.v.depth())
	}
	if v.kind == vSeq || v.kind == vMap {
		d++
	}
	return d
}

func (v *val) count() int {
	n := 1
	for _, e := range v.seq {
		n += e.count()
	}
	for _, e := range v.ents {
		n += 1 + e.v.count()
	}
	return n
}

type genOpts struct {
	maxDepth, maxItems int
	maxStr             int
	anchors            bool
	merges             bool
	noNull             bool
	maxNodes           int
}

type vgen struct {
	t     *rapid.T
	o     genOpts
	names int
	used  map[string]bool
	// anchored holds completed anchored nodes which may be referred to
	anchored []*val
	nodes    int
}

func wordText(t *rapid.T) string {
	n := rapid.IntRange(1, 4).Draw(t, "wl")
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteRune(rapid.SampledFrom([]rune("abcdefgxyzABCZ0123456789")).Draw(t, "wc"))
	}
	return sb.String()
}

// modelText generates the texts of the value model.
func modelText(t *rapid.T, max int) string {
	switch rapid.IntRange(0, 9).Draw(t, "text") {
	case 0, 1, 2:
		return wordText(t)
	case 3, 4: // words with spaces and line breaks
		n := rapid.IntRange(1, 5).Draw(t, "words")
		var sb strings.Builder
		for i := 0; i < n; i++ {
			if i > 0 {
				sb.WriteString(rapid.SampledFrom([]string{" ", " ", " ", "\n", "\n\n", "  ", "\n ", " \n", "\t", "\n\t", "\n\n\n"}).Draw(t, "sep"))
			}
			sb.WriteString(wordText(t))
		}
		if rapid.IntRange(0, 3).Draw(t, "end") == 0 {
			sb.WriteString(rapid.SampledFrom([]string{"\n", "\n\n", " ", "\n \n", "\n\n\n"}).Draw(t, "tail"))
		}
		return sb.String()
	case 5: // words with punctuation
		n := rapid.IntRange(1, 4).Draw(t, "parts")
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteString(wordText(t))
			sb.WriteString(rapid.SampledFrom([]string{
				"-", ":", "#", "/", ".", "&", "*", "!", "|", ">", "%", "@", "'", "\"", "`", "=", "~", "+", "_", "?", " - ", " & ", " * ", " ! ",
				" | ", " > ", " % ", " ' ", " \" ", ", ", "[", "]", "{", "}", ": ", " #", " # ", "\\", "\\n", " -", "- ", "::", "--", "...", "http://x", "<<", "$", "(", ")", "^", ";",
			}).Draw(t, "punct"))
		}
		if rapid.Bool().Draw(t, "tailword") {
			sb.WriteString(wordText(t))
		}
		return sb.String()
	case 6: // texts which would be something else when plain
		return rapid.SampledFrom([]string{
			"", "null", "~", "Null", "true", "False", "1", "-1", "0x1f", "1.5", ".inf", ".nan", "1e3", "2001-12-14", "- a", "a: b", "# c", "[a]", "{a: b}",
			"&a", "*a", "!t", "|", ">", "'", "\"", "%x", "@x", "`x", "-", "?", ":", "---", "...", "--- a", "? a", ": a", "key:", " lead", "trail ", "\t", "\n", " ", "  ",
			"yes", "no", "0o17", "+1", "0", "-", "<", "=", "a,b", "a, b", "x]", "x}", "12e03", "0b1", "1_000", "-.inf", "...x", "---x",
			"-x", "?x", ":x", "-1x", "--", "--x", "-:x", "a?", "?a?b", "::", ":a:b", "-\tx", "a\tb", "a:\tb", "a\t#b",
		}).Draw(t, "typed")
	default:
		return anyText(max).Draw(t, "any")
	}
}

func (g *vgen) scalar() *val {
	t := g.t
	switch rapid.IntRange(0, 11).Draw(t, "scalar") {
	case 0:
		if g.o.noNull {
			return &val{kind: vStr, s: "nn"}
		}
		return &val{kind: vNull}
	case 1:
		return &val{kind: vBool, b: rapid.Bool().Draw(t, "b")}
	case 2, 3:
		switch rapid.IntRange(0, 3).Draw(t, "int") {
		case 0:
			return &val{kind: vInt, u: rapid.Uint64().Draw(t, "u")}
		case 1:
			x := rapid.Int64().Draw(t, "i")
			if x < 0 {
				return &val{kind: vInt, neg: true, u: uint64(-x)}
			}
			return &val{kind: vInt, u: uint64(x)}
		default:
			u := uint64(rapid.IntRange(0, 1000).Draw(t, "small"))
			return &val{kind: vInt, u: u, neg: u > 0 && rapid.Bool().Draw(t, "neg")}
		}
	case 4:
		f := rapid.Float64().Draw(t, "f")
		switch rapid.IntRange(0, 5).Draw(t, "fk") {
		case 0:
			f = rapid.SampledFrom([]float64{math.Inf(1), math.Inf(-1), math.NaN(), 0.5, -2.25, 1e100, 1e-100}).Draw(t, "fs")
		case 1, 2:
			f = float64(rapid.IntRange(-10000, 10000).Draw(t, "fi")) / 100
		}
		return &val{kind: vFloat, f: f}
	default:
		return &val{kind: vStr, s: modelText(t, g.o.maxStr)}
	}
}

func (g *vgen) newAnchor() string {
	g.names++
	prefix := rapid.SampledFrom([]string{"a", "A", "anc", "Anc", "x-1", "A_b", "a_b"}).Draw(g.t, "aname")
	// names may differ only in case or only in the number
	name := prefix + strconv.Itoa(g.names/3)
	if g.used == nil {
		g.used = map[string]bool{}
	}
	if g.used[name] {
		name = prefix + "-" + strconv.Itoa(g.names)
	}
	g.used[name] = true
	return name
}

func (g *vgen) value(depth int) *val {
	t := g.t
	if g.o.anchors && len(g.anchored) > 0 && rapid.IntRange(0, 4).Draw(t, "alias") == 4 {
		return &val{kind: vAlias, target: rapid.SampledFrom(g.anchored).Draw(t, "target")}
	}
	var v *val
	g.nodes++
	k := rapid.IntRange(0, 9).Draw(t, "kind")
	switch {
	case depth <= 0 || k < 5 || g.o.maxNodes > 0 && g.nodes > g.o.maxNodes:
		v = g.scalar()
	case k < 7:
		v = &val{kind: vSeq}
		n := rapid.IntRange(0, g.o.maxItems).Draw(t, "items")
		for i := 0; i < n; i++ {
			v.seq = append(v.seq, g.value(depth-1))
		}
	default:
		v = g.mapping(depth)
	}
	if g.o.anchors && v.kind != vAlias && rapid.IntRange(0, 3).Draw(t, "anchor") == 3 {
		v.anchor = g.newAnchor()
		g.anchored = append(g.anchored, v)
	}
	return v
}

func (g *vgen) mapping(depth int) *val {
	t := g.t
	v := &val{kind: vMap}
	n := rapid.IntRange(0, g.o.maxItems).Draw(t, "entries")
	seen := map[string]bool{}
	merged := false
	for i := 0; i < n; i++ {
		if g.o.merges && !merged && rapid.IntRange(0, 3).Draw(t, "merge") == 3 {
			if m := g.mergeValue(); m != nil {
				merged = true
				v.ents = append(v.ents, entry{key: "<<", v: m, merge: true})
				continue
			}
		}
		e := entry{key: modelText(t, g.o.maxStr)}
		if g.o.merges && rapid.Bool().Draw(t, "common") {
			e.key = rapid.SampledFrom([]string{"k1", "k2", "k3", "k4"}).Draw(t, "ck")
		}
		if g.o.anchors {
			for _, a := range g.anchored {
				if a.kind == vStr && !seen[a.s] && a.s != "<<" && rapid.IntRange(0, 3).Draw(t, "keyalias") == 3 {
					e.key, e.keyAlias = a.s, a
					break
				}
			}
		}
		if e.keyAlias == nil && !g.o.merges && chance(t, "quotedmerge", 1, 60) {
			e.key = "<<" // always written with quotes, so that it is a key like others
		}
		if e.keyAlias == nil && (e.key == "<<" && g.o.merges || e.key == "" && g.o.anchors) {
			e.key = "kk"
		}
		if seen[e.key] {
			continue
		}
		seen[e.key] = true
		if g.o.anchors && e.keyAlias == nil && rapid.IntRange(0, 5).Draw(t, "keyanchor") == 5 {
			e.keyAnchor = g.newAnchor()
			g.anchored = append(g.anchored, &val{kind: vStr, s: e.key, anchor: e.keyAnchor})
		}
		e.v = g.value(depth - 1)
		v.ents = append(v.ents, e)
	}
	return v
}

// mergeValue picks an anchored mapping (as alias), or a list of such, or an inline mapping.
func (g *vgen) mergeValue() *val {
	var maps []*val
	for _, a := range g.anchored {
		if a.deref().kind == vMap {
			maps = append(maps, a)
		}
	}
	one := func() *val {
		if len(maps) == 0 || rapid.IntRange(0, 3).Draw(g.t, "inline") == 3 {
			o := g.o
			g.o.merges, g.o.anchors = false, false
			m := g.mapping(0)
			g.o = o
			return m
		}
		return &val{kind: vAlias, target: rapid.SampledFrom(maps).Draw(g.t, "mt")}
	}
	if rapid.IntRange(0, 2).Draw(g.t, "mlist") == 2 {
		n := rapid.IntRange(1, 3).Draw(g.t, "mn")
		s := &val{kind: vSeq}
		for i := 0; i < n; i++ {
			s.seq = append(s.seq, one())
		}
		return s
	}
	return one()
}

// drawValue draws a value; a few are put deep into other collections, among many others or beside a long text.
func drawValue(t *rapid.T, o genOpts) *val {
	v := drawSmallValue(t, o)
	if o.maxDepth < 3 {
		return v
	}
	switch intn(t, "size", 0, 119) {
	case 119:
		for i := intn(t, "levels", 5, 36); i > 0; i-- {
			v = surround(v, rapid.Bool().Draw(t, "dseq"), func() *val { return &val{kind: vInt, u: uint64(i)} }, intn(t, "before", 0, 3)/3, intn(t, "behind", 0, 3)/3)
		}
	case 118:
		n := intn(t, "wide", 10, 120)
		k := intn(t, "at", 0, n)
		v = surround(v, rapid.Bool().Draw(t, "wseq"), func() *val {
			n--
			return pick(t, "item", &val{kind: vInt, u: uint64(n)}, &val{kind: vStr, s: fmt.Sprint("w", n)}, &val{kind: vNull}, &val{kind: vSeq}, &val{kind: vMap}, &val{kind: vBool, b: true})
		}, k, n-k)
	case 117:
		l := &val{kind: vStr, s: strings.Repeat(pick(t, "long", "abcdefg ", "x", "é", "line of text\n"), pick(t, "times", 33, 129, 513, 1025)) + "e"}
		v = surround(v, rapid.Bool().Draw(t, "lseq"), func() *val { return l }, intn(t, "before", 0, 1), intn(t, "behind", 0, 1))
	}
	return v
}

// surround puts a value into a collection with others before and behind it.
func surround(v *val, seq bool, other func() *val, before, behind int) *val {
	var all []*val
	for i := 0; i < before; i++ {
		all = append(all, other())
	}
	all = append(all, v)
	for i := 0; i < behind; i++ {
		all = append(all, other())
	}
	if seq {
		return &val{kind: vSeq, seq: all}
	}
	m := &val{kind: vMap}
	for i, x := range all {
		m.ents = append(m.ents, entry{key: fmt.Sprintf("k%d", i), v: x})
	}
	return m
}

func drawSmallValue(t *rapid.T, o genOpts) *val {
	g := &vgen{t: t, o: o}
	d := rapid.IntRange(0, o.maxDepth).Draw(t, "depth")
	if d == 0 {
		return g.value(0)
	}
	// mostly collections at the root
	for i := 0; ; i++ {
		v := g.value(d)
		if i > 1 || v.kind == vSeq || v.kind == vMap {
			if v.kind == vAlias {
				return v.deref()
			}
			return v
		}
		// anchors of thrown away nodes must not be referred to
		g.anchored = nil
	}
}

// resolvesToString says whether a plain scalar with this text is a string for every schema involved.
func resolvesToString(s string) bool {
	if oNull(s) || s == "<<" || s == "=" {
		return false
	}
	if _, ok := oBool(s); ok {
		return false
	}
	if _, ok := oInt(s); ok {
		return false
	}
	if k, _, _ := oFloat(s); k != 0 {
		return false
	}
	if len(s) >= 6 && digitsOf(s[:4], dec) && s[4] == '-' {
		return false // looks like a timestamp
	}
	n := yaml.Node{Kind: yaml.ScalarNode, Value: s}
	return n.ShortTag() == "!!str"
}

func oneLinePrintable(s string) bool {
	for _, r := range s {
		if !oPrintable(r) || r == '\n' || r == '\r' || r == 0x85 || r == 0x2028 || r == 0x2029 || r == 0xfeff {
			return false
		}
	}
	return true
}

const indicators = "-?:,[]{}#&*!|>'\"%@`"

// plainOK says whether the text may be written as a one-line plain scalar in the context.
func plainOK(s string, flow bool) bool {
	if s == "" || !oneLinePrintable(s) || strings.Trim(s, " \t") != s {
		return false
	}
	rs := []rune(s)
	if strings.ContainsRune(indicators, rs[0]) {
		if flow && rs[0] != '-' || len(rs) < 2 || !strings.ContainsRune("-?:", rs[0]) || rs[1] == ' ' || rs[1] == '\t' {
			return false
		}
	}
	if strings.Contains(s, ": ") || strings.Contains(s, ":\t") || strings.HasSuffix(s, ":") || strings.Contains(s, " #") || strings.Contains(s, "\t#") {
		return false
	}
	if flow {
		if strings.ContainsAny(s, ",[]{}?") {
			return false
		}
		// a colon inside of flow collections is safe only between word characters
		for i, r := range rs {
			if r == ':' && (i == 0 || i == len(rs)-1 || !isAlnum(rs[i+1])) {
				return false
			}
		}
	}
	return true
}

// plainSafe says whether a text that is plain outside of flow collections is plain inside of them as well (YAML 1.2);
// a single question mark among the words is kept out.
func plainSafe(s string) bool {
	if strings.ContainsAny(s, ",[]{}") || strings.Contains(s+" ", " ? ") || strings.Contains(s+" ", "\t? ") || strings.Contains(s, "?\t") {
		return false
	}
	return true
}

// markerLike says whether the text is a document marker where it starts a line.
func markerLike(s string) bool {
	return (strings.HasPrefix(s, "---") || strings.HasPrefix(s, "...")) && (len(s) == 3 || s[3] == ' ')
}

func isAlnum(r rune) bool {
	return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9'
}

func fmtFloats(f float64, t *rapid.T) string {
	switch {
	case math.IsNaN(f):
		return pick(t, "nan", ".nan", ".NaN", ".NAN")
	case math.IsInf(f, 1):
		return pick(t, "inf", ".inf", ".Inf", ".INF", "+.inf")
	case math.IsInf(f, -1):
		return pick(t, "ninf", "-.inf", "-.Inf", "-.INF")
	}
	s := strconv.FormatFloat(f, pick(t, "ffmt", byte('e'), byte('E'), byte('f'), byte('g')), -1, 64)
	if len(s) > 60 {
		s = strconv.FormatFloat(f, 'e', -1, 64)
	}
	if !strings.ContainsAny(s, ".eE") {
		s += pick(t, "fdot", ".0", ".", "e0", ".00")
	}
	return s
}

func fmtInts(v *val, t *rapid.T) string {
	d := strconv.FormatUint(v.u, 10)
	if v.neg {
		return "-" + d
	}
	switch rapid.IntRange(0, 5).Draw(t, "ifmt") {
	case 0:
		return "0x" + strconv.FormatUint(v.u, 16)
	case 1:
		return "0o" + strconv.FormatUint(v.u, 8)
	case 2:
		return "+" + d
	default:
		return d
	}
}

func (v *val) String() string {
	switch v.kind {
	case vAlias:
		return "*" + v.target.anchor
	default:
		return fmt.Sprint(v.toAny())
	}
}
