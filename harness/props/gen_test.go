package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/token"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"

	"pgregory.net/rapid"

	"verifharness/gensup"
)

// tdecl is a declared type of a generated package.
type tdecl struct {
	name   string
	src    string // without "type name"
	strct  bool
	keys   []string // keys of own fields of a struct which may be inlined
	target bool
	mapKey bool
	byRef  bool // may only be used behind pointers, slices and maps (declared later)
}

// pkgGen draws the declarations of a package.
type pkgGen struct {
	t     *rapid.T
	decls []*tdecl
	n     int
	feats map[string]bool

	withAny, withEngine bool
	exotic              bool     // types that need not round-trip but have to compile
	open                []*tdecl // targets being declared: for recursion
	targetName          string   // if not empty
	names               map[string]bool
}

func (g *pkgGen) num() int              { g.n++; return g.n }
func (g *pkgGen) feat(s string)         { g.feats[s] = true }
func (g *pkgGen) one(n int) bool        { return chance(g.t, "c", 1, n) }
func (g *pkgGen) of(s ...string) string { return rapid.SampledFrom(s).Draw(g.t, "of") }

var basicTypes = []string{"string", "string", "string", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64"}

// name draws a name which is new; some names differ from earlier ones by underscores or the case of a letter only.
func (g *pkgGen) name(prefixes ...string) string {
	if g.names == nil {
		g.names = map[string]bool{}
	}
	if g.targetName == "" && len(g.decls) > 0 && g.one(4) {
		n := g.decls[len(g.decls)-1-intn(g.t, "alike", 0, min(len(g.decls), 3)-1)].name
		r := []rune(n)
		switch intn(g.t, "how alike", 0, 3) {
		case 0:
			n = string(r[:1]) + "_" + string(r[1:])
		case 1:
			n += "_"
		case 2:
			n += "1"
		default:
			if unicode.IsUpper(r[0]) {
				r[0] = unicode.ToLower(r[0])
			} else {
				r[0] = unicode.ToUpper(r[0])
			}
			n = string(r)
		}
		if !g.names[n] && !predeclared[n] {
			g.feat("names alike")
			g.names[n] = true
			return n
		}
	}
	prefix := g.of(prefixes...)
	n := fmt.Sprintf("%s%d", prefix, g.num())
	for g.names[n] {
		n = fmt.Sprintf("%s%d", prefix, g.num())
	}
	g.names[n] = true
	return n
}

var predeclared = map[string]bool{"int8": true, "int16": true}

func (g *pkgGen) declare(prefix, src string) *tdecl {
	d := &tdecl{name: g.name(prefix), src: src}
	g.decls = append(g.decls, d)
	return d
}

// keyType draws a type of map keys.
func (g *pkgGen) keyType() string {
	if g.exotic && g.one(4) {
		g.feat("exotic key")
		if len(g.open) > 0 && g.one(3) {
			return g.of("*", "[1]*") + g.open[len(g.open)-1].name
		}
		return g.of("[2]int", "[2]byte", "*int", "time.Time", "any", "struct{ A int }", "other.Pt")
	}
	switch intn(g.t, "key", 0, 9) {
	case 0:
		g.feat("text key")
		return g.of("TextV", "TextS")
	case 1:
		return g.declare("K", g.of("string", "int16", "uint8", "bool")).name
	case 2:
		return g.of("other.Kind", "time.Duration")
	case 3, 4:
		return g.of("int", "int8", "uint64", "bool", "float64", "float32", "uint8", "int64")
	default:
		return "string"
	}
}

func (g *pkgGen) typ(depth int) string {
	if depth <= 0 {
		switch intn(g.t, "leaf", 0, 9) {
		case 0:
			g.feat("time")
			return "time.Time"
		case 1:
			g.feat("named basic")
			return g.declare(g.of("B", "b"), rapid.SampledFrom(basicTypes).Draw(g.t, "basic")).name
		case 2:
			g.feat("own methods")
			return g.custom()
		case 3:
			g.feat("other package")
			return g.of("other.Pt", "other.Kind", "time.Duration", "*other.Pt", "other.List", "other2.Pt", "other2.Pt", "other2.List", "other.Outer", "other3.Pt", "other3.List", "struct{ A other.Kind; B other2.Pt; C *other3.Pt }")
		case 4:
			g.feat("bytes")
			return g.of("[]byte", "[3]byte", "[]uint8")
		}
		return rapid.SampledFrom(basicTypes).Draw(g.t, "basic")
	}
	if g.exotic && g.one(8) {
		g.feat("exotic")
		return g.of("Both", "struct{}", "[0]int", "**int", "[]struct{}", "other.Named", "map[string]struct{}", "Box[int]", "Box[string]", "*Box[[]int]", "Box[TextV]", "[]Box[other.Pt]", "Box[*Box[other2.Pt]]", "*Box[map[other.Kind][]YamlyC]", "Box[time.Time]", "Pair[string, other.List]", "Pair[TextS, Box[EngC]]", "other.Gen[TextV]", "[]other.Gen[Pair[int, other2.Kind]]", "map[string]other.Gen[[2]other.Gen[any]]", "Box[struct{ A int; B other.Pt }]", "Box[struct{ A int `yaml:\"a.b/c.d\"` }]", "Pair[other3.Kind, *other3.Pt]", "[2][2]int8", "***string", "*any", "[]*any", "*[]byte", "*[2]byte", "[][]byte", "[0]struct{}", "map[string]Both", "*Both", "map[[2]int8]*time.Time", "*map[string]int", "[]*[]*int", "struct{ *YamlyC }", "Alias", "[]Alias")
	}
	switch intn(g.t, "type", 0, 16) {
	case 13:
		g.feat("generic type")
		return g.of("Box[int]", "Box[TextV]", "[]Box[other.Pt]", "Box[*Box[other2.Pt]]", "*Box[map[other.Kind][]YamlyC]", "Pair[string, other.List]", "Pair[TextS, Box[YamlyP]]", "other.Gen[TextV]", "[]other.Gen[Pair[int, other2.Kind]]", "map[string]other.Gen[other.Gen[bool]]", "Box[[]byte]", "Pair[other2.Kind, Box[other3.Pt]]")
	case 0, 1:
		g.feat("slice")
		return "[]" + g.typ(depth-1)
	case 2:
		g.feat("array")
		return fmt.Sprintf("[%d]%s", intn(g.t, "len", 0, 3), g.typ(depth-1))
	case 3, 4:
		g.feat("map")
		return "map[" + g.keyType() + "]" + g.typ(depth-1)
	case 5, 6:
		g.feat("pointer")
		return "*" + g.typ(depth-1)
	case 7:
		g.feat("helper struct")
		d := &tdecl{name: g.name("H", "h"), strct: true}
		d.src = g.structSrc(depth-1, d)
		g.decls = append(g.decls, d)
		return d.name
	case 8:
		g.feat("anonymous struct")
		return g.structSrc(depth-1, &tdecl{})
	case 9:
		g.feat("named collection")
		e := g.typ(depth - 1)
		return g.declare(g.of("C", "c"), g.of("[]"+e, "map[string]"+e, "[2]"+e, "[]byte", "[]uint8")).name
	case 10:
		// an earlier type
		var names []string
		for _, d := range g.decls {
			names = append(names, d.name)
		}
		if len(names) > 0 {
			g.feat("shared type")
			return rapid.SampledFrom(names).Draw(g.t, "earlier")
		}
		return "string"
	case 11:
		if len(g.open) > 0 {
			g.feat("recursion")
			n := rapid.SampledFrom(g.open).Draw(g.t, "open").name
			if g.exotic && g.one(4) {
				return g.of("map[*"+n+"]int", "map[*"+n+"]"+"[]"+n, "[]map[[1]*"+n+"]string")
			}
			return g.of("*"+n, "[]"+n, "map[string]"+n, "[]*"+n, "map[int]*"+n)
		}
		return "string"
	case 12:
		if g.withAny {
			g.feat("any")
			return g.of("any", "[]any", "map[string]any", "interface{}")
		}
		return g.typ(0)
	default:
		return g.typ(0)
	}
}

func (g *pkgGen) custom() string {
	if g.withEngine && g.one(2) {
		return g.of("EngC", "*EngC", "[]EngC", "map[string]EngC", "EngP", "[]*EngP", "[2]EngC", "map[string]EngP")
	}
	return g.of("TextV", "TextS", "*TextV", "[]TextS", "map[string]TextV", "YamlyC", "*YamlyC", "YamlyP", "[]YamlyP", "[2]TextS", "map[string]YamlyP", "[]*YamlyC", "map[string]*YamlyP")
}

var strangeKeys = []string{"a b", "with:colon", "日本", "true", "123", "null", "~", "a-b", "A.B", "#x", "- d", "'q'", "é", "<<", "x: y", "1.5", "[z]", "*s", "&s", "!s", "%p", "@at", "yes", "key", "0x1f", "a\\b", "in", "out", "default"}

// structSrc draws a struct type and registers the keys of its own fields.
func (g *pkgGen) structSrc(depth int, d *tdecl) string {
	var lines []string
	usedKeys := map[string]bool{}
	usedNames := map[string]bool{}
	for i := intn(g.t, "fields", 0, 5); i > 0; i-- {
		name := fmt.Sprintf("F%d", g.num())
		if g.one(8) {
			name = fmt.Sprintf("Ünï%d", g.num())
		}
		tag := ""
		key := name
		switch intn(g.t, "tag", 0, 9) {
		case 0:
			g.feat("ignored field")
			if g.exotic && g.one(2) {
				g.feat("ignored field of an unsupported type")
				lines = append(lines, g.of(fmt.Sprintf("%s %s `yaml:\"-\"`", name, g.bad()), fmt.Sprintf("f%d %s", g.num(), g.bad())))
				continue
			}
			lines = append(lines, fmt.Sprintf("%s %s `yaml:\"-\"`", name, g.typ(depth-1)))
			continue
		case 1:
			g.feat("unexported field")
			name = fmt.Sprintf("f%d", g.num())
			lines = append(lines, fmt.Sprintf("%s %s %s", name, g.typ(0), g.of("", "`yaml:\"hidden\"`", "`yaml:\",inline\"`")))
			continue
		case 2, 3:
			if g.one(12) {
				key, tag = "-", "-," // no ignored field, as in encoding/json
				g.feat("key -")
				break
			}
			key = rapid.SampledFrom(strangeKeys).Draw(g.t, "key")
			g.feat("strange key")
			tag = key
		case 4, 5:
			key = fmt.Sprintf("k%d", g.num())
			tag = key
		case 6:
			key = strings.ToLower(name)
			tag = key
		}
		if usedKeys[key] {
			continue
		}
		usedKeys[key] = true
		d.keys = append(d.keys, key)
		if g.one(3) {
			g.feat("omitempty field")
			tag += ",omitempty"
			if g.one(4) {
				tag += ",flow"
			}
		}
		line := name + " " + g.typ(depth-1)
		if tag != "" {
			q := "yaml:" + fmt.Sprintf("%q", tag)
			if g.one(4) {
				q = `json:"other" ` + q
			}
			if g.one(6) {
				g.feat("quoted tag")
				line += " " + strconv.Quote(g.of("doc:\"`x`\" "+q, q+" doc:\"`\"", q))
			} else {
				line += " `" + q + "`"
			}
		} else if g.one(6) {
			line += " `json:\"other\"`"
		}
		lines = append(lines, line)
	}
	// inlined and embedded structs; own fields hide inlined ones with the same key
	ownKeys := map[string]bool{}
	for k := range usedKeys {
		ownKeys[k] = true
	}
	for i := intn(g.t, "inl", 0, 5) - 3; i > 0; i-- {
		h := &tdecl{name: g.name("E", "e"), strct: true}
		h.src = g.structSrc(depth-1, h)
		g.decls = append(g.decls, h)
		conflict := false
		for _, k := range h.keys {
			conflict = conflict || usedKeys[k] && !ownKeys[k]
		}
		if conflict || usedNames[h.name] {
			continue
		}
		for _, k := range h.keys {
			usedKeys[k] = true
		}
		d.keys = append(d.keys, h.keys...)
		ptr := g.of("", "", "*")
		switch intn(g.t, "how", 0, 4) {
		case 0, 1:
			g.feat("embedded" + ptr)
			lines = append(lines, ptr+h.name)
			if token.IsExported(h.name) {
				d.keys = append(d.keys, h.name)
			}
		case 2:
			g.feat("embedded inline" + ptr)
			lines = append(lines, ptr+h.name+" "+g.inlineTag())
		case 3:
			g.feat("embedded with key" + ptr)
			key := fmt.Sprintf("ek%d", g.num())
			lines = append(lines, ptr+h.name+" `yaml:\""+key+"\"`")
		default:
			g.feat("inlined field" + ptr)
			lines = append(lines, fmt.Sprintf("I%d %s%s %s", g.num(), ptr, h.name, g.inlineTag()))
		}
	}
	return "struct {\n" + strings.Join(lines, "\n") + "\n}"
}

func (g *pkgGen) inlineTag() string {
	return g.of("`yaml:\",inline\"`", "`yaml:\",inline\"`", "`yaml:\",omitempty,inline\"`", "`yaml:\",inline,flow\"`", "`yaml:\",flow,inline\"`")
}

// bad draws a type which has no YAML representation.
func (g *pkgGen) bad() string {
	return g.of("chan int", "<-chan string", "func()", "func(int) error", "complex64", "complex128", "uintptr", "Odd", "error", "fmt.Stringer", "interface{ Odd() }", "OddFunc", "OddChan", "yamly.MarshalerYamly", "yamly.UnmarshalerYamly")
}

// badDecl draws declarations of which Bad cannot be represented.
func (g *pkgGen) badDecl() string {
	typ := g.bad()
	decls := ""
	for i := intn(g.t, "wraps", 0, 3); i > 0; i-- {
		switch intn(g.t, "wrap", 0, 9) {
		case 0:
			typ = "[]" + typ
		case 1:
			typ = "map[string]" + typ
		case 2:
			typ = "*" + typ
		case 3:
			typ = "[2]" + typ
		case 4:
			typ = "struct {\nA int\nB " + typ + "\n}"
		case 5, 6:
			n := fmt.Sprintf("H%d", g.num())
			decls += "type " + n + " struct {\nA string\nB " + typ + " " + g.of("", "`yaml:\"b\"`", "`yaml:\",omitempty\"`") + "\n}\n\n"
			typ = n
		case 7:
			n := fmt.Sprintf("E%d", g.num())
			e := fmt.Sprintf("E%d", g.num())
			decls += "type " + e + " struct {\nB " + typ + "\n}\n\ntype " + n + " struct {\n" + g.of(e, "*"+e, e+" `yaml:\",inline\"`", "I "+e+" `yaml:\",inline\"`", "I *"+e+" `yaml:\",inline\"`", e+" `yaml:\"k\"`") + "\n}\n\n"
			typ = n
		case 8:
			n := fmt.Sprintf("N%d", g.num())
			decls += "type " + n + " " + g.of("[]", "map[string]", "[3]") + typ + "\n\n"
			typ = n
		default:
			decls += "type R" + fmt.Sprint(g.num()) + " int\n\n"
		}
	}
	return decls + "type Bad struct {\nF string\nG " + typ + " " + g.of("", "`yaml:\"g,omitempty\"`", "`yaml:\"other\"`") + "\n}\n"
}

func (g *pkgGen) target() *tdecl {
	d := &tdecl{name: g.name("T", "Target", "t", "HTTPConf", "Tü"), target: true}
	if g.targetName != "" {
		d.name = g.targetName
	}
	g.open = append(g.open, d)
	depth := intn(g.t, "depth", 1, 4)
	switch intn(g.t, "shape", 0, 9) {
	case 0:
		d.src = "[]" + g.typ(depth-1)
	case 1:
		d.src = "map[" + g.keyType() + "]" + g.typ(depth-1)
	case 2:
		d.src = rapid.SampledFrom(basicTypes).Draw(g.t, "basic")
	case 3:
		d.src = fmt.Sprintf("[%d]%s", intn(g.t, "len", 1, 3), g.typ(depth-1))
	default:
		d.src = g.structSrc(depth, d)
		d.strct = true
	}
	// a plain recursion by value cannot be declared; all recursive uses are behind slices, maps and pointers
	g.open = g.open[:len(g.open)-1]
	g.decls = append(g.decls, d)
	return d
}

type variant struct {
	engine                        string
	omit, disallow, ptr, inlineEm bool
	pkg                           string
}

func drawVariant(t *rapid.T, i int, engine string) variant {
	return variant{engine: engine, omit: chance(t, "omitempty", 1, 3), disallow: chance(t, "disallow", 1, 3), ptr: chance(t, "ptr", 1, 3), inlineEm: rapid.Bool().Draw(t, "inline"), pkg: fmt.Sprintf("v%d", i)}
}

func (v variant) String() string {
	return fmt.Sprintf("%s:%s omitempty=%v disallow=%v ptr=%v inline=%v", v.pkg, v.engine, v.omit, v.disallow, v.ptr, v.inlineEm)
}

const otherSrc = `// Package other has types used by generated code of other packages.
package other

type hidden struct {
	HA int
	HB string ` + "`yaml:\"hb,omitempty\"`" + `
}

type Outer struct {
	hidden
	OC string
}

type Pt struct {
	X int8
	Y float32 ` + "`yaml:\"y,omitempty\"`" + `
}

type Kind string

type List []Pt

type Named map[Kind]*Pt

type Gen[T any] []T
`

const customSrc = `
var (
	_ time.Duration
	_ other.Pt
	_ other2.Pt
	_ other3.Pt
	_ yamly.Decoder
)

type TextV struct {
	A int8
	B uint8
}

func (t TextV) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("%d/%d", t.A, t.B)), nil }
func (t *TextV) UnmarshalText(b []byte) error {
	_, err := fmt.Sscanf(string(b), "%d/%d", &t.A, &t.B)
	return err
}
func (t TextV) DocYAML() string { return fmt.Sprintf("%d/%d", t.A, t.B) }

type TextS string

func (t *TextS) MarshalText() ([]byte, error) { return []byte("<" + *t + ">"), nil }
func (t *TextS) UnmarshalText(b []byte) error {
	if len(b) < 2 || b[0] != '<' || b[len(b)-1] != '>' {
		return fmt.Errorf("%q is no text of TextS", b)
	}
	*t = TextS(b[1 : len(b)-1])
	return nil
}
func (t TextS) DocYAML() string { return gensup.Quote("<" + string(t) + ">") }

type YamlyC struct {
	N int
	S string
}

func (c YamlyC) MarshalYamly(out yamly.Inserter) {
	out.StartSequence()
	out.InsertInteger(int64(c.N))
	out.InsertString(c.S)
	out.EndSequence()
}

func (c *YamlyC) UnmarshalYamly(in yamly.Decoder) {
	st := in.Sequence()
	if st.Size() != 2 {
		in.AddError(fmt.Errorf("%d items", st.Size()))
		return
	}
	c.N, c.S = int(in.Integer(0)), in.String()
}
func (c YamlyC) DocYAML() string { return fmt.Sprintf("[%d, %s]", c.N, gensup.Quote(c.S)) }

type YamlyP struct{ V uint16 }

func (c *YamlyP) MarshalYamly(out yamly.Inserter) {
	out.StartMapping()
	out.InsertString("v")
	out.InsertUnsigned(uint64(c.V))
	out.EndMapping()
}

func (c *YamlyP) UnmarshalYamly(in yamly.Decoder) {
	st := in.Mapping()
	for st.HasUnprocessedItems() {
		in.String()
		c.V = uint16(in.Unsigned(16))
	}
}
func (c YamlyP) DocYAML() string { return fmt.Sprintf("{v: %d}", c.V) }

type Both interface {
	yamly.MarshalerYamly
	yamly.UnmarshalerYamly
}

type Box[T any] struct{ Val T }

type Pair[K comparable, V any] struct {
	K K
	V V ` + "`yaml:\"v\"`" + `
	M map[K]*V
}

type Alias = map[string]other.Pt

type Odd interface{ Odd() }

type OddFunc func() int

type OddChan chan bool
`

var engineSrc = map[string]string{
	"yayamls": `
type EngC struct {
	N int
	S string
}

func (c EngC) MarshalYAML() ([]byte, error) { return []byte(c.DocYAML()), nil }
func (c *EngC) UnmarshalYAML(b []byte) error {
	var v []yaml.Node
	if err := yaml.Unmarshal(b, &v); err != nil {
		return err
	}
	if len(v) != 2 {
		return fmt.Errorf("%q is no EngC", b)
	}
	if err := v[0].Decode(&c.N); err != nil {
		return err
	}
	return v[1].Decode(&c.S)
}
func (c EngC) DocYAML() string { return fmt.Sprintf("[%d, %s]", c.N, gensup.Quote(c.S)) }

type EngP struct{ V int32 }

func (c *EngP) MarshalYAML() ([]byte, error) { return []byte(c.DocYAML()), nil }
func (c *EngP) UnmarshalYAML(b []byte) error {
	var v struct{ P *int32 }
	v.P = &c.V
	return yaml.Unmarshal(b, &v)
}
func (c EngP) DocYAML() string { return fmt.Sprintf("{p: %d}", c.V) }

type EngI interface {
	MarshalYAML() ([]byte, error)
	UnmarshalYAML([]byte) error
}
`,
	"goyaml": `
type EngC struct {
	N int
	S string
}

func (c EngC) MarshalYAML() (any, error) {
	// quoted, because yaml.v3 cannot read some of the block scalars it writes
	return []any{c.N, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Style: yaml.DoubleQuotedStyle, Value: c.S}}, nil
}
func (c *EngC) UnmarshalYAML(n *yaml.Node) error {
	if n.Kind != yaml.SequenceNode || len(n.Content) != 2 {
		return fmt.Errorf("no EngC")
	}
	if err := n.Content[0].Decode(&c.N); err != nil {
		return err
	}
	return n.Content[1].Decode(&c.S)
}
func (c EngC) DocYAML() string { return fmt.Sprintf("[%d, %s]", c.N, gensup.Quote(c.S)) }

type EngP struct{ V int32 }

func (c *EngP) MarshalYAML() (any, error) { return map[string]int32{"p": c.V}, nil }
func (c *EngP) UnmarshalYAML(n *yaml.Node) error {
	var v struct{ P *int32 }
	v.P = &c.V
	return n.Decode(&v)
}
func (c EngP) DocYAML() string { return fmt.Sprintf("{p: %d}", c.V) }

type EngI interface {
	MarshalYAML() (any, error)
	UnmarshalYAML(*yaml.Node) error
}
`}

// batch is a scratch module with a few packages of types and generated code.
type batch struct {
	dir      string
	other2   string // directories of packages named other
	other3   string
	variants []variant
	targets  []*tdecl
	types    string
	refuse   []string // refused targets: sources of a package each
}

func (b *batch) write(name, text string) {
	p := filepath.Join(b.dir, name)
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		panic("harness: " + err.Error())
	}
	if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
		panic("harness: " + err.Error())
	}
}

func verifDir() string {
	if d := os.Getenv("VP_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// foreignPaths are directories of the second foreign package, whose name is always other.
var foreignPaths = []string{"deep/other", "deep/other", "deep/other", "deep/other", "deep/other", "deep/other", "deep/other", "other_", "other_", "other_", "other_", "deep-other", "deep-other", "x/o.ther", "x/v2", "x/vx", "x/go", "x/type", "x/3d", "x/in", "x/out", "x/string", "x/yamly", "x/key"}

func thirdPath(t *rapid.T) string {
	if chance(t, "third alike", 1, 2) {
		// names which differ from those of the others in punctuation only
		return pick(t, "third path", "x3/other", "x3/other", "x3/other", "other-", "other~", "deep/other-", "x/v2-", "deep-_other")
	}
	return "x3/" + pick(t, "third path", foreignPaths...)
}

func newBatch(t *rapid.T) *batch {
	dir, err := os.MkdirTemp(os.Getenv("VP_OUT"), "batch")
	if err != nil {
		panic("harness: " + err.Error())
	}
	b := &batch{dir: dir, other2: pick(t, "foreign path", foreignPaths...), other3: thirdPath(t)}
	h := filepath.Join(verifDir(), "harness")
	mod, err := os.ReadFile(filepath.Join(h, "go.mod"))
	if err != nil {
		panic("harness: " + err.Error())
	}
	sum, err := os.ReadFile(filepath.Join(h, "go.sum"))
	if err != nil {
		panic("harness: " + err.Error())
	}
	m := strings.Replace(string(mod), "module verifharness", "module gentest", 1)
	m += "\nrequire verifharness v0.0.0\n\nreplace verifharness => " + h + "\n"
	b.write("go.mod", m)
	b.write("go.sum", string(sum))
	b.write("other/other.go", otherSrc)
	b.write(b.other2+"/other.go", strings.Replace(otherSrc, "X int8", "X int64", 1))
	b.write(b.other3+"/other.go", strings.Replace(otherSrc, "X int8", "Z string", 1))
	return b
}

func (b *batch) remove() { os.RemoveAll(b.dir) }

// run runs a command of the batch; bad says how it failed.
func (b *batch) run(limit time.Duration, name string, args ...string) (out []byte, bad string) {
	cctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(cctx, name, args...)
	cmd.Dir = b.dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOMAXPROCS=2")
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	err := cmd.Run()
	if cctx.Err() != nil {
		return stdout.Bytes(), fmt.Sprintf("%s %v does not end", name, args)
	}
	if err != nil {
		text := stdout.String() + stderr.String()
		if len(text) > 4000 {
			text = text[:4000]
		}
		return stdout.Bytes(), fmt.Sprintf("%s %v: %v\n%s", name, args, err, text)
	}
	return stdout.Bytes(), ""
}

func (b *batch) pkgHeader(pkg string) string {
	return "package " + pkg + "\n\nimport (\n\t\"fmt\"\n\t\"time\"\n\n\t\"gentest/other\"\n\tother2 \"gentest/" + b.other2 + "\"\n\tother3 \"gentest/" + b.other3 + "\"\n\t\"github.com/KSpaceer/yamly\"\n\t\"verifharness/gensup\"\n\t\"gopkg.in/yaml.v3\"\n)\n\nvar _ = fmt.Sprint\nvar _ yaml.Node\n"
}

func (v variant) setup() string {
	return fmt.Sprintf("g.SetEngineGenerator(%s.Generator); g.SetOmitempty(%v); g.SetDisallowUnknownFields(%v); g.SetEncodePointerReceiver(%v); g.SetInlineEmbedded(%v)", v.engine, v.omit, v.disallow, v.ptr, v.inlineEm)
}

// snake names the file of a type; names may differ in case only, file names do not on some systems.
func snake(s string) string { return fmt.Sprintf("gen_%x", s) }

// stubs are what the generator command compiles the package with while it generates.
func (v variant) stubs(ds []*tdecl) string {
	var sb strings.Builder
	sb.WriteString("package " + v.pkg + "\n")
	for _, d := range ds {
		recv := d.name
		if v.ptr {
			recv = "*" + recv
		}
		fmt.Fprintf(&sb, "func (%s) MarshalYAML() ([]byte, error) { return nil, nil }\nfunc (*%s) UnmarshalYAML([]byte) error { return nil }\ntype Exporter_yamly_%s *%s\n", recv, d.name, d.name, d.name)
	}
	return sb.String()
}

const genMain = `
func one(dir, file string, want bool, mk func() (*generator.Generator, any)) {
	var outs [2][]byte
	for i := range outs {
		func() {
			defer func() {
				if p := recover(); p != nil {
					fail("%s/%s: the generator panics: %v\n%s", dir, file, p, debug.Stack())
				}
			}()
			var buf bytes.Buffer
			g, v := mk()
			g.AddType(v)
			err := g.Generate(&buf)
			if want != (err == nil) {
				if err == nil {
					fail("%s/%s: a type which cannot be represented is not refused", dir, file)
				}
				fail("%s/%s: the type is refused: %v", dir, file, err)
			}
			outs[i] = buf.Bytes()
		}()
	}
	if !want {
		return
	}
	if !bytes.Equal(outs[0], outs[1]) {
		fail("%s/%s: two runs of the generator give different code:\n%s\n-----\n%s", dir, file, outs[0], outs[1])
	}
	src, err := format.Source(outs[0])
	if err != nil {
		fail("%s/%s: the code cannot be formatted: %v\n%s", dir, file, err, outs[0])
	}
	if err := os.WriteFile(filepath.Join(os.Args[1], dir, file), src, 0o644); err != nil {
		panic(err)
	}
}

func fail(format string, args ...any) {
	fmt.Fprintf(os.Stdout, "FAIL "+format+"\n", args...)
	os.Exit(0)
}
`

// generate writes the packages and runs the generator over all targets. bad describes a failure of the code under test.
func (b *batch) generate() (bad string) {
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\"bytes\"\n\"fmt\"\n\"go/format\"\n\"os\"\n\"path/filepath\"\n\"runtime/debug\"\n\"github.com/KSpaceer/yamly/generator\"\n\"github.com/KSpaceer/yamly/engines/yayamls\"\n\"github.com/KSpaceer/yamly/engines/goyaml\"\n")
	for i, v := range b.variants {
		fmt.Fprintf(&sb, "%s \"gentest/%s\"\n", v.pkg, v.pkg)
		for j := range b.refuse {
			if i == j%len(b.variants) {
				fmt.Fprintf(&sb, "r%d \"gentest/r%d\"\n", j, j)
			}
		}
	}
	sb.WriteString(")\n\nvar _ = yayamls.Generator\nvar _ = goyaml.Generator\n\nfunc main() {\n")
	for _, v := range b.variants {
		b.write(v.pkg+"/types.go", b.pkgHeader(v.pkg)+customSrc+engineSrc[v.engine]+"\n"+b.types)
		b.write(v.pkg+"/stubs.go", v.stubs(b.targets))
		for _, d := range b.targets {
			fmt.Fprintf(&sb, "one(%q, %q, true, func() (*generator.Generator, any) { g := generator.New(%q); g.SetPkgName(%q); g.SetPkgPath(%q); %s; return g, %s.Exporter_yamly_%s(nil) })\n",
				v.pkg, snake(d.name)+".go", snake(d.name)+".go", v.pkg, "gentest/"+v.pkg, v.setup(), v.pkg, d.name)
		}
	}
	for j, src := range b.refuse {
		v := b.variants[j%len(b.variants)]
		v.pkg = fmt.Sprintf("r%d", j)
		b.write(v.pkg+"/types.go", b.pkgHeader(v.pkg)+customSrc+engineSrc[v.engine]+"\n"+src)
		b.write(v.pkg+"/stubs.go", v.stubs([]*tdecl{{name: "Bad"}}))
		fmt.Fprintf(&sb, "one(%q, %q, false, func() (*generator.Generator, any) { g := generator.New(%q); g.SetPkgName(%q); g.SetPkgPath(%q); %s; return g, %s.Exporter_yamly_Bad(nil) })\n",
			v.pkg, "bad.go", "bad.go", v.pkg, "gentest/"+v.pkg, v.setup(), v.pkg)
	}
	sb.WriteString("}\n" + genMain)
	b.write("gen/main.go", sb.String())
	if _, bad := b.run(5*time.Minute, "go", "build", "-o", "gen.exe", "./gen"); bad != "" {
		panic("harness: " + bad)
	}
	// each run writes to a directory of its own: the code must be the same
	for _, d := range []string{"out1", "out2"} {
		for _, v := range b.variants {
			if err := os.MkdirAll(filepath.Join(b.dir, d, v.pkg), 0o755); err != nil {
				panic("harness: " + err.Error())
			}
		}
		out, bad := b.run(2*time.Minute, "./gen.exe", d)
		if bad != "" {
			return bad
		}
		if i := bytes.Index(out, []byte("FAIL ")); i >= 0 {
			return string(out[i+5:])
		}
	}
	for _, v := range b.variants {
		os.Remove(filepath.Join(b.dir, v.pkg, "stubs.go"))
		for _, d := range b.targets {
			f := snake(d.name) + ".go"
			a, err1 := os.ReadFile(filepath.Join(b.dir, "out1", v.pkg, f))
			c, err2 := os.ReadFile(filepath.Join(b.dir, "out2", v.pkg, f))
			if err1 != nil || err2 != nil {
				panic(fmt.Sprint("harness: ", err1, err2))
			}
			if !bytes.Equal(a, c) {
				return fmt.Sprintf("%s/%s: two processes generate different code:\n%s\n-----\n%s", v.pkg, f, a, c)
			}
			b.write(v.pkg+"/"+f, string(a))
		}
	}
	return ""
}

// check compiles the generated code and runs a mode of gensup on it.
func (b *batch) check(c *ctx, mode string, seed int64, perEntry int, extra ...string) (bad string) {
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\"verifharness/gensup\"\n")
	for _, v := range b.variants {
		fmt.Fprintf(&sb, "%s \"gentest/%s\"\n", v.pkg, v.pkg)
		news := "package " + v.pkg + "\n"
		for _, d := range b.targets {
			news += fmt.Sprintf("func New_%s() any { return new(%s) }\n", d.name, d.name)
		}
		b.write(v.pkg+"/news.go", news)
	}
	sb.WriteString(")\n\nfunc main() {\ngensup.Main([]gensup.Entry{\n")
	for _, v := range b.variants {
		for _, d := range b.targets {
			fmt.Fprintf(&sb, "{Pkg: %q, Engine: %q, Type: %q, Omitempty: %v, Disallow: %v, PtrRecv: %v, Inline: %v, New: %s.New_%s},\n",
				v.pkg, v.engine, d.name, v.omit, v.disallow, v.ptr, v.inlineEm, v.pkg, d.name)
		}
	}
	sb.WriteString("})\n}\n")
	b.write("run/main.go", sb.String())
	if _, bad := b.run(5*time.Minute, "go", "build", "-o", "run.exe", "./run"); bad != "" {
		return "the generated code does not compile:\n" + bad
	}
	out, bad := b.run(4*time.Minute, "./run.exe", append([]string{mode, fmt.Sprint(seed), fmt.Sprint(perEntry)}, extra...)...)
	if bad != "" {
		if strings.Contains(bad, "harness:") {
			panic("harness: " + bad)
		}
		return bad
	}
	var res gensup.Result
	if err := json.Unmarshal(out, &res); err != nil {
		panic("harness: " + err.Error() + ": " + string(out))
	}
	if f := res.Failure; f != nil {
		c.desc = fmt.Sprintf("%s\nvalue: %s\ndocument: %q\nin %s", f.Entry, f.Value, f.Doc, c.desc)
		return fmt.Sprintf("%s: %s", f.Entry, f.Message)
	}
	c.merge(res)
	return ""
}

// merge adds the cases of a program to the statistics.
func (c *ctx) merge(res gensup.Result) {
	c.stats.Evals += res.Evaluations
	for _, h := range res.Hashes {
		c.seen[h] = struct{}{}
	}
	c.stats.NonTrivial += len(res.Hashes)
	if len(c.stats.Samples) < 3 {
		c.stats.Samples = append(c.stats.Samples, res.Samples...)
	}
	for k, n := range res.Labels {
		c.stats.Labels[k] += n
	}
}

func (b *batch) describe() string {
	var sb strings.Builder
	for _, v := range b.variants {
		fmt.Fprintf(&sb, "%s\n", v)
	}
	for _, d := range b.targets {
		sb.WriteString("target " + d.name + "\n")
	}
	sb.WriteString(b.types)
	for i, r := range b.refuse {
		fmt.Fprintf(&sb, "refused r%d:\n%s\n", i, r)
	}
	return sb.String()
}

// drawBatch draws targets and packages.
func drawBatch(t *rapid.T, g *pkgGen, targets int, engines []string) *batch {
	b := newBatch(t)
	for i, e := range engines {
		b.variants = append(b.variants, drawVariant(t, i, e))
	}
	for i := 0; i < targets; i++ {
		b.targets = append(b.targets, g.target())
	}
	var sb strings.Builder
	for _, d := range g.decls {
		fmt.Fprintf(&sb, "type %s %s\n\n", d.name, d.src)
	}
	b.types = sb.String()
	return b
}

func (g *pkgGen) labels(c *ctx) {
	var fs []string
	for f := range g.feats {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		c.Label(f)
	}
}

func batchSeed(b *batch) int64 {
	h := fnv.New32a()
	h.Write([]byte(b.describe()))
	return int64(h.Sum32())
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func drawEngines(t *rapid.T, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, pick(t, "engine", "yayamls", "goyaml"))
	}
	return out
}

func init() {
	gen := func(mode string, perEntry int, engs func(t *rapid.T, g *pkgGen) []string, extra ...string) func(t *rapid.T, c *ctx) {
		return func(t *rapid.T, c *ctx) {
			g := &pkgGen{t: t, feats: map[string]bool{}}
			es := engs(t, g)
			b := drawBatch(t, g, intn(t, "targets", 4, 8), es)
			defer b.remove()
			c.Case("%s", b.describe())
			c.Nontrivial(true)
			g.labels(c)
			if bad := b.generate(); bad != "" {
				c.Failf("%s", bad)
			}
			if bad := b.check(c, mode, batchSeed(b), perEntry, extra...); bad != "" {
				c.Failf("%s", bad)
			}
		}
	}
	both := func(t *rapid.T, g *pkgGen) []string {
		g.withEngine = true
		return append([]string{"yayamls", "goyaml"}, drawEngines(t, 1)...)
	}
	onlyGo := func(t *rapid.T, g *pkgGen) []string {
		g.withEngine, g.withAny = true, true
		return []string{"goyaml", "goyaml"}
	}
	rule := "batches of 4 to 8 random target types (basic and named types, slices, arrays, maps, pointers, structs with random tags, embedded and inlined structs, recursion, types of other packages, types with own methods) times engines and flags, code generated and compiled from the tree under test; "
	reg("C17", "round trip", rule+"random values are marshalled, checked against the expected document with yaml.v3 and unmarshalled again; non-trivial: values of more than a few characters",
		120, 1500, gen("c17", 40, both))
	reg("C17", "round trip with any", rule+"also interface fields (goyaml engine only)", 30, 400, gen("c17", 40, onlyGo))
	reg("C18", "fields", rule+"random values are written and compared key by key with the mapping that tags and flags ask for; random documents with missing, null, unknown and ill-typed keys are read into random values and "+
		"compared with the expected value; non-trivial: documents and values of more than a few characters", 120, 1500, gen("c18", 60, both))
	reg("C18", "fields with any", rule+"also interface fields, reading only", 30, 400, gen("c18", 60, func(t *rapid.T, g *pkgGen) []string {
		g.withEngine, g.withAny = true, true
		return []string{"yayamls", "goyaml"}
	}, "decode-only"))
	reg("C19", "targets", "batches of 4 to 8 random target types including unusual ones (generic types, aliases, empty structs, interfaces with marshalling methods, composite keys, deep pointers, ignored fields of unsupported types) and 2 to 5 types "+
		"with an unsupported part, times engines and flags: the generator runs twice in each of two processes; the code has to be equal, formatted, compile and give the promised methods, unsupported types have to be refused; non-trivial: each target and each refused type",
		150, 1500, func(t *rapid.T, c *ctx) {
			g := &pkgGen{t: t, feats: map[string]bool{}, withEngine: true, withAny: true, exotic: true}
			b := drawBatch(t, g, intn(t, "targets", 4, 8), append([]string{"yayamls", "goyaml"}, drawEngines(t, 1)...))
			defer b.remove()
			for i := intn(t, "refused", 2, 5); i > 0; i-- {
				b.refuse = append(b.refuse, g.badDecl())
			}
			c.Case("%s", b.describe())
			c.Nontrivial(true)
			g.labels(c)
			if bad := b.generate(); bad != "" {
				c.Failf("%s", bad)
			}
			if bad := b.check(c, "c19", batchSeed(b), 1); bad != "" {
				c.Failf("%s", bad)
			}
			for _, r := range b.refuse {
				c.merge(gensup.Result{Evaluations: 1, Hashes: []uint64{hash64(r)}, Labels: map[string]int{"refused type": 1}, Samples: []string{r}})
			}
		})
	reg("C23", "generated types", rule+"values written by code of one engine are read by code of the other, with the decoders and encoders of both; non-trivial: values of more than a few characters",
		32, 900, gen("c23", 25, func(t *rapid.T, g *pkgGen) []string { return []string{"yayamls", "goyaml"} }))
}
