package props

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/KSpaceer/yamly"
	gdecode "github.com/KSpaceer/yamly/engines/goyaml/decode"
	gencode "github.com/KSpaceer/yamly/engines/goyaml/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	ydecode "github.com/KSpaceer/yamly/engines/yayamls/decode"
	yencode "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
)

// engine gives uniform access to both engines.
type engine struct {
	name    string
	reader  func(src []byte) (yamly.Decoder, error)
	encoder func() yamly.Encoder
}

func yayReader(src []byte) (yamly.Decoder, error) {
	r, err := ydecode.NewASTReaderFromBytes(src)
	if err != nil {
		return nil, err
	}
	return r, nil
}

func goReader(src []byte) (yamly.Decoder, error) {
	var n yaml.Node
	if err := yaml.Unmarshal(src, &n); err != nil {
		return nil, err
	}
	if n.Kind == 0 {
		return nil, yamly.ErrEndOfStream
	}
	return gdecode.NewASTReader(&n), nil
}

var (
	yayEngine = engine{
		name:   "yayamls",
		reader: yayReader,
		encoder: func() yamly.Encoder {
			return yamly.NewEncoder[ast.Node](yencode.NewASTBuilder(), yencode.NewASTWriter())
		},
	}
	goEngine = engine{
		name:   "goyaml",
		reader: goReader,
		encoder: func() yamly.Encoder {
			return yamly.NewEncoder[*yaml.Node](&gencode.ASTBuilder{}, &gencode.ASTWriter{})
		},
	}
	engines = []engine{yayEngine, goEngine}
)

// anyOf reads the whole document generically.
func anyOf(e engine, src []byte) (any, error) {
	r, err := e.reader(src)
	if err != nil {
		return nil, err
	}
	v := r.Any()
	return v, r.Error()
}

// v3Any reads a document with gopkg.in/yaml.v3 itself (the independent YAML parser) and normalizes the result.
func v3Any(src []byte) (any, error) {
	var n yaml.Node
	if err := yaml.Unmarshal(src, &n); err != nil {
		return nil, err
	}
	var check any // decoding makes yaml.v3 detect further errors
	if err := n.Decode(&check); err != nil {
		return nil, err
	}
	return v3Value(&n)
}

// v3Value gives the value of a tree of yaml.v3. Keys are taken as texts.
func v3Value(n *yaml.Node) (any, error) {
	switch n.Kind {
	case 0:
		return nil, nil
	case yaml.DocumentNode:
		return v3Value(n.Content[0])
	case yaml.AliasNode:
		return v3Value(n.Alias)
	case yaml.SequenceNode:
		out := make([]any, len(n.Content))
		for i, e := range n.Content {
			v, err := v3Value(e)
			if err != nil {
				return nil, err
			}
			out[i] = v
		}
		return out, nil
	case yaml.MappingNode:
		out := map[string]any{}
		var merged []*yaml.Node
		for i := 0; i < len(n.Content); i += 2 {
			k, e := n.Content[i], n.Content[i+1]
			if k.Kind == yaml.AliasNode {
				k = k.Alias
			}
			if k.ShortTag() == "!!merge" {
				merged = append(merged, e)
				continue
			}
			v, err := v3Value(e)
			if err != nil {
				return nil, err
			}
			if k.Kind != yaml.ScalarNode {
				return nil, fmt.Errorf("a key is no scalar")
			}
			out[k.Value] = v
		}
		var merge func(m *yaml.Node) error
		merge = func(m *yaml.Node) error {
			switch m.Kind {
			case yaml.AliasNode:
				return merge(m.Alias)
			case yaml.SequenceNode:
				for _, e := range m.Content {
					if err := merge(e); err != nil {
						return err
					}
				}
				return nil
			}
			v, err := v3Value(m)
			if err != nil {
				return err
			}
			mm, ok := v.(map[string]any)
			if !ok {
				return fmt.Errorf("merged value is no mapping")
			}
			for k, e := range mm {
				if _, ok := out[k]; !ok {
					out[k] = e
				}
			}
			return nil
		}
		for _, m := range merged {
			if err := merge(m); err != nil {
				return nil, err
			}
		}
		return out, nil
	default:
		var v any
		if err := n.Decode(&v); err != nil {
			return nil, err
		}
		if _, ok := v.(float64); ok { // yaml.v3 takes big integers with a plus sign for floats
			if i, ok := oInt(n.Value); ok && i.IsUint64() {
				return norm(i.Uint64()), nil
			}
		}
		return norm(v), nil
	}
}

// norm maps values to a canonical form: integers to int64, or uint64 when they do not fit, maps to map[string]any.
func norm(v any) any {
	switch x := v.(type) {
	case int:
		return int64(x)
	case uint64:
		if x <= math.MaxInt64 {
			return int64(x)
		}
		return x
	case []any:
		out := make([]any, len(x))
		for i := range x {
			out[i] = norm(x[i])
		}
		return out
	case map[string]any:
		out := make(map[string]any, len(x))
		for k, e := range x {
			out[k] = norm(e)
		}
		return out
	case map[any]any:
		out := make(map[string]any, len(x))
		for k, e := range x {
			out[fmt.Sprint(k)] = norm(e)
		}
		return out
	default:
		return v
	}
}

// same compares values structurally; NaN equals NaN, times compare as instants.
func same(a, b any) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && (x == y && math.Signbit(x) == math.Signbit(y) || x != x && y != y)
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) || (x == nil) != (y == nil) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k, e := range x {
			f, ok := y[k]
			if !ok || !same(e, f) {
				return false
			}
		}
		return true
	default:
		return reflect.DeepEqual(a, b)
	}
}

func show(v any) string { return fmt.Sprintf("%#v", v) }

func quoteSrc(src string) string { return fmt.Sprintf("%q", src) }

// parseYay parses in the way the decoders do.
func parseYay(src string) (ast.Node, error) {
	return parser.ParseString(src, parser.WithOmitStream(), parser.WithUnescapedQuotedText())
}

func pick[T any](t *rapid.T, label string, xs ...T) T { return rapid.SampledFrom(xs).Draw(t, label) }

func intn(t *rapid.T, label string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, label) }

func chance(t *rapid.T, label string, num, of int) bool {
	return rapid.IntRange(0, of-1).Draw(t, label) >= of-num
}

func repeat(s string, n int) string { return strings.Repeat(s, n) }

// anyText generates valid UTF-8 texts rich in characters which matter to YAML.
func anyText(max int) *rapid.Generator[string] {
	special := rapid.SampledFrom([]rune{
		' ', ' ', '\t', '\n', '\n', '\r', '\'', '"', '\\', '#', ':', '-', '?', ',', '[', ']', '{', '}', '&', '*', '!',
		'|', '>', '%', '@', '`', '~', '.', '=', '<', '0', '1', 'a', 'b', 'x', 'n', 'e', '/', '_', '+',
		0, 1, 7, 8, 0x0b, 0x0c, 0x1b, 0x1f, 0x7f, 0x80, 0x84, 0x85, 0x86, 0x9f, 0xa0, 0xad, 0x2028, 0x2029, 0x200b,
		0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10fffd, 0x10fffe, 0x10ffff, 'é', 'ж', '中',
	})
	letters := rapid.SampledFrom([]rune("abcxyzABC0129 "))
	anyRune := rapid.Custom(func(t *rapid.T) rune {
		for {
			r := rune(rapid.IntRange(0, 0x10ffff).Draw(t, "r"))
			if r < 0xd800 || r > 0xdfff {
				return r
			}
			return 0xfffd
		}
	})
	return rapid.Custom(func(t *rapid.T) string {
		n := rapid.IntRange(0, max).Draw(t, "len")
		var sb strings.Builder
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 9).Draw(t, "kind") {
			case 0, 1, 2, 3:
				sb.WriteRune(letters.Draw(t, "l"))
			case 4, 5, 6, 7, 8:
				sb.WriteRune(special.Draw(t, "s"))
			default:
				sb.WriteRune(anyRune.Draw(t, "a"))
			}
		}
		return sb.String()
	})
}

// printableText generates texts of printable characters on one line, never looking like a non-string scalar.
func safeDouble(s string) string {
	// an independent double quoter: escapes everything except letters, digits and spaces
	var sb strings.Builder
	sb.WriteByte('"')
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == ' ':
			sb.WriteRune(r)
		case r < 0x100:
			fmt.Fprintf(&sb, "\\x%02x", r)
		case r < 0x10000:
			fmt.Fprintf(&sb, "\\u%04x", r)
		default:
			fmt.Fprintf(&sb, "\\U%08x", r)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}
