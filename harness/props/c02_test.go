package props

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/KSpaceer/yamly/engines/yayamls/yamlchar"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
)

// oPrintable is the c-printable production [1] of the YAML specification.
func oPrintable(r rune) bool {
	return r == '\t' || r == '\n' || r == '\r' || r >= 0x20 && r <= 0x7e || r == 0x85 || r >= 0xa0 && r <= 0xd7ff ||
		r >= 0xe000 && r <= 0xfffd || r >= 0x10000 && r <= 0x10ffff
}

// unDouble is the oracle for unescaping: ok is false for malformed texts.
func unDouble(s string) (string, bool) {
	rs := []rune(s)
	var sb strings.Builder
	for i := 0; i < len(rs); i++ {
		r := rs[i]
		if r == '"' {
			return "", false
		}
		if r != '\\' {
			if r != '\t' && r < 0x20 {
				return "", false
			}
			sb.WriteRune(r)
			continue
		}
		i++
		if i >= len(rs) {
			return "", false
		}
		simple := map[rune]rune{
			'0': 0, 'a': 7, 'b': 8, 't': 9, '\t': 9, 'n': 10, 'v': 11, 'f': 12, 'r': 13, 'e': 27, ' ': ' ', '"': '"', '/': '/',
			'\\': '\\', 'N': 0x85, '_': 0xa0, 'L': 0x2028, 'P': 0x2029,
		}
		if x, ok := simple[rs[i]]; ok {
			sb.WriteRune(x)
			continue
		}
		n := map[rune]int{'x': 2, 'u': 4, 'U': 8}[rs[i]]
		if n == 0 || i+n >= len(rs) {
			return "", false
		}
		v := int64(0)
		for j := 1; j <= n; j++ {
			d := strings.IndexRune("0123456789abcdef", rs[i+j])
			if d < 0 {
				d = strings.IndexRune("0123456789ABCDEF", rs[i+j])
			}
			if d < 0 {
				return "", false
			}
			v = v*16 + int64(d)
		}
		i += n
		if v > 0x10ffff || v >= 0xd800 && v <= 0xdfff {
			return "", false // not a character; the caller decides
		}
		sb.WriteRune(rune(v))
	}
	return sb.String(), true
}

func init() {
	reg("C02", "double", "random UTF-8 texts (control characters, every escape, all planes) double quoted; the quoted text is one "+
		"line of printable characters, unquotes to the same text by the code under test, by a hand written unescaper and by yaml.v3; "+
		"non-trivial: at least one character needs escaping", 40000, 1000000, func(t *rapid.T, c *ctx) {
		s := anyText(24).Draw(t, "text")
		c.Case("%q", s)
		q, err := yamlchar.ConvertToYAMLDoubleQuotedString(s)
		if err != nil {
			c.Failf("quoting failed: %v", err)
		}
		c.Nontrivial(q != s)
		for _, r := range q {
			if !oPrintable(r) || r == '\n' || r == '\r' || r == 0x85 || r == 0x2028 || r == 0x2029 || r == 0xfeff {
				c.Failf("quoted text %q contains character %U", q, r)
			}
		}
		if strings.Contains(strings.ReplaceAll(strings.ReplaceAll(q, `\\`, ""), `\"`, ""), `"`) {
			c.Failf("quoted text %q contains a bare double quote", q)
		}
		if back, err := yamlchar.ConvertFromYAMLDoubleQuotedString(q); err != nil || back != s {
			c.Failf("unquoting %q gives %q, %v", q, back, err)
		}
		if back, ok := unDouble(q); !ok || back != s {
			c.Failf("quoted text %q means %q", q, back)
		}
		var v string
		if err := yaml.Unmarshal([]byte(`"`+q+`"`), &v); err != nil || v != s {
			c.Failf("yaml.v3 reads %q as %q, %v", q, v, err)
		}
		if !yamlchar.IsDoubleQuotedString(q) {
			c.Failf("%q is not recognized as double quoted text", q)
		}
	})

	reg("C02", "single", "random UTF-8 texts single quoted; unquoting gives the text back whenever it consists of characters "+
		"allowed in single quotes, yaml.v3 reads printable one-line texts the same; non-trivial: contains a quote",
		40000, 1000000, func(t *rapid.T, c *ctx) {
			s := anyText(24).Draw(t, "text")
			if chance(t, "quotes", 1, 2) {
				s = strings.Map(func(r rune) rune {
					if r < 0x20 || r == '*' || r == '#' {
						return '\''
					}
					return r
				}, s)
			}
			c.Case("%q", s)
			q, err := yamlchar.ConvertToYAMLSingleQuotedString(s)
			if err != nil {
				c.Failf("quoting failed: %v", err)
			}
			c.Nontrivial(strings.Contains(s, "'"))
			if q != strings.ReplaceAll(s, "'", "''") {
				c.Failf("quoted to %q", q)
			}
			jsonOnly := true
			printable := true
			for _, r := range s {
				if r != '\t' && r < 0x20 {
					jsonOnly = false
				}
				if !oPrintable(r) || r == '\n' || r == '\r' || r == 0x85 || r == 0x2028 || r == 0x2029 || r == 0xfeff {
					printable = false
				}
			}
			back, err := yamlchar.ConvertFromYAMLSingleQuotedString(q)
			if jsonOnly && (err != nil || back != s) {
				c.Failf("unquoting %q gives %q, %v", q, back, err)
			}
			if !jsonOnly && err == nil {
				c.Failf("unquoting %q accepts control characters", q)
			}
			if jsonOnly != yamlchar.IsSingleQuotedString(q) {
				c.Failf("IsSingleQuotedString(%q) is %v", q, !jsonOnly)
			}
			if printable {
				c.Label("printable")
				var v string
				if err := yaml.Unmarshal([]byte(`'`+q+`'`), &v); err != nil || v != s {
					c.Failf("yaml.v3 reads '%s' as %q, %v", q, v, err)
				}
			}
			// a lone quote is malformed
			if i := intn(t, "at", 0, len([]rune(q))); jsonOnly {
				rs := []rune(q)
				bad := string(rs[:i]) + "'" + string(rs[i:])
				n := strings.Count(bad, "'")
				if n%2 == 1 {
					if v, err := yamlchar.ConvertFromYAMLSingleQuotedString(bad); err == nil {
						c.Failf("%q with an odd number of quotes is unquoted to %q", bad, v)
					}
				}
			}
		})

	reg("C02", "escapes", "texts assembled of valid, truncated, unknown and mixed-case escape sequences and plain characters, judged by "+
		"a hand written unescaper: same value or both reject; non-trivial: contains an escape sequence",
		40000, 1000000, func(t *rapid.T, c *ctx) {
			n := intn(t, "n", 0, 8)
			var sb strings.Builder
			for i := 0; i < n; i++ {
				switch intn(t, "part", 0, 9) {
				case 0, 1, 2:
					sb.WriteString(`\` + pick(t, "esc", "0", "a", "b", "t", "\t", "n", "v", "f", "r", "e", " ", `"`, "/", `\`, "N", "_", "L", "P"))
				case 3:
					fmt.Fprintf(&sb, pick(t, "x", `\x%02x`, `\x%02X`), intn(t, "v", 0, 255))
				case 4:
					v := intn(t, "v", 0, 0xffff)
					if v >= 0xd800 && v <= 0xdfff {
						v -= 0x1000
					}
					fmt.Fprintf(&sb, pick(t, "u", `\u%04x`, `\u%04X`), v)
				case 5:
					v := intn(t, "v", 0, 0x10ffff)
					if v >= 0xd800 && v <= 0xdfff {
						v -= 0x1000
					}
					fmt.Fprintf(&sb, pick(t, "U", `\U%08x`, `\U%08X`), v)
				case 6, 7:
					sb.WriteString(anyText(3).Draw(t, "plain"))
				case 8:
					sb.WriteString(`\` + string(rune(intn(t, "unknown", 0x20, 0x7e))))
				default:
					sb.WriteString(pick(t, "cut", `\x`, `\x4`, `\u`, `\u00`, `\u004`, `\U0000004`, `\xg1`, `\u00g1`, `\`, `\x+1`, `\u-001`, `\X41`))
				}
			}
			s := sb.String()
			c.Case("%q", s)
			c.Nontrivial(strings.Contains(s, `\`))
			want, ok := unDouble(s)
			got, err := yamlchar.ConvertFromYAMLDoubleQuotedString(s)
			if ok {
				c.Label("valid")
			}
			if ok != (err == nil) || ok && got != want {
				c.Failf("unescaped to %q, %v; want %q, ok %v", got, err, want, ok)
			}
			if ok && utf8.ValidString(s) && !strings.ContainsAny(s, "\u0085\u2028\u2029\ufeff") {
				printable := true
				for _, r := range s {
					if !oPrintable(r) {
						printable = false
					}
				}
				if printable {
					var v string
					if err := yaml.Unmarshal([]byte(`"`+s+`"`), &v); err == nil && v != got {
						c.Failf("yaml.v3 reads %q as %q, the unescaped text is %q", s, v, got)
					}
				}
			}
		})

	reg("C02", "no character", "escapes of numbers which are no characters (surrogates, numbers above U+10FFFF) between other texts: refused or replaced by U+FFFD, never another character; non-trivial: all",
		10000, 300000, func(t *rapid.T, c *ctx) {
			pre, post := pick(t, "pre", "", "a", "\\n", "é", "\\x41"), pick(t, "post", "", "1", "\\t", "F")
			v := uint32(intn(t, "surrogate", 0xd800, 0xdfff))
			f := pick(t, "form", `\u%04x`, `\U%08X`)
			if chance(t, "high", 2, 3) {
				v, f = 0x110000+uint32(intn(t, "high", 0, 0xffffffff-0x110000)), pick(t, "U", `\U%08x`, `\U%08X`)
				if chance(t, "low bits", 1, 2) {
					v = v&0xff800000 | 0x01000000 | uint32(intn(t, "char", 0x20, 0x10ffff))
				}
			}
			s := pre + fmt.Sprintf(f, v) + post
			c.Case("%q", s)
			c.Nontrivial(true)
			a, _ := unDouble(pre)
			b, _ := unDouble(post)
			if got, err := yamlchar.ConvertFromYAMLDoubleQuotedString(s); err == nil && got != a+"\ufffd"+b {
				c.Failf("unescaped to %q", got)
			}
		})
	reg("C02", "invalid", "texts which are not valid UTF-8 are refused by both quoting functions; non-trivial: all",
		5000, 100000, func(t *rapid.T, c *ctx) {
			s := anyText(6).Draw(t, "pre") + pick(t, "bad", "\xff", "\xc3", "\xed\xa0\x80", "\xf5\x80\x80\x80", "\x80", "\xc0\x80", "\xe2\x82") +
				pick(t, "post", "", "x", "'", "\"", "\n")
			c.Case("%q", s)
			c.Nontrivial(true)
			if q, err := yamlchar.ConvertToYAMLDoubleQuotedString(s); err == nil {
				c.Failf("double quoted to %q", q)
			}
			if q, err := yamlchar.ConvertToYAMLSingleQuotedString(s); err == nil {
				c.Failf("single quoted to %q", q)
			}
		})

	reg("C02", "decoded", "quoted scalars inside of documents (as root, key, block and flow item, with random escapes) decoded by the yayamls "+
		"reader mean what the hand written unescaper and yaml.v3 say; malformed escapes are reported; non-trivial: contains an escape or quote",
		20000, 400000, func(t *rapid.T, c *ctx) {
			single := rapid.Bool().Draw(t, "single")
			var src, want string
			if single {
				want = strings.Map(func(r rune) rune {
					if !oPrintable(r) || r == '\n' || r == '\r' || r == 0x85 || r == 0x2028 || r == 0x2029 || r == 0xfeff || r == '\t' {
						return '\''
					}
					return r
				}, anyText(16).Draw(t, "text"))
				src = "'" + strings.ReplaceAll(want, "'", "''") + "'"
			} else {
				n := intn(t, "n", 0, 6)
				var sb strings.Builder
				for i := 0; i < n; i++ {
					switch intn(t, "part", 0, 5) {
					case 0, 1:
						sb.WriteString(`\` + pick(t, "esc", "0", "a", "b", "t", "n", "v", "f", "r", "e", " ", `"`, "/", `\`, "N", "_", "L", "P"))
					case 2:
						fmt.Fprintf(&sb, `\x%02x`, intn(t, "v", 0, 255))
					case 3:
						fmt.Fprintf(&sb, `\u%04x`, intn(t, "v", 0, 0xd7ff))
					case 4:
						fmt.Fprintf(&sb, `\U%08x`, intn(t, "v", 0x10000, 0x10ffff))
					default:
						sb.WriteString(pick(t, "plain", "a", " ", "x y", "'", "#", " #", ": ", "- ", "[", "]", "{", "}", ",", "&", "*", "!", "%", "|", ">", "é", "中", "\U0001f600"))
					}
				}
				var ok bool
				if want, ok = unDouble(sb.String()); !ok {
					c.Failf("harness: oracle refuses %q", sb.String())
				}
				src = `"` + sb.String() + `"`
			}
			form := intn(t, "form", 0, 6)
			doc := fmt.Sprintf([]string{"%s", "%s\n", "- %s\n", "k: %s\n", "[%s]", "{k: %s}", "%s: 1\n"}[form], src)
			c.Case("%q", doc)
			c.Nontrivial(strings.ContainsAny(src[1:len(src)-1], `\'`))
			var exp any
			switch form {
			case 0, 1:
				exp = want
			case 2, 4:
				exp = []any{want}
			case 3, 5:
				exp = map[string]any{"k": want}
			default:
				exp = map[string]any{want: int64(1)}
			}
			got, err := anyOf(yayEngine, []byte(doc))
			if err != nil || !same(norm(got), exp) {
				c.Failf("read as %s, %v; want %s", show(got), err, show(exp))
			}
			if v, err := v3Any([]byte(doc)); err == nil && !same(v, exp) {
				c.Failf("harness: yaml.v3 reads %s, oracle says %s", show(v), show(exp))
			}
		})
}
