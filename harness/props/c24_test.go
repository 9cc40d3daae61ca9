package props

import (
	"fmt"
	"regexp"
	"strings"
	"unicode"

	"github.com/KSpaceer/yamly/engines/yayamls/token"
	"github.com/KSpaceer/yamly/engines/yayamls/yamlchar"
	"pgregory.net/rapid"
)

// The productions of YAML 1.2.2, written down as tables of the standard library and regular expressions.

func table(ranges ...rune) *unicode.RangeTable {
	t := &unicode.RangeTable{}
	for i := 0; i < len(ranges); i += 2 {
		t.R32 = append(t.R32, unicode.Range32{Lo: uint32(ranges[i]), Hi: uint32(ranges[i+1]), Stride: 1})
	}
	return t
}

type runeClass struct {
	name string
	got  func(rune) bool
	want func(rune) bool
}

func in(t *unicode.RangeTable) func(rune) bool { return func(r rune) bool { return unicode.Is(t, r) } }

func among(s string) func(rune) bool { return func(r rune) bool { return strings.ContainsRune(s, r) } }

var runeClasses = []runeClass{
	{"IsDigit", yamlchar.IsDigit, in(table('0', '9'))},
	{"IsHexDigit", yamlchar.IsHexDigit, among("0123456789abcdefABCDEF")},
	{"AreHexDigits", func(r rune) bool { return yamlchar.AreHexDigits('0', r, 'f') }, among("0123456789abcdefABCDEF")},
	{"IsASCIILetter", yamlchar.IsASCIILetter, in(table('A', 'Z', 'a', 'z'))},
	{"IsFlowIndicatorChar", yamlchar.IsFlowIndicatorChar, among(",[]{}")},
	{"IsJSONChar", yamlchar.IsJSONChar, in(table('\t', '\t', 0x20, 0x10ffff))},
	{"IsPrintableChar", yamlchar.IsPrintableChar, in(table('\t', '\n', '\r', '\r', 0x20, 0x7e, 0x85, 0x85, 0xa0, 0xd7ff, 0xe000, 0xfffd, 0x10000, 0x10ffff))},
	{"IsWhitespaceChar", yamlchar.IsWhitespaceChar, among(" \t")},
	{"IsLineBreakChar", yamlchar.IsLineBreakChar, among("\n\r")},
	{"IsBlankChar", yamlchar.IsBlankChar, among(" \t\n\r")},
}

const (
	reEsc   = `\\([0abt\tnvfre "/\\N_LP]|x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8})`
	reNbEsc = `[^\x00-\x08\x0a-\x1f"\\]`
)

type textClass struct {
	name string
	cst  yamlchar.CharSetType
	got  func(string) bool
	want *regexp.Regexp
	// leave says which texts are left out, because the predicate is used with others only
	leave func(string) bool
}

var textClasses = []textClass{
	{"IsDecimal", yamlchar.DecimalCharSetType, yamlchar.IsDecimal, regexp.MustCompile(`^[0-9]*$`), nil},
	{"IsWord", yamlchar.WordCharSetType, yamlchar.IsWord, regexp.MustCompile(`^[0-9A-Za-z-]*$`), nil},
	{"IsURI", yamlchar.URICharSetType, yamlchar.IsURI, regexp.MustCompile(`^(%[0-9a-fA-F]{2}|[0-9A-Za-z#;/?:@&=+$,_.!~*'()\[\]-])*$`), nil},
	{"IsTagString", yamlchar.TagCharSetType, yamlchar.IsTagString, regexp.MustCompile(`^(%[0-9a-fA-F]{2}|[0-9A-Za-z#;/?:@&=+$_.~*'()-])*$`), nil},
	{"IsAnchorString", yamlchar.AnchorCharSetType, yamlchar.IsAnchorString, regexp.MustCompile(`^[^,\[\]{}]*$`), notNsChars},
	{"IsPlainSafeString", yamlchar.PlainSafeCharSetType, yamlchar.IsPlainSafeString, regexp.MustCompile(`^[^,\[\]{}]*$`), notNsChars},
	{"IsSingleQuotedString", yamlchar.SingleQuotedCharSetType, yamlchar.IsSingleQuotedString, regexp.MustCompile(`^(''|[^\x00-\x08\x0a-\x1f'])*$`), nil},
	{"IsDoubleQuotedString", yamlchar.DoubleQuotedCharSetType, yamlchar.IsDoubleQuotedString, regexp.MustCompile(`^(` + reEsc + `|` + reNbEsc + `)*$`), nil},
}

var oneEscape = regexp.MustCompile(`^` + reEsc)

// notNsChars: the productions exclude spaces and everything that is not printable; a token never contains breaks.
func notNsChars(s string) bool {
	for _, r := range s {
		if !oPrintable(r) || strings.ContainsRune(" \t\r\n\ufeff", r) {
			return true
		}
	}
	return false
}

// classText draws a text of characters of a class, possibly with one wrong character, digit or an incomplete escape.
func classText(t *rapid.T) string {
	alphabet := pick(t, "alphabet", "0123456789", "0189aZ-", "09azAZ-#;/?:@&=+$,_.!~*'()[]", "09azAZ-#;/?:@&=+$_.~*'()", "aé-: 字!#", "ab' \"\\\t", "az\" é", "xu0fF")
	rs := []rune(alphabet)
	var sb strings.Builder
	for i := intn(t, "len", 0, 10); i > 0; i-- {
		switch intn(t, "piece", 0, 19) {
		case 0:
			sb.WriteString("%" + hexDigits(t, 2))
		case 1:
			sb.WriteString("\\" + pick(t, "esc", "0", "a", "b", "t", "\t", "n", "v", "f", "r", "e", " ", "\"", "/", "\\", "N", "_", "L", "P", "'", "q", "X", "1", "\n"))
		case 2:
			k := pick(t, "hex", 2, 4, 8)
			sb.WriteString("\\" + map[int]string{2: "x", 4: "u", 8: "U"}[k] + hexDigits(t, k))
		case 3:
			sb.WriteString("''")
		default:
			sb.WriteRune(rapid.SampledFrom(rs).Draw(t, "c"))
		}
	}
	s := sb.String()
	if chance(t, "wrong", 1, 3) {
		all := []rune(s)
		i := intn(t, "at", 0, len(all))
		r := edgeRune(t)
		if rapid.Bool().Draw(t, "replace") && i < len(all) {
			all[i] = r
		} else {
			all = append(all[:i:i], append([]rune{r}, all[i:]...)...)
		}
		s = string(all)
	}
	if chance(t, "cut", 1, 4) && s != "" {
		rs := []rune(s)
		s = string(rs[:intn(t, "to", 0, len(rs)-1)])
	}
	return s
}

func hexDigits(t *rapid.T, n int) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		if chance(t, "nodigit", 1, 25) {
			sb.WriteString(pick(t, "bad", "g", "G", "@", "`", "/", ":", " ", "-"))
		} else {
			sb.WriteByte(rapid.SampledFrom([]byte("0123456789abcdefABCDEF")).Draw(t, "d"))
		}
	}
	return sb.String()
}

// edgeRune draws a character next to the border of some class, or any.
func edgeRune(t *rapid.T) rune {
	if chance(t, "any", 1, 4) {
		return rapid.Rune().Draw(t, "r")
	}
	b := rapid.SampledFrom([]rune{0, '\t', '\n', '\r', ' ', '0', '9', 'A', 'F', 'Z', 'a', 'f', 'z', '[', ']', '{', '}', ',', '~', 0x7f, 0x85, 0xa0, 0xfe, 0x100, 0x2028, 0xd7ff, 0xe000, 0xfeff,
		0xfffd, 0xffff, 0x10000, 0x1ffff, 0x10ffff, '!', '%', '\'', '"', '\\', '#', '-', '_'}).Draw(t, "edge")
	b += rune(intn(t, "off", -1, 1))
	if b < 0 || b > 0x10ffff || b >= 0xd800 && b <= 0xdfff {
		return 'x'
	}
	return b
}

func init() {
	reg("C24", "characters", "blocks of 1024 successive code points out of -1024 to 0x1103ff, every character class on every code point against the range tables of the productions; "+
		"non-trivial: a block in which a class begins or ends", 12000, 200000, func(t *rapid.T, c *ctx) {
		b := intn(t, "block", -1, 0x440)
		if rapid.Bool().Draw(t, "bordering") {
			b = pick(t, "border", 0, 53, 54, 55, 56, 63, 64, 1087, 1088, -1)
		}
		c.Case("block %d", b)
		for r := rune(b * 1024); r < rune(b+1)*1024; r++ {
			for _, k := range runeClasses {
				want := r >= 0 && k.want(r)
				if k.got(r) != want {
					c.Failf("%s(%#x) is %v, want %v", k.name, r, !want, want)
				}
				if want != k.want(rune(b*1024)) {
					c.Nontrivial(true)
				}
			}
		}
	})
	reg("C24", "texts", "texts of the characters of each set with pieces that are escapes, some of them with one wrong or missing character: the predicates, the function taking the set and the "+
		"conversion of one escape agree with the regular expressions of the productions; non-trivial: three characters", 200000, 10000000, func(t *rapid.T, c *ctx) {
		s := classText(t)
		c.Case("%q", s)
		c.Nontrivial(len([]rune(s)) >= 3)
		for _, k := range textClasses {
			if k.leave != nil && k.leave(s) {
				continue
			}
			want := k.want.MatchString(s)
			if want {
				c.Label(k.name)
			}
			if k.got(s) != want {
				c.Failf("%s(%q) is %v, want %v", k.name, s, !want, want)
			}
			if yamlchar.ConformsCharSet(s, k.cst) != want {
				c.Failf("ConformsCharSet(%q, %s) is %v, want %v", s, k.name, !want, want)
			}
		}
		rs := []rune(s)
		for i, r := range rs {
			if r != '\\' {
				continue
			}
			m := oneEscape.FindString(string(rs[i:]))
			at, ok := yamlchar.IsEscapedCharacter(rs, i+1)
			switch {
			case ok != (m != ""):
				c.Failf("IsEscapedCharacter(%q, %d) is %v", s, i+1, ok)
			case ok && at != i+len([]rune(m)):
				c.Failf("IsEscapedCharacter(%q, %d) ends at %d, want %d", s, i+1, at, i+len([]rune(m)))
			}
		}
	})
	reg("C24", "tokens", "a token with such a text asked up to 20 times for random sets, copied in between: every answer is the one of the text alone; non-trivial: five questions with both answers",
		100000, 5000000, func(t *rapid.T, c *ctx) {
			s := classText(t)
			toks := []token.Token{{Type: token.StringType, Origin: s}}
			asked := ""
			yes, no := 0, 0
			for i := intn(t, "n", 1, 20); i > 0; i-- {
				if chance(t, "copy", 1, 5) {
					toks = append(toks, rapid.SampledFrom(toks).Draw(t, "of"))
				}
				j := intn(t, "which", 0, len(toks)-1)
				k := rapid.SampledFrom(textClasses).Draw(t, "set")
				asked += fmt.Sprintf(" %d:%s", j, k.name)
				want := k.got(s)
				if want {
					yes++
				} else {
					no++
				}
				c.Case("%q%s", s, asked)
				if got := toks[j].ConformsCharSet(k.cst); got != want {
					c.Failf("the token answers %v, the text %v", got, want)
				}
				if toks[j].Origin != s || toks[j].Type != token.StringType {
					c.Failf("the question changed the token to %v", toks[j])
				}
			}
			c.Nontrivial(yes > 0 && no > 0 && yes+no >= 5)
		})
}
