package props

import (
	"strings"

	"github.com/KSpaceer/yamly/engines/yayamls/lexer"
	"github.com/KSpaceer/yamly/engines/yayamls/token"
	"pgregory.net/rapid"
)

// yamlish generates texts which look like YAML, valid or not: fragments of all kinds of syntax glued together.
func yamlish(max int) *rapid.Generator[string] {
	frag := []string{
		" ", "  ", "    ", "\n", "\n", "\n  ", "\n    ", "\r\n", "\r", "\t", "- ", "-", "? ", "?", ": ", ":", ":\n", ", ", ",", "[", "]", "{", "}",
		"#", " #", "# c", "&a", "&a ", "*a", "*a ", "!", "!!str ", "!t ", "!<x> ", "|", "|\n", ">\n", "|-", ">+", "|2\n", ">-\n  ", "'", "\"", "''", `\"`,
		`\n`, `\x41`, `\`, "%", "%YAML 1.2\n", "%TAG ! x\n", "@", "`", "---", "--- ", "---\n", "...", "...\n", "\ufeff", "a", "b", "key", "value", "x y", "1", "-1", "0.5", "null", "~", "true",
		"<<", "<<: *a", "a: b", "a: b\n", "- a\n", "- - a\n", "k: [a, b]\n", "k: {a: b}\n", "'q'", "\"q\"", "é", "中文", "\U0001f600", "\u00a0", "\u0085", "\u2028", "a#b", "a:b", "-a", "?a", "[a, [b, {c: d}]]", "{a: [b]}", "\x00", "\x1b", "a\n b\n", "'a\n b'", "\"a\n\n b\"",
	}
	return rapid.Custom(func(t *rapid.T) string {
		n := rapid.IntRange(0, max).Draw(t, "n")
		var sb strings.Builder
		for i := 0; i < n; i++ {
			if rapid.IntRange(0, 19).Draw(t, "k") == 0 {
				sb.WriteString(anyText(4).Draw(t, "any"))
			} else {
				sb.WriteString(rapid.SampledFrom(frag).Draw(t, "f"))
			}
		}
		return sb.String()
	})
}

type rowcol struct{ row, col int }

// positions gives the row and column of every rune of the text (and of its end).
func positions(rs []rune) []rowcol {
	out := make([]rowcol, len(rs)+1)
	p := rowcol{1, 1}
	for i, r := range rs {
		out[i] = p
		switch {
		case r == '\n', r == '\r' && !(i+1 < len(rs) && rs[i+1] == '\n'):
			p = rowcol{p.row + 1, 1}
		default:
			p.col++
		}
	}
	out[len(rs)] = p
	return out
}

func checkTokens(c *ctx, src string, toks []token.Token) {
	rs := []rune(src)
	pos := positions(rs)
	off := 0
	for i, tok := range toks {
		o := []rune(tok.Origin)
		if tok.Type == token.EOFType {
			if i != len(toks)-1 {
				c.Failf("harness: end of input is not the last token")
			}
			o = nil
		} else if len(o) == 0 {
			c.Failf("token %d is empty: %s", i, tok)
		}
		if off+len(o) > len(rs) || string(rs[off:off+len(o)]) != string(o) {
			c.Failf("token %d %q is not the source text at offset %d", i, tok.Origin, off)
		}
		if tok.Start.Row != pos[off].row || tok.Start.Column != pos[off].col {
			c.Failf("token %d %q starts at %v, its first character is at row %d column %d", i, tok.Origin, tok.Start, pos[off].row, pos[off].col)
		}
		off += len(o)
		if len(o) > 0 {
			last := pos[off-1]
			if tok.End.Row != last.row || tok.End.Column != last.col {
				c.Failf("token %d %q ends at %v, its last character is at row %d column %d", i, tok.Origin, tok.End, last.row, last.col)
			}
		}
	}
	if off != len(rs) {
		c.Failf("tokens cover %d of %d characters", off, len(rs))
	}
}

func tokenize(c *ctx, src string, opts ...lexer.TokenizerOption) []token.Token {
	tz := lexer.NewTokenizer(src, opts...)
	var toks []token.Token
	limit := len(src) + 3
	for {
		tok := tz.Next()
		toks = append(toks, tok)
		if tok.Type == token.EOFType {
			break
		}
		if len(toks) > limit {
			c.Failf("%d tokens for %d bytes and no end of input", len(toks), len(src))
		}
	}
	for i := 0; i < 3; i++ {
		if tok := tz.Next(); tok.Type != token.EOFType {
			c.Failf("token %s after the end of input", tok)
		}
	}
	return toks
}

func sameTokens(a, b []token.Token) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Type != b[i].Type || a[i].Origin != b[i].Origin || a[i].Start != b[i].Start || a[i].End != b[i].End {
			return false
		}
	}
	return true
}

func init() {
	reg("C03", "lossless", "YAML-like texts glued of syntax fragments and arbitrary characters; the tokens of safe and unsafe tokenizers are "+
		"compared with an independent position table of the source; non-trivial: five or more tokens",
		40000, 1000000, func(t *rapid.T, c *ctx) {
			src := yamlish(24).Draw(t, "src")
			c.Case("%q", src)
			toks := tokenize(c, src)
			c.Nontrivial(len(toks) >= 5)
			checkTokens(c, src, toks)
			if !sameTokens(toks, tokenize(c, src)) {
				c.Failf("tokenizing twice gives different tokens")
			}
			if !sameTokens(toks, tokenize(c, src, lexer.WithUnsafe())) {
				c.Failf("the unsafe tokenizer gives different tokens")
			}
		})

	reg("C03", "rawmode", "the same texts with raw mode switched on and off at random moments, as the parser does; non-trivial: raw mode was on "+
		"for a token", 20000, 500000, func(t *rapid.T, c *ctx) {
		src := yamlish(20).Draw(t, "src")
		plan := rapid.SliceOfN(rapid.IntRange(0, 5), 0, 12).Draw(t, "plan")
		c.Case("%q plan %v", src, plan)
		tz := lexer.NewTokenizer(src)
		var toks []token.Token
		raw, used := false, false
		next := 0
		for len(toks) <= len(src)+3 {
			if len(plan) > 0 {
				if next == 0 {
					next = plan[0] + 1
					plan = plan[1:]
					raw = !raw
					if raw {
						tz.SetRawMode()
					} else {
						tz.UnsetRawMode()
					}
				}
				next--
			}
			used = used || raw
			tok := tz.Next()
			toks = append(toks, tok)
			if tok.Type == token.EOFType {
				break
			}
		}
		if toks[len(toks)-1].Type != token.EOFType {
			c.Failf("%d tokens and no end of input", len(toks))
		}
		c.Nontrivial(used && len(toks) >= 5)
		checkTokens(c, src, toks)
	})
}
