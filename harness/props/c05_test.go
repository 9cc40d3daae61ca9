package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/KSpaceer/yamly"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"github.com/KSpaceer/yamly/engines/yayamls/lexer"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	"github.com/KSpaceer/yamly/engines/yayamls/token"
	"pgregory.net/rapid"
)

// soupPieces are the building blocks of documents which look almost like YAML.
var soupPieces = []string{
	"- ", "-", "? ", "?", ": ", ":", ",", ", ", "[", "]", "{", "}", "[]", "{}", "&a ", "&b ", "&", "*a", "*b", "*a ", "*", "! ", "!t ", "!!str ", "!<x> ", "!",
	"|\n", ">\n", "|-\n", ">+\n", "|2\n", ">1-\n", "|", ">", "'", "\"", "'q'", "\"d\"", "\"\\n\"", "\"\\x41\"", "\\", "''", "#", " # c\n", "# c\n", "%", "%YAML 1.2\n", "%TAG ! x\n",
	"---\n", "--- ", "---", "...\n", "...", "\n", "\n", "\n ", "\n  ", "\n   ", "\n\n", "\r\n", "\r", "\t", " ", "  ", "a", "b", "w1", "key: ", "k: v\n", "- x\n",
	"null", "~", "true", "1", "-1", "0x1f", "1.5", ".inf", "2001-12-14", "<<: ", "<<", "=", "@", "`", "\ufeff", "\u0085", "\u2028", "é", "中", "\x00", "\x7f", "\xff", "\xc3", "a b", "a-b", "a:b", "a#b",
}

func soup(t *rapid.T, max int) string {
	n := rapid.IntRange(0, max).Draw(t, "n")
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(rapid.SampledFrom(soupPieces).Draw(t, "p"))
	}
	return sb.String()
}

// mutate damages a document in 1 to 4 places.
func mutate(t *rapid.T, doc string) string {
	b := []byte(doc)
	for i := rapid.IntRange(1, 4).Draw(t, "edits"); i > 0; i-- {
		at := rapid.IntRange(0, len(b)).Draw(t, "at")
		end := min(len(b), at+rapid.IntRange(0, 8).Draw(t, "len"))
		switch rapid.IntRange(0, 5).Draw(t, "edit") {
		case 0: // delete
			b = append(append([]byte{}, b[:at]...), b[end:]...)
		case 1: // duplicate
			b = append(append(append([]byte{}, b[:end]...), b[at:end]...), b[end:]...)
		case 2: // truncate
			b = b[:at]
		case 3: // move
			part := append([]byte{}, b[at:end]...)
			rest := append(append([]byte{}, b[:at]...), b[end:]...)
			to := rapid.IntRange(0, len(rest)).Draw(t, "to")
			b = append(append(append([]byte{}, rest[:to]...), part...), rest[to:]...)
		default: // insert
			p := rapid.SampledFrom(soupPieces).Draw(t, "p")
			b = append(append(append([]byte{}, b[:at]...), p...), b[at:]...)
		}
	}
	return string(b)
}

// exerciseReader makes a fixed choice of reads on a reader until the document is exhausted.
func exerciseReader(r yamly.Decoder, plan uint64) (out string) {
	var sb strings.Builder
	for i := 0; i < 40; i++ {
		op := plan % 11
		plan = plan*6364136223846793005 + 1442695040888963407 + uint64(i)
		plan ^= plan >> 29
		switch op {
		case 0:
			fmt.Fprint(&sb, r.TryNull(), ";")
		case 1:
			fmt.Fprint(&sb, r.Integer(64), ";")
		case 2:
			fmt.Fprint(&sb, r.Boolean(), r.Float(64), ";")
		case 3:
			fmt.Fprint(&sb, r.Timestamp().UnixNano(), r.Unsigned(16), ";")
		case 4, 5:
			fmt.Fprintf(&sb, "%q;", r.String())
		case 6:
			s := r.Sequence()
			fmt.Fprint(&sb, s.Size(), s.HasUnprocessedItems(), ";")
		case 7:
			s := r.Mapping()
			fmt.Fprint(&sb, s.Size(), s.HasUnprocessedItems(), ";")
		case 8:
			fmt.Fprintf(&sb, "%v;", r.Any())
		case 9:
			fmt.Fprintf(&sb, "%q;", r.Raw())
		default:
			r.Skip()
		}
		if r.Error() != nil {
			break
		}
	}
	fmt.Fprint(&sb, r.Error() != nil)
	return sb.String()
}

// robust parses and reads any bytes; nothing may crash, hang, depend on the run or touch the input.
func robust(t *rapid.T, c *ctx, src string) {
	orig := []byte(src)
	buf := append([]byte{}, orig...)
	for _, opts := range [][]parser.ParseOption{nil, {parser.WithOmitStream(), parser.WithUnescapedQuotedText()}} {
		tree, err := parser.ParseBytes(buf, opts...)
		tree2, err2 := parser.ParseString(src, opts...)
		if (err == nil) != (err2 == nil) || err != nil && err.Error() != err2.Error() {
			c.Failf("two parses of the same source: %v and %v", err, err2)
		}
		if !bytes.Equal(buf, orig) {
			c.Failf("parsing changed the source to %q", buf)
		}
		if err != nil {
			c.Label("rejected")
			continue
		}
		c.Label("accepted")
		c.Nontrivial(len(src) > 3)
		if m := malformed(tree); m != "" {
			c.Failf("the tree is not well-formed: %s\n%s", m, dump(tree))
		}
		before := dump(tree)
		if d := dump(tree2); d != before {
			c.Failf("two parses of the same source give different trees:\n%s\n%s", before, d)
		}
		for i := range buf {
			buf[i] = 'Z'
		}
		if d := dump(tree); d != before {
			c.Failf("the tree changed together with the source buffer:\n%s\n%s", before, d)
		}
		copy(buf, orig)
	}
	plan := rapid.Uint64().Draw(t, "plan")
	for _, e := range engines {
		for k := 0; k < 2; k++ {
			r, err := e.reader(buf)
			if err != nil {
				break
			}
			r2, err := e.reader([]byte(src))
			if err != nil {
				c.Failf("%s: accepted at first, rejected then: %v", e.name, err)
			}
			var a, b any
			if k == 0 {
				a, b = r.Any(), r2.Any()
			} else {
				a = exerciseReader(r, plan)
				b = exerciseReader(r2, plan)
			}
			if !bytes.Equal(buf, orig) {
				c.Failf("%s: reading changed the source to %q", e.name, buf)
			}
			if (r.Error() == nil) != (r2.Error() == nil) {
				c.Failf("%s: two readings give errors %v and %v", e.name, r.Error(), r2.Error())
			}
			if !same(a, b) && show(a) != show(b) {
				c.Failf("%s: two readings of the same source give %s and %s", e.name, show(a), show(b))
			}
			before := show(a)
			for i := range buf {
				buf[i] = 'Z'
			}
			if s := show(a); s != before && !strings.Contains(before, "0x") {
				c.Failf("%s: a decoded value changed together with the source buffer: %s, then %s", e.name, before, s)
			}
			copy(buf, orig)
		}
	}
}

func init() {
	reg("C05", "bytes", "arbitrary bytes and texts rich in YAML characters of up to 40 characters: parsed twice and read twice by both engines; "+
		"non-trivial: accepted and longer than 3 bytes", 60000, 6000000, func(t *rapid.T, c *ctx) {
		var src string
		if rapid.Bool().Draw(t, "raw") {
			src = string(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes"))
		} else {
			src = anyText(40).Draw(t, "text")
		}
		c.Case("%q", src)
		robust(t, c, src)
	})
	reg("C05", "soup", "random sequences of up to 25 pieces of YAML syntax (indicators, breaks, indentation, quotes, markers, scalars); non-trivial as before",
		80000, 8000000, func(t *rapid.T, c *ctx) {
			src := soup(t, 25)
			c.Case("%q", src)
			robust(t, c, src)
		})
	reg("C05", "mutated", "valid documents of the C06 generator with 1 to 4 random deletions, insertions, duplications, moves or truncations; non-trivial as before",
		80000, 8000000, func(t *rapid.T, c *ctx) {
			v := drawValue(t, genOpts{maxDepth: 4, maxItems: 4, maxStr: 8, anchors: rapid.Bool().Draw(t, "anchors")})
			r := newRenderer(t)
			r.decor = rapid.Bool().Draw(t, "decor")
			src := mutate(t, r.document(v))
			c.Case("%q", src)
			robust(t, c, src)
		})
	reg("C05", "entry points", "valid, edited and random sources given to the parser as string, as bytes, as a token stream and through a constructor of token streams: the same tree or the same error; the "+
		"list of their tokens is parsed or rejected as well, alike every time; non-trivial: accepted and longer than 3 bytes", 40000, 3000000, func(t *rapid.T, c *ctx) {
		var src string
		switch intn(t, "kind", 0, 2) {
		case 0:
			src = soup(t, 20)
		default:
			v := drawValue(t, genOpts{maxDepth: 3, maxItems: 4, maxStr: 6, anchors: rapid.Bool().Draw(t, "anchors")})
			r := newRenderer(t)
			r.decor = rapid.Bool().Draw(t, "decor")
			src = r.document(v)
			if rapid.Bool().Draw(t, "edit") {
				src = mutate(t, src)
			}
		}
		c.Case("%q", src)
		result := func(tree ast.Node, err error) string {
			if err != nil {
				return "error: " + err.Error()
			}
			if m := malformed(tree); m != "" {
				c.Failf("the tree is not well-formed: %s\n%s", m, dump(tree))
			}
			return dump(tree)
		}
		want := result(parser.ParseString(src))
		c.Nontrivial(len(src) > 3 && !strings.HasPrefix(want, "error: "))
		made := 0
		newStream := func(s string) parser.ConfigurableTokenStream {
			made++
			return lexer.NewTokenizer(s)
		}
		for i, got := range []string{
			result(parser.ParseBytes([]byte(src))),
			result(parser.Parse(lexer.NewTokenizer(src))),
			result(parser.ParseTokenStream(lexer.NewTokenizer(src))),
			result(parser.ParseString(src, parser.WithTokenStreamConstructor(newStream))),
			result(parser.ParseBytes([]byte(src), parser.WithTokenStreamConstructor(newStream))),
			result(parser.ParseString(src)),
		} {
			if got != want {
				c.Failf("%s gives\n%s\nParseString\n%s", []string{"ParseBytes", "Parse", "ParseTokenStream", "a constructor", "a constructor with bytes", "ParseString again"}[i], got, want)
			}
		}
		if made != 2 {
			c.Failf("the constructor was called %d times, want 2", made)
		}
		// the option only removes the stream of a single document
		tree, err := parser.ParseString(src)
		omitted, oerr := parser.ParseString(src, parser.WithOmitStream())
		if (err == nil) != (oerr == nil) {
			c.Failf("errors %v and, without stream, %v", err, oerr)
		}
		if err == nil {
			wantOmitted := dump(tree)
			if s, ok := tree.(*ast.StreamNode); ok && len(s.Documents()) == 1 {
				wantOmitted = dump(s.Documents()[0])
			}
			if got := dump(omitted); got != wantOmitted {
				c.Failf("without stream the tree is\n%s\nwant\n%s", got, wantOmitted)
			}
		}
		var toks []token.Token
		tz := lexer.NewTokenizer(src)
		for {
			tok := tz.Next()
			toks = append(toks, tok)
			if tok.Type == token.EOFType {
				break
			}
		}
		first := result(parser.ParseTokens(toks))
		if second := result(parser.ParseTokens(append([]token.Token{}, toks...))); second != first {
			c.Failf("the same tokens give\n%s\nand then\n%s", first, second)
		}
		// without block scalars, tags, directives and comments, which are tokenized in another way, the tokens are all the parser sees
		if !strings.ContainsAny(src, "|>%!#") && first != want && !(strings.HasPrefix(first, "error: ") && strings.HasPrefix(want, "error: ")) {
			c.Failf("ParseTokens gives\n%s\nParseString\n%s", first, want)
		}
	})
	reg("C05", "repeated", "one to three pieces of syntax repeated up to 40 times with a head and a tail, in search of work out of proportion (a watchdog "+
		"ends cases of a minute of CPU); non-trivial: at least 30 repetitions", 40000, 4000000, func(t *rapid.T, c *ctx) {
		unit := ""
		for i := rapid.IntRange(1, 3).Draw(t, "units"); i > 0; i-- {
			unit += rapid.SampledFrom(soupPieces).Draw(t, "p")
		}
		k := rapid.IntRange(2, 40).Draw(t, "k")
		src := soup(t, 2) + strings.Repeat(unit, k) + soup(t, 2)
		if rapid.Bool().Draw(t, "close") {
			closing := ""
			for _, x := range unit {
				switch x {
				case '[':
					closing = "]" + closing
				case '{':
					closing = "}" + closing
				}
			}
			src += strings.Repeat(closing, k)
		}
		c.Case("%q", src)
		tree, err := parser.ParseString(src)
		c.Nontrivial(k >= 30)
		if err == nil {
			c.Label("accepted")
			if m := malformed(tree); m != "" {
				c.Failf("the tree is not well-formed: %s\n%s", m, dump(tree))
			}
			for _, e := range engines {
				if r, err := e.reader([]byte(src)); err == nil {
					r.Any()
					r, _ = e.reader([]byte(src))
					r.Skip()
					r, _ = e.reader([]byte(src))
					r.Raw()
				}
			}
		}
	})
}
