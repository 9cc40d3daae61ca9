From 5a4452db2698dcd39da2697a793e4c9587268962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:22 +0000
Subject: [PATCH 01/90] fix: decode \x, \u, \U and \b escapes of double quoted
 strings

The hexadecimal digits were sliced after the index had already been moved past
them, so unescaping read the following characters (or panicked at the end of
the string), and \b and an escaped tab were not known to both escape tables.
---
 engines/yayamls/yamlchar/chars.go           | 2 +-
 engines/yayamls/yamlchar/transformations.go | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/engines/yayamls/yamlchar/chars.go b/engines/yayamls/yamlchar/chars.go
index b3df724..1db76b7 100644
--- a/engines/yayamls/yamlchar/chars.go
+++ b/engines/yayamls/yamlchar/chars.go
@@ -222,7 +222,7 @@ func IsJSONChar(r rune) bool {
 }
 
 // YAML specification: [41-58] ns-esc-...
-const singleEscapedCharacters = "0at\tnvfre \"/\\N_LP"
+const singleEscapedCharacters = "0abt\tnvfre \"/\\N_LP"
 
 // IsEscapedCharacter checks if given runes are valid escaped sequence of characters in YAML
 // (i.e. \<valid single escaped character>, \x<two hex digits>, \u<four hex digits> or
diff --git a/engines/yayamls/yamlchar/transformations.go b/engines/yayamls/yamlchar/transformations.go
index 2da178c..2596fab 100644
--- a/engines/yayamls/yamlchar/transformations.go
+++ b/engines/yayamls/yamlchar/transformations.go
@@ -174,7 +174,7 @@ func unescapeASCIICharacter(runes []rune, i int) (rune, int, error) {
 		result = '\a'
 	case 'b':
 		result = '\b'
-	case 't':
+	case 't', '\t':
 		result = '\t'
 	case 'n':
 		result = '\n'
@@ -221,8 +221,8 @@ func unescapeUnicodeCharacter(runes []rune, i int) (rune, int, error) {
 			return 0, 0, fmt.Errorf("expected to have 2 hexadecimal digits after \\x, but have %s",
 				string(runes[i:i+2]))
 		}
-		i += 2
 		escaped = runes[i : i+2]
+		i += 2
 	case 'u':
 		i++
 		if len(runes)-i < 4 {
@@ -232,8 +232,8 @@ func unescapeUnicodeCharacter(runes []rune, i int) (rune, int, error) {
 			return 0, 0, fmt.Errorf("expected to have 4 hexadecimal digits after \\u, but have %s",
 				string(runes[i:i+4]))
 		}
-		i += 4
 		escaped = runes[i : i+4]
+		i += 4
 	case 'U':
 		i++
 		if len(runes)-i < 8 {
@@ -243,8 +243,8 @@ func unescapeUnicodeCharacter(runes []rune, i int) (rune, int, error) {
 			return 0, 0, fmt.Errorf("expected to have 8 hexadecimal digits after \\U, but have %s",
 				string(runes[i:i+8]))
 		}
-		i += 8
 		escaped = runes[i : i+8]
+		i += 8
 	}
 	result, err := parseEscapedHexDigits(escaped)
 	return result, i, err
-- 
2.43.0


From fbd77015f079d58fc753151b85a41ad0141f353a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:46 +0000
Subject: [PATCH 02/90] fix: escape every non-printable character when double
 quoting

DEL, C1 controls, the byte order mark and other characters outside YAML's
c-printable set were written verbatim, which is not valid YAML (and a byte order
mark inside of a string could not be read back).
---
 engines/yayamls/yamlchar/chars.go           | 7 +++++++
 engines/yayamls/yamlchar/transformations.go | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/engines/yayamls/yamlchar/chars.go b/engines/yayamls/yamlchar/chars.go
index 1db76b7..d6304f3 100644
--- a/engines/yayamls/yamlchar/chars.go
+++ b/engines/yayamls/yamlchar/chars.go
@@ -221,6 +221,13 @@ func IsJSONChar(r rune) bool {
 	return r == 0x09 || (r >= 0x20 && r <= 0x10FFFF)
 }
 
+// YAML specification: [1] c-printable
+func IsPrintableChar(r rune) bool {
+	return r == 0x09 || r == 0x0A || r == 0x0D || (r >= 0x20 && r <= 0x7E) ||
+		r == 0x85 || (r >= 0xA0 && r <= 0xD7FF) || (r >= 0xE000 && r <= 0xFFFD) ||
+		(r >= 0x10000 && r <= 0x10FFFF)
+}
+
 // YAML specification: [41-58] ns-esc-...
 const singleEscapedCharacters = "0abt\tnvfre \"/\\N_LP"
 
diff --git a/engines/yayamls/yamlchar/transformations.go b/engines/yayamls/yamlchar/transformations.go
index 2596fab..7990620 100644
--- a/engines/yayamls/yamlchar/transformations.go
+++ b/engines/yayamls/yamlchar/transformations.go
@@ -112,7 +112,7 @@ func escapeCharacter(r rune) (string, bool) {
 }
 
 func escapeUnicodeCharacter(r rune) (string, bool) {
-	if IsJSONChar(r) {
+	if IsPrintableChar(r) && r != ByteOrderMarkCharacter {
 		return "", false
 	}
 	escaped := strconv.QuoteRuneToASCII(r)
-- 
2.43.0


From 645a3c131a07acf20f4bacd664000a63aa278b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:43 +0000
Subject: [PATCH 03/90] fix: report source text which does not belong to any
 document

The parser stopped at the first position it could not parse and returned the
documents collected so far without an error, silently dropping the rest of the
source (e.g. 'a: 100%' produced an empty stream).
---
 engines/yayamls/parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engines/yayamls/parser/parser.go b/engines/yayamls/parser/parser.go
index 2a71018..8b9317e 100644
--- a/engines/yayamls/parser/parser.go
+++ b/engines/yayamls/parser/parser.go
@@ -136,6 +136,10 @@ func (p *parser) Parse() (ast.Node, error) {
 	p.next()
 	p.startOfLine = true
 	result := p.parseStream()
+	if p.tok.Type != token.EOFType && !p.hasErrors() {
+		// the rest of the source does not form a document
+		p.appendError(DeadEndError{Pos: p.tok.Start})
+	}
 	return result, p.error()
 }
 
-- 
2.43.0


From 95f485ae92f30e4f9ab4b80acabe285480552291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:07 +0000
Subject: [PATCH 04/90] fix: unescape quoted scalars when decoding and when
 inserting raw YAML

---
 engines/yayamls/decode/reader.go  |  2 +-
 engines/yayamls/encode/builder.go |  2 +-
 engines/yayamls/parser/flow.go    | 29 +++++++++++++++++++++--------
 engines/yayamls/parser/options.go |  9 +++++++++
 engines/yayamls/parser/parser.go  |  6 +++++-
 5 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 17a90c7..9df6cd6 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -119,7 +119,7 @@ func WithMultipleDenyErrors() ReaderOption {
 }
 
 func NewASTReaderFromBytes(src []byte, opts ...ReaderOption) (*ASTReader, error) {
-	tree, err := parser.ParseBytes(src, parser.WithOmitStream())
+	tree, err := parser.ParseBytes(src, parser.WithOmitStream(), parser.WithUnescapedQuotedText())
 	if err != nil {
 		return nil, err
 	}
diff --git a/engines/yayamls/encode/builder.go b/engines/yayamls/encode/builder.go
index f795bfb..8449416 100644
--- a/engines/yayamls/encode/builder.go
+++ b/engines/yayamls/encode/builder.go
@@ -126,7 +126,7 @@ func (b *ASTBuilder) InsertRaw(data []byte, err error) {
 		b.fatalError = err
 		return
 	}
-	tree, err := parser.ParseBytes(data, parser.WithOmitStream())
+	tree, err := parser.ParseBytes(data, parser.WithOmitStream(), parser.WithUnescapedQuotedText())
 	if err != nil {
 		b.fatalError = err
 		return
diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index 75a9898..55ac5e1 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -171,7 +171,7 @@ func (p *parser) parseDoubleOneLine() ast.Node {
 	buf := bufsPool.Get().(*bytes.Buffer) // nolint: forcetypeassert
 	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.DoubleQuotedCharSetType)) ||
 		token.IsWhiteSpace(p.tok) {
-		buf.WriteString(p.tok.Origin)
+		p.writeQuotedText(buf, yamlchar.ConvertFromYAMLDoubleQuotedString)
 		p.next()
 	}
 	text := buf.String()
@@ -188,7 +188,7 @@ func (p *parser) parseDoubleMultiLine(ind *indentation) ast.Node {
 	buf := bufsPool.Get().(*bytes.Buffer) // nolint: forcetypeassert
 	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.DoubleQuotedCharSetType)) ||
 		token.IsWhiteSpace(p.tok) {
-		buf.WriteString(p.tok.Origin)
+		p.writeQuotedText(buf, yamlchar.ConvertFromYAMLDoubleQuotedString)
 		p.next()
 	}
 
@@ -228,12 +228,12 @@ func (p *parser) parseDoubleNextLine(ind *indentation, buf *bytes.Buffer) ast.No
 		return ast.NewBasicNode(ast.TextType)
 	}
 	p.commit()
-	buf.WriteString(p.tok.Origin)
+	p.writeQuotedText(buf, yamlchar.ConvertFromYAMLDoubleQuotedString)
 	p.next()
 
 	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.DoubleQuotedCharSetType)) ||
 		token.IsWhiteSpace(p.tok) {
-		buf.WriteString(p.tok.Origin)
+		p.writeQuotedText(buf, yamlchar.ConvertFromYAMLDoubleQuotedString)
 		p.next()
 	}
 
@@ -346,7 +346,7 @@ func (p *parser) parseSingleOneLine() ast.Node {
 	buf := bufsPool.Get().(*bytes.Buffer) // nolint: forcetypeassert
 	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.SingleQuotedCharSetType)) ||
 		token.IsWhiteSpace(p.tok) {
-		buf.WriteString(p.tok.Origin)
+		p.writeQuotedText(buf, yamlchar.ConvertFromYAMLSingleQuotedString)
 		p.next()
 	}
 	text := buf.String()
@@ -363,7 +363,7 @@ func (p *parser) parseSingleMultiLine(ind *indentation) ast.Node {
 	buf := bufsPool.Get().(*bytes.Buffer) // nolint: forcetypeassert
 	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.SingleQuotedCharSetType)) ||
 		token.IsWhiteSpace(p.tok) {
-		buf.WriteString(p.tok.Origin)
+		p.writeQuotedText(buf, yamlchar.ConvertFromYAMLSingleQuotedString)
 		p.next()
 	}
 
@@ -401,12 +401,12 @@ func (p *parser) parseSingleNextLine(ind *indentation, buf *bytes.Buffer) ast.No
 		return ast.NewBasicNode(ast.TextType)
 	}
 	p.commit()
-	buf.WriteString(p.tok.Origin)
+	p.writeQuotedText(buf, yamlchar.ConvertFromYAMLSingleQuotedString)
 	p.next()
 
 	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.SingleQuotedCharSetType)) ||
 		token.IsWhiteSpace(p.tok) {
-		buf.WriteString(p.tok.Origin)
+		p.writeQuotedText(buf, yamlchar.ConvertFromYAMLSingleQuotedString)
 		p.next()
 	}
 
@@ -426,6 +426,19 @@ func (p *parser) parseSingleNextLine(ind *indentation, buf *bytes.Buffer) ast.No
 	return ast.NewBasicNode(ast.TextType)
 }
 
+// writeQuotedText writes the current token of a quoted scalar into buf,
+// unescaping it if parser was asked to.
+func (p *parser) writeQuotedText(buf *bytes.Buffer, unescape func(string) (string, error)) {
+	text := p.tok.Origin
+	if p.unescapeQuoted && p.tok.Type == token.StringType {
+		var err error
+		if text, err = unescape(text); err != nil {
+			p.appendError(err)
+		}
+	}
+	buf.WriteString(text)
+}
+
 // YAML specification: [140] c-flow-mapping
 func (p *parser) parseFlowMapping(ind *indentation, ctx context) ast.Node {
 	if p.hasErrors() || p.tok.Type != token.MappingStartType {
diff --git a/engines/yayamls/parser/options.go b/engines/yayamls/parser/options.go
index dfe678c..9a64c37 100644
--- a/engines/yayamls/parser/options.go
+++ b/engines/yayamls/parser/options.go
@@ -3,6 +3,7 @@ package parser
 type parseOptions struct {
 	tokenStreamConstructor func(string) ConfigurableTokenStream
 	omitStream             bool
+	unescapeQuoted         bool
 }
 
 // ParseOption allows to modify parser behavior
@@ -30,6 +31,14 @@ func WithOmitStream() ParseOption {
 	})
 }
 
+// WithUnescapedQuotedText will make parser store the value of quoted scalars (with escape sequences replaced)
+// in text nodes instead of their source text.
+func WithUnescapedQuotedText() ParseOption {
+	return parseOptionsFunc(func(options *parseOptions) {
+		options.unescapeQuoted = true
+	})
+}
+
 func applyOptions(opts ...ParseOption) parseOptions {
 	var o parseOptions
 	for _, opt := range opts {
diff --git a/engines/yayamls/parser/parser.go b/engines/yayamls/parser/parser.go
index 8b9317e..fd0570e 100644
--- a/engines/yayamls/parser/parser.go
+++ b/engines/yayamls/parser/parser.go
@@ -51,6 +51,7 @@ type parser struct {
 	errors         []error
 	balanceChecker balancecheck.BalanceChecker
 	deadEndFinder  deadend.Finder
+	unescapeQuoted bool
 }
 
 type state struct {
@@ -106,7 +107,10 @@ func ParseString(src string, opts ...ParseOption) (ast.Node, error) {
 	} else {
 		cts = lexer.NewTokenizer(src)
 	}
-	tree, err := ParseTokenStream(cts)
+	p := newParser(newTokenSource(cts))
+	p.unescapeQuoted = o.unescapeQuoted
+	tree, err := p.Parse()
+	p.tokSrc.release()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 4c6424ec807be6a65a68ca89c919ee984aab4efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:48 +0000
Subject: [PATCH 05/90] fix: keep fractional seconds when encoding timestamps

---
 engines/pkg/schema/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/pkg/schema/schema.go b/engines/pkg/schema/schema.go
index 4898acc..d31c8c9 100644
--- a/engines/pkg/schema/schema.go
+++ b/engines/pkg/schema/schema.go
@@ -176,7 +176,7 @@ func IsTimestamp(s string) bool {
 
 // FromTimestamp converts Go time.Time value into YAML timedate.
 func FromTimestamp(val time.Time) string {
-	return val.Format(time.RFC3339)
+	return val.Format(time.RFC3339Nano)
 }
 
 // ToTimestamp tries to convert YAML string into Go time.Time value.
-- 
2.43.0


From d4ba36869d4dac60f6a36d6236496a4e4beb6388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:56 +0000
Subject: [PATCH 06/90] fix: use the reference year in timestamp layouts

---
 engines/pkg/schema/schema.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engines/pkg/schema/schema.go b/engines/pkg/schema/schema.go
index d31c8c9..f885dbb 100644
--- a/engines/pkg/schema/schema.go
+++ b/engines/pkg/schema/schema.go
@@ -158,9 +158,9 @@ var timestampLayouts = []string{
 	time.RFC3339Nano,
 	time.DateOnly,
 	"2006-1-2T15:4:5.999999999Z07:00", // short RFC339Nano
-	"2001-1-2t15:4:5.999999999-07:00", // lower t + time zone without 'Z'
-	"2001-1-2 15:4:5.999999999",       // space separated
-	"2001-1-2",                        // date only short form
+	"2006-1-2t15:4:5.999999999-07:00", // lower t + time zone without 'Z'
+	"2006-1-2 15:4:5.999999999",       // space separated
+	"2006-1-2",                        // date only short form
 }
 
 // IsTimestamp shows if string represents a YAML timedate.
-- 
2.43.0


From 98982035e86662b522aa24af8edbcefb157d975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:05 +0000
Subject: [PATCH 07/90] fix: convert every integer accepted by the schema

---
 engines/pkg/schema/schema.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/engines/pkg/schema/schema.go b/engines/pkg/schema/schema.go
index f885dbb..2fef6be 100644
--- a/engines/pkg/schema/schema.go
+++ b/engines/pkg/schema/schema.go
@@ -84,7 +84,7 @@ func FromInteger(val int64) string {
 
 // ToInteger tries to convert YAML into Go integer with given bit size.
 func ToInteger(src string, bitSize int) (int64, error) {
-	return strconv.ParseInt(src, 0, bitSize)
+	return strconv.ParseInt(src, integerBase(src), bitSize)
 }
 
 // FromUnsignedInteger converts Go unsigned integer value into YAML integer.
@@ -94,7 +94,15 @@ func FromUnsignedInteger(val uint64) string {
 
 // ToUnsignedInteger tries to convert YAML into Go unsigned integer with given bit size.
 func ToUnsignedInteger(src string, bitSize int) (uint64, error) {
-	return strconv.ParseUint(src, 0, bitSize)
+	return strconv.ParseUint(strings.TrimPrefix(src, "+"), integerBase(src), bitSize)
+}
+
+// integerBase returns a base to parse YAML integer with: unlike Go, YAML allows leading zeros in decimal integers.
+func integerBase(src string) int {
+	if yamlDecimalIntegerRegex.MatchString(src) {
+		return 10
+	}
+	return 0
 }
 
 var (
-- 
2.43.0


From 1c35b56da8fea55fb9fa8ecf7d63448212211588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:52 +0000
Subject: [PATCH 08/90] fix: read the value of an alias exactly once

---
 engines/goyaml/decode/reader.go  | 3 ++-
 engines/yayamls/decode/reader.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 7a855d4..5389f57 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -385,7 +385,8 @@ func (r *ASTReader) visitNode(n *yaml.Node) {
 	case yaml.ScalarNode:
 		r.visitScalarNode(n)
 	case yaml.AliasNode:
-		r.pushRoutePoint(routePoint{
+		// anchored node takes the alias's place in the route, so the alias won't be visited again
+		r.swapRoutePoint(routePoint{
 			node: n.Alias,
 		})
 		r.visitNode(n.Alias)
diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 9df6cd6..5a3dd1e 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -391,7 +391,8 @@ func (r *ASTReader) VisitAliasNode(n *ast.AliasNode) {
 	if err != nil {
 		r.appendError(err)
 	} else {
-		r.pushRoutePoint(routePoint{
+		// anchored node takes the alias's place in the route, so the alias won't be visited again
+		r.swapRoutePoint(routePoint{
 			node: anchored,
 		})
 		anchored.Accept(r)
-- 
2.43.0


From f165127d7f33e47da8e970cb07fb28ce2f48283c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:01 +0000
Subject: [PATCH 09/90] fix: stop iteration over collections after a fatal
 error in yayamls reader

---
 engines/yayamls/decode/reader.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 5a3dd1e..b928c6e 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -625,7 +625,7 @@ func (r *ASTReader) appendError(err error) {
 	if r.multipleDenyErrors && errors.Is(err, yamly.ErrDenied) {
 		r.denyErrors = append(r.denyErrors, err)
 	} else if r.fatalError == nil {
-		r.fatalError = err
+		r.setFatalError(err)
 	}
 }
 
@@ -643,6 +643,21 @@ func (r *ASTReader) Error() error {
 
 func (r *ASTReader) AddError(err error) {
 	if r.fatalError == nil {
-		r.fatalError = err
+		r.setFatalError(err)
 	}
 }
+
+// setFatalError also exhausts all collections being read, so loops over their items will stop.
+func (r *ASTReader) setFatalError(err error) {
+	if err == nil {
+		return
+	}
+	for _, point := range r.route {
+		if point.iter != nil {
+			for !point.iter.empty() {
+				point.iter.node()
+			}
+		}
+	}
+	r.fatalError = err
+}
-- 
2.43.0


From 698be401d49c29c97cf60b16bfd1d56a2e079c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:10 +0000
Subject: [PATCH 10/90] fix: do not exhaust collections when nil error is added
 to goyaml reader

---
 engines/goyaml/decode/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 5389f57..86aa88a 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -552,6 +552,9 @@ func (r *ASTReader) AddError(err error) {
 }
 
 func (r *ASTReader) setFatalError(err error) {
+	if err == nil {
+		return
+	}
 	for _, point := range r.route {
 		if point.iter != nil {
 			for !point.iter.empty() {
-- 
2.43.0


From 3cd50315d4af0c00ecab15994587a8c2d5ade08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:19 +0000
Subject: [PATCH 11/90] fix: deny null nodes in the same way as other nodes in
 yayamls reader

---
 engines/yayamls/decode/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index b928c6e..a783380 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -443,10 +443,10 @@ func (r *ASTReader) VisitNullNode(n *ast.NullNode) {
 		r.popRoutePoint()
 	case visitingConclusionDeny:
 		r.swapRoutePoint(point)
-		r.appendError(yamly.DenyError(&denyError{
+		r.setLatestDeny(&denyError{
 			expecter: r.currentExpecter,
 			nt:       n.Type(),
-		}))
+		})
 	default:
 		r.appendError(fmt.Errorf("unexpected conclusion: %s", point.visitingResult.conclusion))
 	}
-- 
2.43.0


From f53ef2978d4322c6f940458ffaf7031ddda1a465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:28 +0000
Subject: [PATCH 12/90] fix: report amount of entries as a size of mapping in
 goyaml reader

---
 engines/goyaml/decode/reader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 86aa88a..26ab870 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -381,7 +381,11 @@ func (r *ASTReader) visitNode(n *yaml.Node) {
 		if point.visitingResult.conclusion == visitingConclusionUnknown {
 			point.iter = newNodeIterator(n)
 		}
-		r.processComplexPoint(point, len(n.Content))
+		size := len(n.Content)
+		if n.Kind == yaml.MappingNode {
+			size /= 2 // content of mapping holds keys and values
+		}
+		r.processComplexPoint(point, size)
 	case yaml.ScalarNode:
 		r.visitScalarNode(n)
 	case yaml.AliasNode:
-- 
2.43.0


From 578c4774b98ffbe3b8cd61f71cb788d87e2876f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:28 +0000
Subject: [PATCH 13/90] fix: keep anchors of skipped nodes available for
 aliases in yayamls reader

---
 engines/yayamls/decode/anchors.go | 25 +++++++++++++++++++++++++
 engines/yayamls/decode/reader.go  |  4 ++++
 2 files changed, 29 insertions(+)

diff --git a/engines/yayamls/decode/anchors.go b/engines/yayamls/decode/anchors.go
index 917c47d..77a62a3 100644
--- a/engines/yayamls/decode/anchors.go
+++ b/engines/yayamls/decode/anchors.go
@@ -36,6 +36,31 @@ func (ak *anchorsKeeper) DereferenceAlias(alias string) (ast.Node, error) {
 	return anchored, nil
 }
 
+// CollectAnchors stores all anchors of the given subtree without reading it.
+func (ak *anchorsKeeper) CollectAnchors(n ast.Node) {
+	switch n := n.(type) {
+	case *ast.ContentNode:
+		if properties, ok := n.Properties().(*ast.PropertiesNode); ok {
+			if anchor, ok := properties.Anchor().(*ast.AnchorNode); ok {
+				ak.StoreAnchor(anchor.Text())
+				ak.BindToLatestAnchor(n.Content())
+			}
+		}
+		ak.CollectAnchors(n.Content())
+	case *ast.SequenceNode:
+		for _, entry := range n.Entries() {
+			ak.CollectAnchors(entry)
+		}
+	case *ast.MappingNode:
+		for _, entry := range n.Entries() {
+			ak.CollectAnchors(entry)
+		}
+	case *ast.MappingEntryNode:
+		ak.CollectAnchors(n.Key())
+		ak.CollectAnchors(n.Value())
+	}
+}
+
 func (ak *anchorsKeeper) clear() {
 	clear(ak.anchors)
 	ak.metAnchor = false
diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index a783380..60cf22f 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -335,6 +335,7 @@ func (r *ASTReader) Raw() []byte {
 		r.appendError(err)
 		return nil
 	}
+	r.anchors.CollectAnchors(r.currentNode())
 	r.popRoutePoint()
 	return v
 }
@@ -351,6 +352,7 @@ func (r *ASTReader) Node() ast.Node {
 		return nil
 	}
 	n := r.currentNode()
+	r.anchors.CollectAnchors(n)
 	r.popRoutePoint()
 	return n
 }
@@ -525,6 +527,8 @@ func (r *ASTReader) processComplexPoint(point routePoint, childrenSize int, opts
 	r.swapRoutePoint(point)
 	switch point.visitingResult.conclusion {
 	case visitingConclusionConsume:
+		// content of the consumed node is not visited, but its anchors can be referred later
+		r.anchors.CollectAnchors(point.node)
 		r.popRoutePoint()
 	case visitingConclusionMatch:
 	case visitingConclusionDeny:
-- 
2.43.0


From b313015a74eadfcb436fbc526a7b8ac506228eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:37 +0000
Subject: [PATCH 14/90] fix: report self-referential anchors instead of endless
 recursion in Any

---
 engines/goyaml/decode/any.go    | 22 ++++++++++++++++++++--
 engines/goyaml/decode/reader.go |  2 +-
 engines/yayamls/decode/any.go   | 17 +++++++++++++----
 3 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/engines/goyaml/decode/any.go b/engines/goyaml/decode/any.go
index a0dbe15..10f9520 100644
--- a/engines/goyaml/decode/any.go
+++ b/engines/goyaml/decode/any.go
@@ -17,7 +17,15 @@ type anyBuilder struct {
 	extractMergeMap bool
 	mergeMap        map[string]any
 
-	errors []error
+	// dereferenced contains anchored nodes which are being visited because of alias
+	dereferenced map[*yaml.Node]struct{}
+	errors       []error
+}
+
+func newAnyBuilder() anyBuilder {
+	return anyBuilder{
+		dereferenced: map[*yaml.Node]struct{}{},
+	}
 }
 
 func (a *anyBuilder) extractAnyValue(n *yaml.Node) (any, error) {
@@ -43,8 +51,18 @@ func (a *anyBuilder) visitNode(n *yaml.Node) {
 	case yaml.ScalarNode:
 		a.visitScalarNode(n)
 	case yaml.AliasNode:
-		a.visitNode(n.Alias)
+		a.visitAliasNode(n)
+	}
+}
+
+func (a *anyBuilder) visitAliasNode(n *yaml.Node) {
+	if _, ok := a.dereferenced[n.Alias]; ok {
+		a.appendError(fmt.Errorf("value of anchor %q contains itself", n.Value))
+		return
 	}
+	a.dereferenced[n.Alias] = struct{}{}
+	a.visitNode(n.Alias)
+	delete(a.dereferenced, n.Alias)
 }
 
 func (a *anyBuilder) visitSequenceNode(n *yaml.Node) {
diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 26ab870..b4056b7 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -299,7 +299,7 @@ func (r *ASTReader) Any() any {
 		r.latestDenyError = nil
 		return nil
 	}
-	valueBuilder := anyBuilder{}
+	valueBuilder := newAnyBuilder()
 	v, err := valueBuilder.extractAnyValue(r.currentNode())
 	if err != nil {
 		r.appendError(err)
diff --git a/engines/yayamls/decode/any.go b/engines/yayamls/decode/any.go
index fd7b9de..4202441 100644
--- a/engines/yayamls/decode/any.go
+++ b/engines/yayamls/decode/any.go
@@ -18,12 +18,15 @@ type anyBuilder struct {
 	mergeMap        map[string]any
 
 	anchors *anchorsKeeper
-	errors  []error
+	// dereferenced contains anchored nodes which are being visited because of alias
+	dereferenced map[ast.Node]struct{}
+	errors       []error
 }
 
 func newAnyBuilder(anchors *anchorsKeeper) anyBuilder {
 	return anyBuilder{
-		anchors: anchors,
+		anchors:      anchors,
+		dereferenced: map[ast.Node]struct{}{},
 	}
 }
 
@@ -49,9 +52,15 @@ func (a *anyBuilder) VisitAliasNode(n *ast.AliasNode) {
 	anchored, err := a.anchors.DereferenceAlias(n.Text())
 	if err != nil {
 		a.appendError(err)
-	} else {
-		a.visitNode(anchored)
+		return
+	}
+	if _, ok := a.dereferenced[anchored]; ok {
+		a.appendError(fmt.Errorf("value of anchor %q contains itself", n.Text()))
+		return
 	}
+	a.dereferenced[anchored] = struct{}{}
+	a.visitNode(anchored)
+	delete(a.dereferenced, anchored)
 }
 
 func (a *anyBuilder) VisitTextNode(n *ast.TextNode) {
-- 
2.43.0


From 4f5f7e4e71e49e08cdb8b2c28c59f16682dab0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:59 +0000
Subject: [PATCH 15/90] fix: merge nested mappings and sequences of mappings in
 Any

---
 engines/goyaml/decode/any.go  | 21 +++++++++++++++++++++
 engines/yayamls/decode/any.go | 22 ++++++++++++++++++++++
 2 files changed, 43 insertions(+)

diff --git a/engines/goyaml/decode/any.go b/engines/goyaml/decode/any.go
index 10f9520..3b4d28c 100644
--- a/engines/goyaml/decode/any.go
+++ b/engines/goyaml/decode/any.go
@@ -71,6 +71,12 @@ func (a *anyBuilder) visitSequenceNode(n *yaml.Node) {
 	savedExtractString := a.extractString
 	a.extractString = false
 
+	if a.extractMergeMap {
+		a.visitMergeSequence(n.Content)
+		a.extractString = savedExtractString
+		return
+	}
+
 	for _, entry := range n.Content {
 		a.visitNode(entry)
 		if !a.hasErrors() {
@@ -87,7 +93,21 @@ func (a *anyBuilder) visitSequenceNode(n *yaml.Node) {
 	}
 }
 
+// visitMergeSequence merges all mappings from a sequence which is a value of merge key
+func (a *anyBuilder) visitMergeSequence(entries []*yaml.Node) {
+	merged := map[string]any{}
+	for _, entry := range entries {
+		a.visitNode(entry)
+		mergeMaps(merged, a.mergeMap)
+		a.mergeMap = nil
+	}
+	a.mergeMap = merged
+}
+
 func (a *anyBuilder) visitMappingNode(n *yaml.Node) {
+	savedExtractMergeMap := a.extractMergeMap
+	a.extractMergeMap = false
+
 	m := make(map[string]any, len(n.Content)/2)
 	entriesAmount := len(n.Content)
 	for i := 0; i < entriesAmount; i += 2 {
@@ -115,6 +135,7 @@ func (a *anyBuilder) visitMappingNode(n *yaml.Node) {
 		}
 	}
 
+	a.extractMergeMap = savedExtractMergeMap
 	switch {
 	case a.extractMergeMap:
 		a.mergeMap = m
diff --git a/engines/yayamls/decode/any.go b/engines/yayamls/decode/any.go
index 4202441..35717a6 100644
--- a/engines/yayamls/decode/any.go
+++ b/engines/yayamls/decode/any.go
@@ -78,6 +78,12 @@ func (a *anyBuilder) VisitSequenceNode(n *ast.SequenceNode) {
 	savedExtractString := a.extractString
 	a.extractString = false
 
+	if a.extractMergeMap {
+		a.visitMergeSequence(entries)
+		a.extractString = savedExtractString
+		return
+	}
+
 	for _, entry := range entries {
 		a.visitNode(entry)
 		if !a.hasErrors() {
@@ -94,7 +100,21 @@ func (a *anyBuilder) VisitSequenceNode(n *ast.SequenceNode) {
 	}
 }
 
+// visitMergeSequence merges all mappings from a sequence which is a value of merge key
+func (a *anyBuilder) visitMergeSequence(entries []ast.Node) {
+	merged := map[string]any{}
+	for _, entry := range entries {
+		a.visitNode(entry)
+		mergeMaps(merged, a.mergeMap)
+		a.mergeMap = nil
+	}
+	a.mergeMap = merged
+}
+
 func (a *anyBuilder) VisitMappingNode(n *ast.MappingNode) {
+	savedExtractMergeMap := a.extractMergeMap
+	a.extractMergeMap = false
+
 	entries := n.Entries()
 	m := make(map[string]any, len(entries))
 	for _, entry := range entries {
@@ -108,6 +128,8 @@ func (a *anyBuilder) VisitMappingNode(n *ast.MappingNode) {
 			}
 		}
 	}
+
+	a.extractMergeMap = savedExtractMergeMap
 	switch {
 	case a.extractMergeMap:
 		a.mergeMap = m
-- 
2.43.0


From 1c51a44abc3dc4d61341d322d86f7b2b36c14cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:22 +0000
Subject: [PATCH 16/90] fix: treat quoted scalars as strings in Any

---
 engines/goyaml/decode/any.go  | 2 ++
 engines/yayamls/decode/any.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/engines/goyaml/decode/any.go b/engines/goyaml/decode/any.go
index 3b4d28c..ddec468 100644
--- a/engines/goyaml/decode/any.go
+++ b/engines/goyaml/decode/any.go
@@ -179,6 +179,8 @@ func (a *anyBuilder) visitScalarNode(n *yaml.Node) {
 	} else {
 		var err error
 		switch {
+		case n.Style&(yaml.SingleQuotedStyle|yaml.DoubleQuotedStyle) != 0:
+			a.value = n.Value
 		case schema.IsNull(n):
 			a.value = nil
 		case schema.IsTimestamp(n):
diff --git a/engines/yayamls/decode/any.go b/engines/yayamls/decode/any.go
index 35717a6..3e2f6c9 100644
--- a/engines/yayamls/decode/any.go
+++ b/engines/yayamls/decode/any.go
@@ -189,6 +189,8 @@ func (a *anyBuilder) VisitContentNode(n *ast.ContentNode) {
 func (a *anyBuilder) extractAnyValueFromText(n *ast.TextNode) {
 	var err error
 	switch {
+	case n.QuotingType() == ast.SingleQuotingType, n.QuotingType() == ast.DoubleQuotingType:
+		a.value = n.Text()
 	case schema.IsNull(n):
 		a.value = nil
 		return
-- 
2.43.0


From 8012a8abc150517d5aa3a51672f72b4e00ad911a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:41 +0000
Subject: [PATCH 17/90] fix: dereference aliases of goyaml raw nodes by
 anchored node

---
 engines/goyaml/decode/raw.go    | 52 ++++++++++++++++++++-------------
 engines/goyaml/decode/reader.go |  6 +++-
 2 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/engines/goyaml/decode/raw.go b/engines/goyaml/decode/raw.go
index d9c60f5..a5e9933 100644
--- a/engines/goyaml/decode/raw.go
+++ b/engines/goyaml/decode/raw.go
@@ -1,6 +1,10 @@
 package decode
 
-import "gopkg.in/yaml.v3"
+import (
+	"fmt"
+
+	"gopkg.in/yaml.v3"
+)
 
 // rawTransformer is used to transform AST before serializing to bytes.
 // The goal of transformation is to provide full context to the subtree,
@@ -19,14 +23,16 @@ import "gopkg.in/yaml.v3"
 // in "inner" element.
 type rawTransformer struct {
 	topLevelAnchor string
-	metAnchors     map[string]struct{}
+	metAnchors     map[string]*yaml.Node
+	visitedNodes   map[*yaml.Node]struct{}
 
 	dereferencedAliases []dereferencedAliasInfo
 }
 
 func newRawTransformer() rawTransformer {
 	return rawTransformer{
-		metAnchors: map[string]struct{}{},
+		metAnchors:   map[string]*yaml.Node{},
+		visitedNodes: map[*yaml.Node]struct{}{},
 	}
 }
 
@@ -36,38 +42,42 @@ type dereferencedAliasInfo struct {
 	idx    int
 }
 
-func (rt *rawTransformer) transform(n *yaml.Node) *yaml.Node {
+func (rt *rawTransformer) transform(n *yaml.Node) error {
 	rt.topLevelAnchor = n.Anchor
 	n.Anchor = ""
-	rt.visitNode(n)
-	if n.Kind == yaml.AliasNode {
-		n = n.Alias
-	}
-	return n
+	return rt.visitNode(n)
 }
 
-func (rt *rawTransformer) visitNode(n *yaml.Node) {
+func (rt *rawTransformer) visitNode(n *yaml.Node) error {
+	rt.visitedNodes[n] = struct{}{}
+	defer delete(rt.visitedNodes, n)
 	if n.Anchor != "" {
-		rt.metAnchors[n.Anchor] = struct{}{}
+		rt.metAnchors[n.Anchor] = n
 	}
 	switch n.Kind {
-	case yaml.AliasNode:
-		rt.visitNode(n.Alias)
 	case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode:
 		for i, child := range n.Content {
 			if child.Kind == yaml.AliasNode {
-				if _, metAnchor := rt.metAnchors[child.Value]; !metAnchor {
-					n.Content[i] = child.Alias
-					rt.dereferencedAliases = append(rt.dereferencedAliases, dereferencedAliasInfo{
-						parent: n,
-						alias:  child,
-						idx:    i,
-					})
+				if rt.metAnchors[child.Value] == child.Alias {
+					continue
 				}
+				if _, visited := rt.visitedNodes[child.Alias]; visited {
+					return fmt.Errorf("value of anchor %q contains itself", child.Value)
+				}
+				n.Content[i] = child.Alias
+				rt.dereferencedAliases = append(rt.dereferencedAliases, dereferencedAliasInfo{
+					parent: n,
+					alias:  child,
+					idx:    i,
+				})
+				child = child.Alias
+			}
+			if err := rt.visitNode(child); err != nil {
+				return err
 			}
-			rt.visitNode(child)
 		}
 	}
+	return nil
 }
 
 func (rt *rawTransformer) restore(n *yaml.Node) {
diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index b4056b7..df06baf 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -322,7 +322,11 @@ func (r *ASTReader) Raw() []byte {
 	}
 	curNode := r.currentNode()
 	transformer := newRawTransformer()
-	v, err := yaml.Marshal(transformer.transform(curNode))
+	err := transformer.transform(curNode)
+	var v []byte
+	if err == nil {
+		v, err = yaml.Marshal(curNode)
+	}
 	transformer.restore(curNode)
 	if err != nil {
 		r.appendError(err)
-- 
2.43.0


From 22c203a8404d8917964601acad7f0b99b104ab1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:42 +0000
Subject: [PATCH 18/90] fix: write empty sequences and mappings

---
 engines/yayamls/encode/writer.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 325f2af..1cf0ca1 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -16,7 +16,11 @@ const (
 	defaultIndendationDelta = 2
 )
 
-const nullValue = "null"
+const (
+	nullValue     = "null"
+	emptySequence = "[]"
+	emptyMapping  = "{}"
+)
 
 var _ yamly.TreeWriter[ast.Node] = (*ASTWriter)(nil)
 
@@ -196,6 +200,10 @@ func (w *ASTWriter) VisitTextNode(n *ast.TextNode) {
 
 func (w *ASTWriter) VisitSequenceNode(n *ast.SequenceNode) {
 	w.writePreparedData(n)
+	if len(n.Entries()) == 0 {
+		w.buf.WriteString(emptySequence)
+		return
+	}
 	for _, entry := range n.Entries() {
 		w.maybeWriteIndentation()
 		w.buf.WriteByte('-')
@@ -210,6 +218,10 @@ func (w *ASTWriter) VisitSequenceNode(n *ast.SequenceNode) {
 
 func (w *ASTWriter) VisitMappingNode(n *ast.MappingNode) {
 	w.writePreparedData(n)
+	if len(n.Entries()) == 0 {
+		w.buf.WriteString(emptyMapping)
+		return
+	}
 	for _, entry := range n.Entries() {
 		w.maybeWriteIndentation()
 		entry.Accept(w)
@@ -283,11 +295,11 @@ func (w *ASTWriter) writeBeforeSimpleElements(s string) {
 }
 
 func (w *ASTWriter) writePreparedData(n ast.Node) {
-	switch n.Type() {
-	case ast.SequenceType, ast.MappingType:
-		w.buf.WriteString(w.beforeComplex)
-	case ast.ContentType:
+	switch {
+	case n.Type() == ast.ContentType:
 		return
+	case isComplex(n):
+		w.buf.WriteString(w.beforeComplex)
 	default:
 		w.buf.WriteString(w.beforeSimple)
 	}
@@ -377,10 +389,13 @@ func isMultiline(s string) bool {
 	return strings.ContainsRune(s, '\n')
 }
 
+// isComplex shows if node is written in block style, i.e. it is a collection with at least one entry.
 func isComplex(n ast.Node) bool {
 	switch n.Type() {
-	case ast.SequenceType, ast.MappingType:
-		return true
+	case ast.SequenceType:
+		return len(n.(*ast.SequenceNode).Entries()) != 0 // nolint: forcetypeassert
+	case ast.MappingType:
+		return len(n.(*ast.MappingNode).Entries()) != 0 // nolint: forcetypeassert
 	case ast.ContentType:
 		return isComplex(n.(*ast.ContentNode).Content()) // nolint: forcetypeassert
 	default:
-- 
2.43.0


From 161fb6c9faed77652b9337be384c6ec495191048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:52 +0000
Subject: [PATCH 19/90] fix: separate node properties from content when writing

---
 engines/yayamls/encode/writer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 1cf0ca1..daba917 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -276,8 +276,10 @@ func (w *ASTWriter) VisitContentNode(n *ast.ContentNode) {
 	w.writePreparedData(n)
 	properties, content := n.Properties(), n.Content()
 	if ast.ValidNode(properties) {
-		w.buf.WriteByte(' ')
+		w.buf.WriteString(w.beforeSimple)
 		properties.Accept(w)
+		w.writeBeforeComplexElements("\n")
+		w.writeBeforeSimpleElements(" ")
 
 		if w.opts.anchorsKeeper != nil {
 			w.opts.anchorsKeeper.BindToLatestAnchor(n)
-- 
2.43.0


From 4086798a07c1d70d2f7571aa88e6366a09b03663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:01 +0000
Subject: [PATCH 20/90] fix: write document end marker on its own line

---
 engines/yayamls/encode/writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index daba917..4735b04 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -138,6 +138,7 @@ func (w *ASTWriter) VisitStreamNode(n *ast.StreamNode) {
 	for _, doc := range n.Documents() {
 		w.buf.WriteString("---\n")
 		doc.Accept(w)
+		w.maybeWriteLineBreak()
 		w.buf.WriteString("...\n")
 	}
 }
-- 
2.43.0


From e3fbe04e8946e5ff1ec55468eb579062d20bdd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:11 +0000
Subject: [PATCH 21/90] fix: indent value indicator of complex keys

---
 engines/yayamls/encode/writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 4735b04..7f9b351 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -243,6 +243,8 @@ func (w *ASTWriter) VisitMappingEntryNode(n *ast.MappingEntryNode) {
 
 	if isComplexKey {
 		w.decreaseIndentation()
+		w.maybeWriteLineBreak()
+		w.maybeWriteIndentation()
 	}
 	w.buf.WriteByte(':')
 	w.writeBeforeComplexElements("\n")
-- 
2.43.0


From 9ef2d7187091ee9795618b63d9b434f38ca7554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:49 +0000
Subject: [PATCH 22/90] fix: choose text style which preserves the text when
 writing

---
 engines/yayamls/encode/writer.go | 75 ++++++++++++++++++++++++++------
 1 file changed, 61 insertions(+), 14 deletions(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 7f9b351..4023b12 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"io"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/KSpaceer/yamly"
 	"github.com/KSpaceer/yamly/engines/yayamls/ast"
@@ -31,6 +32,8 @@ type ASTWriter struct {
 	indentation      int
 	indentationDelta int
 
+	writingKey bool
+
 	beforeComplex string
 	beforeSimple  string
 
@@ -179,23 +182,18 @@ func (w *ASTWriter) VisitAliasNode(n *ast.AliasNode) {
 
 func (w *ASTWriter) VisitTextNode(n *ast.TextNode) {
 	w.writePreparedData(n)
-	switch txt := n.Text(); n.QuotingType() {
-	case ast.AbsentQuotingType:
-		if isMultiline(txt) {
-			w.writeMultilineLiteralText(txt)
-		} else {
-			w.buf.WriteString(txt)
-		}
-	case ast.SingleQuotingType:
+	txt, quotingType := n.Text(), n.QuotingType()
+	switch {
+	case quotingType == ast.SingleQuotingType && isPrintableLine(txt):
 		w.writeSingleQuotedText(txt)
-	case ast.DoubleQuotingType:
+	case quotingType == ast.SingleQuotingType || quotingType == ast.DoubleQuotingType:
 		w.writeDoubleQuotedText(txt)
+	case canBePlain(txt):
+		w.buf.WriteString(txt)
+	case quotingType == ast.AbsentQuotingType && !w.writingKey && canBeLiteral(txt):
+		w.writeMultilineLiteralText(txt)
 	default:
-		if isMultiline(txt) {
-			w.writeDoubleQuotedText(txt)
-		} else {
-			w.buf.WriteString(txt)
-		}
+		w.writeDoubleQuotedText(txt)
 	}
 }
 
@@ -239,12 +237,17 @@ func (w *ASTWriter) VisitMappingEntryNode(n *ast.MappingEntryNode) {
 		w.increaseIndentation()
 	}
 
+	savedWritingKey := w.writingKey
+	w.writingKey = true
 	key.Accept(w)
+	w.writingKey = savedWritingKey
 
 	if isComplexKey {
 		w.decreaseIndentation()
 		w.maybeWriteLineBreak()
 		w.maybeWriteIndentation()
+	} else if key.Type() == ast.AliasType {
+		w.buf.WriteByte(' ') // colon can be a part of alias name
 	}
 	w.buf.WriteByte(':')
 	w.writeBeforeComplexElements("\n")
@@ -352,6 +355,11 @@ func (w *ASTWriter) writeMultilineLiteralText(txt string) {
 	}
 	w.buf.WriteByte('|')
 	w.buf.WriteRune(chompingIndicator)
+	if w.indentation == 0 {
+		// prevent lines of top level text from being considered as document markers
+		w.increaseIndentation()
+		defer w.decreaseIndentation()
+	}
 	for i := range lines {
 		w.buf.WriteByte('\n')
 		if lines[i] != "" {
@@ -385,11 +393,50 @@ func (w *ASTWriter) reset() {
 	w.buf.Reset()
 	w.errors = w.errors[:0]
 	w.indentation = defaultBasicIndentation
+	w.writingKey = false
 	w.beforeSimple = ""
 	w.beforeComplex = ""
 	clear(w.metAnchors)
 }
 
+// canBePlain shows if text can be written as it is, without changing its value.
+func canBePlain(txt string) bool {
+	if !isPrintableLine(txt) || strings.ContainsAny(txt, "\t,[]{}#&*!|>'\"%@`") ||
+		strings.TrimSpace(txt) != txt || strings.HasSuffix(txt, ":") || strings.Contains(txt, ": ") {
+		return false
+	}
+	switch firstWord, _, _ := strings.Cut(txt, " "); firstWord {
+	case "-", "?", "---", "...":
+		return false
+	}
+	return true
+}
+
+// canBeLiteral shows if multiline text can be written in literal style without changing its value.
+func canBeLiteral(txt string) bool {
+	for i, line := range strings.Split(txt, "\n") {
+		if !isPrintableLine(line) || (i == 0 && line == "") ||
+			(line != "" && strings.TrimSpace(line[:1]) == "") {
+			return false
+		}
+	}
+	return isMultiline(txt)
+}
+
+// isPrintableLine shows if text can be written in a single line without escaping
+func isPrintableLine(txt string) bool {
+	for _, r := range txt {
+		switch r {
+		case '\n', '\r', 0x85, 0x2028, 0x2029, yamlchar.ByteOrderMarkCharacter:
+			return false
+		}
+		if !yamlchar.IsPrintableChar(r) {
+			return false
+		}
+	}
+	return utf8.ValidString(txt)
+}
+
 func isMultiline(s string) bool {
 	return strings.ContainsRune(s, '\n')
 }
-- 
2.43.0


From ff9d6942d5ddd52335d1ae5b7bfc628c43ae9021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:57 +0000
Subject: [PATCH 23/90] fix: write absent nodes as null instead of panicking

---
 engines/yayamls/encode/writer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 4023b12..666baaf 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -115,10 +115,13 @@ func (w *ASTWriter) WriteBytes(ast ast.Node) ([]byte, error) {
 	return data, nil
 }
 
-func (w *ASTWriter) write(ast ast.Node) error {
+func (w *ASTWriter) write(tree ast.Node) error {
 	w.reset()
 
-	ast.Accept(w)
+	if !ast.ValidNode(tree) {
+		tree = ast.NewNullNode()
+	}
+	tree.Accept(w)
 	if w.hasErrors() {
 		return w.error()
 	}
@@ -255,6 +258,9 @@ func (w *ASTWriter) VisitMappingEntryNode(n *ast.MappingEntryNode) {
 
 	w.increaseIndentation()
 
+	if !ast.ValidNode(value) {
+		value = ast.NewNullNode()
+	}
 	value.Accept(w)
 	w.decreaseIndentation()
 }
-- 
2.43.0


From 77c76eedb1fe47a0f7051ded46e6919cb1f92b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:13 +0000
Subject: [PATCH 24/90] fix: dereference outer aliases in raw nodes of yayamls
 reader

---
 engines/yayamls/decode/reader.go | 2 +-
 engines/yayamls/encode/writer.go | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 60cf22f..7c877d6 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -329,7 +329,7 @@ func (r *ASTReader) Raw() []byte {
 		r.latestDenyError = nil
 		return nil
 	}
-	w := encode.NewASTWriter()
+	w := encode.NewASTWriter(encode.WithAnchorsKeeper(&r.anchors))
 	v, err := w.WriteBytes(r.currentNode())
 	if err != nil {
 		r.appendError(err)
diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 666baaf..77cf202 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -3,6 +3,7 @@ package encode
 import (
 	"bytes"
 	"errors"
+	"fmt"
 	"io"
 	"strings"
 	"unicode/utf8"
@@ -38,6 +39,8 @@ type ASTWriter struct {
 	beforeSimple  string
 
 	metAnchors map[string]struct{}
+	// dereferenced contains anchored nodes which are being written in place of alias
+	dereferenced map[ast.Node]struct{}
 
 	opts writeOptions
 }
@@ -49,6 +52,7 @@ func NewASTWriter(opts ...WriteOption) *ASTWriter {
 		indentation:      defaultBasicIndentation,
 		indentationDelta: defaultIndendationDelta,
 		metAnchors:       map[string]struct{}{},
+		dereferenced:     map[ast.Node]struct{}{},
 	}
 
 	for _, opt := range opts {
@@ -172,8 +176,12 @@ func (w *ASTWriter) VisitAliasNode(n *ast.AliasNode) {
 		anchored, err := w.opts.anchorsKeeper.DereferenceAlias(alias)
 		if err != nil {
 			w.appendError(err)
+		} else if _, ok := w.dereferenced[anchored]; ok {
+			w.appendError(fmt.Errorf("value of anchor %q contains itself", alias))
 		} else if ast.ValidNode(anchored) {
+			w.dereferenced[anchored] = struct{}{}
 			anchored.Accept(w)
+			delete(w.dereferenced, anchored)
 		}
 		return
 	}
@@ -403,6 +411,7 @@ func (w *ASTWriter) reset() {
 	w.beforeSimple = ""
 	w.beforeComplex = ""
 	clear(w.metAnchors)
+	clear(w.dereferenced)
 }
 
 // canBePlain shows if text can be written as it is, without changing its value.
-- 
2.43.0


From c498d36e44eb65b5ce80da829d70d529b2dad55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:22 +0000
Subject: [PATCH 25/90] fix: report pending mapping entry at the end of mapping
 in goyaml builder

---
 engines/goyaml/encode/builder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/engines/goyaml/encode/builder.go b/engines/goyaml/encode/builder.go
index 681d980..cc6cb06 100644
--- a/engines/goyaml/encode/builder.go
+++ b/engines/goyaml/encode/builder.go
@@ -131,6 +131,8 @@ func (b *ASTBuilder) EndMapping() {
 			"failed to end mapping: expected mapping, but currenlty at %s",
 			kindToString(currentNode.Kind),
 		)
+	case len(currentNode.Content)%2 != 0:
+		b.fatalError = fmt.Errorf("failed to end mapping: there is a key without a value")
 	default:
 		b.popNode()
 	}
-- 
2.43.0


From 2d681e7d43280a20d6c7b720ca924380227c53bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:15 +0000
Subject: [PATCH 26/90] fix: refuse to replace a complete tree with another
 root

---
 engines/goyaml/encode/builder.go  | 8 +++++++-
 engines/yayamls/encode/builder.go | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/engines/goyaml/encode/builder.go b/engines/goyaml/encode/builder.go
index cc6cb06..abe47dd 100644
--- a/engines/goyaml/encode/builder.go
+++ b/engines/goyaml/encode/builder.go
@@ -197,8 +197,14 @@ func (b *ASTBuilder) insertNode(n *yaml.Node, pushToRoute bool) {
 	}
 	currentNode := b.currentNode()
 	if currentNode == nil {
-		b.pushNode(n)
+		if b.root != nil {
+			b.fatalError = fmt.Errorf("cannot insert new node to tree: tree is already complete")
+			return
+		}
 		b.root = n
+		if pushToRoute {
+			b.pushNode(n)
+		}
 		return
 	}
 
diff --git a/engines/yayamls/encode/builder.go b/engines/yayamls/encode/builder.go
index 8449416..f95ba6f 100644
--- a/engines/yayamls/encode/builder.go
+++ b/engines/yayamls/encode/builder.go
@@ -174,8 +174,14 @@ func (b *ASTBuilder) insertNode(n ast.Node, pushToRoute bool) {
 	}
 	currentNode := b.currentNode()
 	if !ast.ValidNode(currentNode) {
-		b.pushNode(n)
+		if b.root != nil {
+			b.fatalError = fmt.Errorf("cannot insert new node to tree: tree is already complete")
+			return
+		}
 		b.root = n
+		if pushToRoute {
+			b.pushNode(n)
+		}
 		return
 	}
 
-- 
2.43.0


From e70e1690ac20b66022d59d4e0439047a7335e6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:52 +0000
Subject: [PATCH 27/90] fix: stop decoding of a struct after null

---
 generator/decoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generator/decoder.go b/generator/decoder.go
index fefce15..2985c79 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -76,6 +76,7 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 	fmt.Fprintln(g.out, "  if in.TryNull() {")
 	fmt.Fprintln(g.out, "    var zeroValue "+tname)
 	fmt.Fprintln(g.out, "    *out = zeroValue")
+	fmt.Fprintln(g.out, "    return")
 	fmt.Fprintln(g.out, "  }")
 	fmt.Fprintln(g.out)
 
-- 
2.43.0


From 8a3d2c2634b4a621a51b00491d97538530a063be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:52 +0000
Subject: [PATCH 28/90] fix: quote field names in generated code

---
 generator/decoder.go | 2 +-
 generator/encoder.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index 2985c79..02d1af3 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -128,7 +128,7 @@ func (g *Generator) generateStructFieldDecoder(f reflect.StructField) error {
 		name = tags.name
 	}
 
-	fmt.Fprintln(g.out, "    case \""+name+"\":")
+	fmt.Fprintln(g.out, "    case "+strconv.Quote(name)+":")
 	return g.generateDecoderBody(f.Type, "out."+f.Name, tags, 6, true)
 }
 
diff --git a/generator/encoder.go b/generator/encoder.go
index 49a9bfa..4696ea4 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -4,6 +4,7 @@ import (
 	"encoding"
 	"fmt"
 	"reflect"
+	"strconv"
 	"strings"
 
 	"github.com/KSpaceer/yamly"
@@ -122,7 +123,7 @@ func (g *Generator) generateStructFieldEncoder(f reflect.StructField) error {
 		fmt.Fprintln(g.out, "  {")
 	}
 
-	fmt.Fprintln(g.out, "    out.InsertString(\""+name+"\")")
+	fmt.Fprintln(g.out, "    out.InsertString("+strconv.Quote(name)+")")
 	if err := g.generateEncoderBody(f.Type, "in."+f.Name, tags, 6, canBeNull); err != nil {
 		return err
 	}
-- 
2.43.0


From e0ed25b46cd5bcec1c8a144ea4f71efd51962aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:53 +0000
Subject: [PATCH 29/90] fix: generate compilable code for byte arrays

---
 generator/decoder.go | 2 +-
 generator/encoder.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index 02d1af3..301935f 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -226,7 +226,7 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 
 		if elem.Kind() == reflect.Uint8 && elem.Name() == "uint8" {
 			fmt.Fprintln(g.out, whitespace+"if !in.TryNull() {")
-			fmt.Fprintln(g.out, whitespace+"  copy("+outArg+", []byte(in.String()))")
+			fmt.Fprintln(g.out, whitespace+"  copy(("+outArg+")[:], in.String())")
 			fmt.Fprintln(g.out, whitespace+"}")
 		} else {
 			arrayStateVar := g.generateVarName("SeqState")
diff --git a/generator/encoder.go b/generator/encoder.go
index 4696ea4..ffeb555 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -246,7 +246,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 		elem := t.Elem()
 
 		if elem.Kind() == reflect.Uint8 && elem.Name() == "uint8" {
-			fmt.Fprintln(g.out, whitespace+"out.InsertString(string("+inArg+"[:]))")
+			fmt.Fprintln(g.out, whitespace+"out.InsertString(string(("+inArg+")[:]))")
 		} else {
 			iVar := g.generateVarName()
 			fmt.Fprintln(g.out, whitespace+"out.StartSequence()")
-- 
2.43.0


From 09706b2464e4b97145d5d2db57a5900dbacf9713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:53 +0000
Subject: [PATCH 30/90] fix: skip sequence items which do not fit into array

---
 generator/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/decoder.go b/generator/decoder.go
index 301935f..38ff514 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -242,6 +242,9 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 			}
 			fmt.Fprintln(g.out, whitespace+"    "+iterVar+"++")
 			fmt.Fprintln(g.out, whitespace+"  }")
+			fmt.Fprintln(g.out, whitespace+"  for "+arrayStateVar+".HasUnprocessedItems() {")
+			fmt.Fprintln(g.out, whitespace+"    in.Skip()")
+			fmt.Fprintln(g.out, whitespace+"  }")
 			fmt.Fprintln(g.out, whitespace+"}")
 		}
 	case reflect.Struct:
-- 
2.43.0


From 315cb7b571cbd957f92907ec82b57cba78367441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:53 +0000
Subject: [PATCH 31/90] fix: generate compilable code for pointers to
 marshalers

---
 engines/yayamls/engine.go | 2 +-
 generator/encoder.go      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/engines/yayamls/engine.go b/engines/yayamls/engine.go
index 7c0a700..47aaa05 100644
--- a/engines/yayamls/engine.go
+++ b/engines/yayamls/engine.go
@@ -79,7 +79,7 @@ func (engineGenerator) MarshalersImplementationCheck(
 ) (generator.ImplementationResult, error) {
 	marshalIface := reflect.TypeOf((*Marshaler)(nil)).Elem()
 	if reflect.PtrTo(t).Implements(marshalIface) {
-		fmt.Fprintln(dst, strings.Repeat(" ", indent)+"out.InsertRaw("+inArg+".MarshalYAML())")
+		fmt.Fprintln(dst, strings.Repeat(" ", indent)+"out.InsertRaw(("+inArg+").MarshalYAML())")
 		return generator.ImplementationResultTrue, nil
 	}
 	return generator.ImplementationResultFalse, nil
diff --git a/generator/encoder.go b/generator/encoder.go
index ffeb555..787c4ca 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -165,7 +165,7 @@ func (g *Generator) generateEncoderBody(
 
 		marshalIface := reflect.TypeOf((*yamly.MarshalerYamly)(nil)).Elem()
 		if reflect.PtrTo(t).Implements(marshalIface) {
-			fmt.Fprintln(g.out, whitespace+inArg+".MarshalYamly(out)")
+			fmt.Fprintln(g.out, whitespace+"("+inArg+").MarshalYamly(out)")
 			return nil
 		}
 
@@ -184,7 +184,7 @@ func (g *Generator) generateEncoderBody(
 
 		marshalIface = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
 		if reflect.PtrTo(t).Implements(marshalIface) {
-			fmt.Fprintln(g.out, whitespace+"out.InsertRawText("+inArg+".MarshalText())")
+			fmt.Fprintln(g.out, whitespace+"out.InsertRawText(("+inArg+").MarshalText())")
 			return nil
 		}
 	}
-- 
2.43.0


From 53fb01f13daa347a2605ab2959c1e16e53d7fba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:22 +0000
Subject: [PATCH 32/90] fix: generate compilable code for interfaces and
 yaml.Unmarshaler

---
 engines/goyaml/engine.go | 5 +++--
 generator/decoder.go     | 4 ++--
 generator/encoder.go     | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/engines/goyaml/engine.go b/engines/goyaml/engine.go
index f2fc3f7..d636bec 100644
--- a/engines/goyaml/engine.go
+++ b/engines/goyaml/engine.go
@@ -64,7 +64,7 @@ func (engineGenerator) UnmarshalersImplementationCheck(
 	if reflect.PtrTo(t).Implements(unmarshalIface) {
 		whitespace := strings.Repeat(" ", indent)
 		fmt.Fprintln(dst, whitespace+"if extIn, ok := in.(yamly.ExtendedDecoder[*yaml.Node]); ok {")
-		fmt.Fprintln(dst, whitespace+"  in.AddError(("+outArg+").UnmarshalYAML(extIn.Node())")
+		fmt.Fprintln(dst, whitespace+"  in.AddError(("+outArg+").UnmarshalYAML(extIn.Node()))")
 		fmt.Fprintln(dst, whitespace, "} else {")
 		return generator.ImplementationResultConditional, nil
 	}
@@ -89,9 +89,10 @@ func (engineGenerator) GenerateUnmarshalEmptyInterfaceAssertions(dst io.Writer,
 	whitespace := strings.Repeat(" ", indent)
 	fmt.Fprintln(dst, whitespace+"if m, ok := "+outArg+".(yaml.Unmarshaler); ok {")
 	fmt.Fprintln(dst, whitespace+"  if extIn, ok := in.(yamly.ExtendedDecoder[*yaml.Node]); ok {")
-	fmt.Fprintln(dst, whitespace+"    in.AddError(m.UnmarshalYAML(extIn.Node())")
+	fmt.Fprintln(dst, whitespace+"    in.AddError(m.UnmarshalYAML(extIn.Node()))")
 	fmt.Fprintln(dst, whitespace+"  } else {")
 	fmt.Fprintln(dst, whitespace+"    "+outArg+" = in.Any()")
+	fmt.Fprintln(dst, whitespace+"  }")
 	fmt.Fprintln(dst, whitespace+"} else {")
 	fmt.Fprintln(dst, whitespace+"  "+outArg+" = in.Any()")
 	fmt.Fprintln(dst, whitespace+"}")
diff --git a/generator/decoder.go b/generator/decoder.go
index 38ff514..5dd91ec 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -311,7 +311,7 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 	case reflect.Interface:
 		if t.NumMethod() > 0 {
 			if implementsUnmarshalerYamly(t) {
-				fmt.Fprintln(g.out, whitespace+"_ = "+outArg+".UnmarshalYamly(in)")
+				fmt.Fprintln(g.out, whitespace+"("+outArg+").UnmarshalYamly(in)")
 			} else if implResult, err := g.engineGen.UnmarshalersImplementationCheck(g.out, t, outArg, indent); err != nil {
 				return err
 			} else {
@@ -326,7 +326,7 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 			}
 		} else {
 			fmt.Fprintln(g.out, whitespace+"if m, ok := "+outArg+".(yamly.UnmarshalerYamly); ok {")
-			fmt.Fprintln(g.out, whitespace+"  in.AddError(m.UnmarshalYamly(in))")
+			fmt.Fprintln(g.out, whitespace+"  m.UnmarshalYamly(in)")
 			fmt.Fprintln(g.out, whitespace+"} else {")
 			if err := g.engineGen.GenerateUnmarshalEmptyInterfaceAssertions(g.out, outArg, indent+indentDelta); err != nil {
 				return err
diff --git a/generator/encoder.go b/generator/encoder.go
index 787c4ca..f3a3208 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -316,7 +316,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 	case reflect.Interface:
 		if t.NumMethod() > 0 {
 			if implementMarshalerYamly(t) {
-				fmt.Fprintln(g.out, whitespace+"_ = "+inArg+".MarshalYamly(out)")
+				fmt.Fprintln(g.out, whitespace+"("+inArg+").MarshalYamly(out)")
 			} else if implResult, err := g.engineGen.MarshalersImplementationCheck(g.out, t, inArg, indent); err != nil {
 				return err
 			} else {
@@ -330,7 +330,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 				}
 			}
 		} else {
-			fmt.Fprintln(g.out, whitespace+"if m, ok := "+inArg+".(yamly.MarshalerYamly) {")
+			fmt.Fprintln(g.out, whitespace+"if m, ok := "+inArg+".(yamly.MarshalerYamly); ok {")
 			fmt.Fprintln(g.out, whitespace+"  m.MarshalYamly(out)")
 			fmt.Fprintln(g.out, whitespace+"} else {")
 			if err := g.engineGen.GenerateMarshalEmptyInterfaceAssertions(g.out, inArg, indent+2); err != nil {
-- 
2.43.0


From 05eb3d8e945908afc48ae6fe539dd798867521f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:23 +0000
Subject: [PATCH 33/90] fix: close the block of conditional implementation in
 generated code

---
 generator/decoder.go | 1 +
 generator/encoder.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/generator/decoder.go b/generator/decoder.go
index 5dd91ec..b94eebe 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -165,6 +165,7 @@ func (g *Generator) generateDecoderBody(
 		unmarshalIface = reflect.TypeOf((*encoding.TextUnmarshaler)(nil)).Elem()
 		if reflect.PtrTo(t).Implements(unmarshalIface) {
 			fmt.Fprintln(g.out, whitespace+"in.AddError(("+outArg+").UnmarshalText([]byte(in.String())))")
+			fmt.Fprintln(g.out, finishingText)
 			return nil
 		}
 	}
diff --git a/generator/encoder.go b/generator/encoder.go
index f3a3208..dc72416 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -185,6 +185,7 @@ func (g *Generator) generateEncoderBody(
 		marshalIface = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
 		if reflect.PtrTo(t).Implements(marshalIface) {
 			fmt.Fprintln(g.out, whitespace+"out.InsertRawText(("+inArg+").MarshalText())")
+			fmt.Fprintln(g.out, finishingText)
 			return nil
 		}
 	}
-- 
2.43.0


From 6f6a7416602520f68973f0dbf40f7f452ddc9610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:41 +0000
Subject: [PATCH 34/90] fix: decode and encode time.Time with timestamp methods

---
 generator/decoder.go | 2 +-
 generator/encoder.go | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index b94eebe..e5dd9d2 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -140,7 +140,7 @@ func (g *Generator) generateDecoderBody(
 	complexTypeElem bool,
 ) error {
 	var finishingText string
-	if t != g.currentType {
+	if t != g.currentType && customDecoders[t.String()] == "" {
 		whitespace := strings.Repeat(" ", indent)
 
 		unmarshalIface := reflect.TypeOf((*yamly.UnmarshalerYamly)(nil)).Elem()
diff --git a/generator/encoder.go b/generator/encoder.go
index dc72416..11f6494 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -28,7 +28,7 @@ var basicEncoderFormatStrings = map[reflect.Kind]string{
 }
 
 var customEncoderFormatStrings = map[string]string{
-	"time.Time": "out.InsertTimestamp(time.Time(%v))",
+	"time.Time": "out.InsertTimestamp(%v)",
 }
 
 func (g *Generator) generateMarshaler(t reflect.Type) error {
@@ -160,7 +160,7 @@ func (g *Generator) generateEncoderBody(
 	canBeNull bool,
 ) error {
 	var finishingText string
-	if t != g.currentType {
+	if t != g.currentType && customEncoderFormatStrings[t.String()] == "" {
 		whitespace := strings.Repeat(" ", indent)
 
 		marshalIface := reflect.TypeOf((*yamly.MarshalerYamly)(nil)).Elem()
@@ -211,7 +211,6 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 		fmt.Fprintf(g.out, whitespace+enc+"\n", inArg)
 		return nil
 	} else if enc := customEncoderFormatStrings[t.String()]; enc != "" {
-		g.imports[t.PkgPath()] = t.Name() // assume it is a standard library
 		fmt.Fprintf(g.out, whitespace+enc+"\n", inArg)
 		return nil
 	}
-- 
2.43.0


From 6629aedddfc64d5506a122a0a512ce674bf69fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:37 +0000
Subject: [PATCH 35/90] fix: access inlined fields by path and allocate inlined
 pointers on demand

---
 generator/decoder.go   | 27 +++---------
 generator/encoder.go   | 23 +++++-----
 generator/generator.go | 96 +++++++++++++++++++++++++++++-------------
 3 files changed, 85 insertions(+), 61 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index e5dd9d2..c54ac10 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -80,14 +80,6 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 	fmt.Fprintln(g.out, "  }")
 	fmt.Fprintln(g.out)
 
-	for i := 0; i < t.NumField(); i++ {
-		f := t.Field(i)
-		if !f.Anonymous || f.Type.Kind() != reflect.Pointer {
-			continue
-		}
-		fmt.Fprintln(g.out, "  out."+f.Name+" = new("+g.extractTypeName(f.Type.Elem())+")")
-	}
-
 	fields, err := g.getStructFields(t)
 	if err != nil {
 		return fmt.Errorf("cannot generate decoder for %s: %w", t, err)
@@ -117,19 +109,14 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 	return nil
 }
 
-func (g *Generator) generateStructFieldDecoder(f reflect.StructField) error {
-	tags := parseTags(f.Tag)
-
-	if tags.omitField {
-		return nil
-	}
-	name := f.Name
-	if tags.name != "" {
-		name = tags.name
+func (g *Generator) generateStructFieldDecoder(f structField) error {
+	fmt.Fprintln(g.out, "    case "+strconv.Quote(f.key)+":")
+	for _, ptr := range f.pointers {
+		fmt.Fprintln(g.out, "      if out."+ptr.path+" == nil {")
+		fmt.Fprintln(g.out, "        out."+ptr.path+" = new("+g.extractTypeName(ptr.typ.Elem())+")")
+		fmt.Fprintln(g.out, "      }")
 	}
-
-	fmt.Fprintln(g.out, "    case "+strconv.Quote(name)+":")
-	return g.generateDecoderBody(f.Type, "out."+f.Name, tags, 6, true)
+	return g.generateDecoderBody(f.typ, "out."+f.path, f.tags, 6, true)
 }
 
 func (g *Generator) generateDecoderBody(
diff --git a/generator/encoder.go b/generator/encoder.go
index 11f6494..729ab77 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -105,26 +105,25 @@ func (g *Generator) generateStructEncoder(t reflect.Type) error {
 	return nil
 }
 
-func (g *Generator) generateStructFieldEncoder(f reflect.StructField) error {
-	tags := parseTags(f.Tag)
+func (g *Generator) generateStructFieldEncoder(f structField) error {
+	canBeNull := !(g.omitempty || f.tags.omitempty)
 
-	if tags.omitField {
-		return nil
+	checks := make([]string, 0, len(f.pointers)+1)
+	for _, ptr := range f.pointers {
+		checks = append(checks, "in."+ptr.path+" != nil")
 	}
-	name := f.Name
-	if tags.name != "" {
-		name = tags.name
+	if !canBeNull {
+		checks = append(checks, g.generateNotEmptyCheck(f.typ, "in."+f.path))
 	}
-	canBeNull := !(g.omitempty || tags.omitempty)
 
-	if !canBeNull {
-		fmt.Fprintln(g.out, "  if "+g.generateNotEmptyCheck(f.Type, "in."+f.Name)+" {")
+	if len(checks) > 0 {
+		fmt.Fprintln(g.out, "  if "+strings.Join(checks, " && ")+" {")
 	} else {
 		fmt.Fprintln(g.out, "  {")
 	}
 
-	fmt.Fprintln(g.out, "    out.InsertString("+strconv.Quote(name)+")")
-	if err := g.generateEncoderBody(f.Type, "in."+f.Name, tags, 6, canBeNull); err != nil {
+	fmt.Fprintln(g.out, "    out.InsertString("+strconv.Quote(f.key)+")")
+	if err := g.generateEncoderBody(f.typ, "in."+f.path, f.tags, 6, canBeNull); err != nil {
 		return err
 	}
 	fmt.Fprintln(g.out, "  }")
diff --git a/generator/generator.go b/generator/generator.go
index 70e8497..346ec7b 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -385,68 +385,106 @@ func joinFunctionNameParts(keepFirst bool, parts ...string) string {
 	return buf.String()
 }
 
-func (g *Generator) getStructFields(t reflect.Type) ([]reflect.StructField, error) {
+// structField describes a field of struct or one of its inlined structs.
+type structField struct {
+	// key is a YAML mapping key of the field
+	key string
+	// path is a selector of the field relative to the struct
+	path string
+	typ  reflect.Type
+	tags fieldTags
+
+	// pointers contains inlined pointers on the way to the field
+	pointers []inlinedPointer
+}
+
+type inlinedPointer struct {
+	path string
+	typ  reflect.Type
+}
+
+func (g *Generator) getStructFields(t reflect.Type) ([]structField, error) {
 	if t.Kind() != reflect.Struct {
 		return nil, fmt.Errorf("expected struct, but got %s", t)
 	}
 
 	var (
-		embeddedFields []reflect.StructField
-		fields         []reflect.StructField
+		embeddedFields []structField
+		fields         []structField
 	)
 
 	for i := 0; i < t.NumField(); i++ {
 		f := t.Field(i)
 		tags := parseTags(f.Tag)
-		if !(f.Anonymous && g.inlineEmbedded && tags.name == "") && !tags.inline {
+		if tags.omitField {
 			continue
 		}
+		exported := unicode.IsUpper([]rune(f.Name)[0])
 
-		t := f.Type
-		if t.Kind() == reflect.Pointer {
-			t = t.Elem()
+		inlinedType := f.Type
+		if inlinedType.Kind() == reflect.Pointer {
+			inlinedType = inlinedType.Elem()
 		}
+		inlined := (f.Anonymous && g.inlineEmbedded && tags.name == "") || tags.inline
 
-		if t.Kind() == reflect.Struct {
-			fs, err := g.getStructFields(t)
+		if inlined && inlinedType.Kind() == reflect.Struct {
+			if !exported && !f.Anonymous {
+				continue
+			}
+			fs, err := g.getStructFields(inlinedType)
 			if err != nil {
 				return nil, fmt.Errorf("error processing embedded field: %w", err)
 			}
-			embeddedFields = mergeStructFields(embeddedFields, fs)
-		} else if (t.Kind() >= reflect.Bool && t.Kind() <= reflect.Complex128) || t.Kind() == reflect.String {
-			// kind is basic
-			if strings.Contains(f.Name, ".") || unicode.IsUpper([]rune(f.Name)[0]) {
-				fields = append(fields, f)
-			}
-		}
-	}
-
-	for i := 0; i < t.NumField(); i++ {
-		f := t.Field(i)
-		tags := parseTags(f.Tag)
-		if (f.Anonymous && g.inlineEmbedded && tags.name == "") || tags.inline {
+			embeddedFields = mergeStructFields(embeddedFields, g.inlineFields(f, fs))
 			continue
 		}
 
-		c := []rune(f.Name)[0]
-		if unicode.IsUpper(c) {
-			fields = append(fields, f)
+		if exported {
+			key := f.Name
+			if tags.name != "" {
+				key = tags.name
+			}
+			fields = append(fields, structField{key: key, path: f.Name, typ: f.Type, tags: tags})
 		}
 	}
 
 	return mergeStructFields(embeddedFields, fields), nil
 }
 
-func mergeStructFields(firstFields, secondFields []reflect.StructField) []reflect.StructField {
-	fields := make([]reflect.StructField, 0, len(firstFields))
+// inlineFields makes fields of the struct (or pointer to struct) f
+// accessible from the struct containing f.
+func (g *Generator) inlineFields(f reflect.StructField, fields []structField) []structField {
+	if f.PkgPath != "" && f.PkgPath != g.pkgPath {
+		// embedded field is not accessible, but its fields are promoted
+		return fields
+	}
+	inlined := make([]structField, 0, len(fields))
+	for _, field := range fields {
+		var pointers []inlinedPointer
+		if f.Type.Kind() == reflect.Pointer {
+			pointers = append(pointers, inlinedPointer{path: f.Name, typ: f.Type})
+		}
+		for _, ptr := range field.pointers {
+			ptr.path = f.Name + "." + ptr.path
+			pointers = append(pointers, ptr)
+		}
+		field.path = f.Name + "." + field.path
+		field.pointers = pointers
+		inlined = append(inlined, field)
+	}
+	return inlined
+}
+
+func mergeStructFields(firstFields, secondFields []structField) []structField {
+	fields := make([]structField, 0, len(firstFields)+len(secondFields))
 	used := make(map[string]bool)
 	for _, f := range secondFields {
-		used[f.Name] = true
+		used[f.key] = true
 		fields = append(fields, f)
 	}
 
 	for _, f := range firstFields {
-		if !used[f.Name] {
+		if !used[f.key] {
 			fields = append(fields, f)
 		}
 	}
-- 
2.43.0


From 07345cb036b5dd67aff4f9dea081a3595d6b9e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:37 +0000
Subject: [PATCH 36/90] fix: report unknown fields with null value

---
 generator/decoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index c54ac10..abd8fd2 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -88,9 +88,6 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 	fmt.Fprintln(g.out, "  structMappingState := in.Mapping()")
 	fmt.Fprintln(g.out, "  for structMappingState.HasUnprocessedItems() {")
 	fmt.Fprintln(g.out, "    key := in.String()")
-	fmt.Fprintln(g.out, "    if in.TryNull() {")
-	fmt.Fprintln(g.out, "      continue")
-	fmt.Fprintln(g.out, "    }")
 	fmt.Fprintln(g.out, "    switch key {")
 	for _, f := range fields {
 		if err = g.generateStructFieldDecoder(f); err != nil {
@@ -116,6 +113,9 @@ func (g *Generator) generateStructFieldDecoder(f structField) error {
 		fmt.Fprintln(g.out, "        out."+ptr.path+" = new("+g.extractTypeName(ptr.typ.Elem())+")")
 		fmt.Fprintln(g.out, "      }")
 	}
+	fmt.Fprintln(g.out, "      if in.TryNull() {")
+	fmt.Fprintln(g.out, "        continue")
+	fmt.Fprintln(g.out, "      }")
 	return g.generateDecoderBody(f.typ, "out."+f.path, f.tags, 6, true)
 }
 
-- 
2.43.0


From 9792e9e6d31d3b6a53c97fc4507972ed9f0c2314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:12 +0000
Subject: [PATCH 37/90] fix: generate different function names for different
 files of package

---
 generator/generator.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index 346ec7b..ee81c49 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -301,7 +301,7 @@ func (g *Generator) generateVarName(suffixes ...string) string {
 }
 
 func (g *Generator) generateFunctionName(prefix string, t reflect.Type) string {
-	prefix = joinFunctionNameParts(true, "yamly", prefix)
+	prefix = joinFunctionNameParts(true, "yamly"+g.outputHash(), prefix)
 	name := joinFunctionNameParts(true, prefix, safeTypeName(t))
 
 	if typ, ok := g.funcNames[name]; !ok || t == typ {
@@ -325,6 +325,14 @@ func (g *Generator) generateFunctionName(prefix string, t reflect.Type) string {
 	}
 }
 
+// outputHash distinguishes functions of the same type
+// generated into different files of the package.
+func (g *Generator) outputHash() string {
+	hasher := fnv.New32()
+	hasher.Write([]byte(g.outputFile))
+	return fmt.Sprintf("%X", hasher.Sum32())
+}
+
 func safeTypeName(t reflect.Type) string {
 	name := t.PkgPath()
 	if t.Name() == "" {
-- 
2.43.0


From b4e03789fea652de96073573e0e5a77524d847de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:20 +0000
Subject: [PATCH 38/90] fix: keep non-ASCII type names valid in names of
 generated functions

---
 generator/generator.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index ee81c49..c9528fd 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -381,13 +381,11 @@ func joinFunctionNameParts(keepFirst bool, parts ...string) string {
 		if i == 0 && keepFirst {
 			buf.WriteString(parts[i])
 		} else {
-			n := len(parts[i])
-			if n > 0 {
-				buf.WriteString(strings.ToUpper(string(parts[i][0])))
-			}
-			if n > 1 {
-				buf.WriteString(parts[i][1:])
+			runes := []rune(parts[i])
+			if len(runes) > 0 {
+				runes[0] = unicode.ToUpper(runes[0])
 			}
+			buf.WriteString(string(runes))
 		}
 	}
 	return buf.String()
-- 
2.43.0


From ffe835d5ad5627656608397a669be8efcfb01ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:51 +0000
Subject: [PATCH 39/90] fix: restore output file when code generation fails

---
 generator/bootstrap/generator.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/generator/bootstrap/generator.go b/generator/bootstrap/generator.go
index 53ebd6f..15def52 100644
--- a/generator/bootstrap/generator.go
+++ b/generator/bootstrap/generator.go
@@ -63,6 +63,20 @@ func (g *Generator) generateStub() error {
 	return nil
 }
 
+// backupOutput returns a function which brings output file
+// back to the state before generation.
+func (g *Generator) backupOutput() (func(), error) {
+	data, err := os.ReadFile(g.OutputName)
+	switch {
+	case err == nil:
+		return func() { _ = os.WriteFile(g.OutputName, data, 0o600) }, nil
+	case os.IsNotExist(err):
+		return func() { _ = os.Remove(g.OutputName) }, nil
+	default:
+		return nil, err
+	}
+}
+
 func (g *Generator) generateMain() (string, error) {
 	f, err := os.CreateTemp(filepath.Dir(g.OutputName), "yamly-bootstrap")
 	if err != nil {
@@ -117,7 +131,17 @@ func (g *Generator) generateMain() (string, error) {
 	return dst, os.Rename(src, dst)
 }
 
-func (g *Generator) Generate() error {
+func (g *Generator) Generate() (err error) {
+	restore, err := g.backupOutput()
+	if err != nil {
+		return fmt.Errorf("failed to read previous output: %w", err)
+	}
+	defer func() {
+		if err != nil {
+			restore()
+		}
+	}()
+
 	if err := g.generateStub(); err != nil {
 		return fmt.Errorf("failed to generate stub: %w", err)
 	}
-- 
2.43.0


From ac3cf280719c8318b2fdda7440b6a604ba3fcd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:36 +0000
Subject: [PATCH 40/90] fix: decode text written as binary by goyaml engine

---
 engines/goyaml/decode/any.go    |  6 +++---
 engines/goyaml/decode/reader.go |  2 +-
 engines/goyaml/schema/schema.go | 12 ++++++++++++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/engines/goyaml/decode/any.go b/engines/goyaml/decode/any.go
index ddec468..db27f64 100644
--- a/engines/goyaml/decode/any.go
+++ b/engines/goyaml/decode/any.go
@@ -175,12 +175,12 @@ func (a *anyBuilder) processMappingPair(keyNode, valueNode *yaml.Node) {
 
 func (a *anyBuilder) visitScalarNode(n *yaml.Node) {
 	if a.extractString {
-		a.stringValue = n.Value
+		a.stringValue = schema.Text(n)
 	} else {
 		var err error
 		switch {
-		case n.Style&(yaml.SingleQuotedStyle|yaml.DoubleQuotedStyle) != 0:
-			a.value = n.Value
+		case n.Style&(yaml.SingleQuotedStyle|yaml.DoubleQuotedStyle) != 0 || n.ShortTag() == "!!binary":
+			a.value = schema.Text(n)
 		case schema.IsNull(n):
 			a.value = nil
 		case schema.IsTimestamp(n):
diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index df06baf..f4ff718 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -424,7 +424,7 @@ func (r *ASTReader) visitScalarNode(n *yaml.Node) {
 
 	if point.visitingResult.action == visitingActionExtract {
 		r.extractedCollectionState = nil
-		r.extractedValue = n.Value
+		r.extractedValue = schema.Text(n)
 	}
 }
 
diff --git a/engines/goyaml/schema/schema.go b/engines/goyaml/schema/schema.go
index f5825d0..a2facc3 100644
--- a/engines/goyaml/schema/schema.go
+++ b/engines/goyaml/schema/schema.go
@@ -1,6 +1,7 @@
 package schema
 
 import (
+	"encoding/base64"
 	"time"
 
 	"github.com/KSpaceer/yamly/engines/pkg/schema"
@@ -85,6 +86,17 @@ func IsBinary(n *yaml.Node) bool {
 	return n.ShortTag() == "!!binary" || schema.IsBinary(n.Value)
 }
 
+// Text returns a text of scalar node, decoding it if the node is explicitly tagged as binary
+// (this is how non-UTF-8 strings are written).
+func Text(n *yaml.Node) string {
+	if n.ShortTag() == "!!binary" {
+		if data, err := base64.StdEncoding.DecodeString(n.Value); err == nil {
+			return string(data)
+		}
+	}
+	return n.Value
+}
+
 func IsMergeKey(n *yaml.Node) bool {
 	if n.Kind != yaml.ScalarNode {
 		return false
-- 
2.43.0


From a751bbcc1895f42880ea2e3e6525263122089072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:44 +0000
Subject: [PATCH 41/90] fix: refuse to quote strings which are not valid UTF-8

---
 engines/yayamls/yamlchar/transformations.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/engines/yayamls/yamlchar/transformations.go b/engines/yayamls/yamlchar/transformations.go
index 7990620..66226e7 100644
--- a/engines/yayamls/yamlchar/transformations.go
+++ b/engines/yayamls/yamlchar/transformations.go
@@ -1,12 +1,15 @@
 package yamlchar
 
 import (
+	"errors"
 	"fmt"
 	"strconv"
 	"strings"
 	"unicode/utf8"
 )
 
+var errInvalidUTF8 = errors.New("string is not a valid UTF-8 text")
+
 // ConvertFromYAMLSingleQuotedString 'unquotes' single quoted YAML string
 func ConvertFromYAMLSingleQuotedString(s string) (string, error) {
 	var sb strings.Builder
@@ -41,6 +44,9 @@ func ConvertFromYAMLSingleQuotedString(s string) (string, error) {
 
 // ConvertToYAMLSingleQuotedString 'quotes' given string as YAML single quoted string
 func ConvertToYAMLSingleQuotedString(s string) (string, error) {
+	if !utf8.ValidString(s) {
+		return "", errInvalidUTF8
+	}
 	return strings.ReplaceAll(s, "'", "''"), nil
 }
 
@@ -80,6 +86,9 @@ func ConvertFromYAMLDoubleQuotedString(s string) (string, error) {
 
 // ConvertToYAMLDoubleQuotedString 'quotes' given string as YAML double quoted string
 func ConvertToYAMLDoubleQuotedString(s string) (string, error) {
+	if !utf8.ValidString(s) {
+		return "", errInvalidUTF8
+	}
 	var sb strings.Builder
 	sb.Grow(len(s))
 	for _, r := range s {
-- 
2.43.0


From 3d16e3d81d1b718b45f221004359fa2db687f528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:23 +0000
Subject: [PATCH 42/90] fix: allow quotes, percents and exclamation marks
 inside of plain words

---
 engines/yayamls/lexer/context.go | 46 +++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 6efc386..554d5da 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -189,11 +189,13 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.TagCharacter:
-		c.switchContext(tagContextType)
-		tok.End = t.pos
-		tok.Type = token.TagType
-		tok.Origin = string([]rune{r})
-		return tok, true
+		if t.lookbehind(token.MayPrecedeWord) {
+			c.switchContext(tagContextType)
+			tok.End = t.pos
+			tok.Type = token.TagType
+			tok.Origin = string([]rune{r})
+			return tok, true
+		}
 	case yamlchar.LiteralCharacter:
 		if t.lookbehind(token.MayPrecedeWord) {
 			c.switchContext(multilineBlockStartContextType)
@@ -211,22 +213,28 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.SingleQuoteCharacter:
-		c.switchContext(singleQuoteContextType)
-		tok.End = t.pos
-		tok.Type = token.SingleQuoteType
-		tok.Origin = string([]rune{r})
-		return tok, true
+		if t.lookbehind(token.MayPrecedeWord) {
+			c.switchContext(singleQuoteContextType)
+			tok.End = t.pos
+			tok.Type = token.SingleQuoteType
+			tok.Origin = string([]rune{r})
+			return tok, true
+		}
 	case yamlchar.DoubleQuoteCharacter:
-		c.switchContext(doubleQuoteContextType)
-		tok.End = t.pos
-		tok.Type = token.DoubleQuoteType
-		tok.Origin = string([]rune{r})
-		return tok, true
+		if t.lookbehind(token.MayPrecedeWord) {
+			c.switchContext(doubleQuoteContextType)
+			tok.End = t.pos
+			tok.Type = token.DoubleQuoteType
+			tok.Origin = string([]rune{r})
+			return tok, true
+		}
 	case yamlchar.DirectiveCharacter:
-		tok.End = t.pos
-		tok.Type = token.DirectiveType
-		tok.Origin = string([]rune{r})
-		return tok, true
+		if t.lookbehind(token.MayPrecedeWord) {
+			tok.End = t.pos
+			tok.Type = token.DirectiveType
+			tok.Origin = string([]rune{r})
+			return tok, true
+		}
 	case yamlchar.DocumentEndCharacter:
 		if t.lookahead(3, func(runes []rune) bool {
 			return runes[0] == runes[1] && runes[1] == yamlchar.DocumentEndCharacter &&
-- 
2.43.0


From 54584776882100c5c94a07d17af5fa28db638409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:56 +0000
Subject: [PATCH 43/90] fix: recognize comments inside of flow collections

---
 engines/yayamls/lexer/context.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 554d5da..76a5a7c 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -305,6 +305,14 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 		tok.Type = token.MappingEndType
 		tok.Origin = string([]rune{r})
 		return tok, true
+	case yamlchar.CommentCharacter:
+		if t.lookbehind(token.MayPrecedeWord) {
+			c.switchContext(commentContextType)
+			tok.End = t.pos
+			tok.Type = token.CommentType
+			tok.Origin = string([]rune{r})
+			return tok, true
+		}
 	case yamlchar.AnchorCharacter:
 		if t.lookbehind(mayPrecedeWordInFlow) {
 			tok.End = t.pos
-- 
2.43.0


From d377bb534ef50c8344e33a06db2233eb14a210dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:49 +0000
Subject: [PATCH 44/90] fix: read single pairs of flow sequences as mappings

---
 engines/yayamls/decode/any.go      |  2 +-
 engines/yayamls/decode/iterator.go | 20 +++++++++++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/decode/any.go b/engines/yayamls/decode/any.go
index 3e2f6c9..4ba5d2f 100644
--- a/engines/yayamls/decode/any.go
+++ b/engines/yayamls/decode/any.go
@@ -72,7 +72,7 @@ func (a *anyBuilder) VisitTextNode(n *ast.TextNode) {
 }
 
 func (a *anyBuilder) VisitSequenceNode(n *ast.SequenceNode) {
-	entries := n.Entries()
+	entries := sequenceEntries(n)
 	s := make([]any, 0, len(entries))
 
 	savedExtractString := a.extractString
diff --git a/engines/yayamls/decode/iterator.go b/engines/yayamls/decode/iterator.go
index aa0ac1f..fca3ec6 100644
--- a/engines/yayamls/decode/iterator.go
+++ b/engines/yayamls/decode/iterator.go
@@ -32,10 +32,28 @@ func newStreamIterator(s *ast.StreamNode) nodeIterator {
 func newSequenceIterator(s *ast.SequenceNode) nodeIterator {
 	return &nodeIteratorImpl{
 		i:     0,
-		nodes: s.Entries(),
+		nodes: sequenceEntries(s),
 	}
 }
 
+// sequenceEntries returns entries of sequence, representing single pairs
+// (e.g. [key: value]) as mappings with one entry.
+func sequenceEntries(s *ast.SequenceNode) []ast.Node {
+	entries := s.Entries()
+	for i, entry := range entries {
+		if entry.Type() == ast.MappingEntryType {
+			entries = append([]ast.Node(nil), entries...)
+			for ; i < len(entries); i++ {
+				if entries[i].Type() == ast.MappingEntryType {
+					entries[i] = ast.NewMappingNode([]ast.Node{entries[i]})
+				}
+			}
+			break
+		}
+	}
+	return entries
+}
+
 func newMappingIterator(m *ast.MappingNode) nodeIterator {
 	return &nodeIteratorImpl{
 		i:     0,
-- 
2.43.0


From ae794c66a1d2326937fbbafa20bf6818370d8a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:40 +0000
Subject: [PATCH 45/90] fix: allow flow indicators inside of plain keys of
 block mappings

---
 engines/yayamls/parser/flow.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index 55ac5e1..f436102 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -1095,9 +1095,9 @@ func (p *parser) parsePlainFirst(ctx context, buf *bytes.Buffer) ast.Node {
 
 func isPlainSafeToken(tok token.Token, ctx context) bool {
 	switch ctx {
-	case flowInContext, flowOutContext:
+	case flowInContext, flowOutContext, blockKeyContext:
 		return tok.Type == token.StringType
-	case blockKeyContext, flowKeyContext:
+	case flowKeyContext:
 		return tok.Type == token.StringType && tok.ConformsCharSet(yamlchar.PlainSafeCharSetType)
 	default:
 		return false
-- 
2.43.0


From b90ff03ba7d915655bd5a4aabe904f919e01e50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:57 +0000
Subject: [PATCH 46/90] fix: do not treat characters inside of plain text as
 indicators

---
 engines/yayamls/lexer/context.go   | 21 +++++++++++++++++++++
 engines/yayamls/lexer/tokenizer.go | 14 ++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 76a5a7c..1072399 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -106,7 +106,25 @@ func (c *context) matchSpecialToken(t *Tokenizer, r rune) (token.Token, bool) {
 	}
 }
 
+func (c *context) mayContainPlainText() bool {
+	ctxType := c.currentType()
+	return !c.rawMode && (ctxType == blockContextType || ctxType == flowContextType)
+}
+
+// isPlainTextIndicator shows if character has a special meaning inside of plain text.
+func (c *context) isPlainTextIndicator(r rune) bool {
+	switch r {
+	case yamlchar.MappingValueCharacter, yamlchar.CommentCharacter:
+		return true
+	default:
+		return c.currentType() == flowContextType && yamlchar.IsFlowIndicatorChar(r)
+	}
+}
+
 func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
+	if t.insidePlainText && !c.isPlainTextIndicator(r) {
+		return c.baseMatching(t, r)
+	}
 	tok := token.Token{Start: t.pos}
 	switch r {
 	case yamlchar.SequenceEntryCharacter:
@@ -251,6 +269,9 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 }
 
 func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
+	if t.insidePlainText && !c.isPlainTextIndicator(r) {
+		return c.baseMatching(t, r)
+	}
 	tok := token.Token{Start: t.pos}
 
 	switch r {
diff --git a/engines/yayamls/lexer/tokenizer.go b/engines/yayamls/lexer/tokenizer.go
index ec5c8b7..ef283d0 100644
--- a/engines/yayamls/lexer/tokenizer.go
+++ b/engines/yayamls/lexer/tokenizer.go
@@ -22,6 +22,9 @@ type Tokenizer struct {
 
 	preparedToken    token.Token
 	hasPreparedToken bool
+
+	// insidePlainText is true if the current line has a plain text right before current position.
+	insidePlainText bool
 }
 
 type tokenizerOpts struct {
@@ -98,6 +101,7 @@ func (t *Tokenizer) emitToken() token.Token {
 
 		specialTok, ok := t.ctx.matchSpecialToken(t, r)
 		if ok {
+			t.insidePlainText = t.insidePlainText && token.IsWhiteSpace(specialTok)
 			if tok.Type != token.UnknownType {
 				t.preparedToken = specialTok
 				t.hasPreparedToken = true
@@ -117,6 +121,7 @@ func (t *Tokenizer) emitToken() token.Token {
 		if tok.Type == token.UnknownType {
 			tok.Type = token.StringType
 			tok.Start = curPos
+			t.insidePlainText = t.insidePlainText || t.ctx.mayContainPlainText() && t.lookbehind(mayPrecedePlainText)
 			t.lookbehindTok = tok
 		}
 		originBuilder.WriteRune(r)
@@ -135,6 +140,15 @@ func (t *Tokenizer) lookahead(count int, predicate func([]rune) bool) bool {
 	return result
 }
 
+func mayPrecedePlainText(tok token.Token) bool {
+	switch tok.Type {
+	case token.AnchorType, token.AliasType, token.DirectiveType:
+		return false
+	default:
+		return true
+	}
+}
+
 func (t *Tokenizer) lookbehind(predicate func(token.Token) bool) bool {
 	return predicate(t.lookbehindTok)
 }
-- 
2.43.0


From 9b5a6e5482c227a82b3235907337c96d9d689f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:36 +0000
Subject: [PATCH 47/90] fix: keep the current element when buffer of
 checkpointing accessor is exhausted

---
 engines/yayamls/pkg/cpaccessor/accessor.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/engines/yayamls/pkg/cpaccessor/accessor.go b/engines/yayamls/pkg/cpaccessor/accessor.go
index e9fb6bd..e8c6be5 100644
--- a/engines/yayamls/pkg/cpaccessor/accessor.go
+++ b/engines/yayamls/pkg/cpaccessor/accessor.go
@@ -61,7 +61,9 @@ func (a *CheckpointingAccessor[T]) Next() T {
 		a.bufIndicator++
 		if a.bufIndicator == len(a.buf) {
 			if len(a.checkpointsStack) == 0 {
-				// there are no checkpoints - buffer elements will not be used anymore
+				// there are no checkpoints - buffer elements will not be used anymore,
+				// except the last one
+				a.saved = val
 				a.buf = a.buf[:0]
 			}
 			a.bufIndicator = withoutBuffer
@@ -88,6 +90,8 @@ func (a *CheckpointingAccessor[T]) Rollback() T {
 		return a.saved
 	default:
 		a.bufIndicator = a.checkpointsStack[stackLen-1]
+		// remove checkpoint
+		a.checkpointsStack = a.checkpointsStack[:stackLen-1]
 		var restoredVal T
 		if a.bufIndicator == withoutBuffer {
 			// using saved value before buffer start
@@ -104,13 +108,12 @@ func (a *CheckpointingAccessor[T]) Rollback() T {
 			if a.bufIndicator == len(a.buf) {
 				// checkpoint was at the last position in buffer - we are now ahead of it.
 				if len(a.checkpointsStack) == 0 {
+					a.saved = restoredVal
 					a.buf = a.buf[:0]
 				}
 				a.bufIndicator = withoutBuffer
 			}
 		}
-		// remove checkpoint
-		a.checkpointsStack = a.checkpointsStack[:stackLen-1]
 		return restoredVal
 	}
 }
-- 
2.43.0


From 4a35b328a02cdd23656ca93bf4a942d4a2ae6681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:55 +0000
Subject: [PATCH 48/90] fix: allow an empty sequence item at the very end of
 the source

---
 engines/yayamls/parser/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index 066878b..6d49a6a 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -324,7 +324,7 @@ func (p *parser) parseBlockSequenceEntry(ind *indentation) ast.Node {
 	}
 	p.next()
 	switch p.tok.Type {
-	case token.SpaceType, token.TabType, token.LineBreakType:
+	case token.SpaceType, token.TabType, token.LineBreakType, token.EOFType:
 		return p.parseBlockIndented(ind, blockInContext)
 	default:
 		return ast.NewInvalidNode()
-- 
2.43.0


From b652596cfe857284f859b2e26f4956cf600c0250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:25 +0000
Subject: [PATCH 49/90] fix: parse nested flow sequences without exponential
 backtracking

---
 engines/yayamls/parser/flow.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index f436102..80f104e 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -629,6 +629,14 @@ func (p *parser) parseFlowSequenceEntry(ind *indentation, ctx context) ast.Node
 	if p.hasErrors() {
 		return ast.NewInvalidNode()
 	}
+	p.setCheckpoint()
+	node := p.parseFlowNode(ind, ctx)
+	if ast.ValidNode(node) && !p.isFollowedByMappingValue() {
+		p.commit()
+		return node
+	}
+	p.rollback()
+
 	p.setCheckpoint()
 	entry := p.parseFlowPair(ind, ctx)
 	if ast.ValidNode(entry) {
@@ -639,6 +647,17 @@ func (p *parser) parseFlowSequenceEntry(ind *indentation, ctx context) ast.Node
 	return p.parseFlowNode(ind, ctx)
 }
 
+// isFollowedByMappingValue looks ahead for a mapping value indicator, meaning that
+// the node parsed just before is a key of a pair.
+func (p *parser) isFollowedByMappingValue() bool {
+	p.setCheckpoint()
+	defer p.rollback()
+	for token.IsWhiteSpace(p.tok) {
+		p.next()
+	}
+	return p.tok.Type == token.MappingValueType
+}
+
 // YAML specification: [150] ns-flow-pair
 func (p *parser) parseFlowPair(ind *indentation, ctx context) ast.Node {
 	if p.hasErrors() {
-- 
2.43.0


From 8588e9c520cb8f3bb68fa599dfebc7505a5c44a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:40 +0000
Subject: [PATCH 50/90] fix: read properties of the first key of a block
 mapping

---
 engines/yayamls/parser/block.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index 6d49a6a..401a3f3 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -58,19 +58,19 @@ func (p *parser) parseBlockCollection(ind *indentation, ctx context) ast.Node {
 	ind.value++
 	if ast.ValidNode(p.parseSeparate(ind, ctx)) {
 		properties = p.parseProperties(ind, ctx)
-		if !ast.ValidNode(properties) {
-			p.rollback()
-			properties = nil
-		} else {
-			p.commit()
-		}
-	} else {
-		p.rollback()
 	}
 	ind.value--
 
-	if !ast.ValidNode(p.parseComments()) {
-		return ast.NewInvalidNode()
+	// properties belong to the collection only if they are separated with a line break,
+	// otherwise they are properties of the first key
+	if ast.ValidNode(properties) && ast.ValidNode(p.parseComments()) {
+		p.commit()
+	} else {
+		p.rollback()
+		properties = nil
+		if !ast.ValidNode(p.parseComments()) {
+			return ast.NewInvalidNode()
+		}
 	}
 
 	p.setCheckpoint()
-- 
2.43.0


From e500943b55ec10fe76a8f54b36005fb7860f11a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:56 +0000
Subject: [PATCH 51/90] fix: do not resolve types of block scalars

---
 engines/yayamls/ast/node.go      | 2 ++
 engines/yayamls/decode/any.go    | 3 ++-
 engines/yayamls/encode/writer.go | 4 ++--
 engines/yayamls/parser/block.go  | 4 ++--
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/engines/yayamls/ast/node.go b/engines/yayamls/ast/node.go
index 02a6ffd..991c5e0 100644
--- a/engines/yayamls/ast/node.go
+++ b/engines/yayamls/ast/node.go
@@ -129,6 +129,8 @@ const (
 	SingleQuotingType
 	// DoubleQuotingType means that string is enclosed in double quotes
 	DoubleQuotingType
+	// BlockQuotingType means that string is a literal or folded block scalar
+	BlockQuotingType
 )
 
 // Node is a single element of YAML AST
diff --git a/engines/yayamls/decode/any.go b/engines/yayamls/decode/any.go
index 4ba5d2f..affbefb 100644
--- a/engines/yayamls/decode/any.go
+++ b/engines/yayamls/decode/any.go
@@ -189,7 +189,8 @@ func (a *anyBuilder) VisitContentNode(n *ast.ContentNode) {
 func (a *anyBuilder) extractAnyValueFromText(n *ast.TextNode) {
 	var err error
 	switch {
-	case n.QuotingType() == ast.SingleQuotingType, n.QuotingType() == ast.DoubleQuotingType:
+	case n.QuotingType() == ast.SingleQuotingType, n.QuotingType() == ast.DoubleQuotingType,
+		n.QuotingType() == ast.BlockQuotingType:
 		a.value = n.Text()
 	case schema.IsNull(n):
 		a.value = nil
diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 77cf202..8830845 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -199,9 +199,9 @@ func (w *ASTWriter) VisitTextNode(n *ast.TextNode) {
 		w.writeSingleQuotedText(txt)
 	case quotingType == ast.SingleQuotingType || quotingType == ast.DoubleQuotingType:
 		w.writeDoubleQuotedText(txt)
-	case canBePlain(txt):
+	case quotingType != ast.BlockQuotingType && canBePlain(txt):
 		w.buf.WriteString(txt)
-	case quotingType == ast.AbsentQuotingType && !w.writingKey && canBeLiteral(txt):
+	case quotingType != ast.UnknownQuotingType && !w.writingKey && canBeLiteral(txt):
 		w.writeMultilineLiteralText(txt)
 	default:
 		w.writeDoubleQuotedText(txt)
diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index 401a3f3..2e72eec 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -496,7 +496,7 @@ func (p *parser) parseFoldedContent(ind *indentation, chomping ast.ChompingType)
 	text := buf.String()
 	buf.Reset()
 	bufsPool.Put(buf)
-	return ast.NewTextNode(text)
+	return ast.NewTextNode(text, ast.WithQuotingType(ast.BlockQuotingType))
 }
 
 // YAML specification: [181] l-nb-diff-lines
@@ -790,7 +790,7 @@ func (p *parser) parseLiteralContent(ind *indentation, chomping ast.ChompingType
 	text := buf.String()
 	buf.Reset()
 	bufsPool.Put(buf)
-	return ast.NewTextNode(text)
+	return ast.NewTextNode(text, ast.WithQuotingType(ast.BlockQuotingType))
 }
 
 // YAML specification: [165] b-chomped-last
-- 
2.43.0


From e1b823b01620409615eaf59bdcd00229a9abce33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:58 +0000
Subject: [PATCH 52/90] fix: require content of block scalars to be indented

---
 engines/yayamls/parser/block.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index 2e72eec..2a23cd7 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -465,7 +465,7 @@ func (p *parser) parseFolded(ind *indentation) ast.Node {
 		ast.NewInvalidNode()
 	}
 	foldedInd := indentation{
-		value: ind.value,
+		value: ind.value + 1,
 		mode:  withLowerBoundIndentationMode,
 	}
 	if indVal := castedHeader.IndentationIndicator(); indVal != 0 {
@@ -744,7 +744,7 @@ func (p *parser) parseLiteral(ind *indentation) ast.Node {
 		return ast.NewInvalidNode()
 	}
 	literalInd := indentation{
-		value: ind.value,
+		value: ind.value + 1,
 		mode:  withLowerBoundIndentationMode,
 	}
 	if indVal := castedHeader.IndentationIndicator(); indVal != 0 {
-- 
2.43.0


From 68267ccde60bc271d41897bb9d76b2f751d284ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:16 +0000
Subject: [PATCH 53/90] fix: do not determine indentation of block scalars by
 empty lines

---
 engines/yayamls/parser/block.go   | 5 ++++-
 engines/yayamls/parser/indents.go | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index 2a23cd7..a58e54e 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -866,7 +866,10 @@ func (p *parser) parseStripEmpty(ind *indentation) ast.Node {
 	}
 	for {
 		p.setCheckpoint()
-		if !ast.ValidNode(p.parseIndentLessThanOrEqual(ind.value)) {
+		// without content the indentation is not determined
+		localInd := *ind
+		if (ind.mode != withLowerBoundIndentationMode || !ast.ValidNode(p.parseIndent(&localInd))) &&
+			!ast.ValidNode(p.parseIndentLessThanOrEqual(ind.value)) {
 			p.rollback()
 			break
 		}
diff --git a/engines/yayamls/parser/indents.go b/engines/yayamls/parser/indents.go
index 41265d4..59a66d6 100644
--- a/engines/yayamls/parser/indents.go
+++ b/engines/yayamls/parser/indents.go
@@ -131,7 +131,9 @@ func (p *parser) parseEmpty(ind *indentation, ctx context, buf *bytes.Buffer) as
 		return ast.NewInvalidNode()
 	}
 	p.setCheckpoint()
-	lp := p.parseLinePrefix(ind, ctx)
+	// an empty line does not determine the indentation
+	localInd := *ind
+	lp := p.parseLinePrefix(&localInd, ctx)
 	if !ast.ValidNode(lp) {
 		p.rollback()
 		lp = p.parseIndentLessThan(ind.value)
-- 
2.43.0


From 5fff00a7f864f7ad5b53b7d80b25b5830c344a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:03 +0000
Subject: [PATCH 54/90] fix: treat block scalars as strings in Any of goyaml
 engine

---
 engines/goyaml/decode/any.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/goyaml/decode/any.go b/engines/goyaml/decode/any.go
index db27f64..3cbedd7 100644
--- a/engines/goyaml/decode/any.go
+++ b/engines/goyaml/decode/any.go
@@ -179,7 +179,7 @@ func (a *anyBuilder) visitScalarNode(n *yaml.Node) {
 	} else {
 		var err error
 		switch {
-		case n.Style&(yaml.SingleQuotedStyle|yaml.DoubleQuotedStyle) != 0 || n.ShortTag() == "!!binary":
+		case n.Style&(yaml.SingleQuotedStyle|yaml.DoubleQuotedStyle|yaml.LiteralStyle|yaml.FoldedStyle) != 0 || n.ShortTag() == "!!binary":
 			a.value = schema.Text(n)
 		case schema.IsNull(n):
 			a.value = nil
-- 
2.43.0


From 94183c46cffbb76cfd637b54d6af7cc65db871d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:49 +0000
Subject: [PATCH 55/90] fix: recognize indicators right after value indicator
 inside of flow collections

---
 engines/yayamls/lexer/context.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 1072399..0648c39 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -355,9 +355,7 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 		tok.Origin = string([]rune{r})
 		return tok, true
 	case yamlchar.SingleQuoteCharacter:
-		if t.lookbehind(func(tok token.Token) bool {
-			return mayPrecedeWordInFlow(tok) || tok.Type == token.MappingValueType
-		}) {
+		if t.lookbehind(mayPrecedeWordInFlow) {
 			c.switchContext(singleQuoteContextType)
 			tok.End = t.pos
 			tok.Type = token.SingleQuoteType
@@ -365,9 +363,7 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.DoubleQuoteCharacter:
-		if t.lookbehind(func(tok token.Token) bool {
-			return mayPrecedeWordInFlow(tok) || tok.Type == token.MappingValueType
-		}) {
+		if t.lookbehind(mayPrecedeWordInFlow) {
 			c.switchContext(doubleQuoteContextType)
 			tok.End = t.pos
 			tok.Type = token.DoubleQuoteType
@@ -384,7 +380,7 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 }
 
 func mayPrecedeWordInFlow(tok token.Token) bool {
-	return token.MayPrecedeWord(tok) || token.IsOpeningFlowIndicator(tok)
+	return token.MayPrecedeWord(tok) || token.IsOpeningFlowIndicator(tok) || tok.Type == token.MappingValueType
 }
 
 func (c *context) commentMatching(t *Tokenizer, r rune) (token.Token, bool) {
-- 
2.43.0


From de85cf6220bab75c86d3933e4a701831675d6e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:05 +0000
Subject: [PATCH 56/90] fix: tokenize content of block scalars in raw mode from
 the start of every line

---
 engines/yayamls/parser/block.go   | 22 ++++++++++------------
 engines/yayamls/parser/indents.go | 20 ++++++++++++++++----
 engines/yayamls/parser/parser.go  |  3 +++
 3 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index a58e54e..80b30b8 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -465,8 +465,9 @@ func (p *parser) parseFolded(ind *indentation) ast.Node {
 		ast.NewInvalidNode()
 	}
 	foldedInd := indentation{
-		value: ind.value + 1,
-		mode:  withLowerBoundIndentationMode,
+		value:      ind.value + 1,
+		mode:       withLowerBoundIndentationMode,
+		rawContent: true,
 	}
 	if indVal := castedHeader.IndentationIndicator(); indVal != 0 {
 		foldedInd.value = ind.value + indVal
@@ -590,20 +591,18 @@ func (p *parser) parseSpacedText(ind *indentation, buf *bytes.Buffer) ast.Node {
 	if p.hasErrors() {
 		return ast.NewInvalidNode()
 	}
+	defer p.tokSrc.UnsetRawMode()
 	if !ast.ValidNode(p.parseIndent(ind)) {
 		return ast.NewInvalidNode()
 	}
 	if !token.IsWhiteSpace(p.tok) {
 		return ast.NewInvalidNode()
 	}
-	buf.WriteString(p.tok.Origin)
-	p.next()
 	p.tokSrc.SetRawMode()
 	for token.IsNonBreak(p.tok) {
 		buf.WriteString(p.tok.Origin)
 		p.next()
 	}
-	p.tokSrc.UnsetRawMode()
 	return ast.NewBasicNode(ast.TextType)
 }
 
@@ -657,20 +656,18 @@ func (p *parser) parseFoldedLines(ind *indentation, buf *bytes.Buffer) ast.Node
 
 // YAML specification: [175] s-nb-folded-text
 func (p *parser) parseFoldedText(ind *indentation, buf *bytes.Buffer) ast.Node {
+	defer p.tokSrc.UnsetRawMode()
 	if p.hasErrors() || !ast.ValidNode(p.parseIndent(ind)) {
 		return ast.NewInvalidNode()
 	}
 	if !token.IsNonBreak(p.tok) || token.IsWhiteSpace(p.tok) {
 		return ast.NewInvalidNode()
 	}
-	buf.WriteString(p.tok.Origin)
-	p.next()
 	p.tokSrc.SetRawMode()
 	for token.IsNonBreak(p.tok) {
 		buf.WriteString(p.tok.Origin)
 		p.next()
 	}
-	p.tokSrc.UnsetRawMode()
 	return ast.NewBasicNode(ast.TextType)
 }
 
@@ -744,8 +741,9 @@ func (p *parser) parseLiteral(ind *indentation) ast.Node {
 		return ast.NewInvalidNode()
 	}
 	literalInd := indentation{
-		value: ind.value + 1,
-		mode:  withLowerBoundIndentationMode,
+		value:      ind.value + 1,
+		mode:       withLowerBoundIndentationMode,
+		rawContent: true,
 	}
 	if indVal := castedHeader.IndentationIndicator(); indVal != 0 {
 		literalInd.value = ind.value + indVal
@@ -867,7 +865,7 @@ func (p *parser) parseStripEmpty(ind *indentation) ast.Node {
 	for {
 		p.setCheckpoint()
 		// without content the indentation is not determined
-		localInd := *ind
+		localInd := indentation{value: ind.value, mode: ind.mode}
 		if (ind.mode != withLowerBoundIndentationMode || !ast.ValidNode(p.parseIndent(&localInd))) &&
 			!ast.ValidNode(p.parseIndentLessThanOrEqual(ind.value)) {
 			p.rollback()
@@ -941,6 +939,7 @@ func (p *parser) parseLiteralText(ind *indentation, buf *bytes.Buffer) ast.Node
 		}
 		p.commit()
 	}
+	defer p.tokSrc.UnsetRawMode()
 	if !ast.ValidNode(p.parseIndent(ind)) {
 		return ast.NewInvalidNode()
 	}
@@ -952,6 +951,5 @@ func (p *parser) parseLiteralText(ind *indentation, buf *bytes.Buffer) ast.Node
 		buf.WriteString(p.tok.Origin)
 		p.next()
 	}
-	p.tokSrc.UnsetRawMode()
 	return ast.NewBasicNode(ast.TextType)
 }
diff --git a/engines/yayamls/parser/indents.go b/engines/yayamls/parser/indents.go
index 59a66d6..97d0dbf 100644
--- a/engines/yayamls/parser/indents.go
+++ b/engines/yayamls/parser/indents.go
@@ -50,9 +50,9 @@ func (p *parser) parseSeparateInLine() ast.Node {
 func (p *parser) parseIndent(ind *indentation) ast.Node {
 	switch ind.mode {
 	case strictEqualityIndentationMode:
-		return p.parseIndentWithStrictEquality(ind.value)
+		return p.parseIndentWithStrictEquality(ind.value, ind.rawContent)
 	case withLowerBoundIndentationMode:
-		node, ok := p.parseIndentWithLowerBound(ind.value).(*ast.IndentNode)
+		node, ok := p.parseIndentWithLowerBound(ind.value, ind.rawContent).(*ast.IndentNode)
 		if !ok || !ast.ValidNode(node) {
 			return ast.NewInvalidNode()
 		}
@@ -64,7 +64,7 @@ func (p *parser) parseIndent(ind *indentation) ast.Node {
 	}
 }
 
-func (p *parser) parseIndentWithStrictEquality(indentation int) ast.Node {
+func (p *parser) parseIndentWithStrictEquality(indentation int, rawContent bool) ast.Node {
 	if p.hasErrors() || indentation < 0 {
 		return ast.NewInvalidNode()
 	}
@@ -72,12 +72,15 @@ func (p *parser) parseIndentWithStrictEquality(indentation int) ast.Node {
 		if p.tok.Type != token.SpaceType {
 			return ast.NewInvalidNode()
 		}
+		if rawContent && i == 1 {
+			p.tokSrc.SetRawMode()
+		}
 		p.next()
 	}
 	return ast.NewIndentNode(indentation)
 }
 
-func (p *parser) parseIndentWithLowerBound(lowerBound int) ast.Node {
+func (p *parser) parseIndentWithLowerBound(lowerBound int, rawContent bool) ast.Node {
 	if p.hasErrors() {
 		return ast.NewInvalidNode()
 	}
@@ -86,10 +89,16 @@ func (p *parser) parseIndentWithLowerBound(lowerBound int) ast.Node {
 		if p.tok.Type != token.SpaceType {
 			return ast.NewInvalidNode()
 		}
+		if rawContent && indent == lowerBound-1 {
+			p.tokSrc.SetRawMode()
+		}
 		p.next()
 	}
 
 	for p.tok.Type == token.SpaceType {
+		if rawContent {
+			p.tokSrc.SetRawMode()
+		}
 		indent++
 		p.next()
 	}
@@ -134,6 +143,9 @@ func (p *parser) parseEmpty(ind *indentation, ctx context, buf *bytes.Buffer) as
 	// an empty line does not determine the indentation
 	localInd := *ind
 	lp := p.parseLinePrefix(&localInd, ctx)
+	if localInd.rawContent {
+		p.tokSrc.UnsetRawMode()
+	}
 	if !ast.ValidNode(lp) {
 		p.rollback()
 		lp = p.parseIndentLessThan(ind.value)
diff --git a/engines/yayamls/parser/parser.go b/engines/yayamls/parser/parser.go
index fd0570e..4558962 100644
--- a/engines/yayamls/parser/parser.go
+++ b/engines/yayamls/parser/parser.go
@@ -41,6 +41,9 @@ const (
 type indentation struct {
 	value int
 	mode  indentationMode
+	// rawContent means that text following the indentation has no indicators (content of block scalars),
+	// so it must be tokenized in raw mode.
+	rawContent bool
 }
 
 type parser struct {
-- 
2.43.0


From ef11a844294ef129e651837832a5b98933fcf2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:41 +0000
Subject: [PATCH 57/90] fix: fail fast on invalid entries of flow sequences

---
 engines/yayamls/parser/flow.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index 80f104e..f688b09 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -637,6 +637,11 @@ func (p *parser) parseFlowSequenceEntry(ind *indentation, ctx context) ast.Node
 	}
 	p.rollback()
 
+	if !ast.ValidNode(node) && p.tok.Type != token.MappingKeyType && p.tok.Type != token.MappingValueType {
+		// neither a node nor a key
+		return ast.NewInvalidNode()
+	}
+
 	p.setCheckpoint()
 	entry := p.parseFlowPair(ind, ctx)
 	if ast.ValidNode(entry) {
-- 
2.43.0


From 085856e9f0224dec3cce7b62c16dcf94954b389e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:49 +0000
Subject: [PATCH 58/90] fix: drop white space before folded line breaks of
 quoted scalars

---
 engines/yayamls/parser/flow.go | 44 ++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index f688b09..04905c2 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -186,11 +186,7 @@ func (p *parser) parseDoubleMultiLine(ind *indentation) ast.Node {
 		return ast.NewInvalidNode()
 	}
 	buf := bufsPool.Get().(*bytes.Buffer) // nolint: forcetypeassert
-	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.DoubleQuotedCharSetType)) ||
-		token.IsWhiteSpace(p.tok) {
-		p.writeQuotedText(buf, yamlchar.ConvertFromYAMLDoubleQuotedString)
-		p.next()
-	}
+	p.writeQuotedLine(buf, yamlchar.DoubleQuotedCharSetType, yamlchar.ConvertFromYAMLDoubleQuotedString)
 
 	savedLen := buf.Len()
 	p.setCheckpoint()
@@ -231,11 +227,7 @@ func (p *parser) parseDoubleNextLine(ind *indentation, buf *bytes.Buffer) ast.No
 	p.writeQuotedText(buf, yamlchar.ConvertFromYAMLDoubleQuotedString)
 	p.next()
 
-	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.DoubleQuotedCharSetType)) ||
-		token.IsWhiteSpace(p.tok) {
-		p.writeQuotedText(buf, yamlchar.ConvertFromYAMLDoubleQuotedString)
-		p.next()
-	}
+	p.writeQuotedLine(buf, yamlchar.DoubleQuotedCharSetType, yamlchar.ConvertFromYAMLDoubleQuotedString)
 
 	p.setCheckpoint()
 	savedLen = buf.Len()
@@ -361,11 +353,7 @@ func (p *parser) parseSingleMultiLine(ind *indentation) ast.Node {
 		return ast.NewInvalidNode()
 	}
 	buf := bufsPool.Get().(*bytes.Buffer) // nolint: forcetypeassert
-	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.SingleQuotedCharSetType)) ||
-		token.IsWhiteSpace(p.tok) {
-		p.writeQuotedText(buf, yamlchar.ConvertFromYAMLSingleQuotedString)
-		p.next()
-	}
+	p.writeQuotedLine(buf, yamlchar.SingleQuotedCharSetType, yamlchar.ConvertFromYAMLSingleQuotedString)
 
 	savedLen := buf.Len()
 	p.setCheckpoint()
@@ -404,11 +392,7 @@ func (p *parser) parseSingleNextLine(ind *indentation, buf *bytes.Buffer) ast.No
 	p.writeQuotedText(buf, yamlchar.ConvertFromYAMLSingleQuotedString)
 	p.next()
 
-	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.SingleQuotedCharSetType)) ||
-		token.IsWhiteSpace(p.tok) {
-		p.writeQuotedText(buf, yamlchar.ConvertFromYAMLSingleQuotedString)
-		p.next()
-	}
+	p.writeQuotedLine(buf, yamlchar.SingleQuotedCharSetType, yamlchar.ConvertFromYAMLSingleQuotedString)
 
 	p.setCheckpoint()
 	savedLen = buf.Len()
@@ -439,6 +423,26 @@ func (p *parser) writeQuotedText(buf *bytes.Buffer, unescape func(string) (strin
 	buf.WriteString(text)
 }
 
+// writeQuotedLine writes tokens of a single line of a multiline quoted scalar into buf.
+func (p *parser) writeQuotedLine(
+	buf *bytes.Buffer,
+	charSet yamlchar.CharSetType,
+	unescape func(string) (string, error),
+) {
+	contentLen := buf.Len()
+	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(charSet)) || token.IsWhiteSpace(p.tok) {
+		p.writeQuotedText(buf, unescape)
+		if p.tok.Type == token.StringType {
+			contentLen = buf.Len()
+		}
+		p.next()
+	}
+	if p.tok.Type == token.LineBreakType {
+		// white space before a folded line break is not a part of the content
+		buf.Truncate(contentLen)
+	}
+}
+
 // YAML specification: [140] c-flow-mapping
 func (p *parser) parseFlowMapping(ind *indentation, ctx context) ast.Node {
 	if p.hasErrors() || p.tok.Type != token.MappingStartType {
-- 
2.43.0


From e4730e153f3a0e8998ce8eec46898c2ca86d2385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:41 +0000
Subject: [PATCH 59/90] fix: support escaped line breaks after text in double
 quoted scalars

---
 engines/yayamls/lexer/context.go | 9 +++++++++
 engines/yayamls/parser/flow.go   | 1 +
 2 files changed, 10 insertions(+)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 0648c39..37f4b01 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -437,6 +437,15 @@ func (c *context) doubleQuoteMatching(t *Tokenizer, r rune) (token.Token, bool)
 	switch r {
 	case yamlchar.EscapeCharacter:
 		if !c.escaped {
+			if t.lookahead(1, func(runes []rune) bool {
+				return yamlchar.IsLineBreakChar(runes[0])
+			}) {
+				// escaped line break
+				tok.End = t.pos
+				tok.Type = token.StringType
+				tok.Origin = string([]rune{r})
+				return tok, true
+			}
 			escaped = true
 		}
 	case yamlchar.SpaceCharacter:
diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index 04905c2..ebc1949 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -289,6 +289,7 @@ func (p *parser) parseDoubleEscaped(ind *indentation, buf *bytes.Buffer) ast.Nod
 		savedLen := buf.Len()
 		if !ast.ValidNode(p.parseEmpty(ind, flowInContext, buf)) {
 			buf.Truncate(savedLen)
+			p.rollback()
 			break
 		}
 		p.commit()
-- 
2.43.0


From f2f4f1f6d2240ac3900fdf2e7ed08f125ae7c859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:03 +0000
Subject: [PATCH 60/90] fix: compare numbers of entries of collections in AST
 comparator

---
 engines/yayamls/ast/astcmp/comparator.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/engines/yayamls/ast/astcmp/comparator.go b/engines/yayamls/ast/astcmp/comparator.go
index 7496c50..8bf6863 100644
--- a/engines/yayamls/ast/astcmp/comparator.go
+++ b/engines/yayamls/ast/astcmp/comparator.go
@@ -62,6 +62,15 @@ func (c *Comparator) compareNodes(first, second ast.Node) bool {
 			return f.Text() == sf.Text()
 		}
 		return false
+	case *ast.StreamNode:
+		ss, ok := second.(*ast.StreamNode)
+		return ok && len(f.Documents()) == len(ss.Documents())
+	case *ast.SequenceNode:
+		ss, ok := second.(*ast.SequenceNode)
+		return ok && len(f.Entries()) == len(ss.Entries())
+	case *ast.MappingNode:
+		sm, ok := second.(*ast.MappingNode)
+		return ok && len(f.Entries()) == len(sm.Entries())
 	default:
 		return true
 	}
-- 
2.43.0


From 54fdf570e38b40ae4cf4a69dce119313a0059121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:28 +0000
Subject: [PATCH 61/90] fix: accept properties before JSON-like keys of flow
 mappings

---
 engines/yayamls/parser/flow.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index ebc1949..99c04df 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -821,7 +821,9 @@ func (p *parser) parseFlowMappingImplicitEntry(ind *indentation, ctx context) as
 		return ast.NewInvalidNode()
 	}
 	p.setCheckpoint()
-	entry := p.parseFlowMappingYAMLKeyEntry(ind, ctx)
+	// JSON-like keys are tried first because a YAML key may be just properties
+	// with empty content
+	entry := p.parseFlowMappingJSONKeyEntry(ind, ctx)
 	if ast.ValidNode(entry) {
 		p.commit()
 		return entry
@@ -829,7 +831,7 @@ func (p *parser) parseFlowMappingImplicitEntry(ind *indentation, ctx context) as
 	p.rollback()
 
 	p.setCheckpoint()
-	entry = p.parseFlowMappingJSONKeyEntry(ind, ctx)
+	entry = p.parseFlowMappingYAMLKeyEntry(ind, ctx)
 	if ast.ValidNode(entry) {
 		p.commit()
 		return entry
-- 
2.43.0


From 0eb2a5efceddbb150ea0ed3d152e5327648121f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:48 +0000
Subject: [PATCH 62/90] fix: normalize line breaks inside of scalars

---
 engines/yayamls/parser/block.go   | 8 ++++----
 engines/yayamls/parser/indents.go | 7 ++++++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index 80b30b8..6a4d934 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -513,7 +513,7 @@ func (p *parser) parseDiffLines(ind *indentation, buf *bytes.Buffer) ast.Node {
 			p.rollback()
 			break
 		}
-		buf.WriteString(p.tok.Origin)
+		buf.WriteString(normalizedLineBreak)
 		p.next()
 		if !ast.ValidNode(p.parseSameLines(ind, buf)) {
 			buf.Truncate(savedLen)
@@ -611,7 +611,7 @@ func (p *parser) parseSpacedLineBreak(ind *indentation, buf *bytes.Buffer) ast.N
 	if p.hasErrors() || p.tok.Type != token.LineBreakType {
 		return ast.NewInvalidNode()
 	}
-	buf.WriteString(p.tok.Origin)
+	buf.WriteString(normalizedLineBreak)
 
 	savedLen := buf.Len()
 
@@ -806,7 +806,7 @@ func (p *parser) parseChompedLast(chomping ast.ChompingType, buf *bytes.Buffer)
 	case ast.ClipChompingType, ast.KeepChompingType:
 		switch p.tok.Type {
 		case token.LineBreakType:
-			buf.WriteString(p.tok.Origin)
+			buf.WriteString(normalizedLineBreak)
 		case token.EOFType:
 		default:
 			return ast.NewInvalidNode()
@@ -917,7 +917,7 @@ func (p *parser) parseLiteralNext(ind *indentation, buf *bytes.Buffer) ast.Node
 		return ast.NewInvalidNode()
 	}
 	savedLen := buf.Len()
-	buf.WriteString(p.tok.Origin)
+	buf.WriteString(normalizedLineBreak)
 	p.next()
 	if !ast.ValidNode(p.parseLiteralText(ind, buf)) {
 		buf.Truncate(savedLen)
diff --git a/engines/yayamls/parser/indents.go b/engines/yayamls/parser/indents.go
index 97d0dbf..da43d4a 100644
--- a/engines/yayamls/parser/indents.go
+++ b/engines/yayamls/parser/indents.go
@@ -7,6 +7,11 @@ import (
 	"github.com/KSpaceer/yamly/engines/yayamls/token"
 )
 
+// normalizedLineBreak stands for every line break inside of scalar content
+//
+// YAML specification: [29] b-as-line-feed
+const normalizedLineBreak = "\n"
+
 // YAML specification: [80] s-separate
 func (p *parser) parseSeparate(ind *indentation, ctx context) ast.Node {
 	switch ctx {
@@ -158,7 +163,7 @@ func (p *parser) parseEmpty(ind *indentation, ctx context, buf *bytes.Buffer) as
 	if p.tok.Type != token.LineBreakType {
 		return ast.NewInvalidNode()
 	}
-	buf.WriteString(p.tok.Origin)
+	buf.WriteString(normalizedLineBreak)
 	p.next()
 	return ast.NewBasicNode(ast.IndentType)
 }
-- 
2.43.0


From dcbf198641faf057e799e6bfc73344e096f0119b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:52 +0000
Subject: [PATCH 63/90] fix: recognize indicators right after a byte order mark

---
 engines/yayamls/token/token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/yayamls/token/token.go b/engines/yayamls/token/token.go
index ba912fe..46bf2f1 100644
--- a/engines/yayamls/token/token.go
+++ b/engines/yayamls/token/token.go
@@ -156,7 +156,7 @@ func IsNonBreak(tok Token) bool {
 // MayPrecedeWord shows if given token may precede word (or string).
 func MayPrecedeWord(tok Token) bool {
 	switch tok.Type {
-	case SpaceType, TabType, LineBreakType, UnknownType:
+	case SpaceType, TabType, LineBreakType, BOMType, UnknownType:
 		return true
 	default:
 		return false
-- 
2.43.0


From fa46a240f3054c532f33b712770a6584354daa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:42 +0000
Subject: [PATCH 64/90] fix: reject plain scalars starting with an indicator

---
 engines/yayamls/parser/flow.go    | 15 +++++++++++++++
 engines/yayamls/yamlchar/chars.go | 31 +++++++++++++++++++++++++++++++
 2 files changed, 46 insertions(+)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index 99c04df..7144b39 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"bytes"
+	"unicode/utf8"
 
 	"github.com/KSpaceer/yamly/engines/yayamls/ast"
 	"github.com/KSpaceer/yamly/engines/yayamls/token"
@@ -1101,6 +1102,9 @@ func (p *parser) parsePlainFirst(ctx context, buf *bytes.Buffer) ast.Node {
 		return ast.NewInvalidNode()
 	}
 	if p.tok.Type == token.StringType && isPlainSafeToken(p.tok, ctx) {
+		if !mayStartPlain(p.tok.Origin) {
+			return ast.NewInvalidNode()
+		}
 		// will be parsed as part of "plain in line"
 		return ast.NewBasicNode(ast.TextType)
 	}
@@ -1124,6 +1128,17 @@ func (p *parser) parsePlainFirst(ctx context, buf *bytes.Buffer) ast.Node {
 	}
 }
 
+// mayStartPlain shows if a plain scalar may start with given text
+func mayStartPlain(text string) bool {
+	r, _ := utf8.DecodeRuneInString(text)
+	switch r {
+	case yamlchar.SequenceEntryCharacter, yamlchar.MappingKeyCharacter, yamlchar.MappingValueCharacter:
+		return true
+	default:
+		return !yamlchar.IsIndicatorChar(r)
+	}
+}
+
 func isPlainSafeToken(tok token.Token, ctx context) bool {
 	switch ctx {
 	case flowInContext, flowOutContext, blockKeyContext:
diff --git a/engines/yayamls/yamlchar/chars.go b/engines/yayamls/yamlchar/chars.go
index d6304f3..c933a5a 100644
--- a/engines/yayamls/yamlchar/chars.go
+++ b/engines/yayamls/yamlchar/chars.go
@@ -191,6 +191,37 @@ func IsFlowIndicatorChar(r rune) bool {
 	}
 }
 
+// IsIndicatorChar checks if given rune is an indicator, i.e. has a special meaning
+// at the start of a node.
+//
+// YAML specification: [22] c-indicator
+func IsIndicatorChar(r rune) bool {
+	switch r {
+	case SequenceEntryCharacter,
+		MappingKeyCharacter,
+		MappingValueCharacter,
+		CollectEntryCharacter,
+		SequenceStartCharacter,
+		SequenceEndCharacter,
+		MappingStartCharacter,
+		MappingEndCharacter,
+		CommentCharacter,
+		AnchorCharacter,
+		AliasCharacter,
+		TagCharacter,
+		LiteralCharacter,
+		FoldedCharacter,
+		SingleQuoteCharacter,
+		DoubleQuoteCharacter,
+		DirectiveCharacter,
+		ReservedAtCharacter,
+		ReservedBackquoteCharacter:
+		return true
+	default:
+		return false
+	}
+}
+
 // IsDigit checks if given rune is decimal digit
 func IsDigit(r rune) bool {
 	return r >= '0' && r <= '9'
-- 
2.43.0


From e3fa17ae60d66e518893d0652ee3fe89d23fd95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:13 +0000
Subject: [PATCH 65/90] fix: make Skip, Raw and Node at a mapping key position
 consume only the key

---
 engines/yayamls/decode/expected.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/decode/expected.go b/engines/yayamls/decode/expected.go
index 1061fb5..223ca3e 100644
--- a/engines/yayamls/decode/expected.go
+++ b/engines/yayamls/decode/expected.go
@@ -264,7 +264,7 @@ func (expectRaw) name() string {
 
 func (expectRaw) process(n ast.Node, prev visitingResult) visitingResult {
 	switch n.Type() {
-	case ast.ContentType, ast.PropertiesType, ast.TagType, ast.AnchorType:
+	case ast.ContentType, ast.PropertiesType, ast.TagType, ast.AnchorType, ast.MappingEntryType:
 		return visitingResult{
 			conclusion: visitingConclusionContinue,
 		}
@@ -292,7 +292,7 @@ func (expectSkip) name() string {
 
 func (expectSkip) process(n ast.Node, prev visitingResult) visitingResult {
 	switch n.Type() {
-	case ast.ContentType, ast.PropertiesType, ast.TagType, ast.AnchorType:
+	case ast.ContentType, ast.PropertiesType, ast.TagType, ast.AnchorType, ast.MappingEntryType:
 		return visitingResult{
 			conclusion: visitingConclusionContinue,
 		}
-- 
2.43.0


From 4132ebdfedc41e0b8e5d0bdd6a1fe046ff9a7690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:49 +0000
Subject: [PATCH 66/90] fix: keep omitted nulls and block texts in raw YAML of
 goyaml reader, do not modify the tree

---
 engines/goyaml/decode/raw.go    | 57 +++++++++++++--------------------
 engines/goyaml/decode/reader.go |  6 ++--
 engines/goyaml/schema/schema.go | 21 ++++++++++++
 3 files changed, 46 insertions(+), 38 deletions(-)

diff --git a/engines/goyaml/decode/raw.go b/engines/goyaml/decode/raw.go
index a5e9933..92d1562 100644
--- a/engines/goyaml/decode/raw.go
+++ b/engines/goyaml/decode/raw.go
@@ -3,6 +3,7 @@ package decode
 import (
 	"fmt"
 
+	"github.com/KSpaceer/yamly/engines/goyaml/schema"
 	"gopkg.in/yaml.v3"
 )
 
@@ -21,12 +22,11 @@ import (
 // transformer is used on "inner" element
 // transformer will replace *anchor with value, because there is no anchor "&anchor"
 // in "inner" element.
+//
+// The given tree is left as is, the transformed one is its copy.
 type rawTransformer struct {
-	topLevelAnchor string
-	metAnchors     map[string]*yaml.Node
-	visitedNodes   map[*yaml.Node]struct{}
-
-	dereferencedAliases []dereferencedAliasInfo
+	metAnchors   map[string]*yaml.Node
+	visitedNodes map[*yaml.Node]struct{}
 }
 
 func newRawTransformer() rawTransformer {
@@ -36,53 +36,42 @@ func newRawTransformer() rawTransformer {
 	}
 }
 
-type dereferencedAliasInfo struct {
-	parent *yaml.Node
-	alias  *yaml.Node
-	idx    int
-}
-
-func (rt *rawTransformer) transform(n *yaml.Node) error {
-	rt.topLevelAnchor = n.Anchor
-	n.Anchor = ""
-	return rt.visitNode(n)
+func (rt *rawTransformer) transform(n *yaml.Node) (*yaml.Node, error) {
+	topLevel := *n
+	topLevel.Anchor = ""
+	rt.visitedNodes[n] = struct{}{}
+	return rt.visitNode(&topLevel)
 }
 
-func (rt *rawTransformer) visitNode(n *yaml.Node) error {
+func (rt *rawTransformer) visitNode(n *yaml.Node) (*yaml.Node, error) {
 	rt.visitedNodes[n] = struct{}{}
 	defer delete(rt.visitedNodes, n)
 	if n.Anchor != "" {
 		rt.metAnchors[n.Anchor] = n
 	}
+	transformed := *n
 	switch n.Kind {
+	case yaml.ScalarNode:
+		schema.MakeSerializable(&transformed)
 	case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode:
-		for i, child := range n.Content {
+		transformed.Content = make([]*yaml.Node, 0, len(n.Content))
+		for _, child := range n.Content {
 			if child.Kind == yaml.AliasNode {
 				if rt.metAnchors[child.Value] == child.Alias {
+					transformed.Content = append(transformed.Content, child)
 					continue
 				}
 				if _, visited := rt.visitedNodes[child.Alias]; visited {
-					return fmt.Errorf("value of anchor %q contains itself", child.Value)
+					return nil, fmt.Errorf("value of anchor %q contains itself", child.Value)
 				}
-				n.Content[i] = child.Alias
-				rt.dereferencedAliases = append(rt.dereferencedAliases, dereferencedAliasInfo{
-					parent: n,
-					alias:  child,
-					idx:    i,
-				})
 				child = child.Alias
 			}
-			if err := rt.visitNode(child); err != nil {
-				return err
+			transformedChild, err := rt.visitNode(child)
+			if err != nil {
+				return nil, err
 			}
+			transformed.Content = append(transformed.Content, transformedChild)
 		}
 	}
-	return nil
-}
-
-func (rt *rawTransformer) restore(n *yaml.Node) {
-	n.Anchor = rt.topLevelAnchor
-	for _, deref := range rt.dereferencedAliases {
-		deref.parent.Content[deref.idx] = deref.alias
-	}
+	return &transformed, nil
 }
diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index f4ff718..1f0567b 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -320,14 +320,12 @@ func (r *ASTReader) Raw() []byte {
 		r.latestDenyError = nil
 		return nil
 	}
-	curNode := r.currentNode()
 	transformer := newRawTransformer()
-	err := transformer.transform(curNode)
+	transformed, err := transformer.transform(r.currentNode())
 	var v []byte
 	if err == nil {
-		v, err = yaml.Marshal(curNode)
+		v, err = yaml.Marshal(transformed)
 	}
-	transformer.restore(curNode)
 	if err != nil {
 		r.appendError(err)
 		return nil
diff --git a/engines/goyaml/schema/schema.go b/engines/goyaml/schema/schema.go
index a2facc3..febb5d1 100644
--- a/engines/goyaml/schema/schema.go
+++ b/engines/goyaml/schema/schema.go
@@ -2,6 +2,7 @@ package schema
 
 import (
 	"encoding/base64"
+	"strings"
 	"time"
 
 	"github.com/KSpaceer/yamly/engines/pkg/schema"
@@ -118,3 +119,23 @@ func FromTimestamp(val time.Time) string {
 func ToTimestamp(src string) (t time.Time, err error) {
 	return schema.ToTimestamp(src)
 }
+
+// MakeSerializable adjusts representation of a scalar node, the meaning of which would be altered
+// by serializing: yaml.v3 writes omitted nulls in flow collections as empty strings and does not
+// reproduce folded texts and texts starting with white space in block scalars.
+func MakeSerializable(n *yaml.Node) {
+	if n.Kind != yaml.ScalarNode {
+		return
+	}
+	if n.Value == "" && IsNull(n) {
+		n.Value = "null"
+		return
+	}
+	if n.Style&yaml.FoldedStyle != 0 {
+		n.Style = n.Style&^yaml.FoldedStyle | yaml.LiteralStyle
+	}
+	isBlock := n.Style&yaml.LiteralStyle != 0 || n.Style&^yaml.TaggedStyle == 0 && strings.Contains(n.Value, "\n")
+	if isBlock && strings.TrimLeft(n.Value, " \t\n") != n.Value {
+		n.Style = n.Style&^yaml.LiteralStyle | yaml.DoubleQuotedStyle
+	}
+}
-- 
2.43.0


From e18fb6fbbcc45e9bf1021fffa27f69ddfd98f8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:57 +0000
Subject: [PATCH 67/90] fix: keep omitted nulls and block texts of raw YAML
 inserted with goyaml builder

---
 engines/goyaml/encode/builder.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/engines/goyaml/encode/builder.go b/engines/goyaml/encode/builder.go
index abe47dd..0120b03 100644
--- a/engines/goyaml/encode/builder.go
+++ b/engines/goyaml/encode/builder.go
@@ -6,6 +6,7 @@ import (
 	"time"
 
 	"github.com/KSpaceer/yamly"
+	goyamlschema "github.com/KSpaceer/yamly/engines/goyaml/schema"
 	"github.com/KSpaceer/yamly/engines/pkg/schema"
 	"gopkg.in/yaml.v3"
 )
@@ -157,9 +158,17 @@ func (b *ASTBuilder) InsertRaw(data []byte, err error) {
 	} else {
 		result = &n
 	}
+	makeSerializable(result)
 	b.insertNode(result, false)
 }
 
+func makeSerializable(n *yaml.Node) {
+	goyamlschema.MakeSerializable(n)
+	for _, child := range n.Content {
+		makeSerializable(child)
+	}
+}
+
 func (b *ASTBuilder) InsertRawText(data []byte, err error) {
 	if b.fatalError != nil {
 		return
-- 
2.43.0


From bb2d05d97366a3ac004a55a136f625e2e6cd0445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:12 +0000
Subject: [PATCH 68/90] fix: do not let comments break raw YAML of goyaml
 engine

---
 engines/goyaml/decode/raw.go    | 7 ++++---
 engines/goyaml/schema/schema.go | 6 ++++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/engines/goyaml/decode/raw.go b/engines/goyaml/decode/raw.go
index 92d1562..78845c6 100644
--- a/engines/goyaml/decode/raw.go
+++ b/engines/goyaml/decode/raw.go
@@ -50,15 +50,16 @@ func (rt *rawTransformer) visitNode(n *yaml.Node) (*yaml.Node, error) {
 		rt.metAnchors[n.Anchor] = n
 	}
 	transformed := *n
+	schema.MakeSerializable(&transformed)
 	switch n.Kind {
-	case yaml.ScalarNode:
-		schema.MakeSerializable(&transformed)
 	case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode:
 		transformed.Content = make([]*yaml.Node, 0, len(n.Content))
 		for _, child := range n.Content {
 			if child.Kind == yaml.AliasNode {
 				if rt.metAnchors[child.Value] == child.Alias {
-					transformed.Content = append(transformed.Content, child)
+					alias := *child
+					schema.MakeSerializable(&alias)
+					transformed.Content = append(transformed.Content, &alias)
 					continue
 				}
 				if _, visited := rt.visitedNodes[child.Alias]; visited {
diff --git a/engines/goyaml/schema/schema.go b/engines/goyaml/schema/schema.go
index febb5d1..fa295aa 100644
--- a/engines/goyaml/schema/schema.go
+++ b/engines/goyaml/schema/schema.go
@@ -120,10 +120,12 @@ func ToTimestamp(src string) (t time.Time, err error) {
 	return schema.ToTimestamp(src)
 }
 
-// MakeSerializable adjusts representation of a scalar node, the meaning of which would be altered
-// by serializing: yaml.v3 writes omitted nulls in flow collections as empty strings and does not
+// MakeSerializable adjusts representation of a node, the meaning of which would be altered
+// by serializing: yaml.v3 places comments so that they break anchored nodes, flow collections and
+// block scalars, writes omitted nulls in flow collections as empty strings and does not
 // reproduce folded texts and texts starting with white space in block scalars.
 func MakeSerializable(n *yaml.Node) {
+	n.HeadComment, n.LineComment, n.FootComment = "", "", ""
 	if n.Kind != yaml.ScalarNode {
 		return
 	}
-- 
2.43.0


From d2dc49c9230fb380932dd06b1df7d30914cdce7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:51 +0000
Subject: [PATCH 69/90] fix: tell absent keys, values and contents apart in AST
 comparator

---
 engines/yayamls/ast/astcmp/comparator.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/engines/yayamls/ast/astcmp/comparator.go b/engines/yayamls/ast/astcmp/comparator.go
index 8bf6863..c238b87 100644
--- a/engines/yayamls/ast/astcmp/comparator.go
+++ b/engines/yayamls/ast/astcmp/comparator.go
@@ -71,11 +71,22 @@ func (c *Comparator) compareNodes(first, second ast.Node) bool {
 	case *ast.MappingNode:
 		sm, ok := second.(*ast.MappingNode)
 		return ok && len(f.Entries()) == len(sm.Entries())
+	case *ast.MappingEntryNode:
+		se, ok := second.(*ast.MappingEntryNode)
+		return ok && sameAbsence(f.Key(), se.Key()) && sameAbsence(f.Value(), se.Value())
+	case *ast.ContentNode:
+		sc, ok := second.(*ast.ContentNode)
+		return ok && sameAbsence(f.Properties(), sc.Properties()) && sameAbsence(f.Content(), sc.Content())
 	default:
 		return true
 	}
 }
 
+// sameAbsence shows if both children of compared nodes are present or both are absent.
+func sameAbsence(first, second ast.Node) bool {
+	return (first == nil) == (second == nil)
+}
+
 type comparingVisitor struct {
 	cmpChan chan<- ast.Node
 }
-- 
2.43.0


From a51e33b9f7d5f1b93226a007a991bc87736ee603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:16 +0000
Subject: [PATCH 70/90] fix: call MarshalYAML with pointer receiver in code of
 goyaml engine

---
 engines/goyaml/engine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engines/goyaml/engine.go b/engines/goyaml/engine.go
index d636bec..3377a91 100644
--- a/engines/goyaml/engine.go
+++ b/engines/goyaml/engine.go
@@ -79,6 +79,10 @@ func (engineGenerator) MarshalersImplementationCheck(
 ) (generator.ImplementationResult, error) {
 	marshalIface := reflect.TypeOf((*yaml.Marshaler)(nil)).Elem()
 	if reflect.PtrTo(t).Implements(marshalIface) {
+		if !t.Implements(marshalIface) {
+			// yaml.Marshal does not call methods with pointer receiver on a value
+			inArg = "&(" + inArg + ")"
+		}
 		fmt.Fprintln(dst, strings.Repeat(" ", indent)+"out.InsertRaw(yaml.Marshal("+inArg+"))")
 		return generator.ImplementationResultTrue, nil
 	}
-- 
2.43.0


From 4c6b043c68f1625af08d97d0aa957d79b664aa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:46 +0000
Subject: [PATCH 71/90] fix: generate functions for types containing themselves
 instead of recursing endlessly

---
 generator/decoder.go   | 26 ++++++++++++++++++--------
 generator/encoder.go   | 33 ++++++++++++++++++++++-----------
 generator/generator.go | 30 ++++++++++++++++++++++++++++++
 3 files changed, 70 insertions(+), 19 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index abd8fd2..ce5549c 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -58,6 +58,7 @@ func (g *Generator) generateDecoder(t reflect.Type) error {
 	tname := g.extractTypeName(t)
 
 	fmt.Fprintln(g.out, "func "+fname+"(in yamly.Decoder, out *"+tname+") {")
+	g.bodyType = t
 	if err := g.generateDecoderBodyWithoutCheck(reflect.PtrTo(t), "out", fieldTags{}, indentDelta, false); err != nil {
 		return err
 	}
@@ -173,6 +174,10 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 	complexTypeElem bool,
 ) error {
 	whitespace := strings.Repeat(" ", indent)
+	if g.needsFunctionCall(t) {
+		g.generateDecoderCall(t, outArg, whitespace)
+		return nil
+	}
 	if dec := customDecoders[t.String()]; dec != "" {
 		fmt.Fprintln(g.out, whitespace+outArg+" = "+dec)
 		return nil
@@ -236,14 +241,7 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 			fmt.Fprintln(g.out, whitespace+"}")
 		}
 	case reflect.Struct:
-		dec := g.decoderFunctionName(t)
-		g.addType(t)
-
-		if len(outArg) > 0 && outArg[0] == '*' {
-			fmt.Fprintln(g.out, whitespace+dec+"(in, "+outArg[1:]+")")
-		} else {
-			fmt.Fprintln(g.out, whitespace+dec+"(in, &"+outArg+")")
-		}
+		g.generateDecoderCall(t, outArg, whitespace)
 	case reflect.Pointer:
 		fmt.Fprintln(g.out, whitespace+"if in.TryNull() {")
 		fmt.Fprintln(g.out, whitespace+"  "+outArg+" = nil")
@@ -327,6 +325,18 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 	return nil
 }
 
+// generateDecoderCall generates a call of decoding function for type t.
+func (g *Generator) generateDecoderCall(t reflect.Type, outArg string, whitespace string) {
+	dec := g.decoderFunctionName(t)
+	g.addType(t)
+
+	if len(outArg) > 0 && outArg[0] == '*' {
+		fmt.Fprintln(g.out, whitespace+dec+"(in, "+outArg[1:]+")")
+	} else {
+		fmt.Fprintln(g.out, whitespace+dec+"(in, &"+outArg+")")
+	}
+}
+
 func implementsUnmarshalerYamly(t reflect.Type) bool {
 	return t.Implements(reflect.TypeOf((*yamly.UnmarshalerYamly)(nil)).Elem())
 }
diff --git a/generator/encoder.go b/generator/encoder.go
index 729ab77..b23cdec 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -60,6 +60,7 @@ func (g *Generator) generateEncoder(t reflect.Type) error {
 	fname := g.encoderFunctionName(t)
 	tname := g.extractTypeName(t)
 
+	g.bodyType = t
 	if g.encodePointerReceiver {
 		tname = "*" + tname
 		t = reflect.PtrTo(t)
@@ -206,6 +207,11 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 ) error {
 	whitespace := strings.Repeat(" ", indent)
 
+	if g.needsFunctionCall(t) {
+		g.generateEncoderCall(t, inArg, whitespace)
+		return nil
+	}
+
 	if enc := basicEncoderFormatStrings[t.Kind()]; enc != "" {
 		fmt.Fprintf(g.out, whitespace+enc+"\n", inArg)
 		return nil
@@ -259,17 +265,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 			fmt.Fprintln(g.out, whitespace+"out.EndSequence()")
 		}
 	case reflect.Struct:
-		enc := g.encoderFunctionName(t)
-		g.addType(t)
-		if g.encodePointerReceiver {
-			if len(inArg) > 0 && inArg[0] == '*' {
-				fmt.Fprintln(g.out, whitespace+enc+"(out, "+inArg[1:]+")")
-			} else {
-				fmt.Fprintln(g.out, whitespace+enc+"(out, &"+inArg+")")
-			}
-		} else {
-			fmt.Fprintln(g.out, whitespace+enc+"(out, "+inArg+")")
-		}
+		g.generateEncoderCall(t, inArg, whitespace)
 	case reflect.Pointer:
 		extraIndent := 2
 		if canBeNull {
@@ -343,6 +339,21 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 	return nil
 }
 
+// generateEncoderCall generates a call of encoding function for type t.
+func (g *Generator) generateEncoderCall(t reflect.Type, inArg string, whitespace string) {
+	enc := g.encoderFunctionName(t)
+	g.addType(t)
+
+	switch {
+	case !g.encodePointerReceiver:
+		fmt.Fprintln(g.out, whitespace+enc+"(out, "+inArg+")")
+	case len(inArg) > 0 && inArg[0] == '*':
+		fmt.Fprintln(g.out, whitespace+enc+"(out, "+inArg[1:]+")")
+	default:
+		fmt.Fprintln(g.out, whitespace+enc+"(out, &"+inArg+")")
+	}
+}
+
 func implementMarshalerYamly(t reflect.Type) bool {
 	return t.Implements(reflect.TypeOf((*yamly.MarshalerYamly)(nil)).Elem())
 }
diff --git a/generator/generator.go b/generator/generator.go
index c9528fd..f7a76f1 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -39,6 +39,8 @@ type Generator struct {
 
 	targetType  reflect.Type
 	currentType reflect.Type
+	// bodyType is a type whose function body is about to be generated
+	bodyType reflect.Type
 
 	pendingTypes   []reflect.Type
 	generatedTypes map[reflect.Type]bool
@@ -391,6 +393,34 @@ func joinFunctionNameParts(keepFirst bool, parts ...string) string {
 	return buf.String()
 }
 
+// needsFunctionCall shows if the code for type t must be placed into separate function
+// because t contains itself. The body of that function is an exception.
+func (g *Generator) needsFunctionCall(t reflect.Type) bool {
+	if t == g.bodyType {
+		g.bodyType = nil
+		return false
+	}
+	return t.Name() != "" && t.Kind() != reflect.Struct && containsType(t, t, make(map[reflect.Type]bool))
+}
+
+// containsType shows if type t is used in elements of container without passing through structs.
+func containsType(container, t reflect.Type, visited map[reflect.Type]bool) bool {
+	if visited[container] {
+		return false
+	}
+	visited[container] = true
+
+	switch container.Kind() {
+	case reflect.Slice, reflect.Array, reflect.Pointer:
+		return container.Elem() == t || containsType(container.Elem(), t, visited)
+	case reflect.Map:
+		return container.Elem() == t || containsType(container.Elem(), t, visited) ||
+			container.Key() == t || containsType(container.Key(), t, visited)
+	default:
+		return false
+	}
+}
+
 // structField describes a field of struct or one of its inlined structs.
 type structField struct {
 	// key is a YAML mapping key of the field
-- 
2.43.0


From 6912e57c5fe4ebedbc90e94cdd1de3508e96764d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:19 +0000
Subject: [PATCH 72/90] fix: dereference pointers to empty interface correctly
 in generated code

---
 engines/goyaml/engine.go  | 2 +-
 engines/yayamls/engine.go | 4 ++--
 generator/decoder.go      | 2 +-
 generator/encoder.go      | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/engines/goyaml/engine.go b/engines/goyaml/engine.go
index 3377a91..3785790 100644
--- a/engines/goyaml/engine.go
+++ b/engines/goyaml/engine.go
@@ -91,7 +91,7 @@ func (engineGenerator) MarshalersImplementationCheck(
 
 func (engineGenerator) GenerateUnmarshalEmptyInterfaceAssertions(dst io.Writer, outArg string, indent int) error {
 	whitespace := strings.Repeat(" ", indent)
-	fmt.Fprintln(dst, whitespace+"if m, ok := "+outArg+".(yaml.Unmarshaler); ok {")
+	fmt.Fprintln(dst, whitespace+"if m, ok := ("+outArg+").(yaml.Unmarshaler); ok {")
 	fmt.Fprintln(dst, whitespace+"  if extIn, ok := in.(yamly.ExtendedDecoder[*yaml.Node]); ok {")
 	fmt.Fprintln(dst, whitespace+"    in.AddError(m.UnmarshalYAML(extIn.Node()))")
 	fmt.Fprintln(dst, whitespace+"  } else {")
diff --git a/engines/yayamls/engine.go b/engines/yayamls/engine.go
index 47aaa05..0f15496 100644
--- a/engines/yayamls/engine.go
+++ b/engines/yayamls/engine.go
@@ -87,7 +87,7 @@ func (engineGenerator) MarshalersImplementationCheck(
 
 func (engineGenerator) GenerateUnmarshalEmptyInterfaceAssertions(dst io.Writer, outArg string, indent int) error {
 	whitespace := strings.Repeat(" ", indent)
-	fmt.Fprintln(dst, whitespace+"if m, ok := "+outArg+".(yayamls.Unmarshaler); ok {")
+	fmt.Fprintln(dst, whitespace+"if m, ok := ("+outArg+").(yayamls.Unmarshaler); ok {")
 	fmt.Fprintln(dst, whitespace+"  in.AddError(m.UnmarshalYAML(in.Raw()))")
 	fmt.Fprintln(dst, whitespace+"} else {")
 	fmt.Fprintln(dst, whitespace+"  "+outArg+" = in.Any()")
@@ -97,7 +97,7 @@ func (engineGenerator) GenerateUnmarshalEmptyInterfaceAssertions(dst io.Writer,
 
 func (engineGenerator) GenerateMarshalEmptyInterfaceAssertions(dst io.Writer, inArg string, indent int) error {
 	whitespace := strings.Repeat(" ", indent)
-	fmt.Fprintln(dst, whitespace+"if m, ok := "+inArg+".(yayamls.Marshaler); ok {")
+	fmt.Fprintln(dst, whitespace+"if m, ok := ("+inArg+").(yayamls.Marshaler); ok {")
 	fmt.Fprintln(dst, whitespace+"  out.InsertRaw(m.MarshalYAML())")
 	fmt.Fprintln(dst, whitespace+"} else {")
 	// TODO: add reflect-based marshaler for yayamls
diff --git a/generator/decoder.go b/generator/decoder.go
index ce5549c..5ac6170 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -311,7 +311,7 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 				}
 			}
 		} else {
-			fmt.Fprintln(g.out, whitespace+"if m, ok := "+outArg+".(yamly.UnmarshalerYamly); ok {")
+			fmt.Fprintln(g.out, whitespace+"if m, ok := ("+outArg+").(yamly.UnmarshalerYamly); ok {")
 			fmt.Fprintln(g.out, whitespace+"  m.UnmarshalYamly(in)")
 			fmt.Fprintln(g.out, whitespace+"} else {")
 			if err := g.engineGen.GenerateUnmarshalEmptyInterfaceAssertions(g.out, outArg, indent+indentDelta); err != nil {
diff --git a/generator/encoder.go b/generator/encoder.go
index b23cdec..eefdcca 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -325,7 +325,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 				}
 			}
 		} else {
-			fmt.Fprintln(g.out, whitespace+"if m, ok := "+inArg+".(yamly.MarshalerYamly); ok {")
+			fmt.Fprintln(g.out, whitespace+"if m, ok := ("+inArg+").(yamly.MarshalerYamly); ok {")
 			fmt.Fprintln(g.out, whitespace+"  m.MarshalYamly(out)")
 			fmt.Fprintln(g.out, whitespace+"} else {")
 			if err := g.engineGen.GenerateMarshalEmptyInterfaceAssertions(g.out, inArg, indent+2); err != nil {
-- 
2.43.0


From 6aca91d0137602ba8f24d18126af15ab7a2e3af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:35 +0000
Subject: [PATCH 73/90] fix: use package aliases for type arguments of generic
 types in generated code

---
 generator/generator.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index f7a76f1..3f473f6 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -5,8 +5,10 @@ import (
 	"fmt"
 	"hash/fnv"
 	"io"
+	"net/url"
 	"path/filepath"
 	"reflect"
+	"regexp"
 	"slices"
 	"strconv"
 	"strings"
@@ -235,12 +237,33 @@ func (g *Generator) extractTypeName(t reflect.Type) string {
 		}
 		return t.String()
 	case g.pkgPath:
-		return t.Name()
+		return g.fixTypeArguments(t.Name())
 	default:
-		return g.pkgAlias(t.PkgPath()) + "." + t.Name()
+		return g.pkgAlias(t.PkgPath()) + "." + g.fixTypeArguments(t.Name())
 	}
 }
 
+var typeArgumentRegexp = regexp.MustCompile(`([^\s\[\](){}*,;<>"]+)\.([\pL_][\pL\pN_]*)`)
+
+// fixTypeArguments replaces full package paths of type arguments
+// in the name of instantiated generic type with package aliases.
+func (g *Generator) fixTypeArguments(name string) string {
+	if !strings.ContainsRune(name, '[') {
+		return name
+	}
+	return typeArgumentRegexp.ReplaceAllStringFunc(name, func(arg string) string {
+		parts := typeArgumentRegexp.FindStringSubmatch(arg)
+		pkgPath, typeName := parts[1], parts[2]
+		if unescaped, err := url.PathUnescape(pkgPath); err == nil {
+			pkgPath = unescaped
+		}
+		if pkgPath == g.pkgPath {
+			return typeName
+		}
+		return g.pkgAlias(pkgPath) + "." + typeName
+	})
+}
+
 func (g *Generator) pkgAlias(pkgPath string) string {
 	pkgPath = processVendoring(pkgPath)
 	if alias := g.imports[pkgPath]; alias != "" {
-- 
2.43.0


From c42af9b6397d083faef442a8afbb6f281f761185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:30 +0000
Subject: [PATCH 74/90] fix: ignore files excluded by build constraints when
 detecting package name

---
 generator/parser/parser.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/generator/parser/parser.go b/generator/parser/parser.go
index 3901b7a..b009a42 100644
--- a/generator/parser/parser.go
+++ b/generator/parser/parser.go
@@ -3,6 +3,7 @@ package parser
 
 import (
 	"go/ast"
+	"go/build"
 	"go/parser"
 	"go/token"
 	"io/fs"
@@ -21,11 +22,24 @@ func (p *Parser) Parse(dirPath string) error {
 	if p.PkgPath, err = findPkgPath(dirPath); err != nil {
 		return err
 	}
+	// files excluded by build constraints (e.g. "go:build ignore")
+	// can have another package name
+	err = p.parsePkgName(dirPath, func(info fs.FileInfo) bool {
+		match, err := build.Default.MatchFile(dirPath, info.Name())
+		return match || err != nil
+	})
+	if err != nil || p.PkgName != "" {
+		return err
+	}
+	return p.parsePkgName(dirPath, func(fs.FileInfo) bool { return true })
+}
+
+func (p *Parser) parsePkgName(dirPath string, filter func(fs.FileInfo) bool) error {
 	packages, err := parser.ParseDir(
 		token.NewFileSet(),
 		dirPath,
 		func(info fs.FileInfo) bool {
-			return !strings.HasSuffix(info.Name(), "_test.go")
+			return !strings.HasSuffix(info.Name(), "_test.go") && filter(info)
 		},
 		parser.PackageClauseOnly,
 	)
-- 
2.43.0


From 4b95230f26998586a748c4bf66a2537fab528f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:33 +0000
Subject: [PATCH 75/90] fix: do not use temporary file which can belong to user
 in generator command

---
 generator/bootstrap/generator.go | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/generator/bootstrap/generator.go b/generator/bootstrap/generator.go
index 15def52..a86f0f0 100644
--- a/generator/bootstrap/generator.go
+++ b/generator/bootstrap/generator.go
@@ -3,6 +3,7 @@
 package bootstrap
 
 import (
+	"bytes"
 	"fmt"
 	"go/format"
 	"os"
@@ -152,30 +153,19 @@ func (g *Generator) Generate() (err error) {
 	}
 	defer os.Remove(path)
 
-	f, err := os.Create(g.OutputName + ".tmp")
-	if err != nil {
-		return err
-	}
-	defer os.Remove(f.Name()) // will remain after rename
-
 	cmd := exec.Command("go", "run", "-tags", g.BuildTags, filepath.Base(path)) // nolint: gosec
 
-	cmd.Stdout = f
+	var out bytes.Buffer
+	cmd.Stdout = &out
 	cmd.Stderr = os.Stderr
 	cmd.Dir = filepath.Dir(path)
 	if err = cmd.Run(); err != nil {
 		return fmt.Errorf("failed to run main generator: %w", err)
 	}
-	f.Close()
-
-	data, err := os.ReadFile(f.Name())
-	if err != nil {
-		return err
-	}
 
-	formatedData, err := format.Source(data)
+	formatedData, err := format.Source(out.Bytes())
 	if err != nil {
-		fmt.Println(string(data))
+		fmt.Println(out.String())
 		return fmt.Errorf("failed to format: %w", err)
 	}
 	return os.WriteFile(g.OutputName, formatedData, 0o600)
-- 
2.43.0


From 57c3a34914f2d1875d76f15231dc672c636bc940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:56 +0000
Subject: [PATCH 76/90] fix: stub all generated methods with types of engine
 while generating code

---
 cmd/yamlygen/main.go             |  7 +++++++
 generator/bootstrap/generator.go | 24 +++++++++++++++++++++---
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/cmd/yamlygen/main.go b/cmd/yamlygen/main.go
index 6316b8a..0964ee8 100644
--- a/cmd/yamlygen/main.go
+++ b/cmd/yamlygen/main.go
@@ -109,13 +109,17 @@ func generate(path string) error {
 	}
 
 	var engineGeneratorPackage, engineGenerator string
+	var stubMarshalResult, stubUnmarshalArgument, stubImport string
 	switch *engine {
 	case "goyaml":
 		engineGeneratorPackage = "github.com/KSpaceer/yamly/engines/goyaml"
 		engineGenerator = "Generator"
+		stubMarshalResult, stubUnmarshalArgument = "any", "*yaml.Node"
+		stubImport = `yaml "gopkg.in/yaml.v3"`
 	case "yayamls":
 		engineGeneratorPackage = "github.com/KSpaceer/yamly/engines/yayamls"
 		engineGenerator = "Generator"
+		stubMarshalResult, stubUnmarshalArgument = "[]byte", "[]byte"
 	default:
 		return fmt.Errorf("unknown engine %q", *engine)
 	}
@@ -132,6 +136,9 @@ func generate(path string) error {
 		BuildTags:              trimmedBuildTags,
 		EngineGeneratorPackage: engineGeneratorPackage,
 		EngineGenerator:        engineGenerator,
+		StubMarshalResult:      stubMarshalResult,
+		StubUnmarshalArgument:  stubUnmarshalArgument,
+		StubImport:             stubImport,
 	}
 
 	if err := g.Generate(); err != nil {
diff --git a/generator/bootstrap/generator.go b/generator/bootstrap/generator.go
index a86f0f0..6b0215a 100644
--- a/generator/bootstrap/generator.go
+++ b/generator/bootstrap/generator.go
@@ -11,7 +11,10 @@ import (
 	"path/filepath"
 )
 
-const generatorPackage = "github.com/KSpaceer/yamly/generator"
+const (
+	yamlyPackage     = "github.com/KSpaceer/yamly"
+	generatorPackage = yamlyPackage + "/generator"
+)
 
 // Generator is used to generate a temporary bootstrap file in target package
 // with actual generator.Generator to generate the actual code.
@@ -29,6 +32,11 @@ type Generator struct {
 	EngineGeneratorPackage string
 	EngineGenerator        string
 
+	// types used by methods of engine in stub, with import for them
+	StubMarshalResult     string
+	StubUnmarshalArgument string
+	StubImport            string
+
 	OutputName string
 	BuildTags  string
 }
@@ -50,6 +58,14 @@ func (g *Generator) generateStub() error {
 	fmt.Fprintln(f, "package ", g.PkgName)
 	fmt.Fprintln(f)
 
+	fmt.Fprintln(f, "import (")
+	fmt.Fprintf(f, "  yamly %q\n", yamlyPackage)
+	if g.StubImport != "" {
+		fmt.Fprintf(f, "  %s\n", g.StubImport)
+	}
+	fmt.Fprintln(f, ")")
+	fmt.Fprintln(f)
+
 	var marshallableType string
 	if g.EncodePointerReceiver {
 		marshallableType = "*" + g.Type
@@ -57,8 +73,10 @@ func (g *Generator) generateStub() error {
 		marshallableType = g.Type
 	}
 
-	fmt.Fprintln(f, "func (", marshallableType, ") MarshalYAML() ([]byte, error) { return nil, nil }")
-	fmt.Fprintln(f, "func (*", g.Type, ") UnmarshalYAML([]byte) error { return nil }")
+	fmt.Fprintln(f, "func (", marshallableType, ") MarshalYAML() (", g.StubMarshalResult, ", error) { return nil, nil }")
+	fmt.Fprintln(f, "func (*", g.Type, ") UnmarshalYAML(", g.StubUnmarshalArgument, ") error { return nil }")
+	fmt.Fprintln(f, "func (", marshallableType, ") MarshalYamly(yamly.Inserter) {}")
+	fmt.Fprintln(f, "func (*", g.Type, ") UnmarshalYamly(yamly.Decoder) {}")
 	fmt.Fprintln(f)
 	fmt.Fprintln(f, "type Exporter_yamly_"+g.Type+" *"+g.Type)
 	return nil
-- 
2.43.0


From bece7fa3ea696358c60603a5a8420e953be2bf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:23 +0000
Subject: [PATCH 77/90] fix: leave a property on the next line to the first key
 of a block mapping

---
 engines/yayamls/parser/block.go      | 44 +++++++++++++++++++---------
 engines/yayamls/parser/properties.go | 33 ++++++++++++++-------
 2 files changed, 53 insertions(+), 24 deletions(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index 6a4d934..ca921f0 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -51,22 +51,13 @@ func (p *parser) parseBlockCollection(ind *indentation, ctx context) ast.Node {
 	if p.hasErrors() {
 		return ast.NewInvalidNode()
 	}
-	p.setCheckpoint()
-
-	var properties ast.Node
 
-	ind.value++
-	if ast.ValidNode(p.parseSeparate(ind, ctx)) {
-		properties = p.parseProperties(ind, ctx)
+	properties := p.parseBlockCollectionProperties(ind, ctx, p.parseProperties)
+	if !ast.ValidNode(properties) {
+		// the second property may belong to the first key
+		properties = p.parseBlockCollectionProperties(ind, ctx, p.parseSingleProperty)
 	}
-	ind.value--
-
-	// properties belong to the collection only if they are separated with a line break,
-	// otherwise they are properties of the first key
-	if ast.ValidNode(properties) && ast.ValidNode(p.parseComments()) {
-		p.commit()
-	} else {
-		p.rollback()
+	if !ast.ValidNode(properties) {
 		properties = nil
 		if !ast.ValidNode(p.parseComments()) {
 			return ast.NewInvalidNode()
@@ -87,6 +78,31 @@ func (p *parser) parseBlockCollection(ind *indentation, ctx context) ast.Node {
 	return newContentNode(properties, collection)
 }
 
+// parseBlockCollectionProperties parses properties of a block collection: they belong to the collection only
+// if they are separated with a line break, otherwise they are properties of the first key.
+func (p *parser) parseBlockCollectionProperties(
+	ind *indentation,
+	ctx context,
+	parse func(*indentation, context) ast.Node,
+) ast.Node {
+	p.setCheckpoint()
+
+	var properties ast.Node
+
+	ind.value++
+	if ast.ValidNode(p.parseSeparate(ind, ctx)) {
+		properties = parse(ind, ctx)
+	}
+	ind.value--
+
+	if ast.ValidNode(properties) && ast.ValidNode(p.parseComments()) {
+		p.commit()
+		return properties
+	}
+	p.rollback()
+	return ast.NewInvalidNode()
+}
+
 // YAML specification: [187] l+block-mapping
 func (p *parser) parseBlockMapping(ind *indentation) ast.Node {
 	if p.hasErrors() {
diff --git a/engines/yayamls/parser/properties.go b/engines/yayamls/parser/properties.go
index 1224b38..d194066 100644
--- a/engines/yayamls/parser/properties.go
+++ b/engines/yayamls/parser/properties.go
@@ -66,16 +66,7 @@ func (p *parser) parseProperties(ind *indentation, ctx context) ast.Node {
 	if p.hasErrors() {
 		return ast.NewInvalidNode()
 	}
-	var tag, anchor ast.Node
-	switch p.tok.Type {
-	case token.TagType:
-		tag = p.parseTagProperty()
-	case token.AnchorType:
-		anchor = p.parseAnchorProperty()
-	default:
-		return ast.NewInvalidNode()
-	}
-
+	tag, anchor := p.parseFirstProperty()
 	if !ast.ValidNode(tag) && !ast.ValidNode(anchor) {
 		return ast.NewInvalidNode()
 	}
@@ -98,6 +89,28 @@ func (p *parser) parseProperties(ind *indentation, ctx context) ast.Node {
 	return ast.NewPropertiesNode(tag, anchor)
 }
 
+// parseSingleProperty parses a tag or an anchor, leaving the other one (if any) to the following node.
+func (p *parser) parseSingleProperty(*indentation, context) ast.Node {
+	if p.hasErrors() {
+		return ast.NewInvalidNode()
+	}
+	tag, anchor := p.parseFirstProperty()
+	if !ast.ValidNode(tag) && !ast.ValidNode(anchor) {
+		return ast.NewInvalidNode()
+	}
+	return ast.NewPropertiesNode(tag, anchor)
+}
+
+func (p *parser) parseFirstProperty() (tag, anchor ast.Node) {
+	switch p.tok.Type {
+	case token.TagType:
+		tag = p.parseTagProperty()
+	case token.AnchorType:
+		anchor = p.parseAnchorProperty()
+	}
+	return tag, anchor
+}
+
 // YAML specification: [104] c-ns-alias-node
 func (p *parser) parseAliasNode() ast.Node {
 	if p.hasErrors() || p.tok.Type != token.AliasType {
-- 
2.43.0


From 45daa58f8c1f5f6a67dbca947b77e3c9dc862e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:32 +0000
Subject: [PATCH 78/90] fix: accept hyphens and parentheses in tags

---
 engines/yayamls/yamlchar/chars.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/yamlchar/chars.go b/engines/yayamls/yamlchar/chars.go
index c933a5a..bca3ffa 100644
--- a/engines/yayamls/yamlchar/chars.go
+++ b/engines/yayamls/yamlchar/chars.go
@@ -71,7 +71,7 @@ func IsWord(s string) bool {
 
 // YAML specification: [39] ns-uri-char
 func IsURI(s string) bool {
-	const URIOnlyChars = "-#;/?:@&=+$_.!~*'"
+	const URIOnlyChars = "()-#;/?:@&=+$_.!~*'"
 
 	runes := []rune(s)
 	n := len(runes)
@@ -95,7 +95,7 @@ func IsURI(s string) bool {
 
 // YAML specification: [40] ns-tag-char
 func IsTagString(s string) bool {
-	const TagOnlyChars = "#;/?:@&=+$_.~*'"
+	const TagOnlyChars = "()-#;/?:@&=+$_.~*'"
 
 	runes := []rune(s)
 	n := len(runes)
-- 
2.43.0


From ce56f9c159be2cfef761f6c9df7fcbd5f247de62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:23 +0000
Subject: [PATCH 79/90] fix: write non specific and verbatim tags so that they
 can be parsed

---
 engines/yayamls/encode/writer.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 8830845..60d3602 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -154,8 +154,17 @@ func (w *ASTWriter) VisitStreamNode(n *ast.StreamNode) {
 }
 
 func (w *ASTWriter) VisitTagNode(n *ast.TagNode) {
-	w.buf.WriteString("!!")
-	w.buf.WriteString(n.Text())
+	switch tag := n.Text(); {
+	case tag == "":
+		w.buf.WriteString("!") // non specific tag
+	case yamlchar.IsTagString(tag):
+		w.buf.WriteString("!!")
+		w.buf.WriteString(tag)
+	default:
+		w.buf.WriteString("!<")
+		w.buf.WriteString(tag)
+		w.buf.WriteString(">")
+	}
 }
 
 func (w *ASTWriter) VisitAnchorNode(n *ast.AnchorNode) {
-- 
2.43.0


From e7efa19788f355e5439970a2a822f040f66b6aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:29 +0000
Subject: [PATCH 80/90] fix: write keys longer than implicit keys can be as
 explicit keys

---
 engines/yayamls/encode/writer.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 60d3602..8119ba4 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -18,6 +18,10 @@ const (
 	defaultIndendationDelta = 2
 )
 
+// maxImplicitKeyTextLength is the maximum length in bytes of text written as implicit key.
+// YAML restricts implicit keys to 1024 characters, which is enough for this number of escaped bytes.
+const maxImplicitKeyTextLength = 128
+
 const (
 	nullValue     = "null"
 	emptySequence = "[]"
@@ -251,8 +255,8 @@ func (w *ASTWriter) VisitMappingNode(n *ast.MappingNode) {
 func (w *ASTWriter) VisitMappingEntryNode(n *ast.MappingEntryNode) {
 	key, value := n.Key(), n.Value()
 
-	isComplexKey := isComplex(n.Key())
-	if isComplexKey {
+	isExplicitKey := isComplex(key) || isLongText(key)
+	if isExplicitKey {
 		w.buf.WriteString("? ")
 		w.increaseIndentation()
 	}
@@ -262,7 +266,7 @@ func (w *ASTWriter) VisitMappingEntryNode(n *ast.MappingEntryNode) {
 	key.Accept(w)
 	w.writingKey = savedWritingKey
 
-	if isComplexKey {
+	if isExplicitKey {
 		w.decreaseIndentation()
 		w.maybeWriteLineBreak()
 		w.maybeWriteIndentation()
@@ -478,3 +482,15 @@ func isComplex(n ast.Node) bool {
 		return false
 	}
 }
+
+// isLongText shows if node is a text which is too long to be written as implicit key.
+func isLongText(n ast.Node) bool {
+	switch n.Type() {
+	case ast.TextType:
+		return len(n.(*ast.TextNode).Text()) > maxImplicitKeyTextLength // nolint: forcetypeassert
+	case ast.ContentType:
+		return isLongText(n.(*ast.ContentNode).Content()) // nolint: forcetypeassert
+	default:
+		return false
+	}
+}
-- 
2.43.0


From eb2a9cafb1c552097c7d97afb8078c749325fed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:06 +0000
Subject: [PATCH 81/90] fix: write aliased collections used as keys so that
 they can be parsed

---
 engines/yayamls/encode/writer.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 8119ba4..c588c06 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -204,6 +204,22 @@ func (w *ASTWriter) VisitAliasNode(n *ast.AliasNode) {
 	w.buf.WriteString(n.Text())
 }
 
+// writtenInPlaceOf returns the node which is written when the given node is met, i.e. the anchored node
+// for dereferenced aliases.
+func (w *ASTWriter) writtenInPlaceOf(n ast.Node) ast.Node {
+	alias, ok := n.(*ast.AliasNode)
+	if !ok || w.opts.anchorsKeeper == nil {
+		return n
+	}
+	if _, hasWroteAnchor := w.metAnchors[alias.Text()]; hasWroteAnchor {
+		return n
+	}
+	if anchored, err := w.opts.anchorsKeeper.DereferenceAlias(alias.Text()); err == nil && ast.ValidNode(anchored) {
+		return anchored
+	}
+	return n
+}
+
 func (w *ASTWriter) VisitTextNode(n *ast.TextNode) {
 	w.writePreparedData(n)
 	txt, quotingType := n.Text(), n.QuotingType()
@@ -255,7 +271,8 @@ func (w *ASTWriter) VisitMappingNode(n *ast.MappingNode) {
 func (w *ASTWriter) VisitMappingEntryNode(n *ast.MappingEntryNode) {
 	key, value := n.Key(), n.Value()
 
-	isExplicitKey := isComplex(key) || isLongText(key)
+	writtenKey := w.writtenInPlaceOf(key)
+	isExplicitKey := isComplex(writtenKey) || isLongText(writtenKey)
 	if isExplicitKey {
 		w.buf.WriteString("? ")
 		w.increaseIndentation()
-- 
2.43.0


From 4605fb8afac072a13b50cf8f7b03429ddc479e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:20 +0000
Subject: [PATCH 82/90] fix: quote one-line strings which are not strings
 without quotes

---
 engines/goyaml/encode/builder.go  | 8 +++++++-
 engines/pkg/schema/schema.go      | 6 ++++++
 engines/yayamls/encode/builder.go | 6 ++++--
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/engines/goyaml/encode/builder.go b/engines/goyaml/encode/builder.go
index 0120b03..806c12c 100644
--- a/engines/goyaml/encode/builder.go
+++ b/engines/goyaml/encode/builder.go
@@ -62,7 +62,7 @@ func (b *ASTBuilder) InsertFloat(val float64) {
 
 func (b *ASTBuilder) InsertString(val string) {
 	style := yaml.DoubleQuotedStyle
-	if b.opts.unquoteOneliners && !isMultiline(val) {
+	if b.opts.unquoteOneliners && !isMultiline(val) && isStringWithoutQuotes(val) {
 		style = 0
 	}
 	insertNonNullValue(b, val, func(s string) string { return s }, style)
@@ -253,6 +253,12 @@ func isMultiline(s string) bool {
 	return strings.ContainsRune(s, '\n')
 }
 
+// isStringWithoutQuotes shows if value stays a string when it is written without quotes.
+func isStringWithoutQuotes(s string) bool {
+	n := yaml.Node{Kind: yaml.ScalarNode, Value: s}
+	return schema.IsString(s) && n.ShortTag() == "!!str"
+}
+
 func kindToString(k yaml.Kind) string {
 	switch k {
 	case yaml.DocumentNode:
diff --git a/engines/pkg/schema/schema.go b/engines/pkg/schema/schema.go
index 2fef6be..8358356 100644
--- a/engines/pkg/schema/schema.go
+++ b/engines/pkg/schema/schema.go
@@ -197,3 +197,9 @@ func ToTimestamp(src string) (t time.Time, err error) {
 	}
 	return t, err
 }
+
+// IsString shows if given unquoted text represents a string, i.e. does not represent a value of any other type.
+func IsString(s string) bool {
+	return !IsNull(s) && !IsBoolean(s) && !IsInteger(s) && !IsUnsignedInteger(s) &&
+		!IsFloat(s) && !IsTimestamp(s) && s != MergeKey
+}
diff --git a/engines/yayamls/encode/builder.go b/engines/yayamls/encode/builder.go
index f95ba6f..9f0bcc3 100644
--- a/engines/yayamls/encode/builder.go
+++ b/engines/yayamls/encode/builder.go
@@ -5,6 +5,7 @@ import (
 	"time"
 
 	"github.com/KSpaceer/yamly"
+	sharedschema "github.com/KSpaceer/yamly/engines/pkg/schema"
 	"github.com/KSpaceer/yamly/engines/yayamls/ast"
 	"github.com/KSpaceer/yamly/engines/yayamls/parser"
 	"github.com/KSpaceer/yamly/engines/yayamls/schema"
@@ -30,7 +31,8 @@ type builderOpts struct {
 type ASTBuilderOption func(*builderOpts)
 
 // WithUnquotedOneLineStrings make ASTBuilder create nodes for one-line strings
-// with absent quoting style (instead of default double quoting style)
+// with absent quoting style (instead of default double quoting style), unless
+// they would represent values of other types without quotes.
 func WithUnquotedOneLineStrings() ASTBuilderOption {
 	return func(opts *builderOpts) {
 		opts.unquoteOneliners = true
@@ -64,7 +66,7 @@ func (b *ASTBuilder) InsertFloat(val float64) {
 
 func (b *ASTBuilder) InsertString(val string) {
 	quoting := ast.DoubleQuotingType
-	if b.opts.unquoteOneliners && !isMultiline(val) {
+	if b.opts.unquoteOneliners && !isMultiline(val) && sharedschema.IsString(val) {
 		quoting = ast.AbsentQuotingType
 	}
 	insertNonNullValue(b, val, func(t string) string { return t }, quoting)
-- 
2.43.0


From 66f75425867151c5570f9c6b218a186cacade18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:33 +0000
Subject: [PATCH 83/90] fix: import foreign packages under names which are
 valid and not used by generated code

---
 generator/generator.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 3f473f6..4097303 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -3,6 +3,8 @@ package generator
 import (
 	"bytes"
 	"fmt"
+	"go/token"
+	"go/types"
 	"hash/fnv"
 	"io"
 	"net/url"
@@ -293,13 +295,20 @@ func (g *Generator) pkgAlias(pkgPath string) string {
 }
 
 func fixPkgAlias(alias string) string {
-	alias = strings.NewReplacer(".", "_", "-", "_").Replace(alias)
-	if alias[0] == 'v' {
+	alias = strings.NewReplacer(".", "_", "-", "_", "~", "_", "+", "_").Replace(alias)
+	if alias[0] == 'v' || !token.IsIdentifier(alias) || types.Universe.Lookup(alias) != nil || localNames[alias] {
 		alias = "_" + alias
 	}
 	return alias
 }
 
+// localNames contains names of variables used in generated functions,
+// besides the ones starting with 'v'.
+var localNames = map[string]bool{
+	"in": true, "out": true, "key": true, "m": true, "ok": true, "err": true,
+	"data": true, "extIn": true, "structMappingState": true,
+}
+
 func processVendoring(pkgPath string) string {
 	const vendorPath = "/vendor/"
 	if i := strings.LastIndex(pkgPath, vendorPath); i != -1 {
-- 
2.43.0


From cdcb0ade8950825021482a2639c32dfa9ff02cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:02 +0000
Subject: [PATCH 84/90] fix: recognize a value indicator after spaces following
 a quoted key or a collection in flow context

---
 engines/yayamls/lexer/context.go   |  7 +------
 engines/yayamls/lexer/tokenizer.go | 11 +++++++++++
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 37f4b01..86c2046 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -285,14 +285,9 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.MappingValueCharacter:
-		canBeAdjacent := func(tok token.Token) bool {
-			return token.IsClosingFlowIndicator(tok) || tok.Type == token.DoubleQuoteType ||
-				tok.Type == token.SingleQuoteType
-		}
-
 		if t.lookahead(1, func(runes []rune) bool {
 			return yamlchar.IsBlankChar(runes[0]) || yamlchar.IsFlowIndicatorChar(runes[0]) || runes[0] == EOF
-		}) || t.lookbehind(canBeAdjacent) {
+		}) || t.afterJSONNode {
 			tok.End = t.pos
 			tok.Type = token.MappingValueType
 			tok.Origin = string([]rune{r})
diff --git a/engines/yayamls/lexer/tokenizer.go b/engines/yayamls/lexer/tokenizer.go
index ef283d0..1f043c0 100644
--- a/engines/yayamls/lexer/tokenizer.go
+++ b/engines/yayamls/lexer/tokenizer.go
@@ -25,6 +25,10 @@ type Tokenizer struct {
 
 	// insidePlainText is true if the current line has a plain text right before current position.
 	insidePlainText bool
+
+	// afterJSONNode is true if only whitespaces are between the end of a quoted text or a flow collection
+	// and current position.
+	afterJSONNode bool
 }
 
 type tokenizerOpts struct {
@@ -102,6 +106,7 @@ func (t *Tokenizer) emitToken() token.Token {
 		specialTok, ok := t.ctx.matchSpecialToken(t, r)
 		if ok {
 			t.insidePlainText = t.insidePlainText && token.IsWhiteSpace(specialTok)
+			t.afterJSONNode = mayEndJSONNode(specialTok) || t.afterJSONNode && token.IsWhiteSpace(specialTok)
 			if tok.Type != token.UnknownType {
 				t.preparedToken = specialTok
 				t.hasPreparedToken = true
@@ -123,6 +128,7 @@ func (t *Tokenizer) emitToken() token.Token {
 			tok.Start = curPos
 			t.insidePlainText = t.insidePlainText || t.ctx.mayContainPlainText() && t.lookbehind(mayPrecedePlainText)
 			t.lookbehindTok = tok
+			t.afterJSONNode = false
 		}
 		originBuilder.WriteRune(r)
 	}
@@ -149,6 +155,11 @@ func mayPrecedePlainText(tok token.Token) bool {
 	}
 }
 
+func mayEndJSONNode(tok token.Token) bool {
+	return token.IsClosingFlowIndicator(tok) || tok.Type == token.DoubleQuoteType ||
+		tok.Type == token.SingleQuoteType
+}
+
 func (t *Tokenizer) lookbehind(predicate func(token.Token) bool) bool {
 	return predicate(t.lookbehindTok)
 }
-- 
2.43.0


From ac86b782133bc8922257f58382592c0e8bd6e687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:52 +0000
Subject: [PATCH 85/90] fix: accept local tag prefixes in tag directives

---
 engines/yayamls/parser/documents.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/engines/yayamls/parser/documents.go b/engines/yayamls/parser/documents.go
index c023eb4..eb8b3a2 100644
--- a/engines/yayamls/parser/documents.go
+++ b/engines/yayamls/parser/documents.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"strings"
 	"unicode"
 
 	"github.com/KSpaceer/yamly/engines/yayamls/ast"
@@ -307,7 +308,18 @@ func (p *parser) parseTagPrefix() ast.Node {
 
 // YAML specification: [94] c-ns-local-tag-prefix
 func (p *parser) parseLocalTagPrefix() ast.Node {
-	if p.hasErrors() || p.tok.Type != token.TagType {
+	if p.hasErrors() {
+		return ast.NewInvalidNode()
+	}
+	// in raw mode the indicator is a part of the prefix
+	if p.tok.Type == token.StringType && strings.HasPrefix(p.tok.Origin, "!") {
+		if rest := p.tok.Origin[1:]; rest != "" && !yamlchar.ConformsCharSet(rest, yamlchar.URICharSetType) {
+			return ast.NewInvalidNode()
+		}
+		p.next()
+		return ast.NewBasicNode(ast.TagType)
+	}
+	if p.tok.Type != token.TagType {
 		return ast.NewInvalidNode()
 	}
 	p.next()
-- 
2.43.0


From c78b851d7c0877533bb330ae5e4bbeeb23bf57a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:39 +0000
Subject: [PATCH 86/90] fix: do not accept braces as characters of URIs

---
 engines/yayamls/yamlchar/chars.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/yamlchar/chars.go b/engines/yayamls/yamlchar/chars.go
index bca3ffa..fdabeeb 100644
--- a/engines/yayamls/yamlchar/chars.go
+++ b/engines/yayamls/yamlchar/chars.go
@@ -71,7 +71,7 @@ func IsWord(s string) bool {
 
 // YAML specification: [39] ns-uri-char
 func IsURI(s string) bool {
-	const URIOnlyChars = "()-#;/?:@&=+$_.!~*'"
+	const URIOnlyChars = "()[],-#;/?:@&=+$_.!~*'"
 
 	runes := []rune(s)
 	n := len(runes)
@@ -85,7 +85,7 @@ func IsURI(s string) bool {
 			i++
 		default:
 			r := runes[i]
-			if !(IsDigit(r) || IsASCIILetter(r) || IsFlowIndicatorChar(r) || strings.ContainsRune(URIOnlyChars, r)) {
+			if !(IsDigit(r) || IsASCIILetter(r) || strings.ContainsRune(URIOnlyChars, r)) {
 				return false
 			}
 		}
-- 
2.43.0


From 085244a3e68fe4c702ffdb674ee0c69e56fc2d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:40 +0000
Subject: [PATCH 87/90] fix: keep tags of struct fields in type arguments as
 they are

---
 generator/generator.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 4097303..1fa8c18 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -245,10 +245,11 @@ func (g *Generator) extractTypeName(t reflect.Type) string {
 	}
 }
 
-var typeArgumentRegexp = regexp.MustCompile(`([^\s\[\](){}*,;<>"]+)\.([\pL_][\pL\pN_]*)`)
+var typeArgumentRegexp = regexp.MustCompile(`"(?:[^"\\]|\\.)*"|([^\s\[\](){}*,;<>"]+)\.([\pL_][\pL\pN_]*)`)
 
 // fixTypeArguments replaces full package paths of type arguments
-// in the name of instantiated generic type with package aliases.
+// in the name of instantiated generic type with package aliases,
+// keeping string literals (tags of struct fields) as they are.
 func (g *Generator) fixTypeArguments(name string) string {
 	if !strings.ContainsRune(name, '[') {
 		return name
@@ -256,6 +257,9 @@ func (g *Generator) fixTypeArguments(name string) string {
 	return typeArgumentRegexp.ReplaceAllStringFunc(name, func(arg string) string {
 		parts := typeArgumentRegexp.FindStringSubmatch(arg)
 		pkgPath, typeName := parts[1], parts[2]
+		if typeName == "" {
+			return arg
+		}
 		if unescaped, err := url.PathUnescape(pkgPath); err == nil {
 			pkgPath = unescaped
 		}
-- 
2.43.0


From 51614122e9e7868419376f2ea135eade9f14a519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:30 +0000
Subject: [PATCH 88/90] fix: recognize document markers at the start of line
 only

---
 engines/yayamls/lexer/context.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 86c2046..481504e 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -142,7 +142,7 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 		if t.lookahead(3, func(runes []rune) bool {
 			return runes[0] == runes[1] && runes[1] == yamlchar.DirectiveEndCharacter &&
 				(yamlchar.IsBlankChar(runes[2]) || runes[2] == EOF)
-		}) && t.lookbehind(token.MayPrecedeWord) {
+		}) && t.lookbehind(mayPrecedeMarker) {
 			tok.Origin = string([]rune{r, t.ra.Next(), t.ra.Next()})
 			t.pos.Column += 2
 			tok.End = t.pos
@@ -257,7 +257,7 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 		if t.lookahead(3, func(runes []rune) bool {
 			return runes[0] == runes[1] && runes[1] == yamlchar.DocumentEndCharacter &&
 				(yamlchar.IsBlankChar(runes[2]) || runes[2] == EOF)
-		}) && t.lookbehind(token.MayPrecedeWord) {
+		}) && t.lookbehind(mayPrecedeMarker) {
 			tok.Origin = string([]rune{r, t.ra.Next(), t.ra.Next()})
 			t.pos.Column += 2
 			tok.End = t.pos
@@ -268,6 +268,16 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 	return c.baseMatching(t, r)
 }
 
+// mayPrecedeMarker shows if a document marker may follow the token: markers are placed at the start of line.
+func mayPrecedeMarker(tok token.Token) bool {
+	switch tok.Type {
+	case token.UnknownType, token.LineBreakType, token.BOMType:
+		return true
+	default:
+		return false
+	}
+}
+
 func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 	if t.insidePlainText && !c.isPlainTextIndicator(r) {
 		return c.baseMatching(t, r)
-- 
2.43.0


From 2ad654d0743c3f027e1d39ac860902df48ed8f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:18 +0000
Subject: [PATCH 89/90] fix: reject flow mappings with missing entries

Two commas in succession were accepted inside of a flow mapping, while they are
an error inside of a flow sequence, as YAML requires.
---
 engines/yayamls/parser/flow.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index 7144b39..4edfdd3 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -510,10 +510,10 @@ func (p *parser) parseFlowMappingEntries(ind *indentation, ctx context) ast.Node
 		entry = p.parseFlowMappingEntry(ind, ctx)
 		if !ast.ValidNode(entry) {
 			p.rollback()
-		} else {
-			entries = append(entries, entry)
-			p.commit()
+			break
 		}
+		p.commit()
+		entries = append(entries, entry)
 	}
 
 	return ast.NewMappingNode(entries)
-- 
2.43.0


From 1c21238f316d4beec0cb6aa2dd6a25caa0cc3c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:05 +0000
Subject: [PATCH 90/90] fix: do not treat quoted keys as merge keys

---
 engines/goyaml/decode/any.go  | 11 +++++++++--
 engines/yayamls/decode/any.go | 17 ++++++++++++++---
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/engines/goyaml/decode/any.go b/engines/goyaml/decode/any.go
index 3cbedd7..2b0693e 100644
--- a/engines/goyaml/decode/any.go
+++ b/engines/goyaml/decode/any.go
@@ -13,6 +13,8 @@ type anyBuilder struct {
 
 	extractString bool
 	stringValue   string
+	// quotedString is true if stringValue was extracted from a quoted scalar
+	quotedString bool
 
 	extractMergeMap bool
 	mergeMap        map[string]any
@@ -159,7 +161,7 @@ func (a *anyBuilder) processMappingPair(keyNode, valueNode *yaml.Node) {
 
 	a.extractString = true
 	a.visitNode(keyNode)
-	if a.stringValue == schema.MergeKey {
+	if a.stringValue == schema.MergeKey && !a.quotedString {
 		a.extractMergeMap = true
 	}
 
@@ -176,10 +178,11 @@ func (a *anyBuilder) processMappingPair(keyNode, valueNode *yaml.Node) {
 func (a *anyBuilder) visitScalarNode(n *yaml.Node) {
 	if a.extractString {
 		a.stringValue = schema.Text(n)
+		a.quotedString = isQuoted(n)
 	} else {
 		var err error
 		switch {
-		case n.Style&(yaml.SingleQuotedStyle|yaml.DoubleQuotedStyle|yaml.LiteralStyle|yaml.FoldedStyle) != 0 || n.ShortTag() == "!!binary":
+		case isQuoted(n) || n.ShortTag() == "!!binary":
 			a.value = schema.Text(n)
 		case schema.IsNull(n):
 			a.value = nil
@@ -202,6 +205,10 @@ func (a *anyBuilder) visitScalarNode(n *yaml.Node) {
 	}
 }
 
+func isQuoted(n *yaml.Node) bool {
+	return n.Style&(yaml.SingleQuotedStyle|yaml.DoubleQuotedStyle|yaml.LiteralStyle|yaml.FoldedStyle) != 0
+}
+
 func (a *anyBuilder) appendError(err error) {
 	a.errors = append(a.errors, err)
 }
diff --git a/engines/yayamls/decode/any.go b/engines/yayamls/decode/any.go
index affbefb..61d6456 100644
--- a/engines/yayamls/decode/any.go
+++ b/engines/yayamls/decode/any.go
@@ -13,6 +13,8 @@ type anyBuilder struct {
 
 	extractString bool
 	stringValue   string
+	// quotedString is true if stringValue was extracted from a quoted text
+	quotedString bool
 
 	extractMergeMap bool
 	mergeMap        map[string]any
@@ -66,6 +68,7 @@ func (a *anyBuilder) VisitAliasNode(n *ast.AliasNode) {
 func (a *anyBuilder) VisitTextNode(n *ast.TextNode) {
 	if a.extractString {
 		a.stringValue = n.Text()
+		a.quotedString = isQuoted(n)
 	} else {
 		a.extractAnyValueFromText(n)
 	}
@@ -153,7 +156,7 @@ func (a *anyBuilder) VisitMappingEntryNode(n *ast.MappingEntryNode) {
 
 	a.extractString = true
 	a.visitNode(n.Key())
-	if a.stringValue == schema.MergeKey {
+	if a.stringValue == schema.MergeKey && !a.quotedString {
 		a.extractMergeMap = true
 	}
 
@@ -189,8 +192,7 @@ func (a *anyBuilder) VisitContentNode(n *ast.ContentNode) {
 func (a *anyBuilder) extractAnyValueFromText(n *ast.TextNode) {
 	var err error
 	switch {
-	case n.QuotingType() == ast.SingleQuotingType, n.QuotingType() == ast.DoubleQuotingType,
-		n.QuotingType() == ast.BlockQuotingType:
+	case isQuoted(n):
 		a.value = n.Text()
 	case schema.IsNull(n):
 		a.value = nil
@@ -213,6 +215,15 @@ func (a *anyBuilder) extractAnyValueFromText(n *ast.TextNode) {
 	}
 }
 
+func isQuoted(n *ast.TextNode) bool {
+	switch n.QuotingType() {
+	case ast.SingleQuotingType, ast.DoubleQuotingType, ast.BlockQuotingType:
+		return true
+	default:
+		return false
+	}
+}
+
 func (a *anyBuilder) visitNode(n ast.Node) {
 	if ast.ValidNode(n) {
 		n.Accept(a)
-- 
2.43.0

