#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run once when the list changes; not part of any check).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                     observe_at=observe or [],hook_needed=None)))
S='engines/pkg/schema/schema.go'
Y='engines/yayamls/'
G='engines/goyaml/'
p('C01','Scalar classification and conversion agree, and scalar values round-trip',
 'Every text the engines classify as null, boolean, integer, unsigned integer, float or timestamp (binary texts are only classified) is converted without error to exactly the value YAML assigns to it (or rejected only because it does not fit the requested width), and every text they do not classify so is refused. The text produced for any Go boolean, integer, float or time converts back to the same value (same instant for times, NaN to NaN).',
 ['inputs'],'all strings; all int64, uint64, float64, bool and time.Time values; bit sizes 0, 8, 16, 32, 64',
 'Tests sample a table of spellings; the classes are infinite regular languages over sign, base prefix, leading zeros, fraction, exponent, zone forms.',
 [S,Y+'schema/schema.go',G+'schema/schema.go'],[('regular expressions and strconv based conversions',S),('timestamp layouts',S)],['IsX / ToX / FromX of the schema packages'])
p('C02','Quoting and unquoting are inverse and follow the YAML escape rules',
 'Quoting any valid UTF-8 text in double or single quoted form and unquoting the result gives back the same text, the double quoted form contains only printable characters on one line, and the quoted form means the same text to an independent YAML parser. Unquoting decodes every YAML escape sequence and rejects malformed ones, and text which is not valid UTF-8 is refused rather than altered.',
 ['inputs'],'all strings, including control characters, non-BMP characters, BOM, quotes, backslashes and invalid UTF-8',
 'Tests check a few dozen examples; each of the 1.1M code points and every escape position is a separate case.',
 [Y+'yamlchar/transformations.go',Y+'yamlchar/chars.go'],[('escape/unescape tables',Y+'yamlchar/transformations.go'),('printable character classes',Y+'yamlchar/chars.go')],['ConvertTo*/ConvertFrom*'])
p('C03','Tokenization loses nothing and reports true positions',
 'For every source text the token stream ends with an end-of-input token that is then repeated forever, the texts of the tokens concatenated in order are the source text, and tokenizing again gives the same tokens. Every token starts where the previous one ended and its row and column are the ones of its first character in the source.',
 ['inputs'],'all source strings and every split of raw-mode switching is left to the parser; valid UTF-8, any mix of indicators, breaks and text',
 'Tests compare token lists of fixed documents; context handling of the lexer depends on every pair of neighbouring characters.',
 [Y+'lexer/tokenizer.go',Y+'lexer/context.go',Y+'lexer/rune_stream.go',Y+'token/token.go'],[('tokenizer buffer flushing',Y+'lexer/tokenizer.go'),('flow/block/text contexts',Y+'lexer/context.go')],['Tokenizer.Next'])
p('C04','Checkpointed access to a stream equals random access to its history',
 'For any sequence of reading, checkpointing, rolling back and committing, the values read are the ones of the underlying stream in order: a rollback returns to the value which was current when the latest open checkpoint was set, a commit keeps the position and forgets only the latest checkpoint. Every element of the underlying stream is requested at most once and in order.',
 ['histories'],'all histories of next / checkpoint / rollback / commit / reset with nested checkpoints, over streams of any length',
 'Tests walk a handful of fixed call sequences; ring buffer state depends on the whole history and nesting.',
 [Y+'pkg/cpaccessor/accessor.go'],[('checkpoint stack and replay buffer',Y+'pkg/cpaccessor/accessor.go')],['CheckpointingAccessor.Next/SetCheckpoint/Rollback/Commit'])
p('C05','Parsing any input terminates with either a tree or an error',
 'For every byte sequence the parser and both decoders finish without crashing and with work proportionate to small inputs, returning either an error or a well-formed tree, the same one every time the input is given. Parsing does not change the given bytes, and trees and decoded values are not affected by later changes to those bytes.',
 ['inputs'],'arbitrary byte sequences, mutations of valid documents, token soups; up to a few hundred bytes in the quick tier',
 'Crashes and endless loops of a backtracking parser live in inputs nobody wrote down; the tests hold valid documents and a few invalid ones.',
 [Y+'parser/parser.go',Y+'parser/block.go',Y+'parser/flow.go',Y+'parser/documents.go',Y+'lexer/context.go',Y+'decode/reader.go'],[('backtracking recursive descent with dead-end detection',Y+'parser/parser.go'),('parenthesis balance check',Y+'parser/internal/balancecheck/balancecheck.go')],['parser.ParseBytes','decode.NewASTReaderFromBytes'])
p('C06','A YAML document is read as the value it denotes, in every style',
 'For any value built of strings, null, booleans, integers, floats, sequences and mappings, each document that presents it in block, flow, plain, quoted, literal, folded, compact or explicit-key style with any indentation is parsed to that value. Both engines give the same value for it, and no part of the document is dropped.',
 ['inputs','configurations'],'values up to depth 4 rendered with independent random choices of style, indentation, chomping, explicit keys and separators',
 'The tests parse fixed documents; style choices combine at every node and the parser backtracks between them.',
 [Y+'parser/block.go',Y+'parser/flow.go',Y+'parser/documents.go',Y+'parser/indents.go',Y+'lexer/context.go',Y+'decode/any.go',G+'decode/any.go'],[('block and flow grammar productions',Y+'parser/block.go'),('flow productions',Y+'parser/flow.go'),('value construction',Y+'decode/any.go')],['decode reader Any()'])
p('C07','Comments, blank lines, line endings and document markers do not change values',
 'Adding or removing comments, blank lines, trailing spaces after complete lines, explicit document start and end markers, version or tag directives before a start marker, a byte order mark, or switching between LF and CRLF line endings (outside of block scalars) leaves the parsed value of a document unchanged. A stream of several documents yields exactly those documents in order.',
 ['inputs'],'valid documents of the C06 generator and every subset of insertion points for the neutral changes',
 'Metamorphic over pairs of documents; tests contain single fixed documents with a few comments.',
 [Y+'parser/comments.go',Y+'parser/documents.go',Y+'parser/block.go',Y+'lexer/context.go'],[('comment and line break productions',Y+'parser/comments.go'),('document prefix/suffix',Y+'parser/documents.go')],['parser.ParseString'])
p('C08','Malformed documents are rejected, not silently reinterpreted',
 'A document with an unclosed or superfluous bracket, quote or comma, an alias without a preceding anchor, a wrongly indented block entry, text after a completed quoted or flow node, or an unknown escape sequence is reported as an error by the yayamls engine when it is parsed or read. Whatever of a document is accepted is accepted completely: no trailing part of the source is ignored.',
 ['inputs'],'valid documents of the C06 generator damaged at every position in ways that make them invalid under the YAML specification',
 'Negative tests are few; the damage can be anywhere in any document.',
 [Y+'parser/parser.go',Y+'parser/errors.go',Y+'parser/internal/balancecheck/balancecheck.go',Y+'parser/flow.go'],[('balance check',Y+'parser/internal/balancecheck/balancecheck.go'),('leftover token check',Y+'parser/parser.go')],['parser.ParseString error'])
p('C09','Serialized trees parse back to the same tree',
 'For every tree of sequences, mappings, texts of any quoting, nulls, tags, anchors and aliases that can be built or parsed, the serialized form is a YAML document that parses back to a tree with the same structure, texts, nulls, tags, anchors and aliases, for the yayamls engine and for an independent YAML parser alike. Serializing leaves the tree unchanged, gives the same bytes every time, and a serializer may be reused for any number of trees.',
 ['inputs','histories'],'trees of depth up to 5 with arbitrary printable and non-printable text in values and keys, complex keys, empty collections',
 'Text style selection depends on every character of the text and its place in the tree; the tests write about thirty fixed trees.',
 [Y+'encode/writer.go',Y+'ast/node.go',Y+'yamlchar/transformations.go'],[('style selection and indentation of writer',Y+'encode/writer.go')],['ASTWriter.WriteTo/WriteString/WriteBytes'])
p('C10','Tree building reproduces the call history or reports an error',
 'For every well-formed sequence of insertions the built tree represents exactly the inserted values in order, under both engines. A misplaced end of collection, a key without value, a second root or a failed raw insertion is reported by the result and makes the remaining insertions no-ops, and after the result is taken the builder behaves like a new one. Strings are quoted, unless the builder is asked to leave strings of one line that mean no other value unquoted.',
 ['histories'],'all histories of builder calls, well-formed and ill-formed, with repeated results',
 'Tests run fixed call sequences that end with one result.',
 [Y+'encode/builder.go',G+'encode/builder.go','encode.go'],[('route stack of open collections',Y+'encode/builder.go'),('route stack of open collections',G+'encode/builder.go')],['ASTBuilder','Result()'])
p('C11','All encoder outputs agree and are independent of later encodings',
 'For the same insertions the encoder produces the same document as a string, as bytes and through a writer, and reports a build error or the error of a failing destination instead of partial success. Documents already returned never change when the encoder is used again, and an encoder which reported an error encodes the next tree correctly.',
 ['histories','fault_sequences'],'sequences of encodings on one encoder with alternating output forms, build errors and writers failing at any offset',
 'Tests encode once per encoder to one form; buffers are pooled and reused.',
 ['encode.go',Y+'encode/writer.go',G+'encode/writer.go'],[('encoder delegating to builder and writer','encode.go'),('writer buffer reset',Y+'encode/writer.go')],['EncodeTo/EncodeToString/EncodeToBytes'])
p('C12','Decoder calls visit the document in order, each value exactly once',
 'For every document and every sequence of decoder calls that fits its structure, each call yields the value of the next node in document order, the reported sizes of collections are their numbers of items or entries, and iteration ends exactly after the last item. A null test consumes only a null, and after the last node further reads report the end of the stream.',
 ['inputs','histories'],'generated documents with randomly chosen legal reading sequences (typed reads, skips, raw reads), both engines',
 'Tests read fixed documents with one fixed sequence of calls each.',
 [Y+'decode/reader.go',Y+'decode/iterator.go',Y+'decode/expected.go',G+'decode/reader.go',G+'decode/iterator.go',G+'decode/expected.go'],[('route of visited nodes and node iterators',Y+'decode/reader.go'),('route of visited nodes',G+'decode/reader.go')],['Decoder methods','CollectionState'])
p('C13','Numbers never change silently when decoded',
 'Decoding a number into a requested bit size gives the exact value of the document or an error: values out of range of the bit size, negative values read as unsigned and fractions read as integers are never truncated, wrapped or rounded to an integer. Floats are the nearest representable value of the requested size.',
 ['inputs'],'integers around every bit size boundary, in decimal, hexadecimal, octal and signed spelling, floats of both sizes; both engines',
 'Boundary values times spellings times bit sizes times engines; tests use small numbers.',
 [S,Y+'decode/reader.go',G+'decode/reader.go'],[('bit size passed down to conversions',S)],['Integer/Unsigned/Float of decoders'])
p('C14','A decoding error is kept, reported and stops decoding',
 'When a node does not represent a value of the requested type the decoder stores an error recognizable as a denial (for a number of the wrong size: an error), returns the zero value, and every further call returns zero values without changing the stored error, so that loops over collections end. Custom errors added by the caller behave likewise, adding no error changes nothing, and an error-free decoding reports no error. A reader asked to collect denials reports every one of them and leaves a denied value to be read by a fitting call.',
 ['histories','inputs'],'all documents with a mismatching request at any point of the reading sequence, followed by arbitrary further calls, both engines',
 'Tests provoke one error per document at a fixed place.',
 [Y+'decode/reader.go',Y+'decode/error.go',G+'decode/reader.go',G+'decode/error.go','decode.go'],[('fatal error flag and noop collection states',Y+'decode/reader.go'),('error accumulation',G+'decode/reader.go')],['Error()','HasUnprocessedItems()'])
p('C15','Skipping, raw and generic reads consume exactly one subtree',
 'Skipping a value, reading it generically, as raw YAML or as a tree consumes exactly that value, whatever it contains, so that the following reads see what follows it. The raw YAML of a value, taken alone, denotes the same value, including values of aliases anchored elsewhere, and reading does not modify the source tree.',
 ['inputs','histories'],'documents with nested values and aliases, any value skipped or extracted in any of the four ways, both engines',
 'Tests skip or extract a few fixed nodes.',
 [Y+'decode/reader.go',Y+'decode/anchors.go',G+'decode/reader.go',G+'decode/raw.go',Y+'encode/writer.go'],[('anchors collected from skipped nodes',Y+'decode/anchors.go'),('alias dereferencing in raw output',G+'decode/raw.go')],['Skip/Any/Raw/Node'])
p('C16','Aliases read as their anchored value, merge keys fill in missing entries',
 'An alias anywhere in a document yields the value of the node most recently anchored with that name, whether that node was decoded, skipped or extracted before, and as often as it is used. A merge key adds exactly the entries of the merged mappings that are not given explicitly or by an earlier merged mapping; unknown and self-containing anchors are reported as errors.',
 ['inputs'],'documents with anchors on scalars, sequences and mappings, nested aliases, chains, merge keys with one or several mappings, in both engines',
 'Alias resolution depends on reading history; tests have a few fixed documents.',
 [Y+'decode/anchors.go',Y+'decode/any.go',Y+'decode/reader.go',G+'decode/any.go',G+'decode/reader.go'],[('anchor store',Y+'decode/anchors.go'),('merge map',Y+'decode/any.go')],['Any()','typed reads of aliases'])
p('C17','Generated marshalling code round-trips every value of the type',
 'For every supported type, engine and combination of generator flags, marshalling any value with the generated method and unmarshalling the result with the generated method yields an equal value (except that omitted empty fields, and pointers to nil values, come back as nil or zero), and the marshalled text is YAML an independent parser reads as the same data. Marshalling does not modify the value.',
 ['programs','inputs','configurations'],'random type definitions (nested structs, slices, arrays, maps, pointers, named and basic types, text marshalers, times), random values, both engines, flag combinations',
 'The tests generate code for about twenty fixed types with one value each.',
 ['generator/generator.go','generator/encoder.go','generator/decoder.go',Y+'engine.go',G+'engine.go'],[('decoder templates','generator/decoder.go'),('encoder templates','generator/encoder.go')],['generated MarshalYAML/UnmarshalYAML'])
p('C18','Struct fields map to YAML keys exactly as tags and flags say',
 'In generated code a field is read from and written under its tag name or else its Go name, ignored fields and unexported fields are neither read nor written, inlined fields appear in the host mapping, and omitempty fields are written exactly when not empty. Unknown keys are skipped by default and always reported when they are disallowed; missing and null keys leave fields untouched; a value that does not fit the type of its field (wrong kind, out of range) makes unmarshalling fail.',
 ['programs','inputs','configurations'],'random structs with random tags and flags, documents with missing, null, reordered, duplicated-prefix and unknown keys',
 'Tag, flag and document combinations; tests use one document per type.',
 ['generator/tags.go','generator/generator.go','generator/encoder.go','generator/decoder.go'],[('tag parsing','generator/tags.go'),('field collection and inlining','generator/generator.go')],['generated MarshalYAML/UnmarshalYAML'])
p('C19','Code generation is deterministic, compiles, or refuses the type',
 'For every type the generator either produces formatted Go code that compiles with the package, defining all marshalling methods the engine promises on the requested receivers, or reports an error for types that cannot be represented. The same type, flags and engine always give byte-identical code.',
 ['programs','configurations'],'random supported and unsupported type definitions, both engines, all flags',
 'Tests compile the output for about twenty types and never compare two runs.',
 ['generator/generator.go','generator/encoder.go','generator/decoder.go','generator/bootstrap/generator.go',Y+'engine.go',G+'engine.go'],[('import and function name registries','generator/generator.go')],['yamlygen output'])
p('C20','The generator command writes exactly its output file, or nothing',
 'A successful run of the command creates the output file, under the default snake case name or the given name, guarded by the given build tags, and leaves no other new file and no changed file in the package; the flags have their documented effect on the code, and running it again gives the same file. A failing run exits with a non-zero status and a message, and leaves the directory as it was.',
 ['configurations','fault_sequences'],'type names, flags, build tags, output names, module and package layouts, previous outputs, broken packages, failing go commands',
 'Tests run the command only in successful cases and only look at the output.',
 ['cmd/yamlygen/main.go','generator/bootstrap/generator.go','generator/parser/parser.go','generator/parser/pkgpath.go','generator/parser/modulepath.go'],[('bootstrap file lifecycle','generator/bootstrap/generator.go'),('package path detection','generator/parser/pkgpath.go')],['process exit status, package directory'])
p('C21','Concurrent use of separate decoders and encoders is safe and isolated',
 'Goroutines which parse, decode, build and encode with their own readers and encoders obtain the same results as they would alone, without data races, whatever they do at the same time. The same tree may be serialized and read by several goroutines at once.',
 ['schedules','inputs'],'sets of independent jobs run by several goroutines under the race detector',
 'Tests are sequential per value; pooled parsers, accessors and buffers are shared process-wide.',
 [Y+'parser/parser.go',Y+'parser/token_source.go',Y+'pkg/cpaccessor/accessor.go','encode.go'],[('object pools',Y+'parser/token_source.go')],['results of concurrent jobs'])
p('C22','Tree comparison and printing are faithful to the tree',
 'Comparing trees is reflexive and symmetric, and reports a difference whenever the trees differ in the text of a node, the kind of a node, or the number of entries. Printing a tree never fails, does not change it, and prints the same text for equal trees, showing every text of the tree at the place of its node.',
 ['inputs'],'pairs of generated trees, equal or differing in one node',
 'Used as the oracle of the repository tests themselves, never tested on pairs that differ.',
 [Y+'ast/astcmp/comparator.go',Y+'ast/astprint/printer.go',Y+'ast/node.go'],[('tree comparison visitor',Y+'ast/astcmp/comparator.go'),('tree printing visitor',Y+'ast/astprint/printer.go')],['Comparator.Equal','Printer.Print'])
p('C23','The two engines understand each other',
 'A document encoded by one engine is decoded by the other to the same values, through typed reads, generic reads and raw reads, and both engines accept or deny the same typed request on the same document. Values of generated types written by the code of one engine are read back equal by the code of the other.',
 ['inputs','configurations'],'random insertion sequences and random values of generated types, encoded with each engine and decoded with the other',
 'No test crosses the engines.',
 [Y+'encode/writer.go',Y+'decode/reader.go',G+'encode/builder.go',G+'encode/writer.go',G+'decode/reader.go',S],[('common schema conversions',S),('engine independent interfaces','encode.go')],['decoded values'])
p('C24','Characters and character sets are classified as YAML defines them',
 'For every code point the character classes (decimal and hex digits, letters, flow indicators, JSON and printable characters, white space, line breaks) answer as the YAML productions do. For every text the character sets (decimal, word, URI, tag, anchor, plain, single and double quoted) accept exactly the texts of their production, with every escape sequence complete, and a token answers the same for its text however often and in whatever order it is asked.',
 ['inputs'],'every code point; every text, complete or damaged in one character; every order of questions to one token',
 'The tests look at a few strings per set; the classes decide what the tokenizer, the parser, the serializer and the quoting do with the remaining million characters.',
 [Y+'yamlchar/chars.go',Y+'yamlchar/charset.go',Y+'token/bitmap.go',Y+'token/token.go'],[('character classes',Y+'yamlchar/chars.go'),('cached answers of tokens',Y+'token/bitmap.go')],['Is... predicates','ConformsCharSet','Token.ConformsCharSet'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
