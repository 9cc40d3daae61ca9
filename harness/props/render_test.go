package props

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// renderer writes a value in randomly chosen YAML styles.
type renderer struct {
	t  *rapid.T
	sb strings.Builder
	// decor adds comments, blank lines and trailing spaces where they mean nothing
	decor bool
	// blockScalars allows literal and folded scalars
	blockScalars bool
	// multiline allows flow collections and flow scalars over several lines
	multiline bool
	features  map[string]bool
	// afterBlockScalar: the last thing written was a block scalar
	afterBlockScalar bool
	comments         int
	onlyFlow         bool
	onlyBlock        bool
	noExplicit       bool
	strictKey        bool
	noEmpty          bool // nulls are always written
	tags             bool // tags which fit the values
	noTabs           bool // tokens are separated by spaces only
	keyBreaks        bool // line breaks and comments between the keys of flow mappings and their colons
	spec             bool // plain texts in flow collections by the rules of YAML 1.2, which yaml.v3 does not know
	bareColons       bool // colons directly before flow indicators behind plain keys
	oneLine          bool // scalars and flow collections start on the line of their indicator
	startMarker      bool // the document starts with ---, possibly on the line of its content
}

func newRenderer(t *rapid.T) *renderer {
	r := &renderer{t: t, features: map[string]bool{}}
	r.blockScalars = rapid.IntRange(0, 3).Draw(t, "bs") > 0
	r.multiline = rapid.Bool().Draw(t, "ml")
	r.tags = r.n("tags", 4) == 3
	return r
}

func (r *renderer) feature(s string) { r.features[s] = true }
func (r *renderer) w(s string)       { r.sb.WriteString(s) }
func (r *renderer) n(label string, n int) int {
	if n <= 1 {
		return 0
	}
	return rapid.IntRange(0, n-1).Draw(r.t, label)
}
func (r *renderer) coin(label string) bool { return rapid.Bool().Draw(r.t, label) }
func (r *renderer) spaces(lo, hi int) string {
	return strings.Repeat(" ", rapid.IntRange(lo, hi).Draw(r.t, "sp"))
}

// sep gives white space between two tokens of a line: mostly one or two spaces.
func (r *renderer) sep(tabs bool) string {
	switch r.n("sepkind", 16) {
	case 14:
		r.feature("wide separation")
		return r.spaces(3, 12)
	case 15:
		if tabs && !r.noTabs {
			r.feature("tab separation")
			return pick(r.t, "tabs", "\t", " \t", "\t ", "\t\t")
		}
	}
	return r.spaces(1, 2)
}

func (r *renderer) comment() string {
	r.comments++
	r.feature("comment")
	return "#" + rapid.SampledFrom([]string{"", " c", " a: b", " - x", "'", " \"q", " [", " }", "#", " &a *b", " key: [1, 2]", " é中", " |", ": ", " ---", "!", " %"}).Draw(r.t, "comment")
}

// eol ends a line.
func (r *renderer) eol() {
	r.afterBlockScalar = false
	if r.decor {
		switch r.n("eol", 8) {
		case 0:
			r.w(r.spaces(1, 3) + r.comment())
		case 1:
			r.w(r.spaces(1, 2))
			r.feature("trailing space")
		}
	}
	r.w("\n")
	r.blankLines()
}

// blankLines adds lines which mean nothing.
func (r *renderer) blankLines() {
	if !r.decor {
		return
	}
	for i := r.n("bl", 4) - 2; i > 0; i-- {
		switch r.n("blk", 3) {
		case 0:
			r.w("\n")
			r.feature("blank line")
		case 1:
			r.w(r.spaces(0, 6) + r.comment() + "\n")
		default:
			r.w(r.spaces(1, 3) + "\n")
			r.feature("blank line")
		}
	}
}

// document writes the whole document.
func (r *renderer) document(v *val) string {
	r.blankLines()
	if r.startMarker {
		r.w("---")
		r.node(v, -1, 'd')
	} else {
		r.node(v, -1, 'r')
	}
	s := r.sb.String()
	if !r.afterBlockScalar && strings.HasSuffix(s, "\n") && !r.decor && r.coin("nofinal") {
		s = strings.TrimSuffix(s, "\n")
	}
	return s
}

func isBlockable(v *val) bool {
	return v.kind == vSeq && len(v.seq) > 0 || v.kind == vMap && len(v.ents) > 0
}

func (r *renderer) props(v *val) string {
	tag := r.tag(v)
	if v.anchor == "" {
		return tag
	}
	r.feature("anchor")
	anchor := "&" + v.anchor
	switch {
	case tag == "":
		return anchor
	case r.coin("tagfirst"):
		return tag + r.sep(true) + anchor
	default:
		return anchor + r.sep(true) + tag
	}
}

// tag gives a tag which does not change the value, or nothing.
func (r *renderer) tag(v *val) string {
	if !r.tags || v.kind == vAlias || r.n("tag", 4) > 0 {
		return ""
	}
	var tags []string
	switch v.kind {
	case vNull:
		tags = []string{"!!null"}
	case vBool:
		tags = []string{"!!bool"}
	case vInt:
		if v.u > 1<<62 {
			return "" // yaml.v3 takes some spellings of big integers for floats
		}
		tags = []string{"!!int"}
	case vFloat:
		tags = []string{"!!float"}
	case vStr:
		tags = []string{"!!str", "!!str", "!<tag:yaml.org,2002:str>", "!local", "!a-b%20c", "!"}
	case vSeq:
		tags = []string{"!!seq", "!!seq", "!<tag:yaml.org,2002:seq>", "!local"}
	case vMap:
		tags = []string{"!!map", "!!map", "!<tag:yaml.org,2002:map>", "!local"}
	}
	r.feature("tag")
	return rapid.SampledFrom(tags).Draw(r.t, "tagname")
}

// node writes a value after an indicator (or at the start of the document) and ends the line.
// n is the indentation of the parent; where is 'r' root, 'd' root after ---, '-' sequence item, ':' mapping value, '?' explicit key or value.
func (r *renderer) node(v *val, n int, where byte) {
	sp := ""
	if where != 'r' {
		sp = r.sep(where == ':')
	}
	p := r.props(v)
	if isBlockable(v) && !r.onlyFlow && (r.onlyBlock || r.n("blockstyle", 4) > 0) {
		r.blockCollection(v, n, where, sp, p)
		return
	}
	if v.kind == vStr && r.blockScalars && r.n("blocksc", 3) == 0 && r.blockScalar(v.s, n, sp, p) {
		return
	}
	if v.kind == vNull && !r.noEmpty && r.n("emptynull", 3) == 0 && where != 'r' && p == "" {
		r.feature("empty null")
		r.eol()
		return
	}
	if v.kind == vNull && !r.noEmpty && p != "" && r.n("emptyprops", 3) == 0 {
		r.feature("properties without content")
		r.w(sp + p)
		r.eol()
		return
	}
	brk := func() {
		r.feature("scalar on its own line")
		r.eol()
		r.w(strings.Repeat(" ", max(n+1, 0)+rapid.IntRange(0, 3).Draw(r.t, "own")))
	}
	if where != 'r' && !r.oneLine && r.n("ownline", 12) == 11 {
		brk()
	} else {
		r.w(sp)
	}
	if p != "" {
		r.w(p)
		if !r.oneLine && r.n("ownline", 12) == 11 {
			brk()
		} else {
			r.w(r.sep(true))
		}
	}
	r.flow(v, n, false, 0)
	r.eol()
}

func (r *renderer) blockCollection(v *val, n int, where byte, sp, p string) {
	compact := p == "" && (where == '-' || where == '?') && r.n("compact", 3) > 0
	if compact {
		r.feature("compact")
		r.w(sp)
		r.block(v, n+1+len(sp))
		return
	}
	if where != 'r' || p != "" {
		if p != "" {
			r.w(sp + p)
		}
		r.eol()
	}
	var m int
	switch {
	case where == 'r' || where == 'd':
		m = rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 9}).Draw(r.t, "rootind")
	case where == ':' && v.kind == vSeq:
		m = n + rapid.SampledFrom([]int{0, 0, 1, 1, 2, 2, 2, 2, 4, 4, 7, 13}).Draw(r.t, "ind")
	default:
		m = n + rapid.SampledFrom([]int{1, 1, 2, 2, 2, 2, 3, 3, 4, 4, 7, 13}).Draw(r.t, "ind")
	}
	r.w(strings.Repeat(" ", m))
	r.block(v, m)
}

// block writes a block collection; the cursor is at column ind.
func (r *renderer) block(v *val, ind int) {
	pad := strings.Repeat(" ", ind)
	if v.kind == vSeq {
		r.feature("block sequence")
		for i, e := range v.seq {
			if i > 0 {
				r.w(pad)
			}
			r.w("-")
			r.node(e, ind, '-')
		}
		return
	}
	r.feature("block mapping")
	for i, e := range v.ents {
		if i > 0 {
			r.w(pad)
		}
		if e.keyAlias == nil && e.keyAnchor == "" && !e.merge && !r.noExplicit && r.n("explicit", 6) == 5 {
			r.feature("explicit key")
			r.w("?")
			r.node(&val{kind: vStr, s: e.key}, ind, '?')
			if e.v.kind == vNull && e.v.anchor == "" && !r.noEmpty && r.coin("novalue") {
				r.feature("explicit key only")
				continue
			}
			r.w(pad + ":")
			r.node(e.v, ind, '?')
			continue
		}
		r.key(e, false)
		r.beforeColon()
		r.w(":")
		r.node(e.v, ind, ':')
	}
}

// beforeColon writes optional white space between an implicit key and its indicator.
func (r *renderer) beforeColon() {
	if r.n("colonsp", 12) == 11 {
		r.feature("space before colon")
		r.w(r.sep(true))
	}
}

// key writes an implicit key.
func (r *renderer) key(e entry, flow bool) {
	if e.merge {
		r.feature("merge")
		r.w("<<")
		return
	}
	if e.keyAlias != nil {
		r.feature("alias key")
		r.w("*" + e.keyAlias.anchor + " ")
		return
	}
	if p := r.props(&val{kind: vStr, s: e.key, anchor: e.keyAnchor}); p != "" {
		r.feature("key with properties")
		r.w(p + r.sep(true))
	}
	// an anchored key may be referred to as a value, so it has to look like the string it is
	r.strictKey = e.keyAnchor != ""
	r.text(e.key, 0, flow, true)
	r.strictKey = false
}

// keyPlain says whether a key may be plain: its text is taken as it is, whatever it looks like.
func (r *renderer) keyPlain(s string, flow bool) bool {
	return r.plainOK(s, flow) && !oNull(s) && s != "<<"
}

func (r *renderer) plainOK(s string, flow bool) bool {
	if plainOK(s, flow) {
		return true
	}
	if r.spec && flow && plainOK(s, false) && plainSafe(s) {
		r.feature("plain text yaml.v3 does not know")
		return true
	}
	return false
}

// text writes a string as a flow scalar. n is the parent's indentation for continuation lines.
func (r *renderer) text(s string, n int, flow, key bool) {
	canPlain := r.plainOK(s, flow) && resolvesToString(s)
	if key {
		canPlain = r.keyPlain(s, flow)
		if n := yamlTag(s); n != "!!str" {
			canPlain = canPlain && (n == "!!int" || n == "!!bool") && !r.strictKey
		}
	}
	if canPlain && markerLike(s) {
		if out := r.sb.String(); out == "" || strings.HasSuffix(out, "\n") {
			canPlain = false
		} else {
			r.feature("text like a marker")
		}
	}
	fold := !key && r.multiline
	switch k := r.n("quoting", 4); {
	case canPlain && k < 2:
		r.feature("plain")
		if fold {
			s = r.foldPlain(s, n, flow)
		}
		r.w(s)
	case !key && fold && k < 2 && r.plainMultiOK(s, flow):
		r.feature("multiline plain")
		r.w(r.foldText(s, n, true))
	case k < 3 && r.singleOK(s, fold):
		r.feature("single quoted")
		if fold {
			r.w("'" + r.foldText(strings.ReplaceAll(s, "'", "''"), n, false) + "'")
		} else {
			r.w("'" + strings.ReplaceAll(s, "'", "''") + "'")
		}
	default:
		r.feature("double quoted")
		r.w(r.double(s, n, fold))
	}
}

func yamlTag(s string) string {
	if resolvesToString(s) {
		return "!!str"
	}
	if _, ok := oInt(s); ok {
		return "!!int"
	}
	if _, ok := oBool(s); ok {
		return "!!bool"
	}
	return "!!other"
}

func (r *renderer) contIndent(n int) string {
	return strings.Repeat(" ", max(n+1, 0)+rapid.IntRange(0, 3).Draw(r.t, "ci"))
}

// foldPlain breaks a one-line plain text at some of its spaces.
func (r *renderer) foldPlain(s string, n int, flow bool) string {
	words := strings.Split(s, " ")
	for _, w := range words {
		if w == "" || !isAlnum([]rune(w)[0]) || strings.HasSuffix(w, ":") || strings.HasSuffix(w, "\t") {
			return s
		}
	}
	var sb strings.Builder
	for i, w := range words {
		if i > 0 {
			if r.n("brk", 4) == 0 {
				r.feature("folded line")
				sb.WriteString("\n" + r.contIndent(max(n, 0)))
			} else {
				sb.WriteByte(' ')
			}
		}
		sb.WriteString(w)
	}
	return sb.String()
}

// plainMultiOK: several lines, each usable as a line of a plain scalar.
func (r *renderer) plainMultiOK(s string, flow bool) bool {
	if !strings.Contains(s, "\n") {
		return false
	}
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if l == "" {
			if i == 0 || i == len(lines)-1 {
				return false
			}
			continue
		}
		if !r.plainOK(l, flow) || !isAlnum([]rune(l)[0]) {
			return false
		}
	}
	return resolvesToString(s)
}

// singleOK says whether the text can be single quoted (with line folding if fold is set).
func (r *renderer) singleOK(s string, fold bool) bool {
	if oneLinePrintable(s) {
		return true
	}
	return fold && foldable(s)
}

// foldable: texts with line breaks that survive line folding: no white space around the breaks.
func foldable(s string) bool {
	lines := strings.Split(s, "\n")
	if lines[0] == "" || lines[len(lines)-1] == "" {
		return false
	}
	for _, l := range lines {
		if !oneLinePrintable(l) || strings.Trim(l, " \t") != l {
			return false
		}
	}
	return true
}

// foldText writes every line break as an empty line more and breaks lines at some single spaces.
func (r *renderer) foldText(s string, n int, plain bool) string {
	if plain {
		r.feature("folded line")
	}
	var sb strings.Builder
	rs := []rune(s)
	for i := 0; i < len(rs); i++ {
		switch {
		case rs[i] == '\n':
			k := 0
			for i < len(rs) && rs[i] == '\n' {
				k++
				i++
			}
			i--
			r.feature("folded line")
			sb.WriteString(r.foldSpaces() + "\n")
			for ; k > 0; k-- {
				sb.WriteString(r.blankPad(n+3) + "\n")
			}
			sb.WriteString(r.contIndent(max(n, 0)))
		case rs[i] == ' ' && i > 0 && i+1 < len(rs) && isAlnum(rs[i-1]) && isAlnum(rs[i+1]) && r.n("brk", 4) == 0:
			r.feature("folded line")
			sb.WriteString(r.foldSpaces() + "\n" + r.contIndent(max(n, 0)))
		default:
			sb.WriteRune(rs[i])
		}
	}
	return sb.String()
}

// blankPad gives the spaces of an empty line, at most hi.
func (r *renderer) blankPad(hi int) string {
	if hi > 0 && r.n("pad", 4) == 3 {
		r.feature("padded empty line")
		return strings.Repeat(" ", rapid.IntRange(1, hi).Draw(r.t, "padn"))
	}
	return ""
}

// foldSpaces gives white space before a folded line break, which does not belong to the text.
func (r *renderer) foldSpaces() string {
	if r.n("foldsp", 6) == 5 {
		r.feature("spaces before fold")
		return pick(r.t, "fsp", " ", "  ", "\t", " \t")
	}
	return ""
}

// double writes a double quoted scalar with randomly chosen escapes.
func (r *renderer) double(s string, n int, fold bool) string {
	var sb strings.Builder
	sb.WriteByte('"')
	rs := []rune(s)
	long := map[rune]string{
		0: `\0`, 7: `\a`, 8: `\b`, 9: `\t`, 10: `\n`, 11: `\v`, 12: `\f`, 13: `\r`, 27: `\e`, '"': `\"`, '\\': `\\`, ' ': `\ `,
		0x85: `\N`, 0xa0: `\_`, 0x2028: `\L`, 0x2029: `\P`,
	}
	content := false // the last thing written was a character of the text, not a line break
	for i := 0; i < len(rs); i++ {
		x := rs[i]
		must := !oPrintable(x) || x == '\n' || x == '\r' || x == '"' || x == '\\' || x == 0x85 || x == 0x2028 || x == 0x2029 || x == 0xfeff || x == '\t' && (i == 0 || i == len(rs)-1 || !content || r.coin("dqtab"))
		if k := lineBreaks(rs[i:]); fold && k > 0 && content && i+k < len(rs) && rs[i+k] != ' ' && rs[i+k] != '\t' && r.n("dqbreaks", 3) == 2 {
			// as empty lines, after a folded line break or an escaped one
			switch {
			case r.coin("dqesc"):
				r.feature("empty lines after an escaped line break")
				sb.WriteString("\\\n")
			case rs[i-1] != ' ' && rs[i-1] != '\t':
				r.feature("folded line")
				sb.WriteString(r.foldSpaces() + "\n")
			default:
				k = 0
			}
			if k > 0 {
				for j := 0; j < k; j++ {
					sb.WriteString(r.blankPad(n+3) + "\n")
				}
				sb.WriteString(r.contIndent(max(n, 0)))
				content = false
				i += k - 1
				continue
			}
		}
		if !must {
			if fold && x == ' ' && i > 0 && i+1 < len(rs) && isAlnum(rs[i-1]) && isAlnum(rs[i+1]) && r.n("brk", 4) == 0 {
				r.feature("folded line")
				sb.WriteString(r.foldSpaces() + "\n" + r.contIndent(max(n, 0)))
				content = false
				continue
			}
			if fold && content && x != ' ' && x != '\t' && r.n("escbrk", 20) == 19 {
				r.feature("escaped line break")
				sb.WriteString("\\\n" + r.contIndent(max(n, 0)))
			}
			if !(isAlnum(x)) && r.n("esc", 12) == 0 {
				must = true
			}
		}
		content = true
		if !must {
			sb.WriteRune(x)
			continue
		}
		r.feature("escape")
		if l, ok := long[x]; ok && r.n("long", 3) > 0 {
			sb.WriteString(l)
			continue
		}
		switch {
		case x < 0x100 && r.coin("x"):
			fmt.Fprintf(&sb, `\x%02x`, x)
		case x < 0x10000 && r.coin("u"):
			fmt.Fprintf(&sb, `\u%04X`, x)
		default:
			fmt.Fprintf(&sb, `\U%08x`, x)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

// lineBreaks counts the line feeds a text begins with.
func lineBreaks(rs []rune) int {
	k := 0
	for k < len(rs) && rs[k] == '\n' {
		k++
	}
	return k
}

// blockScalar writes a literal or folded scalar if the text allows it.
func (r *renderer) blockScalar(s string, n int, sp, p string) bool {
	body := strings.TrimRight(s, "\n")
	trail := len(s) - len(body)
	if body == "" {
		return false
	}
	lines := strings.Split(body, "\n")
	spacesOnly := false
	for _, l := range lines {
		spacesOnly = spacesOnly || l != "" && strings.Trim(l, " ") == ""
		if !oneLinePrintable(l) || strings.Contains(l, "\t") && strings.Trim(l, " \t") == "" {
			return false
		}
		if strings.Contains(l, "\t") {
			r.feature("tab in block scalar")
		}
	}
	first := lines[0]
	for _, l := range lines {
		if l != "" {
			first = l
			break
		}
	}
	// an indentation indicator is needed if the first line is more indented
	needInd := strings.HasPrefix(first, " ") || strings.HasPrefix(first, "\t")
	delta := rapid.SampledFrom([]int{1, 1, 2, 2, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 12}).Draw(r.t, "bsind")
	if needInd {
		delta = min(delta, 9)
	}
	if n < 0 {
		if needInd {
			return false
		}
		delta++
	}
	ind := strings.Repeat(" ", n+delta)
	var chomp string
	switch {
	case trail == 0:
		chomp = "-"
	case trail == 1:
		chomp = rapid.SampledFrom([]string{"", "", "+"}).Draw(r.t, "chomp")
	default:
		chomp = "+"
	}
	folded := r.n("folded", 2) == 0 && foldedOK(lines) && !spacesOnly
	if spacesOnly {
		r.feature("line of spaces in literal")
	}
	head := "|"
	if folded {
		head = ">"
		r.feature("folded scalar")
	} else {
		r.feature("literal scalar")
	}
	if needInd || n >= 0 && delta <= 9 && r.n("indind", 5) == 0 {
		r.feature("indentation indicator")
		if r.coin("order") {
			head += fmt.Sprint(delta) + chomp
		} else {
			head += chomp + fmt.Sprint(delta)
		}
	} else {
		head += chomp
	}
	if p != "" {
		p += r.sep(true)
	}
	if !r.oneLine && n >= 0 && r.n("bsown", 12) == 11 {
		// the header on its own line, before or behind the properties
		r.feature("block scalar header on its own line")
		if p != "" && r.coin("propsfirst") {
			r.w(sp + strings.TrimRight(p, " \t"))
			r.eol()
			r.w(strings.Repeat(" ", n+1+r.n("bsownind", 3)) + head)
		} else {
			r.eol()
			r.w(strings.Repeat(" ", n+1+r.n("bsownind", 3)) + p + head)
		}
	} else {
		r.w(sp + p + head)
	}
	if r.decor && r.n("bscomment", 4) == 0 {
		r.w(r.spaces(1, 2) + r.comment())
	}
	r.w("\n")
	if folded {
		prev := "" // the last line with text
		for i, l := range lines {
			if i > 0 {
				r.w("\n")
			}
			if l == "" {
				r.w(r.blankPad(len(ind)))
				continue
			}
			spaced := moreIndented(l)
			if spaced {
				r.feature("more indented line in folded")
			}
			// a run of k breaks between two text lines is written as k+1 breaks, unless one of them is more indented
			if prev != "" && !spaced && !moreIndented(prev) {
				r.w(r.blankPad(len(ind)) + "\n")
			}
			prev = l
			words := []rune(l)
			r.w(ind)
			for j, x := range words {
				if !spaced && x == ' ' && j > 0 && j+1 < len(words) && words[j-1] != ' ' && words[j+1] != ' ' && words[j+1] != '\t' && r.n("brk", 4) == 0 {
					r.feature("folded line")
					r.w("\n" + ind)
					continue
				}
				r.w(string(x))
			}
		}
	} else {
		for i, l := range lines {
			if i > 0 {
				r.w("\n")
			}
			if l != "" {
				r.w(ind + l)
			} else {
				r.w(r.blankPad(len(ind)))
			}
		}
	}
	r.w("\n")
	if chomp == "+" {
		for ; trail > 1; trail-- {
			r.w(r.blankPad(len(ind)) + "\n")
		}
	} else if r.n("chomped", 4) == 3 {
		// empty lines which are chomped
		r.feature("chomped lines")
		for i := r.n("nchomped", 3); i >= 0; i-- {
			r.w(r.blankPad(len(ind)) + "\n")
		}
	}
	if r.decor && r.n("bstrail", 4) == 3 {
		// the first comment has to be less indented than the text
		r.feature("comment after block scalar")
		r.w(r.spaces(0, max(n+delta-1, 0)) + r.comment() + "\n")
		r.blankLines()
	}
	r.afterBlockScalar = chomp != "-"
	return true
}

// moreIndented says whether a line begins with white space, so that the breaks around it are not folded.
func moreIndented(l string) bool {
	return strings.HasPrefix(l, " ") || strings.HasPrefix(l, "\t")
}

// foldedOK keeps out successive more indented lines of folded scalars: yayamls is known to double the line break
// between them (known-findings.txt, pinned by the tests of the repository).
func foldedOK(lines []string) bool {
	prev := ""
	for _, l := range lines {
		if l == "" {
			continue
		}
		if moreIndented(l) && moreIndented(prev) {
			return false
		}
		prev = l
	}
	return true
}

// flow writes a node in flow style.
func (r *renderer) flow(v *val, n int, inFlow bool, depth int) {
	switch v.kind {
	case vNull:
		r.w(pick(r.t, "null", "null", "~", "Null", "NULL"))
	case vBool:
		if v.b {
			r.w(pick(r.t, "true", "true", "True", "TRUE"))
		} else {
			r.w(pick(r.t, "false", "false", "False", "FALSE"))
		}
	case vInt:
		r.w(fmtInts(v, r.t))
	case vFloat:
		r.w(fmtFloats(v.f, r.t))
	case vStr:
		r.text(v.s, n, inFlow, false)
	case vAlias:
		r.feature("alias")
		r.w("*" + v.target.anchor)
		if inFlow {
			r.w(" ")
		}
	case vSeq:
		r.feature("flow sequence")
		r.w("[")
		for i, e := range v.seq {
			r.ws(n)
			if e.kind == vMap && e.anchor == "" && len(e.ents) == 1 && !e.ents[0].merge && r.n("pair", 2) == 0 {
				r.feature("single pair")
				r.flowEntry(e.ents[0], n, depth+1, true)
			} else {
				r.flowChild(e, n, depth+1)
			}
			r.ws(n)
			if i < len(v.seq)-1 {
				r.w(",")
			} else if r.n("trailcomma", 6) == 0 {
				r.feature("trailing comma")
				r.w(",")
				r.ws(n)
			}
		}
		if len(v.seq) == 0 {
			r.ws(n)
		}
		r.w("]")
	case vMap:
		r.feature("flow mapping")
		r.w("{")
		for i, e := range v.ents {
			r.ws(n)
			r.flowEntry(e, n, depth+1, false)
			r.ws(n)
			if i < len(v.ents)-1 {
				r.w(",")
			} else if r.n("trailcomma", 6) == 0 {
				r.feature("trailing comma")
				r.w(",")
				r.ws(n)
			}
		}
		if len(v.ents) == 0 {
			r.ws(n)
		}
		r.w("}")
	}
}

func (r *renderer) flowChild(v *val, n, depth int) {
	if p := r.props(v); p != "" {
		r.w(p + r.sep(true))
		if v.kind == vNull && !r.noEmpty && r.n("emptyprops", 3) == 0 {
			r.feature("properties without content")
			return
		}
	}
	r.flow(v, n, true, depth)
}

func (r *renderer) flowEntry(e entry, n, depth int, pair bool) {
	if e.v.kind == vNull && e.v.anchor == "" && !pair && !r.noEmpty {
		switch r.n("flownull", 4) {
		case 0:
			r.feature("key only")
			r.key(e, true)
			return
		case 1:
			start := r.sb.Len()
			r.key(e, true)
			// yaml.v3 takes a colon before a flow indicator as part of a plain key
			quoted := e.keyAlias == nil && e.keyAnchor == "" && !e.merge && strings.ContainsAny(r.sb.String()[start:start+1], "\"'")
			r.w(":")
			if !(quoted || r.bareColons && e.keyAlias == nil) || r.coin("colonsp") {
				r.w(" ")
			} else {
				r.feature("colon before a flow indicator")
			}
			return
		}
	}
	if e.keyAlias == nil && e.keyAnchor == "" && !e.merge && !r.noExplicit && r.n("flowexplicit", 8) == 7 {
		r.feature("explicit key")
		r.w("? ")
	}
	start := r.sb.Len()
	r.key(e, true)
	broken := false
	if at := r.sb.Len(); r.keyBreaks && !pair && e.keyAlias == nil && r.n("keybreak", 4) == 3 {
		r.ws(n)
		broken = strings.Contains(r.sb.String()[at:], "\n")
	}
	if broken {
		r.feature("line break between key and colon")
	} else {
		r.beforeColon()
	}
	quoted := !broken && e.keyAlias == nil && e.keyAnchor == "" && !e.merge && strings.ContainsAny(r.sb.String()[start:start+1], "\"'")
	r.w(":")
	if quoted && !r.spec && r.n("adjacent", 3) == 0 {
		r.feature("adjacent value")
		if r.n("adjsp", 2) == 0 {
			r.w(r.spaces(1, 2))
		}
	} else if r.multiline && r.n("valbrk", 8) == 0 {
		r.ws(n)
		r.w(" ")
	} else {
		r.w(r.sep(true))
	}
	r.flowChild(e.v, n, depth)
}

// ws writes optional white space between tokens of a flow collection.
func (r *renderer) ws(n int) {
	switch r.n("ws", 4) {
	case 0:
		r.w(r.sep(true))
	case 1:
		if r.multiline {
			r.feature("multiline flow")
			if r.decor && r.n("flowcomment", 3) == 0 {
				r.w(" " + r.comment())
			}
			r.w("\n" + r.contIndent(max(n, 0)))
		}
	}
}
