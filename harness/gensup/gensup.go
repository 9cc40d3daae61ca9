// Package gensup is linked into the programs which exercise generated marshalling code. It fills values of any type,
// describes from the type, its tags and the generator flags alone which document a value has to be written as, and builds
// documents together with the value they have to be read as.
package gensup

import (
	"encoding"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unsafe"

	"github.com/KSpaceer/yamly"
	gdecode "github.com/KSpaceer/yamly/engines/goyaml/decode"
	gencode "github.com/KSpaceer/yamly/engines/goyaml/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	ydecode "github.com/KSpaceer/yamly/engines/yayamls/decode"
	yencode "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"gopkg.in/yaml.v3"
)

// Entry is a type with generated methods.
type Entry struct {
	Pkg, Engine, Type                    string
	Omitempty, Disallow, PtrRecv, Inline bool
	New                                  func() any // a pointer to a new value
}

func (e *Entry) String() string {
	s := e.Pkg + "." + e.Type + " (" + e.Engine
	for _, f := range []struct {
		on   bool
		name string
	}{{e.Omitempty, "omitempty"}, {e.Disallow, "disallow-unknown-fields"}, {e.PtrRecv, "encode-pointer-receiver"}, {e.Inline, "inline-embedded"}} {
		if f.on {
			s += " -" + f.name
		}
	}
	return s + ")"
}

// Documented is implemented by types with own marshalling methods: the document they expect.
type Documented interface{ DocYAML() string }

type (
	yayMarshaler   interface{ MarshalYAML() ([]byte, error) }
	yayUnmarshaler interface{ UnmarshalYAML([]byte) error }
)

var (
	timeType       = reflect.TypeOf(time.Time{})
	documentedType = reflect.TypeOf((*Documented)(nil)).Elem()
	textMarshaler  = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
)

// targets are the types whose marshalling methods are generated: their methods say nothing about them.
var targets = map[reflect.Type]bool{}

func own(t, iface reflect.Type) bool {
	return t != timeType && !targets[t] && (t.Implements(iface) || reflect.PointerTo(t).Implements(iface))
}

func rw(v reflect.Value) reflect.Value {
	if v.CanSet() || !v.CanAddr() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

// ---- fields ----

type field struct {
	key   string
	index [][]int // steps; between them pointers are followed
	typ   reflect.Type
	omit  bool // omitempty, by flag or tag
}

func (e *Entry) fields(t reflect.Type) []field {
	var ownFields, inlined []field
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		opts := strings.Split(f.Tag.Get("yaml"), ",")
		if len(opts) == 1 && opts[0] == "-" {
			continue
		}
		omit, inline := e.Omitempty, f.Anonymous && e.Inline && opts[0] == ""
		for _, o := range opts[1:] {
			omit = omit || o == "omitempty"
			inline = inline || o == "inline"
		}
		exported := unicode.IsUpper([]rune(f.Name)[0])
		st := f.Type
		if st.Kind() == reflect.Pointer {
			st = st.Elem()
		}
		if inline && st.Kind() == reflect.Struct {
			if !exported && !f.Anonymous {
				continue
			}
			for _, sf := range e.fields(st) {
				idx := [][]int{{i}}
				if f.Type.Kind() == reflect.Pointer {
					idx = append(idx, sf.index...)
				} else {
					idx[0] = append(idx[0], sf.index[0]...)
					idx = append(idx, sf.index[1:]...)
				}
				sf.index = idx
				inlined = append(inlined, sf)
			}
			continue
		}
		if !exported {
			continue
		}
		key := f.Name
		if opts[0] != "" {
			key = opts[0]
		}
		ownFields = append(ownFields, field{key: key, index: [][]int{{i}}, typ: f.Type, omit: omit})
	}
	have := map[string]bool{}
	for _, f := range ownFields {
		have[f.key] = true
	}
	for _, f := range inlined {
		if !have[f.key] {
			ownFields = append(ownFields, f)
		}
	}
	return ownFields
}

// get gives the value of a field; ok is false if a pointer on the way is nil and alloc is not asked for.
func (f *field) get(v reflect.Value, alloc bool) (reflect.Value, bool) {
	for i, step := range f.index {
		for _, j := range step {
			v = v.Field(j)
		}
		if i < len(f.index)-1 {
			if v.IsNil() {
				if !alloc {
					return v, false
				}
				rw(v).Set(reflect.New(v.Type().Elem()))
			}
			v = v.Elem()
		}
	}
	return v, true
}

func empty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice, reflect.Map:
		return v.Len() == 0
	case reflect.Interface, reflect.Pointer:
		return v.IsNil()
	case reflect.Bool:
		return !v.Bool()
	case reflect.String:
		return v.Len() == 0
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int() == 0
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return v.Uint() == 0
	case reflect.Float32, reflect.Float64:
		return v.Float() == 0
	}
	return false
}

func bytesOf(v reflect.Value) []byte {
	b := make([]byte, v.Len())
	for i := range b {
		b[i] = byte(v.Index(i).Uint())
	}
	return b
}

func isBytes(t reflect.Type) bool {
	return (t.Kind() == reflect.Slice || t.Kind() == reflect.Array) && t.Elem().Kind() == reflect.Uint8 && t.Elem().Name() == "uint8"
}

// ---- random values ----

type filler struct {
	e    *Entry
	r    *rand.Rand
	size int // 0: smallest

	deepNil bool // pointers to nil, which do not round-trip
}

var words = []string{"", "a", "b", "word", "two words", "null", "~", "true", "false", "yes", "on", "1", "-12", "0x1f", "0o7", "1.5", ".inf", "1e3", "2001-12-14", "<<", "=", "-", "?", ":", "- x", "a: b", "a #b", "#c",
	" lead", "trail ", "  ", "\t", "x\ty", "line1\nline2", "\nlead", "trail\n", "trail\n\n", "a\n\n\nb", "  ind\n more", "\r", "a\r\nb", "'", "\"", "it's", "\"q\"", "\\", "\\n", "{", "}", "[a, b]", "{a: b}", "&a", "*a", "!t", "|", ">", "%x", "@x", "`x",
	"é", "日本", "😀", "\u0000", "\u0007", "\u0085", "\u2028", "\ufeff", "\u007f", "---", "...", "--- a", "a:", ":a", "a,b", "key", "!!str x", "? a", "0", "00", "1_000", "12:30:45", ".", "..", "+1", "0b1"}

func (f *filler) str() string {
	switch f.r.Intn(4) {
	case 0:
		return []string{"a", "b", "word", ""}[f.r.Intn(4)]
	case 1, 2:
		return words[f.r.Intn(len(words))]
	}
	var sb strings.Builder
	for i := f.r.Intn(2 + f.size*2); i >= 0; i-- {
		if f.r.Intn(3) > 0 {
			sb.WriteByte("abcdefgh \n:#-,x'\""[f.r.Intn(17)])
		} else {
			sb.WriteString(words[f.r.Intn(len(words))])
		}
	}
	return sb.String()
}

func (f *filler) anyValue(depth int) any {
	n := 8
	if depth <= 0 {
		n = 6
	}
	switch f.r.Intn(n) {
	case 0:
		// yaml.v3 cannot read some of the block scalars it writes
		return strings.ReplaceAll(f.str(), "\n", "n")
	case 1:
		return f.r.Intn(2) == 0
	case 2:
		return int64(f.int(64))
	case 3:
		return f.uint(64)
	case 4:
		return float64(f.r.Intn(1000))/8 + 0.5
	case 5:
		return "w" + strconv.Itoa(f.r.Intn(5))
	case 6:
		s := []any{}
		for i := f.r.Intn(3); i > 0; i-- {
			s = append(s, f.anyValue(depth-1))
		}
		return s
	default:
		m := map[string]any{}
		for i := f.r.Intn(3); i > 0; i-- {
			m["k"+strconv.Itoa(i)] = f.anyValue(depth - 1)
		}
		return m
	}
}

func (f *filler) int(bits int) int64 {
	switch f.r.Intn(5) {
	case 0:
		return int64(f.r.Intn(3)) - 1
	case 1:
		return math.MaxInt64 >> (64 - bits)
	case 2:
		return math.MinInt64 >> (64 - bits)
	case 3:
		return int64(f.r.Intn(200)) - 100
	}
	return int64(f.r.Uint64()) >> (64 - bits) >> f.r.Intn(bits)
}

func (f *filler) uint(bits int) uint64 {
	switch f.r.Intn(4) {
	case 0:
		return uint64(f.r.Intn(3))
	case 1:
		return math.MaxUint64 >> (64 - bits)
	}
	return f.r.Uint64() >> (64 - bits) >> f.r.Intn(bits)
}

func (f *filler) time() time.Time {
	t := time.Date(1+f.r.Intn(9998), time.Month(1+f.r.Intn(12)), 1+f.r.Intn(28), f.r.Intn(24), f.r.Intn(60), f.r.Intn(60), 0, time.UTC)
	switch f.r.Intn(4) {
	case 0:
		t = t.Truncate(24 * time.Hour)
	case 1:
		t = t.Add(time.Duration(f.r.Intn(1e9)))
	case 2:
		t = t.In(time.FixedZone("", 60*(f.r.Intn(24*60)-12*60)))
		if y := t.Year(); y < 1 || y > 9999 {
			t = t.UTC()
		}
	}
	return t
}

// fill puts a random value into v. inMap: the value is a map key.
func (f *filler) fill(v reflect.Value, depth int, ptrTo bool) {
	t := v.Type()
	if t == timeType {
		v.Set(reflect.ValueOf(f.time()))
		return
	}
	r := f.r
	switch t.Kind() {
	case reflect.String:
		v.SetString(f.str())
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(f.int(t.Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(f.uint(t.Bits()))
	case reflect.Float32, reflect.Float64:
		var x float64
		switch r.Intn(6) {
		case 0:
			x = float64(r.Intn(5))
		case 1:
			x = []float64{math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1), math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1, 1e21, 1e-7, 16777217}[r.Intn(10)]
		case 2:
			x = math.Float64frombits(r.Uint64())
		default:
			x = r.NormFloat64() * 100
		}
		if t.Bits() == 32 {
			x = float64(float32(x))
		}
		v.SetFloat(x)
	case reflect.Slice:
		if isBytes(t) {
			if !ptrTo && r.Intn(5) == 0 {
				return
			}
			v.Set(reflect.ValueOf([]byte(f.str())).Convert(t))
			return
		}
		if !ptrTo && (depth <= 0 && r.Intn(3) > 0 || r.Intn(6) == 0) {
			return
		}
		n := r.Intn(2 + f.size)
		if depth <= 0 {
			n = 0
		}
		s := reflect.MakeSlice(t, n, n)
		for i := 0; i < n; i++ {
			f.fill(s.Index(i), depth-1, false)
		}
		v.Set(s)
	case reflect.Array:
		if isBytes(t) {
			for i := 0; i < v.Len(); i++ {
				v.Index(i).SetUint(uint64([]byte("ab \x00~\n:'1\x7f")[r.Intn(10)]))
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			f.fill(v.Index(i), depth-1, false)
		}
	case reflect.Map:
		if !ptrTo && (depth <= 0 && r.Intn(3) > 0 || r.Intn(6) == 0) {
			return
		}
		m := reflect.MakeMap(t)
		n := r.Intn(2 + f.size)
		if depth <= 0 {
			n = 0
		}
		for i := 0; i < n; i++ {
			k := reflect.New(t.Key()).Elem()
			f.fill(k, 1, true)
			if hasNaN(k) {
				continue
			}
			e := reflect.New(t.Elem()).Elem()
			f.fill(e, depth-1, false)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Pointer:
		if !ptrTo && (depth <= 0 || r.Intn(3) == 0) {
			return
		}
		p := reflect.New(t.Elem())
		f.fill(p.Elem(), depth-1, !f.deepNil || r.Intn(2) == 0)
		v.Set(p)
	case reflect.Interface:
		if t.NumMethod() > 0 {
			return
		}
		if !ptrTo && r.Intn(4) == 0 {
			return
		}
		v.Set(reflect.ValueOf(f.anyValue(2)))
	case reflect.Struct:
		if own(t, documentedType) {
			for i := 0; i < t.NumField(); i++ {
				f.fill(v.Field(i), depth, false)
			}
			return
		}
		skip := map[string]bool{} // inlined pointers which stay nil
		for _, sf := range f.e.fields(t) {
			for i := range sf.index[:len(sf.index)-1] {
				k := fmt.Sprint(sf.index[:i+1])
				if _, ok := skip[k]; !ok {
					skip[k] = r.Intn(3) == 0
				}
			}
			ok := true
			for i := range sf.index[:len(sf.index)-1] {
				ok = ok && !skip[fmt.Sprint(sf.index[:i+1])]
			}
			if !ok {
				continue
			}
			fv, _ := sf.get(v, true)
			if r.Intn(5) == 0 {
				continue // zero
			}
			f.fill(fv, depth-1, false)
		}
	default:
		panic("harness: cannot fill " + t.String())
	}
}

func hasNaN(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Float32, reflect.Float64:
		return math.IsNaN(v.Float())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if hasNaN(v.Field(i)) {
				return true
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if hasNaN(v.Index(i)) {
				return true
			}
		}
	}
	return false
}

// clone copies a value deeply.
func clone(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	copyInto(out, v)
	return out
}

func copyInto(dst, v reflect.Value) {
	t := v.Type()
	switch t.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			dst.Set(reflect.Zero(t))
			return
		}
		s := reflect.MakeSlice(t, v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			copyInto(s.Index(i), v.Index(i))
		}
		dst.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			copyInto(dst.Index(i), v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() {
			dst.Set(reflect.Zero(t))
			return
		}
		m := reflect.MakeMap(t)
		for it := v.MapRange(); it.Next(); {
			m.SetMapIndex(it.Key(), clone(it.Value()))
		}
		dst.Set(m)
	case reflect.Pointer:
		if v.IsNil() {
			dst.Set(reflect.Zero(t))
			return
		}
		p := reflect.New(t.Elem())
		copyInto(p.Elem(), v.Elem())
		dst.Set(p)
	case reflect.Struct:
		if t == timeType {
			dst.Set(v)
			return
		}
		tmp := reflect.New(t).Elem()
		tmp.Set(v)
		for i := 0; i < t.NumField(); i++ {
			copyInto(rw(dst.Field(i)), rw(tmp.Field(i)))
		}
	default: // the contents of interfaces are never changed in place
		dst.Set(v)
	}
}

// ---- comparison ----

func numeric(x any) (*big.Rat, bool) {
	switch n := x.(type) {
	case int:
		return new(big.Rat).SetInt64(int64(n)), true
	case int64:
		return new(big.Rat).SetInt64(n), true
	case uint64:
		return new(big.Rat).SetInt(new(big.Int).SetUint64(n)), true
	case float64:
		if math.IsNaN(n) || math.IsInf(n, 0) {
			return nil, false
		}
		return new(big.Rat).SetFloat64(n), true
	}
	return nil, false
}

func sameAny(a, b any) bool {
	if x, ok := numeric(a); ok {
		y, ok := numeric(b)
		return ok && x.Cmp(y) == 0
	}
	switch x := a.(type) {
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameAny(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		ym := map[string]any{}
		switch y := b.(type) {
		case map[string]any:
			ym = y
		case map[any]any:
			for k, v := range y {
				ym[fmt.Sprint(k)] = v
			}
		default:
			return false
		}
		if len(x) != len(ym) {
			return false
		}
		for k := range x {
			if v, ok := ym[k]; !ok || !sameAny(x[k], v) {
				return false
			}
		}
		return true
	case float64:
		y, ok := b.(float64)
		return ok && (x == y || x != x && y != y)
	}
	return reflect.DeepEqual(a, b)
}

// diff says how two values of a type differ. omit: empty collections may have become nil.
func (e *Entry) diff(a, b reflect.Value, omit bool) string {
	t := a.Type()
	if !a.CanInterface() && !(t.Kind() == reflect.Struct || t.Kind() == reflect.Pointer) || t == timeType && !a.CanInterface() {
		if x, y := Show(a), Show(b); x != y {
			return fmt.Sprintf("%s and %s", x, y)
		}
		return ""
	}
	if t == timeType {
		x, y := a.Interface().(time.Time), b.Interface().(time.Time)
		if !x.Equal(y) {
			return fmt.Sprintf("%v and %v", x, y)
		}
		return ""
	}
	switch t.Kind() {
	case reflect.Float32, reflect.Float64:
		x, y := a.Float(), b.Float()
		if x == y && math.Signbit(x) == math.Signbit(y) || x != x && y != y || omit && x == y {
			return ""
		}
	case reflect.Slice, reflect.Map:
		if a.IsNil() != b.IsNil() && !(omit && a.Len() == 0 && b.Len() == 0) {
			return fmt.Sprintf("%s and %s", Show(a), Show(b))
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf("lengths %d and %d: %s and %s", a.Len(), b.Len(), Show(a), Show(b))
		}
		if t.Kind() == reflect.Map {
			for it := a.MapRange(); it.Next(); {
				bv := b.MapIndex(it.Key())
				if !bv.IsValid() {
					return fmt.Sprintf("key %s is missing in %s", Show(it.Key()), Show(b))
				}
				if d := e.diff(it.Value(), bv, omit); d != "" {
					return Show(it.Key()) + ": " + d
				}
			}
			return ""
		}
		for i := 0; i < a.Len(); i++ {
			if d := e.diff(a.Index(i), b.Index(i), omit); d != "" {
				return fmt.Sprintf("[%d]: %s", i, d)
			}
		}
		return ""
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if d := e.diff(a.Index(i), b.Index(i), omit); d != "" {
				return fmt.Sprintf("[%d]: %s", i, d)
			}
		}
		return ""
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s and %s", Show(a), Show(b))
			}
			return ""
		}
		return e.diff(a.Elem(), b.Elem(), omit)
	case reflect.Interface:
		if !sameAny(a.Interface(), b.Interface()) {
			return fmt.Sprintf("%s and %s", Show(a), Show(b))
		}
		return ""
	case reflect.Struct:
		fields := map[int]bool{}
		if !own(t, documentedType) {
			for _, f := range e.fields(t) {
				if len(f.index) == 1 && len(f.index[0]) == 1 {
					fields[f.index[0][0]] = f.omit
				}
			}
		}
		for i := 0; i < t.NumField(); i++ {
			o := e.Omitempty || fields[i]
			if d := e.diff(a.Field(i), b.Field(i), o); d != "" {
				return t.Field(i).Name + ": " + d
			}
		}
		return ""
	default:
		if a.Comparable() && a.Equal(b) {
			return ""
		}
	}
	return fmt.Sprintf("%s and %s", Show(a), Show(b))
}

// written is v as it has to be read back: omitted fields are zero and inlined pointers none of whose fields is written are nil.
func (e *Entry) written(v reflect.Value) {
	t := v.Type()
	if t == timeType || own(t, documentedType) {
		return
	}
	switch t.Kind() {
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			e.written(v.Index(i))
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			c := clone(it.Value())
			e.written(c)
			v.SetMapIndex(it.Key(), c)
		}
	case reflect.Pointer:
		if !v.IsNil() {
			e.written(v.Elem())
		}
	case reflect.Struct:
		fs := e.fields(t)
		fresh := reflect.New(t).Elem()
		for _, f := range fs {
			fv, ok := f.get(v, false)
			if !ok || f.omit && empty(fv) {
				continue
			}
			dv, _ := f.get(fresh, true)
			rw(dv).Set(rw(fv))
			e.written(rw(dv))
		}
		v.Set(fresh)
	}
}

// nullish values are written as null.
func nullish(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice, reflect.Map, reflect.Interface:
		return v.IsNil()
	case reflect.Pointer:
		return v.IsNil() || nullish(v.Elem())
	}
	return false
}

// Show describes a value.
func Show(v reflect.Value) string {
	var sb strings.Builder
	show(&sb, v)
	return sb.String()
}

func show(sb *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		sb.WriteString("<none>")
		return
	}
	t := v.Type()
	if t == timeType && v.CanInterface() {
		sb.WriteString(v.Interface().(time.Time).Format(time.RFC3339Nano))
		return
	}
	switch t.Kind() {
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice && v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if isBytes(t) {
			fmt.Fprintf(sb, "bytes")
			fmt.Fprintf(sb, "%q", bytesOf(v))
			return
		}
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteString(", ")
			}
			show(sb, v.Index(i))
		}
		sb.WriteByte(']')
	case reflect.Map:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		fmt.Fprintf(sb, "map%d{", v.Len())
		for i, k := range sorted(v.MapKeys()) {
			if i > 0 {
				sb.WriteString(", ")
			}
			show(sb, k)
			sb.WriteString(": ")
			show(sb, v.MapIndex(k))
		}
		sb.WriteByte('}')
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteByte('&')
		show(sb, v.Elem())
	case reflect.Struct:
		sb.WriteByte('{')
		for i := 0; i < t.NumField(); i++ {
			if i > 0 {
				sb.WriteString(" ")
			}
			sb.WriteString(t.Field(i).Name + "=")
			show(sb, v.Field(i))
		}
		sb.WriteByte('}')
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(sb, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(sb, v.Float())
	default:
		sb.WriteString("?")
	}
}

func sorted(ks []reflect.Value) []reflect.Value {
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && Show(ks[j]) < Show(ks[j-1]); j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

// ---- engines ----

func encoderOf(engine string) yamly.Encoder {
	if engine == "yayamls" {
		return yamly.NewEncoder[ast.Node](yencode.NewASTBuilder(), yencode.NewASTWriter())
	}
	return yamly.NewEncoder[*yaml.Node](gencode.NewASTBuilder(), &gencode.ASTWriter{})
}

func decoderOf(engine string, data []byte) (yamly.Decoder, error) {
	if engine == "yayamls" {
		r, err := ydecode.NewASTReaderFromBytes(data)
		if err != nil {
			return nil, err
		}
		return r, nil
	}
	var n yaml.Node
	if err := yaml.Unmarshal(data, &n); err != nil {
		return nil, err
	}
	return gdecode.NewASTReader(&n), nil
}

func (e *Entry) marshal(p any) ([]byte, error) {
	if e.Engine == "yayamls" {
		m, ok := p.(yayMarshaler)
		if !ok {
			return nil, fmt.Errorf("%T has no MarshalYAML method of yayamls", p)
		}
		return m.MarshalYAML()
	}
	if _, ok := p.(yaml.Marshaler); !ok {
		return nil, fmt.Errorf("%T has no MarshalYAML method of yaml.v3", p)
	}
	return yaml.Marshal(p)
}

func (e *Entry) unmarshal(data []byte, p any) error {
	if e.Engine == "yayamls" {
		m, ok := p.(yayUnmarshaler)
		if !ok {
			return fmt.Errorf("%T has no UnmarshalYAML method of yayamls", p)
		}
		return m.UnmarshalYAML(data)
	}
	if _, ok := p.(yaml.Unmarshaler); !ok {
		return fmt.Errorf("%T has no UnmarshalYAML method of yaml.v3", p)
	}
	return yaml.Unmarshal(data, p)
}

// ---- documents ----

func resolvesElsewhere(s string) bool {
	n := yaml.Node{Kind: yaml.ScalarNode, Value: s}
	return n.ShortTag() != "!!str"
}

func coreNonString(s string) bool {
	switch s {
	case "", "~", "null", "Null", "NULL", "true", "True", "TRUE", "false", "False", "FALSE", ".nan", ".NaN", ".NAN":
		return true
	}
	b := strings.TrimLeft(s, "+-")
	if len(s)-len(b) > 1 {
		return false
	}
	switch b {
	case ".inf", ".Inf", ".INF":
		return true
	}
	if b == s && (strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "0o")) && len(s) > 2 {
		_, err := strconv.ParseUint(s, 0, 64)
		return err == nil
	}
	if strings.Trim(b, "0123456789.eE+-") != "" || b == "" {
		return false
	}
	_, err := strconv.ParseFloat(b, 64)
	return err == nil || strings.Contains(err.Error(), "range")
}

// reads says how the node differs from the document v has to be written as.
func (e *Entry) reads(n *yaml.Node, v reflect.Value, key bool) string {
	t := v.Type()
	bad := func(format string, args ...any) string {
		return fmt.Sprintf("%s is written as %s: %s", Show(v), nodeText(n), fmt.Sprintf(format, args...))
	}
	if t == timeType {
		var x time.Time
		if err := n.Decode(&x); err != nil || !x.Equal(v.Interface().(time.Time)) {
			return bad("reads as %v, %v", x, err)
		}
		return ""
	}
	if own(t, documentedType) {
		if own(t, textMarshaler) && !own(t, reflect.TypeOf((*yamly.MarshalerYamly)(nil)).Elem()) {
			p := reflect.New(t)
			p.Elem().Set(v)
			m, ok := p.Interface().(encoding.TextMarshaler)
			if !ok {
				return ""
			}
			text, err := m.MarshalText()
			if err != nil || n.Kind != yaml.ScalarNode || n.Value != string(text) {
				return bad("want the text %q (%v)", text, err)
			}
		}
		return ""
	}
	if nullish(v) {
		if n.Kind != yaml.ScalarNode || n.ShortTag() != "!!null" {
			return bad("want null")
		}
		return ""
	}
	str := func(s string) string {
		if n.Kind != yaml.ScalarNode || n.Value != s {
			return bad("want the text %q", s)
		}
		if !key && n.ShortTag() != "!!str" && coreNonString(s) {
			return bad("reads as %s, want a string", n.ShortTag())
		}
		return ""
	}
	if isBytes(t) {
		return str(string(bytesOf(v)))
	}
	switch t.Kind() {
	case reflect.String:
		return str(v.String())
	case reflect.Bool:
		if n.ShortTag() != "!!bool" || n.Value != strconv.FormatBool(v.Bool()) {
			return bad("want %v", v.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		var x int64
		if err := n.Decode(&x); n.ShortTag() != "!!int" || err != nil || x != v.Int() {
			return bad("want %v", v.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		var x uint64
		if err := n.Decode(&x); n.ShortTag() != "!!int" || err != nil || x != v.Uint() {
			return bad("want %v", v.Uint())
		}
	case reflect.Float32, reflect.Float64:
		var x float64
		err := n.Decode(&x)
		if t.Bits() == 32 {
			x = float64(float32(x))
		}
		if tag := n.ShortTag(); tag != "!!float" && tag != "!!int" || err != nil || x != v.Float() && !(x != x && v.Float() != v.Float()) {
			return bad("reads as %v, want %v", x, v.Float())
		}
	case reflect.Slice, reflect.Array:
		if n.Kind != yaml.SequenceNode || len(n.Content) != v.Len() {
			return bad("want a sequence of %d items", v.Len())
		}
		for i := 0; i < v.Len(); i++ {
			if d := e.reads(n.Content[i], v.Index(i), false); d != "" {
				return fmt.Sprintf("[%d]: %s", i, d)
			}
		}
	case reflect.Pointer:
		return e.reads(n, v.Elem(), key)
	case reflect.Interface:
		var x any
		if err := n.Decode(&x); err != nil || !sameAny(v.Elem().Interface(), x) {
			return bad("reads as %v, %v", x, err)
		}
	case reflect.Map:
		if n.Kind != yaml.MappingNode || len(n.Content) != 2*v.Len() {
			return bad("want a mapping of %d entries", v.Len())
		}
	entries:
		for it := v.MapRange(); it.Next(); {
			why := ""
			for i := 0; i < len(n.Content); i += 2 {
				if e.reads(n.Content[i], it.Key(), true) == "" {
					if why = e.reads(n.Content[i+1], it.Value(), false); why == "" {
						continue entries
					}
				}
			}
			return fmt.Sprintf("%s: not written right (%s)", Show(it.Key()), why)
		}
	case reflect.Struct:
		if n.Kind != yaml.MappingNode {
			return bad("want a mapping")
		}
		got := map[string]*yaml.Node{}
		for i := 0; i < len(n.Content); i += 2 {
			if got[n.Content[i].Value] != nil {
				return bad("key %q appears twice", n.Content[i].Value)
			}
			got[n.Content[i].Value] = n.Content[i+1]
		}
		for _, f := range e.fields(t) {
			fv, ok := f.get(v, false)
			fn := got[f.key]
			delete(got, f.key)
			switch {
			case !ok || f.omit && empty(fv):
				if fn != nil {
					return bad("key %q has to be omitted", f.key)
				}
			case fn == nil:
				return bad("key %q is missing", f.key)
			default:
				if d := e.reads(fn, fv, false); d != "" {
					return f.key + ": " + d
				}
			}
		}
		for k := range got {
			return bad("there is an additional key %q", k)
		}
	default:
		return bad("harness: %s", t)
	}
	return ""
}

func nodeText(n *yaml.Node) string {
	b, err := yaml.Marshal(n)
	if err != nil {
		return err.Error()
	}
	return fmt.Sprintf("%q", b)
}

// Quote gives a text as a double quoted scalar.
func Quote(s string) string {
	b, err := yaml.Marshal(scalar(s, true))
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(b)
}

// ---- building documents to read ----

type builder struct {
	*filler
	unknown  int // unknown keys in the document
	misfit   int // countdown to the leaf which is replaced by a value that does not fit
	misfits  string
	feats    map[string]bool
	noUnkown bool
}

func scalar(s string, quoted bool) *yaml.Node {
	n := &yaml.Node{Kind: yaml.ScalarNode, Value: s}
	if quoted {
		n.Style = yaml.DoubleQuotedStyle
		n.Tag = "!!str"
	}
	return n
}

func (b *builder) anyNode(v any) *yaml.Node {
	switch x := v.(type) {
	case nil:
		return scalar([]string{"null", "~"}[b.r.Intn(2)], false)
	case string:
		return scalar(x, true)
	case []any:
		n := &yaml.Node{Kind: yaml.SequenceNode, Style: b.style()}
		for _, e := range x {
			n.Content = append(n.Content, b.anyNode(e))
		}
		return n
	case map[string]any:
		n := &yaml.Node{Kind: yaml.MappingNode, Style: b.style()}
		for k, e := range x {
			n.Content = append(n.Content, scalar(k, b.r.Intn(2) == 0), b.anyNode(e))
		}
		return n
	}
	return scalar(fmt.Sprint(v), false)
}

func (b *builder) style() yaml.Style {
	if b.r.Intn(3) == 0 {
		return yaml.FlowStyle
	}
	return 0
}

func (b *builder) leaf() bool {
	b.misfit--
	return b.misfit == -1
}

func (b *builder) wrong(what string, nodes ...*yaml.Node) *yaml.Node {
	b.misfits = what
	return nodes[b.r.Intn(len(nodes))]
}

var (
	wrongSeq = &yaml.Node{Kind: yaml.SequenceNode, Style: yaml.FlowStyle, Content: []*yaml.Node{scalar("1", false)}}
	wrongMap = &yaml.Node{Kind: yaml.MappingNode, Style: yaml.FlowStyle, Content: []*yaml.Node{scalar("q", false), scalar("1", false)}}
)

// build makes a random node to be decoded into v, and changes v to what it has to be afterwards.
func (b *builder) build(v reflect.Value, depth int, fieldPos bool) *yaml.Node {
	t := v.Type()
	r := b.r
	if t == timeType {
		if b.leaf() {
			return b.wrong("timestamp", wrongSeq, wrongMap, scalar("noon", false), scalar("2001-13-01", false))
		}
		x := b.time()
		v.Set(reflect.ValueOf(x))
		return scalar(x.Format(time.RFC3339Nano), false)
	}
	if t.Kind() != reflect.Pointer && own(t, documentedType) {
		if b.leaf() {
			// what all methods of types of the generated packages refuse
			b.feats["refused by own method"] = true
			return b.wrong(t.Name(), scalar("word", false), scalar("word", true), wrongSeq)
		}
		b.fill(v, depth, false)
		p := reflect.New(t)
		p.Elem().Set(v)
		var n yaml.Node
		if err := yaml.Unmarshal([]byte(p.Interface().(Documented).DocYAML()), &n); err != nil {
			panic("harness: " + err.Error())
		}
		return n.Content[0]
	}
	if isBytes(t) {
		if b.leaf() {
			return b.wrong("bytes", wrongSeq, wrongMap)
		}
		b.fill(v, depth, true)
		return scalar(string(bytesOf(v)), true)
	}
	null := func() (*yaml.Node, bool) {
		if fieldPos || r.Intn(6) > 0 {
			return nil, false
		}
		v.Set(reflect.Zero(t))
		b.feats["null item"] = true
		return scalar([]string{"null", "~", "Null"}[r.Intn(3)], false), true
	}
	switch t.Kind() {
	case reflect.String:
		if b.leaf() {
			return b.wrong("string", wrongSeq, wrongMap)
		}
		b.fill(v, depth, true)
		if s := v.String(); s != "" && strings.Trim(s, "abcdefghijklmnopqrstuvwxyz") == "" && !resolvesElsewhere(s) {
			return scalar(s, false)
		}
		if r.Intn(6) == 0 { // numbers are texts, too
			v.SetString("12")
			return scalar("12", false)
		}
		return scalar(v.String(), true)
	case reflect.Bool:
		if b.leaf() {
			return b.wrong("bool", wrongSeq, wrongMap, scalar("2", false), scalar("word", false))
		}
		b.fill(v, depth, true)
		return scalar(strconv.FormatBool(v.Bool()), false)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if b.leaf() {
			over := new(big.Int).Lsh(big.NewInt(1), uint(t.Bits()-1))
			under := new(big.Int).Sub(new(big.Int).Neg(over), big.NewInt(1))
			return b.wrong("integer", wrongSeq, wrongMap, scalar("word", false), scalar("1.5", false), scalar(over.String(), false), scalar(under.String(), false))
		}
		b.fill(v, depth, true)
		return scalar(strconv.FormatInt(v.Int(), 10), false)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if b.leaf() {
			over := new(big.Int).Lsh(big.NewInt(1), uint(t.Bits()))
			return b.wrong("unsigned integer", wrongSeq, wrongMap, scalar("word", false), scalar("1.5", false), scalar("-1", false), scalar(over.String(), false))
		}
		b.fill(v, depth, true)
		return scalar(strconv.FormatUint(v.Uint(), 10), false)
	case reflect.Float32, reflect.Float64:
		if b.leaf() {
			return b.wrong("float", wrongSeq, wrongMap, scalar("word", false), scalar("true", false))
		}
		b.fill(v, depth, true)
		x := v.Float()
		switch {
		case math.IsNaN(x):
			return scalar(".nan", false)
		case math.IsInf(x, 1):
			return scalar(".inf", false)
		case math.IsInf(x, -1):
			return scalar("-.inf", false)
		}
		return scalar(strconv.FormatFloat(x, 'g', -1, t.Bits()), false)
	case reflect.Slice:
		if n, ok := null(); ok {
			return n
		}
		if b.leaf() {
			return b.wrong("sequence", scalar("word", false), wrongMap)
		}
		n := &yaml.Node{Kind: yaml.SequenceNode, Style: b.style()}
		s := reflect.MakeSlice(t, 0, 0)
		if depth > 0 {
			for i := r.Intn(2 + b.size); i > 0; i-- {
				x := reflect.New(t.Elem()).Elem()
				n.Content = append(n.Content, b.build(x, depth-1, false))
				s = reflect.Append(s, x)
			}
		}
		v.Set(s)
		return n
	case reflect.Array:
		if b.leaf() {
			return b.wrong("sequence", scalar("word", false), wrongMap)
		}
		n := &yaml.Node{Kind: yaml.SequenceNode, Style: b.style()}
		want := v.Len()
		switch r.Intn(5) {
		case 0:
			if want > 0 {
				want--
			}
		case 1:
			want += 1 + r.Intn(3)
		}
		for i := 0; i < want; i++ {
			if i < v.Len() {
				// null leaves an item of an array that is no pointer unspecified
				n.Content = append(n.Content, b.build(v.Index(i), depth-1, t.Elem().Kind() != reflect.Pointer))
			} else {
				b.feats["additional array items"] = true
				m, u := b.misfit, b.unknown
				b.misfit = -5 // not read
				n.Content = append(n.Content, b.build(reflect.New(t.Elem()).Elem(), depth-1, false))
				b.misfit, b.unknown = m, u
			}
		}
		return n
	case reflect.Map:
		if n, ok := null(); ok {
			return n
		}
		if b.leaf() {
			return b.wrong("mapping", scalar("word", false), wrongSeq)
		}
		n := &yaml.Node{Kind: yaml.MappingNode, Style: b.style()}
		m := reflect.MakeMap(t)
		if depth > 0 {
			for i := r.Intn(2 + b.size); i > 0; i-- {
				k := reflect.New(t.Key()).Elem()
				kn := b.key(k)
				if kn == nil || m.MapIndex(k).IsValid() {
					continue
				}
				x := reflect.New(t.Elem()).Elem()
				n.Content = append(n.Content, kn, b.build(x, depth-1, false))
				m.SetMapIndex(k, x)
			}
		}
		v.Set(m)
		return n
	case reflect.Pointer:
		if n, ok := null(); ok {
			return n
		}
		if depth <= 0 && !fieldPos {
			v.Set(reflect.Zero(t))
			return scalar("null", false)
		}
		if v.IsNil() {
			v.Set(reflect.New(t.Elem()))
		}
		// a null below a pointer is read as nil pointer
		return b.build(v.Elem(), depth, true)
	case reflect.Interface:
		x := b.anyValue(2)
		v.Set(reflect.ValueOf(x))
		return b.anyNode(x)
	case reflect.Struct:
		if n, ok := null(); ok {
			return n
		}
		if b.leaf() {
			return b.wrong("mapping", scalar("word", false), wrongSeq)
		}
		n := &yaml.Node{Kind: yaml.MappingNode, Style: b.style()}
		fs := b.e.fields(t)
		have := map[string]bool{}
		for _, f := range fs {
			have[f.key] = true
		}
		unknown := func() {
			if b.noUnkown || r.Intn(4) > 0 {
				return
			}
			names := []string{"zz", "unknown key", "0", "false", "<", "null", "~"}
			for i := 0; i < t.NumField(); i++ {
				f := t.Field(i)
				names = append(names, f.Name, strings.ToLower(f.Name), strings.ToUpper(f.Name), f.Name+"x")
				names = append(names, strings.Split(f.Tag.Get("yaml"), ",")[0], f.Tag.Get("json"))
			}
			for _, f := range fs {
				names = append(names, strings.ToUpper(f.key), f.key+" ", f.key+"2")
			}
			k := names[r.Intn(len(names))]
			if k == "" && r.Intn(3) > 0 {
				k = "zz"
			}
			if have[k] || !printable(k) || k == "<<" {
				return
			}
			have[k] = true
			b.unknown++
			b.feats["unknown key"] = true
			n.Content = append(n.Content, scalar(k, true), b.anyNode([]any{nil, 1, "text", map[string]any{"a": []any{1}}, []any{}, b.anyValue(2)}[r.Intn(6)]))
		}
		for _, i := range r.Perm(len(fs)) {
			f := fs[i]
			unknown()
			kn := scalar(f.key, f.key == "<<" || resolvesElsewhere(f.key) || r.Intn(2) == 0)
			if !printable(f.key) || strings.Trim(f.key, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_") != "" {
				kn = scalar(f.key, true)
			}
			switch r.Intn(7) {
			case 0:
				b.feats["missing key"] = true
			case 1:
				b.feats["null key"] = true
				f.get(v, true) // an inlined pointer is allocated as soon as one of its keys appears
				n.Content = append(n.Content, kn, scalar([]string{"null", "~", "Null"}[r.Intn(3)], false))
			default:
				if depth <= 0 && heavy(f.typ) {
					continue
				}
				fv, _ := f.get(v, true)
				n.Content = append(n.Content, kn, b.build(fv, depth-1, true))
			}
		}
		unknown()
		if len(n.Content) == 0 {
			n.Style = yaml.FlowStyle
		}
		return n
	}
	panic("harness: cannot build " + t.String())
}

func heavy(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Pointer, reflect.Struct, reflect.Slice, reflect.Map:
		return t != timeType
	}
	return false
}

func printable(s string) bool {
	for _, r := range s {
		if !unicode.IsPrint(r) {
			return false
		}
	}
	return true
}

// key draws a map key.
func (b *builder) key(k reflect.Value) *yaml.Node {
	if own(k.Type(), documentedType) {
		m := b.misfit
		b.misfit = -5
		n := b.build(k, 1, true)
		b.misfit = m
		return n
	}
	m := b.misfit
	b.misfit = -5
	defer func() { b.misfit = m }()
	b.fill(k, 1, true)
	if hasNaN(k) {
		return nil
	}
	switch k.Kind() {
	case reflect.String:
		return scalar(k.String(), true)
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return scalar(Show(k), false)
	case reflect.Float32, reflect.Float64:
		if n := b.build(k, 1, true); !hasNaN(k) {
			return n
		}
	}
	return nil
}

// ---- running ----

// Failure describes a violation.
type Failure struct {
	Entry, Value, Doc, Message string
	Seed                       int64
	Size                       int
}

// Result is what the program prints.
type Result struct {
	Evaluations int
	Hashes      []uint64
	Labels      map[string]int
	Samples     []string
	Failure     *Failure
}

type run struct {
	res  Result
	seen map[uint64]bool
}

func (r *run) note(sample string, nontrivial bool) {
	r.res.Evaluations++
	if !nontrivial {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(sample))
	if s := h.Sum64(); !r.seen[s] {
		r.seen[s] = true
		r.res.Hashes = append(r.res.Hashes, s)
		if n := len(r.seen); (n == 20 || n == 200) && len(sample) < 1500 {
			r.res.Samples = append(r.res.Samples, sample)
		}
	}
}

// Main runs a mode over all entries: os.Args are mode, seed and number of values per entry.
func Main(entries []Entry) {
	mode := os.Args[1]
	seed, _ := strconv.ParseInt(os.Args[2], 10, 64)
	count, _ := strconv.Atoi(os.Args[3])
	for i := range entries {
		targets[reflect.TypeOf(entries[i].New()).Elem()] = true
	}
	r := &run{seen: map[uint64]bool{}}
	r.res.Labels = map[string]int{}
	// small values of all types first, so that the first failure found is a small one
	for _, size := range []int{0, 1, 2, 4} {
		for i := range entries {
			for k := 0; k < count && r.res.Failure == nil; k++ {
				s := seed*1000003 + int64(i)*7919 + int64(size)*104729 + int64(k)
				r.res.Failure = r.one(mode, entries, i, s, size)
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(r.res)
}

func (r *run) one(mode string, entries []Entry, i int, seed int64, size int) (f *Failure) {
	e := &entries[i]
	var value, doc string
	defer func() {
		if p := recover(); p != nil {
			if s := fmt.Sprint(p); strings.HasPrefix(s, "harness:") || strings.HasPrefix(s, "reflect") {
				panic(fmt.Sprintf("harness: %v", p))
			}
			f = &Failure{Message: fmt.Sprintf("panic: %v", p)}
		}
		if f != nil {
			f.Entry, f.Value, f.Doc, f.Seed, f.Size = e.String(), value, doc, seed, size
		}
	}()
	rng := rand.New(rand.NewSource(seed))
	fl := &filler{e: e, r: rng, size: size}
	depth := 2 + size/2
	v := reflect.ValueOf(e.New()).Elem()
	switch mode {
	case "c17", "c23":
		fl.fill(v, depth+2, false)
		value = Show(v)
		if msg := r.roundTrip(mode, entries, e, v, &doc); msg != "" {
			return &Failure{Message: msg}
		}
		r.note(e.String()+" "+value, len(value) > 12)
	case "c18":
		if seed%2 == 0 && len(os.Args) < 5 {
			fl.deepNil = true
			fl.fill(v, depth+2, false)
			value = Show(v)
			data, err := e.marshal(v.Addr().Interface())
			if err != nil {
				return &Failure{Message: fmt.Sprintf("cannot marshal: %v", err)}
			}
			doc = string(data)
			var n yaml.Node
			if err := yaml.Unmarshal(data, &n); err != nil {
				return &Failure{Message: fmt.Sprintf("yaml.v3 cannot read the document: %v", err)}
			}
			if d := e.reads(n.Content[0], v, false); d != "" {
				return &Failure{Message: d}
			}
			r.res.Labels["written"]++
			r.note(e.String()+" writes "+value, len(value) > 12)
			return nil
		}
		fl.fill(v, depth, false)
		value = Show(v)
		b := &builder{filler: fl, feats: map[string]bool{}, misfit: -5}
		if rng.Intn(4) == 0 {
			b.misfit = rng.Intn(6)
			b.noUnkown = true
		}
		want := clone(v)
		n := b.build(want, depth, true)
		data, err := yaml.Marshal(n)
		if err != nil {
			panic("harness: " + err.Error())
		}
		doc = string(data)
		p := v.Addr().Interface()
		err = e.unmarshal(data, p)
		for k := range b.feats {
			r.res.Labels[k]++
		}
		r.note(fmt.Sprintf("%s holding %s reads %q", e, value, doc), len(doc) > 8)
		switch {
		case b.misfits != "":
			r.res.Labels["misfit"]++
			if err == nil {
				return &Failure{Message: fmt.Sprintf("a value which is no %s is accepted: the value becomes %s", b.misfits, Show(v))}
			}
			return nil
		case e.Disallow && b.unknown > 0:
			r.res.Labels["disallowed"]++
			if err == nil {
				return &Failure{Message: "an unknown key is accepted: the value becomes " + Show(v)}
			}
			return nil
		case err != nil:
			return &Failure{Message: fmt.Sprintf("cannot unmarshal: %v", err)}
		}
		r.res.Labels["read"]++
		if d := e.diff(want, v, e.Omitempty); d != "" {
			return &Failure{Message: fmt.Sprintf("the value becomes %s, want %s\ndifference: %s", Show(v), Show(want), d)}
		}
	case "c19":
		t := v.Type()
		r.note(e.String(), true)
		value = t.String()
		if msg := e.methods(t); msg != "" {
			return &Failure{Message: msg}
		}
	default:
		panic("harness: mode " + mode)
	}
	return nil
}

func (e *Entry) methods(t reflect.Type) string {
	marshal, unmarshal := reflect.TypeOf((*yaml.Marshaler)(nil)).Elem(), reflect.TypeOf((*yaml.Unmarshaler)(nil)).Elem()
	if e.Engine == "yayamls" {
		marshal, unmarshal = reflect.TypeOf((*yayMarshaler)(nil)).Elem(), reflect.TypeOf((*yayUnmarshaler)(nil)).Elem()
	}
	p := reflect.PointerTo(t)
	for _, m := range []struct {
		iface reflect.Type
		value bool // promised for the value, too
		what  string
	}{
		{marshal, !e.PtrRecv, "engine marshaler"}, {unmarshal, false, "engine unmarshaler"},
		{reflect.TypeOf((*yamly.MarshalerYamly)(nil)).Elem(), !e.PtrRecv, "yamly.MarshalerYamly"},
		{reflect.TypeOf((*yamly.UnmarshalerYamly)(nil)).Elem(), false, "yamly.UnmarshalerYamly"},
	} {
		if !p.Implements(m.iface) {
			return fmt.Sprintf("*%s does not implement the %s", t, m.what)
		}
		if t.Implements(m.iface) != m.value {
			return fmt.Sprintf("%s implements the %s: %v, want %v", t, m.what, !m.value, m.value)
		}
	}
	return ""
}

func (r *run) roundTrip(mode string, entries []Entry, e *Entry, v reflect.Value, doc *string) string {
	before := Show(v)
	want := clone(v)
	e.written(want)
	p := v.Addr().Interface()
	type way struct {
		name string
		f    func() ([]byte, error)
	}
	ways := []way{{"MarshalYAML", func() ([]byte, error) { return e.marshal(p) }}}
	if m, ok := v.Interface().(yaml.Marshaler); ok && e.Engine == "goyaml" && !nullish(v) {
		ways = append(ways, way{"yaml.Marshal of the value", func() ([]byte, error) { return yaml.Marshal(m) }})
	}
	m, ok := p.(yamly.MarshalerYamly)
	if !ok {
		return fmt.Sprintf("%T does not implement yamly.MarshalerYamly", p)
	}
	for _, eng := range []string{"yayamls", "goyaml"} {
		if eng != e.Engine && mode == "c17" {
			continue
		}
		ways = append(ways, way{"MarshalYamly with an encoder of " + eng, func() ([]byte, error) {
			enc := encoderOf(eng)
			m.MarshalYamly(enc)
			return enc.EncodeToBytes()
		}})
	}
	for _, w := range ways {
		data, err := w.f()
		if err != nil {
			return fmt.Sprintf("%s: cannot marshal: %v", w.name, err)
		}
		*doc = string(data)
		if now := Show(v); now != before {
			return fmt.Sprintf("%s: marshalling changed the value to %s", w.name, now)
		}
		var n yaml.Node
		if err := yaml.Unmarshal(data, &n); err != nil {
			return fmt.Sprintf("%s: yaml.v3 cannot read the document: %v", w.name, err)
		}
		if d := e.reads(n.Content[0], v, false); d != "" {
			return w.name + ": " + d
		}
		readers := []*Entry{e}
		if mode == "c23" {
			for i := range entries {
				if o := &entries[i]; o.Type == e.Type && o.Pkg != e.Pkg && o.Inline == e.Inline {
					readers = append(readers, o)
				}
			}
		}
		for _, o := range readers {
			ds := []string{"", o.Engine}
			if mode == "c23" {
				ds = []string{"", "yayamls", "goyaml"}
			}
			for _, d := range ds {
				back := reflect.ValueOf(o.New()).Elem()
				how := o.String() + " UnmarshalYAML"
				var err error
				if d == "" {
					err = o.unmarshal(data, back.Addr().Interface())
				} else {
					how = o.String() + " UnmarshalYamly with a decoder of " + d
					var in yamly.Decoder
					if in, err = decoderOf(d, data); err == nil {
						back.Addr().Interface().(yamly.UnmarshalerYamly).UnmarshalYamly(in)
						err = in.Error()
					}
				}
				if err != nil {
					return fmt.Sprintf("%s, %s: cannot unmarshal: %v", w.name, how, err)
				}
				r.res.Labels["read back"]++
				var diff string
				if o == e {
					diff = e.diff(want, back, e.Omitempty)
				} else if a, b := Show(want), Show(back); a != b {
					diff = crossDiff(e, o, want, back)
				}
				if diff != "" {
					return fmt.Sprintf("%s, %s: the value becomes %s, want %s\ndifference: %s", w.name, how, Show(back), Show(want), diff)
				}
			}
		}
	}
	return ""
}

// crossDiff compares values of the same declaration in two packages by writing them with one code.
func crossDiff(e, o *Entry, want, back reflect.Value) string {
	conv := reflect.New(want.Type()).Elem()
	if !convert(conv, back) {
		panic("harness: types of two packages differ")
	}
	both := *e
	both.Omitempty = e.Omitempty || o.Omitempty
	return both.diff(want, conv, true)
}

func addressable(v reflect.Value) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	return c
}

func convert(dst, v reflect.Value) bool {
	t := dst.Type()
	dst, v = rw(dst), rw(v)
	if v.Type() == t {
		dst.Set(v)
		return true
	}
	if t.Kind() != v.Kind() {
		return false
	}
	switch t.Kind() {
	case reflect.Struct:
		if t.NumField() != v.NumField() {
			return false
		}
		for i := 0; i < t.NumField(); i++ {
			if !convert(dst.Field(i), v.Field(i)) {
				return false
			}
		}
	case reflect.Pointer:
		if v.IsNil() {
			return true
		}
		dst.Set(reflect.New(t.Elem()))
		return convert(dst.Elem(), v.Elem())
	case reflect.Slice:
		if v.IsNil() {
			return true
		}
		dst.Set(reflect.MakeSlice(t, v.Len(), v.Len()))
		for i := 0; i < v.Len(); i++ {
			if !convert(dst.Index(i), v.Index(i)) {
				return false
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if !convert(dst.Index(i), v.Index(i)) {
				return false
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return true
		}
		dst.Set(reflect.MakeMap(t))
		for it := v.MapRange(); it.Next(); {
			k, x := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			if !convert(k, addressable(it.Key())) || !convert(x, addressable(it.Value())) {
				return false
			}
			dst.SetMapIndex(k, x)
		}
	default:
		dst.Set(v.Convert(t))
	}
	return true
}
