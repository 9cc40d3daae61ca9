package props

import (
	"encoding/base64"
	"fmt"
	"math"
	"math/big"
	"strings"
	"time"

	"errors"

	"github.com/KSpaceer/yamly"
	gschema "github.com/KSpaceer/yamly/engines/goyaml/schema"
	pschema "github.com/KSpaceer/yamly/engines/pkg/schema"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	yschema "github.com/KSpaceer/yamly/engines/yayamls/schema"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
)

// The oracle: a hand written recognizer of the YAML core schema.

func digitsOf(s string, set string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !strings.Contains(set, s[i:i+1]) {
			return false
		}
	}
	return true
}

const dec = "0123456789"

// oInt returns the integer denoted by s in the core schema.
func oInt(s string) (*big.Int, bool) {
	v := new(big.Int)
	switch {
	case strings.HasPrefix(s, "0o") && digitsOf(s[2:], "01234567"):
		v.SetString(s[2:], 8)
		return v, true
	case strings.HasPrefix(s, "0x") && digitsOf(s[2:], dec+"abcdefABCDEF"):
		v.SetString(s[2:], 16)
		return v, true
	}
	body, neg := s, false
	if strings.HasPrefix(s, "+") || strings.HasPrefix(s, "-") {
		body, neg = s[1:], s[0] == '-'
	}
	if !digitsOf(body, dec) {
		return nil, false
	}
	v.SetString(body, 10)
	if neg {
		v.Neg(v)
	}
	return v, true
}

// oFloat classifies s: kind 0 no float, 1 finite (rat is the exact value), 2 +inf, 3 -inf, 4 nan
func oFloat(s string) (kind int, rat *big.Rat, negZero bool) {
	switch s {
	case ".inf", ".Inf", ".INF", "+.inf", "+.Inf", "+.INF":
		return 2, nil, false
	case "-.inf", "-.Inf", "-.INF":
		return 3, nil, false
	case ".nan", ".NaN", ".NAN":
		return 4, nil, false
	}
	body, neg := s, false
	if strings.HasPrefix(s, "+") || strings.HasPrefix(s, "-") {
		body, neg = s[1:], s[0] == '-'
	}
	exp := 0
	if i := strings.IndexAny(body, "eE"); i >= 0 {
		e := body[i+1:]
		body = body[:i]
		es := 1
		if strings.HasPrefix(e, "+") || strings.HasPrefix(e, "-") {
			if e[0] == '-' {
				es = -1
			}
			e = e[1:]
		}
		if !digitsOf(e, dec) {
			return 0, nil, false
		}
		for _, c := range e {
			exp = exp*10 + int(c-'0')
			if exp > 100000 {
				exp = 100000
			}
		}
		exp *= es
	}
	ip, fp, dot := strings.Cut(body, ".")
	switch {
	case ip == "" && !digitsOf(fp, dec):
		return 0, nil, false
	case ip != "" && !digitsOf(ip, dec):
		return 0, nil, false
	case dot && fp != "" && !digitsOf(fp, dec):
		return 0, nil, false
	}
	mant, _ := new(big.Int).SetString(ip+fp, 10)
	if mant.Sign() == 0 {
		return 1, new(big.Rat), neg
	}
	exp -= len(fp)
	// keep the exact value small: outside of these bounds the result is 0 or overflows anyway
	if exp > 5000 {
		exp = 5000
	}
	if exp < -5000-len(ip) {
		exp = -5000 - len(ip)
	}
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(exp))), nil)
	r := new(big.Rat).SetInt(mant)
	if exp >= 0 {
		r.Mul(r, new(big.Rat).SetInt(p))
	} else {
		r.Quo(r, new(big.Rat).SetInt(p))
	}
	if neg {
		r.Neg(r)
	}
	return 1, r, neg
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func oNull(s string) bool { return s == "" || s == "~" || s == "null" || s == "Null" || s == "NULL" }

func oBool(s string) (v, ok bool) {
	switch s {
	case "true", "True", "TRUE":
		return true, true
	case "false", "False", "FALSE":
		return false, true
	}
	return false, false
}

// scalarText generates texts on and around the border of the core schema.
func scalarText() *rapid.Generator[string] {
	digits := func(t *rapid.T, set string, max int) string {
		n := rapid.IntRange(1, max).Draw(t, "n")
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteByte(set[rapid.IntRange(0, len(set)-1).Draw(t, "d")])
		}
		return sb.String()
	}
	base := rapid.Custom(func(t *rapid.T) string {
		switch rapid.IntRange(0, 11).Draw(t, "base") {
		case 0:
			return pick(t, "word", "null", "Null", "NULL", "~", "", "true", "True", "TRUE", "false", "False", "FALSE",
				"nULL", "tRUE", "yes", "no", "on", "off", "y", "n", "~~", "nul", "nulll", "<<", "none", "TrUe")
		case 1:
			return pick(t, "special", ".inf", ".Inf", ".INF", "-.inf", "+.Inf", "-.INF", ".nan", ".NaN", ".NAN", ".Nan",
				"+.nan", "-.nan", ".iNf", "inf", "nan", "Infinity", "+inf", "NaN", "..inf", "-.Inf")
		case 2:
			return pick(t, "sign", "", "+", "-") + digits(t, dec, 22)
		case 3:
			return "0o" + digits(t, "01234567", 23)
		case 4:
			return "0x" + digits(t, dec+"abcdefABCDEF", 17)
		case 5:
			f := pick(t, "sign", "", "+", "-")
			switch rapid.IntRange(0, 3).Draw(t, "form") {
			case 0:
				f += "." + digits(t, dec, 20)
			case 1:
				f += digits(t, dec, 20)
			case 2:
				f += digits(t, dec, 20) + "."
			default:
				f += digits(t, dec, 20) + "." + digits(t, dec, 20)
			}
			if rapid.Bool().Draw(t, "exp") {
				f += pick(t, "e", "e", "E") + pick(t, "es", "", "+", "-") + digits(t, dec, 3)
			}
			return f
		case 6: // around the limits of integer sizes
			bits := pick(t, "bits", 7, 8, 15, 16, 31, 32, 63, 64)
			v := new(big.Int).Lsh(big.NewInt(1), uint(bits))
			v.Add(v, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(t, "delta"))))
			switch rapid.IntRange(0, 4).Draw(t, "form") {
			case 0:
				return "0x" + v.Text(16)
			case 1:
				return "0o" + v.Text(8)
			case 2:
				return "-" + v.Text(10)
			case 3:
				return pick(t, "zeros", "+", "0", "00", "-0") + v.Text(10)
			default:
				return v.Text(10)
			}
		case 7: // shortest texts of floats of all magnitudes
			f := math.Float64frombits(rapid.Uint64().Draw(t, "bits"))
			return fmt.Sprintf(pick(t, "verb", "%g", "%e", "%f", "%E"), f)
		case 8: // around the limits and midpoints of float32
			f := float64(math.Float32frombits(rapid.Uint32().Draw(t, "bits32")))
			return big.NewFloat(nz(f)).Text('g', rapid.IntRange(5, 30).Draw(t, "prec"))
		case 9:
			return pick(t, "foreign", "0b11", "1_000", "0x1p-2", "0X1f", "0O17", "017", "1:30", "190:20:30", "+0x1f",
				"-0o17", "0x", "0o", "0o8", "+", "-", ".", "-.", "+.", "e5", "1e", "1e+", ".e5", "1.e5", "1 ", " 1", "1\n",
				"1,000", "１", "٣", "0x1.8", "1e5.5", "--1", "+-1", "1-", "1.2.3", "0o17.", "-0", "+0", "0", "00", "-0.0",
				"0e0", "1e400", "-1e400", "1e-400", "4.9e-324", "1.7976931348623157e308", "1.7976931348623159e308",
				"3.4028235e38", "3.4028236e38", "1e-46", "16777217", "9007199254740993", "true ", "\tnull")
		case 10:
			return digits(t, "0123456789+-.eEoxXabfINinftrue~_: ", 6)
		default:
			return digits(t, "01.eE+-", 8)
		}
	})
	return rapid.Custom(func(t *rapid.T) string {
		s := base.Draw(t, "base")
		switch rapid.IntRange(0, 9).Draw(t, "mutate") {
		case 0:
			if len(s) > 0 {
				i := rapid.IntRange(0, len(s)-1).Draw(t, "at")
				s = s[:i] + s[i+1:]
			}
		case 1:
			i := rapid.IntRange(0, len(s)).Draw(t, "at")
			s = s[:i] + pick(t, "ins", "+", "-", ".", "e", "E", "0", "_", "x", "o", "a", " ", "\n", "9", "f", "I") + s[i:]
		}
		return s
	})
}

func nz(f float64) float64 {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return 1.5
	}
	return f
}

func fits(v *big.Int, bits int, signed bool) bool {
	lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), uint(bits))
	if signed {
		hi.Rsh(hi, 1)
		lo.Neg(hi)
	}
	return v.Cmp(lo) >= 0 && v.Cmp(hi) < 0
}

// nearest returns the float nearest to the exact value and whether it overflows the size.
func nearest(kind int, r *big.Rat, neg bool, bits int) (float64, bool) {
	switch kind {
	case 2:
		return math.Inf(1), false
	case 3:
		return math.Inf(-1), false
	case 4:
		return math.NaN(), false
	}
	if r.Sign() == 0 {
		if neg {
			return math.Copysign(0, -1), false
		}
		return 0, false
	}
	if bits == 32 {
		f, _ := r.Float32()
		if math.IsInf(float64(f), 0) {
			return 0, true
		}
		if f == 0 && neg {
			return math.Copysign(0, -1), false
		}
		return float64(f), false
	}
	f, _ := r.Float64()
	if math.IsInf(f, 0) {
		return 0, true
	}
	if f == 0 && neg {
		return math.Copysign(0, -1), false
	}
	return f, false
}

func sameFloat(a, b float64) bool {
	return a == b && math.Signbit(a) == math.Signbit(b) || a != a && b != b
}

// drawTimestamp builds a text in one of the supported forms together with the instant it denotes.
func drawTimestamp(t *rapid.T) (string, time.Time) {
	y, mo := intn(t, "y", 0, 9999), intn(t, "mo", 1, 12)
	if chance(t, "modern", 1, 2) {
		y = intn(t, "y2", 1960, 2040)
	}
	last := time.Date(y, time.Month(mo)+1, 0, 0, 0, 0, 0, time.UTC).Day()
	d := intn(t, "d", 1, last)
	h, mi, s := intn(t, "h", 0, 23), intn(t, "mi", 0, 59), intn(t, "s", 0, 59)
	two := func(v int) string {
		if rapid.Bool().Draw(t, "pad") {
			return fmt.Sprintf("%02d", v)
		}
		return fmt.Sprint(v)
	}
	frac, ns := "", 0
	if rapid.Bool().Draw(t, "frac") {
		n := intn(t, "fdig", 1, 9)
		v := intn(t, "fv", 0, int(math.Pow10(n))-1)
		frac = fmt.Sprintf(".%0*d", n, v)
		ns = v * int(math.Pow10(9-n))
	}
	zone := func(z bool) (string, *time.Location) {
		if z && rapid.Bool().Draw(t, "Z") {
			return "Z", time.UTC
		}
		hh, mm := intn(t, "zh", 0, 14), pick(t, "zm", 0, 30, 45, 59)
		sign, off := "+", hh*3600+mm*60
		if rapid.Bool().Draw(t, "zneg") {
			sign, off = "-", -off
		}
		return fmt.Sprintf("%s%02d:%02d", sign, hh, mm), time.FixedZone("", off)
	}
	date := fmt.Sprintf("%04d", y)
	switch intn(t, "form", 0, 4) {
	case 0:
		return fmt.Sprintf("%s-%02d-%02d", date, mo, d), time.Date(y, time.Month(mo), d, 0, 0, 0, 0, time.UTC)
	case 1:
		return date + "-" + two(mo) + "-" + two(d), time.Date(y, time.Month(mo), d, 0, 0, 0, 0, time.UTC)
	case 2:
		z, loc := zone(true)
		return date + "-" + two(mo) + "-" + two(d) + "T" + two(h) + ":" + two(mi) + ":" + two(s) + frac + z,
			time.Date(y, time.Month(mo), d, h, mi, s, ns, loc)
	case 3:
		z, loc := zone(false)
		return date + "-" + two(mo) + "-" + two(d) + "t" + two(h) + ":" + two(mi) + ":" + two(s) + frac + z,
			time.Date(y, time.Month(mo), d, h, mi, s, ns, loc)
	default:
		return date + "-" + two(mo) + "-" + two(d) + " " + two(h) + ":" + two(mi) + ":" + two(s) + frac,
			time.Date(y, time.Month(mo), d, h, mi, s, ns, time.UTC)
	}
}

// badTimestamp builds a text which looks like a timestamp but is none.
func badTimestamp(t *rapid.T) string {
	switch intn(t, "bad", 0, 8) {
	case 0:
		return fmt.Sprintf("%04d-%02d-%02d", intn(t, "y", 0, 9999), intn(t, "m", 13, 99), intn(t, "d", 1, 28))
	case 1:
		return fmt.Sprintf("%04d-%02d-%02d", intn(t, "y", 0, 9999), intn(t, "m", 1, 12), intn(t, "d", 32, 99))
	case 2:
		return fmt.Sprintf("%04d-02-%02d", pick(t, "y", 1900, 2001, 2023, 2100), intn(t, "d", 29, 31))
	case 3:
		return fmt.Sprintf("2001-01-01T%02d:%02d:%02dZ", intn(t, "h", 24, 99), intn(t, "m", 0, 59), intn(t, "s", 0, 59))
	case 4:
		return fmt.Sprintf("2001-01-01T12:%02d:00Z", intn(t, "m", 60, 99))
	case 5:
		return fmt.Sprintf("2001-01-01T12:00:%02dZ", intn(t, "s", 60, 99))
	case 6:
		s, _ := drawTimestamp(t)
		return s + pick(t, "tail", "x", " ", "\n", "-", "00:00:00")
	case 7:
		return fmt.Sprintf("%d-%d-%d", intn(t, "y", 10000, 99999), intn(t, "m", 1, 12), intn(t, "d", 1, 28))
	default:
		return pick(t, "w", "2001-00-10", "2001-10-00", "2001-1", "2001", "01-01-2001", "2001/01/01", "2001-01-01T", "12:00:00",
			"T12:00:00Z", "", "now", "2001-1-1 1", "2001-Jan-02")
	}
}

func init() {
	reg("C01", "classify", "texts on and around the borders of the YAML core schema, judged by a hand written recognizer "+
		"with exact big-number arithmetic; non-trivial: the text is a number, boolean or null, or one edit away from one",
		60000, 1500000, func(t *rapid.T, c *ctx) {
			s := scalarText().Draw(t, "text")
			c.Case("text %q", s)
			c.Nontrivial(true)
			iv, isInt := oInt(s)
			fk, fr, fneg := oFloat(s)
			bv, isBool := oBool(s)
			isUint := isInt && !strings.HasPrefix(s, "-")
			yn := ast.NewTextNode(s, ast.WithQuotingType(ast.AbsentQuotingType))
			gn := &yaml.Node{Kind: yaml.ScalarNode, Value: s}
			chk := func(what string, want bool, got ...bool) {
				for i, g := range got {
					if g != want {
						c.Failf("%s(%q) is %v for schema %d, want %v", what, s, g, i, want)
					}
				}
			}
			chk("IsNull", oNull(s), pschema.IsNull(s), yschema.IsNull(yn))
			chk("IsBoolean", isBool, pschema.IsBoolean(s), yschema.IsBoolean(yn), gschema.IsBoolean(gn))
			chk("IsInteger", isInt, pschema.IsInteger(s), yschema.IsInteger(yn), gschema.IsInteger(gn))
			chk("IsUnsignedInteger", isUint, pschema.IsUnsignedInteger(s), yschema.IsUnsignedInteger(yn),
				gschema.IsUnsignedInteger(gn))
			chk("IsFloat", fk != 0, pschema.IsFloat(s), yschema.IsFloat(yn), gschema.IsFloat(gn))
			for _, q := range []ast.QuotingType{ast.SingleQuotingType, ast.DoubleQuotingType} {
				chk("IsNull of quoted", false, yschema.IsNull(ast.NewTextNode(s, ast.WithQuotingType(q))))
			}
			chk("IsMergeKey", s == "<<", yschema.IsMergeKey(yn), gschema.IsMergeKey(gn))
			if isBool {
				c.Label("bool")
				for _, f := range []func(string) (bool, error){pschema.ToBoolean, yschema.ToBoolean, gschema.ToBoolean} {
					if v, err := f(s); err != nil || v != bv {
						c.Failf("ToBoolean(%q) = %v, %v", s, v, err)
					}
				}
			} else if v, err := pschema.ToBoolean(s); err == nil {
				c.Failf("ToBoolean(%q) = %v without error", s, v)
			}
			bits := pick(t, "bits", 8, 16, 32, 64)
			if isInt {
				c.Label("int")
				for _, f := range []func(string, int) (int64, error){pschema.ToInteger, yschema.ToInteger, gschema.ToInteger} {
					v, err := f(s, bits)
					if fits(iv, bits, true) {
						if err != nil || big.NewInt(v).Cmp(iv) != 0 {
							c.Failf("ToInteger(%q, %d) = %d, %v, want %s", s, bits, v, err, iv)
						}
					} else if err == nil {
						c.Failf("ToInteger(%q, %d) = %d without error, but the value is %s", s, bits, v, iv)
					}
				}
			}
			if isUint {
				c.Label("uint")
				for _, f := range []func(string, int) (uint64, error){
					pschema.ToUnsignedInteger, yschema.ToUnsignedInteger, gschema.ToUnsignedInteger,
				} {
					v, err := f(s, bits)
					if fits(iv, bits, false) {
						if err != nil || new(big.Int).SetUint64(v).Cmp(iv) != 0 {
							c.Failf("ToUnsignedInteger(%q, %d) = %d, %v, want %s", s, bits, v, err, iv)
						}
					} else if err == nil {
						c.Failf("ToUnsignedInteger(%q, %d) = %d without error, but the value is %s", s, bits, v, iv)
					}
				}
			}
			if fk != 0 {
				c.Label("float")
				fb := pick(t, "fbits", 32, 64)
				want, over := nearest(fk, fr, fneg, fb)
				for _, f := range []func(string, int) (float64, error){pschema.ToFloat, yschema.ToFloat, gschema.ToFloat} {
					v, err := f(s, fb)
					if over {
						if err == nil {
							c.Failf("ToFloat(%q, %d) = %v without error, but the value overflows", s, fb, v)
						}
					} else if err != nil || !sameFloat(v, want) {
						c.Failf("ToFloat(%q, %d) = %v, %v, want %v", s, fb, v, err, want)
					}
				}
			}
		})

	reg("C01", "refuse", "the same texts given as quoted scalars to typed reads of both decoders: a read succeeds exactly if "+
		"the hand written recognizer says the text denotes a value of the type and size, with exactly this value; non-trivial: all",
		30000, 600000, func(t *rapid.T, c *ctx) {
			s := scalarText().Draw(t, "text")
			e := pick(t, "engine", 0, 1)
			what := pick(t, "read", "int", "uint", "bool", "float", "time")
			bits := pick(t, "bits", 8, 16, 32, 64)
			c.Case("%s %s(%d) of %q", engines[e].name, what, bits, s)
			c.Nontrivial(true)
			r, err := engines[e].reader([]byte(safeDouble(s)))
			if err != nil {
				c.Failf("cannot read: %v", err)
			}
			var want, got any
			ok := false
			iv, isInt := oInt(s)
			switch what {
			case "int":
				got = r.Integer(bits)
				if ok = isInt && fits(iv, bits, true); ok {
					want = iv.Int64()
				} else {
					want = int64(0)
				}
			case "uint":
				got = r.Unsigned(bits)
				if ok = isInt && !strings.HasPrefix(s, "-") && fits(iv, bits, false); ok {
					want = iv.Uint64()
				} else {
					want = uint64(0)
					if isInt && strings.HasPrefix(s, "-") && iv.Sign() == 0 {
						return // -0 read as unsigned: either answer is fine
					}
				}
			case "bool":
				got = r.Boolean()
				want, ok = func() (any, bool) { v, ok := oBool(s); return v, ok }()
			case "float":
				if bits < 32 {
					bits = 32
				}
				got = r.Float(bits)
				fk, fr, fneg := oFloat(s)
				want = float64(0)
				if fk != 0 {
					f, over := nearest(fk, fr, fneg, bits)
					if ok = !over; ok {
						want = f
					}
				}
			case "time":
				got = r.Timestamp()
				want = time.Time{}
				ok = false // none of the texts is a timestamp
				if pschema.IsTimestamp(s) {
					c.Failf("%q is said to be a timestamp", s)
				}
			}
			if ok {
				c.Label("accepted")
			} else {
				c.Label("refused")
			}
			if (r.Error() == nil) != ok || !same(want, got) {
				c.Failf("got %v, error %v; want %v, success %v", got, r.Error(), want, ok)
			}
		})

	reg("C01", "timestamps", "constructed timestamps in every documented form (date, short date, T/t/space separated, fractions, "+
		"zones) with the instant they denote, and near misses (impossible dates and times, trailing garbage); non-trivial: all",
		30000, 600000, func(t *rapid.T, c *ctx) {
			if chance(t, "bad", 1, 3) {
				s := badTimestamp(t)
				c.Case("bad %q", s)
				c.Nontrivial(true)
				c.Label("bad")
				if pschema.IsTimestamp(s) {
					c.Failf("%q is said to be a timestamp", s)
				}
				if v, err := pschema.ToTimestamp(s); err == nil {
					c.Failf("ToTimestamp(%q) = %v without error", s, v)
				}
				for _, e := range engines {
					r, err := e.reader([]byte(safeDouble(s)))
					if err != nil {
						c.Failf("%s: %v", e.name, err)
					}
					if v := r.Timestamp(); !v.IsZero() || !errors.Is(r.Error(), yamly.ErrDenied) {
						c.Failf("%s reads %q as %v, error %v", e.name, s, v, r.Error())
					}
				}
				return
			}
			s, want := drawTimestamp(t)
			c.Case("good %q", s)
			c.Nontrivial(true)
			c.Label("good")
			yn := ast.NewTextNode(s, ast.WithQuotingType(ast.AbsentQuotingType))
			if !pschema.IsTimestamp(s) || !yschema.IsTimestamp(yn) ||
				!gschema.IsTimestamp(&yaml.Node{Kind: yaml.ScalarNode, Value: s}) {
				c.Failf("%q is not recognized as a timestamp", s)
			}
			for _, f := range []func(string) (time.Time, error){pschema.ToTimestamp, yschema.ToTimestamp, gschema.ToTimestamp} {
				if v, err := f(s); err != nil || !v.Equal(want) {
					c.Failf("ToTimestamp(%q) = %v, %v, want %v", s, v, err, want)
				}
			}
			for _, e := range engines {
				r, err := e.reader([]byte(s))
				if err != nil {
					c.Failf("%s: %v", e.name, err)
				}
				if v := r.Timestamp(); r.Error() != nil || !v.Equal(want) {
					c.Failf("%s reads %q as %v, error %v, want %v", e.name, s, v, r.Error(), want)
				}
				if a, err := anyOf(e, []byte(s)); err != nil || !same(a, want) {
					c.Failf("%s Any of %q is %v, error %v, want %v", e.name, s, a, err, want)
				}
			}
		})

	reg("C01", "binary", "base64 encodings of random bytes, in one piece or split into lines at multiples of four characters, and the same with one wrong, missing or added character: "+
		"recognized as binary exactly if every line decodes with the standard encoding; non-trivial: all",
		15000, 600000, func(t *rapid.T, c *ctx) {
			b := rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes")
			s := base64.StdEncoding.EncodeToString(b)
			switch intn(t, "change", 0, 5) {
			case 0:
				if s != "" {
					i := intn(t, "at", 0, len(s)-1)
					s = s[:i] + s[i+1:]
				}
			case 1:
				i := intn(t, "at", 0, len(s))
				s = s[:i] + pick(t, "add", "=", "A", "-", "_", "*", "é", ".", "/", "+", "~", "9") + s[i:]
			case 2:
				if s != "" {
					i := intn(t, "at", 0, len(s)-1)
					s = s[:i] + pick(t, "put", "=", "Z", "-", "_", "*", ",", "/", "+", ":", "@", "[", "`", "{") + s[i+1:]
				}
			}
			if rapid.Bool().Draw(t, "split") {
				var sb strings.Builder
				sb.WriteString(pick(t, "lead", "", "", "\n", " "))
				for len(s) > 4 && chance(t, "cut", 3, 4) {
					n := 4 * intn(t, "len", 1, len(s)/4)
					sb.WriteString(s[:n] + pick(t, "sep", "\n", " ", "\n  ", "\t", "\n\n"))
					s = s[n:]
				}
				s = sb.String() + s + pick(t, "tail", "", "\n")
			}
			want := true
			for _, l := range strings.Fields(s) {
				_, err := base64.StdEncoding.DecodeString(l)
				want = want && err == nil
			}
			c.Case("%q", s)
			c.Nontrivial(true)
			if want {
				c.Label("binary")
			}
			yn := ast.NewTextNode(s)
			gn := &yaml.Node{Kind: yaml.ScalarNode, Value: s, Tag: "!!str"}
			for i, got := range []bool{pschema.IsBinary(s), yschema.IsBinary(yn), gschema.IsBinary(gn)} {
				if got != want {
					c.Failf("IsBinary(%q) is %v for schema %d", s, got, i)
				}
			}
		})
	reg("C01", "roundtrip", "random Go booleans, integers, floats (all bit patterns) and times converted to text and back with "+
		"the conversions of all three schema packages; non-trivial: all",
		60000, 1500000, func(t *rapid.T, c *ctx) {
			c.Nontrivial(true)
			switch intn(t, "kind", 0, 4) {
			case 0:
				v := rapid.Int64().Draw(t, "v")
				c.Case("int %d", v)
				for i, s := range []string{pschema.FromInteger(v), yschema.FromInteger(v), gschema.FromInteger(v)} {
					got, err := pschema.ToInteger(s, 64)
					if err != nil || got != v || !pschema.IsInteger(s) || pschema.IsTimestamp(s) {
						c.Failf("schema %d: %q -> %v, %v", i, s, got, err)
					}
				}
			case 1:
				v := rapid.Uint64().Draw(t, "v")
				c.Case("uint %d", v)
				for i, s := range []string{pschema.FromUnsignedInteger(v), yschema.FromUnsignedInteger(v), gschema.FromUnsignedInteger(v)} {
					got, err := pschema.ToUnsignedInteger(s, 64)
					if err != nil || got != v || !pschema.IsUnsignedInteger(s) {
						c.Failf("schema %d: %q -> %v, %v", i, s, got, err)
					}
				}
			case 2:
				v := rapid.Bool().Draw(t, "v")
				c.Case("bool %v", v)
				for i, s := range []string{pschema.FromBoolean(v), yschema.FromBoolean(v), gschema.FromBoolean(v)} {
					got, err := pschema.ToBoolean(s)
					if err != nil || got != v || !pschema.IsBoolean(s) {
						c.Failf("schema %d: %q -> %v, %v", i, s, got, err)
					}
				}
			case 3:
				v := math.Float64frombits(rapid.Uint64().Draw(t, "bits"))
				bits := 64
				switch intn(t, "fkind", 0, 4) {
				case 0:
					v = pick(t, "special", 0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64,
						math.SmallestNonzeroFloat64, -math.MaxFloat64, 1, -1, 0.1, 1e21, 1e20, 1e-7, 123456789, 1.5)
				case 1:
					v = float64(math.Float32frombits(rapid.Uint32().Draw(t, "bits32")))
					bits = 32
				case 2:
					v = rapid.Float64().Draw(t, "f")
				}
				c.Case("float %v (%x)", v, math.Float64bits(v))
				for i, s := range []string{pschema.FromFloat(v), yschema.FromFloat(v), gschema.FromFloat(v)} {
					got, err := pschema.ToFloat(s, bits)
					if err != nil || !sameFloat(got, v) || !pschema.IsFloat(s) || pschema.IsInteger(s) {
						c.Failf("schema %d: %q -> %v, %v", i, s, got, err)
					}
				}
			default:
				_, v := drawTimestamp(t)
				c.Case("time %v", v)
				for i, s := range []string{pschema.FromTimestamp(v), yschema.FromTimestamp(v), gschema.FromTimestamp(v)} {
					got, err := pschema.ToTimestamp(s)
					if err != nil || !got.Equal(v) || !pschema.IsTimestamp(s) {
						c.Failf("schema %d: %q -> %v, %v", i, s, got, err)
					}
					_, o1 := v.Zone()
					_, o2 := got.Zone()
					if o1 != o2 {
						c.Failf("schema %d: %q: offset %d became %d", i, s, o1, o2)
					}
				}
			}
		})
}
