package props

import (
	"fmt"
	"math/big"
	"strings"

	"pgregory.net/rapid"
)

// boundaryInt draws an integer near the borders of the Go integer types.
func boundaryInt(t *rapid.T) *big.Int {
	v := new(big.Int)
	switch intn(t, "ik", 0, 5) {
	case 0:
		v.SetInt64(int64(intn(t, "small", 0, 300)))
	case 1:
		v.SetUint64(rapid.Uint64().Draw(t, "u"))
	default:
		v.Lsh(big.NewInt(1), uint(pick(t, "bits", 6, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 52, 53, 54, 62, 63, 64, 65, 66, 70)))
		v.Add(v, big.NewInt(int64(intn(t, "off", -3, 3))))
	}
	if rapid.Bool().Draw(t, "neg") {
		v.Neg(v)
	}
	return v
}

func spellInt(t *rapid.T, v *big.Int) string {
	sign := ""
	a := new(big.Int).Abs(v)
	if v.Sign() < 0 {
		sign = "-"
	} else if chance(t, "plus", 1, 8) {
		sign = "+"
	}
	if sign == "" {
		switch intn(t, "base", 0, 5) {
		case 0:
			if rapid.Bool().Draw(t, "upper") {
				return "0x" + strings.ToUpper(a.Text(16))
			}
			return "0x" + a.Text(16)
		case 1:
			return "0o" + a.Text(8)
		}
	}
	zeros := ""
	if chance(t, "zeros", 1, 12) {
		zeros = strings.Repeat("0", intn(t, "nz", 1, 3))
	}
	return sign + zeros + a.String()
}

// numberText draws a spelling of a number: integers near the borders of the types, fractions, exponents, infinities.
func numberText(t *rapid.T) string {
	switch intn(t, "nk", 0, 9) {
	case 0, 1, 2, 3, 4:
		return spellInt(t, boundaryInt(t))
	case 5: // a whole number written as a float
		return boundaryInt(t).String() + pick(t, "frac", ".", ".0", ".00", "e0", ".0e0", "E+0")
	case 6: // fractions
		return boundaryInt(t).String() + "." + fmt.Sprint(intn(t, "f", 0, 999))
	case 7: // around the borders of the float types
		return pick(t, "sg", "", "-", "+") + pick(t, "m", "1", "3.4028235", "3.4028236", "3.40282356", "1.17549435", "1.4", "0.7", "1.7976931348623157", "1.7976931348623159", "4.9", "2.4", "9.999") +
			pick(t, "e", "e", "E") + pick(t, "x", "38", "+38", "39", "-38", "-45", "-46", "308", "309", "-308", "-323", "-324", "-325", "0", "7", "-7", "1000", "-1000")
	case 8: // halfway cases of float32 and float64
		base := new(big.Int).Lsh(big.NewInt(1), uint(pick(t, "hb", 24, 25, 26, 53, 54, 60)))
		base.Add(base, big.NewInt(int64(intn(t, "ho", -5, 5))))
		return base.String() + pick(t, "hf", "", ".0", ".5", ".25", ".000000000000000000001", ".499999999999999999999")
	default:
		return pick(t, "special", ".inf", "-.inf", "+.inf", ".Inf", "-.INF", ".nan", ".NaN", ".NAN", "0", "-0", "0.0", "-0.0", "0x0", "0o0", ".5", "-.5", "5.", "+.25e1", "1_000", "0b1", "0x", "1e", "--1", "1.2.3", "0x1.8p1", "1e-", "٣")
	}
}

func init() {
	reg("C13", "numbers", "documents of one to five spelled numbers near the borders of all Go number types (decimal, hexadecimal, octal, signed, with fraction and exponent, halfway cases), plain or quoted, "+
		"read in turn as integers, unsigned integers and floats of all bit sizes by both engines; the oracle is exact arithmetic: the exact integer or the nearest float, or an error when it does not fit, "+
		"the zero value with the error; non-trivial: always",
		150000, 10000000, func(t *rapid.T, c *ctx) {
			n := intn(t, "n", 1, 5)
			type read struct {
				text, what string
				bits       int
			}
			var reads []read
			var parts []string
			for i := 0; i < n; i++ {
				r := read{text: numberText(t), what: pick(t, "what", "int", "uint", "float")}
				r.bits = pick(t, "bits", 8, 16, 32, 64)
				if r.what == "float" {
					r.bits = pick(t, "fbits", 32, 64)
				}
				reads = append(reads, r)
				q := pick(t, "q", "", "", "'", "\"")
				parts = append(parts, q+r.text+q)
			}
			var doc string
			mapping := false
			switch intn(t, "shape", 0, 2) {
			case 0:
				doc = "[" + strings.Join(parts, ", ") + "]"
			case 1:
				doc = "- " + strings.Join(parts, "\n- ") + "\n"
			default:
				mapping = true
				for i, p := range parts {
					doc += fmt.Sprintf("k%d: %s\n", i, p)
				}
			}
			c.Case("%s read as %v", doc, reads)
			c.Nontrivial(true)
			for _, e := range engines {
				d, err := e.reader([]byte(doc))
				if err != nil {
					c.Failf("%s: %v", e.name, err)
				}
				if mapping {
					d.Mapping()
				} else {
					d.Sequence()
				}
				for i, r := range reads {
					if mapping {
						d.String()
					}
					if d.Error() != nil {
						c.Failf("%s before number %d: %v", e.name, i, d.Error())
					}
					iv, isInt := oInt(r.text)
					var got, want any
					ok := false
					switch r.what {
					case "int":
						got, want = d.Integer(r.bits), int64(0)
						if ok = isInt && fits(iv, r.bits, true); ok {
							want = iv.Int64()
						}
					case "uint":
						if isInt && strings.HasPrefix(r.text, "-") && iv.Sign() == 0 {
							return // -0 as unsigned: either answer is fine
						}
						got, want = d.Unsigned(r.bits), uint64(0)
						if ok = isInt && fits(iv, r.bits, false); ok {
							want = iv.Uint64()
						}
					default:
						got, want = d.Float(r.bits), float64(0)
						if k, rat, neg := oFloat(r.text); k != 0 {
							f, over := nearest(k, rat, neg, r.bits)
							if ok = !over; ok {
								want = f
							}
						}
					}
					if !same(got, want) || (d.Error() == nil) != ok {
						c.Failf("%s: %s(%d) of %s gives %v (%v), want %v, success %v", e.name, r.what, r.bits, r.text, got, d.Error(), want, ok)
					}
					if !ok {
						c.Label("refused " + r.what)
						break
					}
					c.Label(fmt.Sprintf("%s%d", r.what, r.bits))
				}
			}
		})
	reg("C13", "generic", "the same spellings read generically by both engines: an integer result is exactly the number, a float result the nearest double, a string result the text itself; "+
		"integers which fit 64 bits are never floats; non-trivial: the text is a number",
		60000, 4000000, func(t *rapid.T, c *ctx) {
			text := numberText(t)
			where := intn(t, "where", 0, 2)
			doc := text
			if where == 1 {
				doc = "[" + text + "]"
			} else if where == 2 {
				doc = "k: " + text
			}
			c.Case("%s", doc)
			iv, isInt := oInt(text)
			k, rat, neg := oFloat(text)
			c.Nontrivial(isInt || k != 0)
			for _, e := range engines {
				got, err := anyOf(e, []byte(doc))
				if err != nil {
					if isInt && !fits(iv, 64, true) && !fits(iv, 64, false) {
						c.Label("refused") // a number that fits nothing may be refused
						continue
					}
					if k != 0 {
						if _, over := nearest(k, rat, neg, 64); over {
							c.Label("refused")
							continue
						}
					}
					c.Failf("%s: %v", e.name, err)
				}
				if where == 1 {
					got = got.([]any)[0]
				} else if where == 2 {
					got = got.(map[string]any)["k"]
				}
				switch g := got.(type) {
				case int64, uint64, int:
					if !isInt || fmt.Sprint(g) != iv.String() {
						c.Failf("%s reads %s as %v", e.name, text, g)
					}
				case float64:
					if isInt && (fits(iv, 64, true) || fits(iv, 64, false)) {
						c.Failf("%s reads %s as the float %v", e.name, text, g)
					}
					if k == 0 {
						c.Failf("%s reads %s as the float %v", e.name, text, g)
					}
					if want, over := nearest(k, rat, neg, 64); !over && !same(g, want) {
						c.Failf("%s reads %s as %v, want %v", e.name, text, g, want)
					} else if over && (g < 1.7976931348623157e308 && g > -1.7976931348623157e308) {
						c.Failf("%s reads %s as %v", e.name, text, g)
					}
				case string:
					if g != text {
						c.Failf("%s reads %s as %q", e.name, text, g)
					}
					if isInt && (fits(iv, 64, true) || fits(iv, 64, false)) || k != 0 && !isInt && !overflows(k, rat, neg) {
						c.Failf("%s reads %s as a string", e.name, text)
					}
				default:
					c.Failf("%s reads %s as %T %v", e.name, text, got, got)
				}
			}
		})
}

func overflows(k int, rat *big.Rat, neg bool) bool {
	_, over := nearest(k, rat, neg, 64)
	return over
}
