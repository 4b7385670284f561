package props

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"
	"unsafe"

	"github.com/lestrrat-go/jsval"

	"verif/core"
	"verif/model"
)

type (
	myFloat64 float64
	myFloat32 float32
	myInt     int
	myInt8    int8
	myUint16  uint16
	myUint64  uint64
	myString  string
	myBool    bool
	myStr2    myString
)

type stringerT struct{ s string }

func (s stringerT) String() string { return s.s }

// notNumbers are values of every other kind.
func notNumbers() []interface{} {
	var np *float64
	var ni *int
	var e error
	f := 1.0
	pf := &f
	return []interface{}{
		nil, true, false, "", "1", "1.0", json.Number("1"), json.RawMessage("1"), []byte("1"), []interface{}{}, []interface{}{1.0}, []float64{1},
		map[string]interface{}{}, map[string]float64{"a": 1}, struct{}{}, struct{ F float64 }{1}, complex(1, 0), complex64(1), make(chan int), func() {}, np, ni, e,
		[1]float64{1}, &struct{}{}, &pf, time.Unix(1, 0), myString("1"), new(string), new(bool), new([]int), unsafe.Pointer(&f), reflect.ValueOf(1.0), stringerT{"1"}, jsval.MaybeFloat{},
	}
}

// goInts lists Go integer renderings of the integral float f.
func goInts(r *core.Rng, f float64) []interface{} {
	var l []interface{}
	if f != math.Trunc(f) {
		return nil
	}
	if f >= -(1<<63) && f < 1<<63 {
		i := int64(f)
		l = append(l, i, &i, int(i), myInt(i))
		ii := int(i)
		l = append(l, &ii)
		if i >= math.MinInt32 && i <= math.MaxInt32 {
			x := int32(i)
			l = append(l, x, &x)
		}
		if i >= math.MinInt16 && i <= math.MaxInt16 {
			l = append(l, int16(i))
		}
		if i >= math.MinInt8 && i <= math.MaxInt8 {
			l = append(l, int8(i), myInt8(i))
		}
	}
	if f >= 0 && f < 1<<64 {
		u := uint64(f)
		l = append(l, u, &u, uint(u), uintptr(u), myUint64(u))
		if u <= math.MaxUint32 {
			l = append(l, uint32(u))
		}
		if u <= math.MaxUint16 {
			x := uint16(u)
			l = append(l, x, myUint16(x), &x)
		}
		if u <= math.MaxUint8 {
			l = append(l, uint8(u))
		}
	}
	return l
}

// goFloats lists Go floating-point renderings and the float64 they denote.
func goFloats(f float64) (l []interface{}, d []float64) {
	g := f
	l = append(l, f, &g, myFloat64(f))
	d = append(d, f, f, f)
	f32 := float32(f)
	if !math.IsInf(float64(f32), 0) && f32 != 0 {
		x := f32
		l = append(l, f32, &x, myFloat32(f32))
		d = append(d, float64(f32), float64(f32), float64(f32))
	}
	return
}

func init() {
	register(&core.Prop{ID: "C01", Quick: 6, Level: "exploration",
		Rule:        "number/integer constraints with random subsets of the rules declared in random order; each reused for a history of boundary-directed values (bounds, neighbouring floats, multiples, enum members and their neighbours) in every Go rendering; non-trivial = a validated (constraint, value) pair with at least one rule or a special representation",
		Assumptions: []string{"NaN and infinities are outside the property", "negative zero is not generated"},
		Run: func(r *core.Run) {
			nn := notNumbers()
			sizeStage(r, "enum_number", "enum_integer", "enum_unsorted")
			r.Cases("model", r.N(60000, 1500000), func(c *core.Case) {
				kind := core.Pick(c.Rng, []model.Kind{model.Number, model.Integer})
				s := &model.Spec{Kind: kind}
				model.GenNumberRules(c.Rng, s)
				if s.Enum != nil && c.Rng.Bool() { // members given as other Go types
					for i, e := range s.Enum {
						f, isnum := e.(float64)
						if !isnum {
							continue
						}
						if l := goEnumForms(f); len(l) > 0 {
							s.Enum[i] = core.Pick(c.Rng, l)
						}
					}
				}
				b := &model.Builder{Rng: c.Rng}
				v := newRoot(c.Rng, b.Build(s))
				what := func(x interface{}) func() string {
					return func() string { return fmt.Sprintf("constraint: %s\nvalue: (%T) %v", s, x, deref(x)) }
				}
				for i := 0; i < 8; i++ {
					f := model.GenNumFor(c.Rng, s)
					l, d := goFloats(f)
					k := c.Rng.Intn(len(l))
					want := model.EvalNumber(s, d[k])
					if !expect(c, v, l[k], verdictOf(want), what(l[k])) {
						return
					}
					c.Eval(key(s, l[k], i))
					if ints := goInts(c.Rng, f); len(ints) > 0 {
						x := core.Pick(c.Rng, ints)
						w := false
						if kind == model.Integer {
							w = model.EvalNumber(s, intToFloat(x))
						}
						if !expect(c, v, x, verdictOf(w), what(x)) {
							return
						}
						c.Count("go_integers", 1)
						c.Eval(key(s, fmt.Sprintf("%T", x), deref(x)))
					}
					if c.Rng.P(1, 4) {
						x := core.Pick(c.Rng, nn)
						if !expect(c, v, x, model.Reject, what(x)) {
							return
						}
						c.Eval(key(s, fmt.Sprintf("%T", x)))
						c.Count("other_kinds", 1)
					}
				}
				c.Sample(s.String())
			})
			// every rule around its boundary, on its own
			r.Cases("boundary", r.N(4000, 60000), func(c *core.Case) {
				kind := core.Pick(c.Rng, []model.Kind{model.Number, model.Integer})
				bnd := model.GenNum(c.Rng)
				if kind == model.Integer && c.Rng.P(2, 3) {
					bnd = math.Trunc(bnd)
				}
				for variant := 0; variant < 8; variant++ {
					s := &model.Spec{Kind: kind}
					switch variant {
					case 0, 1:
						s.Min, s.ExMin = model.FP(bnd), variant == 1
					case 2, 3:
						s.Max, s.ExMax = model.FP(bnd), variant == 3
					case 4, 5:
						s.Min, s.Max = model.FP(bnd), model.FP(bnd)
						s.ExMin = variant == 5
					case 6:
						s.Enum = []interface{}{bnd}
					case 7:
						s.MultipleOf = model.FP(bnd)
					}
					v := (&model.Builder{Rng: c.Rng}).Build(s)
					for _, x := range []float64{bnd, math.Nextafter(bnd, math.Inf(1)), math.Nextafter(bnd, math.Inf(-1)), bnd + 1, bnd - 1, bnd * 2, bnd * 3, bnd / 2, bnd + 0.5, -bnd, 0, 1, -1} {
						if math.IsInf(x, 0) || x == 0 && math.Signbit(x) {
							continue
						}
						if !expect(c, v, x, verdictOf(model.EvalNumber(s, x)), show(s, nil, x)) {
							return
						}
						c.Eval(key(s, x))
					}
				}
			})
		}})

	register(&core.Prop{ID: "C02", Quick: 12, Level: "exploration",
		Rule:        "string constraints with random subsets of the rules declared in random order, each reused for a history of strings aimed at the rules (length bound -1/0/+1 in one- to four-byte characters, matching and non-matching, members and near-members) as string, named string type or pointer; non-trivial = validated pair with at least one rule",
		Assumptions: []string{"strings are valid UTF-8", "the oracle uses Go's regexp engine with its own compiled expression"},
		Run: func(r *core.Run) {
			sizeStage(r, "enum_string", "enum_string_unsorted", "length", "long_member")
			var nilstr *string
			str := "a"
			pstr := &str
			others := []interface{}{nil, true, 1.0, 1, uint8(97), 'a', []byte("a"), []rune("a"), []string{"a"}, []interface{}{"a"}, map[string]interface{}{}, struct{ S string }{"a"}, nilstr, &pstr, fmt.Errorf("a"), stringerT{"a"}, complex(1, 1), make(chan string), func() string { return "a" }, [1]string{"a"}, jsval.MaybeString{String: "a"}, json.RawMessage(`"a"`), new(int), time.Now}
			r.Cases("model", r.N(60000, 1500000), func(c *core.Case) {
				s := model.GenKind(c.Rng, model.String, model.GenOpts{})
				v := newRoot(c.Rng, (&model.Builder{Rng: c.Rng}).Build(s))
				trivial := s.String() == "String"
				for i := 0; i < 8; i++ {
					x, ok := model.GenValue(c.Rng, s, nil, 0).(string)
					if !ok {
						x = model.GenString(c.Rng)
					}
					want := model.EvalString(s, x)
					var g interface{} = x
					switch c.Rng.Intn(6) {
					case 0:
						g = myString(x)
					case 1:
						y := x
						g = &y
					case 2:
						y := myStr2(x)
						g = &y
					}
					if !expect(c, v, g, want, show(s, nil, x)) {
						return
					}
					if trivial {
						c.Eval("")
					} else {
						c.Eval(key(s, x))
					}
					if c.Rng.P(1, 5) {
						o := core.Pick(c.Rng, others)
						if !expect(c, v, o, model.Reject, func() string { return fmt.Sprintf("constraint: %s\nvalue of type %T", s, o) }) {
							return
						}
						c.Count("other_kinds", 1)
					}
				}
				c.Sample(s.String())
			})
			r.Cases("lengths", r.N(3000, 40000), func(c *core.Case) {
				n := core.Pick(c.Rng, []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 1024, 4095, 4096, 65535, 65536, c.Rng.Intn(500)})
				unit := core.Pick(c.Rng, []string{"a", "é", "日", "😀", "e\u0301", "\x00", "\n", "\u200b", " ", "aé日😀", "\ufffd"})
				ul := model.StrLen(unit)
				s := &model.Spec{Kind: model.String}
				switch c.Rng.Intn(4) {
				case 0:
					s.MinLen = model.IP(n)
				case 1:
					s.MaxLen = model.IP(n)
				case 2:
					s.MinLen, s.MaxLen = model.IP(n), model.IP(n)
				case 3:
					s.MinLen, s.MaxLen = model.IP(n), model.IP(n+c.Rng.Intn(3))
				}
				v := (&model.Builder{Rng: c.Rng}).Build(s)
				for d := -2; d <= 3; d++ {
					k := n + d
					if k < 0 {
						continue
					}
					x := strings.Repeat(unit, k/ul) + strings.Repeat("b", k%ul)
					if !expect(c, v, x, model.EvalString(s, x), func() string { return fmt.Sprintf("constraint: %s\nvalue: %d times %q", s, k/ul, unit) }) {
						return
					}
					c.Eval(key(s, unit, k))
				}
			})
		}})

	register(&core.Prop{ID: "C03", Quick: 8, Level: "exploration",
		Rule:        "string constraints with a format (alone or with length rules) on generated well-formed values, values one edit away from well-formed, and hand-made edge cases, judged by independent grammars; unknown format names must accept anything; non-trivial = pair with a definite verdict",
		Assumptions: []string{"spellings on which parsers of the same grammar legitimately differ (leap seconds, lower-case t/z, quoted mail addresses, IPv6 zones, percent escapes in hosts and queries) are left open"},
		Run: func(r *core.Run) {
			r.Cases("formats", r.N(120000, 3000000), func(c *core.Case) {
				f := core.Pick(c.Rng, model.Formats)
				s := &model.Spec{Kind: model.String, Format: f}
				if c.Rng.P(1, 8) {
					s.MinLen = model.IP(c.Rng.Intn(12))
				}
				if c.Rng.P(1, 8) {
					s.MaxLen = model.IP(c.Rng.Range(5, 60))
				}
				v := newRoot(c.Rng, (&model.Builder{Rng: c.Rng}).Build(s))
				for i := 0; i < 6; i++ {
					x := model.GenFormat(c.Rng, f)
					if c.Rng.P(1, 20) {
						x = model.GenFormat(c.Rng, core.Pick(c.Rng, model.Formats))
					}
					want := model.EvalString(s, x)
					var g interface{} = x
					if c.Rng.P(1, 10) {
						g = myString(x)
					}
					if !expect(c, v, g, want, show(s, nil, x)) {
						return
					}
					if want == model.Unknown {
						c.Eval("")
						continue
					}
					c.Count(f+"_"+want.String(), 1)
					c.Eval(key(s, x))
				}
			})
			r.Cases("unknown_formats", r.N(5000, 100000), func(c *core.Case) {
				f := core.Pick(c.Rng, model.UnknownFormats)
				if c.Rng.P(1, 3) {
					f = model.GenString(c.Rng)
					for _, k := range model.Formats {
						if f == k {
							f = "x"
						}
					}
				}
				v := newRoot(c.Rng, jsval.String().Format(f))
				x := model.GenString(c.Rng)
				if c.Rng.Bool() {
					x = model.GenFormat(c.Rng, core.Pick(c.Rng, model.Formats))
				}
				if !expect(c, v, x, model.Accept, func() string { return fmt.Sprintf("format %q value %q", f, x) }) {
					return
				}
				c.Eval(key(f, x))
			})
			// the whole corpus against each format, in one history per constraint
			r.Cases("cross", r.N(200, 5000), func(c *core.Case) {
				f := model.Formats[c.Idx%len(model.Formats)]
				v := jsval.String().Format(f)
				for i := 0; i < 60; i++ {
					x := model.GenFormat(c.Rng, core.Pick(c.Rng, model.Formats))
					if !expect(c, v, x, model.FormatVerdict(f, x), func() string { return fmt.Sprintf("format %q value %q", f, x) }) {
						return
					}
					c.Eval(key(f, x))
				}
			})
		}})
}

func verdictOf(b bool) model.Verdict {
	if b {
		return model.Accept
	}
	return model.Reject
}

func goEnumForms(f float64) []interface{} {
	l := []interface{}{f}
	if f == math.Trunc(f) && math.Abs(f) < 1<<53 {
		l = append(l, int(f), int64(f))
		if math.Abs(f) < 100 {
			l = append(l, int8(f), int16(f), int32(f), float32(f))
		}
		if f >= 0 {
			l = append(l, uint(f), uint64(f))
		}
	}
	return l
}

func deref(x interface{}) interface{} {
	rv := reflect.ValueOf(x)
	if rv.Kind() == reflect.Ptr && !rv.IsNil() {
		return rv.Elem().Interface()
	}
	return x
}

func intToFloat(x interface{}) float64 {
	rv := reflect.ValueOf(x)
	if rv.Kind() == reflect.Ptr {
		rv = rv.Elem()
	}
	if rv.CanInt() {
		return float64(rv.Int())
	}
	return float64(rv.Uint())
}
