package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/lestrrat-go/jsval"

	"verif/core"
	"verif/model"
)

// static struct types with embedding

type embA struct {
	A  string `json:"a"`
	B  float64
	hd string
}
type EmbB struct {
	C jsval.MaybeString `json:"c"`
	D bool              `json:"d,omitempty"`
}
type embDeep struct {
	embA
	*EmbB
	E []interface{} `json:"e"`
}
type embShadow struct {
	embA
	A float64 `json:"a"`
}
type embTagged struct {
	EmbB `json:"b"`
	F    string
}
type embStr string
type EmbSlice []interface{}
type EmbNonStruct struct {
	EmbSlice
	*EmbB
	G float64 `json:"g,omitempty"`
}
type embSelf struct {
	*embSelf
	H string `json:"h"`
}
type embOuter struct {
	*embDeep
	I interface{}       `json:"i"`
	J map[string]string `json:"-"`
	K float64           `json:"-,"`
	l string
}
type embHidden struct {
	EmbB `json:"-"`
	M    string `json:"m"`
}
type embOmit struct {
	EmbB `json:",omitempty"`
	N    float64 `json:"n"`
}
type embMulti struct {
	A1
	A2
	O string
}
type embSpread struct {
	p1 string
	P1 string
	x  jsval.MaybeString `json:"a"`
	embSpreadIn
	y  float64 `json:"b"`
	P2 float64 `json:"b"`
	_  int
	R  string `json:"r"`
}
type embSpreadIn struct {
	z string `json:"c"`
	C string `json:"c"`
	w *int
	S float64 `json:"s"`
}
type A1 struct{ P1, P2 string }
type A2 struct {
	P3 float64
	P4 jsval.MaybeInt
}
type A3 struct{ *A1 }
type embPtrs struct {
	*A3
	*A2
	Q *string `json:"q"`
}

func randEmb(r *core.Rng) interface{} {
	s := func() string { return core.Pick(r, []string{"", "a", "foo", "abc"}) }
	f := func() float64 { return float64(r.Range(-3, 3)) }
	ms := func() (m jsval.MaybeString) {
		if r.Bool() {
			m.Set(s())
		}
		return
	}
	a := func() embA { return embA{s(), f(), "h"} }
	b := func() EmbB { return EmbB{ms(), r.Bool()} }
	pb := func() *EmbB {
		if r.Bool() {
			return nil
		}
		x := b()
		return &x
	}
	deep := func() embDeep { return embDeep{a(), pb(), []interface{}{f()}} }
	a2 := func() A2 {
		x := A2{P3: f()}
		if r.Bool() {
			x.P4.Set(r.Range(-2, 5))
		}
		return x
	}
	switch r.Intn(13) {
	case 12:
		return embSpread{"h", s(), ms(), embSpreadIn{"h", s(), nil, f()}, f(), f(), 0, s()}
	case 0:
		return a()
	case 1:
		return b()
	case 2:
		return deep()
	case 3:
		return embShadow{a(), f()}
	case 4:
		return embTagged{b(), s()}
	case 5:
		return EmbNonStruct{EmbSlice{f()}, pb(), f()}
	case 6:
		x := embSelf{nil, s()}
		if r.Bool() {
			return embSelf{&x, s()}
		}
		return x
	case 7:
		d := deep()
		x := embOuter{&d, model.GenJSON(r, 1), nil, f(), "l"}
		if r.P(1, 3) {
			x.embDeep = nil
		}
		return x
	case 8:
		return embHidden{b(), s()}
	case 9:
		return embOmit{b(), f()}
	case 10:
		return embMulti{A1{s(), s()}, a2(), s()}
	}
	x := embPtrs{}
	if r.Bool() {
		x.A3 = &A3{}
		if r.Bool() {
			x.A3.A1 = &A1{s(), s()}
		}
	}
	if r.Bool() {
		y := a2()
		x.A2 = &y
	}
	if r.Bool() {
		y := s()
		x.Q = &y
	}
	return x
}

// selfProps reports its own properties.
type selfProps struct {
	M   map[string]interface{}
	Bad string
}

func (s selfProps) GetPropNames() ([]string, error) {
	var l []string
	for k := range s.M {
		l = append(l, k)
	}
	return l, nil
}
func (s selfProps) GetPropValue(n string) (interface{}, error) {
	if v, ok := s.M[n]; ok {
		return v, nil
	}
	return nil, errors.New("no such property")
}

// selfFails has methods to report its properties, which fail: its fields count.
type selfFails struct {
	A interface{} `json:"a"`
	B interface{} `json:"b,omitempty"`
	C interface{}
	D string
	E jsval.MaybeString `json:"e"`
}

func (selfFails) GetPropNames() ([]string, error) {
	return []string{"zz"}, errors.New("don't know")
}
func (selfFails) GetPropValue(n string) (interface{}, error) {
	return "zz", errors.New("don't know")
}

func addDecl(s *model.Spec, names []string, r *core.Rng) {
	for _, n := range names {
		has := false
		for _, p := range s.Props {
			has = has || p.Name == n
		}
		if !has && r.P(1, 2) {
			s.Props = append(s.Props, model.Prop{Name: n, Spec: model.GenKind(r, core.Pick(r, []model.Kind{model.Empty, model.String, model.Number, model.Integer, model.Bool, model.Array}), model.GenOpts{})})
		}
	}
}

func init() {
	register(&core.Prop{ID: "C10", Quick: 6, Level: "exploration",
		Rule:        "directed JSON objects rendered as pointers to / values of struct types made at run time (tags with and without options, field names, '-', library and user-defined Maybe fields incl. pointers and interfaces, nested structs), judged against the model's verdict for the map and the code's verdict for the map; hand-written embedding zoo compared with an independent flattening; structs that report their own properties; non-trivial = judged (constraint, struct) pair",
		Assumptions: []string{"promoted names are unambiguous", "a JSON number is held as Go float (Number rejects Go integers by design); integer fields are compared with a map holding the same Go integer"},
		Run: func(r *core.Run) {
			r.Cases("twins", r.N(12000, 80000), func(c *core.Case) {
				rg := c.Rng
				o := model.GenOpts{Depth: rg.Range(1, 3)}
				exact := rg.P(1, 3) // enumerations compare Go values
				if !exact {
					o.Kinds = []model.Kind{model.Empty, model.Null, model.Bool, model.String, model.Number, model.Integer, model.Array, model.Object, model.All, model.Any, model.OneOf, model.Not}
				}
				s := model.GenKind(rg, model.Object, o)
				b := &model.Builder{Rng: rg}
				v := newRoot(rg, b.Build(s))
				var absent []string
				for _, p := range s.Props {
					absent = append(absent, p.Name)
				}
				for _, n := range s.Required {
					dup := false
					for _, a := range absent {
						dup = dup || a == n
					}
					if !dup {
						absent = append(absent, n)
					}
				}
				for i := 0; i < 4; i++ {
					m, ok := model.GenValue(rg, s, nil, 3).(map[string]interface{})
					if !ok {
						continue
					}
					t, ok := structTwin(rg, m, absent, 2, exact)
					if !ok {
						continue
					}
					want := model.Eval(s, m, nil)
					what := func() string {
						return fmt.Sprintf("constraint: %s\nmap: %s\nstruct: %+v (%s)", s, model.JSON(m), t.Elem().Interface(), t.Elem().Type())
					}
					forms := []interface{}{t.Interface(), t.Elem().Interface()}
					if rg.Bool() {
						forms[0], forms[1] = forms[1], forms[0]
					}
					for _, f := range forms {
						if !expect(c, v, f, want, what) {
							return
						}
					}
					if !expect(c, v, m, want, what) {
						return
					}
					c.Count("struct_types", 1)
					c.Eval(key(s, t.Elem().Type(), model.JSON(m)))
				}
				c.Sample(s.String())
			})
			r.Cases("namesakes", r.N(4000, 60000), typesCase)
			r.Cases("embedding", r.N(20000, 400000), func(c *core.Case) {
				rg := c.Rng
				s := model.GenKind(rg, model.Object, model.GenOpts{Depth: 1})
				x0 := randEmb(rg)
				all := map[string]bool{}
				for k := range structMap(reflect.ValueOf(x0)) {
					all[k] = true
				}
				for _, n := range []string{"a", "B", "c", "d", "P1", "P4", "b", "embA", "EmbB", "hd", "l", "-"} {
					if rg.P(1, 8) {
						all[n] = true
					}
				}
				addDecl(s, sortedStrings(all), rg)
				if rg.P(1, 3) && len(all) > 0 {
					s.Required = append(s.Required[:0:0], core.Pick(rg, sortedStrings(all)))
				}
				if rg.P(1, 2) {
					s.AddProps = &model.Spec{Kind: model.Empty}
				}
				v := newRoot(rg, (&model.Builder{Rng: rg}).Build(s))
				for i := 0; i < 5; i++ {
					x := x0
					if i > 0 {
						x = randEmb(rg)
					}
					m := structMap(reflect.ValueOf(x))
					what := func() string { return fmt.Sprintf("constraint: %s\nstruct (%T): %+v\nmap: %v", s, x, x, m) }
					wm, ok := validate(c, v, m, what)
					if !ok {
						return
					}
					p := reflect.New(reflect.TypeOf(x))
					p.Elem().Set(reflect.ValueOf(x))
					for _, f := range []interface{}{x, p.Interface()} {
						if !expect(c, v, f, verdictOf(wm.accepted), what) {
							return
						}
					}
					c.Eval(key("e", s, fmt.Sprintf("%+v", m), reflect.TypeOf(x)))
				}
			})
			r.Cases("self", r.N(8000, 150000), func(c *core.Case) {
				rg := c.Rng
				s := model.GenKind(rg, model.Object, model.GenOpts{Depth: 2})
				v := newRoot(rg, (&model.Builder{Rng: rg}).Build(s))
				for i := 0; i < 4; i++ {
					m, ok := model.GenValue(rg, s, nil, 3).(map[string]interface{})
					if !ok {
						continue
					}
					nilv := false
					for _, e := range m {
						nilv = nilv || e == nil
					}
					if nilv {
						continue // a reported nil value is left open
					}
					x := selfProps{M: m, Bad: "M"}
					for _, f := range []interface{}{x, &x} {
						if !expect(c, v, f, model.Eval(s, m, nil), show(s, nil, m)) {
							return
						}
					}
					c.Eval(key("self", s, model.JSON(m)))
				}
			})
			r.Cases("self_fails", r.N(4000, 80000), func(c *core.Case) {
				rg := c.Rng
				s := model.GenKind(rg, model.Object, model.GenOpts{Depth: 1})
				addDecl(s, []string{"a", "b", "C", "D", "e", "zz"}, rg)
				if rg.P(1, 3) {
					s.Required = []string{core.Pick(rg, []string{"a", "b", "C", "D", "e", "e", "zz"})}
				}
				if rg.P(2, 3) {
					s.AddProps = &model.Spec{Kind: model.Empty}
				}
				v := newRoot(rg, (&model.Builder{Rng: rg}).Build(s))
				for i := 0; i < 4; i++ {
					val := func() interface{} {
						return core.Pick(rg, []interface{}{"", "x", 1.0, true, []interface{}{}, map[string]interface{}{}, model.GenString(rg), model.GenNum(rg)})
					}
					x := selfFails{A: val(), B: val(), C: val(), D: model.GenString(rg)}
					m := map[string]interface{}{"a": x.A, "b": x.B, "C": x.C, "D": x.D}
					if rg.Bool() {
						m["e"] = model.GenString(rg)
						x.E.Set(m["e"])
					}
					for _, f := range []interface{}{x, &x} {
						if !expect(c, v, f, model.Eval(s, m, nil), show(s, nil, m)) {
							return
						}
					}
					c.Eval(key("selffails", s, model.JSON(m)))
				}
			})
			r.Cases("wide", len(sizeSweep)*r.N(1, 8), wideStruct)
			r.Cases("zeros", r.N(12000, 150000), zeroFields)
			r.Cases("ints", r.N(8000, 100000), func(c *core.Case) {
				// integer fields and integer Maybes
				rg := c.Rng
				type T struct {
					I  int             `json:"i"`
					U8 uint8           `json:"u8,omitempty"`
					MI jsval.MaybeInt  `json:"mi"`
					MU jsval.MaybeUint `json:"mu,omitempty"`
					MF jsval.MaybeFloat
					P  *int64
				}
				x := T{I: rg.Range(-5, 5), U8: uint8(rg.Intn(9))}
				if rg.Bool() {
					x.MI.Set(rg.Range(-5, 5))
				}
				if rg.Bool() {
					x.MU.Set(uint(rg.Intn(9)))
				}
				if rg.Bool() {
					x.MF.Set(float64(rg.Range(-5, 5)) / 2)
				}
				if rg.Bool() {
					n := int64(rg.Range(-5, 5))
					x.P = &n
				}
				o := jsval.Object()
				for _, n := range []string{"i", "u8", "mi", "mu", "MF", "P"} {
					if rg.P(1, 4) {
						continue
					}
					if rg.P(1, 6) {
						o.AddProp(n, jsval.Number())
						continue
					}
					o.AddProp(n, jsval.Integer().Minimum(float64(rg.Range(-5, 2))).Maximum(float64(rg.Range(0, 9))))
				}
				if rg.Bool() {
					o.AdditionalProperties(core.Pick(rg, []jsval.Constraint{jsval.EmptyConstraint, jsval.Integer()}))
				}
				if rg.P(1, 3) {
					o.MaxProperties(rg.Range(2, 6))
				}
				if rg.P(1, 3) {
					o.Required(core.Pick(rg, []string{"mi", "mu", "MF", "i"}))
				}
				m := structMap(reflect.ValueOf(x))
				what := func() string { return fmt.Sprintf("struct %+v map %v", x, m) }
				wm, ok := validate(c, o, m, what)
				if !ok {
					return
				}
				for _, f := range []interface{}{x, &x} {
					if !expect(c, o, f, verdictOf(wm.accepted), what) {
						return
					}
				}
				c.Eval(key("ints", fmt.Sprintf("%+v", x), c.Idx))
			})
		}})

	register(&core.Prop{ID: "C11", Quick: 40, Level: "exploration",
		Rule:        "random histories (Set of many Go types, Reset, JSON decoding alone and inside structs, JSON encoding, copying, validation of a struct holding it) of every Maybe type against a state model, with the full state compared after every operation; non-trivial = one judged operation",
		Assumptions: []string{"JSON null is left open", "conversions between numeric kinds not named by the statement may fail or convert exactly"},
		Run: func(r *core.Run) {
			r.Cases("histories", r.N(15000, 300000), func(c *core.Case) { maybeHistory(c, c.Idx%6) })
			r.Cases("flag", r.N(500, 5000), func(c *core.Case) {
				var f jsval.ValidFlag
				want := false
				if f.Valid() {
					c.Violate("flag", "a fresh flag is valid")
				}
				for i := 0; i < 10; i++ {
					if c.Rng.Bool() {
						f.Reset()
						want = false
					} else {
						f = true
						want = true
					}
					if f.Valid() != want {
						c.Violate("flag", "Valid() = %v, expected %v", f.Valid(), want)
						return
					}
				}
				c.Eval(key("flag", c.Idx))
			})
		}})
}

type maybeState struct {
	valid bool
	val   interface{}
}

// acceptability of a value for a Maybe type
type setClass int

const (
	mustSet setClass = iota
	mustErr
	open // may fail, or convert exactly
)

// maybeKind describes one Maybe type.
type maybeKind struct {
	name  string
	fresh func() jsval.Maybe
	// classify says what Set(x) must do and the resulting value
	classify func(x interface{}) (setClass, interface{})
	// decode says what JSON decoding must do (json text)
	decode func(js string) (setClass, interface{})
	same   func(a, b interface{}) bool
	gen    func(r *core.Rng) interface{} // an acceptable value
	genJS  func(r *core.Rng) string
}

func numRat(x interface{}) (f float64, isInt bool, i int64, u uint64, ok bool) {
	rv := reflect.ValueOf(x)
	switch {
	case !rv.IsValid():
	case rv.CanInt():
		return float64(rv.Int()), true, rv.Int(), uint64(rv.Int()), true
	case rv.CanUint():
		return float64(rv.Uint()), true, int64(rv.Uint()), rv.Uint(), true
	case rv.CanFloat():
		return rv.Float(), false, 0, 0, true
	}
	return
}

func sameTime(a, b interface{}) bool {
	x, ok1 := a.(time.Time)
	y, ok2 := b.(time.Time)
	return ok1 && ok2 && x.Equal(y)
}

func plainSame(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

var maybeKinds = []maybeKind{
	{"MaybeBool", func() jsval.Maybe { return &jsval.MaybeBool{} },
		func(x interface{}) (setClass, interface{}) {
			if b, ok := x.(bool); ok {
				return mustSet, b
			}
			if b, ok := x.(myBool); ok {
				return open, bool(b)
			}
			return mustErr, nil
		},
		func(js string) (setClass, interface{}) {
			var b bool
			if err := json.Unmarshal([]byte(js), &b); err != nil {
				return mustErr, nil
			}
			return mustSet, b
		}, plainSame,
		func(r *core.Rng) interface{} { return r.Bool() },
		func(r *core.Rng) string {
			return core.Pick(r, []string{"true", "false", " true ", "1", "\"true\"", "tru", "", "[]", "True"})
		}},
	{"MaybeString", func() jsval.Maybe { return &jsval.MaybeString{} },
		func(x interface{}) (setClass, interface{}) {
			if s, ok := x.(string); ok {
				return mustSet, s
			}
			if s, ok := x.(myString); ok {
				return open, string(s)
			}
			return mustErr, nil
		},
		func(js string) (setClass, interface{}) {
			var s string
			if err := json.Unmarshal([]byte(js), &s); err != nil {
				return mustErr, nil
			}
			return mustSet, s
		}, plainSame,
		func(r *core.Rng) interface{} { return longer(r, model.GenString(r)) },
		func(r *core.Rng) string {
			if r.Bool() {
				b, _ := json.Marshal(longer(r, model.GenString(r)))
				return string(b)
			}
			return core.Pick(r, []string{"\"\"", "\"a\\u00e9\\n\"", "1", "true", "\"abc", "abc", "", "{}", "[\"a\"]", "\"\\ud83d\\ude00\""})
		}},
	{"MaybeInt", func() jsval.Maybe { return &jsval.MaybeInt{} },
		func(x interface{}) (setClass, interface{}) {
			switch y := x.(type) {
			case int, int8, int16, int32, int64:
				return mustSet, reflect.ValueOf(x).Int()
			case float64:
				if y == math.Trunc(y) && math.Abs(y) < 1<<62 {
					return mustSet, int64(y)
				}
				return -1, nil
			}
			f, isInt, i, u, ok := numRat(x)
			if !ok {
				return mustErr, nil
			}
			if isInt {
				if reflect.ValueOf(x).CanUint() && u > math.MaxInt64 {
					return mustErr, nil
				}
				return open, i
			}
			if f == math.Trunc(f) && math.Abs(f) < 1<<62 {
				return open, int64(f)
			}
			return -1, nil
		},
		func(js string) (setClass, interface{}) {
			var i int64
			if err := json.Unmarshal([]byte(js), &i); err != nil {
				return mustErr, nil
			}
			return mustSet, i
		}, plainSame,
		func(r *core.Rng) interface{} {
			i := core.Pick(r, []int64{0, 1, -1, 127, -128, math.MaxInt64, math.MinInt64, int64(r.Range(-1000, 1000)), 1 << 53, 1<<53 + 1})
			switch r.Intn(6) {
			case 0:
				return int(i)
			case 1:
				return int8(i)
			case 2:
				return int16(i)
			case 3:
				return int32(i)
			case 4:
				return float64(r.Range(-100000, 100000))
			}
			return i
		},
		func(r *core.Rng) string {
			return core.Pick(r, []string{"0", "1", "-1", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "1.5", "1e3", "\"1\"", "true", "", "{}", "0x10", "9007199254740993", " 5 ", "-", "1 2", fmt.Sprint(r.Range(-9999, 9999))})
		}},
	{"MaybeUint", func() jsval.Maybe { return &jsval.MaybeUint{} },
		func(x interface{}) (setClass, interface{}) {
			switch y := x.(type) {
			case uint, uint8, uint16, uint32, uint64:
				return mustSet, reflect.ValueOf(x).Uint()
			case float64:
				if y == math.Trunc(y) && y >= 0 && y < 1<<63 {
					return mustSet, uint64(y)
				}
				return -1, nil
			}
			f, isInt, i, u, ok := numRat(x)
			if !ok {
				return mustErr, nil
			}
			if isInt {
				if reflect.ValueOf(x).CanInt() && i < 0 {
					return mustErr, nil
				}
				return open, u
			}
			if f == math.Trunc(f) && f >= 0 && f < 1<<63 {
				return open, uint64(f)
			}
			return -1, nil
		},
		func(js string) (setClass, interface{}) {
			var i uint64
			if err := json.Unmarshal([]byte(js), &i); err != nil {
				return mustErr, nil
			}
			return mustSet, i
		}, plainSame,
		func(r *core.Rng) interface{} {
			i := core.Pick(r, []uint64{0, 1, 127, 255, math.MaxUint64, uint64(r.Range(0, 1000)), 1 << 53, 1<<53 + 1, 1 << 63})
			switch r.Intn(6) {
			case 0:
				return uint(i)
			case 1:
				return uint8(i)
			case 2:
				return uint16(i)
			case 3:
				return uint32(i)
			case 4:
				return float64(r.Range(0, 100000))
			}
			return i
		},
		func(r *core.Rng) string {
			return core.Pick(r, []string{"0", "1", "-1", "18446744073709551615", "18446744073709551616", "9007199254740993", "1.5", "\"1\"", "true", "", "{}", "[]", fmt.Sprint(r.Range(0, 9999))})
		}},
	{"MaybeFloat", func() jsval.Maybe { return &jsval.MaybeFloat{} },
		func(x interface{}) (setClass, interface{}) {
			switch y := x.(type) {
			case float64:
				return mustSet, y
			case float32:
				return mustSet, float64(y)
			}
			f, _, _, _, ok := numRat(x)
			if !ok {
				return mustErr, nil
			}
			return open, f
		},
		func(js string) (setClass, interface{}) {
			var f float64
			if err := json.Unmarshal([]byte(js), &f); err != nil {
				return mustErr, nil
			}
			return mustSet, f
		}, plainSame,
		func(r *core.Rng) interface{} {
			f := model.GenNum(r)
			if r.P(1, 4) && math.Abs(f) < 1e38 {
				return float32(f)
			}
			return f
		},
		func(r *core.Rng) string {
			if r.Bool() {
				b, _ := json.Marshal(model.GenNum(r))
				return string(b)
			}
			return core.Pick(r, []string{"0", "-0.5", "1e308", "1e309", "1e-400", "\"1\"", "true", "", "{}", "NaN", "1.", ".5", "0.1", "5e-324"})
		}},
	{"MaybeTime", func() jsval.Maybe { return &jsval.MaybeTime{} },
		func(x interface{}) (setClass, interface{}) {
			switch y := x.(type) {
			case time.Time:
				return mustSet, y
			case string:
				t, err := time.Parse(time.RFC3339, y)
				if err != nil {
					return mustErr, nil
				}
				return mustSet, t
			}
			return mustErr, nil
		},
		func(js string) (setClass, interface{}) {
			var s string
			if err := json.Unmarshal([]byte(js), &s); err != nil {
				return mustErr, nil
			}
			t, err := time.Parse(time.RFC3339, s)
			if err != nil {
				return mustErr, nil
			}
			return mustSet, t
		}, sameTime,
		func(r *core.Rng) interface{} {
			t := genTime(r)
			if r.Bool() {
				return t.Format(core.Pick(r, []string{time.RFC3339, time.RFC3339Nano}))
			}
			return t
		},
		func(r *core.Rng) string {
			if r.Bool() {
				return `"` + genTime(r).Format(core.Pick(r, []string{time.RFC3339, time.RFC3339Nano})) + `"`
			}
			return core.Pick(r, []string{`"2016-01-02"`, `"x"`, `""`, `1`, `{}`, `"2016-01-02T15:04:05"`, `"2016-13-02T15:04:05Z"`, `"2016-01-02T15:04:05Z`, ``, `true`})
		}},
}

func genTime(r *core.Rng) time.Time {
	loc := time.UTC
	switch r.Intn(4) {
	case 0:
		loc = time.FixedZone("", r.Range(-12, 14)*3600)
	case 1:
		loc = time.FixedZone("X", r.Range(-12, 14)*3600+1800)
	}
	t := time.Date(r.Range(1, 9998), time.Month(r.Range(1, 12)), r.Range(1, 28), r.Intn(24), r.Intn(60), r.Intn(60), 0, loc)
	if r.Bool() {
		t = t.Add(time.Duration(r.Intn(1000000000)))
	}
	return t
}

func anySetValues(r *core.Rng) interface{} {
	var np *int
	return core.Pick(r, []interface{}{nil, true, false, "", "x", "1", "true", 0, 1, -1, int8(-5), int16(300), int32(-70000), int64(math.MaxInt64), uint(3), uint8(200), uint16(7), uint32(1 << 31), uint64(math.MaxUint64), float32(2), 3.0, -4.0, json.Number("5"), []interface{}{}, []byte("x"), map[string]interface{}{}, struct{}{}, np, new(string), new(float64), time.Unix(1000, 0), time.Second, myString("s"), myBool(true), myInt(4), myUint64(9), complex(1, 0), 'x', make(chan int), errors.New("x"), "2006-01-02T15:04:05Z", "2006-01-02T15:04:05+09:00", time.UTC, jsval.MaybeInt{}})
}

func maybeHistory(c *core.Case, ki int) {
	k := maybeKinds[ki]
	rg := c.Rng
	m := k.fresh()
	st := maybeState{}
	var hist []string
	typ := reflect.TypeOf(m).Elem()
	zero := reflect.Zero(typ).FieldByName(strings.TrimPrefix(k.name, "Maybe")).Interface()
	st.val = zero
	what := func() string { return k.name + ": " + strings.Join(hist, "; ") }
	check := func(m jsval.Maybe, st maybeState) bool {
		if m.Valid() != st.valid {
			c.Violate("validity", "Valid() = %v, expected %v\n%s", m.Valid(), st.valid, what())
			return false
		}
		if st.valid && !k.same(m.Value(), st.val) {
			c.Violate("value", "Value() = %v (%T), expected %v (%T)\n%s", m.Value(), m.Value(), st.val, st.val, what())
			return false
		}
		return true
	}
	if !check(m, st) {
		return
	}
	apply := func(cl setClass, val interface{}, err error) bool {
		switch cl {
		case mustSet:
			if err != nil {
				c.Violate("set", "an acceptable value was refused: %v\n%s", err, what())
				return false
			}
			st = maybeState{true, val}
		case mustErr:
			if err == nil {
				c.Violate("set", "an unacceptable value was taken without an error\n%s", what())
				return false
			}
		case open:
			if err == nil {
				st = maybeState{true, val}
			}
		}
		return true
	}
	for i := rg.Range(3, 14); i > 0; i-- {
		before := st
		switch rg.Intn(9) {
		case 0, 1, 2:
			x := k.gen(rg)
			cl, val := k.classify(x)
			if cl == -1 {
				continue
			}
			hist = append(hist, fmt.Sprintf("Set(%v %T)", x, x))
			var err error
			if !c.Call(what(), func() { err = m.Set(x) }) {
				return
			}
			if !apply(cl, val, err) {
				return
			}
		case 3, 4:
			x := anySetValues(rg)
			cl, val := k.classify(x)
			if cl == -1 {
				continue
			}
			hist = append(hist, fmt.Sprintf("Set(%v %T)", x, x))
			var err error
			if !c.Call(what(), func() { err = m.Set(x) }) {
				return
			}
			if !apply(cl, val, err) {
				return
			}
			if err != nil {
				_ = err.Error()
				c.Count("set_refused", 1)
			}
		case 5:
			hist = append(hist, "Reset")
			m.Reset()
			st.valid = false
		case 6:
			js := k.genJS(rg)
			cl, val := k.decode(js)
			var err error
			if rg.Bool() {
				hist = append(hist, "json.Unmarshal "+js)
				if !c.Call(what(), func() { err = json.Unmarshal([]byte(js), m) }) {
					return
				}
			} else {
				// inside a struct, so that the decoder calls it
				if !json.Valid([]byte(js)) {
					continue
				}
				hist = append(hist, "decode in struct "+js)
				holder := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "F", Type: typ, Tag: `json:"f"`}}))
				holder.Elem().Field(0).Set(reflect.ValueOf(m).Elem())
				err = json.Unmarshal([]byte(`{"f":`+js+`}`), holder.Interface())
				reflect.ValueOf(m).Elem().Set(holder.Elem().Field(0))
			}
			if !apply(cl, val, err) {
				return
			}
			c.Count("json_decoded", 1)
		case 7: // encode, and decode into another one
			if !st.valid {
				continue
			}
			hist = append(hist, "encode")
			var js []byte
			var err error
			if rg.Bool() {
				js, err = json.Marshal(m)
			} else {
				js, err = json.Marshal(reflect.ValueOf(m).Elem().Interface())
			}
			if err != nil {
				c.Violate("encode", "encoding failed: %v\n%s", err, what())
				return
			}
			// the JSON of the value
			if t, ok := st.val.(time.Time); ok {
				var s string
				if json.Unmarshal(js, &s) != nil {
					c.Violate("encode", "%s is not a JSON string\n%s", js, what())
					return
				}
				back, err := time.Parse(time.RFC3339, s)
				if err != nil || !back.Truncate(time.Second).Equal(t.Truncate(time.Second)) {
					c.Violate("encode", "%s does not denote %v\n%s", js, t, what())
					return
				}
			} else {
				want, _ := json.Marshal(st.val)
				if !sameJSON(js, want) {
					c.Violate("encode", "%s instead of %s\n%s", js, want, what())
					return
				}
			}
			other := k.fresh()
			if rg.Bool() {
				other.Set(k.gen(rg))
			}
			if rg.Bool() {
				other.Reset()
			}
			if err := json.Unmarshal(js, other); err != nil || !other.Valid() {
				c.Violate("round trip", "decoding %s: error %v, valid %v\n%s", js, err, other.Valid(), what())
				return
			}
			if t, ok := st.val.(time.Time); ok {
				o, _ := other.Value().(time.Time)
				if !o.Truncate(time.Second).Equal(t.Truncate(time.Second)) {
					c.Violate("round trip", "decoding %s gives %v\n%s", js, other.Value(), what())
					return
				}
			} else if !k.same(other.Value(), st.val) {
				c.Violate("round trip", "decoding %s gives %v\n%s", js, other.Value(), what())
				return
			}
			c.Count("json_round_trips", 1)
		case 8: // copies are independent
			hist = append(hist, "copy")
			cp := reflect.New(typ)
			cp.Elem().Set(reflect.ValueOf(m).Elem())
			m2 := cp.Interface().(jsval.Maybe)
			m2.Set(k.gen(rg))
			m2.Reset()
		}
		// a failed operation changes neither validity nor value
		if st == before || !st.valid && !before.valid {
			_ = before
		}
		if !check(m, st) {
			return
		}
		c.Eval(key(k.name, hist))
	}
	c.Sample(what())
}

func sameJSON(a, b []byte) bool {
	var x, y interface{}
	da, db := json.NewDecoder(strings.NewReader(string(a))), json.NewDecoder(strings.NewReader(string(b)))
	da.UseNumber()
	db.UseNumber()
	if da.Decode(&x) != nil || db.Decode(&y) != nil {
		return false
	}
	return reflect.DeepEqual(x, y)
}

// zeroFields: fields of every type are there whatever they hold, zero values
// included. The map holds the same Go values.
func zeroFields(c *core.Case) {
	rg := c.Rng
	one := 1
	str := ""
	samples := []interface{}{"x", myString("y"), 1.5, float32(2), 3, int8(4), int16(1), int32(2), int64(5), uint(1), uint8(6), uint16(2), uint32(3), uint64(7), true,
		[]string{"a"}, []interface{}{}, []byte{1}, map[string]interface{}{}, map[string]string{"a": "b"}, &one, &str, &struct{}{}, struct{ A int }{1},
		time.Unix(0, 0), [2]int{0, 1}, func() {}, make(chan int), complex(1, 2), errors.New("x")}
	var sf []reflect.StructField
	var vals []reflect.Value
	var names []string
	for i := rg.Range(1, 8); i > 0; i-- {
		x := core.Pick(rg, samples)
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(x)}
		if rg.P(1, 8) {
			f.Type = reflect.TypeOf((*interface{})(nil)).Elem()
		}
		if rg.P(1, 10) {
			f.Type = reflect.TypeOf((*error)(nil)).Elem()
			x = errors.New("x")
		}
		name := f.Name
		if rg.P(2, 3) {
			if tag, ok := tagFor(rg, fmt.Sprintf("p%d", i)); ok {
				f.Tag, name = tag, fmt.Sprintf("p%d", i)
			}
		} else if rg.Bool() {
			f.Tag = `json:",omitempty"`
		}
		sf, names = append(sf, f), append(names, name)
		v := reflect.Zero(f.Type)
		if rg.P(1, 3) {
			v = reflect.ValueOf(x)
			c.Count("non_zero_fields", 1)
		} else {
			c.Count("zero_"+f.Type.Kind().String(), 1)
		}
		vals = append(vals, v)
	}
	twinMu.Lock()
	t := reflect.StructOf(sf)
	twinMu.Unlock()
	p := reflect.New(t)
	for i, v := range vals {
		p.Elem().Field(i).Set(v)
	}
	m := structMap(p.Elem())
	if len(m) != len(names) {
		c.R.Fail("C10 zeros: %d fields, %d properties", len(names), len(m))
		return
	}
	o := jsval.Object()
	var rules []string
	for _, n := range append([]string{"missing"}, names...) {
		if rg.P(1, 4) {
			continue
		}
		k := core.Pick(rg, []jsval.Constraint{jsval.EmptyConstraint, jsval.EmptyConstraint, jsval.String(), jsval.Number(), jsval.Integer(), jsval.Boolean(), jsval.Array(),
			jsval.Object().AdditionalProperties(jsval.EmptyConstraint), jsval.NullConstraint, jsval.Not(jsval.NullConstraint)})
		if rg.P(2, 3) {
			k = jsval.EmptyConstraint
		}
		if rg.P(1, 5) {
			o.PatternPropertiesString("^"+n+"$", k)
		} else {
			o.AddProp(n, k)
		}
		rules = append(rules, fmt.Sprintf("%s: %T", n, k))
	}
	if rg.P(2, 3) {
		o.AdditionalProperties(jsval.EmptyConstraint)
		rules = append(rules, "additional")
	}
	if rg.Bool() {
		n := core.Pick(rg, names)
		o.Required(n)
		rules = append(rules, "required "+n)
	}
	if rg.P(1, 3) {
		n := len(names) + rg.Range(-1, 1)
		o.MinProperties(n)
		rules = append(rules, fmt.Sprint("min ", n))
	}
	if rg.P(1, 3) {
		n := len(names) + rg.Range(-1, 1)
		o.MaxProperties(n)
		rules = append(rules, fmt.Sprint("max ", n))
	}
	if rg.P(1, 3) {
		a, b := core.Pick(rg, names), core.Pick(rg, append([]string{"missing"}, names...))
		o.PropDependency(a, b)
		rules = append(rules, a+" needs "+b)
	}
	what := func() string {
		return fmt.Sprintf("rules: %q\nstruct %+v (%s)\nmap %v", rules, p.Elem().Interface(), t, m)
	}
	wm, ok := validate(c, o, m, what)
	if !ok {
		return
	}
	for _, f := range []interface{}{p.Interface(), p.Elem().Interface()} {
		if !expect(c, o, f, verdictOf(wm.accepted), what) {
			return
		}
	}
	c.Eval(key("zeros", t.String(), rules))
}

// longer makes some strings very long.
func longer(r *core.Rng, s string) string {
	if r.P(1, 60) {
		return strings.Repeat(s+"x", 1<<r.Range(4, 14)) + "y"
	}
	return s
}

// wideStruct: structs with any number of fields, or levels of embedding.
func wideStruct(c *core.Case) {
	rg := c.Rng
	n := min(sizeSweep[c.Idx%len(sizeSweep)], 400)
	var sf []reflect.StructField
	want := map[string]interface{}{}
	var vals []interface{}
	var names []string
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i)}
		name := f.Name
		if rg.Bool() {
			name = fmt.Sprintf("f-%d", i)
			f.Tag = reflect.StructTag(fmt.Sprintf(`json:"%s"`, name))
		}
		var x interface{} = float64(i)
		switch rg.Intn(4) {
		case 0:
			m := jsval.MaybeFloat{}
			if rg.P(4, 5) {
				m.Set(float64(i))
				want[name] = float64(i)
			}
			x = m
		case 1:
			x = ""
			want[name] = ""
		default:
			want[name] = x
		}
		f.Type = reflect.TypeOf(x)
		sf, vals, names = append(sf, f), append(vals, x), append(names, name)
	}
	twinMu.Lock()
	t := reflect.StructOf(sf)
	twinMu.Unlock()
	p := reflect.New(t)
	for i, x := range vals {
		p.Elem().Field(i).Set(reflect.ValueOf(x))
	}
	for k := 0; k < 6; k++ {
		o := jsval.Object()
		var rules []string
		if rg.P(2, 3) || n == 0 {
			o.AdditionalProperties(core.Pick(rg, []jsval.Constraint{jsval.EmptyConstraint, jsval.EmptyConstraint, jsval.Any().Add(jsval.Number()).Add(jsval.String())}))
			rules = append(rules, "additional")
		} else {
			skip := rg.Range(-n, n-1)
			for i, name := range names {
				if i != skip {
					o.AddProp(name, jsval.Any().Add(jsval.Number().Minimum(float64(i)).Maximum(float64(i))).Add(jsval.String()))
				}
			}
			rules = append(rules, fmt.Sprintf("all but %d", skip))
		}
		if n > 0 && rg.Bool() {
			i := core.Pick(rg, []int{0, n - 1, rg.Intn(n)})
			o.Required(names[i])
			rules = append(rules, "required "+names[i])
		}
		if rg.P(1, 3) {
			m := len(want) + rg.Range(-1, 1)
			o.MinProperties(m)
			rules = append(rules, fmt.Sprint("min ", m))
		}
		if rg.P(1, 3) {
			m := max(0, len(want)+rg.Range(-1, 1))
			o.MaxProperties(m)
			rules = append(rules, fmt.Sprint("max ", m))
		}
		if n > 0 && rg.P(1, 3) {
			i := core.Pick(rg, []int{0, n - 1, rg.Intn(n)})
			o.AddProp(names[i], core.Pick(rg, []jsval.Constraint{jsval.String(), jsval.Number(), jsval.Number().Minimum(float64(i)), jsval.NullConstraint}))
			rules = append(rules, "other "+names[i])
		}
		what := func() string { return fmt.Sprintf("%d fields, rules: %q, map %v", n, rules, want) }
		w, ok := validate(c, o, model.Copy(want), what)
		if !ok {
			return
		}
		for _, f := range []interface{}{p.Interface(), p.Elem().Interface()} {
			if !expect(c, o, f, verdictOf(w.accepted), what) {
				return
			}
		}
		c.Count("wide_"+map[bool]string{true: "accepted", false: "rejected"}[w.accepted], 1)
	}
	c.Eval(key("wide", n))
}
