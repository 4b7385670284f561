package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"time"
	"unsafe"

	schema "github.com/lestrrat-go/jsschema"
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"

	"verif/core"
	"verif/model"
)

// ---- hostile Go values ----

type (
	hList struct {
		V    interface{} `json:"a"`
		Next *hList      `json:"b"`
	}
	hEmbedPtr struct {
		*hList
		*hBase
		Foo string `json:"foo"`
	}
	hBase struct {
		A string            `json:"a"`
		M jsval.MaybeString `json:"name"`
		P *jsval.MaybeInt   `json:"bar"`
	}
	hIface struct {
		fmt.Stringer
		error
		E interface{} `json:"e"`
		S fmt.Stringer
	}
	hMaybes struct {
		A jsval.Maybe         `json:"a"`
		B *jsval.MaybeString  `json:"b"`
		C **jsval.MaybeFloat  `json:"c"`
		D jsval.MaybeTime     `json:"d"`
		E []jsval.MaybeUint   `json:"e"`
		F *optPtr             `json:"f"`
		G optPtr              `json:"foo"`
		H *optVal             `json:"bar"`
		I optRef              `json:"baz"`
		J map[string]optSlice `json:"name"`
	}
	hTags struct {
		A int `json:"a"`
		B int `json:"a,omitempty"`
		C int `json:",,,"`
		D int `json:"-,"`
		E int `json:"b,string"`
		F int `json:" "`
		G int `json`
		H int `json:"\x"`
		I int `json:"\""`
		u int `json:"c"`
	}
	hUnexp struct {
		a interface{}
		b chan int
		c *hUnexp
		hidden
	}
	hidden struct {
		A interface{} `json:"a"`
		b int
	}
	hSelfErr struct{ A int }
	hBadSet  struct {
		A jsval.MaybeInt `json:"a"`
	}
	hMapT       map[string]hMapT
	hSliceT     []hSliceT
	hFuncT      func(...interface{}) error
	hNilValue   struct{}
	hArr        [3]interface{}
	hGen[T any] struct {
		A T `json:"a"`
		B T
	}
	hBig struct {
		A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P float64
		X                                              [100]byte
		Y                                              struct{ Z struct{ W struct{} } }
		_                                              int
	}
)

func (hSelfErr) GetPropNames() ([]string, error)          { return nil, errors.New("no names") }
func (hSelfErr) GetPropValue(string) (interface{}, error) { return nil, errors.New("no value") }

type hSelfNil struct{ names []string }

func (s hSelfNil) GetPropNames() ([]string, error) { return s.names, nil }
func (hSelfNil) GetPropValue(n string) (interface{}, error) {
	if len(n)%2 == 0 {
		return nil, nil
	}
	return (*hList)(nil), nil
}

func (*hBadSet) SetPropValue(string, interface{}) error { return errors.New("cannot set") }

// a Maybe that is valid and holds nil
func (hNilValue) Valid() bool           { return true }
func (hNilValue) Value() interface{}    { return nil }
func (hNilValue) Set(interface{}) error { return errors.New("no") }
func (hNilValue) Reset()                {}

type hGoStr struct{ A string }

func (hGoStr) GoString() string { return "%#v%!" }
func (hGoStr) String() string   { return "x" }

func ptr[T any](v T) *T { return &v }

// hostile returns a Go value of any kind.
func hostile(r *core.Rng, d int) interface{} {
	in := func() interface{} {
		if d <= 0 {
			return nil
		}
		return hostile(r, d-1)
	}
	name := func() string { return model.GenName(r) }
	switch r.Intn(64) {
	case 0:
		return nil
	case 1:
		return (*int)(nil)
	case 2:
		return (map[string]interface{})(nil)
	case 3:
		return ([]interface{})(nil)
	case 4:
		return make(chan int)
	case 5:
		return (chan struct{})(nil)
	case 6:
		return func() {}
	case 7:
		return (func())(nil)
	case 8:
		return complex(1, 2)
	case 9:
		return complex64(complex(math.NaN(), math.Inf(1)))
	case 10:
		return core.Pick(r, []float64{math.NaN(), math.Inf(1), math.Inf(-1), -0.0, math.MaxFloat64, 5e-324})
	case 11:
		return core.Pick(r, []interface{}{int8(-128), uint8(255), int64(math.MinInt64), uint64(math.MaxUint64), uintptr(1), int16(3), uint32(4), float32(math.MaxFloat32), float32(math.Inf(1))})
	case 12:
		return map[int]interface{}{1: in()}
	case 13:
		return map[interface{}]interface{}{"a": in(), 1: nil, 2.5: true, [2]int{}: 0, struct{}{}: 0}
	case 14:
		return map[struct{ A int }]string{{1}: "x"}
	case 15:
		return map[bool]bool{true: false}
	case 16:
		return map[float64]int{math.NaN(): 1}
	case 17:
		return [2]interface{}{in(), nil}
	case 18:
		return hArr{in(), 1, "x"}
	case 19:
		return ptr(in())
	case 20:
		return ptr(ptr(in()))
	case 21:
		return ptr(ptr((*string)(nil)))
	case 22:
		return ptr(map[string]interface{}{name(): in()})
	case 23:
		return ptr([]interface{}{in()})
	case 24:
		return unsafe.Pointer(nil)
	case 25:
		return reflect.ValueOf(1)
	case 26:
		return reflect.TypeOf(1)
	case 27:
		return &hList{in(), &hList{in(), nil}}
	case 28:
		return hEmbedPtr{Foo: "x"}
	case 29:
		return &hEmbedPtr{hBase: &hBase{A: "a"}}
	case 30:
		return hIface{E: in()}
	case 31:
		return &hIface{Stringer: time.Second, error: errors.New("x"), S: hGoStr{}}
	case 32:
		return hMaybes{}
	case 33:
		return &hMaybes{}
	case 34:
		m := hMaybes{A: core.Pick(r, []jsval.Maybe{nil, (*jsval.MaybeInt)(nil), &jsval.MaybeInt{}, &jsval.MaybeFloat{}, hNilValue{}, &optPtr{}, (*optPtr)(nil)})}
		m.B = &jsval.MaybeString{}
		m.C = ptr((*jsval.MaybeFloat)(nil))
		m.H = &optVal{true, in()}
		m.I = optRef{&optPtr{7, in()}}
		if r.Bool() {
			return m
		}
		return &m
	case 35:
		return &hTags{}
	case 36:
		return hTags{}
	case 37:
		return hUnexp{a: in(), hidden: hidden{A: in()}}
	case 38:
		return &hUnexp{c: &hUnexp{}}
	case 39:
		return hSelfErr{}
	case 40:
		return hSelfNil{[]string{name(), name(), "", "a"}}
	case 41:
		return &hSelfNil{[]string{"a", "a", "b"}}
	case 42:
		return &hBadSet{}
	case 43:
		return hBadSet{}
	case 44:
		return hMapT{"a": {"a": nil}, "b": hMapT{}}
	case 45:
		return hSliceT{nil, {}, {nil}}
	case 46:
		return hFuncT(nil)
	case 47:
		return hNilValue{}
	case 48:
		return map[string]interface{}{name(): hNilValue{}, "a": &jsval.MaybeString{}, "b": jsval.MaybeInt{}}
	case 49:
		return hGen[interface{}]{in(), nil}
	case 50:
		return &hGen[map[string]interface{}]{}
	case 51:
		return hBig{}
	case 52:
		return &sync.Mutex{}
	case 53:
		return time.Now()
	case 54:
		return core.Pick(r, []interface{}{big.NewInt(5), *big.NewFloat(1.5), &url.URL{}, json.Number("12"), json.RawMessage(`{"a":1}`), []byte("abc"), []rune("x"), time.Second})
	case 55:
		return []map[string]interface{}{{name(): in()}, nil}
	case 56:
		return map[string][]interface{}{name(): {in()}, name(): nil}
	case 57:
		return []interface{}{in(), in(), in()}
	case 58:
		return map[string]interface{}{name(): in(), name(): in(), name(): in()}
	case 59:
		return map[string]chan int{"a": nil, "b": make(chan int)}
	case 60:
		return hGoStr{"x"}
	case 61:
		return strings.Repeat(core.Pick(r, []string{"\xff", "\x00", "a", "\xed\xa0\x80", "é\xc3"}), r.Intn(40))
	case 62:
		return errors.New("an error")
	}
	// a struct type made up on the spot
	n := r.Intn(6)
	var fs []reflect.StructField
	var vs []reflect.Value
	for i := 0; i < n; i++ {
		v := in()
		t := reflect.TypeOf(v)
		if t == nil || r.P(1, 3) {
			t = reflect.TypeOf((*interface{})(nil)).Elem()
		}
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: t}
		if r.P(3, 4) {
			f.Tag = reflect.StructTag(fmt.Sprintf("json:%q", core.Pick(r, []string{name(), name() + ",omitempty", "a", "-", ",", "", "-,"})))
		}
		fs = append(fs, f)
		rv := reflect.Zero(t)
		if v != nil {
			rv = reflect.ValueOf(v)
		}
		vs = append(vs, rv)
	}
	twinMu.Lock()
	t := reflect.StructOf(fs)
	twinMu.Unlock()
	s := reflect.New(t)
	for i, v := range vs {
		s.Elem().Field(i).Set(v)
	}
	if r.Bool() {
		return s.Interface()
	}
	return s.Elem().Interface()
}

// poison replaces parts of a JSON value by hostile ones, so that constraints
// meet them at every depth.
func poison(r *core.Rng, v interface{}, d int) interface{} {
	if r.P(1, 5) {
		return hostile(r, 2)
	}
	switch x := v.(type) {
	case map[string]interface{}:
		m := map[string]interface{}{}
		for _, k := range model.SortedKeys(x) {
			m[k] = poison(r, x[k], d-1)
		}
		switch r.Intn(8) {
		case 0:
			return &m
		case 1:
			return hMapS(m)
		case 2:
			if s, ok := structTwin(r, x, []string{"a", "b", "foo"}, 2, false); ok {
				if r.Bool() {
					return s.Interface()
				}
				return s.Elem().Interface()
			}
		case 3:
			return interface{}(ptr(interface{}(m)))
		}
		return m
	case []interface{}:
		l := make([]interface{}, len(x))
		for i := range x {
			l[i] = poison(r, x[i], d-1)
		}
		switch r.Intn(6) {
		case 0:
			return &l
		case 1:
			return hSliceS(l)
		}
		return l
	}
	if r.P(1, 6) {
		return ptr(v)
	}
	return v
}

type (
	hMapS   map[string]interface{}
	hSliceS []interface{}
)

func describe(v interface{}) (s string) {
	defer func() {
		if recover() != nil {
			s = fmt.Sprintf("%T", v)
		}
	}()
	s = fmt.Sprintf("%T %#v", v, v)
	if len(s) > 1500 {
		s = s[:1500]
	}
	return
}

// hostileDefaults gives some constraints defaults of odd types.
func hostileDefaults(r *core.Rng, s *model.Spec) {
	model.Walk(s, func(s *model.Spec) {
		switch s.Kind {
		case model.String, model.Number, model.Integer, model.Bool:
			if r.P(1, 3) {
				s.HasDef = true
				s.Def = hostile(r, 1)
			}
			if r.P(1, 10) {
				s.Enum = []interface{}{hostile(r, 1), hostile(r, 1)}
				for n := core.Pick(r, []int{0, 0, 10, 20}); n > 0; n-- {
					s.Enum = append(s.Enum, hostile(r, r.Intn(2)))
				}
			}
		case model.Enum:
			if r.P(1, 4) {
				s.Enum = []interface{}{hostile(r, 1), hostile(r, 2), nil}
				for n := core.Pick(r, []int{0, 0, 5, 10, 20, 40}); n > 0; n-- {
					s.Enum = append(s.Enum, hostile(r, r.Intn(2)))
				}
			}
		}
	})
}

func hostileValues(c *core.Case) {
	r := c.Rng
	names := pickRefNames(r, r.Range(1, 3))
	o := model.GenOpts{Depth: r.Range(1, 3), Formats: true, Defaults: r.Bool(), Refs: names, FlatRefs: names}
	env := model.GenEnv(r, names, model.GenOpts{Depth: 2, Defaults: o.Defaults})
	s := model.GenSpec(r, o)
	if r.Bool() {
		s = model.GenKind(r, core.Pick(r, []model.Kind{model.Object, model.Object, model.Array, model.All}), o)
	}
	// inputs that fit, before the constraints get odd
	base := make([]interface{}, 14)
	for i := range base {
		base[i] = model.GenValue(r, s, env, 3)
	}
	if r.Bool() {
		hostileDefaults(r, s)
		for _, n := range names {
			hostileDefaults(r, env[n])
		}
	}
	cm := &jsval.ConstraintMap{}
	b := &model.Builder{Rng: r, Resolver: cm}
	registered := r.P(3, 4)
	if registered {
		for _, n := range names {
			cm.SetReference(n, b.Build(env[n]))
		}
	}
	v := newRoot(r, b.Build(s))
	var members []interface{}
	model.Walk(s, func(s *model.Spec) { members = append(members, s.Enum...) })
	if r.P(1, 40) { // there is nothing to validate with
		v = core.Pick(r, []*jsval.JSVal{jsval.New(), {}, jsval.New().SetName("empty"), jsval.New().SetConstraintMap(cm)})
		c.Count("rootless", 1)
	}
	for i := 0; i < 14; i++ {
		var x interface{}
		switch {
		case i < 4:
			x = hostile(r, 3)
		case i < 6:
			x = base[i]
		case len(members) > 0 && i < 8:
			x = core.Pick(r, members)
			if v := reflect.ValueOf(x); v.IsValid() && r.Bool() { // the same type, other content
				if v.Kind() == reflect.Struct {
					p := reflect.New(v.Type())
					p.Elem().Set(v)
					for k := 0; k < v.NumField(); k++ {
						if f := p.Elem().Field(k); f.CanSet() && f.Kind() == reflect.Interface && f.NumMethod() == 0 {
							f.Set(reflect.ValueOf(core.Pick(r, []interface{}{[]int{1}, map[string]int{}, func() {}, 1, struct{ X interface{} }{[]int{1}}})))
						}
					}
					x = p.Elem().Interface()
				}
			}
		default:
			x = poison(r, base[i], 3)
		}
		res, ok := validate(c, v, x, func() string {
			return fmt.Sprintf("constraint: %s\nrefs: %s\nvalue: %s", s, model.DescribeEnv(env), describe(x))
		})
		if !ok {
			return
		}
		c.Count("verdict_"+acc(res.accepted), 1)
		c.Count("kind_"+reflect.ValueOf(x).Kind().String(), 1)
		if res.err != nil && r.P(1, 8) {
			// the error must be printable too
			if p, msg, st := c.Try(func() { _ = res.err.Error() + fmt.Sprintf("%+v", res.err) }); p {
				c.ViolateD("panic", strings.Split(st, "\n"), "printing the error panicked: %s", msg)
				return
			}
		}
	}
	c.Eval(key(s.String(), describe(s)))
	// and generation
	if cst, ok := v.(jsval.Constraint); ok {
		v = jsval.New().SetRoot(cst)
	}
	j := v.(*jsval.JSVal)
	if j.ConstraintMap == nil {
		return
	}
	if r.Bool() {
		j.SetConstraintMap(cm)
	}
	var err error
	if !c.Call("generation from "+s.String(), func() { err = jsval.NewGenerator().Process(discard{}, j) }) {
		return
	}
	if err != nil {
		c.Count("generation_refused", 1)
	} else {
		c.Count("generated", 1)
	}
}

type discard struct{}

func (discard) Write(p []byte) (int, error) { return len(p), nil }

// ---- hostile schemas ----

var anyKeywords = []string{"type", "enum", "$ref", "default", "title", "id", "$schema", "definitions", "properties", "patternProperties", "additionalProperties", "required", "minProperties", "maxProperties", "dependencies", "items", "additionalItems", "minItems", "maxItems", "uniqueItems", "minLength", "maxLength", "pattern", "format", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "allOf", "anyOf", "oneOf", "not", "links", "const", "if", "then", "description"}

// hostileDoc mutates a generated document (or makes one of nothing).
func hostileDoc(r *core.Rng) model.M {
	var doc model.M
	switch r.Intn(5) {
	case 0:
		doc = model.M{}
	case 1:
		doc = model.GenRefDoc(r, model.SOpts{Depth: 2}, false)
	default:
		doc = model.GenSchema(r, model.SOpts{Depth: r.Range(1, 3), Untyped: r.Bool(), Mixed: r.Bool(), Formats: true, Stray: true, Defaults: r.Bool()})
	}
	var objs []model.M
	var walk func(v interface{})
	walk = func(v interface{}) {
		switch x := v.(type) {
		case map[string]interface{}:
			objs = append(objs, x)
			for _, k := range model.SortedKeys(x) {
				walk(x[k])
			}
		case []interface{}:
			for _, e := range x {
				walk(e)
			}
		}
	}
	for i := r.Range(1, 4); i > 0; i-- {
		objs = nil
		walk(doc)
		t := core.Pick(r, objs)
		k := core.Pick(r, anyKeywords)
		t[k] = hostileKeyword(r, k)
	}
	return doc
}

func hostileKeyword(r *core.Rng, k string) interface{} {
	sub := func() interface{} {
		if r.P(1, 6) {
			return model.GenJSON(r, 2)
		}
		m := model.M{}
		for i := r.Intn(3); i > 0; i-- {
			k := core.Pick(r, anyKeywords)
			m[k] = model.GenJSON(r, 1)
		}
		if r.P(1, 3) {
			m["type"] = core.Pick(r, []string{"object", "array", "string", "number", "integer", "boolean", "null", "any"})
		}
		return m
	}
	if r.P(1, 8) {
		return model.GenJSON(r, 3)
	}
	switch k {
	case "type":
		return core.Pick(r, []interface{}{"object", "array", "string", "integer", "number", "boolean", "null", []interface{}{}, []interface{}{"string", "string"}, []interface{}{"null", "object"}, "any", "file"})
	case "enum":
		l := make([]interface{}, r.Intn(4))
		for i := range l {
			l[i] = model.GenJSON(r, 2)
		}
		return l
	case "$ref":
		return core.Pick(r, []interface{}{"#", "#/", "#/definitions/a", "#/definitions", "#/properties/a", "#/definitions/a/not", "#/allOf/0", "#/allOf/-1", "#/allOf/x", "#/items", "#/items/99", "", "a", "#a", "http://127.0.0.1:1/x", "file:///nonexistent", "#/definitions/%zz", "#//", "/x", "#/type", "#/enum/0", "#/enum", "#/required", "#/default", "//", ":", "#/dependencies/a"})
	case "properties", "definitions", "patternProperties", "dependencies":
		m := model.M{}
		for i := r.Intn(3); i > 0; i-- {
			if k == "dependencies" && r.Bool() {
				m[model.GenName(r)] = []interface{}{"a", "b"}
			} else {
				m[model.GenName(r)] = sub()
			}
		}
		return m
	case "items", "allOf", "anyOf", "oneOf":
		l := make([]interface{}, r.Intn(3))
		for i := range l {
			l[i] = sub()
		}
		if k == "items" && r.Bool() {
			return sub()
		}
		return l
	case "additionalProperties", "additionalItems":
		return core.Pick(r, []interface{}{true, false, sub(), nil})
	case "not":
		return sub()
	case "required":
		return core.Pick(r, []interface{}{[]interface{}{}, []interface{}{"a", "a"}, []interface{}{"a", 1.0}, true})
	case "minProperties", "maxProperties", "minItems", "maxItems", "minLength", "maxLength":
		return core.Pick(r, []interface{}{0.0, -1.0, 1.0, 1.5, 1e300, -5.0, 9223372036854775807.0, "3"})
	case "minimum", "maximum", "multipleOf":
		return core.Pick(r, []interface{}{0.0, -1.0, 1.5, 1e308, -1e308, 5e-324, "x"})
	case "pattern":
		return core.Pick(r, []interface{}{"", "(", "a{2,1}", "\\", "^a", "(?=x)", strings.Repeat("a?", 50), "[[:alpha:]]"})
	case "format":
		return core.Pick(r, []interface{}{"", "date-time", "email", "uri", "regex", "x"})
	case "uniqueItems", "exclusiveMinimum", "exclusiveMaximum":
		return r.Bool()
	}
	return model.GenJSON(r, 2)
}

// groundedAny says whether validation with the references of any JSON
// document must terminate: no cycle through keywords that judge the same
// value, wherever the objects are.
func groundedAny(root model.M) bool {
	state := map[string]int{}
	var visit func(ptr string, v interface{}) bool
	visit = func(ptr string, v interface{}) bool {
		switch state[ptr] {
		case 1:
			return false
		case 2:
			return true
		}
		state[ptr] = 1
		defer func() { state[ptr] = 2 }()
		switch x := v.(type) {
		case map[string]interface{}:
			for _, k := range model.SortedKeys(x) {
				switch k {
				case "$ref":
					ref, ok := x[k].(string)
					if !ok {
						continue
					}
					t, ok := model.Lookup(root, ref)
					if ok && !visit(ref, t) {
						return false
					}
				case "allOf", "anyOf", "oneOf", "not", "dependencies":
					if !visit(ptr+"/"+k, x[k]) {
						return false
					}
					// children are visited by visit itself
				}
			}
			if strings.HasSuffix(ptr, "/dependencies") {
				for _, k := range model.SortedKeys(x) {
					if !visit(ptr+"/"+k, x[k]) {
						return false
					}
				}
			}
		case []interface{}:
			for i, e := range x {
				if !visit(fmt.Sprintf("%s/%d", ptr, i), e) {
					return false
				}
			}
		}
		return true
	}
	var all func(ptr string, v interface{}) bool
	all = func(ptr string, v interface{}) bool {
		if !visit(ptr, v) {
			return false
		}
		switch x := v.(type) {
		case map[string]interface{}:
			for _, k := range model.SortedKeys(x) {
				if !all(ptr+"/"+k, x[k]) {
					return false
				}
			}
		case []interface{}:
			for i, e := range x {
				if !all(fmt.Sprintf("%s/%d", ptr, i), e) {
					return false
				}
			}
		}
		return true
	}
	return all("#", root)
}

// remoteRef: references that leave the document must not make the check
// read files or the network.
func remoteRef(v interface{}) bool {
	switch x := v.(type) {
	case map[string]interface{}:
		for k, e := range x {
			if k == "$ref" {
				if s, ok := e.(string); ok && s != "" && s[0] != '#' {
					return true
				}
			}
			if remoteRef(e) {
				return true
			}
		}
	case []interface{}:
		for _, e := range x {
			if remoteRef(e) {
				return true
			}
		}
	}
	return false
}

func hostileSchema(c *core.Case) {
	r := c.Rng
	doc := hostileDoc(r)
	text := model.Encode(r, doc)
	var s *schema.Schema
	var err error
	if p, _, _ := c.Try(func() { s, err = schema.Read(strings.NewReader(text)) }); p || err != nil || s == nil {
		c.Count("not_a_schema", 1) // the parser is a dependency
		return
	}
	c.Count("schemas_parsed", 1)
	ctxs := []interface{}{decodeM(text)}
	switch r.Intn(4) {
	case 0:
		ctxs = append(ctxs, nil)
	case 1:
		ctxs = append(ctxs, s)
	case 2:
		ctxs = append(ctxs, core.Pick(r, []interface{}{1, "x", []interface{}{}, model.M{}, map[int]string{}, (*schema.Schema)(nil), hList{}}))
	}
	grounded := groundedAny(doc)
	for i := -1; i < len(ctxs); i++ {
		var v *jsval.JSVal
		p, msg, stack := c.Try(func() {
			if i < 0 {
				v, err = builder.New().Build(s)
			} else {
				v, err = builder.New().BuildWithCtx(s, ctxs[i])
			}
		})
		if p {
			c.ViolateD("panic", strings.Split(stack, "\n"), "building (ctx %d) panicked: %s\nschema: %s", i, msg, text)
			return
		}
		if err != nil {
			c.Count("build_errors", 1)
			continue
		}
		if v == nil {
			c.Violate("nothing built", "Build returned neither a validator nor an error\nschema: %s", text)
			return
		}
		c.Count("built", 1)
		if !c.Call("generation from "+text, func() { err = jsval.NewGenerator().Process(discard{}, v) }) {
			return
		}
		if !grounded {
			c.Count("ill_founded_not_validated", 1)
			continue
		}
		d := model.GenJSON
		for k := 0; k < 8; k++ {
			x := d(r, 3)
			if k%2 == 0 {
				x = poison(r, x, 3)
			}
			if _, ok := validate(c, v, x, func() string { return "schema: " + text + "\nvalue: " + describe(x) }); !ok {
				return
			}
		}
		c.Eval(key(text, i))
	}
	c.Sample(text)
}

// ---- size and depth ----

func nestList(n int) interface{} {
	var x interface{} = 1.0
	for i := 0; i < n; i++ {
		x = []interface{}{x}
	}
	return x
}

func nestMap(n int) interface{} {
	var x interface{} = model.M{}
	for i := 0; i < n; i++ {
		x = model.M{"a": x}
	}
	return x
}

type bigCase struct {
	name string
	run  func(c *core.Case) (string, bool)
}

func bigCases(th bool) []bigCase {
	k := 1
	if th {
		k = 4
	}
	build := func(c *core.Case, text string) *jsval.JSVal {
		s, err := schema.Read(strings.NewReader(text))
		if err != nil {
			return nil
		}
		v, err, ok := build(c, s, decodeM(text), true, "large schema")
		if !ok || err != nil {
			return nil
		}
		return v
	}
	val := func(c *core.Case, v validator, x interface{}, what string) (string, bool) {
		if v == nil || reflect.ValueOf(v).IsNil() {
			return "not built", true
		}
		res, ok := validate(c, v, x, func() string { return what })
		return acc(res.accepted), ok
	}
	gen := func(c *core.Case, v *jsval.JSVal) bool {
		return v == nil || c.Call("generation", func() { jsval.NewGenerator().Process(discard{}, v) })
	}
	var l []bigCase
	add := func(name string, f func(c *core.Case) (string, bool)) { l = append(l, bigCase{name, f}) }
	add("deep list, recursive reference", func(c *core.Case) (string, bool) {
		v := build(c, `{"type":["array","number"],"items":{"$ref":"#"}}`)
		return val(c, v, nestList(20000*k), "deep list")
	})
	add("deep map, recursive reference", func(c *core.Case) (string, bool) {
		v := build(c, `{"type":"object","additionalProperties":{"$ref":"#"}}`)
		return val(c, v, nestMap(8000*k), "deep map")
	})
	add("deep map, rejected at the bottom", func(c *core.Case) (string, bool) {
		v := build(c, `{"type":"object","properties":{"a":{"$ref":"#"}},"additionalProperties":false}`)
		var x interface{} = model.M{"z": 1.0}
		for i := 0; i < 1500*k; i++ {
			x = model.M{"a": x}
		}
		return val(c, v, x, "deep map")
	})
	add("deep linked structs", func(c *core.Case) (string, bool) {
		v := build(c, `{"type":["object","null"],"properties":{"a":{},"b":{"$ref":"#"}}}`)
		var x *hList
		for i := 0; i < 5000*k; i++ {
			x = &hList{1, x}
		}
		return val(c, v, x, "linked structs")
	})
	add("large array, unique items", func(c *core.Case) (string, bool) {
		x := make([]interface{}, 20000*k)
		for i := range x {
			x[i] = float64(i)
		}
		return val(c, jsval.Array().UniqueItems(true).Items(jsval.Integer()), x, "large array")
	})
	add("large object", func(c *core.Case) (string, bool) {
		x := model.M{}
		for i := 0; i < 50000*k; i++ {
			x[fmt.Sprintf("k%d", i)] = "v"
		}
		return val(c, jsval.Object().PatternPropertiesString("^k", jsval.String()).PatternPropertiesString("0$", jsval.String()).AdditionalProperties(jsval.Integer()), x, "large object")
	})
	add("large string", func(c *core.Case) (string, bool) {
		x := strings.Repeat("aé", 500000*k)
		return val(c, jsval.String().MaxLength(10000000).RegexpString("^(a|é)*$").Format("hostname"), x, "large string")
	})
	for _, f := range model.Formats {
		f := f
		add("large string, "+f, func(c *core.Case) (string, bool) {
			s, ok := "", true
			for _, u := range []string{"a.", "1", ":", "(", "a@", "%41", "\"", "-", "0:", "<", "[", "0.0.", "a b ", ",", ";", "\\"} {
				if s, ok = val(c, jsval.String().Format(f), strings.Repeat(u, 20000), "format "+f+" "+u); !ok {
					return s, ok
				}
			}
			return s, ok
		})
	}
	add("many properties declared", func(c *core.Case) (string, bool) {
		o := jsval.Object()
		x := model.M{}
		for i := 0; i < 4000*k; i++ {
			n := fmt.Sprintf("k%d", i)
			o.AddProp(n, jsval.Integer().Default(i)).PropDependency(n, "k0")
			if i%2 == 0 {
				x[n] = 1.0
			}
		}
		v := jsval.New().SetRoot(o)
		s, ok := val(c, v, x, "many properties")
		return s, ok && gen(c, v)
	})
	add("many children", func(c *core.Case) (string, bool) {
		a, b, d := jsval.All(), jsval.Any(), jsval.OneOf()
		for i := 0; i < 3000*k; i++ {
			a.Add(jsval.Number().Minimum(-float64(i)))
			b.Add(jsval.Number().Maximum(-float64(i) - 1))
			d.Add(jsval.Number().Minimum(float64(i)))
		}
		v := jsval.New().SetRoot(a.Add(jsval.Not(b)).Add(d))
		s, ok := val(c, v, 0.5, "many children")
		return s, ok && gen(c, v)
	})
	add("deep constraint", func(c *core.Case) (string, bool) {
		var t jsval.Constraint = jsval.Integer()
		for i := 0; i < 1000; i++ {
			switch i % 4 {
			case 0:
				t = jsval.All().Add(t)
			case 1:
				t = jsval.Not(t)
			case 2:
				t = jsval.Any().Add(jsval.NullConstraint).Add(t)
			case 3:
				t = jsval.OneOf().Add(t)
			}
		}
		v := jsval.New().SetRoot(t)
		s, ok := val(c, v, 1.0, "deep constraint")
		return s, ok && gen(c, v)
	})
	add("deep schema", func(c *core.Case) (string, bool) {
		n := 400
		text := strings.Repeat(`{"type":"object","properties":{"a":`, n) + `{"type":"string"}` + strings.Repeat(`}}`, n)
		v := build(c, text)
		s, ok := val(c, v, nestMap(n), "deep schema")
		return s, ok && gen(c, v)
	})
	add("wide schema", func(c *core.Case) (string, bool) {
		var sb strings.Builder
		sb.WriteString(`{"type":"object","properties":{"z":{"type":"null"}`)
		for i := 0; i < 1500; i++ {
			fmt.Fprintf(&sb, `,"p%d":{"$ref":"#/definitions/d%d"}`, i, i%300)
		}
		sb.WriteString(`},"definitions":{"d0":{"type":"string"}`)
		for i := 1; i < 300; i++ {
			fmt.Fprintf(&sb, `,"d%d":{"type":"array","items":{"$ref":"#/definitions/d%d"}}`, i, (i*7)%300)
		}
		sb.WriteString(`}}`)
		v := build(c, sb.String())
		s, ok := val(c, v, model.M{"p0": "x", "p1": []interface{}{}}, "wide schema")
		return s, ok && gen(c, v)
	})
	add("branching recursion", func(c *core.Case) (string, bool) {
		v := build(c, `{"type":"object","properties":{"l":{"$ref":"#"},"r":{"$ref":"#"}},"additionalProperties":false}`)
		var x interface{} = model.M{}
		for i := 0; i < 200; i++ { // a list, in a tree
			x = model.M{"l": x, "r": model.M{}}
		}
		return val(c, v, x, "tree")
	})
	add("mutual recursion", func(c *core.Case) (string, bool) {
		v := build(c, `{"definitions":{"a":{"type":"array","items":{"$ref":"#/definitions/b"}},"b":{"type":["array","null"],"items":{"$ref":"#/definitions/a"}}},"$ref":"#/definitions/a"}`)
		return val(c, v, nestList(5000*k), "lists")
	})
	return l
}

func init() {
	register(&core.Prop{
		ID:    "C17",
		Level: "exploration",
		Rule:  "constraint trees of every kind (with defaults and enumerations of odd Go types, resolved and unresolved references) are run on hostile Go values of every reflect kind, planted at every depth of otherwise fitting input; mutated and arbitrary JSON documents are built with every kind of context, generated and run; deep and large inputs and schemas; monitors: panics, fatal errors, calls that do not return within 150 s",
		Assumptions: []string{
			"documents the schema parser (a dependency) refuses are not built",
			"references that judge the same value forever are not validated",
		},
		Run: func(r *core.Run) {
			r.Cases("values", r.N(60000, 1500000), hostileValues)
			r.Cases("schemas", r.N(40000, 800000), hostileSchema)
			r.Cases("badrefs", r.N(4000, 60000), badRefCase)
			r.Cases("loops", r.N(2000, 30000), loopCase)
			big := bigCases(r.Tier == "thorough")
			r.CasesN("large", len(big), 4, func(c *core.Case) {
				s, ok := big[c.Idx].run(c)
				if ok {
					c.Eval(key("large", c.Idx))
					c.Count("large_"+s, 1)
				}
			})
		},
	})
}
