package props

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"github.com/lestrrat-go/jsval"

	"verif/core"
	"verif/model"
)

// user-defined Maybe types

// optVal: Valid and Value on the value, Set and Reset on the pointer.
type optVal struct {
	Ok bool
	V  interface{}
}

func (o optVal) Valid() bool        { return o.Ok }
func (o optVal) Value() interface{} { return o.V }
func (o *optVal) Set(x interface{}) error {
	if _, bad := x.(chan int); bad {
		return errors.New("no")
	}
	o.Ok, o.V = true, x
	return nil
}
func (o *optVal) Reset() { o.Ok, o.V = false, nil }

// optPtr: everything on the pointer.
type optPtr struct {
	st int
	v  interface{}
}

func (o *optPtr) Valid() bool        { return o.st == 7 }
func (o *optPtr) Value() interface{} { return o.v }
func (o *optPtr) Set(x interface{}) error {
	o.st, o.v = 7, x
	return nil
}
func (o *optPtr) Reset() { o.st, o.v = 3, nil }

// optRef: everything on the value (a handle).
type optRef struct{ p *optPtr }

func (o optRef) Valid() bool { return o.p != nil && o.p.Valid() }
func (o optRef) Value() interface{} {
	if o.p == nil {
		return nil
	}
	return o.p.Value()
}
func (o optRef) Set(x interface{}) error {
	if o.p == nil {
		return errors.New("nil handle")
	}
	return o.p.Set(x)
}
func (o optRef) Reset() {
	if o.p != nil {
		o.p.Reset()
	}
}

// optSlice: a Maybe that is not a struct.
type optSlice []interface{}

func (o optSlice) Valid() bool { return len(o) == 1 }
func (o optSlice) Value() interface{} {
	if len(o) == 1 {
		return o[0]
	}
	return nil
}
func (o *optSlice) Set(x interface{}) error { *o = optSlice{x}; return nil }
func (o *optSlice) Reset()                  { *o = nil }

var maybeT = reflect.TypeOf((*jsval.Maybe)(nil)).Elem()

// tagFor renders a json struct tag for the name, if there is one.
func tagFor(r *core.Rng, name string) (reflect.StructTag, bool) {
	if name == "" || strings.Contains(name, ",") {
		return "", false
	}
	n := name
	if n == "-" {
		n = "-,"
	} else {
		n += core.Pick(r, []string{"", "", "", ",omitempty", ",string,omitempty"})
	}
	tag := "json:" + strconv.Quote(n)
	switch r.Intn(6) {
	case 0:
		tag = `xml:"other" ` + tag
	case 1:
		tag += ` yaml:"other,omitempty"`
	}
	if reflect.StructTag(tag).Get("json") != n {
		return "", false
	}
	return reflect.StructTag(tag), true
}

// fieldFor picks a Go field type for the JSON value v and the value to store,
// such that a reader sees exactly v (as a Go value of the returned JSON
// meaning).
func fieldFor(r *core.Rng, v interface{}, depth int, exact bool) (reflect.Type, reflect.Value) {
	rv := func(x interface{}) (reflect.Type, reflect.Value) {
		return reflect.TypeOf(x), reflect.ValueOf(x)
	}
	iface := func() (reflect.Type, reflect.Value) {
		t := reflect.TypeOf((*interface{})(nil)).Elem()
		p := reflect.New(t).Elem()
		if v != nil {
			p.Set(reflect.ValueOf(v))
		}
		return t, p
	}
	switch r.Intn(10) {
	case 0:
		return iface()
	case 1:
		return rv(optVal{true, v})
	case 2:
		return rv(optPtr{7, v})
	case 3:
		switch r.Intn(4) {
		case 0:
			return rv(&optVal{true, v})
		case 1:
			return rv(&optPtr{7, v})
		case 2:
			return rv(optRef{&optPtr{7, v}})
		}
		return rv(optSlice{v})
	case 4: // a field of interface type Maybe
		var m jsval.Maybe = &optPtr{7, v}
		if r.Bool() {
			m = optRef{&optPtr{7, v}}
		}
		p := reflect.New(maybeT).Elem()
		p.Set(reflect.ValueOf(m))
		return maybeT, p
	}
	if exact && r.P(2, 3) {
		return iface()
	}
	switch x := v.(type) {
	case nil:
		return iface()
	case bool:
		if r.Bool() {
			return rv(jsval.MaybeBool{ValidFlag: true, Bool: x})
		}
		return rv(x)
	case string:
		k := r.Intn(5)
		if exact && k < 2 {
			k = 4
		}
		switch k {
		case 0:
			return rv(myString(x))
		case 1:
			return rv(&x)
		case 2:
			return rv(jsval.MaybeString{ValidFlag: true, String: x})
		case 3:
			return rv(&jsval.MaybeString{ValidFlag: true, String: x})
		}
		return rv(x)
	case float64:
		k := r.Intn(4)
		if exact && k%2 == 0 {
			k++
		}
		switch k {
		case 0:
			return rv(myFloat64(x))
		case 1:
			return rv(jsval.MaybeFloat{ValidFlag: true, Float: x})
		case 2:
			return rv(&x)
		}
		return rv(x)
	case []interface{}:
		if exact {
			return rv(x)
		}
		return rv(core.Pick(r, nonNil(typedSlices(x))))
	case map[string]interface{}:
		if exact {
			return rv(x)
		}
		if r.P(2, 3) && depth > 0 {
			if s, ok := structTwin(r, x, nil, depth-1, exact); ok {
				if r.Bool() {
					return s.Elem().Type(), s.Elem()
				}
				return s.Type(), s
			}
		}
		return rv(core.Pick(r, nonNil(typedMaps(x))))
	}
	panic("value")
}

func absentMaybes() []interface{} {
	return []interface{}{jsval.MaybeString{}, jsval.MaybeInt{Int: 3}, jsval.MaybeFloat{Float: 1}, jsval.MaybeBool{}, jsval.MaybeUint{}, jsval.MaybeTime{}, optVal{V: "stale"}, optPtr{st: 3, v: 1.0}, (*jsval.MaybeString)(nil), (*optVal)(nil), (*optPtr)(nil), optRef{}, optSlice(nil), optSlice{1, 2}, &optPtr{}, &jsval.MaybeInt{}}
}

// twinMu: reflect.StructOf keeps every type for ever; fine at these sizes.
var twinMu sync.Mutex

// structTwin makes a pointer to a struct of a new type that represents the
// object m. absent names declared but absent properties, rendered as invalid
// Maybe fields or not at all.
func structTwin(r *core.Rng, m map[string]interface{}, absent []string, depth int, exact bool) (reflect.Value, bool) {
	type fld struct {
		f reflect.StructField
		v reflect.Value
	}
	var fs []fld
	used := map[string]bool{}
	n := 0
	add := func(name string, t reflect.Type, v reflect.Value) bool {
		// the Go name may serve as the property name
		if goName(name) && r.Bool() && !used[name] {
			used[name] = true
			f := reflect.StructField{Name: name, Type: t}
			switch r.Intn(4) {
			case 0:
				f.Tag = `json:",omitempty"`
			case 1:
				f.Tag = `xml:"zzz"`
			case 2:
				f.Tag = `json:""`
			}
			fs = append(fs, fld{f, v})
			return true
		}
		tag, ok := tagFor(r, name)
		if !ok {
			return false
		}
		for {
			n++
			gn := fmt.Sprintf("F%d", n)
			if r.P(1, 3) {
				gn = fmt.Sprintf("Zz%d", 1000-n)
			}
			if used[gn] || m[gn] != nil {
				continue
			}
			if _, clash := m[gn]; clash {
				continue
			}
			used[gn] = true
			fs = append(fs, fld{reflect.StructField{Name: gn, Type: t, Tag: tag}, v})
			return true
		}
	}
	for _, k := range model.SortedKeys(m) {
		t, v := fieldFor(r, m[k], depth, exact)
		if !add(k, t, v) {
			return reflect.Value{}, false
		}
	}
	for _, k := range absent {
		if _, ok := m[k]; ok || !r.P(2, 3) {
			continue
		}
		a := core.Pick(r, absentMaybes())
		if !add(k, reflect.TypeOf(a), reflect.ValueOf(a)) {
			return reflect.Value{}, false
		}
	}
	if r.P(1, 3) { // invisible fields
		x := core.Pick(r, []interface{}{"hidden", 1.5, optVal{true, "x"}, map[string]interface{}{"a": 1}})
		gn := fmt.Sprintf("Hidden%d", r.Intn(5))
		if _, clash := m[gn]; !clash {
			fs = append(fs, fld{reflect.StructField{Name: gn, Type: reflect.TypeOf(x), Tag: `json:"-"`}, reflect.ValueOf(x)})
		}
	}
	for i := r.Intn(3); i > 0; i-- { // unexported ones, even if they have a name
		x := core.Pick(r, []interface{}{"", 1.5, optVal{}, jsval.MaybeString{}, map[string]interface{}{}})
		f := reflect.StructField{Name: fmt.Sprintf("hidden%d", i), PkgPath: "verif/props", Type: reflect.TypeOf(x)}
		if len(absent) > 0 && r.Bool() {
			f.Tag, _ = tagFor(r, core.Pick(r, absent))
		}
		fs = append(fs, fld{f: f})
	}
	p := r.Perm(len(fs))
	sf := make([]reflect.StructField, len(fs))
	for i, j := range p {
		sf[i] = fs[j].f
	}
	twinMu.Lock()
	t := reflect.StructOf(sf)
	twinMu.Unlock()
	s := reflect.New(t)
	for i, j := range p {
		if fs[j].v.IsValid() {
			s.Elem().Field(i).Set(fs[j].v)
		}
	}
	return s, true
}

func goName(s string) bool {
	if s == "" || s[0] < 'A' || s[0] > 'Z' {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9') {
			return false
		}
	}
	return true
}

// nonNil drops typed nils, which stand for null.
func nonNil(l []interface{}) []interface{} {
	var out []interface{}
	for _, x := range l {
		rv := reflect.ValueOf(x)
		if (rv.Kind() == reflect.Map || rv.Kind() == reflect.Slice) && rv.IsNil() {
			continue
		}
		out = append(out, x)
	}
	return out
}

// structMap is an independent rendering of the visible properties of a
// struct as a map, with Maybe values unwrapped.
func structMap(rv reflect.Value) map[string]interface{} {
	out := map[string]interface{}{}
	var own, emb func(rv reflect.Value)
	emb = func(rv reflect.Value) {
		t := rv.Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !f.Anonymous || tagName(f) != "" {
				continue
			}
			fv := rv.Field(i)
			if fv.Kind() == reflect.Ptr && fv.Type().Elem().Kind() == reflect.Struct {
				if fv.IsNil() {
					continue
				}
				fv = fv.Elem()
			}
			if fv.Kind() == reflect.Struct {
				for k, v := range structMap(fv) {
					out[k] = v
				}
			}
		}
	}
	own = func(rv reflect.Value) {
		t := rv.Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.Anonymous && tagName(f) == "" && (f.Type.Kind() == reflect.Struct || f.Type.Kind() == reflect.Ptr && f.Type.Elem().Kind() == reflect.Struct) {
				continue
			}
			if f.PkgPath != "" || f.Tag.Get("json") == "-" {
				continue
			}
			name := tagName(f)
			if name == "" {
				name = f.Name
			}
			fv := rv.Field(i)
			delete(out, name)
			if val, ok := unwrap(fv); ok {
				out[name] = val
			}
		}
	}
	emb(rv)
	own(rv)
	return out
}

func tagName(f reflect.StructField) string {
	n, _, _ := strings.Cut(f.Tag.Get("json"), ",")
	return n
}

// unwrap yields what a property holds, and whether it is present.
func unwrap(fv reflect.Value) (interface{}, bool) {
	t := fv.Type()
	if !t.Implements(maybeT) && !reflect.PtrTo(t).Implements(maybeT) {
		return fv.Interface(), true
	}
	if (fv.Kind() == reflect.Ptr || fv.Kind() == reflect.Interface) && fv.IsNil() {
		return nil, false
	}
	var mv jsval.Maybe
	if t.Implements(maybeT) {
		mv = fv.Interface().(jsval.Maybe)
	} else {
		p := reflect.New(t)
		p.Elem().Set(fv)
		mv = p.Interface().(jsval.Maybe)
	}
	if !mv.Valid() {
		return nil, false
	}
	return mv.Value(), true
}

// defaultsStruct: defaults in structs with Maybe fields.
func defaultsStruct(c *core.Case) {
	rg := c.Rng
	type field struct {
		name    string
		proto   interface{} // zero field value
		set     func() interface{}
		k       func(d interface{}) jsval.Constraint
		def     interface{}
		wantDef interface{} // what Value() must return
		hasDef  bool
		present bool
		val     interface{}
	}
	var fs []*field
	names := []string{"a", "b", "c", "d", "e", "f", "名前"}
	intDefault := func() (interface{}, int64) {
		n := int64(rg.Range(-1000, 1000))
		if u := n; u >= 0 && rg.P(1, 3) {
			return core.Pick(rg, []interface{}{uint(u), uint16(u), uint32(u), uint64(u)}), n
		}
		if s := n; s > -100 && s < 100 && rg.P(1, 3) {
			return core.Pick(rg, []interface{}{int8(s), float32(s)}), n
		}
		return core.Pick(rg, []interface{}{int(n), n, float64(n), int32(n), int16(n)}), n
	}
	for _, n := range names[:rg.Range(1, len(names))] {
		f := &field{name: n, hasDef: rg.P(2, 3), present: rg.P(1, 3)}
		ptr := rg.P(1, 5)
		switch rg.Intn(7) {
		case 0:
			s := model.GenString(rg)
			f.def, f.wantDef = s, s
			f.val = core.Pick(rg, []interface{}{"", "x"})
			f.proto = jsval.MaybeString{}
			if ptr {
				f.proto = (*jsval.MaybeString)(nil)
			}
			f.k = func(d interface{}) jsval.Constraint {
				k := jsval.String()
				if d != nil {
					k.Default(d)
				}
				return k
			}
		case 1:
			d, w := intDefault()
			f.def, f.wantDef = d, w
			f.val = core.Pick(rg, []interface{}{int64(0), int64(5)})
			f.proto = jsval.MaybeInt{}
			if ptr {
				f.proto = (*jsval.MaybeInt)(nil)
			}
			f.k = func(d interface{}) jsval.Constraint {
				k := jsval.Integer()
				if d != nil {
					k.Default(d)
				}
				return k
			}
		case 2:
			u := uint64(rg.Intn(1000))
			f.def, f.wantDef = core.Pick(rg, []interface{}{int(u), u, float64(u), uint8(u % 200), uint16(u), uint(u), uint32(u), int16(u), int32(u), int64(u), float32(u)}), u
			if x, ok := f.def.(uint8); ok {
				f.wantDef = uint64(x)
			}
			f.val = core.Pick(rg, []interface{}{uint64(0), uint64(5)})
			f.proto = jsval.MaybeUint{}
			f.k = func(d interface{}) jsval.Constraint {
				k := jsval.Integer()
				if d != nil {
					k.Default(d)
				}
				return k
			}
		case 3:
			x := rg.Float()
			f.def, f.wantDef = x, x
			if rg.Bool() {
				n := rg.Range(-50, 50)
				f.def, f.wantDef = core.Pick(rg, []interface{}{n, int8(n), int16(n), int32(n), int64(n), float32(n)}), float64(n)
				if n >= 0 && rg.P(1, 3) {
					f.def = core.Pick(rg, []interface{}{uint(n), uint8(n), uint16(n), uint32(n), uint64(n)})
				}
			}
			f.val = core.Pick(rg, []interface{}{0.0, 2.5})
			f.proto = jsval.MaybeFloat{}
			if ptr {
				f.proto = (*jsval.MaybeFloat)(nil)
			}
			f.k = func(d interface{}) jsval.Constraint {
				k := jsval.Number()
				if d != nil {
					k.Default(d)
				}
				return k
			}
		case 4:
			b := rg.Bool()
			f.def, f.wantDef = b, b
			f.val = false
			f.proto = jsval.MaybeBool{}
			f.k = func(d interface{}) jsval.Constraint {
				k := jsval.Boolean()
				if d != nil {
					k.Default(d)
				}
				return k
			}
		case 5:
			s := core.Pick(rg, []interface{}{"x", 1.0, true})
			f.def, f.wantDef = s, s
			f.val = core.Pick(rg, []interface{}{nil, "", 0.0})
			f.proto = core.Pick(rg, []interface{}{optVal{}, optPtr{}, (*optVal)(nil), (*optPtr)(nil), optSlice(nil)})
			f.k = func(d interface{}) jsval.Constraint {
				return &probe{id: n, log: new([]delivery), def: d, has: d != nil}
			}
		case 6:
			// a plain field is always present
			f.present = true
			f.val = core.Pick(rg, []interface{}{"", "y"})
			f.proto = ""
			f.def, f.wantDef = "zzz", "zzz"
			f.k = func(d interface{}) jsval.Constraint {
				k := jsval.String()
				if d != nil {
					k.Default(d)
				}
				return k
			}
		}
		fs = append(fs, f)
	}
	o := jsval.Object()
	// some of the fields may be declared by another constraint on the same
	// object
	o2 := jsval.Object().AdditionalProperties(jsval.EmptyConstraint)
	split := 0
	if rg.P(1, 3) {
		split = rg.Range(1, 5)
		o.AdditionalProperties(jsval.EmptyConstraint)
	}
	cm := &jsval.ConstraintMap{}
	var sf []reflect.StructField
	var hist []string
	nlive := 0
	for i, f := range fs {
		var d interface{}
		if f.hasDef {
			d = f.def
		}
		k := f.k(d)
		if rg.P(1, 4) {
			cm.SetReference(f.name, k)
			k = jsval.Reference(cm).RefersTo(f.name)
		}
		if split > 0 && rg.Bool() {
			o2.AddProp(f.name, k)
		} else {
			o.AddProp(f.name, k)
		}
		sf = append(sf, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(f.proto), Tag: reflect.StructTag("json:" + strconv.Quote(f.name))})
		hist = append(hist, fmt.Sprintf("%s %T present=%v val=%v default=%v(%T)", f.name, f.proto, f.present, f.val, d, d))
		if f.present {
			nlive++
		}
	}
	fail := rg.P(1, 4)
	var whole jsval.Constraint = o
	switch split {
	case 1, 2: // a schema dependency
		trigger := "trigger"
		for _, f := range fs {
			if f.present && rg.P(1, 2) {
				trigger = f.name
			}
		}
		if trigger == "trigger" {
			sf = append(sf, reflect.StructField{Name: "Trigger", Type: reflect.TypeOf(""), Tag: `json:"trigger"`})
			nlive++
		}
		o.SchemaDependency(trigger, o2)
	case 3:
		whole = jsval.All().Add(o).Add(o2)
	case 4:
		cm.SetReference("whole object", jsval.All().Add(o2).Add(jsval.Not(jsval.NullConstraint)).Add(o))
		whole = jsval.Reference(cm).RefersTo("whole object")
	case 5:
		whole = jsval.All().Add(jsval.Any().Add(jsval.NullConstraint).Add(o)).Add(jsval.OneOf().Add(o2).Add(jsval.String()))
	}
	if split > 0 {
		fail = false
		hist = append(hist, fmt.Sprint("split ", split))
	}
	if fail {
		// a rule that fails after the properties are visited
		if rg.Bool() {
			o.MinProperties(nlive + 1)
		} else {
			o.Required("missing")
		}
	} else if split == 0 && rg.Bool() {
		o.MaxProperties(nlive).MinProperties(nlive)
	}
	s := reflect.New(reflect.StructOf(sf))
	for i, f := range fs {
		fv := s.Elem().Field(i)
		if !f.present {
			if fv.Kind() == reflect.Ptr && rg.Bool() {
				fv.Set(reflect.New(fv.Type().Elem()))
			}
			continue
		}
		if fv.Kind() == reflect.String {
			fv.SetString(f.val.(string))
			continue
		}
		if fv.Kind() == reflect.Ptr {
			fv.Set(reflect.New(fv.Type().Elem()))
		} else {
			fv = fv.Addr()
		}
		if fv.Kind() == reflect.Ptr && fv.Elem().Kind() == reflect.Ptr {
			fv = fv.Elem()
		}
		if err := fv.Interface().(jsval.Maybe).Set(f.val); err != nil {
			c.R.Fail("harness: cannot set %v: %v", f.val, err)
			return
		}
	}
	var v validator = newRoot(rg, whole)
	var in interface{} = s.Interface()
	nest := rg.Intn(3)
	switch nest {
	case 1: // behind a pointer in a map
		v, in = jsval.Object().AddProp("p", whole), map[string]interface{}{"p": in}
	case 2:
		v, in = jsval.Array().Items(whole), []interface{}{in}
	}
	what := func() string { return strings.Join(hist, "; ") }
	if !expect(c, v, in, verdictOf(!fail), what) {
		return
	}
	for i, f := range fs {
		val, ok := unwrap(s.Elem().Field(i))
		switch {
		case f.present:
			if !ok || !reflect.DeepEqual(val, f.val) {
				c.Violate("modified", "present field %s now holds (%v, %v)\n%s", f.name, val, ok, what())
				return
			}
		case f.hasDef && !fail:
			if !ok || !reflect.DeepEqual(val, f.wantDef) {
				c.Violate("defaults", "field %s holds (%v (%T), present %v), the default is %v\n%s", f.name, val, val, ok, f.wantDef, what())
				return
			}
			c.Count("struct_defaults_filled", 1)
		default:
			if ok {
				c.Violate("modified", "absent field %s now holds %v\n%s", f.name, val, what())
				return
			}
		}
	}
	c.Eval(key("struct", hist, fail, nest))
	_ = math.Pi
}
