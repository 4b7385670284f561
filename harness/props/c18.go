package props

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/lestrrat-go/jsval"

	"verif/core"
	"verif/model"
)

// snapshot renders a validator through the public generator; "" if it has no
// source form.
func snapshot(c *core.Case, v *jsval.JSVal) (string, bool) {
	var sb strings.Builder
	var err error
	if !c.Call("generation", func() { err = jsval.NewGenerator().Process(&sb, v) }) {
		return "", false
	}
	if err != nil {
		return "", true
	}
	return sb.String(), true
}

type unit struct {
	spec *model.Spec
	env  model.Env
	text string // schema text, if built from one
	mk   func(r *core.Rng) *jsval.JSVal
	v    *jsval.JSVal
}

func (u *unit) String() string {
	if u.text != "" {
		return "schema " + u.text
	}
	return u.spec.String() + " refs " + model.DescribeEnv(u.env)
}

func mkUnit(c *core.Case) *unit {
	r := c.Rng
	u := &unit{}
	if r.P(1, 3) {
		var doc model.M
		switch r.Intn(3) {
		case 0:
			doc = model.GenRefDoc(r, model.SOpts{Depth: 2, Defaults: r.P(1, 3)}, false)
		default:
			doc = model.GenSchema(r, model.SOpts{Depth: r.Range(1, 3), Formats: true, Stray: true, Defaults: r.P(1, 3)})
		}
		d := model.ReadDoc(doc)
		u.spec, u.env = d.Spec, d.Env
		u.text = model.Encode(nil, doc)
		u.mk = func(r *core.Rng) *jsval.JSVal {
			text := model.Encode(r, doc)
			s, ok := readSchema(c, text)
			if !ok {
				return nil
			}
			v, err, ok := build(c, s, decodeM(text), true, text)
			if err != nil {
				c.Violate("build failed", "%v\n%s", err, text)
			}
			if !ok || err != nil {
				return nil
			}
			return v
		}
		return u
	}
	names := pickRefNames(r, r.Range(1, 3))
	o := model.GenOpts{Depth: r.Range(1, 3), Formats: true, Defaults: r.P(1, 3), Wide: r.P(1, 3), Refs: names, FlatRefs: names}
	u.env = model.GenEnv(r, names, model.GenOpts{Depth: 2, Defaults: o.Defaults})
	if r.P(2, 3) {
		u.spec = model.GenKind(r, model.Object, o)
	} else {
		u.spec = model.GenSpec(r, o)
	}
	u.mk = func(r *core.Rng) *jsval.JSVal {
		v := jsval.New()
		b := &model.Builder{Rng: r, Resolver: v}
		if r != nil && r.Bool() {
			v.SetRoot(b.Build(u.spec))
			registerAll(r, v.SetReference, b, u.env, names)
			return v
		}
		for _, n := range names {
			v.SetReference(n, b.Build(u.env[n]))
		}
		return v.SetRoot(b.Build(u.spec))
	}
	return u
}

type sample struct {
	json interface{}
	form int // 0 JSON, 1 pointer to it, 2 struct, 3 pointer to struct
	rv   reflect.Value
}

// input makes a fresh copy of the sample.
func (s sample) input() interface{} {
	switch s.form {
	case 1:
		if m, ok := model.Copy(s.json).(map[string]interface{}); ok {
			return &m
		}
	case 2:
		return s.rv.Elem().Interface()
	case 3:
		p := reflect.New(s.rv.Elem().Type())
		p.Elem().Set(s.rv.Elem())
		return p.Interface()
	}
	return model.Copy(s.json)
}

func (s sample) String() string {
	if s.form >= 2 {
		return fmt.Sprintf("%s %+v", s.rv.Elem().Type(), s.rv.Elem().Interface())
	}
	return model.JSON(s.json)
}

type outcome struct {
	ok   bool
	dump string
}

func (s sample) run(c *core.Case, v *jsval.JSVal, u *unit) (outcome, bool) {
	x := s.input()
	res, ok := validate(c, v, x, func() string { return u.String() + "\nvalue " + s.String() })
	if !ok {
		return outcome{}, false
	}
	o := outcome{ok: res.accepted}
	if res.accepted && s.form < 2 {
		if p, isp := x.(*map[string]interface{}); isp {
			x = *p
		}
		o.dump = dumpTyped(x)
	}
	return o, true
}

func hasDefaults(u *unit) bool {
	f := false
	chk := func(s *model.Spec) { f = f || s.HasDef }
	model.Walk(u.spec, chk)
	for _, s := range u.env {
		model.Walk(s, chk)
	}
	return f
}

func historyCase(c *core.Case) {
	r := c.Rng
	nu := r.Range(1, 4)
	us := make([]*unit, nu)
	ss := make([][]sample, nu)
	want := make([][]outcome, nu)
	snaps := make([]string, nu)
	for i := range us {
		us[i] = mkUnit(c)
		structs := !hasDefaults(us[i])
		for j := r.Range(3, 7); j > 0; j-- {
			s := sample{json: model.GenValue(r, us[i].spec, us[i].env, 3)}
			if us[i].text != "" {
				s.json = roundTrip(s.json)
			}
			if m, ok := s.json.(map[string]interface{}); ok {
				s.form = r.Intn(4)
				if s.form >= 2 {
					t, ok := structTwin(r, m, []string{"a", "b", "foo"}, 1, true)
					if ok && structs {
						s.rv = t
					} else {
						s.form = 0
					}
				}
			}
			ss[i] = append(ss[i], s)
		}
		// a validator of its own for every first verdict
		for _, s := range ss[i] {
			v := us[i].mk(r.Fork())
			if v == nil {
				return
			}
			o, ok := s.run(c, v, us[i])
			if !ok {
				return
			}
			if w := model.Eval(us[i].spec, s.json, us[i].env); s.form == 0 && w != model.Unknown && (w == model.Accept) != o.ok {
				c.Violate("wrong verdict", "a fresh validator says %s, the model %s\n%s\nvalue %s", acc(o.ok), w, us[i], s)
				return
			}
			want[i] = append(want[i], o)
		}
		us[i].v = us[i].mk(r.Fork())
		if us[i].v == nil {
			return
		}
		var ok bool
		if snaps[i], ok = snapshot(c, us[i].v); !ok {
			return
		}
	}
	shared := map[string]interface{}{} // one map object with changing content
	var hist []string
	nops := r.Range(20, 60)
	for k := 0; k < nops; k++ {
		i := r.Intn(nu)
		u := us[i]
		switch op := r.Intn(12); {
		case op < 8:
			j := r.Intn(len(ss[i]))
			times := core.Pick(r, []int{1, 1, 1, 2, 5})
			for t := 0; t < times; t++ {
				o, ok := ss[i][j].run(c, u.v, u)
				if !ok {
					return
				}
				if o != want[i][j] {
					c.Violate("history matters", "alone: %+v, after %d operations: %+v\n%s\nvalue %s\nhistory %v", want[i][j], k, o, u, ss[i][j], hist)
					return
				}
				c.Count("repeated_verdicts", 1)
			}
			hist = append(hist, fmt.Sprintf("v%d.x%d", i, j))
		case op == 8: // the same map object, with other content
			m, ok := model.GenValue(r, u.spec, u.env, 3).(map[string]interface{})
			if !ok {
				continue
			}
			if u.text != "" {
				m = roundTrip(m).(map[string]interface{})
			}
			for n := range shared {
				delete(shared, n)
			}
			for n, e := range model.Copy(m).(map[string]interface{}) {
				shared[n] = e
			}
			w := model.Eval(u.spec, m, u.env)
			if !expect(c, u.v, shared, w, show(u.spec, u.env, m)) {
				return
			}
			c.Count("reused_map_object", 1)
			hist = append(hist, fmt.Sprintf("v%d.shared", i))
		case op == 9: // a validator made meanwhile
			v := u.mk(r.Fork())
			if v == nil {
				return
			}
			j := r.Intn(len(ss[i]))
			o, ok := ss[i][j].run(c, v, u)
			if !ok {
				return
			}
			if o != want[i][j] {
				c.Violate("history matters", "alone: %+v, a validator built later: %+v\n%s\nvalue %s\nhistory %v", want[i][j], o, u, ss[i][j], hist)
				return
			}
			c.Count("rebuilt_verdicts", 1)
		case op == 10: // other kinds of values altogether
			x := hostile(r, 2)
			if _, ok := validate(c, u.v, x, func() string { return u.String() + "\nvalue " + describe(x) }); !ok {
				return
			}
			hist = append(hist, fmt.Sprintf("v%d.%T", i, x))
		case op == 11:
			s, ok := snapshot(c, u.v)
			if !ok {
				return
			}
			if s != snaps[i] {
				c.Violate("validator changed", "before:\n%s\nafter %v:\n%s", snaps[i], hist, s)
				return
			}
			c.Count("snapshots_compared", 1)
		}
	}
	for i, u := range us {
		s, ok := snapshot(c, u.v)
		if !ok {
			return
		}
		if s != snaps[i] {
			c.Violate("validator changed", "before:\n%s\nafter %v:\n%s", snaps[i], hist, s)
			return
		}
	}
	c.Sample(map[string]interface{}{"validators": nu, "history": hist})
	c.Eval(key(us, hist))
}

// orderCase: many declarations in many orders, many keys.
// changeJSON changes something in place in x, a map or slice, mostly towards
// another value y. It reports whether x could be changed.
func changeJSON(r *core.Rng, x, y interface{}) bool {
	switch x := x.(type) {
	case map[string]interface{}:
		m, _ := y.(map[string]interface{})
		if r.P(1, 4) && m != nil {
			clear(x)
			for k, e := range m {
				x[k] = model.Copy(e)
			}
			return true
		}
		ks := model.SortedKeys(x)
		if len(ks) > 0 && r.P(2, 3) {
			k := core.Pick(r, ks)
			if changeJSON(r, x[k], m[k]) && r.Bool() {
				return true
			}
			if r.P(1, 3) {
				delete(x, k)
			} else {
				x[k] = core.Pick(r, []interface{}{nil, true, 1.0, -2.5, "", "abc", map[string]interface{}{}, []interface{}{"x"}, model.Copy(m[k])})
			}
			return true
		}
		if len(m) > 0 {
			k := core.Pick(r, model.SortedKeys(m))
			x[k] = model.Copy(m[k])
			return true
		}
		x[core.Pick(r, []string{"a", "b", "foo", "x"})] = core.Pick(r, []interface{}{nil, true, 1.0, "abc"})
		return true
	case []interface{}:
		l, _ := y.([]interface{})
		if len(x) == 0 {
			return false
		}
		i := r.Intn(len(x))
		if len(l) > 0 && r.P(2, 3) {
			e := core.Pick(r, l)
			if changeJSON(r, x[i], e) && r.Bool() {
				return true
			}
			x[i] = model.Copy(e)
			return true
		}
		x[i] = core.Pick(r, []interface{}{nil, true, 1.0, "", model.Copy(x[r.Intn(len(x))])})
		return true
	}
	return false
}

// changeStruct changes a field of a struct in place.
func changeStruct(r *core.Rng, sv reflect.Value) {
	for try := 0; try < 5; try++ {
		if sv.NumField() == 0 {
			return
		}
		f := sv.Field(r.Intn(sv.NumField()))
		if !f.CanSet() {
			continue
		}
		if mv, ok := f.Addr().Interface().(jsval.Maybe); ok {
			if mv.Valid() && r.Bool() {
				mv.Reset()
				return
			}
			for _, k := range r.Perm(6) {
				if mv.Set([]interface{}{"", "abc", 1.0, int64(7), true, uint64(3)}[k]) == nil {
					return
				}
			}
		}
		switch f.Kind() {
		case reflect.String:
			f.SetString(core.Pick(r, []string{"", "a", "abc", f.String() + "x"}))
		case reflect.Float32, reflect.Float64:
			f.SetFloat(core.Pick(r, []float64{0, 1, -1.5, f.Float() + 1, f.Float() - 0.5, 1e9}))
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			f.SetInt(core.Pick(r, []int64{0, 1, -7, f.Int() + 1, f.Int() - 1, 100}))
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			f.SetUint(core.Pick(r, []uint64{0, 1, f.Uint() + 1, 100}))
		case reflect.Bool:
			f.SetBool(!f.Bool())
		case reflect.Struct:
			changeStruct(r, f)
		case reflect.Interface:
			if f.NumMethod() == 0 {
				f.Set(reflect.ValueOf(core.Pick(r, []interface{}{true, 1.0, "", "abc", map[string]interface{}{}})))
			}
		default:
			f.Set(reflect.Zero(f.Type()))
		}
		return
	}
}

// inPlaceCase: the very same Go objects are judged again and again while
// their content changes.
func inPlaceCase(c *core.Case) {
	r := c.Rng
	u := mkUnit(c)
	v := u.mk(r.Fork())
	if v == nil {
		return
	}
	structs := !hasDefaults(u)
	last, flips := -1, 0
	see := func(ok bool) {
		n := 0
		if ok {
			n = 1
		}
		if last >= 0 && n != last {
			flips++
		}
		last = n
	}
	x := model.Copy(model.GenValue(r, u.spec, u.env, 3))
	if u.text != "" {
		x = roundTrip(x)
	}
	next := func() interface{} {
		y := model.GenValue(r, u.spec, u.env, 3)
		if u.text != "" {
			y = roundTrip(y)
		}
		return y
	}
	var seq []string
	if m, ok := x.(map[string]interface{}); ok && structs && r.Bool() {
		t, ok := structTwin(r, m, []string{"a", "b", "foo"}, 1, true)
		if !ok {
			return
		}
		p := reflect.New(t.Elem().Type())
		p.Elem().Set(t.Elem())
		for k := r.Range(3, 8); k > 0; k-- {
			fresh := u.mk(r.Fork())
			if fresh == nil {
				return
			}
			q := reflect.New(p.Elem().Type())
			q.Elem().Set(p.Elem())
			what := func() string { return fmt.Sprintf("%s\nvalue %+v\nhistory %v", u, q.Elem().Interface(), seq) }
			a, ok := validate(c, fresh, q.Interface(), what)
			if !ok {
				return
			}
			b, ok := validate(c, v, p.Interface(), what)
			if !ok {
				return
			}
			if a.accepted != b.accepted {
				c.Violate("history matters", "a struct judged before, changed in place: %s, a fresh validator given a fresh copy says %s\n%s", acc(b.accepted), acc(a.accepted), what())
				return
			}
			see(b.accepted)
			seq = append(seq, fmt.Sprintf("%+v", q.Elem().Interface()))
			changeStruct(r, p.Elem())
		}
		c.Count("structs_in_place", 1)
	} else {
		m, isMap := x.(map[string]interface{})
		for k := r.Range(3, 8); k > 0; k-- {
			now := model.Copy(x)
			want := model.Eval(u.spec, now, u.env)
			arg := x
			what := func() string {
				return fmt.Sprintf("%s\nvalue %s, the same object as before\nhistory %v", u, model.JSON(now), seq)
			}
			if isMap && r.Bool() {
				arg = &m
				fresh := u.mk(r.Fork())
				if fresh == nil {
					return
				}
				m2 := model.Copy(now).(map[string]interface{})
				a, ok := validate(c, fresh, &m2, what)
				if !ok {
					return
				}
				if want = model.Reject; a.accepted {
					want = model.Accept
				}
			}
			if !expect(c, v, arg, want, what) {
				return
			}
			if want != model.Unknown {
				see(want == model.Accept)
			}
			seq = append(seq, model.JSON(now))
			if !changeJSON(r, x, next()) {
				break
			}
		}
		c.Count("values_in_place", 1)
	}
	c.Count("verdict_changes_in_place", flips)
	c.Eval(key(u, seq))
}

func orderCase(c *core.Case) {
	r := c.Rng
	u := mkUnit(c)
	nb := r.Range(3, 6)
	vs := make([]*jsval.JSVal, nb)
	for i := range vs {
		if vs[i] = u.mk(r.Fork()); vs[i] == nil {
			return
		}
	}
	for k := 0; k < 5; k++ {
		s := sample{json: model.GenValue(r, u.spec, u.env, 4)}
		if u.text != "" {
			s.json = roundTrip(s.json)
		}
		var first outcome
		for i := 0; i < 3*nb; i++ {
			// model.Copy gives the map another insertion order
			o, ok := s.run(c, vs[i%nb], u)
			if !ok {
				return
			}
			if i == 0 {
				first = o
				continue
			}
			if o != first {
				c.Violate("order matters", "validator 0: %+v, validator %d (built the same way, in another order): %+v\n%s\nvalue %s", first, i%nb, o, u, s)
				return
			}
			c.Count("order_comparisons", 1)
		}
		c.Eval(key("order", u.String(), s.String()))
	}
}

// structs of different types that share their name, and equal looking types
func localTypes(r *core.Rng) []struct {
	V interface{}
	M map[string]interface{}
} {
	type out = struct {
		V interface{}
		M map[string]interface{}
	}
	var l []out
	s := func() string { return core.Pick(r, []string{"", "x", "yy"}) }
	{
		type T struct {
			A string `json:"a"`
			B string `json:"b"`
		}
		x := T{s(), s()}
		l = append(l, out{x, map[string]interface{}{"a": x.A, "b": x.B}})
	}
	{
		type T struct {
			A string `json:"b"`
			B string `json:"a"`
		}
		x := T{s(), s()}
		l = append(l, out{x, map[string]interface{}{"b": x.A, "a": x.B}})
	}
	{
		type T struct {
			A string `json:"a"`
			B string `json:"-"`
		}
		x := T{s(), s()}
		l = append(l, out{x, map[string]interface{}{"a": x.A}})
	}
	{
		type T struct {
			A jsval.MaybeString `json:"a"`
			B string            `json:"b"`
			C float64           `json:"c"`
		}
		x := T{B: s(), C: float64(r.Intn(3))}
		m := map[string]interface{}{"b": x.B, "c": x.C}
		if r.Bool() {
			v := s()
			x.A.Set(v)
			m["a"] = v
		}
		l = append(l, out{x, m})
	}
	{
		type T struct{ A, B string }
		x := T{s(), s()}
		l = append(l, out{x, map[string]interface{}{"A": x.A, "B": x.B}})
	}
	{
		type T struct {
			B string `json:"b"`
			A string `json:"a"`
		}
		x := T{s(), s()}
		l = append(l, out{x, map[string]interface{}{"a": x.A, "b": x.B}})
	}
	{
		x := struct {
			A string `json:"a"`
			B string `json:"b"`
		}{s(), s()}
		l = append(l, out{x, map[string]interface{}{"a": x.A, "b": x.B}})
	}
	{
		x := struct {
			A string `json:"foo"`
			B string `json:"b,omitempty"`
		}{s(), s()}
		l = append(l, out{x, map[string]interface{}{"foo": x.A, "b": x.B}})
	}
	{
		type T struct{}
		l = append(l, out{T{}, map[string]interface{}{}})
	}
	return l
}

func typesCase(c *core.Case) {
	r := c.Rng
	s := &model.Spec{Kind: model.Object}
	for _, n := range []string{"a", "b", "A", "foo", "c"} {
		switch r.Intn(5) {
		case 0:
			s.Props = append(s.Props, model.Prop{Name: n, Spec: &model.Spec{Kind: model.String, MinLen: model.IP(r.Intn(2))}})
		case 1:
			s.Props = append(s.Props, model.Prop{Name: n, Spec: &model.Spec{Kind: model.Empty}})
		case 2:
			s.Required = append(s.Required, n)
		}
	}
	if r.Bool() {
		s.AddProps = &model.Spec{Kind: model.Empty}
	}
	if r.P(1, 3) {
		s.MaxProps = model.IP(r.Range(1, 3))
	}
	v := newRoot(r, (&model.Builder{Rng: r}).Build(s))
	l := localTypes(r)
	for _, i := range r.Perm(len(l)) {
		x, m := l[i].V, l[i].M
		p := reflect.New(reflect.TypeOf(x))
		p.Elem().Set(reflect.ValueOf(x))
		w := model.Eval(s, m, nil)
		what := func() string {
			return fmt.Sprintf("constraint %s\nstruct %T %+v of %v", s, x, x, reflect.TypeOf(x))
		}
		if !expect(c, v, x, w, what) || !expect(c, v, p.Interface(), w, what) {
			return
		}
		c.Eval(key("types", s, i, fmt.Sprintf("%+v", x)))
	}
	c.Count("type_sets", 1)
}

// longCase: one validator is used very often, on a few values in random
// order.
func longCase(c *core.Case) {
	r := c.Rng
	kinds := []model.Kind{model.Object, model.Array, model.String, model.Number, model.Integer, model.Bool, model.Enum, model.All, model.Any, model.OneOf, model.Not, model.Ref}
	k := kinds[c.Idx%len(kinds)]
	names := []string{"x"}
	o := model.GenOpts{Depth: 1, Refs: names, FlatRefs: names}
	env := model.GenEnv(r, names, model.GenOpts{})
	var spec *model.Spec
	var vals []interface{}
	var want []bool
	for try := 0; try < 60; try++ {
		if k == model.Ref {
			spec = &model.Spec{Kind: model.Ref, RefName: "x"}
			env = model.GenEnv(r, names, model.GenOpts{Depth: 1})
		} else {
			spec = model.GenKind(r, k, o)
		}
		vals, want = nil, nil
		yes, no := 0, 0
		for i := 0; i < 60 && len(vals) < 6; i++ {
			x := model.GenValue(r, spec, env, 2)
			w := model.Eval(spec, x, env)
			if w == model.Unknown || w == model.Accept && yes >= 3 || w != model.Accept && no >= 3 {
				continue
			}
			if w == model.Accept {
				yes++
			} else {
				no++
			}
			vals, want = append(vals, x), append(want, w == model.Accept)
		}
		if yes > 1 && no > 1 {
			break
		}
	}
	if len(vals) < 2 {
		return
	}
	v := jsval.New()
	b := &model.Builder{Rng: r, Resolver: v}
	v.SetReference("x", b.Build(env["x"]))
	v.SetRoot(b.Build(spec))
	n := r.Range(5000, 9000)
	if r.P(1, 3) {
		n = r.Range(66000, 70000)
	}
	at, bad := 0, -1
	if !c.Call("validation", func() {
		for ; at < n; at++ {
			i := r.Intn(len(vals))
			if (v.Validate(vals[i]) == nil) != want[i] {
				bad = i
				return
			}
		}
	}) {
		return
	}
	if bad >= 0 {
		c.Violate("history matters", "validation number %d gives %s, the model says %s\n%s refs %s\nvalue %s", at+1, acc(!want[bad]), acc(want[bad]), spec, model.DescribeEnv(env), model.JSON(vals[bad]))
		return
	}
	c.Count("validations_of_one_validator", n)
	c.Eval(key("long", spec.String(), model.JSON(vals)))
}

func init() {
	register(&core.Prop{
		ID:    "C18",
		Quick: 2,
		Level: "exploration",
		Rule:  "verdicts (and defaults filled in) of fresh validators, themselves checked against the model, are compared with those given by reused validators within random histories of passing and failing validations of other values, Go types, map objects reused with other content, other validators, generations; with validators built with their rules in other orders; validators are compared before and after through their generated source",
		Run: func(r *core.Run) {
			r.Cases("histories", r.N(8000, 160000), historyCase)
			r.Cases("in_place", r.N(12000, 200000), inPlaceCase)
			r.Cases("orders", r.N(12000, 200000), orderCase)
			r.Cases("types", r.N(8000, 100000), typesCase)
			r.Cases("long", unlessTiny(r.N(360, 6000)), longCase)
		},
	})
}
