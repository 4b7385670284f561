package props

import (
	"fmt"
	"strings"

	"github.com/lestrrat-go/jsval"

	"verif/core"
	"verif/model"
)

// sizeSweep is every small size and the neighbourhood of larger powers of two
// and ten.
var sizeSweep = func() []int {
	var l []int
	for i := 0; i <= 40; i++ {
		l = append(l, i)
		if core.Light() >= 20 && i == 12 {
			return l
		}
	}
	return append(l, 48, 49, 50, 51, 63, 64, 65, 80, 99, 100, 101, 127, 128, 129, 150, 199, 200, 201, 255, 256, 257, 300, 400, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025)
}()

func intSpec(i int) *model.Spec {
	return &model.Spec{Kind: model.Integer, Min: model.FP(float64(i)), Max: model.FP(float64(i))}
}

func openObject() *model.Spec {
	return &model.Spec{Kind: model.Object, AddProps: &model.Spec{Kind: model.Empty}}
}

// sized makes a constraint with n rules of one family and values that satisfy
// it or offend against exactly one of them (the first, the last, some).
func sized(rg *core.Rng, family string, n int) (*model.Spec, []interface{}, model.Env) {
	at := []int{0, n - 1, n / 2, n}
	for i := 0; i < 3; i++ {
		at = append(at, rg.Intn(n+1))
	}
	name := func(i int) string { return fmt.Sprintf("p%d", i) }
	s := &model.Spec{}
	var vals []interface{}
	each := func(f func(i int) interface{}) {
		for _, i := range at {
			if i >= 0 {
				vals = append(vals, f(i))
			}
		}
	}
	switch family {
	case "enum_number", "enum_integer":
		s.Kind = model.Number
		if family == "enum_integer" {
			s.Kind = model.Integer
		}
		for i := 0; i < max(1, n); i++ {
			s.Enum = append(s.Enum, float64(3*i))
		}
		each(func(i int) interface{} { return float64(3 * i) })
		each(func(i int) interface{} { return float64(3*i + 1) })
	case "enum_unsorted", "enum_string_unsorted":
		s.Kind = core.Pick(rg, []model.Kind{model.Number, model.Integer})
		of := func(i int) interface{} { return float64(3*i - n) }
		if family == "enum_string_unsorted" {
			s.Kind = model.String
			of = func(i int) interface{} { return fmt.Sprint(3*i - n) }
		}
		for _, i := range rg.Perm(max(1, n)) {
			s.Enum = append(s.Enum, of(i))
		}
		for i := 0; i <= n; i++ {
			vals = append(vals, of(i))
		}
	case "length":
		// strings of n characters (or many times that) against bounds close to it
		s.Kind = model.String
		n *= rg.Range(1, 20)
		letters := []rune{'a', 'é', '漢', '😀', 'z'}
		of := func(k int) interface{} {
			l := make([]rune, max(0, k))
			for i := range l {
				l[i] = core.Pick(rg, letters)
			}
			return string(l)
		}
		if rg.P(2, 3) {
			s.MinLen = model.IP(max(0, n+rg.Range(-1, 1)))
		}
		if rg.P(2, 3) {
			s.MaxLen = model.IP(max(0, n+rg.Range(-1, 1)))
		}
		for k := n - 2; k <= n+2; k++ {
			vals = append(vals, of(k))
		}
	case "long_member":
		s.Kind = model.String
		long := strings.Repeat(core.Pick(rg, []string{"a", "é", "ab"}), n*rg.Range(1, 5))
		if rg.Bool() {
			s.Enum = []interface{}{long + "x", long}
		} else {
			s.Pattern = "^[^xy]*x?$"
		}
		vals = []interface{}{long, long + "x", long + "y", "y" + long, "x" + long, long + "xx"}
	case "long_names":
		// names that differ at the very end
		long := strings.Repeat(core.Pick(rg, []string{"a", "é", "ab"}), n*rg.Range(1, 5))
		s.Kind = model.Object
		if rg.Bool() {
			s.AddProps = core.Pick(rg, []*model.Spec{{Kind: model.Empty}, intSpec(5)})
		}
		if rg.Bool() {
			s.Props = []model.Prop{{Name: long + "x", Spec: intSpec(1)}, {Name: long + "z", Spec: &model.Spec{Kind: model.Empty}}}
		}
		if rg.Bool() {
			s.Patterns = []model.Prop{{Name: core.Pick(rg, []string{"y$", "^.*y", "y"}), Spec: intSpec(2)}}
		}
		if rg.P(1, 3) {
			s.Required = []string{long + core.Pick(rg, []string{"x", "y", "z"})}
		}
		if rg.P(1, 3) {
			s.PropDeps = []model.PropDep{{From: long + core.Pick(rg, []string{"x", "y"}), To: []string{long + "z"}}}
		}
		for i := 0; i < 14; i++ {
			m := map[string]interface{}{}
			for k, e := range []string{"x", "y", "z", "w"} {
				if rg.Bool() {
					m[long+e] = core.Pick(rg, []interface{}{float64(k + 1), float64(k + 1), 5.0, "x"})
				}
			}
			vals = append(vals, m)
		}
	case "enum_string":
		s.Kind = model.String
		for i := 0; i < max(1, n); i++ {
			s.Enum = append(s.Enum, fmt.Sprintf("m%d", i))
		}
		each(func(i int) interface{} { return fmt.Sprintf("m%d", i) })
		each(func(i int) interface{} { return fmt.Sprintf("m%d ", i) })
	case "enum":
		s.Kind = model.Enum
		for i := 0; i < n; i++ {
			s.Enum = append(s.Enum, []interface{}{float64(i), fmt.Sprint(i), map[string]interface{}{"a": float64(i)}, []interface{}{float64(i)}}[i%4])
		}
		each(func(i int) interface{} { return float64(i) })
		each(func(i int) interface{} { return fmt.Sprint(i) })
		each(func(i int) interface{} { return map[string]interface{}{"a": float64(i)} })
	case "any":
		s.Kind = model.Any
		for i := 0; i < n; i++ {
			s.Children = append(s.Children, intSpec(i))
		}
		each(func(i int) interface{} { return float64(i) })
	case "all":
		s.Kind = model.All
		for i := 0; i < n; i++ {
			s.Children = append(s.Children, &model.Spec{Kind: model.Not, Children: []*model.Spec{intSpec(i)}})
		}
		each(func(i int) interface{} { return float64(i) })
	case "oneof":
		s.Kind = model.OneOf
		for i := 0; i < n; i++ {
			k := intSpec(i)
			if rg.P(1, 4) {
				k.Max = model.FP(float64(i + 1 + rg.Intn(3)))
			}
			s.Children = append(s.Children, k)
		}
		each(func(i int) interface{} { return float64(i) })
	case "same":
		// any number of children that agree
		k := core.Pick(rg, []int{0, 1, 2, 3})
		s.Kind = core.Pick(rg, []model.Kind{model.OneOf, model.OneOf, model.OneOf, model.Any, model.All})
		for i := 0; i < n; i++ {
			t := intSpec(5)
			if k == 3 {
				t = &model.Spec{Kind: model.Empty}
			}
			s.Children = append(s.Children, t)
		}
		for i := 0; i < k && n > 0; i++ {
			s.Children[rg.Intn(n)] = intSpec(6)
		}
		vals = []interface{}{5.0, 6.0, 7.0, "x"}
	case "nested_comb":
		s = intSpec(5)
		for i := 0; i < min(n, 200); i++ {
			k := core.Pick(rg, []model.Kind{model.Any, model.All, model.OneOf, model.Not})
			t := &model.Spec{Kind: k, Children: []*model.Spec{s}}
			if k != model.Not && rg.P(1, 3) {
				t.Children = append(t.Children, intSpec(6))
			}
			s = t
		}
		vals = []interface{}{5.0, 6.0, 7.0, "x"}
	case "positional":
		s.Kind = model.Array
		l := make([]interface{}, n)
		for i := 0; i < n; i++ {
			s.Positional = append(s.Positional, intSpec(i))
			l[i] = float64(i)
		}
		switch rg.Intn(3) {
		case 0:
			s.AddItemsMode = model.AddNil
		case 1:
			s.AddItemsMode, s.AddItems = model.AddSpec, intSpec(n)
		}
		vals = append(vals, l, append(append([]interface{}{}, l...), float64(n)), append(append([]interface{}{}, l...), "x"), append(append([]interface{}{}, l...), float64(n), float64(n)))
		each(func(i int) interface{} {
			m := append([]interface{}{}, l...)
			if i < n {
				m[i] = float64(i) + 0.5
			}
			return m
		})
		each(func(i int) interface{} { return append([]interface{}{}, l[:i]...) })
	case "nested_array":
		s = intSpec(5)
		var v, w interface{} = 5.0, 6.0
		for i := 0; i < min(n, 200); i++ {
			t := &model.Spec{Kind: model.Array, MinItems: model.IP(1)}
			if rg.Bool() {
				t.Items = s
			} else {
				t.Positional = []*model.Spec{s}
			}
			s = t
			v, w = []interface{}{v}, []interface{}{w}
		}
		vals = []interface{}{v, w, []interface{}{v}, []interface{}{}}
	case "nested_object":
		s = intSpec(5)
		var v, w interface{} = 5.0, 6.0
		for i := 0; i < min(n, 200); i++ {
			t := &model.Spec{Kind: model.Object}
			switch rg.Intn(3) {
			case 0:
				t.Props = []model.Prop{{Name: "a", Spec: s}}
			case 1:
				t.Patterns = []model.Prop{{Name: "^a", Spec: s}}
			case 2:
				t.AddProps = s
			}
			s = t
			v, w = map[string]interface{}{"a": v}, map[string]interface{}{"a": w}
		}
		vals = []interface{}{v, w, map[string]interface{}{"a": v}, map[string]interface{}{}}
	case "props":
		s.Kind = model.Object
		m := map[string]interface{}{}
		for i := 0; i < n; i++ {
			s.Props = append(s.Props, model.Prop{Name: name(i), Spec: intSpec(i)})
			m[name(i)] = float64(i)
		}
		vals = append(vals, m)
		each(func(i int) interface{} {
			x := model.Copy(m).(map[string]interface{})
			x[name(i)] = "x"
			return x
		})
		each(func(i int) interface{} { return map[string]interface{}{name(i): float64(i)} })
	case "required":
		s = openObject()
		m := map[string]interface{}{}
		for i := 0; i < n; i++ {
			if rg.Bool() {
				s.Props = append(s.Props, model.Prop{Name: name(i), Spec: &model.Spec{Kind: model.Empty}})
			}
			s.Required = append(s.Required, name(i))
			m[name(i)] = nil
		}
		vals = append(vals, m)
		each(func(i int) interface{} {
			x := model.Copy(m).(map[string]interface{})
			delete(x, name(i))
			return x
		})
	case "patterns":
		s.Kind = model.Object
		m := map[string]interface{}{}
		n = min(n, 300)
		for i := 0; i < n; i++ {
			s.Patterns = append(s.Patterns, model.Prop{Name: "^" + name(i) + "$", Spec: intSpec(i)})
			m[name(i)] = float64(i)
		}
		vals = append(vals, m)
		each(func(i int) interface{} {
			x := model.Copy(m).(map[string]interface{})
			x[name(i)] = "x"
			return x
		})
	case "patterns_one":
		// all apply to the same property
		s.Kind = model.Object
		n = min(n, 300)
		for i := 0; i < n; i++ {
			s.Patterns = append(s.Patterns, model.Prop{Name: core.Pick(rg, []string{"^a", "a", "a$", "^a$", ".", fmt.Sprintf("a|b%d", i)}), Spec: &model.Spec{Kind: model.Not, Children: []*model.Spec{intSpec(i)}}})
		}
		each(func(i int) interface{} { return map[string]interface{}{"a": float64(i)} })
	case "targets":
		s = openObject()
		d := model.PropDep{From: "t"}
		m := map[string]interface{}{"t": 1.0}
		for i := 0; i < n; i++ {
			d.To = append(d.To, name(i))
			m[name(i)] = nil
		}
		if n > 0 {
			s.PropDeps = []model.PropDep{d}
		}
		vals = append(vals, m)
		each(func(i int) interface{} {
			x := model.Copy(m).(map[string]interface{})
			delete(x, name(i))
			return x
		})
	case "triggers":
		n = min(n, 130) // the judgement is quadratic
		s = openObject()
		m := map[string]interface{}{}
		for i := 0; i < n; i++ {
			if rg.Bool() {
				s.Props = append(s.Props, model.Prop{Name: name(i), Spec: &model.Spec{Kind: model.Empty}})
			}
			if rg.Bool() {
				s.PropDeps = append(s.PropDeps, model.PropDep{From: name(i), To: []string{fmt.Sprintf("q%d", i)}})
			} else {
				k := openObject()
				k.Required = []string{fmt.Sprintf("q%d", i)}
				s.SchemaDeps = append(s.SchemaDeps, model.Prop{Name: name(i), Spec: k})
			}
			m[name(i)], m[fmt.Sprintf("q%d", i)] = 1.0, nil
		}
		vals = append(vals, m)
		each(func(i int) interface{} {
			x := model.Copy(m).(map[string]interface{})
			delete(x, fmt.Sprintf("q%d", i))
			return x
		})
		each(func(i int) interface{} { return map[string]interface{}{name(i): nil} })
	case "defaults":
		s.Kind = model.Object
		m := map[string]interface{}{}
		for i := 0; i < n; i++ {
			k := &model.Spec{Kind: model.Number, HasDef: rg.P(3, 4), Def: float64(i)}
			s.Props = append(s.Props, model.Prop{Name: name(i), Spec: k})
			if rg.P(1, 3) {
				m[name(i)] = -1.5
			}
		}
		vals = append(vals, m, map[string]interface{}{})
		each(func(i int) interface{} { return map[string]interface{}{name(i): "x"} })
	case "chain":
		env := model.Env{}
		n = max(1, min(n, 600))
		for i := 0; i < n-1; i++ {
			env[fmt.Sprintf("c%d", i)] = &model.Spec{Kind: model.Ref, RefName: fmt.Sprintf("c%d", i+1)}
		}
		env[fmt.Sprintf("c%d", n-1)] = intSpec(5)
		return &model.Spec{Kind: model.Ref, RefName: "c0"}, []interface{}{5.0, 6.0, "x"}, env
	case "names":
		env := model.Env{}
		for i := 0; i < n; i++ {
			env[name(i)] = intSpec(i)
			s.Props = append(s.Props, model.Prop{Name: name(i), Spec: &model.Spec{Kind: model.Ref, RefName: name(i)}})
		}
		s.Kind = model.Object
		m := map[string]interface{}{}
		for i := 0; i < n; i++ {
			m[name(i)] = float64(i)
		}
		vals = append(vals, m)
		each(func(i int) interface{} {
			x := model.Copy(m).(map[string]interface{})
			x[name(i)] = float64(i + 1)
			return x
		})
		return s, vals, env
	default:
		panic(family)
	}
	return s, vals, nil
}

// sizeStage judges every size of every family.
func sizeStage(r *core.Run, families ...string) {
	reps := r.N(1, 12)
	r.Cases("sizes", len(families)*len(sizeSweep)*reps, func(c *core.Case) {
		rg := c.Rng
		f := families[c.Idx%len(families)]
		n := sizeSweep[c.Idx/len(families)%len(sizeSweep)]
		if c.Idx/len(families)/len(sizeSweep) > 0 {
			n += rg.Intn(20)
		}
		s, vals, env := sized(rg, f, n)
		cm := &jsval.ConstraintMap{}
		b := &model.Builder{Rng: rg, Resolver: cm}
		registerAll(rg, cm.SetReference, b, env, envNames(env))
		v := newRoot(rg, b.Build(s))
		for k := 0; k < 2; k++ {
			for _, x := range vals {
				what := func() string {
					return fmt.Sprintf("%s with %d rules, value %s", f, n, truncate(model.JSON(x), 2000))
				}
				want := model.Eval(s, x, env)
				y := model.Copy(x)
				if !expect(c, v, y, want, what) {
					return
				}
				full := model.Copy(x)
				if want == model.Accept {
					model.Fill(s, full, env)
				}
				if !model.Equal(full, y) {
					c.Violate("modified", "after %s the value is %s, expected %s\n%s", want, truncate(model.JSON(y), 1000), truncate(model.JSON(full), 1000), what())
					return
				}
			}
		}
		c.Eval(key(f, n, len(vals)))
		c.Count("sized_"+f, len(vals))
	})
}

func envNames(env model.Env) []string {
	m := map[string]bool{}
	for k := range env {
		m[k] = true
	}
	return sortedStrings(m)
}

// unlessTiny leaves out what does not get small by doing it less often.
func unlessTiny(n int) int {
	if core.Light() >= 20 {
		return 0
	}
	return n
}
