package props

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"

	"github.com/lestrrat-go/jsval"
	"verif/core"
	"verif/model"
)

func init() {
	register(&core.Prop{
		ID:    "C26",
		Quick: 2,
		Level: "exploration",
		Rule:  "histories of configuring calls, reads, validations and generations on object constraints, combinators, scalar constraints, references, constraint maps and validators, in turn on several objects of each kind, against a model that keeps what each object was told; after every step the accessors of the object (and of a random other one) must report exactly that, and every configuring call must return its receiver; non-trivial = a read that reported something registered",
		Assumptions: []string{
			"a reference is not re-registered once resolved",
			"dependencies of one name are compared as sets",
		},
		Run: func(r *core.Run) {
			r.Cases("objects", r.N(15000, 250000), readbackObjects)
			r.Cases("combinators", r.N(15000, 250000), readbackCombos)
			r.Cases("defaults", r.N(15000, 250000), readbackDefaults)
			r.Cases("validators", r.N(15000, 250000), readbackValidators)
			r.Cases("sorting", r.N(3000, 50000), func(c *core.Case) {
				rg := c.Rng
				var l jsval.JSValSlice
				var names []string
				for i := rg.Intn(40); i > 0; i-- {
					n := model.GenName(rg)
					names = append(names, n)
					l = append(l, jsval.New().SetName(n))
				}
				if !c.Call("sorting", func() { sort.Sort(l) }) {
					return
				}
				sort.Strings(names)
				for i, v := range l {
					if v.Name != names[i] {
						c.Violate("not sorted by name", "position %d holds %q, not %q", i, v.Name, names[i])
						return
					}
				}
				if l.Len() != len(names) {
					c.Violate("length", "%d validators, Len says %d", len(names), l.Len())
				}
				c.Eval(key("sort", names))
			})
		},
	})
}

// someConstraint is one of its own: comparable by identity.
func someConstraint(rg *core.Rng) jsval.Constraint {
	switch rg.Intn(11) {
	case 7, 8, 9: // of no, one or two children
		var kids []jsval.Constraint
		for i := rg.Intn(3); i > 0; i-- {
			kids = append(kids, someConstraint(rg))
		}
		switch rg.Intn(3) {
		case 0:
			a := jsval.Any()
			for _, k := range kids {
				a.Add(k)
			}
			return a
		case 1:
			a := jsval.All()
			for _, k := range kids {
				a.Add(k)
			}
			return a
		}
		a := jsval.OneOf()
		for _, k := range kids {
			a.Add(k)
		}
		return a
	case 0:
		return jsval.Object()
	case 1:
		return jsval.Array()
	case 2:
		return jsval.Number()
	case 3:
		return jsval.Any()
	case 4:
		return jsval.Not(jsval.String())
	case 5:
		return jsval.Enum(1.0, "a")
	case 6:
		return jsval.Integer()
	}
	return jsval.String()
}

func sameConstraint(a, b jsval.Constraint) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Type() != vb.Type() {
		return false
	}
	if va.Kind() == reflect.Ptr {
		return va.Pointer() == vb.Pointer()
	}
	return reflect.DeepEqual(a, b)
}

func readbackNames(rg *core.Rng) []string {
	var l []string
	for i := rg.Range(2, 8); i > 0; i-- {
		l = append(l, model.GenName(rg))
	}
	if rg.P(1, 10) {
		for i := 0; i < 40; i++ {
			l = append(l, fmt.Sprint("n", i))
		}
	}
	return l
}

func names2(rg *core.Rng, names []string) []string {
	var l []string
	for i := rg.Range(0, 3); i > 0; i-- {
		l = append(l, core.Pick(rg, names))
	}
	return l
}

func readbackObjects(c *core.Case) {
	rg := c.Rng
	names := readbackNames(rg)
	steps := rg.Range(3, 25)
	many := rg.P(1, 60) // long histories of a few names that get much
	if many {
		steps = rg.Range(30, 400)
		names = names[:min(len(names), rg.Range(1, 3))]
	}
	type obj struct {
		o    *jsval.ObjectConstraint
		req  map[string]bool
		deps map[string]map[string]bool
		sch  map[string]jsval.Constraint
	}
	var os []*obj
	for i := rg.Range(1, 3); i > 0; i-- {
		os = append(os, &obj{jsval.Object(), map[string]bool{}, map[string]map[string]bool{}, map[string]jsval.Constraint{}})
	}
	var log []string
	check := func(x *obj, i int) bool {
		for _, n := range append([]string{"never mentioned"}, names...) {
			if got := x.o.IsPropRequired(n); got != x.req[n] {
				c.Violate("required", "object %d: IsPropRequired(%q) = %v, want %v\nhistory: %q", i, n, got, x.req[n], log)
				return false
			}
			got := map[string]bool{}
			for _, d := range x.o.GetPropDependencies(n) {
				got[d] = true
			}
			if len(got) != len(x.deps[n]) || len(got) > 0 && !reflect.DeepEqual(got, x.deps[n]) {
				c.Violate("dependencies", "object %d: GetPropDependencies(%q) = %v, want %v\nhistory: %q", i, n, got, x.deps[n], log)
				return false
			}
			if got := x.o.GetSchemaDependency(n); !sameConstraint(got, x.sch[n]) {
				c.Violate("schema dependency", "object %d: GetSchemaDependency(%q) = %#v, want %#v\nhistory: %q", i, n, got, x.sch[n], log)
				return false
			}
			if x.req[n] || len(got) > 0 || x.sch[n] != nil {
				c.Count("reads_of_something", 1)
			}
		}
		if x.o.HasDefault() || x.o.DefaultValue() != nil {
			c.Violate("default", "object %d has a default\nhistory: %q", i, log)
			return false
		}
		return true
	}
	for step := steps; step > 0; step-- {
		i := rg.Intn(len(os))
		x := os[i]
		ret := x.o
		n, l := core.Pick(rg, names), names2(rg, names)
		if many {
			for k := rg.Intn(4); k > 0; k-- {
				l = append(l, fmt.Sprint("m", rg.Intn(1000)))
			}
		}
		ok := c.Call("configuring an object", func() {
			switch rg.Intn(10) {
			case 0, 1:
				log = append(log, fmt.Sprintf("%d.Required(%q)", i, l))
				ret = x.o.Required(l...)
				for _, n := range l {
					x.req[n] = true
				}
				if len(l) > 0 && rg.Bool() { // the caller's own slice
					l[0] = "changed afterwards"
				}
			case 2, 3:
				log = append(log, fmt.Sprintf("%d.PropDependency(%q, %q)", i, n, l))
				ret = x.o.PropDependency(n, l...)
				if x.deps[n] == nil {
					x.deps[n] = map[string]bool{}
				}
				for _, d := range l {
					x.deps[n][d] = true
				}
				if len(l) > 0 && rg.Bool() && len(x.deps[n]) > 0 {
					l = append(l, "x")
				}
			case 4, 5:
				d := someConstraint(rg)
				log = append(log, fmt.Sprintf("%d.SchemaDependency(%q, %T)", i, n, d))
				ret = x.o.SchemaDependency(n, d)
				x.sch[n] = d
			case 6:
				log = append(log, fmt.Sprintf("%d.AddProp(%q)", i, n))
				ret = x.o.AddProp(n, someConstraint(rg))
			case 7:
				switch rg.Intn(4) {
				case 0:
					ret = x.o.MinProperties(rg.Intn(3))
				case 1:
					ret = x.o.MaxProperties(rg.Intn(3))
				case 2:
					ret = x.o.AdditionalProperties(someConstraint(rg))
				case 3:
					ret = x.o.PatternPropertiesString("^a", someConstraint(rg))
				}
				log = append(log, fmt.Sprintf("%d.(other rule)", i))
			case 8:
				m := map[string]interface{}{}
				for _, n := range names {
					if rg.Bool() {
						m[n] = model.GenJSON(rg, 1)
					}
				}
				x.o.Validate(m)
				log = append(log, fmt.Sprintf("%d.Validate", i))
			case 9:
				jsval.NewGenerator().Process(&bytes.Buffer{}, jsval.New().SetRoot(x.o))
				log = append(log, fmt.Sprintf("%d generated", i))
			}
		})
		if !ok {
			return
		}
		if ret != x.o {
			c.Violate("receiver", "a configuring call returned another object\nhistory: %q", log)
			return
		}
		if many && step%16 != 1 {
			continue
		}
		j := rg.Intn(len(os))
		if !check(x, i) || !check(os[j], j) {
			return
		}
		if many {
			for _, n := range append(sortedStrings(x.req), "m0", "m1", "m2") {
				if x.o.IsPropRequired(n) != x.req[n] {
					c.Violate("required", "object %d: IsPropRequired(%q) = %v, want %v\nhistory: %q", i, n, !x.req[n], x.req[n], log)
					return
				}
			}
		}
	}
	c.Eval(key("o", log))
}

type combo interface {
	jsval.Constraint
	Constraints() []jsval.Constraint
	Reduce() jsval.Constraint
}

func readbackCombos(c *core.Case) {
	rg := c.Rng
	type obj struct {
		c    combo
		add  func(jsval.Constraint) combo
		want []jsval.Constraint
	}
	var os []*obj
	for i := rg.Range(1, 4); i > 0; i-- {
		o := &obj{}
		switch rg.Intn(3) {
		case 0:
			x := jsval.Any()
			o.c, o.add = x, func(k jsval.Constraint) combo { return x.Add(k) }
		case 1:
			x := jsval.All()
			o.c, o.add = x, func(k jsval.Constraint) combo { return x.Add(k) }
		default:
			x := jsval.OneOf()
			o.c, o.add = x, func(k jsval.Constraint) combo { return x.Add(k) }
		}
		os = append(os, o)
	}
	var log []string
	steps := rg.Range(2, 30)
	if rg.P(1, 150) {
		steps = rg.Range(100, 1200)
	}
	for step := steps; step > 0; step-- {
		i := rg.Intn(len(os))
		x := os[i]
		ok := c.Call("configuring a combinator", func() {
			switch rg.Intn(6) {
			default:
				k := someConstraint(rg)
				if len(x.want) > 0 && rg.P(1, 6) {
					k = core.Pick(rg, x.want) // again
				}
				log = append(log, fmt.Sprintf("%d.Add(%T)", i, k))
				if ret := x.add(k); !sameConstraint(ret, x.c) {
					c.Violate("receiver", "Add returned another object\nhistory: %q", log)
				}
				x.want = append(x.want, k)
			case 4:
				x.c.Validate(model.GenJSON(rg, 2))
				log = append(log, fmt.Sprintf("%d.Validate", i))
			case 5:
				x.c.Reduce()
				jsval.NewGenerator().Process(&bytes.Buffer{}, jsval.New().SetRoot(x.c))
				log = append(log, fmt.Sprintf("%d generated", i))
			}
		})
		if !ok {
			return
		}
		if steps > 50 && step%50 != 1 {
			continue
		}
		for j, o := range os {
			l := o.c.Constraints()
			same := len(l) == len(o.want)
			for k := 0; same && k < len(l); k++ {
				same = sameConstraint(l[k], o.want[k])
			}
			if !same {
				c.Violate("constraints", "%T %d: Constraints() is not what was added\ngot  %v\nwant %v\nhistory: %q", o.c, j, typesOf(l), typesOf(o.want), log)
				return
			}
			want := jsval.Constraint(o.c)
			if len(l) == 1 {
				want = l[0]
			}
			if got := o.c.Reduce(); !sameConstraint(got, want) {
				c.Violate("reduce", "%T %d with %d children: Reduce() = %T\nhistory: %q", o.c, j, len(l), got, log)
				return
			}
			if o.c.HasDefault() || o.c.DefaultValue() != nil {
				c.Violate("default", "%T %d has a default\nhistory: %q", o.c, j, log)
				return
			}
			c.Count("reads_of_something", len(l))
		}
	}
	c.Eval(key("c", log))
}

func typesOf(l []jsval.Constraint) []string {
	var s []string
	for _, k := range l {
		s = append(s, fmt.Sprintf("%T %p", k, k))
	}
	return s
}

func readbackDefaults(c *core.Case) {
	rg := c.Rng
	type obj struct {
		c   jsval.Constraint
		set func(interface{}) jsval.Constraint
		def interface{}
		has bool
		any func() jsval.Constraint // some other rule
	}
	var os []*obj
	for i := rg.Range(1, 5); i > 0; i-- {
		o := &obj{}
		switch rg.Intn(4) {
		case 0:
			x := jsval.String()
			o.c, o.set = x, func(v interface{}) jsval.Constraint { return x.Default(v) }
			o.any = func() jsval.Constraint {
				switch rg.Intn(5) {
				case 0:
					return x.MaxLength(rg.Intn(5))
				case 1:
					return x.MinLength(rg.Intn(5))
				case 2:
					return x.Enum("a", "b")
				case 3:
					return x.Format("email")
				}
				return x.RegexpString("^a")
			}
		case 1:
			x := jsval.Number()
			o.c, o.set = x, func(v interface{}) jsval.Constraint { return x.Default(v) }
			o.any = func() jsval.Constraint {
				switch rg.Intn(6) {
				case 0:
					return x.Minimum(model.GenNum(rg))
				case 1:
					return x.Maximum(model.GenNum(rg))
				case 2:
					return x.ExclusiveMinimum(rg.Bool())
				case 3:
					return x.ExclusiveMaximum(rg.Bool())
				case 4:
					return x.MultipleOf(2)
				}
				return x.Enum(1.0, 2)
			}
		case 2:
			x := jsval.Integer()
			o.c, o.set = x, func(v interface{}) jsval.Constraint { return x.Default(v) }
			o.any = func() jsval.Constraint {
				switch rg.Intn(6) {
				case 0:
					return x.Minimum(model.GenNum(rg))
				case 1:
					return x.Maximum(model.GenNum(rg))
				case 2:
					return x.ExclusiveMinimum(rg.Bool())
				case 3:
					return x.ExclusiveMaximum(rg.Bool())
				case 4:
					return x.MultipleOf(2)
				}
				return x.Enum(1.0, 2)
			}
		default:
			x := jsval.Boolean()
			o.c, o.set = x, func(v interface{}) jsval.Constraint { return x.Default(v) }
			o.any = func() jsval.Constraint { return x.Enum(rg.Bool()) }
		}
		os = append(os, o)
	}
	// references speak for what they lead to
	m := &jsval.ConstraintMap{}
	var refs []*jsval.ReferenceConstraint
	for i, o := range os {
		m.SetReference(fmt.Sprint(i), o.c)
		ref := jsval.Reference(m)
		if rg.P(1, 3) {
			ref.RefersTo(fmt.Sprint(rg.Intn(len(os) + 1)))
		}
		if got := ref.RefersTo(fmt.Sprint(i)); got != ref {
			c.Violate("receiver", "RefersTo returned another reference")
			return
		}
		refs = append(refs, ref)
	}
	lost := jsval.Reference(m).RefersTo("nowhere")
	var log []string
	for step := rg.Range(2, 20); step > 0; step-- {
		i := rg.Intn(len(os))
		x := os[i]
		ret := x.c
		ok := c.Call("configuring a constraint", func() {
			switch rg.Intn(6) {
			case 0, 1:
				d := core.Pick(rg, []interface{}{nil, "", "x", 0.0, 1.5, 3, int8(4), true, false, []interface{}{1.0}, map[string]interface{}{"a": "b"}})
				log = append(log, fmt.Sprintf("%d.Default(%#v)", i, d))
				ret = x.set(d)
				x.def, x.has = d, true
			case 2, 3:
				log = append(log, fmt.Sprintf("%d.(other rule)", i))
				ret = x.any()
			case 4:
				log = append(log, fmt.Sprintf("%d.Validate", i))
				x.c.Validate(model.GenJSON(rg, 1))
				if rg.Bool() {
					jsval.Object().AddProp("p", refs[i]).Validate(map[string]interface{}{})
				}
			case 5:
				log = append(log, fmt.Sprintf("%d generated", i))
				jsval.NewGenerator().Process(&bytes.Buffer{}, jsval.New().SetRoot(x.c))
			}
		})
		if !ok {
			return
		}
		if !sameConstraint(ret, x.c) {
			c.Violate("receiver", "a configuring call returned another object (%T for %T)\nhistory: %q", ret, x.c, log)
			return
		}
		for j, o := range os {
			for _, k := range []jsval.Constraint{o.c, refs[j]} {
				if k.HasDefault() != o.has || !reflect.DeepEqual(k.DefaultValue(), o.def) {
					c.Violate("default", "%T %d: HasDefault() = %v, DefaultValue() = %#v, want %v, %#v\nhistory: %q", k, j, k.HasDefault(), k.DefaultValue(), o.has, o.def, log)
					return
				}
			}
			if o.has {
				c.Count("reads_of_something", 1)
			}
			if got, err := refs[j].Resolved(); err != nil || !sameConstraint(got, o.c) {
				c.Violate("resolved", "reference %d: Resolved() = %T, %v\nhistory: %q", j, got, err, log)
				return
			}
		}
		if got, err := lost.Resolved(); err == nil || got != nil || lost.HasDefault() || lost.DefaultValue() != nil {
			c.Violate("resolved", "a reference that leads nowhere: Resolved() = %T, %v, HasDefault() = %v\nhistory: %q", got, err, lost.HasDefault(), log)
			return
		}
	}
	for _, k := range []jsval.Constraint{jsval.EmptyConstraint, jsval.NullConstraint, jsval.Not(os[0].c), jsval.Array(), jsval.Object(), jsval.Enum(1.0)} {
		if k.HasDefault() || k.DefaultValue() != nil {
			c.Violate("default", "%T has the default %#v", k, k.DefaultValue())
			return
		}
	}
	c.Eval(key("d", log))
}

func readbackValidators(c *core.Case) {
	rg := c.Rng
	type cmap struct {
		m *jsval.ConstraintMap
		w map[string]jsval.Constraint
	}
	type obj struct {
		v    *jsval.JSVal
		name string
		root jsval.Constraint
		m    *cmap
	}
	var ms []*cmap
	var os []*obj
	for i := rg.Range(1, 3); i > 0; i-- {
		ms = append(ms, &cmap{&jsval.ConstraintMap{}, map[string]jsval.Constraint{}})
	}
	for i := rg.Range(1, 3); i > 0; i-- {
		v := jsval.New()
		m := &cmap{v.ConstraintMap, map[string]jsval.Constraint{}}
		ms = append(ms, m)
		os = append(os, &obj{v: v, m: m})
	}
	names := readbackNames(rg)
	var log []string
	steps := rg.Range(3, 25)
	if rg.P(1, 100) { // very many names
		for i := rg.Range(100, 1500); i > 0; i-- {
			names = append(names, fmt.Sprint("n", i))
		}
		steps = rg.Range(100, 3000)
	}
	for step := steps; step > 0; step-- {
		i := rg.Intn(len(os))
		x := os[i]
		ret := x.v
		n := core.Pick(rg, names)
		ok := c.Call("configuring a validator", func() {
			switch rg.Intn(8) {
			case 0:
				log = append(log, fmt.Sprintf("%d.SetName(%q)", i, n))
				ret = x.v.SetName(n)
				x.name = n
			case 1:
				k := someConstraint(rg)
				log = append(log, fmt.Sprintf("%d.SetRoot(%T)", i, k))
				ret = x.v.SetRoot(k)
				x.root = k
			case 2:
				j := rg.Intn(len(ms))
				log = append(log, fmt.Sprintf("%d.SetConstraintMap(%d)", i, j))
				ret = x.v.SetConstraintMap(ms[j].m)
				x.m = ms[j]
			case 3, 4:
				k := someConstraint(rg)
				log = append(log, fmt.Sprintf("%d.SetReference(%q, %T)", i, n, k))
				x.v.SetReference(n, k)
				x.m.w[n] = k
			case 5:
				k := someConstraint(rg)
				j := rg.Intn(len(ms))
				log = append(log, fmt.Sprintf("map%d.SetReference(%q, %T)", j, n, k))
				ms[j].m.SetReference(n, k)
				ms[j].w[n] = k
			case 6:
				log = append(log, fmt.Sprintf("%d.Validate", i))
				x.v.Validate(model.GenJSON(rg, 2))
			case 7:
				if x.root != nil {
					log = append(log, fmt.Sprintf("%d generated", i))
					var l []*jsval.JSVal
					for _, o := range os {
						if o.root != nil {
							l = append(l, o.v)
						}
					}
					jsval.NewGenerator().Process(&bytes.Buffer{}, l...)
				}
			}
		})
		if !ok {
			return
		}
		if ret != x.v {
			c.Violate("receiver", "a configuring call returned another validator\nhistory: %q", log)
			return
		}
		if steps > 50 && step%150 != 1 {
			continue
		}
		for j, o := range os {
			if o.v.Name != o.name || !sameConstraint(o.v.Root(), o.root) || o.v.ConstraintMap != o.m.m || o.v.Len() != len(o.m.w) {
				c.Violate("validator", "validator %d: name %q (want %q), root %T (want %T), its own map: %v, %d references (want %d)\nhistory: %q", j, o.v.Name, o.name, o.v.Root(), o.root, o.v.ConstraintMap == o.m.m, o.v.Len(), len(o.m.w), log)
				return
			}
			for _, n := range append([]string{"never mentioned"}, names...) {
				got, err := o.v.GetReference(n)
				want, has := o.m.w[n]
				if (err == nil) != has || !sameConstraint(got, want) {
					c.Violate("reference", "validator %d: GetReference(%q) = %T, %v, want %T\nhistory: %q", j, n, got, err, want, log)
					return
				}
				if has {
					c.Count("reads_of_something", 1)
				}
			}
		}
	}
	c.Eval(key("v", log))
}
