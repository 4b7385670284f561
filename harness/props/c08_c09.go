package props

import (
	"errors"
	"fmt"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/lestrrat-go/jsval"

	"verif/core"
	"verif/model"
)

var refNames = []string{"#/definitions/a", "#/definitions/b", "#/definitions/foo bar", "#", "", "x", "#/properties/名前", "http://example.com/schema#", "%d", "a\"b", "#/definitions/aa", "#/definitions/A"}

func pickRefNames(r *core.Rng, n int) []string {
	p := r.Perm(len(refNames))
	l := make([]string, 0, n)
	for _, i := range p[:n] {
		l = append(l, refNames[i])
	}
	return l
}

// recResolver records lookups and can be told to fail.
type recResolver struct {
	m     map[string]jsval.Constraint
	fails int
	asked []string
}

func (r *recResolver) GetReference(n string) (jsval.Constraint, error) {
	r.asked = append(r.asked, n)
	if r.fails > 0 {
		r.fails--
		return nil, errors.New("not now")
	}
	if c, ok := r.m[n]; ok {
		return c, nil
	}
	return nil, errors.New("unknown")
}

func registerAll(r *core.Rng, set func(string, jsval.Constraint), b *model.Builder, env model.Env, names []string) {
	for _, i := range r.Perm(len(names)) {
		if s, ok := env[names[i]]; ok {
			set(names[i], b.Build(s))
		}
	}
}

func init() {
	register(&core.Prop{ID: "C08", Quick: 6, Level: "exploration",
		Rule:        "random environments of 1-5 (mutually) recursive definitions and root specs with references at any position, resolved through a ConstraintMap, a validator, shared maps or a recording user resolver; directed values compared with direct evaluation of the definitions; deep recursive data; histories of failed lookups followed by registration; random Set/Get/Len histories of constraint maps against a plain map; non-trivial = judged pair in which a reference is reached, or a map operation",
		Assumptions: []string{"recursion passes through an element or property (well-founded)", "re-registering a name that a reference has already resolved is left open"},
		Run: func(r *core.Run) {
			sizeStage(r, "chain", "names")
			r.Cases("near_names", r.N(1500, 30000), func(c *core.Case) { nearNames(c) })
			r.Cases("recursive", r.N(30000, 700000), func(c *core.Case) {
				rg := c.Rng
				names := pickRefNames(rg, rg.Range(1, 5))
				def := rg.P(1, 4)
				env := model.GenEnv(rg, names, model.GenOpts{Depth: rg.Range(1, 2), Defaults: def})
				root := model.GenSpec(rg, model.GenOpts{Depth: 2, Refs: names, FlatRefs: names, Defaults: def})
				if rg.P(1, 3) {
					root = &model.Spec{Kind: model.Ref, RefName: core.Pick(rg, names)}
				}
				b := &model.Builder{Rng: rg}
				var v validator
				mode := rg.Intn(4)
				switch mode {
				case 0:
					cm := &jsval.ConstraintMap{}
					b.Resolver = cm
					if rg.Bool() {
						registerAll(rg, cm.SetReference, b, env, names)
						v = newRoot(rg, b.Build(root))
					} else {
						v = newRoot(rg, b.Build(root))
						registerAll(rg, cm.SetReference, b, env, names)
					}
				case 1:
					jv := jsval.New()
					b.Resolver = jv
					jv.SetRoot(b.Build(root))
					registerAll(rg, jv.SetReference, b, env, names)
					v = jv
				case 2:
					cm := &jsval.ConstraintMap{}
					jv := jsval.New().SetConstraintMap(cm)
					b.Resolver = core.Pick(rg, []jsval.RefResolver{cm, jv})
					registerAll(rg, core.Pick(rg, []func(string, jsval.Constraint){cm.SetReference, jv.SetReference}), b, env, names)
					jv.SetRoot(b.Build(root))
					v = jv
				case 3:
					rr := &recResolver{m: map[string]jsval.Constraint{}}
					b.Resolver = rr
					registerAll(rg, func(n string, k jsval.Constraint) { rr.m[n] = k }, b, env, names)
					v = newRoot(rg, b.Build(root))
				}
				for i := 0; i < 5; i++ {
					x := model.GenValue(rg, root, env, 3)
					y := model.Copy(x)
					if !expect(c, v, y, model.Eval(root, x, env), show(root, env, x)) {
						return
					}
					c.Eval(key(mode, root, model.DescribeEnv(env), model.JSON(x)))
				}
				c.Sample(map[string]string{"root": root.String(), "refs": model.DescribeEnv(env)})
			})
			r.Cases("deep", unlessTiny(r.N(200, 3000)), func(c *core.Case) {
				// lists and trees of great depth, with one bad leaf
				rg := c.Rng
				cm := &jsval.ConstraintMap{}
				self := func() jsval.Constraint { return jsval.Reference(cm).RefersTo("node") }
				other := func() jsval.Constraint { return jsval.Reference(cm).RefersTo("alt") }
				cm.SetReference("node", jsval.Object().Required("v").AddProp("v", jsval.Integer()).AddProp("next", other()).AddProp("kids", jsval.Array().Items(self())))
				cm.SetReference("alt", jsval.Any().Add(jsval.NullConstraint).Add(self()))
				root := newRoot(rg, self())
				depth := core.Pick(rg, []int{1, 2, 3, 10, 50, 63, 64, 65, 99, 100, 101, 128, 200, 300, 500})
				if rg.P(1, 8) {
					depth = core.Pick(rg, []int{512, 513, 700, 1000, 1001, 1024, 1025, 1026, 1500, 2050, 3000, 4100, 5010}) + rg.Intn(2)
				}
				bad := core.Pick(rg, []int{rg.Intn(depth), depth - 1})
				mkv := func(badAt int) interface{} {
					var v interface{}
					for i := depth - 1; i >= 0; i-- {
						m := map[string]interface{}{"v": float64(i)}
						if i == badAt {
							m["v"] = "bad"
						}
						if v != nil {
							if i%2 == 0 {
								m["next"] = v
							} else {
								m["kids"] = []interface{}{v}
							}
						} else if rg.Bool() {
							m["next"] = nil
						}
						v = m
					}
					return v
				}
				what := func() string { return fmt.Sprintf("recursive list, depth %d, bad at %d", depth, bad) }
				if !expect(c, root, mkv(-1), model.Accept, what) || !expect(c, root, mkv(bad), model.Reject, what) || !expect(c, root, mkv(-1), model.Accept, what) {
					return
				}
				c.Eval(key("deep", depth, bad))
			})
			r.Cases("late", r.N(15000, 300000), func(c *core.Case) {
				rg := c.Rng
				name := core.Pick(rg, refNames)
				target := model.GenSpec(rg, model.GenOpts{Depth: 1, Defaults: rg.Bool()})
				rr := &recResolver{m: map[string]jsval.Constraint{}}
				cm := &jsval.ConstraintMap{}
				var res jsval.RefResolver = cm
				useRR := rg.P(1, 2)
				if useRR {
					res = rr
				}
				// a chain of references ending in name
				ref := jsval.Reference(res)
				if rg.P(1, 4) {
					ref.RefersTo(core.Pick(rg, refNames))
				}
				ref.RefersTo(name)
				x := model.GenValue(rg, target, nil, 2)
				// wrap: position in which a failing child makes the whole fail
				wrap := rg.Intn(6)
				var v validator = ref
				var in interface{} = x
				switch wrap {
				case 1:
					v, in = jsval.Object().AddProp("p", ref), map[string]interface{}{"p": x}
				case 2:
					v, in = jsval.Array().Items(ref), []interface{}{x}
				case 3:
					v = jsval.All().Add(jsval.EmptyConstraint).Add(ref)
				case 4:
					v, in = jsval.Object().AdditionalProperties(ref), map[string]interface{}{"q": x}
				case 5:
					v = jsval.New().SetRoot(ref)
				}
				what := func() string {
					return fmt.Sprintf("reference %q (wrap %d) to %s, value %s", name, wrap, target, model.JSON(x))
				}
				for k := rg.Intn(3); k > 0; k-- {
					if !expect(c, v, model.Copy(in), model.Reject, what) {
						return
					}
					if ref.HasDefault() {
						c.Violate("default", "an unresolvable reference reports a default\n%s", what())
						return
					}
					c.Count("unresolved_rejects", 1)
				}
				tc := (&model.Builder{Rng: rg}).Build(target)
				rr.m[name] = tc
				cm.SetReference(name, tc)
				if useRR {
					// the resolver fails for a while
					rr.fails = rg.Intn(3)
					for k := rr.fails; k > 0 && rr.fails > 0; k-- {
						if !expect(c, v, model.Copy(in), model.Reject, what) {
							return
						}
					}
					rr.fails = 0
				}
				want := model.Eval(target, x, nil)
				for k := 0; k < 3; k++ {
					if !expect(c, v, model.Copy(in), want, what) {
						return
					}
				}
				if ref.HasDefault() != tc.HasDefault() || !reflect.DeepEqual(ref.DefaultValue(), tc.DefaultValue()) {
					c.Violate("default", "reference reports default (%v, %v), its target (%v, %v)\n%s", ref.HasDefault(), ref.DefaultValue(), tc.HasDefault(), tc.DefaultValue(), what())
					return
				}
				if got, err := ref.Resolved(); err != nil || got != tc && reflect.TypeOf(got).Comparable() {
					c.Violate("resolved", "Resolved returns (%v, %v) instead of the registered constraint\n%s", got, err, what())
					return
				}
				for _, a := range rr.asked {
					if a != name {
						c.Violate("lookup", "the resolver was asked for %q instead of %q", a, name)
						return
					}
				}
				// chains report defaults too
				cm.SetReference(name, tc)
				cm.SetReference("chain1", jsval.Reference(cm).RefersTo(name))
				cm.SetReference("chain2", jsval.Reference(cm).RefersTo("chain1"))
				ch := jsval.Reference(cm).RefersTo("chain2")
				if ch.HasDefault() != tc.HasDefault() || !reflect.DeepEqual(ch.DefaultValue(), tc.DefaultValue()) {
					c.Violate("default", "chained reference reports default (%v, %v), its target (%v, %v)\n%s", ch.HasDefault(), ch.DefaultValue(), tc.HasDefault(), tc.DefaultValue(), what())
					return
				}
				if !expect(c, ch, model.Copy(x), want, what) {
					return
				}
				c.Eval(key("late", name, wrap, target, model.JSON(x)))
			})
			r.Cases("shared", r.N(5000, 100000), func(c *core.Case) {
				// several validators over one map, with the same names in a
				// second, unrelated map
				rg := c.Rng
				names := pickRefNames(rg, rg.Range(1, 4))
				var envs [2]model.Env
				var cms [2]*jsval.ConstraintMap
				type vt struct {
					s *model.Spec
					v validator
					e model.Env
				}
				var vs []vt
				for k := 0; k < 2; k++ {
					envs[k] = model.GenEnv(rg, names, model.GenOpts{Depth: 1})
					cms[k] = &jsval.ConstraintMap{}
					b := &model.Builder{Rng: rg, Resolver: cms[k]}
					registerAll(rg, cms[k].SetReference, b, envs[k], names)
					for j := rg.Range(1, 3); j > 0; j-- {
						s := model.GenSpec(rg, model.GenOpts{Depth: 1, Refs: names, FlatRefs: names})
						vs = append(vs, vt{s, jsval.New().SetConstraintMap(cms[k]).SetRoot(b.Build(s)), envs[k]})
					}
				}
				for i := 0; i < 10; i++ {
					t := core.Pick(rg, vs)
					x := model.GenValue(rg, t.s, t.e, 2)
					if !expect(c, t.v, model.Copy(x), model.Eval(t.s, x, t.e), show(t.s, t.e, x)) {
						return
					}
					c.Eval(key("sh", t.s, model.DescribeEnv(t.e), model.JSON(x)))
				}
			})
			r.Cases("map", r.N(3000, 60000), func(c *core.Case) {
				rg := c.Rng
				var cm interface {
					SetReference(string, jsval.Constraint)
					GetReference(string) (jsval.Constraint, error)
					Len() int
				}
				cm = &jsval.ConstraintMap{}
				if rg.Bool() {
					cm = jsval.New()
				}
				ref := map[string]int{}
				mk := []*jsval.StringConstraint{}
				n := rg.Range(1, 80)
				var hist []string
				name := func() string {
					if rg.P(1, 4) {
						return fmt.Sprintf("n%d", rg.Intn(60))
					}
					return core.Pick(rg, refNames)
				}
				for i := 0; i < n; i++ {
					nm := name()
					switch rg.Intn(4) {
					case 0, 1:
						k := jsval.String().MinLength(i)
						mk = append(mk, k)
						cm.SetReference(nm, k)
						ref[nm] = len(mk) - 1
						hist = append(hist, fmt.Sprintf("set %q", nm))
					case 2:
						got, err := cm.GetReference(nm)
						hist = append(hist, fmt.Sprintf("get %q", nm))
						idx, ok := ref[nm]
						if ok && (err != nil || got != jsval.Constraint(mk[idx])) || !ok && err == nil {
							c.Violate("lookup", "GetReference(%q) = (%v, %v); registered: %v\n%v", nm, got, err, ok, hist)
							return
						}
					case 3:
						if l := cm.Len(); l != len(ref) {
							c.Violate("len", "Len() = %d, %d names registered\n%v", l, len(ref), hist)
							return
						}
					}
					c.Eval(key("map", c.Idx, i))
				}
				if l := cm.Len(); l != len(ref) {
					c.Violate("len", "Len() = %d, %d names registered\n%v", l, len(ref), hist)
				}
			})
		}})

	register(&core.Prop{ID: "C09", Quick: 3, Level: "exploration",
		Rule:        "object specs (nested, with references) whose property constraints carry defaults, on directed maps of several Go types and on struct types made at run time with Maybe fields; the whole input is compared before and after: on acceptance it must equal the model's fill of the original, on rejection it may only have gained declared defaults in nested objects that were themselves accepted, and nothing at the top; non-trivial = judged pair in which a default is due or a rejection",
		Assumptions: []string{"no two constraints with defaults judge the same object", "structs are passed by pointer"},
		Run: func(r *core.Run) {
			sizeStage(r, "defaults")
			r.Cases("maps", r.N(40000, 900000), func(c *core.Case) {
				rg := c.Rng
				names := pickRefNames(rg, rg.Range(1, 3))
				o := model.GenOpts{Depth: rg.Range(1, 3), Defaults: true}
				env := model.GenEnv(rg, names, model.GenOpts{Depth: 1, Defaults: true})
				o.Refs = names
				s := model.GenKind(rg, model.Object, o)
				cm := &jsval.ConstraintMap{}
				b := &model.Builder{Rng: rg, Resolver: cm}
				registerAll(rg, cm.SetReference, b, env, names)
				v := newRoot(rg, b.Build(s))
				for i := 0; i < 6; i++ {
					x := model.GenValue(rg, s, env, 3)
					want := model.Eval(s, x, env)
					got := model.Copy(x)
					var g interface{} = got
					if m, ok := got.(map[string]interface{}); ok {
						switch rg.Intn(4) {
						case 0:
							g = &m
						case 1:
							g = myMap(m)
						}
					}
					if !expect(c, v, g, want, show(s, env, x)) {
						return
					}
					full := model.Copy(x)
					model.Fill(s, full, env)
					due := !model.Equal(full, x)
					if want == model.Accept {
						if !model.Equal(got, full) {
							c.Violate("defaults", "after success the value is %s\nexpected %s\n%s", model.JSON(got), model.JSON(full), show(s, env, x)())
							return
						}
					} else {
						if why := between(x, got, full, true); why != "" {
							c.Violate("modified", "after failure the value is %s: %s\n%s", model.JSON(got), why, show(s, env, x)())
							return
						}
					}
					if due {
						c.Count("defaults_due_"+want.String(), 1)
						c.Eval(key(s, model.DescribeEnv(env), model.JSON(x)))
					} else {
						c.Eval("")
					}
				}
				c.Sample(s.String())
			})
			schemaSizes(r, false, "defaults")
			r.Cases("schema", r.N(5000, 150000), func(c *core.Case) {
				rg := c.Rng
				o := model.SOpts{Depth: core.Pick(rg, []int{1, 1, 2, 2, 3}), Defaults: true, NoComb: true}
				doc := model.GenSchema(rg, o)
				if rg.P(1, 3) {
					doc = model.GenRefDoc(rg, o, rg.P(1, 2))
					if sharedObjects(doc) {
						return
					}
				}
				schemaCase(c, doc, 10, true)
			})
			r.Cases("flat", r.N(20000, 400000), func(c *core.Case) { defaultsFlat(c) })
			r.Cases("structs", r.N(6000, 60000), func(c *core.Case) { defaultsStruct(c) })
			r.Cases("alternatives", r.N(10000, 200000), func(c *core.Case) {
				// a branch that rejects a flat object leaves nothing in it
				rg := c.Rng
				n := rg.Range(2, 4)
				var kids []*model.Spec
				for i := 0; i < n; i++ {
					k := &model.Spec{Kind: model.Object, AddProps: &model.Spec{Kind: model.Empty}}
					for _, p := range []string{"a", "b", "c", "d"} {
						if rg.P(2, 3) {
							ps := model.GenKind(rg, core.Pick(rg, []model.Kind{model.String, model.Integer, model.Bool, model.Number}), model.GenOpts{Defaults: true})
							k.Props = append(k.Props, model.Prop{Name: p, Spec: ps})
						}
					}
					if rg.P(1, 3) {
						k.Required = []string{core.Pick(rg, []string{"a", "b", "c", "d"})}
					}
					if rg.P(1, 3) {
						k.PropDeps = []model.PropDep{{From: core.Pick(rg, []string{"a", "b"}), To: []string{core.Pick(rg, []string{"c", "d", "e"})}}}
					}
					kids = append(kids, k)
				}
				s := &model.Spec{Kind: model.Any, Children: kids}
				v := newRoot(rg, (&model.Builder{Rng: rg}).Build(s))
				for i := 0; i < 4; i++ {
					x := model.GenValue(rg, core.Pick(rg, kids), nil, 1)
					if _, ok := x.(map[string]interface{}); !ok {
						continue
					}
					want, cands := model.Reject, []interface{}{}
					for _, k := range kids {
						if model.Eval(k, x, nil) == model.Accept {
							want = model.Accept
							f := model.Copy(x)
							model.Fill(k, f, nil)
							cands = append(cands, f)
						}
					}
					got := model.Copy(x)
					if !expect(c, v, got, want, show(s, nil, x)) {
						return
					}
					if want == model.Reject {
						cands = append(cands, x)
					}
					ok := false
					for _, f := range cands {
						ok = ok || model.Equal(got, f)
					}
					if !ok {
						c.Violate("defaults", "the value is now %s, which is not what an accepting alternative leaves\n%s", model.JSON(got), show(s, nil, x)())
						return
					}
					c.Eval(key("alt", s, model.JSON(x)))
				}
			})
			r.Cases("unfit", r.N(10000, 200000), func(c *core.Case) { defaultsUnfit(c) })
			r.Cases("own", r.N(8000, 150000), func(c *core.Case) { defaultsOwn(c) })
			r.Cases("typed_maps", r.N(6000, 100000), func(c *core.Case) {
				rg := c.Rng
				o := jsval.Object().AdditionalProperties(jsval.EmptyConstraint)
				type def struct {
					n string
					v interface{}
				}
				which := rg.Intn(5)
				var ds []def
				for _, n := range []string{"a", "b", "c"} {
					var k jsval.Constraint
					var d interface{}
					switch which {
					case 0:
						d = model.GenString(rg)
						k = jsval.String().Default(d)
					case 1:
						d = rg.Range(-100, 100)
						if rg.Bool() {
							d = float64(d.(int))
						}
						ik := jsval.Integer()
						ik.Default(d)
						k = ik
					case 2:
						d = rg.Float()
						k = jsval.Number().Default(d)
					case 3:
						d = rg.Bool()
						k = jsval.Boolean().Default(d)
					case 4:
						d = core.Pick(rg, []interface{}{nil, false, 0.0, "", "x", 1, []interface{}{"x"}, map[string]interface{}{}})
						k = &probe{id: n, log: new([]delivery), def: d, has: true}
					}
					o.AddProp(n, k)
					ds = append(ds, def{n, d})
				}
				var m interface{}
				var want interface{}
				present := map[string]bool{}
				for _, d := range ds {
					present[d.n] = rg.P(1, 3)
				}
				switch which {
				case 0:
					a, b := map[string]string{"z": "z"}, map[string]string{"z": "z"}
					for _, d := range ds {
						if present[d.n] {
							a[d.n], b[d.n] = "", ""
						} else {
							b[d.n] = d.v.(string)
						}
					}
					m, want = a, b
				case 1:
					a, b := map[myString]int{"z": 1}, map[myString]int{"z": 1}
					for _, d := range ds {
						if present[d.n] {
							a[myString(d.n)], b[myString(d.n)] = 0, 0
						} else if f, ok := d.v.(float64); ok {
							b[myString(d.n)] = int(f)
						} else {
							b[myString(d.n)] = d.v.(int)
						}
					}
					m, want = a, b
				case 2:
					a, b := map[string]float64{"z": 1}, map[string]float64{"z": 1}
					for _, d := range ds {
						if present[d.n] {
							a[d.n], b[d.n] = 0, 0
						} else {
							b[d.n] = d.v.(float64)
						}
					}
					m, want = a, b
				case 3:
					a, b := map[string]bool{"z": true}, map[string]bool{"z": true}
					for _, d := range ds {
						if present[d.n] {
							a[d.n], b[d.n] = false, false
						} else {
							b[d.n] = d.v.(bool)
						}
					}
					m, want = a, b
				case 4:
					a, b := map[string]interface{}{"z": nil}, map[string]interface{}{"z": nil}
					for _, d := range ds {
						if present[d.n] {
							a[d.n], b[d.n] = nil, nil
						} else {
							b[d.n] = d.v
						}
					}
					m, want = a, b
				}
				what := func() string {
					return fmt.Sprintf("map type %T defaults %v present %v: now %v, expected %v", m, ds, present, m, want)
				}
				if !expect(c, newRoot(rg, o), m, model.Accept, what) {
					return
				}
				if !reflect.DeepEqual(m, want) {
					c.Violate("defaults", "%s", what())
					return
				}
				c.Eval(key("tm", which, ds, present))
			})
		}})
}

// between checks that got lies between orig and full: only keys of full were
// added, nothing else changed. top forbids additions at this level.
func between(orig, got, full interface{}, top bool) string {
	switch o := orig.(type) {
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		if !ok {
			return "object replaced"
		}
		f := full.(map[string]interface{})
		for k := range o {
			if _, ok := g[k]; !ok {
				return fmt.Sprintf("property %q vanished", k)
			}
		}
		added := 0
		for k, v := range g {
			ov, had := o[k]
			fv, should := f[k]
			if !had {
				added++
				if top {
					return fmt.Sprintf("property %q was added to the rejected object", k)
				}
				if !should || !model.Equal(v, fv) {
					return fmt.Sprintf("property %q was added", k)
				}
				continue
			}
			if why := between(ov, v, fv, false); why != "" {
				return why
			}
		}
		// all or none of the defaults of one object
		if added != 0 && len(g) != len(f) {
			return "some defaults of an object were added, others not"
		}
		return ""
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(o) {
			return "array replaced"
		}
		f := full.([]interface{})
		for i := range o {
			if why := between(o[i], g[i], f[i], false); why != "" {
				return why
			}
		}
		return ""
	}
	if !model.Equal(orig, got) {
		return "a value changed"
	}
	return ""
}

// defaultsFlat aims at the interplay of defaults with required, counts and
// dependencies.
func defaultsFlat(c *core.Case) {
	rg := c.Rng
	names := []string{"a", "b", "c", "d"}
	s := &model.Spec{Kind: model.Object}
	if rg.Bool() {
		s.AddProps = &model.Spec{Kind: model.Empty}
	}
	for _, n := range names {
		if rg.P(1, 5) {
			continue
		}
		p := &model.Spec{Kind: core.Pick(rg, []model.Kind{model.Bool, model.String, model.Number, model.Integer})}
		if rg.P(2, 3) {
			p.HasDef = true
			switch p.Kind {
			case model.Bool:
				p.Def = rg.Bool()
				if rg.P(1, 8) {
					p.Def = nil
				}
			case model.String:
				p.Def = core.Pick(rg, []interface{}{"", "x", model.GenString(rg), nil})
			default:
				p.Def = core.Pick(rg, []interface{}{0.0, 1.0, -5.0, model.GenNum(rg), nil})
			}
		}
		s.Props = append(s.Props, model.Prop{Name: n, Spec: p})
	}
	for _, n := range names {
		if rg.P(1, 5) {
			s.Required = append(s.Required, n)
		}
	}
	if rg.P(1, 3) {
		s.MinProps = model.IP(rg.Intn(4))
	}
	if rg.P(1, 3) {
		s.MaxProps = model.IP(rg.Intn(4))
	}
	if rg.P(1, 2) {
		s.PropDeps = append(s.PropDeps, model.PropDep{From: core.Pick(rg, names), To: []string{core.Pick(rg, names)}})
	}
	if rg.P(1, 4) {
		f := core.Pick(rg, names)
		if len(s.PropDeps) == 0 || s.PropDeps[0].From != f {
			s.SchemaDeps = append(s.SchemaDeps, model.Prop{Name: f, Spec: &model.Spec{Kind: model.Object, AddProps: &model.Spec{Kind: model.Empty}, Required: []string{core.Pick(rg, names)}}})
		}
	}
	v := newRoot(rg, (&model.Builder{Rng: rg}).Build(s))
	for bits := 0; bits < 16; bits++ {
		x := map[string]interface{}{}
		for i, n := range names {
			if bits&(1<<i) == 0 {
				continue
			}
			var k model.Kind
			for _, p := range s.Props {
				if p.Name == n {
					k = p.Spec.Kind
				}
			}
			switch k {
			case model.Bool:
				x[n] = false
			case model.String:
				x[n] = ""
			default:
				x[n] = 0.0
			}
		}
		want := model.Eval(s, x, nil)
		got := model.Copy(x)
		if !expect(c, v, got, want, show(s, nil, x)) {
			return
		}
		full := model.Copy(x)
		if want == model.Accept {
			model.Fill(s, full, nil)
		}
		if !model.Equal(got, full) {
			c.Violate("defaults", "verdict %s, the value is now %s, expected %s\n%s", want, model.JSON(got), model.JSON(full), show(s, nil, x)())
			return
		}
		c.Eval(key("flat", s, bits))
	}
}

// defaultsUnfit validates objects that cannot hold (some of) the defaults due:
// they may not be accepted.
func defaultsUnfit(c *core.Case) {
	rg := c.Rng
	o := jsval.Object().AdditionalProperties(jsval.EmptyConstraint)
	names := []string{"a", "b", "c", "d"}[:rg.Range(1, 4)]
	str := func() interface{} { return core.Pick(rg, []interface{}{"", "x", "65", "true", "1"}) }
	num := func() interface{} {
		return core.Pick(rg, []interface{}{0, 65, 955, -1, int64(65), uint8(65), 65.0, int32(0x4e16), uint(0)})
	}
	oth := func() interface{} {
		return core.Pick(rg, []interface{}{[]interface{}{"x"}, []string{"x"}, map[string]interface{}{}, struct{}{}})
	}
	kind := rg.Intn(8)
	fit, unfit := []func() interface{}{}, []func() interface{}{}
	var m interface{}
	boolean := func() interface{} { return rg.Bool() }
	switch kind {
	case 0:
		m, fit, unfit = map[string]string{}, append(fit, str), append(unfit, num, boolean, oth)
	case 1:
		m, fit, unfit = map[string]int{}, append(fit, num), append(unfit, str, boolean, oth)
	case 2:
		m, fit, unfit = map[myString]bool{}, append(fit, boolean), append(unfit, str, num, oth)
	case 3:
		m, fit, unfit = map[string]float64{}, append(fit, num), append(unfit, str, boolean, oth)
	case 4:
		m, fit, unfit = map[string]myString{}, append(fit, str), append(unfit, num, boolean, oth)
	case 5: // nothing can be put in a nil map
		m = core.Pick(rg, []interface{}{map[string]interface{}(nil), map[string]string(nil), myMap(nil), new(map[string]interface{})})
		unfit = append(unfit, str, num, boolean, oth)
	case 6: // ...nor in a struct that's a copy
		type T struct {
			A jsval.MaybeString  `json:"a"`
			B jsval.MaybeInt     `json:"b"`
			C *jsval.MaybeString `json:"c"`
			D jsval.MaybeBool    `json:"d,omitempty"`
		}
		m, unfit = T{}, append(unfit, str, num, boolean)
	case 7:
		type T struct {
			A jsval.MaybeString  `json:"a"`
			B jsval.MaybeString  `json:"b"`
			C *jsval.MaybeString `json:"c"`
			D jsval.MaybeString  `json:"d,omitempty"`
		}
		m, fit, unfit = &T{}, append(fit, str), append(unfit, num, boolean, oth)
	}
	bad, due := false, 0
	defs := map[string]interface{}{}
	for _, n := range names {
		k := &probe{id: n, log: new([]delivery)}
		switch {
		case rg.P(1, 4):
		case len(fit) > 0 && rg.P(2, 3):
			k.has, k.def = true, core.Pick(rg, fit)()
		default:
			k.has, k.def = true, core.Pick(rg, unfit)()
			bad = true
		}
		if k.has {
			due++
			defs[n] = k.def
		}
		o.AddProp(n, k)
	}
	want := verdictOf(!bad)
	what := func() string { return fmt.Sprintf("a %T that has none of %v, with the defaults %v", m, names, defs) }
	if !expect(c, newRoot(rg, o), m, want, what) {
		return
	}
	if want == model.Accept {
		rv := reflect.Indirect(reflect.ValueOf(m))
		if rv.Kind() == reflect.Map && rv.Len() != due {
			c.Violate("defaults", "%s: now %v", what(), m)
			return
		}
	}
	c.Count("unfit_"+want.String(), 1)
	c.Eval(key("unfit", kind, names, fmt.Sprintf("%#v", defs)))
}

// keeper keeps its own properties, and may refuse some.
type keeper struct {
	m      map[string]interface{}
	sets   *[]string
	refuse map[string]bool
	names  []string // handed out as they are, they are nobody else's to change
}

func (k keeper) GetPropNames() ([]string, error) {
	if k.names != nil {
		return k.names, nil
	}
	l := []string{}
	for n := range k.m {
		l = append(l, n)
	}
	return l, nil
}

func (k keeper) GetPropValue(n string) (interface{}, error) {
	if v, ok := k.m[n]; ok {
		return v, nil
	}
	return nil, errors.New("no such property")
}

func (k *keeper) SetPropValue(n string, v interface{}) error {
	*k.sets = append(*k.sets, n)
	if k.refuse[n] {
		return errors.New("refused")
	}
	k.m[n] = v
	return nil
}

// copyKeeper does so even when it's passed by value.
type copyKeeper struct{ keeper }

func (k copyKeeper) SetPropValue(n string, v interface{}) error { return k.keeper.SetPropValue(n, v) }

// defaultsOwn validates structs that set their properties themselves.
func defaultsOwn(c *core.Case) {
	rg := c.Rng
	s := model.GenKind(rg, model.Object, model.GenOpts{Depth: rg.Range(1, 2), Defaults: true})
	for _, p := range s.Props {
		if p.Spec.HasDef && p.Spec.Def == nil {
			return
		}
	}
	v := newRoot(rg, (&model.Builder{Rng: rg}).Build(s))
	for i := 0; i < 4; i++ {
		x, ok := model.GenValue(rg, s, nil, 3).(map[string]interface{})
		if !ok {
			continue
		}
		for _, e := range x {
			if e == nil {
				ok = false // a reported nil value is left open
			}
		}
		if !ok {
			continue
		}
		full := model.Copy(x).(map[string]interface{})
		want := model.Eval(s, x, nil)
		if want == model.Accept {
			model.Fill(s, full, nil)
		}
		k := keeper{m: model.Copy(x).(map[string]interface{}), sets: new([]string), refuse: map[string]bool{}}
		var names, namesBefore []string
		if rg.Bool() {
			for n := range k.m {
				names = append(names, n)
			}
			for j := rg.Range(1, 4); j > 0; j-- {
				names = append(names, "spare")
			}
			namesBefore = append(namesBefore, names...)
			k.names = names[:len(k.m)]
		}
		refused := false
		if rg.P(1, 3) {
			for n := range full {
				if _, had := x[n]; !had && rg.P(1, 3) {
					k.refuse[n] = true
					refused = true
					want = model.Reject
				}
			}
		}
		var g interface{} = &k
		if rg.P(1, 3) {
			g = core.Pick(rg, []interface{}{copyKeeper{k}, &copyKeeper{k}})
		}
		what := func() string {
			return fmt.Sprintf("struct %T with its own properties %s (refuses %v), was asked to set %v, now holds %s; constraint %s", g, model.JSON(x), k.refuse, *k.sets, model.JSON(k.m), s)
		}
		if !expect(c, v, g, want, what) {
			return
		}
		if !reflect.DeepEqual(names, namesBefore) {
			c.Violate("modified", "the names it handed out, %q, are now %q\n%s", namesBefore, names, what())
			return
		}
		switch {
		case want == model.Accept && !model.Equal(k.m, full):
			c.Violate("defaults", "%s\nexpected %s", what(), model.JSON(full))
			return
		case want == model.Reject && !refused && len(*k.sets) != 0:
			c.Violate("modified", "%s", what())
			return
		}
		seen := map[string]bool{}
		for _, n := range *k.sets {
			_, had := x[n]
			if had || seen[n] {
				c.Violate("modified", "property %q is set though it's there\n%s", n, what())
				return
			}
			seen[n] = true
		}
		c.Count("own_sets", len(*k.sets))
		c.Eval(key("own", s, model.JSON(x)))
	}
}

func sortedStrings(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// nearNames: names that a normalisation might confuse stay apart.
func nearNames(c *core.Case) {
	rg := c.Rng
	base := core.Pick(rg, []string{"#/definitions/a", "#/definitions/foo bar", "#/definitions/é", "http://example.com/schema#/definitions/a", "a", "#/properties/a~b", "#/definitions/A b", "x/y", "#/definitions/%61", "日本"})
	vars := map[string]bool{base: true}
	forms := []func(string) string{
		strings.ToUpper, strings.ToLower, strings.TrimSpace, url.PathEscape, url.QueryEscape,
		func(s string) string { u, _ := url.PathUnescape(s); return u },
		func(s string) string { return strings.TrimPrefix(s, "#") },
		func(s string) string { return strings.TrimPrefix(s, "#/") },
		func(s string) string { return strings.TrimPrefix(s, "#/definitions/") },
		func(s string) string { return "#" + s },
		func(s string) string { return s + "/" },
		func(s string) string { return s + "#" },
		func(s string) string { return s + " " },
		func(s string) string { return " " + s },
		func(s string) string { return s + "\x00" },
		func(s string) string { return s + "\n" },
		func(s string) string { return strings.ReplaceAll(s, "~", "~0") },
		func(s string) string { return strings.ReplaceAll(s, "/", "~1") },
		func(s string) string { return strings.ReplaceAll(s, "é", "e\u0301") },
		func(s string) string { return strings.ReplaceAll(s, "a", "%61") },
		func(s string) string { return strings.ReplaceAll(s, "/", "//") },
		func(s string) string { return strings.ReplaceAll(s, "definitions", "./definitions") },
		func(s string) string { return s[:len(s)-1] },
		func(s string) string { return s + s },
		func(s string) string { return "./" + s },
		func(s string) string { return strconv.Quote(s) },
		func(s string) string { return s + "%" },
		func(s string) string { return strings.Repeat("x", 90) + s },
		func(s string) string { return s + strings.Repeat("x", 90) },
		func(s string) string { return s + "\xff" },
		func(s string) string { return s + "\ufffd" },
		func(string) string { return "" },
		func(string) string { return "#" },
		func(string) string { return "/" },
	}
	for i := rg.Range(1, 12); i > 0; i-- {
		l := sortedStrings(vars)
		n := core.Pick(rg, forms)(core.Pick(rg, l))
		if n != "" {
			vars[n] = true
		}
	}
	delete(vars, "")
	if rg.P(1, 4) {
		vars[""] = true
	}
	names := sortedStrings(vars)
	cm := &jsval.ConstraintMap{}
	jv := jsval.New().SetConstraintMap(cm)
	env := model.Env{}
	present := map[string]bool{}
	for _, i := range rg.Perm(len(names)) {
		if len(names) > 1 && rg.P(1, 6) {
			continue
		}
		present[names[i]] = true
		env[names[i]] = intSpec(i)
		core.Pick(rg, []func(string, jsval.Constraint){cm.SetReference, jv.SetReference})(names[i], jsval.Integer().Minimum(float64(i)).Maximum(float64(i)))
	}
	what := func() string { return fmt.Sprintf("names %q, registered %q", names, sortedStrings(present)) }
	if cm.Len() != len(present) || jv.Len() != len(present) {
		c.Violate("len", "Len() = %d, %d names are registered\n%s", cm.Len(), len(present), what())
		return
	}
	for i, n := range names {
		_, err := cm.GetReference(n)
		if (err == nil) != present[n] {
			c.Violate("lookup", "GetReference(%q) gives error %v\n%s", n, err, what())
			return
		}
		ref := jsval.Reference(core.Pick(rg, []jsval.RefResolver{cm, jv})).RefersTo(n)
		v := newRoot(rg, ref)
		for _, d := range []int{i, i + 1, i - 1} {
			if !expect(c, v, d, verdictOf(present[n] && d == i), func() string { return fmt.Sprintf("reference %q, value %d\n%s", n, d, what()) }) {
				return
			}
		}
	}
	c.Eval(key("near", names, present))
	c.Count("near_names", len(names))
}
