package props

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/lestrrat-go/jsval"

	"verif/core"
	"verif/model"
)

type (
	mySlice    []interface{}
	myStrSlice []string
	myMap      map[string]interface{}
	myKeyMap   map[myString]interface{}
)

// typedSlices renders l as other Go slice types where that is possible
// without changing the JSON value.
func typedSlices(l []interface{}) []interface{} {
	out := []interface{}{l, mySlice(l)}
	if len(l) == 0 {
		return append(out, []string{}, []int(nil), []interface{}(nil), [][]string{}, []bool{}, []map[string]interface{}{}, myStrSlice(nil), []struct{}{})
	}
	strs, nums, bools, maps, lists := true, true, true, true, true
	for _, e := range l {
		_, a := e.(string)
		_, b := e.(float64)
		_, c := e.(bool)
		_, d := e.(map[string]interface{})
		_, f := e.([]interface{})
		strs, nums, bools, maps, lists = strs && a, nums && b, bools && c, maps && d, lists && f
	}
	switch {
	case strs:
		var s []string
		for _, e := range l {
			s = append(s, e.(string))
		}
		out = append(out, s, myStrSlice(s))
	case nums:
		var s []float64
		for _, e := range l {
			s = append(s, e.(float64))
		}
		out = append(out, s)
	case bools:
		var s []bool
		for _, e := range l {
			s = append(s, e.(bool))
		}
		out = append(out, s)
	case maps:
		var s []map[string]interface{}
		for _, e := range l {
			s = append(s, e.(map[string]interface{}))
		}
		out = append(out, s)
	case lists:
		var s [][]interface{}
		for _, e := range l {
			s = append(s, e.([]interface{}))
		}
		out = append(out, s)
	}
	return out
}

// typedMaps likewise.
func typedMaps(m map[string]interface{}) []interface{} {
	mm := m
	kt := myKeyMap{}
	for k, v := range m {
		kt[myString(k)] = v
	}
	out := []interface{}{m, m, &mm, myMap(m), kt, &kt}
	if len(m) == 0 {
		return append(out, map[string]string{}, map[string]int{}, map[string]struct{}{}, struct{}{}, &struct{}{}, map[myString]bool{}, map[string]interface{}(nil))
	}
	strs, nums, maps := true, true, true
	for _, e := range m {
		_, a := e.(string)
		_, b := e.(float64)
		_, d := e.(map[string]interface{})
		strs, nums, maps = strs && a, nums && b, maps && d
	}
	switch {
	case strs:
		s, t := map[string]string{}, map[myString]string{}
		for k, e := range m {
			s[k], t[myString(k)] = e.(string), e.(string)
		}
		out = append(out, s, t, &s)
	case nums:
		s := map[string]float64{}
		for k, e := range m {
			s[k] = e.(float64)
		}
		out = append(out, s)
	case maps:
		s := map[string]map[string]interface{}{}
		for k, e := range m {
			s[k] = e.(map[string]interface{})
		}
		out = append(out, s)
	}
	return out
}

func notArrays() []interface{} {
	var np *[]interface{}
	var e error
	return []interface{}{nil, true, 0.0, 1, "", "[]", "abc", map[string]interface{}{}, map[string]interface{}{"0": 1.0}, map[int]int{}, struct{}{}, struct{ A []int }{}, e, np, make(chan int, 1), func() []int { return nil }, complex(0, 0), json.Number("1"), myString("x")}
}

func notObjects() []interface{} {
	var e error
	var np *map[string]interface{}
	return []interface{}{nil, true, 0.0, 1, "", "{}", "abc", []interface{}{}, []interface{}{map[string]interface{}{}}, []map[string]interface{}{}, map[int]string{}, map[int]string{1: "a"}, map[interface{}]interface{}{}, map[bool]bool{}, e, np, make(chan int, 1), func() {}, complex(0, 0), json.Number("1"), myString("x"), [0]int{}}
}

type myBytes []byte

var elemTypes = []reflect.Type{
	reflect.TypeOf(uint8(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(uint32(0)),
	reflect.TypeOf(int64(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(0), reflect.TypeOf(uint(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(0.0),
	reflect.TypeOf(""), reflect.TypeOf(myString("")), reflect.TypeOf(false), reflect.TypeOf([]string{}), reflect.TypeOf([]byte{}), reflect.TypeOf(map[string]int{}),
	reflect.TypeOf(new(int)), reflect.TypeOf(new(string)), reflect.TypeOf(struct{ A int }{}), reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf((*fmt.Stringer)(nil)).Elem(),
	reflect.TypeOf(jsval.MaybeInt{}), reflect.TypeOf(make(chan int)),
}

// setNth stores the k-th of some different values.
func setNth(v reflect.Value, k int) {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(k))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(k + 'a'))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(k) / 2)
	case reflect.String:
		v.SetString(strings.Repeat("x", k))
	case reflect.Bool:
		v.SetBool(k%2 == 1)
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), k, k))
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		v.SetMapIndex(reflect.ValueOf(fmt.Sprint(k)), reflect.Zero(v.Type().Elem()))
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		setNth(v.Elem(), k)
	case reflect.Struct:
		if f := v.Field(0); f.CanSet() {
			setNth(f, k)
		}
	case reflect.Interface:
		if v.NumMethod() == 0 {
			v.Set(reflect.ValueOf(core.Pick(core.NewRng("nth", k), []interface{}{float64(k), fmt.Sprint(k), []interface{}{float64(k)}})))
		} else {
			v.Set(reflect.ValueOf(myStringer(fmt.Sprint(k))))
		}
	}
}

type myStringer string

func (m myStringer) String() string { return "stringer" }

var scalarKinds = []model.Kind{model.Empty, model.Null, model.Bool, model.String, model.Number, model.Integer, model.Enum}

func init() {
	register(&core.Prop{ID: "C04", Quick: 7, Level: "exploration",
		Rule:        "array constraints with random rule subsets (nested up to 3 levels) on directed arrays: lengths around the bounds and around the number of positional rules, duplicates at random distances and look-alikes; recording probe constraints at items/positional/additional positions check which element was delivered to which rule; typed slices; long arrays with one bad or repeated element; non-trivial = judged (constraint, value) pair with at least one rule",
		Assumptions: []string{"elements are JSON values; Go arrays and pointers to slices are not generated as top-level values"},
		Run: func(r *core.Run) {
			na := notArrays()
			sizeStage(r, "positional", "nested_array")
			r.Cases("model", r.N(40000, 1000000), func(c *core.Case) {
				s := model.GenKind(c.Rng, model.Array, model.GenOpts{Depth: c.Rng.Range(1, 3), Formats: false})
				v := newRoot(c.Rng, (&model.Builder{Rng: c.Rng}).Build(s))
				for i := 0; i < 6; i++ {
					x := model.GenValue(c.Rng, s, nil, 3)
					want := model.Eval(s, x, nil)
					g := x
					if l, ok := x.([]interface{}); ok {
						g = core.Pick(c.Rng, typedSlices(l))
					}
					if !expect(c, v, g, want, show(s, nil, x)) {
						return
					}
					c.Eval(key(s, model.JSON(x)))
					if c.Rng.P(1, 5) {
						o := core.Pick(c.Rng, na)
						if !expect(c, v, o, model.Reject, func() string { return fmt.Sprintf("constraint: %s\nvalue of type %T: %v", s, o, o) }) {
							return
						}
						c.Count("other_kinds", 1)
					}
				}
				c.Sample(s.String())
			})
			r.Cases("deliveries", r.N(20000, 400000), func(c *core.Case) {
				rg := c.Rng
				var log []delivery
				npos := rg.Intn(5)
				bad := -1
				n := rg.Intn(9)
				if rg.P(1, 2) && n > 0 {
					bad = rg.Intn(n)
				}
				var mk = func(id string) jsval.Constraint {
					return &probe{id: id, log: &log, pass: func(v interface{}) bool { return int(v.(float64)) != bad }}
				}
				a := jsval.Array()
				hasItems := rg.P(1, 3)
				var fs []func()
				if hasItems {
					fs = append(fs, func() { a.Items(mk("items")) })
				}
				if npos > 0 {
					l := make([]jsval.Constraint, npos)
					for i := range l {
						l[i] = mk(fmt.Sprintf("pos%d", i))
					}
					fs = append(fs, func() { a.PositionalItems(l) })
				}
				mode := rg.Intn(3)
				switch mode {
				case 1:
					fs = append(fs, func() { a.AdditionalItems(nil) })
				case 2:
					fs = append(fs, func() { a.AdditionalItems(mk("add")) })
				}
				for _, i := range rg.Perm(len(fs)) {
					fs[i]()
				}
				// reuse the same constraint for two arrays
				for round := 0; round < 2; round++ {
					log = nil
					x := make([]interface{}, n)
					for i := range x {
						x[i] = float64(i)
					}
					want := model.Accept
					gov := make([]string, n)
					for i := range x {
						switch {
						case hasItems:
							gov[i] = "items"
						case i < npos:
							gov[i] = fmt.Sprintf("pos%d", i)
						case npos > 0 && mode == 1:
							want = model.Reject
						case npos > 0 && mode == 2:
							gov[i] = "add"
						}
						if gov[i] != "" && i == bad {
							want = model.Reject
						}
					}
					what := func() string {
						return fmt.Sprintf("items=%v positional=%d additional=%v n=%d bad=%d deliveries=%v", hasItems, npos, []string{"unset", "nil", "probe"}[mode], n, bad, log)
					}
					if !expect(c, a, x, want, what) {
						return
					}
					seen := make([]bool, n)
					for _, d := range log {
						i := int(d.Val.(float64))
						if gov[i] != d.ID {
							c.Violate("wrong delivery", "element %d was judged by rule %s, it is governed by %q\n%s", i, d.ID, gov[i], what())
							return
						}
						seen[i] = true
					}
					if want == model.Accept {
						for i := range seen {
							if gov[i] != "" && !seen[i] {
								c.Violate("missed delivery", "accepted, but element %d was never judged\n%s", i, what())
								return
							}
						}
					}
					c.Count("deliveries", len(log))
					c.Eval(key("d", hasItems, npos, mode, n, bad))
					n = rg.Intn(9)
					bad = -1
				}
			})
			r.Cases("unique", r.N(10000, 200000), func(c *core.Case) {
				rg := c.Rng
				n := rg.Range(2, 40)
				if rg.P(1, 30) {
					n = rg.Range(500, 3000)
				}
				x := make([]interface{}, 0, n)
				have := map[string]bool{}
				style := rg.Intn(6)
				for i := 0; len(x) < n && i < 10*n; i++ {
					var e interface{}
					switch style {
					case 0:
						e = fmt.Sprintf("s%d", rg.Intn(10*n))
					case 1:
						e = float64(rg.Range(-5*n, 5*n)) / 4
					case 2:
						e = []interface{}{model.GenString(rg), model.GenString(rg)}
					case 3:
						e = map[string]interface{}{model.GenName(rg): model.GenJSON(rg, 1), "k": float64(rg.Intn(n))}
					default:
						e = model.GenJSON(rg, 2)
					}
					k := model.JSON(e)
					if have[k] {
						continue
					}
					have[k] = true
					x = append(x, e)
				}
				n = len(x)
				// truly unique? (lookalikes must not count)
				uniq := true
				if rg.P(1, 2) && n > 1 {
					i, j := rg.Intn(n), rg.Intn(n)
					if rg.P(1, 3) {
						i, j = 0, n-1
					}
					if i != j {
						x[j] = model.Copy(x[i])
						uniq = false
					}
				}
				s := &model.Spec{Kind: model.Array, Unique: true}
				if rg.P(1, 3) {
					s.Items = &model.Spec{Kind: model.Empty}
				}
				v := (&model.Builder{Rng: rg}).Build(s)
				g := core.Pick(rg, typedSlices(x))
				if !expect(c, v, g, verdictOf(uniq), show(s, nil, x)) {
					return
				}
				s.Unique = false
				nv := jsval.Array().UniqueItems(true).UniqueItems(false)
				if !expect(c, nv, g, model.Accept, show(s, nil, x)) {
					return
				}
				c.Eval(key("u", model.JSON(x)))
				c.Count("unique_checked", 1)
			})
			r.Cases("kinds", r.N(20000, 300000), func(c *core.Case) {
				// slices of any element type
				rg := c.Rng
				et := core.Pick(rg, elemTypes)
				st := reflect.SliceOf(et)
				if et.Kind() == reflect.Uint8 && rg.Bool() {
					st = core.Pick(rg, []reflect.Type{reflect.TypeOf(json.RawMessage{}), reflect.TypeOf(myBytes{}), st})
				}
				n := rg.Intn(7)
				x := reflect.MakeSlice(st, n, n+rg.Intn(3))
				used, uniq := map[int]bool{}, true
				for i := 0; i < n; i++ {
					k := rg.Intn(9) // below 8: different values of any type
					if used[k] || et.Kind() == reflect.Bool {
						k = i
					}
					if rg.P(1, 8) && i > 0 {
						k = rg.Intn(9)
					}
					if used[k] {
						uniq = false
					}
					used[k] = true
					setNth(x.Index(i), k)
				}
				var log []delivery
				bad := rg.Intn(9)
				want := model.Accept
				a := jsval.Array()
				p := &probe{id: "e", log: &log}
				switch rg.Intn(4) {
				case 0:
				case 1:
					a.Items(p)
				case 2:
					a.PositionalItems([]jsval.Constraint{p}).AdditionalItems(p)
				case 3:
					a.Items(p)
					p.pass = func(v interface{}) bool { return len(log) != bad+1 }
					if bad < n {
						want = model.Reject
					}
				}
				if rg.P(1, 3) {
					m := rg.Intn(7)
					a.MinItems(m)
					if n < m {
						want = model.Reject
					}
				}
				if rg.P(1, 3) {
					m := rg.Intn(7)
					a.MaxItems(m)
					if n > m {
						want = model.Reject
					}
				}
				// (how other kinds compare is not stated)
				if rg.P(1, 3) && et.Kind() != reflect.Bool && et.Kind() != reflect.Ptr && et.Kind() != reflect.Struct && et.Kind() != reflect.Chan {
					a.UniqueItems(true)
					if !uniq {
						want = model.Reject
					}
				}
				what := func() string { return fmt.Sprintf("%s: %v", x.Type(), x.Interface()) }
				if !expect(c, newRoot(rg, a), x.Interface(), want, what) {
					return
				}
				if want == model.Accept && len(log) > 0 {
					// each element once, in whatever order
					left := make([]bool, n)
					for _, d := range log {
						found := false
						for i := 0; i < n && !found; i++ {
							if !left[i] && reflect.DeepEqual(d.Val, x.Index(i).Interface()) {
								left[i], found = true, true
							}
						}
						if !found {
							c.Violate("delivery", "%#v was judged, which is no (other) element of %s", d.Val, what())
							return
						}
					}
					if len(log) != n {
						c.Violate("delivery", "%d of %d elements were judged: %s", len(log), n, what())
						return
					}
				}
				c.Count("elements_of_"+et.Kind().String(), n)
				c.Eval(key("kinds", what(), want, bad))
			})
			r.Cases("ints_unique", r.N(3000, 50000), func(c *core.Case) {
				rg := c.Rng
				n := rg.Range(1, 30)
				x := make([]int, n)
				seen := map[int]bool{}
				uniq := true
				for i := range x {
					x[i] = rg.Range(-20*n, 20*n)
					if seen[x[i]] {
						uniq = false
					}
					seen[x[i]] = true
				}
				var g interface{} = x
				if rg.Bool() {
					y := make([]int64, n)
					for i := range x {
						y[i] = int64(x[i])
					}
					g = y
				}
				if !expect(c, jsval.Array().UniqueItems(true), g, verdictOf(uniq), func() string { return fmt.Sprint(x) }) {
					return
				}
				lo := rg.Range(-100, 100)
				all := true
				for _, e := range x {
					all = all && e >= lo
				}
				if !expect(c, jsval.Array().Items(jsval.Integer().Minimum(float64(lo))), g, verdictOf(all), func() string { return fmt.Sprintf("items >= %d: %v", lo, x) }) {
					return
				}
				c.Eval(key("i", x, lo))
			})
			// so many elements that anything but themselves (a hash, say) collides
			r.Cases("many_unique", unlessTiny(r.N(4, 40)), func(c *core.Case) {
				rg := c.Rng
				n := rg.Range(200000, 300000)
				x := make([]interface{}, n)
				kind := rg.Intn(3)
				salt := model.GenName(rg)
				seen := make(map[uint64]bool, n)
				for i := range x {
					u := rg.Uint64() >> 12 // a float64 holds it exactly
					for seen[u] {
						u = rg.Uint64() >> 12
					}
					seen[u] = true
					switch kind {
					case 0:
						x[i] = float64(u)
					case 1:
						x[i] = fmt.Sprintf("%s%x", salt, u)
					case 2:
						x[i] = []interface{}{float64(u), salt}
					}
				}
				a := jsval.Array().UniqueItems(true)
				// comparing every pair is right as well, but takes too long
				t := time.Now()
				if !expect(c, a, x[:4000], model.Accept, func() string { return fmt.Sprintf("4000 elements of kind %d, salt %q", kind, salt) }) {
					return
				}
				if time.Since(t) > 200*time.Millisecond {
					c.Count("many_unique_skipped", 1)
					return
				}
				what := func() string { return fmt.Sprintf("%d elements of kind %d, salt %q", n, kind, salt) }
				if !expect(c, a, x, model.Accept, what) {
					return
				}
				i, j := rg.Intn(n), rg.Intn(n)
				for i == j {
					j = rg.Intn(n)
				}
				x[i] = x[j]
				if !expect(c, a, x, model.Reject, func() string { return what() + fmt.Sprintf(", %d and %d are equal", i, j) }) {
					return
				}
				c.Count("elements_compared", 2*n)
				c.Eval(key("mu", n, kind, salt, i, j))
			})
			r.Cases("long", unlessTiny(r.N(300, 5000)), func(c *core.Case) {
				rg := c.Rng
				n := core.Pick(rg, []int{100, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4096, 5000, 10000, 65536})
				x := make([]interface{}, n)
				for i := range x {
					x[i] = float64(i)
				}
				bad := rg.Intn(n)
				switch rg.Intn(4) {
				case 0:
					bad = n - 1
				case 1:
					bad = 0
				}
				elem := jsval.Integer()
				var a *jsval.ArrayConstraint
				posN := 0
				switch rg.Intn(3) {
				case 0:
					a = jsval.Array().Items(elem)
				case 1:
					a = jsval.Array().PositionalItems([]jsval.Constraint{elem, elem}).AdditionalItems(elem)
				case 2:
					posN = rg.Range(1, n+2)
					l := make([]jsval.Constraint, posN)
					for i := range l {
						l[i] = elem
					}
					a = jsval.Array().PositionalItems(l).AdditionalItems(elem)
				}
				what := func() string { return fmt.Sprintf("%d integers, positional=%d, bad index %d", n, posN, bad) }
				if !expect(c, a, x, model.Accept, what) {
					return
				}
				x[bad] = 0.5
				if !expect(c, a, x, model.Reject, what) {
					return
				}
				x[bad] = float64(bad)
				mi := n + rg.Range(-1, 1)
				b := jsval.Array().MinItems(mi)
				if !expect(c, b, x, verdictOf(n >= mi), func() string { return fmt.Sprintf("n=%d minItems=%d", n, mi) }) {
					return
				}
				b = jsval.Array().MaxItems(mi)
				if !expect(c, b, x, verdictOf(n <= mi), func() string { return fmt.Sprintf("n=%d maxItems=%d", n, mi) }) {
					return
				}
				c.Eval(key("l", n, bad, posN, mi))
			})
		}})

	register(&core.Prop{ID: "C05", Quick: 3, Level: "exploration",
		Rule:        "object constraints (properties, patterns, additional, required, counts) in random declaration order on directed maps of several Go types, compared with an independent evaluation; recording probes check which property value was delivered to which rule; wide objects with one offending property; non-objects; non-trivial = judged (constraint, map) pair",
		Assumptions: []string{"maps have string-kinded keys"},
		Run: func(r *core.Run) {
			no := notObjects()
			sizeStage(r, "props", "required", "patterns", "patterns_one", "nested_object", "long_names")
			r.Cases("model", r.N(40000, 1000000), func(c *core.Case) {
				s := model.GenKind(c.Rng, model.Object, model.GenOpts{Depth: c.Rng.Range(1, 3), NoDeps: true, Wide: true, DupPats: true})
				v := newRoot(c.Rng, (&model.Builder{Rng: c.Rng}).Build(s))
				for i := 0; i < 6; i++ {
					x := model.GenValue(c.Rng, s, nil, 3)
					want := model.Eval(s, x, nil)
					g := x
					if m, ok := x.(map[string]interface{}); ok {
						g = core.Pick(c.Rng, typedMaps(m))
					}
					if !expect(c, v, g, want, show(s, nil, x)) {
						return
					}
					c.Eval(key(s, model.JSON(x)))
					if c.Rng.P(1, 5) {
						o := core.Pick(c.Rng, no)
						if !expect(c, v, o, model.Reject, func() string { return fmt.Sprintf("constraint: %s\nvalue of type %T: %v", s, o, o) }) {
							return
						}
						c.Count("other_kinds", 1)
					}
				}
				c.Sample(s.String())
			})
			// which rule sees which property
			r.Cases("deliveries", r.N(20000, 400000), func(c *core.Case) {
				rg := c.Rng
				var log []delivery
				bad := map[string]bool{}
				mk := func(id string) jsval.Constraint {
					return &probe{id: id, log: &log, pass: func(v interface{}) bool { return !bad[v.(string)] }}
				}
				pool := append([]string{"a", "b", "ab", "foo", "boo", "x-foo", "zb", "", "名前"}, model.GenName(rg), model.GenName(rg))
				if rg.P(1, 4) {
					pool = append(pool, rawNames...)
				}
				o := jsval.Object()
				declared := map[string]bool{}
				var fs []func()
				for _, n := range pool {
					if rg.P(1, 4) && !declared[n] {
						declared[n] = true
						n := n
						fs = append(fs, func() { o.AddProp(n, mk("prop:"+n)) })
					}
				}
				var pats []string
				for _, p := range []string{"^a", "b$", "o", "^x-", "^$", "名"} {
					if rg.P(1, 3) {
						pats = append(pats, p)
						p := p
						fs = append(fs, func() { o.PatternPropertiesString(p, mk("pat:"+p)) })
					}
				}
				hasAdd := rg.P(3, 4)
				if hasAdd {
					fs = append(fs, func() { o.AdditionalProperties(mk("add")) })
				}
				for _, i := range rg.Perm(len(fs)) {
					fs[i]()
				}
				for round := 0; round < 3; round++ {
					log = nil
					m := map[string]interface{}{}
					for _, n := range pool {
						if rg.P(1, 2) {
							m[n] = n
						}
					}
					for k := range bad {
						delete(bad, k)
					}
					if rg.P(1, 3) {
						bad[core.Pick(rg, pool)] = true
					}
					gov := map[string][]string{}
					want := model.Accept
					for n := range m {
						var l []string
						if declared[n] {
							l = []string{"prop:" + n}
						} else {
							for _, p := range pats {
								if matchPat(p, n) {
									l = append(l, "pat:"+p)
								}
							}
							if l == nil {
								if hasAdd {
									l = []string{"add"}
								} else {
									want = model.Reject
								}
							}
						}
						gov[n] = l
						if len(l) > 0 && bad[n] {
							want = model.Reject
						}
					}
					what := func() string {
						return fmt.Sprintf("declared=%v patterns=%v additional=%v value=%v bad=%v deliveries=%v", declared, pats, hasAdd, m, bad, log)
					}
					if !expect(c, o, m, want, what) {
						return
					}
					got := map[string]map[string]bool{}
					for _, d := range log {
						n, _ := d.Val.(string)
						ok := false
						for _, g := range gov[n] {
							ok = ok || g == d.ID
						}
						if !ok {
							c.Violate("wrong delivery", "property %q was judged by rule %q, governed by %q\n%s", n, d.ID, gov[n], what())
							return
						}
						if got[n] == nil {
							got[n] = map[string]bool{}
						}
						got[n][d.ID] = true
					}
					if want == model.Accept {
						for n, l := range gov {
							if len(got[n]) != len(l) {
								c.Violate("missed delivery", "accepted, but property %q was judged by %v only, it is governed by %q\n%s", n, got[n], l, what())
								return
							}
						}
					}
					c.Count("deliveries", len(log))
					c.Eval(key("d", model.JSON(m), declared, pats, hasAdd, bad))
				}
			})
			// presence in every combination
			r.Cases("kinds", r.N(20000, 300000), func(c *core.Case) {
				// maps of any element type
				rg := c.Rng
				et := core.Pick(rg, elemTypes)
				if et == reflect.TypeOf(jsval.MaybeInt{}) {
					return // left open
				}
				kt := core.Pick(rg, []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(myString("")), reflect.TypeOf(myStringer(""))})
				x := reflect.MakeMap(reflect.MapOf(kt, et))
				var log []delivery
				o := jsval.Object()
				want := model.Accept
				n := rg.Intn(6)
				bad := rg.Intn(12)
				governs := map[string]int{}
				for i := 0; i < n; i++ {
					name := fmt.Sprint(core.Pick(rg, []string{"d", "p", "a"}), i)
					e := reflect.New(et).Elem()
					setNth(e, rg.Intn(9))
					x.SetMapIndex(reflect.ValueOf(name).Convert(kt), e)
					governs[name] = i
					if name[0] == 'd' {
						o.AddProp(name, &probe{id: name, log: &log, pass: func(interface{}) bool { return i != bad }})
						if i == bad {
							want = model.Reject
						}
					}
				}
				o.PatternPropertiesString("^p", &probe{id: "p", log: &log})
				o.AdditionalProperties(&probe{id: "a", log: &log})
				if rg.P(1, 3) {
					m := rg.Intn(6)
					o.MinProperties(m)
					if n < m {
						want = model.Reject
					}
				}
				if rg.P(1, 3) {
					m := rg.Intn(6)
					o.MaxProperties(m)
					if n > m {
						want = model.Reject
					}
				}
				if rg.P(1, 4) {
					name := fmt.Sprint(core.Pick(rg, []string{"d", "p", "a"}), rg.Intn(6))
					o.Required(name)
					if _, ok := governs[name]; !ok {
						want = model.Reject
					}
				}
				in := x.Interface()
				if rg.P(1, 4) {
					p := reflect.New(x.Type())
					p.Elem().Set(x)
					in = p.Interface()
				}
				what := func() string { return fmt.Sprintf("%T: %v", in, x.Interface()) }
				if !expect(c, newRoot(rg, o), in, want, what) {
					return
				}
				if want == model.Accept {
					sum := map[string]int{}
					for _, d := range log {
						sum[d.ID[:1]]++
					}
					should := map[string]int{}
					for name := range governs {
						should[name[:1]]++
					}
					if !reflect.DeepEqual(sum, should) {
						c.Violate("delivery", "judged %v, there are %v\n%s", sum, should, what())
						return
					}
				}
				c.Count("elements_of_"+et.Kind().String(), n)
				c.Eval(key("kinds", what(), want, bad))
			})
			r.Cases("required", r.N(3000, 40000), func(c *core.Case) {
				rg := c.Rng
				names := []string{model.GenName(rg), model.GenName(rg), model.GenName(rg), model.GenName(rg)}
				if rg.P(1, 6) {
					names = append([]string{}, rawNames[:4]...)
				}
				s := &model.Spec{Kind: model.Object}
				used := map[string]bool{}
				for _, n := range names {
					if used[n] {
						continue
					}
					used[n] = true
					if rg.Bool() {
						s.Required = append(s.Required, n)
					}
					if rg.Bool() {
						s.Props = append(s.Props, model.Prop{Name: n, Spec: &model.Spec{Kind: model.Empty}})
					}
				}
				if rg.P(1, 2) {
					s.AddProps = &model.Spec{Kind: model.Empty}
				}
				if rg.P(1, 4) {
					s.Patterns = append(s.Patterns, model.Prop{Name: ".*", Spec: &model.Spec{Kind: model.Empty}})
				}
				if rg.P(1, 3) {
					s.MinProps = model.IP(rg.Intn(4))
				}
				if rg.P(1, 3) {
					s.MaxProps = model.IP(rg.Intn(4))
				}
				v := (&model.Builder{Rng: rg}).Build(s)
				for bits := 0; bits < 16; bits++ {
					m := map[string]interface{}{}
					for i, n := range names {
						if bits&(1<<i) != 0 {
							m[n] = core.Pick(rg, []interface{}{nil, false, 0.0, "", "x", map[string]interface{}{}, []interface{}{}})
						}
					}
					g := core.Pick(rg, typedMaps(m))
					if !expect(c, v, g, model.Eval(s, m, nil), show(s, nil, m)) {
						return
					}
					c.Eval(key("r", s, model.JSON(m)))
				}
			})
			r.Cases("wide", unlessTiny(r.N(300, 4000)), func(c *core.Case) {
				rg := c.Rng
				n := core.Pick(rg, []int{15, 16, 17, 31, 32, 33, 64, 100, 128, 255, 256, 257, 1000, 3000})
				s := &model.Spec{Kind: model.Object}
				m := map[string]interface{}{}
				nd, np := rg.Intn(n), rg.Intn(n)
				for i := 0; i < n; i++ {
					switch {
					case i < nd && i < 200:
						name := fmt.Sprintf("d%d", i)
						s.Props = append(s.Props, model.Prop{Name: name, Spec: &model.Spec{Kind: model.Integer}})
						m[name] = float64(i)
						if rg.P(1, 4) {
							s.Required = append(s.Required, name)
						}
					case i < nd+np:
						m[fmt.Sprintf("x-%d", i)] = fmt.Sprint(i)
					default:
						m[fmt.Sprintf("z%d", i)] = true
					}
				}
				s.Patterns = []model.Prop{{Name: "^x-", Spec: &model.Spec{Kind: model.String}}, {Name: "^x-.*5$", Spec: &model.Spec{Kind: model.String, MaxLen: model.IP(6)}}}
				s.AddProps = &model.Spec{Kind: model.Bool}
				if rg.P(1, 2) {
					s.MaxProps = model.IP(n)
				}
				if rg.P(1, 2) {
					s.MinProps = model.IP(n)
				}
				v := (&model.Builder{Rng: rg}).Build(s)
				what := func() string { return fmt.Sprintf("%d properties (%d declared)\n%s", n, len(s.Props), s) }
				if !expect(c, v, m, model.Eval(s, m, nil), what) {
					return
				}
				for k := 0; k < 3; k++ {
					x := model.Copy(m).(map[string]interface{})
					keys := model.SortedKeys(x)
					name := core.Pick(rg, keys)
					switch rg.Intn(3) {
					case 0:
						x[name] = nil
					case 1:
						delete(x, name)
					case 2:
						x["z extra"] = false
					}
					if !expect(c, v, x, model.Eval(s, x, nil), what) {
						return
					}
					c.Eval(key("w", n, name, k, len(x)))
				}
			})
		}})

	register(&core.Prop{ID: "C06", Quick: 4, Level: "exploration",
		Rule:        "objects with property and schema dependencies: every subset of up to 6 names present, each name declared, pattern-matched or additional, over random dependency graphs (chains, cycles, self, several per trigger, set in several calls); schema dependencies observed by a recording probe that must receive the object exactly when triggered; plus random full object specs; non-trivial = judged pair with at least one triggered dependency",
		Assumptions: []string{"a trigger with both kinds of dependency is left open"},
		Run: func(r *core.Run) {
			sizeStage(r, "targets", "triggers", "long_names")
			r.Cases("structs", r.N(2500, 40000), func(c *core.Case) {
				// the same, with structs and unset Maybe fields
				rg := c.Rng
				s := &model.Spec{}
				for i := 0; i < 50; i++ {
					s = model.GenKind(rg, model.Object, model.GenOpts{Depth: 1, Kinds: []model.Kind{model.Empty, model.Null, model.Bool, model.String, model.Number, model.Integer, model.Object}})
					if rg.Bool() {
						s.AddProps = &model.Spec{Kind: model.Empty}
					}
					if len(s.PropDeps)+len(s.SchemaDeps) > 0 {
						break
					}
				}
				var absent []string
				seen := map[string]bool{}
				mention := func(n string) {
					if !seen[n] {
						seen[n] = true
						absent = append(absent, n)
					}
				}
				for _, p := range s.Props {
					mention(p.Name)
				}
				for _, d := range s.PropDeps {
					mention(d.From)
					for _, t := range d.To {
						mention(t)
					}
				}
				for _, d := range s.SchemaDeps {
					mention(d.Name)
					for _, n := range d.Spec.Required {
						mention(n)
					}
				}
				v := newRoot(rg, (&model.Builder{Rng: rg}).Build(s))
				for i := 0; i < 5; i++ {
					m, ok := model.GenValue(rg, s, nil, 2).(map[string]interface{})
					if !ok {
						continue
					}
					t, ok := structTwin(rg, m, absent, 1, false)
					if !ok {
						continue
					}
					what := func() string {
						return fmt.Sprintf("constraint: %s\nmap: %s\nstruct: %+v (%s)", s, model.JSON(m), t.Elem().Interface(), t.Elem().Type())
					}
					var x interface{} = t.Interface()
					if rg.Bool() {
						x = t.Elem().Interface()
					}
					if !expect(c, v, x, model.Eval(s, m, nil), what) {
						return
					}
					c.Count("struct_types", 1)
					c.Eval(key("st", s, t.Elem().Type(), model.JSON(m)))
				}
			})
			r.Cases("subsets", r.N(6000, 120000), func(c *core.Case) {
				rg := c.Rng
				names := []string{"a", "b", "c", "x-foo", "foo", "zz"}
				if rg.P(1, 3) {
					for i := range names {
						names[i] = model.Names[(rg.Intn(3)*len(names)+i*7+rg.Intn(5))%len(model.Names)]
					}
				} else if rg.P(1, 6) {
					names = append([]string{}, rawNames...)
				}
				uniq := map[string]bool{}
				var ns []string
				for _, n := range names {
					if !uniq[n] {
						uniq[n] = true
						ns = append(ns, n)
					}
				}
				names = ns
				hasDef := false
				s := &model.Spec{Kind: model.Object, AddProps: &model.Spec{Kind: model.Empty}}
				for _, n := range names {
					if rg.P(1, 2) {
						s.Props = append(s.Props, model.Prop{Name: n, Spec: &model.Spec{Kind: model.Empty}})
					} else if rg.P(1, 8) { // what is filled in for an absent one does not count
						s.Props = append(s.Props, model.Prop{Name: n, Spec: &model.Spec{Kind: model.String, HasDef: true, Def: "x"}})
						hasDef = true
					}
				}
				if rg.P(1, 2) {
					s.Patterns = append(s.Patterns, model.Prop{Name: core.Pick(rg, []string{"^x-", "o", "^[a-c]$", ".*"}), Spec: &model.Spec{Kind: model.Empty}})
				}
				from := map[string]bool{}
				for k := rg.Range(1, 4); k > 0; k-- {
					f := core.Pick(rg, names)
					if from[f] {
						continue
					}
					from[f] = true
					if rg.P(2, 3) {
						d := model.PropDep{From: f}
						for j := rg.Range(1, 4); j > 0; j-- {
							d.To = append(d.To, core.Pick(rg, names))
						}
						s.PropDeps = append(s.PropDeps, d)
					} else {
						ds := &model.Spec{Kind: model.Object, AddProps: &model.Spec{Kind: model.Empty}}
						for j := rg.Range(0, 2); j > 0; j-- {
							ds.Required = append(ds.Required, core.Pick(rg, names))
						}
						if rg.P(1, 3) {
							ds.MinProps = model.IP(rg.Range(1, 4))
						}
						if rg.P(1, 3) {
							ds.Props = append(ds.Props, model.Prop{Name: core.Pick(rg, names), Spec: &model.Spec{Kind: core.Pick(rg, []model.Kind{model.String, model.Integer, model.Null})}})
						}
						if rg.P(1, 5) {
							ds.AddProps = nil
							for _, n := range names {
								if rg.Bool() {
									ds.Props = append(ds.Props, model.Prop{Name: n, Spec: &model.Spec{Kind: model.Empty}})
								}
							}
							seen := map[string]bool{}
							var l []model.Prop
							for _, p := range ds.Props {
								if !seen[p.Name] {
									seen[p.Name] = true
									l = append(l, p)
								}
							}
							ds.Props = l
						}
						s.SchemaDeps = append(s.SchemaDeps, model.Prop{Name: f, Spec: ds})
					}
				}
				v := newRoot(rg, (&model.Builder{Rng: rg}).Build(s))
				for bits := 0; bits < 1<<len(names); bits++ {
					m := map[string]interface{}{}
					trig := false
					for i, n := range names {
						if bits&(1<<i) != 0 {
							m[n] = core.Pick(rg, []interface{}{nil, 1.0, "s", false})
							trig = trig || from[n]
						}
					}
					var g interface{} = m
					if !hasDef && rg.P(1, 6) {
						g = core.Pick(rg, typedMaps(m))
					}
					if !expect(c, v, g, model.Eval(s, m, nil), show(s, nil, m)) {
						return
					}
					if trig {
						c.Eval(key(s, bits))
					} else {
						c.Eval("")
					}
				}
				c.Sample(s.String())
			})
			r.Cases("model", r.N(15000, 400000), func(c *core.Case) {
				var s *model.Spec
				for i := 0; i < 50; i++ {
					s = model.GenKind(c.Rng, model.Object, model.GenOpts{Depth: 2})
					if len(s.PropDeps)+len(s.SchemaDeps) > 0 {
						break
					}
				}
				v := newRoot(c.Rng, (&model.Builder{Rng: c.Rng}).Build(s))
				for i := 0; i < 8; i++ {
					x := model.GenValue(c.Rng, s, nil, 3)
					if !expect(c, v, x, model.Eval(s, x, nil), show(s, nil, x)) {
						return
					}
					k := ""
					if m, ok := x.(map[string]interface{}); ok {
						for _, d := range s.PropDeps {
							if _, ok := m[d.From]; ok {
								k = key(s, model.JSON(x))
							}
						}
						for _, d := range s.SchemaDeps {
							if _, ok := m[d.Name]; ok {
								k = key(s, model.JSON(x))
							}
						}
					}
					c.Eval(k)
				}
			})
			r.Cases("schema_probe", r.N(10000, 200000), func(c *core.Case) {
				rg := c.Rng
				var log []delivery
				names := []string{"a", "b", "c", "x-d"}
				if rg.P(1, 6) {
					names = append(names, rawNames...)
				}
				o := jsval.Object().AdditionalProperties(jsval.EmptyConstraint)
				if rg.Bool() {
					o.PatternPropertiesString("^x-", jsval.EmptyConstraint)
				}
				deps := map[string]bool{} // trigger -> accepts
				for _, n := range names {
					if rg.Bool() {
						o.AddProp(n, jsval.EmptyConstraint)
					}
					if rg.P(1, 2) {
						ok := rg.P(2, 3)
						deps[n] = ok
						o.SchemaDependency(n, &probe{id: n, log: &log, pass: func(interface{}) bool { return ok }})
					}
				}
				for k := 0; k < 6; k++ {
					log = nil
					m := map[string]interface{}{}
					for _, n := range names {
						if rg.Bool() {
							m[n] = float64(k)
						}
					}
					want := true
					for n, ok := range deps {
						if _, has := m[n]; has && !ok {
							want = false
						}
					}
					what := func() string { return fmt.Sprintf("dependencies %v value %v deliveries %v", deps, m, log) }
					if !expect(c, o, m, verdictOf(want), what) {
						return
					}
					got := map[string]bool{}
					for _, d := range log {
						if _, has := m[d.ID]; !has {
							c.Violate("untriggered dependency", "dependency of absent %q was applied\n%s", d.ID, what())
							return
						}
						if mm, ok := d.Val.(map[string]interface{}); !ok || !reflect.DeepEqual(mm, m) {
							c.Violate("wrong delivery", "dependency of %q was given %v instead of the object\n%s", d.ID, d.Val, what())
							return
						}
						got[d.ID] = true
					}
					if want {
						for n := range deps {
							if _, has := m[n]; has && !got[n] {
								c.Violate("missed dependency", "accepted, but the dependency of %q was not applied\n%s", n, what())
								return
							}
						}
					}
					c.Eval(key("p", deps, m))
					c.Count("deliveries", len(log))
				}
			})
		}})

	register(&core.Prop{ID: "C07", Quick: 4, Level: "exploration",
		Rule: "all verdict patterns of up to 7 fixed-verdict children for All/Any/OneOf with and without Reduce; random nested combinator trees over real constraints compared with a boolean evaluation, also under permutation of children; Null on typed/untyped nils; enumerations of JSON values with look-alikes; non-trivial = judged pair",
		Run: func(r *core.Run) {
			sizeStage(r, "any", "all", "oneof", "enum", "nested_comb", "same", "same")
			r.Cases("bits", 3*3*255, func(c *core.Case) {
				comb, red, code := c.Idx%3, c.Idx/3%3, c.Idx/9
				n := 0
				for (1<<(n+1))-1 <= code {
					n++
				}
				bits := code - (1<<n - 1)
				var log []delivery
				count := 0
				var kids []jsval.Constraint
				for i := 0; i < n; i++ {
					ok := bits&(1<<i) != 0
					if ok {
						count++
					}
					kids = append(kids, &probe{id: fmt.Sprint(i), log: &log, pass: func(interface{}) bool { return ok }})
				}
				var v jsval.Constraint
				var want bool
				switch comb {
				case 0:
					k := jsval.All()
					for _, x := range kids {
						k.Add(x)
					}
					v = k
					if red > 0 {
						v = k.Reduce()
					}
					want = count == n
				case 1:
					k := jsval.Any()
					for _, x := range kids {
						k.Add(x)
					}
					v = k
					if red > 0 {
						v = k.Reduce()
					}
					want = count > 0
				case 2:
					k := jsval.OneOf()
					for _, x := range kids {
						k.Add(x)
					}
					v = k
					if red > 0 {
						v = k.Reduce()
					}
					want = count == 1
				}
				if red == 2 {
					v = jsval.Not(v)
					want = !want
				}
				for rep := 0; rep < 2; rep++ {
					if !expect(c, v, c.Idx, verdictOf(want), func() string {
						return fmt.Sprintf("combinator %d reduce/not %d children %0*b", comb, red, n, bits)
					}) {
						return
					}
				}
				for _, d := range log {
					if d.Val != interface{}(c.Idx) {
						c.Violate("wrong delivery", "a child was given %v instead of the value", d.Val)
						return
					}
				}
				c.Eval(key("bits", comb, red, n, bits))
			})
			r.Cases("trees", r.N(60000, 1500000), func(c *core.Case) {
				rg := c.Rng
				k := core.Pick(rg, []model.Kind{model.All, model.Any, model.OneOf, model.Not, model.Any})
				s := model.GenKind(rg, k, model.GenOpts{Depth: rg.Range(1, 4)})
				v := newRoot(rg, (&model.Builder{Rng: rg}).Build(s))
				p := permuted(rg, s)
				vp := newRoot(rg, (&model.Builder{Rng: rg}).Build(p))
				for i := 0; i < 5; i++ {
					x := model.GenValue(rg, s, nil, 2)
					want := model.Eval(s, x, nil)
					if !expect(c, v, x, want, show(s, nil, x)) || !expect(c, vp, x, want, show(p, nil, x)) {
						return
					}
					c.Eval(key(s, model.JSON(x)))
				}
				c.Sample(s.String())
			})
			r.Cases("overlap", r.N(20000, 400000), func(c *core.Case) {
				// numeric ranges make every count of accepting children likely
				rg := c.Rng
				s := &model.Spec{Kind: core.Pick(rg, []model.Kind{model.All, model.Any, model.OneOf}), Reduce: rg.P(1, 3)}
				for k := rg.Range(1, 6); k > 0; k-- {
					lo := float64(rg.Intn(10))
					ch := &model.Spec{Kind: core.Pick(rg, []model.Kind{model.Number, model.Integer}), Min: model.FP(lo), Max: model.FP(lo + float64(rg.Intn(8)))}
					if rg.P(1, 5) {
						ch = &model.Spec{Kind: model.Not, Children: []*model.Spec{ch}}
					}
					s.Children = append(s.Children, ch)
				}
				v := newRoot(rg, (&model.Builder{Rng: rg}).Build(s))
				for x := -1.0; x < 19; x++ {
					if !expect(c, v, x, model.Eval(s, x, nil), show(s, nil, x)) {
						return
					}
					c.Eval(key(s, x))
				}
			})
			r.Cases("basics", r.N(5000, 100000), func(c *core.Case) {
				rg := c.Rng
				var np *int
				var ns *struct{}
				var nm map[string]int
				var nl []int
				var nf func()
				var nc chan int
				var e error
				nils := []interface{}{nil, np, ns, nm, nl, nf, nc, e}
				non := []interface{}{false, 0, 0.0, "", "null", "nil", []interface{}{}, []interface{}{nil}, map[string]interface{}{}, struct{}{}, &struct{}{}, new(int), [0]int{}, make(chan int), func() {}, new(interface{}), complex(0, 0), uint8(0)}
				n := core.Pick(rg, nils)
				x := core.Pick(rg, non)
				vs := func(y interface{}) func() string { return func() string { return fmt.Sprintf("(%T) %v", y, y) } }
				if !expect(c, jsval.NullConstraint, n, model.Accept, vs(n)) || !expect(c, jsval.NullConstraint, x, model.Reject, vs(x)) ||
					!expect(c, jsval.EmptyConstraint, n, model.Accept, vs(n)) || !expect(c, jsval.EmptyConstraint, x, model.Accept, vs(x)) {
					return
				}
				if !expect(c, jsval.Not(jsval.NullConstraint), n, model.Reject, vs(n)) || !expect(c, jsval.Not(jsval.EmptyConstraint), x, model.Reject, vs(x)) || !expect(c, jsval.Not(jsval.Not(jsval.NullConstraint)), n, model.Accept, vs(n)) {
					return
				}
				b := core.Pick(rg, []interface{}{true, false, myBool(true), myBool(false)})
				if !expect(c, newRoot(rg, jsval.Boolean()), b, model.Accept, vs(b)) {
					return
				}
				y := core.Pick(rg, []interface{}{nil, 0, 1, "true", "false", 1.0, []bool{true}, []interface{}{true}, map[string]interface{}{}, struct{ B bool }{}, uint8(1), math.NaN()})
				if !expect(c, newRoot(rg, jsval.Boolean()), y, model.Reject, vs(y)) {
					return
				}
				c.Eval(key("b", fmt.Sprintf("%T %T %T %T %v", n, x, b, y, y)))
			})
			r.Cases("enum", r.N(15000, 300000), func(c *core.Case) {
				rg := c.Rng
				s := model.GenKind(rg, model.Enum, model.GenOpts{Depth: 1})
				if rg.P(1, 30) {
					s.Enum = []interface{}{}
				}
				v := newRoot(rg, (&model.Builder{Rng: rg}).Build(s))
				for i := 0; i < 8; i++ {
					x := model.GenValue(rg, s, nil, 1)
					if rg.P(1, 4) && len(s.Enum) > 0 {
						x = model.Lookalike(rg, core.Pick(rg, s.Enum))
					}
					if !expect(c, v, x, model.Eval(s, x, nil), show(s, nil, x)) {
						return
					}
					c.Eval(key(s, model.JSON(x)))
				}
				// non-JSON members are compared by value
				m := []interface{}{1, int64(1), "1", 1.0, uint8(1), myString("1"), true, nil, struct{ A int }{1}}
				k := rg.Intn(len(m))
				for j, x := range m {
					if !expect(c, jsval.Enum(m[k]), x, verdictOf(j == k), func() string { return fmt.Sprintf("member (%T) %v value (%T) %v", m[k], m[k], x, x) }) {
						return
					}
				}
			})
		}})
}

func matchPat(p, n string) bool {
	switch p {
	case "^a":
		return strings.HasPrefix(n, "a")
	case "b$":
		return strings.HasSuffix(n, "b")
	case "o":
		return strings.Contains(n, "o")
	case "^x-":
		return strings.HasPrefix(n, "x-")
	case "^$":
		return n == ""
	case "名":
		return strings.Contains(n, "名")
	}
	panic(p)
}

// permuted copies s with the children of combinators in another order.
func permuted(r *core.Rng, s *model.Spec) *model.Spec {
	n := *s
	if len(s.Children) > 0 {
		n.Children = make([]*model.Spec, len(s.Children))
		for i, j := range r.Perm(len(s.Children)) {
			n.Children[i] = permuted(r, s.Children[j])
		}
	}
	return &n
}
