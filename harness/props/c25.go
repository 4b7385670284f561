package props

import (
	"fmt"
	"os"
	"reflect"
	"strings"
	"sync"

	"github.com/lestrrat-go/jsschema"
	"github.com/lestrrat-go/jsval"
	"verif/core"
	"verif/model"
)

// A constraint, a value it accepts, and values with one fault each.
type blameNode struct {
	c      jsval.Constraint
	good   func() interface{}
	faults []blame
}

type blame struct {
	val   func() interface{}
	path  []string // names that the message must contain, in this order
	inner string   // text that it must contain as well
	kind  string
}

// a user-defined constraint
type grumpy struct {
	text string
	ok   interface{}
}

func (g *grumpy) HasDefault() bool          { return false }
func (g *grumpy) DefaultValue() interface{} { return nil }
func (g *grumpy) Validate(v interface{}) error {
	if reflect.DeepEqual(v, g.ok) {
		return nil
	}
	return fmt.Errorf("%s", g.text)
}

type blameGen struct {
	r    *core.Rng
	refs *jsval.ConstraintMap
	n    int
}

// plain makes a name that is part of no other one, nor of any message.
func (g *blameGen) plain() string {
	g.n++
	s := ""
	for i := g.r.Range(1, 5); i > 0; i-- {
		s += core.Pick(g.r, []string{"q", "Z", "_", "x9", "é", "日", "W"})
	}
	return fmt.Sprintf("q%dz%sZ", g.n, s)
}

// name may be long or have characters that mean something to somebody.
func (g *blameGen) name() string {
	s := g.plain()
	if g.r.P(1, 3) {
		for i := g.r.Range(1, 4); i > 0; i-- {
			s += core.Pick(g.r, []string{`"`, `\\`, "'", "%s", "%d", "%", "\n", "\t", "`", "<b>", "&", " ", "  ", ": ", "\x00", "\x7f", "\u2028", "#", "/", "~1", "$", "{", "[0]", "\u00a0", "\u200b"})
		}
		s += "Z"
	}
	if g.r.P(1, 40) {
		s += strings.Repeat(core.Pick(g.r, []string{"long", "日", "x"}), g.r.Range(5, 100)) + "Z"
	}
	if g.r.P(1, 6) { // at its ends
		ends := []string{"", "  ", "\n", "\t\t", "''", "::", "\"", ".", "\u00a0"}
		s = core.Pick(g.r, ends) + s + core.Pick(g.r, ends)
	}
	return s
}

func constant(v interface{}) func() interface{} { return func() interface{} { return v } }

func (g *blameGen) leaf() *blameNode {
	r := g.r
	type l struct {
		c    func() jsval.Constraint
		good interface{}
		bad  []interface{}
	}
	k := func(c jsval.Constraint) func() jsval.Constraint { return func() jsval.Constraint { return c } }
	word := func(min int) interface{} { return "w" + strings.Repeat("o", min) + fmt.Sprint(r.Intn(1000)) + "rd" }
	x := core.Pick(r, []l{
		{func() jsval.Constraint { return jsval.String().MaxLength(2) }, "ab", []interface{}{"abc", word(2), 1.0}},
		{func() jsval.Constraint { return jsval.String().MinLength(1) }, "日", []interface{}{"", nil, true}},
		{func() jsval.Constraint { return jsval.String().RegexpString("^a+$") }, "aa", []interface{}{word(0), word(1), word(2), "", 2.0}},
		{func() jsval.Constraint { return jsval.String().Format("ipv4") }, "1.2.3.4", []interface{}{"1.2.3", "x", false}},
		{func() jsval.Constraint { return jsval.String().Format("email") }, "a@example.com", []interface{}{"example.com", word(1), "a@", "@b", "a b@c"}},
		{func() jsval.Constraint { return jsval.String().Format("date-time") }, "2020-02-29T00:00:00Z", []interface{}{"2020", word(1)}},
		{func() jsval.Constraint { return jsval.String().Format("uri") }, "http://x/", []interface{}{"http://x/%zz", ":"}},
		{func() jsval.Constraint { return jsval.String().Enum("a", "b") }, "a", []interface{}{"c", word(1), 1.0}},
		{func() jsval.Constraint { return jsval.String() }, "x", []interface{}{1.5, nil, true, []interface{}{}, map[string]interface{}{}}},
		{func() jsval.Constraint { return jsval.Number().Minimum(3) }, 3.0, []interface{}{2.5, -1e300, "3", 3}},
		{func() jsval.Constraint { return jsval.Number().Maximum(3).ExclusiveMaximum(true) }, 2.0, []interface{}{3.0, 4.0, nil}},
		{func() jsval.Constraint { return jsval.Number().MultipleOf(2) }, 4.0, []interface{}{5.0, "4"}},
		{func() jsval.Constraint { return jsval.Integer() }, 4, []interface{}{4.5, "4", nil}},
		{func() jsval.Constraint { return jsval.Integer().Enum(1, 2) }, 2, []interface{}{"2", 3}},
		{func() jsval.Constraint { return jsval.Boolean() }, false, []interface{}{nil, "true", 0.0}},
		{k(jsval.NullConstraint), nil, []interface{}{1.0, "null", false}},
		{func() jsval.Constraint { return jsval.Enum("a", nil, 3.0) }, nil, []interface{}{"b", 4.0}},
		{func() jsval.Constraint { return jsval.Not(jsval.String()) }, 1.0, []interface{}{"x"}},
		{func() jsval.Constraint { return jsval.Any().Add(jsval.String()).Add(jsval.Boolean()) }, true, []interface{}{2.0}},
		{func() jsval.Constraint { return jsval.OneOf().Add(jsval.String()).Add(jsval.String().MaxLength(3)) }, "long enough", []interface{}{"abc", 1.0}},
		{func() jsval.Constraint { return jsval.Array().MinItems(1).MaxItems(2) }, []interface{}{1.0}, []interface{}{[]interface{}{}, []interface{}{1.0, 1.0, 1.0}, "x", nil}},
		{func() jsval.Constraint { return jsval.Array().UniqueItems(true) }, []interface{}{1.0, 2.0}, []interface{}{[]interface{}{1.0, 1.0}}},
		{func() jsval.Constraint {
			return jsval.Array().PositionalItems([]jsval.Constraint{jsval.String()}).AdditionalItems(nil)
		}, []interface{}{"x"}, []interface{}{[]interface{}{1.0}, []interface{}{"x", 1.0}}},
		{func() jsval.Constraint {
			return jsval.Object().MinProperties(1).MaxProperties(2).AdditionalProperties(jsval.EmptyConstraint)
		}, map[string]interface{}{"a": 1.0}, []interface{}{map[string]interface{}{}, map[string]interface{}{"a": 1.0, "b": 1.0, "c": 1.0}}},
		{func() jsval.Constraint { return jsval.Object() }, map[string]interface{}{}, []interface{}{"no object", nil, map[string]interface{}{"a": 1.0}}},
	})
	if r.P(1, 4) {
		t := "grumble " + g.name()
		x = l{func() jsval.Constraint { return &grumpy{t, "please"} }, "please", []interface{}{"now", 1.0, nil, true}}
	}
	n := &blameNode{c: x.c(), good: constant(x.good)}
	for _, i := range r.Perm(len(x.bad)) {
		if len(n.faults) < r.Range(1, 3) {
			// what another one says on its own
			if err := x.c().Validate(x.bad[i]); err != nil {
				n.faults = append(n.faults, blame{val: constant(x.bad[i]), inner: err.Error(), kind: "value"})
			}
		}
	}
	return n
}

// classes writes a pattern for a name without containing it.
func classes(name string) string {
	s := ""
	for _, c := range name {
		if c < 128 && c != '_' && !('0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z') {
			s += fmt.Sprintf(`[\x{%x}]`, c)
			continue
		}
		s += "[" + string(c) + "]"
	}
	return s
}

func (g *blameGen) node(depth int) *blameNode {
	r := g.r
	var n *blameNode
	switch {
	case depth <= 0 || r.P(1, 5):
		n = g.leaf()
	case r.P(1, 4):
		n = g.array(depth)
	default:
		n = g.object(depth)
	}
	switch {
	case r.P(1, 8):
		n.c = jsval.All().Add(jsval.EmptyConstraint).Add(n.c)
	case r.P(1, 8):
		name := "#/definitions/" + g.name()
		g.refs.SetReference(name, n.c)
		n.c = jsval.Reference(g.refs).RefersTo(name)
	}
	return n
}

func (g *blameGen) array(depth int) *blameNode {
	r := g.r
	ch := g.node(depth - 1)
	a := jsval.Array()
	min, max := 1, 5
	at := -1
	switch r.Intn(3) {
	case 0:
		a.Items(ch.c)
	case 1:
		at = r.Intn(3)
		min = at + 1
		var l []jsval.Constraint
		for i := 0; i < at; i++ {
			l = append(l, jsval.EmptyConstraint)
		}
		a.PositionalItems(append(l, ch.c))
	case 2:
		a.PositionalItems([]jsval.Constraint{ch.c}).AdditionalItems(ch.c)
	}
	make1 := func(f func() interface{}) func() interface{} {
		l := r.Range(min, max)
		i := r.Intn(l)
		if at >= 0 {
			i = at
		}
		return func() interface{} {
			out := make([]interface{}, l)
			for j := range out {
				out[j] = ch.good()
			}
			out[i] = f()
			return out
		}
	}
	n := &blameNode{c: a, good: make1(ch.good)}
	for _, f := range ch.faults {
		f.val = make1(f.val)
		n.faults = append(n.faults, f)
	}
	return n
}

func (g *blameGen) object(depth int) *blameNode {
	r := g.r
	o := jsval.Object()
	type member struct {
		name string
		*blameNode
	}
	var ms []member
	var decl []func()
	additional := false
	for i := r.Range(1, 4); i > 0; i-- {
		m := member{g.name(), g.node(depth - 1)}
		ms = append(ms, m)
		switch k := r.Intn(4); {
		case k == 0 && !additional:
			additional = true
			decl = append(decl, func() { o.AdditionalProperties(m.c) })
			for r.P(1, 2) { // more of them
				ms = append(ms, member{g.name(), m.blameNode})
			}
		case k == 1:
			pat := classes(m.name)
			if r.Bool() {
				pat = "^" + pat + "$"
			}
			decl = append(decl, func() { o.PatternPropertiesString(pat, m.c) })
		case k == 2: // reached through a dependency
			c := jsval.Object().AdditionalProperties(jsval.EmptyConstraint).AddProp(m.name, m.c)
			decl = append(decl, func() { o.AddProp(m.name, jsval.EmptyConstraint).SchemaDependency(m.name, c) })
		default:
			decl = append(decl, func() { o.AddProp(m.name, m.c) })
		}
	}
	if !additional && r.Bool() {
		o.AdditionalProperties(jsval.EmptyConstraint)
	}
	// how the object looks is decided once per value
	shape := func() func(vals map[string]func() interface{}, gone string) interface{} {
		kind := r.Intn(6)
		return func(vals map[string]func() interface{}, gone string) interface{} {
			m := map[string]interface{}{}
			for k, f := range vals {
				m[k] = f()
			}
			switch kind {
			case 0, 1:
				var fs []reflect.StructField
				names := model.SortedKeys(m)
				for i, k := range names {
					fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf((*interface{})(nil)).Elem(), Tag: reflect.StructTag(fmt.Sprintf("json:%q", k))})
				}
				if gone != "" {
					fs = append(fs, reflect.StructField{Name: "Gone", Type: reflect.TypeOf(jsval.MaybeString{}), Tag: reflect.StructTag(fmt.Sprintf("json:%q", gone))})
				}
				p := reflect.New(reflect.StructOf(fs))
				for i, k := range names {
					if m[k] != nil {
						p.Elem().Field(i).Set(reflect.ValueOf(m[k]))
					}
				}
				if kind == 0 {
					return p.Elem().Interface()
				}
				return p.Interface()
			case 2:
				return &m
			}
			return m
		}
	}
	with := func(name string, f func() interface{}, gone string) func() interface{} {
		s := shape()
		vals := map[string]func() interface{}{}
		for _, m := range ms {
			vals[m.name] = m.good
		}
		if f != nil {
			vals[name] = f
		}
		if gone != "" {
			delete(vals, gone)
		}
		return func() interface{} { return s(vals, gone) }
	}
	n := &blameNode{}
	for _, m := range ms {
		for _, f := range m.faults {
			n.faults = append(n.faults, blame{with(m.name, f.val, ""), append([]string{m.name}, f.path...), f.inner, f.kind})
		}
	}
	for _, m := range ms {
		switch r.Intn(6) {
		case 0:
			nm := m.name
			decl = append(decl, func() { o.Required(nm) })
			n.faults = append(n.faults, blame{with("", nil, nm), []string{nm}, "", "required"})
		case 1: // a property that needs a missing one
			from, to := g.name(), g.name()
			decl = append(decl, func() {
				o.AddProp(from, jsval.EmptyConstraint).AddProp(to, jsval.EmptyConstraint).PropDependency(from, to)
			})
			n.faults = append(n.faults, blame{with(from, constant(1.0), ""), []string{to}, "", "dependency"})
		case 2: // one whose reference leads nowhere
			nm, ref := g.name(), g.name()
			decl = append(decl, func() { o.AddProp(nm, jsval.Reference(g.refs).RefersTo(ref)) })
			n.faults = append(n.faults, blame{with(nm, constant("x"), ""), []string{nm, ref}, "", "reference"})
		}
	}
	for _, i := range r.Perm(len(decl)) {
		decl[i]()
	}
	for len(n.faults) > 14 {
		i := r.Intn(len(n.faults))
		n.faults = append(n.faults[:i], n.faults[i+1:]...)
	}
	n.c, n.good = o, with("", nil, "")
	return n
}

// blamed says what is missing in a message, if anything.
func blamed(msg string, path []string, inner string) string {
	rest := msg
	for _, p := range path {
		i := strings.Index(rest, p)
		if i < 0 {
			if strings.Contains(msg, p) {
				return fmt.Sprintf("does not name %q after what it is part of", p)
			}
			return fmt.Sprintf("does not name %q", p)
		}
		rest = rest[i+len(p):]
	}
	if !strings.Contains(rest, inner) {
		return fmt.Sprintf("does not say %q", inner)
	}
	return ""
}

func init() {
	register(&core.Prop{
		ID:    "C25",
		Level: "exploration",
		Rule:  "nested objects and arrays (maps, typed and run-time struct types; properties declared, by pattern, additional, through dependencies, references, All) with an accepted value and values with exactly one fault each; one validator judges its faulty values in random order with good ones in between; the message must hold the validator's name, the property names on the path in order, and what the rejecting constraint says on its own; non-trivial = a judged message",
		Assumptions: []string{
			"Any, OneOf and Not may hide what happens inside of them",
			"an unexpected property is not necessarily named",
		},
		Run: func(r *core.Run) {
			r.Cases("paths", r.N(30000, 300000), func(c *core.Case) {
				g := &blameGen{r: c.Rng, refs: &jsval.ConstraintMap{}}
				n := g.object(c.Rng.Range(0, 4))
				judgeBlame(c, g, n)
			})
			r.Cases("deep", r.N(1500, 15000), func(c *core.Case) {
				// one fault at the bottom of many levels, or under long names
				g := &blameGen{r: c.Rng, refs: &jsval.ConstraintMap{}}
				n := g.leaf()
				for len(n.faults) == 0 {
					n = g.leaf()
				}
				f := n.faults[0]
				x, con := f.val(), n.c
				var path []string
				depth := core.Pick(c.Rng, []int{5, 10, 17, 33, 65, 100, 129, 200})
				for i := 0; i < depth; i++ {
					nm := g.name()
					if c.Rng.P(1, 20) {
						nm += strings.Repeat("long", c.Rng.Range(1, 300)) + "Z"
					}
					m := map[string]interface{}{nm: x}
					o := jsval.Object().AdditionalProperties(jsval.EmptyConstraint)
					for k := c.Rng.Intn(3); k > 0; k-- {
						other := g.name()
						m[other] = "fine"
						o.AddProp(other, jsval.String())
					}
					switch c.Rng.Intn(4) {
					case 0:
						o.PatternPropertiesString("^"+classes(nm)+"$", con)
					case 1:
						ref := "#/" + g.name()
						g.refs.SetReference(ref, con)
						o.AddProp(nm, jsval.Reference(g.refs).RefersTo(ref))
					default:
						o.AddProp(nm, con)
					}
					x, con = m, o
					if c.Rng.P(1, 6) {
						x, con = []interface{}{x}, jsval.Array().Items(con)
					}
					path = append([]string{nm}, path...)
				}
				v, name := jsval.New().SetRoot(con), ""
				if c.Rng.Bool() {
					name = g.name()
					v.SetName(name)
				}
				reportBlame(c, v.Validate, blame{constant(x), path, f.inner, "deep"}, name, "")
			})
			r.Cases("rows", len(sizeSweep)*r.N(4, 20), blameRows)
			r.Cases("schemas", r.N(15000, 150000), func(c *core.Case) {
				g := &blameGen{r: c.Rng}
				doc, faults := g.schema(c.Rng.Range(1, 4))
				text := model.Encode(c.Rng, doc)
				s, err := schema.Read(strings.NewReader(text))
				if err != nil {
					return
				}
				v, err, ok := build(c, s, decodeM(text), true, text)
				if !ok {
					return
				}
				if err != nil {
					c.Count("schemas_refused", 1)
					return
				}
				name := g.name()
				if c.Rng.Bool() {
					v.SetName(name)
				} else {
					name = ""
				}
				for _, i := range c.Rng.Perm(len(faults)) {
					reportBlame(c, v.Validate, faults[i], name, text)
				}
			})
			if os.Getenv("PDEBUG_TRACE") == "1" {
				return // the tracer itself is not made for it
			}
			r.CasesN("concurrent", r.N(600, 6000), 2, func(c *core.Case) {
				g := &blameGen{r: c.Rng, refs: &jsval.ConstraintMap{}}
				n := g.object(c.Rng.Range(1, 3))
				name := g.name()
				v := jsval.New().SetRoot(n.c).SetName(name)
				type out struct {
					f   blame
					err error
				}
				var outs [8][]out
				vals := [8][]interface{}{}
				for i := range outs {
					for j := 0; j < 12 && len(n.faults) > 0; j++ {
						f := core.Pick(c.Rng, n.faults)
						outs[i] = append(outs[i], out{f: f})
						vals[i] = append(vals[i], f.val())
					}
				}
				var wg sync.WaitGroup
				start := make(chan bool)
				for i := range outs {
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-start
						for j := range outs[i] {
							core.Try(func() { outs[i][j].err = v.Validate(vals[i][j]) })
						}
					}()
				}
				close(start)
				wg.Wait()
				for i := range outs {
					for j := range outs[i] {
						o := outs[i][j]
						if !reportBlame(c, func(interface{}) error { return o.err }, o.f, name, "(many goroutines)") {
							return
						}
					}
				}
			})
		},
	})
}

func judgeBlame(c *core.Case, g *blameGen, n *blameNode) {
	r := c.Rng
	validate, name := n.c.Validate, ""
	if r.P(3, 4) {
		v := jsval.New().SetRoot(n.c)
		if r.P(2, 3) {
			name = g.name()
			v.SetName(name)
		}
		validate = v.Validate
	}
	good := func() bool {
		var err error
		x := n.good()
		if !c.Call("validating", func() { err = validate(x) }) {
			return false
		}
		if err != nil {
			c.Violate("good value rejected", "%s\nvalue: %s", err, dumpAny(x))
			return false
		}
		return true
	}
	if !good() {
		return
	}
	for _, i := range r.Perm(len(n.faults)) {
		if !reportBlame(c, validate, n.faults[i], name, "") {
			return
		}
		if r.P(1, 3) && !good() {
			return
		}
	}
}

func reportBlame(c *core.Case, validate func(interface{}) error, f blame, name, text string) bool {
	x := f.val()
	var err error
	msg := ""
	if !c.Call("validating", func() {
		if err = validate(x); err != nil {
			msg = err.Error()
		}
	}) {
		return false
	}
	if err == nil {
		c.Violate("fault accepted", "fault of kind %s at %q was accepted\nvalue: %s\n%s", f.kind, f.path, dumpAny(x), text)
		return false
	}
	path := f.path
	if name != "" {
		path = append([]string{name}, path...)
	}
	if what := blamed(msg, path, f.inner); what != "" {
		c.Violate("wrong blame", "the message %s\nmessage: %s\nfault of kind %s at %q (validator %q)\nvalue: %s\n%s", what, msg, f.kind, f.path, name, dumpAny(x), text)
		return false
	}
	c.Count("faults_"+f.kind, 1)
	c.Count(fmt.Sprintf("path_length_%d", len(f.path)), 1)
	c.Eval(key(msg))
	return true
}

// schema makes an object schema and faulty instances.
func (g *blameGen) schema(depth int) (model.M, []blame) {
	defs := model.M{}
	var gen func(d int) (model.M, interface{}, []blame)
	leafs := []struct {
		m         model.M
		good, bad interface{}
	}{
		{model.M{"type": "string", "maxLength": 2}, "ab", "abc"},
		{model.M{"type": "string", "pattern": "^a+$"}, "aa", "b"},
		{model.M{"type": "string", "enum": []interface{}{"a", "b"}}, "a", "c"},
		{model.M{"type": "integer", "minimum": 3}, 3.0, 2.0},
		{model.M{"type": "number", "multipleOf": 1.5}, 3.0, 2.0},
		{model.M{"type": "boolean"}, true, "true"},
		{model.M{"type": "null"}, nil, 0.0},
		{model.M{"type": "array", "minItems": 1}, []interface{}{1.0}, []interface{}{}},
		{model.M{"minLength": 3}, "abc", "a"},
	}
	gen = func(d int) (model.M, interface{}, []blame) {
		r := g.r
		var m model.M
		var good interface{}
		var fs []blame
		switch {
		case d <= 0:
			l := core.Pick(r, leafs)
			m, good, fs = l.m, l.good, []blame{{val: constant(l.bad), kind: "value"}}
		case r.P(1, 4):
			cm, cg, cf := gen(d - 1)
			m, good = model.M{"type": "array", "items": cm}, []interface{}{cg}
			for _, f := range cf {
				v := f.val
				f.val = func() interface{} { return []interface{}{cg, v()} }
				fs = append(fs, f)
			}
		default:
			props, pats := model.M{}, model.M{}
			gm := model.M{}
			m = model.M{"type": "object", "additionalProperties": r.Bool()}
			type mem struct {
				n string
				f []blame
			}
			var ms []mem
			for i := r.Range(1, 3); i > 0; i-- {
				n := g.name()
				cm, cg, cf := gen(d - 1)
				if r.P(1, 4) {
					pats["^"+classes(n)+"$"] = cm
				} else {
					props[n] = cm
				}
				gm[n] = cg
				ms = append(ms, mem{n, cf})
			}
			with := func(n string, v func() interface{}) func() interface{} {
				return func() interface{} {
					out := map[string]interface{}{}
					for k, x := range gm {
						out[k] = x
					}
					if v == nil {
						delete(out, n)
					} else {
						out[n] = v()
					}
					return out
				}
			}
			for _, x := range ms {
				for _, f := range x.f {
					fs = append(fs, blame{with(x.n, f.val), append([]string{x.n}, f.path...), f.inner, f.kind})
				}
			}
			if len(props) > 0 {
				m["properties"] = props
			}
			if len(pats) > 0 {
				m["patternProperties"] = pats
			}
			if r.P(1, 3) {
				m["required"] = []interface{}{ms[0].n}
				fs = append(fs, blame{with(ms[0].n, nil), []string{ms[0].n}, "", "required"})
			}
			good = map[string]interface{}(gm)
		}
		if d < depth && r.P(1, 5) {
			n := g.plain()
			defs[n] = m
			m = model.M{"$ref": "#/definitions/" + n}
		}
		for len(fs) > 10 {
			fs = fs[1:]
		}
		return m, good, fs
	}
	m, _, fs := gen(depth)
	if len(defs) > 0 {
		m["definitions"] = defs
	}
	return m, fs
}

// blameRows: one fault among many elements, or many properties, that are fine.
func blameRows(c *core.Case) {
	rg := c.Rng
	size := sizeSweep[c.Idx%len(sizeSweep)] + 1
	g := &blameGen{r: rg, refs: &jsval.ConstraintMap{}}
	n := g.object(rg.Range(0, 1))
	for len(n.faults) == 0 {
		n = g.object(rg.Range(0, 1))
	}
	f := core.Pick(rg, n.faults)
	at := core.Pick(rg, []int{0, size - 1, rg.Intn(size)})
	path := append([]string{}, f.path...)
	var con jsval.Constraint
	var x func() interface{}
	if rg.Bool() {
		a := jsval.Array()
		switch rg.Intn(3) {
		case 0:
			a.Items(n.c)
		case 1:
			k := rg.Intn(size) + 1
			l := make([]jsval.Constraint, k)
			for i := range l {
				l[i] = n.c
			}
			a.PositionalItems(l).AdditionalItems(n.c)
		case 2:
			a.PositionalItems([]jsval.Constraint{n.c}).AdditionalItems(n.c)
		}
		con = a
		x = func() interface{} {
			l := make([]interface{}, size)
			for i := range l {
				l[i] = n.good()
			}
			l[at] = f.val()
			return l
		}
	} else {
		o := jsval.Object()
		names := make([]string, size)
		how := rg.Intn(3)
		for i := range names {
			names[i] = g.name()
			if how == 0 {
				o.AddProp(names[i], n.c)
			}
		}
		switch how {
		case 1:
			o.PatternPropertiesString("(?s).*", n.c)
		case 2:
			o.AdditionalProperties(n.c)
		}
		con = o
		x = func() interface{} {
			m := map[string]interface{}{}
			for _, nm := range names {
				m[nm] = n.good()
			}
			m[names[at]] = f.val()
			return m
		}
		path = append([]string{names[at]}, path...)
	}
	v, name := jsval.New().SetRoot(con), ""
	if rg.Bool() {
		name = g.name()
		v.SetName(name)
	}
	reportBlame(c, v.Validate, blame{x, path, f.inner, "rows"}, name, "")
}
