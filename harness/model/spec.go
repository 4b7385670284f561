// Package model is an independent executable description of what jsval's
// constraints mean. A Spec is a constraint tree as data: Build turns it into
// real constraints through the public API, Eval says which JSON values it
// accepts, Fill says what defaults a successful validation leaves behind.
package model

import (
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strings"
	"sync"

	"github.com/lestrrat-go/jsval"

	"verif/core"
)

type Kind int

const (
	Empty Kind = iota
	Null
	Bool
	String
	Number
	Integer
	Array
	Object
	Enum
	All
	Any
	OneOf
	Not
	Ref
	Custom
)

var kindNames = []string{"Empty", "Null", "Bool", "String", "Number", "Integer", "Array", "Object", "Enum", "All", "Any", "OneOf", "Not", "Ref", "Custom"}

func (k Kind) String() string { return kindNames[k] }

type Prop struct {
	Name string
	Spec *Spec
}

type PropDep struct {
	From string
	To   []string
}

// AddMode says how additional items are configured.
type AddMode int

const (
	AddUnset AddMode = iota // never configured
	AddNil                  // explicitly none
	AddSpec                 // constraint in AddItems
)

type Spec struct {
	Kind   Kind
	HasDef bool
	Def    interface{}
	Enum   []interface{} // member list; for scalars nil means no enumeration

	MinLen, MaxLen *int
	Pattern        string
	Format         string

	Min, Max, MultipleOf *float64
	ExMin, ExMax         bool

	MinItems, MaxItems *int
	Unique             bool
	Items              *Spec
	Positional         []*Spec
	AddItems           *Spec
	AddItemsMode       AddMode

	MinProps, MaxProps *int
	Required           []string
	Props              []Prop
	Patterns           []Prop // Name is the regular expression
	AddProps           *Spec  // nil: additional properties are not allowed
	PropDeps           []PropDep
	SchemaDeps         []Prop

	Children []*Spec
	RefName  string
	Reduce   bool // combinators: use Reduce()

	// Custom constraint: Make builds it, Judge is its meaning.
	Make  func() jsval.Constraint
	Judge func(v interface{}) bool
}

// Env holds the referenced specs.
type Env map[string]*Spec

var rxCache sync.Map

func rx(p string) *regexp.Regexp {
	if v, ok := rxCache.Load(p); ok {
		return v.(*regexp.Regexp)
	}
	r := regexp.MustCompile(p)
	rxCache.Store(p, r)
	return r
}

// Equal is JSON equality.
func Equal(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !Equal(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !Equal(v, w) {
				return false
			}
		}
		return true
	}
	panic(fmt.Sprintf("model: not a JSON value: %T", a))
}

// Verdict of the model. Unknown is used where the statement leaves the
// outcome open (exotic format strings).
type Verdict int

const (
	Reject Verdict = iota
	Accept
	Unknown
)

func (v Verdict) String() string { return []string{"reject", "accept", "unknown"}[v] }

func b2v(b bool) Verdict {
	if b {
		return Accept
	}
	return Reject
}

func and(a, b Verdict) Verdict {
	if a == Reject || b == Reject {
		return Reject
	}
	if a == Unknown || b == Unknown {
		return Unknown
	}
	return Accept
}

// Eval says whether the JSON value v satisfies s.
func Eval(s *Spec, v interface{}, env Env) Verdict {
	switch s.Kind {
	case Empty:
		return Accept
	case Null:
		return b2v(v == nil)
	case Bool:
		b, ok := v.(bool)
		if !ok {
			return Reject
		}
		return b2v(s.Enum == nil || memberOf(s.Enum, b))
	case String:
		str, ok := v.(string)
		if !ok {
			return Reject
		}
		return EvalString(s, str)
	case Number, Integer:
		f, ok := v.(float64)
		if !ok {
			return Reject
		}
		return b2v(EvalNumber(s, f))
	case Array:
		l, ok := v.([]interface{})
		if !ok {
			return Reject
		}
		return evalArray(s, l, env)
	case Object:
		m, ok := v.(map[string]interface{})
		if !ok {
			return Reject
		}
		return evalObject(s, m, env)
	case Enum:
		return b2v(memberOf(s.Enum, v))
	case All:
		r := Accept
		for _, c := range s.Children {
			r = and(r, Eval(c, v, env))
		}
		return r
	case Any:
		r := Reject
		for _, c := range s.Children {
			switch Eval(c, v, env) {
			case Accept:
				return Accept
			case Unknown:
				r = Unknown
			}
		}
		return r
	case OneOf:
		n, u := 0, 0
		for _, c := range s.Children {
			switch Eval(c, v, env) {
			case Accept:
				n++
			case Unknown:
				u++
			}
		}
		if n > 1 {
			return Reject
		}
		if u > 0 {
			return Unknown
		}
		return b2v(n == 1)
	case Not:
		switch Eval(s.Children[0], v, env) {
		case Accept:
			return Reject
		case Reject:
			return Accept
		}
		return Unknown
	case Ref:
		t, ok := env[s.RefName]
		if !ok {
			return Reject
		}
		return Eval(t, v, env)
	case Custom:
		return b2v(s.Judge(v))
	}
	panic("model: bad kind")
}

func memberOf(l []interface{}, v interface{}) bool {
	for _, e := range l {
		if Equal(e, v) {
			return true
		}
	}
	return false
}

// StrLen counts characters.
func StrLen(s string) int {
	n := 0
	for range s {
		n++
	}
	return n
}

func EvalString(s *Spec, str string) Verdict {
	n := StrLen(str)
	if s.MinLen != nil && n < *s.MinLen {
		return Reject
	}
	if s.MaxLen != nil && n > *s.MaxLen {
		return Reject
	}
	if s.Pattern != "" && !rx(s.Pattern).MatchString(str) {
		return Reject
	}
	if s.Enum != nil && !memberOf(s.Enum, str) {
		return Reject
	}
	if s.Format != "" {
		return FormatVerdict(s.Format, str)
	}
	return Accept
}

// EvalNumber judges a float64 (Go integers are converted first).
func EvalNumber(s *Spec, f float64) bool {
	if s.Kind == Integer && f != math.Trunc(f) {
		return false
	}
	if s.Min != nil {
		if f < *s.Min || s.ExMin && f == *s.Min {
			return false
		}
	}
	if s.Max != nil {
		if f > *s.Max || s.ExMax && f == *s.Max {
			return false
		}
	}
	if s.MultipleOf != nil && *s.MultipleOf != 0 && math.Mod(f, *s.MultipleOf) != 0 {
		return false
	}
	if s.Enum != nil {
		ok := false
		for _, e := range s.Enum {
			if x, isnum := toFloat(e); isnum && x == f {
				ok = true
			}
		}
		return ok
	}
	return true
}

func toFloat(e interface{}) (float64, bool) {
	switch x := e.(type) {
	case float64:
		return x, true
	case float32:
		return float64(x), true
	case int:
		return float64(x), true
	case int8:
		return float64(x), true
	case int16:
		return float64(x), true
	case int32:
		return float64(x), true
	case int64:
		return float64(x), true
	case uint:
		return float64(x), true
	case uint8:
		return float64(x), true
	case uint16:
		return float64(x), true
	case uint32:
		return float64(x), true
	case uint64:
		return float64(x), true
	}
	return 0, false
}

func evalArray(s *Spec, l []interface{}, env Env) Verdict {
	if s.MinItems != nil && *s.MinItems >= 0 && len(l) < *s.MinItems {
		return Reject
	}
	if s.MaxItems != nil && *s.MaxItems >= 0 && len(l) > *s.MaxItems {
		return Reject
	}
	if s.Unique {
		for i := range l {
			for j := 0; j < i; j++ {
				if Equal(l[i], l[j]) {
					return Reject
				}
			}
		}
	}
	r := Accept
	for i, e := range l {
		switch {
		case s.Items != nil:
			r = and(r, Eval(s.Items, e, env))
		case i < len(s.Positional):
			r = and(r, Eval(s.Positional[i], e, env))
		case len(s.Positional) > 0:
			switch s.AddItemsMode {
			case AddNil:
				return Reject
			case AddSpec:
				r = and(r, Eval(s.AddItems, e, env))
			}
		}
	}
	return r
}

func evalObject(s *Spec, m map[string]interface{}, env Env) Verdict {
	if s.MinProps != nil && *s.MinProps >= 0 && len(m) < *s.MinProps {
		return Reject
	}
	if s.MaxProps != nil && *s.MaxProps >= 0 && len(m) > *s.MaxProps {
		return Reject
	}
	for _, n := range s.Required {
		if _, ok := m[n]; !ok {
			return Reject
		}
	}
	for _, d := range s.PropDeps {
		if _, ok := m[d.From]; ok {
			for _, t := range d.To {
				if _, ok := m[t]; !ok {
					return Reject
				}
			}
		}
	}
	r := Accept
	for name, v := range m {
		var own *Spec
		for i := range s.Props {
			if s.Props[i].Name == name {
				own = s.Props[i].Spec
			}
		}
		if own != nil {
			r = and(r, Eval(own, v, env))
			continue
		}
		matched := false
		for i := range s.Patterns {
			if rx(s.Patterns[i].Name).MatchString(name) {
				matched = true
				r = and(r, Eval(s.Patterns[i].Spec, v, env))
			}
		}
		if matched {
			continue
		}
		if s.AddProps == nil {
			return Reject
		}
		r = and(r, Eval(s.AddProps, v, env))
	}
	for _, d := range s.SchemaDeps {
		if _, ok := m[d.Name]; ok {
			r = and(r, Eval(d.Spec, m, env))
		}
	}
	return r
}

// HasDefault resolves references.
func HasDefault(s *Spec, env Env) (interface{}, bool) {
	for i := 0; s.Kind == Ref && i < 50; i++ {
		t, ok := env[s.RefName]
		if !ok {
			return nil, false
		}
		s = t
	}
	switch s.Kind {
	case Bool, String, Number, Integer:
		return s.Def, s.HasDef
	case All, Any, OneOf:
		if s.Reduce && len(s.Children) == 1 {
			return HasDefault(s.Children[0], env)
		}
	}
	return nil, false
}

// Fill applies the defaults of s to v in place, for a v that s accepts. Only
// meaningful for specs that judge every object by one object constraint
// (see GenOpts.Defaults).
func Fill(s *Spec, v interface{}, env Env) {
	switch s.Kind {
	case Ref:
		if t, ok := env[s.RefName]; ok {
			Fill(t, v, env)
		}
	case All:
		for _, c := range s.Children {
			Fill(c, v, env)
		}
	case Array:
		l, ok := v.([]interface{})
		if !ok {
			return
		}
		for i, e := range l {
			switch {
			case s.Items != nil:
				Fill(s.Items, e, env)
			case i < len(s.Positional):
				Fill(s.Positional[i], e, env)
			case len(s.Positional) > 0 && s.AddItemsMode == AddSpec:
				Fill(s.AddItems, e, env)
			}
		}
	case Object:
		m, ok := v.(map[string]interface{})
		if !ok {
			return
		}
		for name, e := range m {
			declared := false
			for _, p := range s.Props {
				if p.Name == name {
					declared = true
					Fill(p.Spec, e, env)
				}
			}
			if declared {
				continue
			}
			matched := false
			for _, p := range s.Patterns {
				if rx(p.Name).MatchString(name) {
					matched = true
					Fill(p.Spec, e, env)
				}
			}
			if !matched && s.AddProps != nil {
				Fill(s.AddProps, e, env)
			}
		}
		for _, p := range s.Props {
			if _, ok := m[p.Name]; !ok {
				if d, ok := HasDefault(p.Spec, env); ok {
					m[p.Name] = d
				}
			}
		}
	}
}

// Copy is a deep copy of a JSON value.
func Copy(v interface{}) interface{} {
	switch x := v.(type) {
	case []interface{}:
		l := make([]interface{}, len(x))
		for i := range x {
			l[i] = Copy(x[i])
		}
		return l
	case map[string]interface{}:
		m := make(map[string]interface{}, len(x))
		for k, e := range x {
			m[k] = Copy(e)
		}
		return m
	}
	return v
}

// JSON renders a value for reports.
func JSON(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	if len(b) > 4000 {
		return string(b[:4000]) + "..."
	}
	return string(b)
}

// Builder turns specs into constraints.
type Builder struct {
	Rng      *core.Rng // nil: canonical order
	Resolver jsval.RefResolver
	// Wrap, if set, may replace a constraint (e.g. by a probe).
	Wrap func(s *Spec, c jsval.Constraint) jsval.Constraint
	// Seen: cache so that one Spec pointer becomes one constraint
	Shared map[*Spec]jsval.Constraint
}

// conf applies the settings, in any order. Either the results of the calls
// are used, as in a chain of calls, or they are dropped and c itself is used;
// now and then c is already validating while it is not complete.
//
// before are settings that those of fs replace.
func (b *Builder) conf(c jsval.Constraint, set func(jsval.Constraint), fs, before []func() jsval.Constraint) jsval.Constraint {
	var p []int
	chain, probe := false, false
	if b.Rng != nil {
		p = b.Rng.Perm(len(fs))
		chain = b.Rng.Bool()
		probe = b.Wrap == nil && b.Rng.P(1, 8)
		if len(before) > 0 && b.Rng.P(1, 8) {
			for _, i := range b.Rng.Perm(len(before))[:b.Rng.Range(1, len(before))] {
				before[i]()
				if probe {
					b.probe(c)
				}
			}
		}
	} else {
		for i := range fs {
			p = append(p, i)
		}
	}
	for _, i := range p {
		if probe {
			b.probe(c)
		}
		if n := fs[i](); chain {
			c = n
			set(n)
		}
	}
	return c
}

// lend passes f a list with room at its end, which it does not get to keep.
func (b *Builder) lend(names []string, f func([]string) jsval.Constraint) jsval.Constraint {
	l := make([]string, len(names), len(names)+4)
	copy(l, names)
	c := f(l)
	l = l[:cap(l)]
	for i := range l {
		l[i] = "lent"
	}
	return c
}

var probes = []func() interface{}{
	func() interface{} { return nil },
	func() interface{} { return "x" },
	func() interface{} { return 1.0 },
	func() interface{} { return true },
	func() interface{} { return []interface{}{"a", 1.0} },
	func() interface{} { return map[string]interface{}{"a": 1.0, "b": "x"} },
	func() interface{} { return map[string]interface{}{} },
}

func (b *Builder) probe(c jsval.Constraint) {
	x := probes[b.Rng.Intn(len(probes))]()
	core.Try(func() { c.Validate(x) })
}

// Build makes the real constraint for s.
func (b *Builder) Build(s *Spec) jsval.Constraint {
	if b.Shared != nil {
		if c, ok := b.Shared[s]; ok {
			return c
		}
	}
	c := b.build(s)
	if b.Wrap != nil {
		c = b.Wrap(s, c)
	}
	if b.Shared != nil {
		b.Shared[s] = c
	}
	return c
}

func (b *Builder) build(s *Spec) jsval.Constraint {
	switch s.Kind {
	case Empty:
		return jsval.EmptyConstraint
	case Null:
		return jsval.NullConstraint
	case Custom:
		return s.Make()
	case Bool:
		c := jsval.Boolean()
		var fs, bs []func() jsval.Constraint
		if s.Enum != nil {
			fs = append(fs, func() jsval.Constraint { return c.Enum(append([]interface{}{}, s.Enum...)...) })
			bs = append(bs, func() jsval.Constraint { return c.Enum("decoy", 17.0, nil, true) })
		}
		if s.HasDef {
			fs = append(fs, func() jsval.Constraint { return c.Default(s.Def) })
			bs = append(bs, func() jsval.Constraint { return c.Default("decoy") })
		}
		return b.conf(c, func(n jsval.Constraint) {
			if x, ok := n.(*jsval.BooleanConstraint); ok {
				c = x
			}
		}, fs, bs)
	case String:
		c := jsval.String()
		var fs, bs []func() jsval.Constraint
		if s.HasDef {
			fs = append(fs, func() jsval.Constraint { return c.Default(s.Def) })
			bs = append(bs, func() jsval.Constraint { return c.Default("decoy") })
		}
		if s.MinLen != nil {
			fs = append(fs, func() jsval.Constraint { return c.MinLength(*s.MinLen) })
			bs = append(bs, func() jsval.Constraint { return c.MinLength(*s.MinLen + 1 - 2*b.Rng.Intn(2)) })
		}
		if s.MaxLen != nil {
			fs = append(fs, func() jsval.Constraint { return c.MaxLength(*s.MaxLen) })
			bs = append(bs, func() jsval.Constraint { return c.MaxLength(*s.MaxLen + 1 - 2*b.Rng.Intn(2)) })
		}
		if s.Pattern != "" {
			fs = append(fs, func() jsval.Constraint {
				if b.Rng != nil && b.Rng.Bool() {
					return c.Regexp(regexp.MustCompile(s.Pattern))
				}
				return c.RegexpString(s.Pattern)
			})
			bs = append(bs, func() jsval.Constraint {
				if b.Rng.Bool() {
					return c.Regexp(regexp.MustCompile("^decoy"))
				}
				return c.RegexpString("^decoy")
			})
		}
		if s.Format != "" {
			fs = append(fs, func() jsval.Constraint { return c.Format(s.Format) })
			bs = append(bs, func() jsval.Constraint { return c.Format(core.Pick(b.Rng, []string{"email", "ipv4", "date-time"})) })
		}
		if s.Enum != nil {
			fs = append(fs, func() jsval.Constraint { return c.Enum(append([]interface{}{}, s.Enum...)...) })
			bs = append(bs, func() jsval.Constraint { return c.Enum("decoy", 17.0, nil, true) })
		}
		return b.conf(c, func(n jsval.Constraint) {
			if x, ok := n.(*jsval.StringConstraint); ok {
				c = x
			}
		}, fs, bs)
	case Number:
		c := jsval.Number()
		var fs, bs []func() jsval.Constraint
		if s.HasDef {
			fs = append(fs, func() jsval.Constraint { return c.Default(s.Def) })
			bs = append(bs, func() jsval.Constraint { return c.Default("decoy") })
		}
		if s.Min != nil {
			fs = append(fs, func() jsval.Constraint { return c.Minimum(*s.Min) })
			bs = append(bs, func() jsval.Constraint { return c.Minimum(*s.Min + 1 - 2*float64(b.Rng.Intn(2))) })
		}
		if s.Max != nil {
			fs = append(fs, func() jsval.Constraint { return c.Maximum(*s.Max) })
			bs = append(bs, func() jsval.Constraint { return c.Maximum(*s.Max + 1 - 2*float64(b.Rng.Intn(2))) })
		}
		if s.ExMin {
			fs = append(fs, func() jsval.Constraint { return c.ExclusiveMinimum(true) })
			bs = append(bs, func() jsval.Constraint { return c.ExclusiveMinimum(false) })
		} else if b.Rng != nil && b.Rng.P(1, 6) {
			fs = append(fs, func() jsval.Constraint { return c.ExclusiveMinimum(false) })
			bs = append(bs, func() jsval.Constraint { return c.ExclusiveMinimum(true) })
		}
		if s.ExMax {
			fs = append(fs, func() jsval.Constraint { return c.ExclusiveMaximum(true) })
			bs = append(bs, func() jsval.Constraint { return c.ExclusiveMaximum(false) })
		} else if b.Rng != nil && b.Rng.P(1, 6) {
			fs = append(fs, func() jsval.Constraint { return c.ExclusiveMaximum(false) })
			bs = append(bs, func() jsval.Constraint { return c.ExclusiveMaximum(true) })
		}
		if s.MultipleOf != nil {
			fs = append(fs, func() jsval.Constraint { return c.MultipleOf(*s.MultipleOf) })
			bs = append(bs, func() jsval.Constraint { return c.MultipleOf(*s.MultipleOf * 3) })
		}
		if s.Enum != nil {
			fs = append(fs, func() jsval.Constraint { return c.Enum(append([]interface{}{}, s.Enum...)...) })
			bs = append(bs, func() jsval.Constraint { return c.Enum("decoy", 17.0, nil, true) })
		}
		return b.conf(c, func(n jsval.Constraint) {
			if x, ok := n.(*jsval.NumberConstraint); ok {
				c = x
			}
		}, fs, bs)
	case Integer:
		c := jsval.Integer()
		var fs, bs []func() jsval.Constraint
		if s.HasDef {
			fs = append(fs, func() jsval.Constraint { return c.Default(s.Def) })
			bs = append(bs, func() jsval.Constraint { return c.Default("decoy") })
		}
		if s.Min != nil {
			fs = append(fs, func() jsval.Constraint { return c.Minimum(*s.Min) })
			bs = append(bs, func() jsval.Constraint { return c.Minimum(*s.Min + 1 - 2*float64(b.Rng.Intn(2))) })
		}
		if s.Max != nil {
			fs = append(fs, func() jsval.Constraint { return c.Maximum(*s.Max) })
			bs = append(bs, func() jsval.Constraint { return c.Maximum(*s.Max + 1 - 2*float64(b.Rng.Intn(2))) })
		}
		if s.ExMin {
			fs = append(fs, func() jsval.Constraint { return c.ExclusiveMinimum(true) })
			bs = append(bs, func() jsval.Constraint { return c.ExclusiveMinimum(false) })
		} else if b.Rng != nil && b.Rng.P(1, 6) {
			fs = append(fs, func() jsval.Constraint { return c.ExclusiveMinimum(false) })
			bs = append(bs, func() jsval.Constraint { return c.ExclusiveMinimum(true) })
		}
		if s.ExMax {
			fs = append(fs, func() jsval.Constraint { return c.ExclusiveMaximum(true) })
			bs = append(bs, func() jsval.Constraint { return c.ExclusiveMaximum(false) })
		} else if b.Rng != nil && b.Rng.P(1, 6) {
			fs = append(fs, func() jsval.Constraint { return c.ExclusiveMaximum(false) })
			bs = append(bs, func() jsval.Constraint { return c.ExclusiveMaximum(true) })
		}
		if s.MultipleOf != nil {
			fs = append(fs, func() jsval.Constraint { return c.MultipleOf(*s.MultipleOf) })
			bs = append(bs, func() jsval.Constraint { return c.MultipleOf(*s.MultipleOf * 3) })
		}
		if s.Enum != nil {
			fs = append(fs, func() jsval.Constraint { return c.Enum(append([]interface{}{}, s.Enum...)...) })
			bs = append(bs, func() jsval.Constraint { return c.Enum("decoy", 17.0, nil, true) })
		}
		return b.conf(c, func(n jsval.Constraint) {
			if x, ok := n.(*jsval.IntegerConstraint); ok {
				c = x
			}
		}, fs, bs)
	case Array:
		c := jsval.Array()
		var fs, bs []func() jsval.Constraint
		if s.MinItems != nil {
			fs = append(fs, func() jsval.Constraint { return c.MinItems(*s.MinItems) })
			bs = append(bs, func() jsval.Constraint { return c.MinItems(*s.MinItems + 1) })
		}
		if s.MaxItems != nil {
			fs = append(fs, func() jsval.Constraint { return c.MaxItems(*s.MaxItems) })
			bs = append(bs, func() jsval.Constraint { return c.MaxItems(*s.MaxItems + 1 - 2*b.Rng.Intn(2)) })
		}
		if s.Unique {
			fs = append(fs, func() jsval.Constraint { return c.UniqueItems(true) })
			bs = append(bs, func() jsval.Constraint { return c.UniqueItems(false) })
		} else if b.Rng != nil && b.Rng.P(1, 8) {
			fs = append(fs, func() jsval.Constraint { return c.UniqueItems(false) })
			bs = append(bs, func() jsval.Constraint { return c.UniqueItems(true) })
		}
		if s.Items != nil {
			ic := b.Build(s.Items)
			fs = append(fs, func() jsval.Constraint { return c.Items(ic) })
			bs = append(bs, func() jsval.Constraint { return c.Items(jsval.Not(jsval.EmptyConstraint)) })
		}
		if s.Positional != nil {
			l := make([]jsval.Constraint, len(s.Positional))
			for i, p := range s.Positional {
				l[i] = b.Build(p)
			}
			fs = append(fs, func() jsval.Constraint { return c.PositionalItems(l) })
			bs = append(bs, func() jsval.Constraint {
				return c.PositionalItems([]jsval.Constraint{jsval.NullConstraint, jsval.EmptyConstraint})
			})
		}
		switch s.AddItemsMode {
		case AddNil:
			fs = append(fs, func() jsval.Constraint { return c.AdditionalItems(nil) })
			bs = append(bs, func() jsval.Constraint { return c.AdditionalItems(jsval.EmptyConstraint) })
		case AddSpec:
			ac := b.Build(s.AddItems)
			fs = append(fs, func() jsval.Constraint { return c.AdditionalItems(ac) })
			bs = append(bs, func() jsval.Constraint { return c.AdditionalItems(jsval.NullConstraint) })
		}
		return b.conf(c, func(n jsval.Constraint) {
			if x, ok := n.(*jsval.ArrayConstraint); ok {
				c = x
			}
		}, fs, bs)
	case Object:
		c := jsval.Object()
		var fs, bs []func() jsval.Constraint
		if s.MinProps != nil {
			fs = append(fs, func() jsval.Constraint { return c.MinProperties(*s.MinProps) })
			bs = append(bs, func() jsval.Constraint { return c.MinProperties(*s.MinProps + 1) })
		}
		if s.MaxProps != nil {
			fs = append(fs, func() jsval.Constraint { return c.MaxProperties(*s.MaxProps) })
			bs = append(bs, func() jsval.Constraint { return c.MaxProperties(*s.MaxProps + 1 - 2*b.Rng.Intn(2)) })
		}
		for i := 0; i < len(s.Required); {
			n := len(s.Required) - i
			if b.Rng != nil {
				n = b.Rng.Range(1, n)
			}
			part := s.Required[i : i+n]
			fs = append(fs, func() jsval.Constraint {
				return b.lend(part, func(l []string) jsval.Constraint { return c.Required(l...) })
			})
			i += n
		}
		for _, p := range s.Props {
			pc := b.Build(p.Spec)
			name := p.Name
			fs = append(fs, func() jsval.Constraint { return c.AddProp(name, pc) })
			bs = append(bs, func() jsval.Constraint {
				return c.AddProp(name, core.Pick(b.Rng, []jsval.Constraint{jsval.NullConstraint, jsval.EmptyConstraint, jsval.String().Default("decoy")}))
			})
		}
		for _, p := range s.Patterns {
			pc := b.Build(p.Spec)
			name := p.Name
			fs = append(fs, func() jsval.Constraint {
				if b.Rng != nil && b.Rng.Bool() {
					return c.PatternProperties(regexp.MustCompile(name), pc)
				}
				return c.PatternPropertiesString(name, pc)
			})
		}
		if s.AddProps != nil {
			ac := b.Build(s.AddProps)
			fs = append(fs, func() jsval.Constraint { return c.AdditionalProperties(ac) })
			bs = append(bs, func() jsval.Constraint { return c.AdditionalProperties(jsval.NullConstraint) })
		}
		for _, d := range s.PropDeps {
			d := d
			if b.Rng != nil && len(d.To) > 1 && b.Rng.Bool() {
				k := b.Rng.Range(1, len(d.To)-1)
				fs = append(fs, func() jsval.Constraint {
					return b.lend(d.To[:k], func(l []string) jsval.Constraint { return c.PropDependency(d.From, l...) })
				}, func() jsval.Constraint {
					return b.lend(d.To[k:], func(l []string) jsval.Constraint { return c.PropDependency(d.From, l...) })
				})
			} else {
				fs = append(fs, func() jsval.Constraint {
					return b.lend(d.To, func(l []string) jsval.Constraint { return c.PropDependency(d.From, l...) })
				})
			}
		}
		for _, d := range s.SchemaDeps {
			dc := b.Build(d.Spec)
			name := d.Name
			fs = append(fs, func() jsval.Constraint { return c.SchemaDependency(name, dc) })
			bs = append(bs, func() jsval.Constraint { return c.SchemaDependency(name, jsval.NullConstraint) })
		}
		return b.conf(c, func(n jsval.Constraint) {
			if x, ok := n.(*jsval.ObjectConstraint); ok {
				c = x
			}
		}, fs, bs)
	case Enum:
		if b.Rng != nil && b.Rng.Bool() {
			return jsval.Enum().Enum(append([]interface{}{}, s.Enum...)...)
		}
		return jsval.Enum(append([]interface{}{}, s.Enum...)...)
	case All:
		c := jsval.All()
		probe, chain := b.Rng != nil && b.Wrap == nil && b.Rng.P(1, 8), b.Rng != nil && b.Rng.Bool()
		for _, k := range s.Children {
			if probe {
				b.probe(c)
			}
			if n := c.Add(b.Build(k)); chain {
				c = n
			}
		}
		if s.Reduce {
			return c.Reduce()
		}
		return c
	case Any:
		c := jsval.Any()
		probe, chain := b.Rng != nil && b.Wrap == nil && b.Rng.P(1, 8), b.Rng != nil && b.Rng.Bool()
		for _, k := range s.Children {
			if probe {
				b.probe(c)
			}
			if n := c.Add(b.Build(k)); chain {
				c = n
			}
		}
		if s.Reduce {
			return c.Reduce()
		}
		return c
	case OneOf:
		c := jsval.OneOf()
		probe, chain := b.Rng != nil && b.Wrap == nil && b.Rng.P(1, 8), b.Rng != nil && b.Rng.Bool()
		for _, k := range s.Children {
			if probe {
				b.probe(c)
			}
			if n := c.Add(b.Build(k)); chain {
				c = n
			}
		}
		if s.Reduce {
			return c.Reduce()
		}
		return c
	case Not:
		return jsval.Not(b.Build(s.Children[0]))
	case Ref:
		r := jsval.Reference(b.Resolver)
		if b.Rng != nil && b.Rng.P(1, 8) { // the last one counts
			r.RefersTo(core.Pick(b.Rng, []string{"", "#", "#/definitions/another", s.RefName + "x"}))
		}
		return r.RefersTo(s.RefName)
	}
	panic("model: bad kind")
}

// String renders a spec compactly for reports.
func (s *Spec) String() string {
	var sb strings.Builder
	s.write(&sb, 0)
	r := sb.String()
	if len(r) > 6000 {
		r = r[:6000] + "..."
	}
	return r
}

func (s *Spec) write(sb *strings.Builder, d int) {
	if d > 8 {
		sb.WriteString("...")
		return
	}
	fmt.Fprintf(sb, "%s", s.Kind)
	var parts []string
	add := func(f string, a ...interface{}) { parts = append(parts, fmt.Sprintf(f, a...)) }
	sub := func(c *Spec) string {
		var b strings.Builder
		c.write(&b, d+1)
		return b.String()
	}
	if s.HasDef {
		add("default=%s", JSON(s.Def))
	}
	if s.Enum != nil {
		add("enum=%s", JSON(s.Enum))
	}
	pi := func(n string, p *int) {
		if p != nil {
			add("%s=%d", n, *p)
		}
	}
	pf := func(n string, p *float64) {
		if p != nil {
			add("%s=%v", n, *p)
		}
	}
	pi("minLen", s.MinLen)
	pi("maxLen", s.MaxLen)
	if s.Pattern != "" {
		add("pattern=%q", s.Pattern)
	}
	if s.Format != "" {
		add("format=%s", s.Format)
	}
	pf("min", s.Min)
	pf("max", s.Max)
	if s.ExMin {
		add("exMin")
	}
	if s.ExMax {
		add("exMax")
	}
	pf("multipleOf", s.MultipleOf)
	pi("minItems", s.MinItems)
	pi("maxItems", s.MaxItems)
	if s.Unique {
		add("unique")
	}
	if s.Items != nil {
		add("items=%s", sub(s.Items))
	}
	for i, p := range s.Positional {
		add("pos%d=%s", i, sub(p))
	}
	switch s.AddItemsMode {
	case AddNil:
		add("addItems=nil")
	case AddSpec:
		add("addItems=%s", sub(s.AddItems))
	}
	pi("minProps", s.MinProps)
	pi("maxProps", s.MaxProps)
	if len(s.Required) > 0 {
		add("required=%q", s.Required)
	}
	for _, p := range s.Props {
		add("prop[%q]=%s", p.Name, sub(p.Spec))
	}
	for _, p := range s.Patterns {
		add("pattern[%q]=%s", p.Name, sub(p.Spec))
	}
	if s.Kind == Object {
		if s.AddProps == nil {
			add("addProps=nil")
		} else {
			add("addProps=%s", sub(s.AddProps))
		}
	}
	for _, dp := range s.PropDeps {
		add("dep[%q]=%q", dp.From, dp.To)
	}
	for _, dp := range s.SchemaDeps {
		add("sdep[%q]=%s", dp.Name, sub(dp.Spec))
	}
	for _, c := range s.Children {
		add("%s", sub(c))
	}
	if s.RefName != "" {
		add("->%q", s.RefName)
	}
	if s.Reduce {
		add("reduce")
	}
	if len(parts) > 0 {
		fmt.Fprintf(sb, "(%s)", strings.Join(parts, ", "))
	}
}

// DescribeEnv renders an environment.
func DescribeEnv(env Env) string {
	keys := make([]string, 0, len(env))
	for k := range env {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var sb strings.Builder
	for _, k := range keys {
		fmt.Fprintf(&sb, " [%q]=%s", k, env[k])
	}
	return sb.String()
}

// Walk visits s and its descendants (not through references).
func Walk(s *Spec, f func(*Spec)) {
	if s == nil {
		return
	}
	f(s)
	Walk(s.Items, f)
	for _, p := range s.Positional {
		Walk(p, f)
	}
	Walk(s.AddItems, f)
	for _, p := range s.Props {
		Walk(p.Spec, f)
	}
	for _, p := range s.Patterns {
		Walk(p.Spec, f)
	}
	Walk(s.AddProps, f)
	for _, p := range s.SchemaDeps {
		Walk(p.Spec, f)
	}
	for _, c := range s.Children {
		Walk(c, f)
	}
}
