package model

import (
	"encoding/json"
	"fmt"
	"math"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"verif/core"
)

// This file is an independent reading of JSON schema (draft-04) documents:
// decoded JSON -> Spec, and generators of such documents.

type M = map[string]interface{}

// Doc is a schema document with the meaning of every reference in it.
type Doc struct {
	Root M
	Spec *Spec
	Env  Env
	// Bad lists live references that lead nowhere or not to a schema.
	Bad []string
}

// Lookup follows a JSON pointer fragment ("#/a/b").
func Lookup(root interface{}, ref string) (interface{}, bool) {
	if ref == "#" {
		return root, true
	}
	if !strings.HasPrefix(ref, "#/") {
		return nil, false
	}
	cur := root
	ptr := ref[2:]
	if strings.Contains(ptr, "%") { // a URI fragment, which may be escaped
		u, err := url.PathUnescape(ptr)
		if err != nil {
			return nil, false
		}
		ptr = u
	}
	for _, t := range strings.Split(ptr, "/") {
		switch x := cur.(type) {
		case M:
			n, ok := x[t]
			if !ok {
				return nil, false
			}
			cur = n
		case []interface{}:
			i, err := strconv.Atoi(t)
			if err != nil || i < 0 || i >= len(x) {
				return nil, false
			}
			cur = x[i]
		default:
			return nil, false
		}
	}
	return cur, true
}

// ReadDoc interprets a schema document.
func ReadDoc(root M) *Doc {
	d := &Doc{Root: root, Env: Env{}}
	d.Spec = d.conv(root)
	return d
}

// ReadPart interprets the part of a document a pointer leads to.
func ReadPart(root M, part M) *Doc {
	d := &Doc{Root: root, Env: Env{}}
	d.Spec = d.conv(part)
	return d
}

func num(s M, k string) *float64 {
	if f, ok := s[k].(float64); ok {
		return &f
	}
	return nil
}

func inum(s M, k string) *int {
	if f, ok := s[k].(float64); ok {
		i := int(f)
		return &i
	}
	return nil
}

func whole(f float64) bool { return f == math.Floor(f) }

// kinds is the list of types a schema states or implies.
func kinds(s M) []string {
	switch t := s["type"].(type) {
	case string:
		return []string{t}
	case []interface{}:
		var l []string
		for _, x := range t {
			l = append(l, x.(string))
		}
		return l
	}
	var l []string
	has := func(ks ...string) bool {
		for _, k := range ks {
			if _, ok := s[k]; ok {
				return true
			}
		}
		return false
	}
	limits := func(k string) bool {
		v, ok := s[k]
		return ok && v != true
	}
	members := func(f func(v interface{}) bool) bool {
		l, _ := s["enum"].([]interface{})
		for _, v := range l {
			if f(v) {
				return true
			}
		}
		return false
	}
	if has("properties", "patternProperties", "required", "minProperties", "maxProperties", "dependencies") || limits("additionalProperties") ||
		members(func(v interface{}) bool { _, ok := v.(M); return ok }) {
		l = append(l, "object")
	}
	if has("items", "minItems", "maxItems", "uniqueItems") || limits("additionalItems") ||
		members(func(v interface{}) bool { _, ok := v.([]interface{}); return ok }) {
		l = append(l, "array")
	}
	known := false
	switch s["format"] {
	case "date-time", "email", "hostname", "ipv4", "ipv6", "uri":
		known = true
	}
	if has("minLength", "maxLength", "pattern") || known || members(func(v interface{}) bool { _, ok := v.(string); return ok }) {
		l = append(l, "string")
	}
	nk := ""
	for _, k := range []string{"multipleOf", "minimum", "maximum"} {
		if f := num(s, k); f != nil && nk == "" {
			nk = "number"
			if whole(*f) {
				nk = "integer"
			}
		}
	}
	if nk == "" && members(func(v interface{}) bool { _, ok := v.(float64); return ok }) {
		nk = "number"
	}
	if nk != "" {
		l = append(l, nk)
	}
	if members(func(v interface{}) bool { _, ok := v.(bool); return ok }) {
		l = append(l, "boolean")
	}
	if members(func(v interface{}) bool { return v == nil }) {
		l = append(l, "null")
	}
	return l
}

func one(kind Kind, l []*Spec) *Spec {
	if len(l) == 1 {
		return l[0]
	}
	return &Spec{Kind: kind, Children: l}
}

func (d *Doc) conv(s M) *Spec {
	if ref, ok := s["$ref"].(string); ok {
		if _, done := d.Env[ref]; !done {
			t, ok := Lookup(d.Root, ref)
			m, isobj := t.(M)
			if !ok || !isobj {
				d.Bad = append(d.Bad, ref)
				d.Env[ref] = &Spec{Kind: Not, Children: []*Spec{{Kind: Empty}}}
			} else {
				hole := &Spec{}
				d.Env[ref] = hole
				*hole = *d.conv(m)
			}
		}
		return &Spec{Kind: Ref, RefName: ref}
	}
	var parts []*Spec
	if n, ok := s["not"].(M); ok {
		parts = append(parts, &Spec{Kind: Not, Children: []*Spec{d.conv(n)}})
	}
	for _, x := range []struct {
		k    string
		kind Kind
	}{{"allOf", All}, {"anyOf", Any}, {"oneOf", OneOf}} {
		if l, ok := s[x.k].([]interface{}); ok && len(l) > 0 {
			var cs []*Spec
			for _, e := range l {
				cs = append(cs, d.conv(e.(M)))
			}
			parts = append(parts, one(x.kind, cs))
		}
	}
	enum, _ := s["enum"].([]interface{})
	var types []*Spec
	ks := kinds(s)
	for _, k := range ks {
		var c *Spec
		switch k {
		case "string":
			c = &Spec{Kind: String, MinLen: inum(s, "minLength"), MaxLen: inum(s, "maxLength")}
			c.Pattern, _ = s["pattern"].(string)
			c.Format, _ = s["format"].(string)
		case "number", "integer":
			c = &Spec{Kind: Number, Min: num(s, "minimum"), Max: num(s, "maximum"), MultipleOf: num(s, "multipleOf")}
			if k == "integer" {
				c.Kind = Integer
			}
			c.ExMin, c.ExMax = s["exclusiveMinimum"] == true, s["exclusiveMaximum"] == true
		case "boolean":
			c = &Spec{Kind: Bool}
		case "null":
			c = &Spec{Kind: Null}
		case "array":
			c = &Spec{Kind: Array, MinItems: inum(s, "minItems"), MaxItems: inum(s, "maxItems"), Unique: s["uniqueItems"] == true}
			switch it := s["items"].(type) {
			case M:
				c.Items = d.conv(it)
			case []interface{}:
				for _, e := range it {
					c.Positional = append(c.Positional, d.conv(e.(M)))
				}
				switch a := s["additionalItems"].(type) {
				case bool:
					if !a {
						c.AddItemsMode = AddNil
					}
				case M:
					c.AddItemsMode, c.AddItems = AddSpec, d.conv(a)
				}
			}
		case "object":
			c = &Spec{Kind: Object, MinProps: inum(s, "minProperties"), MaxProps: inum(s, "maxProperties")}
			if l, ok := s["required"].([]interface{}); ok {
				for _, e := range l {
					c.Required = append(c.Required, e.(string))
				}
			}
			if m, ok := s["properties"].(M); ok {
				for n := range sortedOnce(m) {
					c.Props = append(c.Props, Prop{n, d.conv(m[n].(M))})
				}
			}
			if m, ok := s["patternProperties"].(M); ok {
				for n := range sortedOnce(m) {
					c.Patterns = append(c.Patterns, Prop{n, d.conv(m[n].(M))})
				}
			}
			c.AddProps = &Spec{Kind: Empty}
			switch a := s["additionalProperties"].(type) {
			case bool:
				if !a {
					c.AddProps = nil
				}
			case M:
				c.AddProps = d.conv(a)
			}
			if m, ok := s["dependencies"].(M); ok {
				for n := range sortedOnce(m) {
					switch x := m[n].(type) {
					case []interface{}:
						pd := PropDep{From: n}
						for _, e := range x {
							pd.To = append(pd.To, e.(string))
						}
						c.PropDeps = append(c.PropDeps, pd)
					case M:
						c.SchemaDeps = append(c.SchemaDeps, Prop{n, d.conv(x)})
					}
				}
			}
		}
		if len(ks) == 1 {
			if v, ok := s["default"]; ok {
				switch k {
				case "string", "number", "integer", "boolean":
					c.HasDef, c.Def = true, v
				}
			}
		}
		if enum != nil {
			switch k {
			case "array", "object", "null":
				c = &Spec{Kind: All, Children: []*Spec{c, {Kind: Enum, Enum: enum}}}
			default:
				c.Enum = enum
			}
		}
		types = append(types, c)
	}
	if len(types) > 0 {
		parts = append(parts, one(Any, types))
	}
	if len(parts) == 0 {
		return &Spec{Kind: Empty}
	}
	return one(All, parts)
}

// ---------------------------------------------------------------------------
// generation

// SOpts selects what schemas are made of.
type SOpts struct {
	Depth    int
	Untyped  bool // omit type
	Mixed    bool // omit type sometimes (nested)
	Formats  bool
	Stray    bool // keywords of other kinds beside a type
	Defaults bool // single-type scalar properties may have defaults, no combinators or dependencies
	NoComb   bool
	SafeName bool // property names that may appear in a JSON pointer
}

func (o SOpts) deeper() SOpts { o.Depth--; return o }

var safeNames = []string{"a", "b", "c", "d", "e", "f", "foo", "bar", "baz", "name", "x-foo", "x-", "名前", "a.b", "a b", "A", "Foo", "0", "42", "12345", "-", "id", "type", "properties", "zzz", "ab", "cdab", "é", "items", "definitions", "not", "allOf", "enum"}

func (o SOpts) name(r *core.Rng) string {
	if o.SafeName {
		if r.P(2, 3) {
			return safeNames[r.Intn(10)]
		}
		return core.Pick(r, safeNames)
	}
	return GenName(r)
}

// schema names of JSON keys that jsschema or our pointers cannot carry
func (o SOpts) prop(r *core.Rng) string {
	for {
		n := o.name(r)
		if n != "$ref" {
			return n
		}
	}
}

var typeNames = []string{"string", "string", "integer", "number", "boolean", "null", "array", "array", "object", "object", "object"}
var scalarNames = []string{"string", "integer", "number", "boolean", "null"}

// GenSchema makes a schema document (without references).
func GenSchema(r *core.Rng, o SOpts) M {
	s := genSchema(r, o)
	if r.P(1, 12) {
		annotate(r, s)
	}
	return s
}

// annotate adds what has no influence on any instance.
func annotate(r *core.Rng, s M) {
	for i := r.Range(1, 3); i > 0; i-- {
		switch r.Intn(5) {
		case 0:
			s["title"] = core.Pick(r, []string{"title", "", "日本", "integer"})
		case 1:
			s["description"] = core.Pick(r, []string{"required", "a\nb", ""})
		case 2:
			s["id"] = core.Pick(r, []string{"#foo", "http://example.com/a", "a", "#"})
		case 3:
			s["x-"+core.Pick(r, []string{"type", "min", "order"})] = core.Pick(r, []interface{}{1.0, "x", nil, M{"type": "null"}, []interface{}{}})
		case 4:
			s[core.Pick(r, []string{"Type", "minLenght", "readOnly", "const", "examples", "$comment"})] = core.Pick(r, []interface{}{1.0, "null", false})
		}
	}
}

func genSchema(r *core.Rng, o SOpts) M {
	untyped := o.Untyped || o.Mixed && r.P(1, 3)
	s := M{}
	if r.P(1, 14) {
		return s
	}
	if !o.NoComb && !o.Defaults && o.Depth > 0 && r.P(1, 4) {
		o.comb(r, s)
		if r.P(2, 3) {
			return s
		}
	}
	if !o.Defaults && r.P(1, 12) {
		s["enum"] = toEnum(genEnum(r, func() interface{} { return GenJSON(r, 1) }))
		if untyped {
			return s
		}
	}
	pick := func() string {
		if o.Depth <= 0 {
			return core.Pick(r, scalarNames)
		}
		return core.Pick(r, typeNames)
	}
	types := []string{pick()}
	if !o.Defaults && r.P(1, 5) {
		for i := r.Range(1, 3); i > 0; i-- {
			t := pick()
			dup := false
			for _, x := range types {
				dup = dup || x == t
			}
			if !dup {
				types = append(types, t)
			}
		}
	}
	for _, t := range types {
		o.keywords(r, s, t, untyped)
	}
	if untyped {
		Settle(s)
		return s
	}
	if len(types) == 1 && r.P(9, 10) {
		s["type"] = types[0]
	} else {
		var l []interface{}
		for _, t := range types {
			l = append(l, t)
		}
		s["type"] = l
	}
	if o.Stray && r.P(1, 6) {
		t := core.Pick(r, scalarNames[:3])
		dup := false
		for _, x := range types {
			dup = dup || x == t || (x == "integer" || x == "number") && (t == "integer" || t == "number")
		}
		if !dup {
			o.keywords(r, s, t, false)
		}
	}
	if o.Defaults && len(types) == 1 && r.P(1, 2) {
		switch types[0] {
		case "string":
			s["default"] = core.Pick(r, []string{"", GenString(r), GenString(r), GenString(r)})
		case "number":
			s["default"] = core.Pick(r, []float64{0, GenNum(r), GenNum(r), GenNum(r)})
		case "integer":
			s["default"] = core.Pick(r, []float64{0, float64(r.Range(-50, 50)), float64(r.Range(-50, 50)), math.Trunc(GenNum(r))})
		case "boolean":
			s["default"] = r.Bool()
		}
	}
	return s
}

// Settle removes what leaves the implied numeric kind open: whole-valued
// beside fractional rules, and rules beside numbers in an enumeration.
func Settle(s M) {
	w, f := 0, 0
	for _, k := range []string{"multipleOf", "minimum", "maximum"} {
		if p := num(s, k); p != nil {
			if whole(*p) {
				w++
			} else {
				f++
			}
		}
	}
	nums := false
	l, _ := s["enum"].([]interface{})
	for _, v := range l {
		if _, ok := v.(float64); ok {
			nums = true
		}
	}
	if w > 0 && f > 0 || nums && w+f > 0 {
		for _, k := range []string{"multipleOf", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"} {
			delete(s, k)
		}
	}
}

func toEnum(l []interface{}) []interface{} { return l }

// Same number of distinct members only: draft-04 wants unique ones.
func (o SOpts) comb(r *core.Rng, s M) {
	list := func() []interface{} {
		var l []interface{}
		for i := core.Pick(r, []int{1, 2, 2, 3, 4}); i > 0; i-- {
			l = append(l, GenSchema(r, o.deeper()))
		}
		return l
	}
	n := core.Pick(r, []int{1, 1, 1, 2, 3})
	for i := 0; i < n; i++ {
		switch r.Intn(4) {
		case 0:
			s["allOf"] = list()
		case 1:
			s["anyOf"] = list()
		case 2:
			s["oneOf"] = list()
		case 3:
			s["not"] = GenSchema(r, o.deeper())
		}
	}
}

// keywords adds rules for one kind. When must is set, at least one keyword
// that implies the kind is added.
func (o SOpts) keywords(r *core.Rng, s M, t string, must bool) {
	before := len(s)
	for try := 0; ; try++ {
		o.keywords1(r, s, t, must)
		if !must || len(s) > before || try > 30 {
			break
		}
	}
}

func (o SOpts) keywords1(r *core.Rng, s M, t string, untyped bool) {
	seti := func(k string, p *int) {
		if p != nil {
			s[k] = float64(*p)
		}
	}
	switch t {
	case "string":
		sp := &Spec{Kind: String}
		genStringRules(r, sp, GenOpts{Formats: o.Formats})
		seti("minLength", sp.MinLen)
		seti("maxLength", sp.MaxLen)
		if sp.Pattern != "" {
			s["pattern"] = sp.Pattern
		}
		if sp.Enum != nil && s["enum"] == nil {
			s["enum"] = sp.Enum
		}
		if sp.Format != "" && sp.Format != "datetime" {
			s["format"] = sp.Format
		}
	case "number", "integer":
		o.numeric(r, s, t, untyped)
	case "boolean":
		if s["enum"] == nil && (untyped || r.P(1, 8)) {
			l := []interface{}{r.Bool()}
			if r.P(1, 3) {
				l = append(l, GenJSON(r, 0))
			}
			s["enum"] = l
		}
	case "null":
		if s["enum"] == nil && untyped {
			s["enum"] = []interface{}{nil, GenJSON(r, 0)}
		}
	case "array":
		if r.P(1, 3) {
			s["minItems"] = float64(core.Pick(r, []int{0, 1, 1, 2, 3, 5}))
		}
		if r.P(1, 3) {
			s["maxItems"] = float64(core.Pick(r, []int{0, 1, 2, 3, 4, 5, 8, 20}))
		}
		if r.P(1, 3) {
			s["uniqueItems"] = r.P(5, 6)
		}
		switch r.Intn(5) {
		case 0:
		case 1, 2:
			s["items"] = GenSchema(r, o.deeper())
		default:
			var l []interface{}
			for i := core.Pick(r, []int{1, 1, 2, 2, 3, 5}); i > 0; i-- {
				l = append(l, GenSchema(r, o.deeper()))
			}
			s["items"] = l
		}
		if _, tuple := s["items"].([]interface{}); tuple || r.P(1, 6) {
			switch r.Intn(4) {
			case 0:
				s["additionalItems"] = false
			case 1:
				s["additionalItems"] = true
			case 2:
				s["additionalItems"] = GenSchema(r, o.deeper())
			}
		}
	case "object":
		if r.P(1, 6) {
			s["minProperties"] = float64(core.Pick(r, []int{0, 1, 2, 3}))
		}
		if r.P(1, 6) {
			s["maxProperties"] = float64(core.Pick(r, []int{0, 1, 2, 3, 4, 6}))
		}
		var names []string
		if n := core.Pick(r, []int{0, 1, 2, 2, 3, 4, 6}); n > 0 {
			m := M{}
			for i := 0; i < n; i++ {
				k := o.prop(r)
				if _, dup := m[k]; !dup {
					m[k] = GenSchema(r, o.deeper())
					names = append(names, k)
				}
			}
			s["properties"] = m
		}
		if r.P(1, 3) {
			po := o.deeper()
			if o.Defaults {
				po.Depth = 0
			}
			m := M{}
			for i := core.Pick(r, []int{1, 1, 2, 3}); i > 0; i-- {
				m[core.Pick(r, Pats).Re] = GenSchema(r, po)
			}
			s["patternProperties"] = m
		}
		switch r.Intn(5) {
		case 0, 1:
			s["additionalProperties"] = false
		case 2:
			s["additionalProperties"] = GenSchema(r, o.deeper())
		case 3:
			s["additionalProperties"] = true
		}
		any := func() string {
			if len(names) > 0 && r.P(2, 3) {
				return core.Pick(r, names)
			}
			return o.name(r)
		}
		if r.P(1, 3) {
			var l []interface{}
			used := map[string]bool{}
			for i := core.Pick(r, []int{1, 1, 2, 3}); i > 0; i-- {
				n := any()
				if !used[n] {
					l = append(l, n)
				}
				used[n] = true
			}
			s["required"] = l
		}
		if r.P(1, 4) {
			m := M{}
			for i := core.Pick(r, []int{1, 1, 2, 3}); i > 0; i-- {
				if r.P(2, 3) || o.Defaults {
					used := map[string]bool{}
					var l []interface{}
					for j := core.Pick(r, []int{1, 1, 2, 3}); j > 0; j-- {
						n := any()
						if !used[n] {
							l = append(l, n)
						}
						used[n] = true
					}
					m[any()] = l
				} else {
					do := o.deeper()
					do.Depth = min(do.Depth, 1)
					ds := GenSchema(r, do)
					if r.P(3, 4) {
						ds = M{"type": "object"}
						do.keywords(r, ds, "object", false)
						if r.P(3, 4) {
							delete(ds, "additionalProperties")
						}
					}
					m[any()] = ds
				}
			}
			s["dependencies"] = m
		}
	}
}

func (o SOpts) numeric(r *core.Rng, s M, t string, untyped bool) {
	sp := &Spec{Kind: Number}
	GenNumberRules(r, sp)
	if sp.MultipleOf != nil {
		sp.MultipleOf = fp(core.Pick(r, []float64{1, 2, 3, 5, 7, 10, 0.5, 0.25, 1.5, 100, 12, 60}))
	}
	if untyped {
		// whole-valued rules imply integer, fractional ones number; a mix
		// is left open
		fix := func(p *float64) *float64 {
			if p == nil {
				return nil
			}
			f := *p
			switch {
			case t == "integer":
				f = math.Trunc(f)
			case f == math.Trunc(f):
				f = float64(r.Range(-40, 40)) + 0.5
			}
			return &f
		}
		sp.Min, sp.Max = fix(sp.Min), fix(sp.Max)
		if sp.MultipleOf != nil {
			if t == "integer" {
				sp.MultipleOf = fp(core.Pick(r, []float64{1, 2, 3, 5, 7, 10}))
			} else {
				sp.MultipleOf = fp(core.Pick(r, []float64{0.5, 0.25, 1.5}))
			}
		}
		if _, ok := s["enum"]; ok || t == "integer" || sp.Min != nil || sp.Max != nil || sp.MultipleOf != nil {
			sp.Enum = nil
		}
		if l, ok := s["enum"].([]interface{}); ok && t == "integer" {
			for _, v := range l {
				if _, isnum := v.(float64); isnum {
					return
				}
			}
		}
	}
	if sp.Min != nil {
		s["minimum"] = *sp.Min
		if sp.ExMin {
			s["exclusiveMinimum"] = true
		} else if r.P(1, 6) {
			s["exclusiveMinimum"] = false
		}
	}
	if sp.Max != nil {
		s["maximum"] = *sp.Max
		if sp.ExMax {
			s["exclusiveMaximum"] = true
		} else if r.P(1, 6) {
			s["exclusiveMaximum"] = false
		}
	}
	if sp.MultipleOf != nil {
		s["multipleOf"] = *sp.MultipleOf
	}
	if sp.Enum != nil && s["enum"] == nil {
		s["enum"] = sp.Enum
	}
}

// Encode writes JSON with the keys of every object in random order.
func Encode(r *core.Rng, v interface{}) string {
	var sb strings.Builder
	encode(r, &sb, v)
	return sb.String()
}

func encode(r *core.Rng, sb *strings.Builder, v interface{}) {
	switch x := v.(type) {
	case M:
		ks := SortedKeys(x)
		if r != nil {
			for i := len(ks) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
		sb.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				sb.WriteByte(',')
			}
			b, _ := json.Marshal(k)
			sb.Write(b)
			sb.WriteByte(':')
			encode(r, sb, x[k])
		}
		sb.WriteByte('}')
	case []interface{}:
		sb.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				sb.WriteByte(',')
			}
			encode(r, sb, e)
		}
		sb.WriteByte(']')
	default:
		b, err := json.Marshal(x)
		if err != nil {
			panic(err)
		}
		sb.Write(b)
	}
}

// ---------------------------------------------------------------------------
// schema positions and references

// Pos is a schema inside a document.
type Pos struct {
	Ptr   string // "#/definitions/x"
	S     M
	Plain bool // reachable through definitions, properties and not only
}

var safePtr = regexp.MustCompile(`^[\p{L}0-9_.\- ]+$`)

// Positions lists every schema of the document whose pointer can be written.
func Positions(root M) []Pos {
	var l []Pos
	var walk func(ptr string, s M, plain bool)
	walk = func(ptr string, s M, plain bool) {
		l = append(l, Pos{ptr, s, plain})
		if _, ok := s["$ref"]; ok && ptr != "#" {
			return
		}
		for _, k := range []string{"definitions", "properties", "patternProperties", "dependencies"} {
			m, _ := s[k].(M)
			for _, n := range SortedKeys(m) {
				if c, ok := m[n].(M); ok && safePtr.MatchString(n) {
					walk(ptr+"/"+k+"/"+n, c, plain && (k == "definitions" || k == "properties"))
				}
			}
		}
		for _, k := range []string{"items", "additionalItems", "additionalProperties", "not"} {
			if c, ok := s[k].(M); ok {
				walk(ptr+"/"+k, c, plain && k == "not")
			}
		}
		for _, k := range []string{"items", "allOf", "anyOf", "oneOf"} {
			if c, ok := s[k].([]interface{}); ok {
				for i, e := range c {
					walk(fmt.Sprintf("%s/%s/%d", ptr, k, i), e.(M), false)
				}
			}
		}
	}
	walk("#", root, true)
	return l
}

// flat lists what a schema asks of the very same value.
func flat(s M) []M {
	if _, ok := s["$ref"].(string); ok {
		return nil
	}
	var l []M
	for _, k := range []string{"allOf", "anyOf", "oneOf"} {
		if c, ok := s[k].([]interface{}); ok {
			for _, e := range c {
				l = append(l, e.(M))
			}
		}
	}
	if c, ok := s["not"].(M); ok {
		l = append(l, c)
	}
	if m, ok := s["dependencies"].(M); ok {
		for _, n := range SortedKeys(m) {
			if c, ok := m[n].(M); ok {
				l = append(l, c)
			}
		}
	}
	return l
}

// WellFounded says whether no schema of the document expands to itself
// without looking into the value.
func WellFounded(root M) bool {
	const busy, done = 1, 2
	state := map[string]int{}
	var visit func(s M) bool
	visit = func(s M) bool {
		if ref, ok := s["$ref"].(string); ok {
			if state[ref] == busy {
				return false
			}
			if state[ref] == done {
				return true
			}
			t, ok := Lookup(root, ref)
			m, isobj := t.(M)
			if !ok || !isobj {
				return true
			}
			state[ref] = busy
			r := visit(m)
			state[ref] = done
			return r
		}
		for _, c := range flat(s) {
			if !visit(c) {
				return false
			}
		}
		return true
	}
	for _, p := range Positions(root) {
		if !visit(p.S) {
			return false
		}
	}
	return visit(root)
}

// HasRef says whether a reference occurs anywhere in the value.
func HasRef(v interface{}) bool {
	switch x := v.(type) {
	case M:
		if _, ok := x["$ref"].(string); ok {
			return true
		}
		for _, e := range x {
			if HasRef(e) {
				return true
			}
		}
	case []interface{}:
		for _, e := range x {
			if HasRef(e) {
				return true
			}
		}
	}
	return false
}

// GenRefDoc makes a schema document full of references. With plain set, the
// references only lead to definitions, properties and not.
func GenRefDoc(r *core.Rng, o SOpts, plain bool) M {
	o.SafeName = true
	for {
		root := GenSchema(r, o)
		if r.P(3, 4) || len(root) == 0 {
			if root["type"] == nil {
				root["type"] = "object"
				o.keywords(r, root, "object", false)
			}
		}
		defs := M{}
		n := core.Pick(r, []int{1, 2, 3, 3, 4, 6})
		for i := 0; i < n; i++ {
			defs[o.prop(r)] = GenSchema(r, o.deeper())
		}
		root["definitions"] = defs
		if r.P(1, 12) { // a chain of references
			m := r.Range(1, 14)
			for i := 0; i < m; i++ {
				defs[fmt.Sprintf("chain%d", i)] = M{"$ref": fmt.Sprintf("#/definitions/chain%d", i+1)}
			}
			defs[fmt.Sprintf("chain%d", m)] = GenSchema(r, o.deeper())
		}
		// definitions of the same names further down: only a pointer that
		// spells out the way there means them
		if r.P(1, 3) {
			ps := Positions(root)[1:]
			for i := r.Range(1, 2); i > 0 && len(ps) > 0; i-- {
				p := core.Pick(r, ps)
				if _, ok := p.S["$ref"]; ok || p.S["definitions"] != nil {
					continue
				}
				inner := M{}
				for _, k := range SortedKeys(defs) {
					if r.P(3, 4) {
						inner[k] = GenSchema(r, o.deeper())
					}
				}
				p.S["definitions"] = inner
			}
		}
		// turn some schemas into references
		ps := Positions(root)
		for _, p := range ps[1:] {
			if _, ok := p.S["$ref"]; ok {
				continue
			}
			if r.P(1, 4) {
				keep := r.P(1, 6) // siblings of $ref have no meaning
				for k := range p.S {
					if !keep || k == "definitions" {
						delete(p.S, k)
					}
				}
				p.S["$ref"] = ""
			}
		}
		if r.P(1, 12) {
			for _, k := range SortedKeys(root) {
				if k != "definitions" && (k != "title" && r.P(4, 5)) {
					delete(root, k)
				}
			}
			root["$ref"] = ""
		}
		ps = Positions(root)
		var targets []Pos
		for _, p := range ps {
			if !plain || p.Plain {
				targets = append(targets, p)
			}
		}
		for try := 0; try < 25; try++ {
			refs := 0
			for _, p := range ps {
				if ref, ok := p.S["$ref"].(string); ok && !strings.HasPrefix(ref, "#/definitions/chain") {
					t := core.Pick(r, targets)
					for i := 0; i < 3 && t.Ptr == "#" && r.P(1, 2); i++ {
						t = core.Pick(r, targets)
					}
					p.S["$ref"] = t.Ptr
					if r.P(1, 8) {
						p.S["$ref"] = percent(r, t.Ptr)
					}
					refs++
				}
			}
			if refs == 0 && !HasRef(root) {
				break
			}
			if WellFounded(root) {
				return root
			}
		}
	}
}

// percent spells some characters of a reference by their percent-encoding.
func percent(r *core.Rng, ref string) string {
	var b strings.Builder
	all := r.P(1, 3)
	for i := 0; i < len(ref); i++ {
		c := ref[i]
		switch {
		case c == '#' || c == '/' || !all && c < 0x80 && c != ' ' && !r.P(1, 6):
			b.WriteByte(c)
		case r.P(1, 2):
			fmt.Fprintf(&b, "%%%02X", c)
		default:
			fmt.Fprintf(&b, "%%%02x", c)
		}
	}
	return b.String()
}

// SortStrings returns a sorted copy.
func SortStrings(l []string) []string {
	c := append([]string{}, l...)
	sort.Strings(c)
	return c
}
