package model

// ToSchema writes a spec (of the subset that the size sweeps use) as a JSON
// schema. With untyped, the type is left out wherever the keywords imply it.
// ok is false if the spec has no such form.
func ToSchema(s *Spec, env Env, untyped bool) (M, bool) {
	w := &schemaWriter{untyped: untyped, ok: true}
	m := w.write(s)
	if len(env) > 0 {
		defs := M{}
		for n, t := range env {
			defs[n] = w.write(t)
		}
		m["definitions"] = defs
	}
	return m, w.ok
}

type schemaWriter struct {
	untyped, ok bool
}

func (w *schemaWriter) list(l []*Spec) []interface{} {
	if len(l) == 0 {
		w.ok = false
	}
	var out []interface{}
	for _, s := range l {
		out = append(out, w.write(s))
	}
	return out
}

func (w *schemaWriter) write(s *Spec) M {
	m := M{}
	typ := ""
	num := func(k string, p *float64) {
		if p != nil {
			m[k] = *p
		}
	}
	inum := func(k string, p *int) {
		if p != nil {
			m[k] = float64(*p)
		}
	}
	enum := func() {
		if s.Enum != nil {
			if len(s.Enum) == 0 {
				w.ok = false
			}
			m["enum"] = append([]interface{}{}, s.Enum...)
		}
	}
	props := func(l []Prop) M {
		o := M{}
		for _, p := range l {
			if _, dup := o[p.Name]; dup {
				w.ok = false
			}
			o[p.Name] = w.write(p.Spec)
		}
		return o
	}
	switch s.Kind {
	case Empty:
		return m
	case Null:
		typ = "null"
	case Bool:
		typ = "boolean"
	case Ref:
		m["$ref"] = "#/definitions/" + s.RefName
		return m
	case Enum:
		enum()
		if s.Enum == nil {
			w.ok = false
		}
		return m
	case String:
		typ = "string"
		inum("minLength", s.MinLen)
		inum("maxLength", s.MaxLen)
		if s.Pattern != "" {
			m["pattern"] = s.Pattern
		}
		if s.Format != "" {
			m["format"] = s.Format
		}
		enum()
	case Number, Integer:
		typ = "number"
		if s.Kind == Integer {
			typ = "integer"
		}
		num("minimum", s.Min)
		num("maximum", s.Max)
		num("multipleOf", s.MultipleOf)
		if s.ExMin {
			m["exclusiveMinimum"] = true
		}
		if s.ExMax {
			m["exclusiveMaximum"] = true
		}
		enum()
	case Array:
		typ = "array"
		inum("minItems", s.MinItems)
		inum("maxItems", s.MaxItems)
		if s.Unique {
			m["uniqueItems"] = true
		}
		if s.Items != nil {
			m["items"] = w.write(s.Items)
		} else if len(s.Positional) > 0 {
			m["items"] = w.list(s.Positional)
			switch s.AddItemsMode {
			case AddNil:
				m["additionalItems"] = false
			case AddSpec:
				m["additionalItems"] = w.write(s.AddItems)
			}
		}
	case Object:
		typ = "object"
		inum("minProperties", s.MinProps)
		inum("maxProperties", s.MaxProps)
		if len(s.Required) > 0 {
			var l []interface{}
			for _, n := range s.Required {
				l = append(l, n)
			}
			m["required"] = l
		}
		if len(s.Props) > 0 {
			m["properties"] = props(s.Props)
		}
		if len(s.Patterns) > 0 {
			m["patternProperties"] = props(s.Patterns)
		}
		switch {
		case s.AddProps == nil:
			m["additionalProperties"] = false
		case s.AddProps.Kind != Empty:
			m["additionalProperties"] = w.write(s.AddProps)
		}
		deps := M{}
		for _, d := range s.PropDeps {
			var l []interface{}
			for _, n := range d.To {
				l = append(l, n)
			}
			deps[d.From] = l
		}
		for _, d := range s.SchemaDeps {
			deps[d.Name] = w.write(d.Spec)
		}
		if len(deps) > 0 {
			m["dependencies"] = deps
		}
	case All:
		m["allOf"] = w.list(s.Children)
		return m
	case Any:
		m["anyOf"] = w.list(s.Children)
		return m
	case OneOf:
		m["oneOf"] = w.list(s.Children)
		return m
	case Not:
		m["not"] = w.write(s.Children[0])
		return m
	default:
		w.ok = false
		return m
	}
	if s.HasDef {
		m["default"] = s.Def
	}
	if w.untyped {
		if k := kinds(m); len(k) == 1 && k[0] == typ {
			return m
		}
	}
	m["type"] = typ
	return m
}
