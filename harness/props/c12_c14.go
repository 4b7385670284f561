package props

import (
	"encoding/json"
	"fmt"
	"strings"

	schema "github.com/lestrrat-go/jsschema"
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"

	"verif/core"
	"verif/model"
)

// readSchema parses schema text the way users do. A text the schema parser
// (a dependency) refuses is not our subject.
func readSchema(c *core.Case, text string) (*schema.Schema, bool) {
	var s *schema.Schema
	var err error
	p, msg, _ := c.Try(func() { s, err = schema.Read(strings.NewReader(text)) })
	if p || err != nil {
		c.R.Fail("generated schema does not parse: %v %s\n%s", err, msg, text)
		return nil, false
	}
	return s, true
}

// build builds under the panic monitor.
func build(c *core.Case, s *schema.Schema, ctx interface{}, withCtx bool, text string) (*jsval.JSVal, error, bool) {
	var v *jsval.JSVal
	var err error
	r := c.Rng
	var before []*schema.Schema
	var docs []model.M
	var self model.M
	if r.P(1, 4) && len(text) < 20000 && json.Unmarshal([]byte(text), &self) == nil {
		for i := r.Range(1, 2); i > 0; i-- {
			t := model.Encode(r, lookAlike(r, self))
			if s, err := schema.Read(strings.NewReader(t)); err == nil {
				before = append(before, s)
				docs = append(docs, decodeM(t))
			}
		}
		c.Count("builders_used_before", 1)
	}
	p, msg, stack := c.Try(func() {
		b := builder.New()
		for i, s := range before { // it has built something else before
			if i%2 == 0 {
				b.Build(s)
			} else {
				b.BuildWithCtx(s, docs[i])
			}
		}
		if withCtx {
			v, err = b.BuildWithCtx(s, ctx)
		} else {
			v, err = b.Build(s)
		}
	})
	if p {
		c.ViolateD("panic", strings.Split(stack, "\n"), "building panicked: %s\nschema: %s", msg, text)
		return nil, nil, false
	}
	return v, err, true
}

// lookAlike makes another document that says the same about itself and
// defines the same names.
func lookAlike(r *core.Rng, doc model.M) model.M {
	o := model.SOpts{Depth: 1, SafeName: true}
	m := model.GenSchema(r, o)
	for _, k := range []string{"id", "title", "description", "type", "$schema", "$ref"} {
		if x, ok := doc[k]; ok {
			m[k] = x
		}
	}
	for _, k := range []string{"definitions", "properties"} {
		old, _ := doc[k].(model.M)
		if len(old) == 0 {
			continue
		}
		l := model.M{}
		for _, n := range model.SortedKeys(old) {
			l[n] = model.GenSchema(r, model.SOpts{SafeName: true})
		}
		m[k] = l
	}
	refs := []interface{}{m}
	for _, ref := range docRefs(doc) {
		refs = append(refs, model.M{"$ref": ref})
	}
	if len(refs) > 1 && m["$ref"] == nil {
		m["anyOf"] = refs[1:]
	}
	return m
}

func snapSchema(s *schema.Schema) (string, bool) {
	var b []byte
	var err error
	if p, _, _ := core.Try(func() { b, err = json.Marshal(s) }); p || err != nil {
		return "", false
	}
	return string(b), true
}

func decodeM(text string) model.M {
	var m model.M
	if err := json.Unmarshal([]byte(text), &m); err != nil {
		panic(err)
	}
	return m
}

// roundTrip decodes the JSON text of v, as a document arriving from outside.
func roundTrip(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var x interface{}
	if err := json.Unmarshal(b, &x); err != nil {
		panic(err)
	}
	return x
}

// schemaCase builds one generated document (twice, with keys in different
// orders) and judges instances.
func schemaCase(c *core.Case, doc model.M, nvals int, fill bool) bool {
	return schemaCaseOn(c, doc, nvals, fill, nil)
}

// schemaCaseOn judges the given instances instead, if there are any.
func schemaCaseOn(c *core.Case, doc model.M, nvals int, fill bool, vals []interface{}) bool {
	r := c.Rng
	if vals != nil {
		nvals = len(vals)
	}
	d := model.ReadDoc(doc)
	text := model.Encode(r, doc)
	text2 := model.Encode(r, doc)
	refs := model.HasRef(doc)
	type built struct {
		v    *jsval.JSVal
		what string
	}
	var vs []built
	plainRefs := !refs
	if refs {
		plainRefs = true
		for _, ref := range docRefs(doc) {
			if !plainPtr(ref) {
				plainRefs = false
			}
		}
	}
	for i, t := range []string{text, text2} {
		s, ok := readSchema(c, t)
		if !ok {
			return false
		}
		before, snapok := snapSchema(s)
		raw := decodeM(t)
		rawBefore := model.Copy(raw)
		withCtx := r.P(1, 2)
		if !plainRefs {
			withCtx = true
		}
		times := 1
		if i == 0 {
			times = 2 // the same schema value once more
		}
		for j := 0; j < times; j++ {
			v, err, ok := build(c, s, raw, withCtx, t)
			if !ok {
				return false
			}
			if len(d.Bad) > 0 {
				if err == nil {
					c.Violate("bad reference accepted", "building must fail: %q leads nowhere or not to a schema\nschema: %s", d.Bad, t)
					return false
				}
				c.Count("bad_reference_refused", 1)
				c.Eval(key("bad", t))
				return true
			}
			if err != nil || v == nil {
				c.Violate("build failed", "building failed: %v\nwith raw context: %v\nschema: %s", err, withCtx, t)
				return false
			}
			vs = append(vs, built{v, fmt.Sprintf("build %d of text %d, raw context %v", j, i, withCtx)})
		}
		if snapok {
			if after, _ := snapSchema(s); after != before {
				c.Violate("schema modified", "building changed the schema\nbefore: %s\nafter:  %s", before, after)
				return false
			}
		}
		if !model.Equal(raw, rawBefore) {
			c.Violate("context modified", "building changed the raw document\n%s", t)
			return false
		}
	}
	c.Count("schemas", 1)
	for i := 0; i < nvals; i++ {
		var v interface{}
		if vals != nil {
			v = roundTrip(vals[i])
		} else {
			v = roundTrip(model.GenValue(r, d.Spec, d.Env, 5))
		}
		want := model.Eval(d.Spec, v, d.Env)
		for _, b := range vs {
			x := model.Copy(v)
			what := func() string {
				return fmt.Sprintf("schema: %s\ninstance: %s\n(%s)", text, model.JSON(v), b.what)
			}
			if !expect(c, b.v, x, want, what) {
				return false
			}
			if fill && want != model.Unknown {
				exp := model.Copy(v)
				model.Fill(d.Spec, exp, d.Env)
				if want == model.Reject {
					if why := between(v, x, exp, true); why != "" {
						c.Violate("modified", "after failure the value is %s: %s\n%s", model.JSON(x), why, what())
						return false
					}
				} else {
					if !model.Equal(exp, v) {
						c.Count("defaults_filled", 1)
					}
					if !model.Equal(x, exp) {
						c.Violate("wrong defaults", "after validation: %s\nexpected:         %s\n%s", model.JSON(x), model.JSON(exp), what())
						return false
					}
				}
			}
		}
		if want != model.Unknown {
			c.Eval(key(text, model.JSON(v)))
		}
		if i == 0 && len(text) < 600 {
			c.Sample(map[string]interface{}{"schema": json.RawMessage(text), "instance": v, "verdict": want.String()})
		}
	}
	return true
}

func docRefs(v interface{}) []string {
	var l []string
	switch x := v.(type) {
	case model.M:
		if s, ok := x["$ref"].(string); ok {
			l = append(l, s)
		}
		for _, k := range model.SortedKeys(x) {
			l = append(l, docRefs(x[k])...)
		}
	case []interface{}:
		for _, e := range x {
			l = append(l, docRefs(e)...)
		}
	}
	return l
}

// plainPtr: pointers that lead through definitions, properties and not.
func plainPtr(ref string) bool {
	if ref == "#" {
		return true
	}
	ts := strings.Split(strings.TrimPrefix(ref, "#/"), "/")
	for i := 0; i < len(ts); {
		switch ts[i] {
		case "definitions", "properties":
			i += 2
		case "not":
			i++
		default:
			return false
		}
	}
	return true
}

// schemaSizes judges schemas with any number of rules of one family.
func schemaSizes(r *core.Run, untyped bool, families ...string) {
	reps := r.N(1, 10)
	r.Cases("sizes", len(families)*len(sizeSweep)*reps, func(c *core.Case) {
		rg := c.Rng
		f := families[c.Idx%len(families)]
		n := sizeSweep[c.Idx/len(families)%len(sizeSweep)]
		if c.Idx/len(families)/len(sizeSweep) > 0 {
			n += rg.Intn(20)
		}
		n = min(n, 310)
		s, vals, env := sized(rg, f, n)
		doc, ok := model.ToSchema(s, env, untyped)
		if !ok {
			return
		}
		schemaCaseOn(c, doc, 0, true, vals)
		c.Count("sized_"+f, len(vals))
	})
}

// features counts which keywords the observed schemas use.
func features(c *core.Case, v interface{}) {
	switch x := v.(type) {
	case model.M:
		for k, e := range x {
			switch k {
			case "type", "enum", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "minLength", "maxLength", "pattern", "format", "items", "additionalItems", "minItems", "maxItems", "uniqueItems", "properties", "patternProperties", "additionalProperties", "required", "minProperties", "maxProperties", "dependencies", "allOf", "anyOf", "oneOf", "not", "$ref", "default":
				c.Count("kw_"+k, 1)
			}
			features(c, e)
		}
	case []interface{}:
		for _, e := range x {
			features(c, e)
		}
	}
}

func init() {
	register(&core.Prop{
		ID:    "C12",
		Quick: 3,
		Level: "exploration",
		Rule:  "random typed draft-04 schemas (all validation keywords, nested, key order permuted, built repeatedly, with and without a raw context) are built by the real builder and judged on instances aimed at each rule; the oracle is an independent reading of the schema text",
		Assumptions: []string{
			"format values whose well-formedness is contested are left unjudged (counter model_unknown)",
			"numbers are compared as float64; multipleOf uses values exactly representable in binary",
		},
		Run: func(r *core.Run) {
			schemaSizes(r, false, "enum_number", "enum_integer", "enum_string", "enum", "any", "all", "oneof", "nested_comb", "positional", "nested_array", "props", "required", "patterns", "patterns_one", "nested_object", "targets", "triggers", "same", "length", "long_member", "long_names")
			r.Cases("typed", r.N(9000, 400000), func(c *core.Case) {
				o := model.SOpts{Depth: core.Pick(c.Rng, []int{1, 2, 2, 3, 3, 4}), Formats: true, Stray: true}
				doc := model.GenSchema(c.Rng, o)
				features(c, doc)
				schemaCase(c, doc, 12, false)
			})
			r.Cases("single", r.N(6000, 200000), func(c *core.Case) {
				// one kind, no nesting: many instances around each bound
				o := model.SOpts{Depth: core.Pick(c.Rng, []int{0, 0, 1}), Formats: true, Stray: true, NoComb: true}
				doc := model.GenSchema(c.Rng, o)
				features(c, doc)
				schemaCase(c, doc, 24, false)
			})
			r.Cases("defaults", r.N(4000, 150000), func(c *core.Case) {
				o := model.SOpts{Depth: core.Pick(c.Rng, []int{1, 2, 2, 3}), Defaults: true, NoComb: true}
				doc := model.GenSchema(c.Rng, o)
				features(c, doc)
				schemaCase(c, doc, 10, true)
			})
			r.Cases("one-keyword", len(keywordTable)*r.N(12, 400), func(c *core.Case) {
				doc := decodeM(keywordTable[c.Idx%len(keywordTable)])
				schemaCase(c, doc, 16, false)
			})
			r.Cases("refused", r.N(4000, 100000), unknownTypeCase)
		},
	})
	register(&core.Prop{
		ID:    "C13",
		Quick: 5,
		Level: "exploration",
		Rule:  "random schema documents with references at every position to every position (chains, recursion, documents that are references themselves, siblings of $ref, unreferenced broken definitions), built with Build and BuildWithCtx, judged against an independent evaluator that follows the pointers; dangling and ill-typed references must be refused",
		Assumptions: []string{
			"pointers contain no ~ escapes (decoded by a dependency)",
			"plain Build is given pointers through definitions, properties and not (others need the raw context, as documented)",
			"references are well-founded",
		},
		Run: func(r *core.Run) {
			schemaSizes(r, false, "chain", "names")
			r.Cases("refs", r.N(6000, 250000), func(c *core.Case) {
				o := model.SOpts{Depth: core.Pick(c.Rng, []int{1, 2, 2, 3}), Stray: c.Rng.P(1, 4)}
				doc := model.GenRefDoc(c.Rng, o, c.Rng.P(1, 3))
				addUnused(c.Rng, doc)
				features(c, doc)
				schemaCase(c, doc, 12, false)
			})
			r.Cases("ref-defaults", r.N(2500, 80000), func(c *core.Case) {
				o := model.SOpts{Depth: core.Pick(c.Rng, []int{1, 2, 2}), Defaults: true, NoComb: true}
				doc := model.GenRefDoc(c.Rng, o, c.Rng.P(1, 2))
				if sharedObjects(doc) {
					c.Count("skipped_shared_objects", 1)
					return
				}
				addUnused(c.Rng, doc)
				schemaCase(c, doc, 10, true)
			})
			r.Cases("recursive", r.N(2500, 80000), func(c *core.Case) {
				doc := recursiveDoc(c.Rng)
				schemaCase(c, doc, 20, false)
			})
			r.Cases("bad", r.N(4000, 120000), func(c *core.Case) {
				badRefCase(c)
			})
			r.Cases("loop", r.N(1500, 30000), func(c *core.Case) {
				loopCase(c)
			})
		},
	})
	register(&core.Prop{
		ID:    "C14",
		Quick: 3,
		Level: "exploration",
		Rule:  "random schemas without type (at the root, everywhere, or mixed with typed ones), built repeatedly with permuted keys, judged on instances of every kind; the oracle reads the implied kinds off the keywords",
		Assumptions: []string{
			"empty keyword containers (properties: {}, required: [], items: []) and a mix of whole and fractional numeric rules are left open",
		},
		Run: func(r *core.Run) {
			schemaSizes(r, true, "enum_number", "enum_integer", "enum_string", "enum", "positional", "nested_array", "props", "required", "patterns", "nested_object", "targets", "triggers", "length", "long_member", "long_names")
			r.Cases("untyped", r.N(7000, 300000), func(c *core.Case) {
				o := model.SOpts{Depth: core.Pick(c.Rng, []int{0, 1, 1, 2, 2, 3}), Untyped: true, Formats: true}
				doc := model.GenSchema(c.Rng, o)
				features(c, doc)
				untypedCase(c, doc)
			})
			r.Cases("mixed", r.N(4000, 150000), func(c *core.Case) {
				o := model.SOpts{Depth: core.Pick(c.Rng, []int{1, 2, 2, 3}), Mixed: true, Formats: true}
				doc := model.GenSchema(c.Rng, o)
				features(c, doc)
				untypedCase(c, doc)
			})
			r.Cases("one-keyword", len(impliedTable)*r.N(25, 500), func(c *core.Case) {
				doc := decodeM(impliedTable[c.Idx%len(impliedTable)])
				if c.Rng.P(1, 3) {
					wrap := model.M{"type": "object", "additionalProperties": model.M{}, "properties": model.M{"x": doc}}
					if c.Rng.P(1, 2) {
						wrap = model.M{"items": doc}
					}
					doc = wrap
				}
				untypedCase(c, doc)
			})
			r.Cases("two-keywords", r.N(3000, 100000), func(c *core.Case) {
				a := decodeM(core.Pick(c.Rng, impliedTable))
				for k, v := range decodeM(core.Pick(c.Rng, impliedTable)) {
					if _, dup := a[k]; !dup {
						a[k] = v
					}
				}
				model.Settle(a)
				untypedCase(c, a)
			})
		},
	})
}

// oneOfEach are instances of every kind.
func oneOfEach(r *core.Rng) []interface{} {
	return []interface{}{nil, true, false, 0.0, float64(r.Range(-9, 9)), float64(r.Range(-9, 9)) + 0.5, "", model.GenString(r), []interface{}{}, []interface{}{1.0, "a"}, model.M{}, model.M{"a": 1.0, "foo": "x"}}
}

func untypedCase(c *core.Case, doc model.M) {
	if !schemaCase(c, doc, 10, false) {
		return
	}
	d := model.ReadDoc(doc)
	text := model.Encode(c.Rng, doc)
	s, ok := readSchema(c, text)
	if !ok {
		return
	}
	v, err, ok := build(c, s, nil, false, text)
	if !ok {
		return
	}
	if err != nil {
		c.Violate("build failed", "building failed: %v\nschema: %s", err, text)
		return
	}
	for _, x := range oneOfEach(c.Rng) {
		want := model.Eval(d.Spec, x, d.Env)
		if !expect(c, v, model.Copy(x), want, func() string { return fmt.Sprintf("schema: %s\ninstance: %s", text, model.JSON(x)) }) {
			return
		}
		c.Eval(key(text, model.JSON(x)))
	}
}

// every keyword on its own, with its type
var keywordTable = []string{
	`{"type":"number","minimum":2.5}`, `{"type":"number","maximum":2.5}`, `{"type":"number","minimum":2,"exclusiveMinimum":true}`, `{"type":"number","maximum":2,"exclusiveMaximum":true}`,
	`{"type":"number","minimum":2,"exclusiveMinimum":false}`, `{"type":"number","maximum":2,"exclusiveMaximum":false}`, `{"type":"number","minimum":0,"exclusiveMinimum":true}`, `{"type":"number","maximum":0}`,
	`{"type":"number","multipleOf":0.5}`, `{"type":"number","multipleOf":3}`, `{"type":"number","enum":[1,2.5,-3]}`, `{"type":"number","enum":[0]}`,
	`{"type":"integer","minimum":2}`, `{"type":"integer","maximum":2}`, `{"type":"integer","minimum":2,"exclusiveMinimum":true}`, `{"type":"integer","maximum":2,"exclusiveMaximum":true}`,
	`{"type":"integer","multipleOf":3}`, `{"type":"integer","multipleOf":2.5}`, `{"type":"integer","enum":[1,2,3]}`, `{"type":"integer"}`, `{"type":"number"}`, `{"type":["integer","number"]}`, `{"type":["integer","number"],"minimum":1}`,
	`{"type":"string","minLength":3}`, `{"type":"string","maxLength":3}`, `{"type":"string","minLength":0}`, `{"type":"string","maxLength":0}`, `{"type":"string","pattern":""}`, `{"type":"string","pattern":"^a.c$"}`, `{"type":"string","enum":["a","b",""]}`,
	`{"type":"string","format":"email"}`, `{"type":"string","format":"date-time"}`, `{"type":"string","format":"hostname"}`, `{"type":"string","format":"ipv4"}`, `{"type":"string","format":"ipv6"}`, `{"type":"string","format":"uri"}`, `{"type":"string","format":"made-up"}`,
	`{"type":"boolean"}`, `{"type":"boolean","enum":[true]}`, `{"type":"boolean","enum":[false,1]}`, `{"type":"null"}`, `{"type":["null","string"]}`, `{"type":["boolean","array"]}`,
	`{"type":"array","minItems":2}`, `{"type":"array","maxItems":2}`, `{"type":"array","maxItems":0}`, `{"type":"array","uniqueItems":true}`, `{"type":"array","uniqueItems":false}`, `{"type":"array","items":{"type":"integer"}}`,
	`{"type":"array","items":[{"type":"integer"},{"type":"string"}]}`, `{"type":"array","items":[{"type":"integer"}],"additionalItems":false}`, `{"type":"array","items":[{"type":"integer"}],"additionalItems":true}`, `{"type":"array","items":[{"type":"integer"}],"additionalItems":{"type":"string"}}`, `{"type":"array","items":[{}],"additionalItems":{}}`,
	`{"type":"array","additionalItems":false}`, `{"type":"array","items":{"type":"integer"},"additionalItems":false}`, `{"type":"array","enum":[[],[1]]}`,
	`{"type":"object","minProperties":2}`, `{"type":"object","maxProperties":2}`, `{"type":"object","maxProperties":0}`, `{"type":"object","required":["a"]}`, `{"type":"object","required":["a","b"],"properties":{"a":{}}}`,
	`{"type":"object","properties":{"a":{"type":"string"},"b":{"type":"integer"}}}`, `{"type":"object","properties":{"a":{"type":"string"}},"additionalProperties":false}`, `{"type":"object","properties":{"a":{"type":"string"}},"additionalProperties":true}`, `{"type":"object","properties":{"a":{"type":"string"}},"additionalProperties":{"type":"integer"}}`,
	`{"type":"object","additionalProperties":false}`, `{"type":"object","additionalProperties":{}}`, `{"type":"object","patternProperties":{"^a":{"type":"string"}}}`, `{"type":"object","patternProperties":{"^a":{"type":"string"}},"additionalProperties":false}`, `{"type":"object","patternProperties":{"^a":{"type":"string"},"b$":{"minLength":2,"type":"string"}},"additionalProperties":{"type":"null"}}`,
	`{"type":"object","dependencies":{"a":["b"]}}`, `{"type":"object","dependencies":{"a":["b","c"],"b":["c"]}}`, `{"type":"object","dependencies":{"a":{"type":"object","required":["b"]}}}`, `{"type":"object","dependencies":{"a":{"type":"object","properties":{"b":{"type":"integer"}}}}}`, `{"type":"object","enum":[{},{"a":1}]}`,
	`{"allOf":[{"type":"string","minLength":2},{"type":"string","maxLength":4}]}`, `{"anyOf":[{"type":"string"},{"type":"integer","minimum":3}]}`, `{"oneOf":[{"type":"number"},{"type":"integer"}]}`, `{"oneOf":[{"type":"string","minLength":2},{"type":"string","maxLength":4}]}`, `{"not":{"type":"string"}}`, `{"not":{}}`, `{"allOf":[{}]}`, `{"anyOf":[{"type":"null"}]}`, `{"oneOf":[{"type":"null"}]}`,
	`{"type":"string","not":{"type":"string","pattern":"^a"}}`, `{"type":"integer","anyOf":[{"type":"integer","minimum":5},{"type":"integer","maximum":-5}]}`, `{"type":"integer","allOf":[{"type":"integer","minimum":1}],"anyOf":[{"type":"integer","multipleOf":2},{"type":"integer","multipleOf":3}],"oneOf":[{"type":"integer","maximum":20},{"type":"integer","minimum":10}],"not":{"type":"integer","enum":[6]}}`,
	`{}`, `{"enum":[1,"a",null,true,[1],{"a":1}]}`,
}

var impliedTable = []string{
	`{"properties":{"a":{"type":"string"}}}`, `{"patternProperties":{"^a":{"type":"string"}}}`, `{"additionalProperties":false}`, `{"additionalProperties":{"type":"integer"}}`, `{"additionalProperties":true}`, `{"additionalProperties":{}}`,
	`{"required":["a"]}`, `{"minProperties":1}`, `{"maxProperties":1}`, `{"minProperties":0}`, `{"maxProperties":0}`, `{"required":["a","b"]}`, `{"required":[""]}`, `{"properties":{"":{}}}`, `{"properties":{"a":{}}}`, `{"patternProperties":{"":{"type":"string"}}}`, `{"patternProperties":{"^a":{}}}`, `{"dependencies":{"a":{}}}`, `{"dependencies":{"":["b"]}}`, `{"dependencies":{"a":["b"]}}`, `{"dependencies":{"a":{"required":["b"]}}}`,
	`{"items":{"type":"integer"}}`, `{"items":{}}`, `{"items":[{"type":"integer"}]}`, `{"additionalItems":false}`, `{"additionalItems":true}`, `{"additionalItems":{"type":"string"}}`, `{"minItems":1}`, `{"maxItems":1}`, `{"minItems":0}`, `{"maxItems":0}`, `{"items":[{}]}`, `{"uniqueItems":true}`, `{"uniqueItems":false}`, `{"items":[{"type":"integer"}],"additionalItems":false}`,
	`{"minLength":1}`, `{"maxLength":1}`, `{"minLength":0}`, `{"maxLength":0}`, `{"pattern":""}`, `{"pattern":".*"}`, `{"pattern":"^a"}`, `{"format":"email"}`, `{"format":"date-time"}`, `{"format":"hostname"}`, `{"format":"ipv4"}`, `{"format":"ipv6"}`, `{"format":"uri"}`, `{"format":"made-up"}`,
	`{"multipleOf":2}`, `{"multipleOf":1}`, `{"multipleOf":0.5}`, `{"minimum":1}`, `{"minimum":0.5}`, `{"maximum":1}`, `{"maximum":0.5}`, `{"minimum":0}`, `{"maximum":0}`, `{"minimum":1,"exclusiveMinimum":true}`, `{"maximum":1.5,"exclusiveMaximum":true}`, `{"minimum":-3,"maximum":3}`, `{"minimum":-3.5,"maximum":3.5}`, `{"minimum":-4,"multipleOf":2}`,
	`{"enum":["a","b"]}`, `{"enum":[1,2]}`, `{"enum":[1.5]}`, `{"enum":[true]}`, `{"enum":[null]}`, `{"enum":[[1],[]]}`, `{"enum":[{"a":1},{}]}`, `{"enum":[null,"a",1,false]}`, `{"enum":[0,false,"",null,[],{}]}`,
	`{"allOf":[{"minLength":1}]}`, `{"anyOf":[{"minLength":2},{"minimum":3}]}`, `{"oneOf":[{"minLength":2},{"maxLength":3}]}`, `{"not":{"minLength":1}}`, `{"title":"t","description":"d"}`, `{"definitions":{"a":{"minLength":1}}}`, `{"default":"x"}`, `{}`,
}

// addUnused adds definitions nobody refers to, some of them broken.
func addUnused(r *core.Rng, doc model.M) {
	defs, _ := doc["definitions"].(model.M)
	if defs == nil || r.P(1, 2) {
		return
	}
	for i := r.Range(1, 3); i > 0; i-- {
		defs[fmt.Sprintf("unused%d", i)] = core.Pick(r, []model.M{
			{"type": "string"},
			{"$ref": "#/definitions/nowhere"},
			{"type": "object", "properties": model.M{"a": model.M{"$ref": "#/nowhere"}}},
			{"$ref": "#/title"},
			{"allOf": []interface{}{model.M{"$ref": "#/definitions/nowhere/else"}}},
			{"$ref": fmt.Sprintf("#/definitions/unused%d", i)},
			{"type": "array", "items": model.M{"$ref": fmt.Sprintf("#/definitions/unused%d", i)}},
		})
	}
}

// sharedObjects: could one object be judged by two object constraints with
// defaults (a pattern matching beside another one)? References make the
// element schemas of patternProperties objects.
func sharedObjects(doc model.M) bool {
	for _, p := range model.Positions(doc) {
		m, _ := p.S["patternProperties"].(model.M)
		if len(m) > 0 && model.HasRef(m) {
			return true
		}
	}
	return false
}

// recursiveDoc makes documents with deep recursion: trees, lists, mutual
// recursion, recursion through the document itself.
func recursiveDoc(r *core.Rng) model.M {
	leaf := model.GenSchema(r, model.SOpts{Depth: 0, SafeName: true})
	ref := func(s string) model.M { return model.M{"$ref": s} }
	opt := func(s model.M) model.M {
		return model.M{"anyOf": []interface{}{model.M{"type": "null"}, s}}
	}
	switch r.Intn(6) {
	case 0:
		return model.M{"type": "object", "required": []interface{}{"v"}, "additionalProperties": false, "properties": model.M{"v": leaf, "next": ref("#")}}
	case 1:
		return model.M{"definitions": model.M{"tree": model.M{"type": "object", "properties": model.M{"v": leaf, "kids": model.M{"type": "array", "items": ref("#/definitions/tree")}}, "additionalProperties": false}}, "$ref": "#/definitions/tree"}
	case 2:
		return model.M{"definitions": model.M{
			"even": model.M{"type": "object", "properties": model.M{"o": ref("#/definitions/odd"), "v": leaf}, "additionalProperties": false},
			"odd":  model.M{"type": "object", "properties": model.M{"e": ref("#/definitions/even")}, "required": []interface{}{"e"}},
		}, "type": "array", "items": ref("#/definitions/even")}
	case 3:
		return model.M{"definitions": model.M{"l": model.M{"type": "array", "items": opt(ref("#/definitions/l")), "maxItems": 3.0}}, "type": "object", "additionalProperties": ref("#/definitions/l")}
	case 4:
		return model.M{"type": "object", "properties": model.M{"a": leaf, "b": model.M{"type": "array", "items": []interface{}{ref("#/properties/a"), ref("#")}, "additionalItems": ref("#/properties/b")}}, "patternProperties": model.M{"^x": ref("#/properties/b")}}
	}
	return model.M{"definitions": model.M{
		"expr": model.M{"oneOf": []interface{}{model.M{"type": "number"}, model.M{"type": "string", "pattern": "^[a-z]+$"}, ref("#/definitions/op")}},
		"op":   model.M{"type": "object", "required": []interface{}{"l"}, "properties": model.M{"l": ref("#/definitions/expr"), "r": ref("#/definitions/expr")}, "additionalProperties": false},
	}, "allOf": []interface{}{ref("#/definitions/expr")}}
}

// badRefCase: a live reference is made dangling, or to lead to something
// that is no schema.
func badRefCase(c *core.Case) {
	r := c.Rng
	doc := model.GenRefDoc(r, model.SOpts{Depth: core.Pick(r, []int{1, 2, 2})}, r.P(1, 2))
	doc["title"] = "a title"
	doc["x-list"] = []interface{}{"a"}
	doc["x-num"] = 3.0
	ps := model.Positions(doc)
	var refs []model.Pos
	for _, p := range ps {
		if _, ok := p.S["$ref"]; ok {
			refs = append(refs, p)
		}
	}
	if len(refs) == 0 {
		return
	}
	p := core.Pick(r, refs)
	old := p.S["$ref"]
	bad := core.Pick(r, []string{"#/nowhere", "#/definitions/nowhere", "#/definitions/nowhere/properties/a", "#/title", "#/definitions/a/nowhere", "#/properties/nowhere", "#/title/a", fmt.Sprint(old) + "/nowhere",
		"%zz" + fmt.Sprint(old)})
	p.S["$ref"] = bad
	if t, ok := model.Lookup(doc, bad); ok {
		if _, isobj := t.(model.M); isobj {
			return
		}
	}
	if !model.WellFounded(doc) {
		return
	}
	if d := model.ReadDoc(doc); len(d.Bad) == 0 {
		c.Count("bad_reference_unreachable", 1)
		return // not reachable
	}
	if r.P(1, 4) {
		badTarget(c, doc, p.S)
		return
	}
	schemaCase(c, doc, 0, false)
}

// badTargets are objects which are not schemas.
var badTargets = []string{`{"type":5}`, `{"type":"nonsense"}`, `{"type":["string",5]}`, `{"minimum":"x"}`, `{"maximum":[]}`, `{"pattern":5}`,
	`{"pattern":"("}`, `{"enum":5}`, `{"required":[5]}`, `{"items":5}`, `{"items":[5]}`, `{"properties":[]}`, `{"properties":{"a":5}}`,
	`{"uniqueItems":"yes"}`, `{"anyOf":5}`, `{"oneOf":"x"}`, `{"not":5}`, `{"not":[]}`, `{"dependencies":5}`, `{"patternProperties":{"(":{}}}`,
	`{"additionalProperties":5}`, `{"format":5}`, `{"multipleOf":"x"}`, `{"maxProperties":"2"}`, `{"type":"object","properties":{"a":{"type":5}}}`}

// badTarget: the (reachable) reference at is made to lead to an object that
// is no schema, outside what the schema reader looks at.
func badTarget(c *core.Case, doc, at model.M) {
	r := c.Rng
	doc["x-bad"] = decodeM(core.Pick(r, badTargets))
	at["$ref"] = "#/x-bad"
	text := model.Encode(r, doc)
	s, ok := readSchema(c, text)
	if !ok {
		return
	}
	_, err, ok := build(c, s, decodeM(text), true, text)
	if !ok {
		return
	}
	if err == nil {
		c.Violate("reference to something else than a schema accepted", "building must fail, #/x-bad is not a schema\nschema: %s", text)
		return
	}
	c.Count("bad_targets_refused", 1)
	c.Eval(key("badtarget", text))
}

// loopCase: chains of references that lead back to themselves must not give
// a validator that never returns: building fails.
func loopCase(c *core.Case) {
	r := c.Rng
	n := r.Range(1, 6)
	defs := model.M{}
	for i := 0; i < n; i++ {
		defs[fmt.Sprintf("d%d", i)] = model.M{"$ref": fmt.Sprintf("#/definitions/d%d", (i+1)%n)}
	}
	tail := r.Range(0, 3)
	for i := 0; i < tail; i++ {
		to := fmt.Sprintf("#/definitions/t%d", i+1)
		if i == tail-1 {
			to = fmt.Sprintf("#/definitions/d%d", r.Intn(n))
		}
		defs[fmt.Sprintf("t%d", i)] = model.M{"$ref": to}
	}
	entry := "#/definitions/d0"
	if tail > 0 {
		entry = "#/definitions/t0"
	}
	doc := model.M{"definitions": defs}
	ref := model.M{"$ref": entry}
	switch r.Intn(7) {
	case 0:
		doc["$ref"] = entry
	case 5: // through the document itself
		doc["$ref"] = "#/definitions/d0"
		defs[fmt.Sprintf("d%d", n-1)] = model.M{"$ref": "#"}
	case 6: // the document alone
		if r.P(1, 2) {
			doc = model.M{}
		}
		doc["$ref"] = "#"
	case 1:
		doc["type"], doc["properties"] = "object", model.M{"a": ref}
	case 2:
		doc["type"], doc["items"] = "array", ref
	case 3:
		doc["not"] = ref
	case 4:
		doc["anyOf"] = []interface{}{model.M{"type": "string"}, ref}
	}
	text := model.Encode(r, doc)
	for _, withCtx := range []bool{false, true} {
		s, ok := readSchema(c, text)
		if !ok {
			return
		}
		_, err, ok := build(c, s, decodeM(text), withCtx, text)
		if !ok {
			return
		}
		if err == nil {
			c.Violate("reference loop accepted", "building must fail, the references lead back to themselves\nraw context: %v\nschema: %s", withCtx, text)
			return
		}
		c.Count("loops_refused", 1)
	}
	c.Eval(key("loop", text))
}

// unknownTypeCase: a schema made in Go can state a type that does not exist,
// anywhere in it. What cannot be built is refused: no validator that leaves
// the rule out.
func unknownTypeCase(c *core.Case) {
	r := c.Rng
	const mark = "the one at fault"
	doc := model.M{"type": core.Pick(r, []string{"string", "integer", "null", "object"}), "title": mark}
	var defs model.M
	route := ""
	for i := r.Range(0, 4); i > 0; i-- {
		in := doc
		side := func() interface{} { return model.GenSchema(r, model.SOpts{SafeName: true}) }
		list := func() []interface{} {
			l := []interface{}{in}
			for r.P(1, 2) && len(l) < 4 {
				l = append(l, side())
			}
			i := r.Intn(len(l))
			l[0], l[i] = l[i], l[0]
			return l
		}
		w := r.Intn(12)
		k := [...]string{"properties", "patternProperties", "additionalProperties", "dependencies", "items", "tuple", "additionalItems", "not", "allOf", "anyOf", "oneOf", "$ref"}[w]
		switch k {
		case "properties", "patternProperties", "dependencies":
			m := model.M{"x": in}
			for _, n := range []string{"a", "b"} {
				if r.P(1, 3) {
					m[n] = side()
				}
			}
			doc = model.M{"type": "object", k: m}
		case "additionalProperties":
			doc = model.M{"type": "object", k: in}
		case "items":
			doc = model.M{"type": "array", k: in}
		case "tuple":
			doc = model.M{"type": "array", "items": list()}
		case "additionalItems":
			doc = model.M{"type": "array", "items": []interface{}{side()}, k: in}
		case "not":
			doc = model.M{k: in}
		case "$ref":
			if defs != nil {
				continue
			}
			defs = model.M{"d": in}
			doc = model.M{"type": "object", "properties": model.M{"p": model.M{"$ref": "#/definitions/d"}}}
		default:
			doc = model.M{k: list()}
		}
		if t := doc["type"]; t != nil && r.P(1, 4) {
			doc["type"] = []interface{}{t, "null"}
		} else if t != nil && k != "$ref" && r.P(1, 4) {
			delete(doc, "type") // implied
		}
		route = k + ">" + route
	}
	if defs != nil {
		doc["definitions"] = defs
	}
	text := model.Encode(r, doc)
	if r.P(1, 20) {
		v, err, ok := build(c, nil, nil, r.P(1, 2), text)
		if ok && (err == nil || v != nil) {
			c.Violate("nil schema accepted", "building a nil schema must fail and give no validator, error: %v", err)
		}
		c.Count("nil_schemas_refused", 1)
	}
	for _, bad := range []bool{false, true} {
		s, ok := readSchema(c, text)
		if !ok {
			return
		}
		if bad {
			at := findTitle(s, mark)
			if at == nil {
				c.R.Fail("marked schema not found in %s", text)
				return
			}
			t := schema.PrimitiveType(core.Pick(r, []int{0, 8, 9, 77, -1, 1 << 20}))
			switch r.Intn(3) {
			case 0:
				at.Type = schema.PrimitiveTypes{t}
			case 1:
				at.Type = append(at.Type, t)
			default:
				at.Type = append(schema.PrimitiveTypes{t}, at.Type...)
			}
		}
		v, err, ok := build(c, s, s, r.P(1, 2), text)
		if !ok {
			return
		}
		if !bad && err != nil {
			c.Violate("schema refused", "a schema without fault cannot be built: %v\nschema: %s", err, text)
			return
		}
		if bad && (err == nil || v != nil) {
			c.Violate("unknown type accepted", "the schema entitled %q states a type that does not exist (%s), building must fail and give no validator\nerror: %v\nschema: %s", mark, route, err, text)
			return
		}
		if bad {
			c.Count("unknown_types_refused", 1)
		}
	}
	c.Eval(key("refused", text))
}

// findTitle finds the schema with this title.
func findTitle(s *schema.Schema, title string) *schema.Schema {
	if s == nil {
		return nil
	}
	if s.Title == title {
		return s
	}
	var l []*schema.Schema
	l = append(l, s.AllOf...)
	l = append(l, s.AnyOf...)
	l = append(l, s.OneOf...)
	l = append(l, s.Not)
	if s.Items != nil {
		l = append(l, s.Items.Schemas...)
	}
	if s.AdditionalItems != nil {
		l = append(l, s.AdditionalItems.Schema)
	}
	if s.AdditionalProperties != nil {
		l = append(l, s.AdditionalProperties.Schema)
	}
	for _, m := range []map[string]*schema.Schema{s.Properties, s.Definitions, s.Dependencies.Schemas} {
		for _, x := range m {
			l = append(l, x)
		}
	}
	for _, x := range s.PatternProperties {
		l = append(l, x)
	}
	for _, x := range l {
		if f := findTitle(x, title); f != nil {
			return f
		}
	}
	return nil
}
