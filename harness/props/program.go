package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"

	schema "github.com/lestrrat-go/jsschema"

	"verif/core"
	"verif/model"
)

// program is a set of validators that are generated into one file.
type program struct {
	vs    []*jsval.JSVal
	names []string // the names the generated variables must have
	refs  []string // registered reference names
	value []func(r *core.Rng) interface{}
	desc  string
	mode  string
}

func (p *program) generate() (string, error) {
	var buf bytes.Buffer
	err := jsval.NewGenerator().Process(&buf, p.vs...)
	return buf.String(), err
}

var goNames = []string{"Foo", "FooValidator", "v", "x1", "HTTPValidator", "Zed", "a_b", "Äpfel", "V", "Validator99"}

// typedNums turns some numbers of a hand-built spec into other Go types.
func typedNums(r *core.Rng, s *model.Spec) {
	conv := func(v interface{}) interface{} {
		f, ok := v.(float64)
		if !ok || r.P(1, 3) {
			return v
		}
		switch r.Intn(8) {
		case 0:
			return int(clampf(f, -1e9, 1e9))
		case 1:
			return int8(clampf(f, -128, 127))
		case 2:
			return int64(clampf(f, -1e15, 1e15))
		case 3:
			return uint16(clampf(f, 0, 65535))
		case 4:
			return uint64(clampf(f, 0, 1e15))
		case 5:
			return float32(clampf(f, -1e6, 1e6))
		case 6:
			return int32(clampf(f, -1e6, 1e6))
		}
		return v
	}
	model.Walk(s, func(s *model.Spec) {
		switch s.Kind {
		case model.Number, model.Integer:
			if s.HasDef {
				s.Def = conv(s.Def)
			}
			for i := range s.Enum {
				s.Enum[i] = conv(s.Enum[i])
			}
		}
	})
}

func clampf(f, lo, hi float64) float64 {
	if f < lo {
		return lo
	}
	if f > hi {
		return hi
	}
	return f
}

// mkProgram is deterministic in r.
func mkProgram(r *core.Rng) (*program, error) {
	p := &program{}
	var sb strings.Builder
	addSchema := func(doc model.M) error {
		text := model.Encode(r, doc)
		s, err := schema.Read(strings.NewReader(text))
		if err != nil {
			return err
		}
		v, err := builder.New().BuildWithCtx(s, decodeM(text))
		if err != nil {
			return fmt.Errorf("%v\n%s", err, text)
		}
		d := model.ReadDoc(doc)
		for n := range d.Env {
			p.refs = append(p.refs, n)
		}
		p.vs = append(p.vs, v)
		p.value = append(p.value, func(r *core.Rng) interface{} { return model.GenValue(r, d.Spec, d.Env, 4) })
		fmt.Fprintf(&sb, "schema %s\n", text)
		return nil
	}
	addSpec := func(v *jsval.JSVal, b *model.Builder, s *model.Spec, env model.Env) {
		v.SetRoot(b.Build(s))
		p.vs = append(p.vs, v)
		p.value = append(p.value, func(r *core.Rng) interface{} { return model.GenValue(r, s, env, 3) })
		fmt.Fprintf(&sb, "constraint %s\n", s)
	}
	var err error
	switch r.Intn(9) {
	case 0, 1:
		p.mode = "schema"
		err = addSchema(model.GenSchema(r, model.SOpts{Depth: r.Range(1, 3), Formats: true, Stray: true, Mixed: r.P(1, 3)}))
	case 2:
		p.mode = "schema with references"
		err = addSchema(model.GenRefDoc(r, model.SOpts{Depth: r.Range(1, 2)}, false))
	case 3:
		p.mode = "schema with defaults"
		if r.Bool() {
			err = addSchema(model.GenSchema(r, model.SOpts{Depth: r.Range(1, 3), Defaults: true}))
		} else {
			err = addSchema(model.GenRefDoc(r, model.SOpts{Depth: r.Range(1, 2), Defaults: true}, false))
		}
	case 4:
		p.mode = "several schemas"
		withRefs := r.Intn(3)
		for i := 0; i < 3 && err == nil; i++ {
			if i == withRefs {
				err = addSchema(model.GenRefDoc(r, model.SOpts{Depth: 1}, false))
			} else {
				err = addSchema(model.GenSchema(r, model.SOpts{Depth: 1, Formats: true}))
			}
		}
	case 5, 6:
		p.mode = "constraints"
		for i := r.Range(1, 3); i > 0; i-- {
			s := model.GenSpec(r, model.GenOpts{Depth: r.Range(1, 3), Formats: true, Defaults: r.P(1, 3)})
			if r.P(1, 2) {
				s = model.GenKind(r, core.Pick(r, []model.Kind{model.Object, model.Array, model.String, model.Number, model.Integer}), model.GenOpts{Depth: 1, Formats: true, Defaults: r.P(1, 3)})
			}
			typedNums(r, s)
			restore := func() {}
			if r.P(1, 6) {
				restore = enlarge(r, s)
			}
			addSpec(jsval.New(), &model.Builder{Rng: r}, s, nil)
			restore() // values are made as if it were small
		}
	default:
		p.mode = "constraints with references"
		names := pickRefNames(r, r.Range(1, 4))
		def := r.P(1, 3)
		env := model.GenEnv(r, names, model.GenOpts{Depth: r.Range(1, 2), Defaults: def})
		for _, n := range names {
			typedNums(r, env[n])
		}
		cm := &jsval.ConstraintMap{}
		p.refs = append(p.refs, names...)
		b := &model.Builder{Rng: r, Resolver: cm}
		cs := map[string]jsval.Constraint{}
		for _, n := range names {
			cs[n] = b.Build(env[n])
			cm.SetReference(n, cs[n])
		}
		for i := r.Range(1, 3); i > 0; i-- {
			v := jsval.New().SetConstraintMap(cm)
			if r.P(1, 3) { // the root is itself a registered constraint
				n := core.Pick(r, names)
				v.SetRoot(cs[n])
				p.vs = append(p.vs, v)
				p.value = append(p.value, func(r *core.Rng) interface{} { return model.GenValue(r, env[n], env, 3) })
				fmt.Fprintf(&sb, "root is %q\n", n)
				continue
			}
			s := model.GenSpec(r, model.GenOpts{Depth: 2, Refs: names, FlatRefs: names, Defaults: def})
			typedNums(r, s)
			addSpec(v, b, s, env)
		}
		fmt.Fprintf(&sb, "references %s\n", model.DescribeEnv(env))
	}
	if err != nil {
		return nil, err
	}
	used := map[string]bool{}
	for i, v := range p.vs {
		n := fmt.Sprintf("V%d", i)
		if r.P(1, 3) {
			k := core.Pick(r, goNames)
			if !used[k] {
				used[k] = true
				n = k
				if r.Bool() {
					v.SetName(n)
				} else {
					v.Name = n
				}
			}
		}
		p.names = append(p.names, n)
	}
	p.desc = p.mode + "\n" + sb.String()
	return p, nil
}

// enlarge replaces counts of s by large ones, until restore is called.
func enlarge(r *core.Rng, s *model.Spec) (restore func()) {
	var undo []func()
	big := []int{1<<15 + 2, 1 << 16, 1<<16 + 3, 1<<31 - 1, 1 << 31, 1<<32 + 1, 1<<32 + 3, 1 << 40, 1<<53 + 1, 1<<62 + 1, 1<<63 - 1}
	model.Walk(s, func(k *model.Spec) {
		set := func(p **int) {
			if r.P(1, 4) {
				old := *p
				undo = append(undo, func() { *p = old })
				*p = model.IP(core.Pick(r, big))
			}
		}
		switch k.Kind {
		case model.String:
			set(&k.MaxLen)
			set(&k.MinLen)
		case model.Array:
			set(&k.MaxItems)
			set(&k.MinItems)
		case model.Object:
			set(&k.MaxProps)
			set(&k.MinProps)
		}
	})
	return func() {
		for i := len(undo) - 1; i >= 0; i-- {
			undo[i]()
		}
	}
}
