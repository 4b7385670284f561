package model

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"

	"verif/core"
)

// Patterns used for strings and property names, with strings that match.
type Pat struct {
	Re    string
	Match []string
}

var Pats = []Pat{
	{"^a", []string{"a", "abc", "a-b", "aé"}},
	{"b$", []string{"b", "ab", "zb"}},
	{"^[0-9]+$", []string{"0", "42", "0123456789"}},
	{"^x-", []string{"x-", "x-foo"}},
	{"o", []string{"foo", "o", "boo", "日o"}},
	{"^$", []string{""}},
	{"名", []string{"名", "名前", "x名"}},
	{"^.{3}$", []string{"abc", "日本語", "foo", "bar"}},
	{"(?i)^foo$", []string{"foo", "FOO", "Foo"}},
	{"%", []string{"%", "100%", "%d%s"}},
	{`\.`, []string{".", "a.b"}},
	{"^[a-z]+$", []string{"a", "foo", "zzz"}},
	{`"`, []string{`"`, `say "hi"`}},
	{"`", []string{"`", "a`b"}},
	{`\\`, []string{`\`, `a\b`}},
	{`^\d{5}$`, []string{"12345", "00000"}},
	{"^(ab|cd)+$", []string{"ab", "cdab"}},
	{`\s`, []string{" ", "a b", "a\tb"}},
	{"^(a|b)$", []string{"a", "b"}},
	{".*", []string{"", "x", "anything"}},
	{"#", []string{"#", "name#ja"}},
	{`^\p{Lu}`, []string{"A", "Éa"}},
	{"^a\rb$", []string{"a\rb"}},
	{"^a\nb$", []string{"a\nb"}},
	{"^\t\\t$", []string{"\t\t"}},
	{"a\x00", []string{"a\x00", "xa\x00b"}},
	{"^`\"\\\\\r`$", []string{"`\"\\\r`"}},
	{"\ufeff", []string{"\ufeff", "a\ufeffb"}},
	{"\u2028|\x7f", []string{"\u2028", "\x7f"}},
	{"^[^\r]*$", []string{"ab", ""}},
	{"^a  b$", []string{"a  b"}},
	{"^\t\t| ,\\n", []string{"\t\t", " ,\n"}},
	{"(?s)^.\\.\n", []string{"x.\n"}},
}

// Names are property names, ordinary and awkward ones.
var Names = []string{"a", "b", "c", "d", "e", "f", "foo", "bar", "baz", "name", "x-foo", "x-", "", "名前", "a.b", "name#ja", "100%", "%d%s", `say "hi"`, `a\b`, "a b", "A", "Foo", "FOO", "0", "42", "12345", "-", "id", "type", "$ref", "properties", "new\nline", "a`b", "zzz", "ab", "cdab", "é", "e\u0301", "\U0001F600", "a\rb", "\x00", "\ufeff", "\u2028\u2029", "a\tb\r\n", "\x7f", "\u0085", "`", "\\", "${a}", "/*", "*/", "//", "a  b", "  ", " a ", "a\n\nb", "\t\t", ", ", ").", ",\n)", ".\n", "\\n", "\\u0041", "jsval.", "a,b", "(", "{}", "\x1b[0m"}

func GenName(r *core.Rng) string {
	if r.P(3, 4) {
		return Names[r.Intn(10)]
	}
	return core.Pick(r, Names)
}

var runePool = []rune("abcdefgxyzABC0123456789 _-.,%\"\\`'#$/<>&\n\té日本語名😀\u0301\u200b\u2028ñü\r\x00\ufeff\x7f")

func GenString(r *core.Rng) string {
	switch r.Intn(8) {
	case 0:
		return core.Pick(r, Names)
	case 1:
		return core.Pick(r, core.Pick(r, Pats).Match)
	case 2:
		return ""
	case 3:
		return randStr(r, core.Pick(r, []int{1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 100, 255, 256, 300}))
	}
	return randStr(r, r.Intn(8))
}

func randStr(r *core.Rng, n int) string {
	b := make([]rune, n)
	mode := r.Intn(4)
	for i := range b {
		switch mode {
		case 0:
			b[i] = rune('a' + r.Intn(4))
		case 1:
			b[i] = []rune("é日😀a")[r.Intn(4)]
		default:
			b[i] = runePool[r.Intn(len(runePool))]
		}
	}
	return string(b)
}

var numPool = []float64{0, 1, -1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 20, 24, 30, 60, 99, 100, 101, 127, 128, 255, 256, 1000, 1e6, 0.5, -0.5, 1.5, 2.5, 0.1, 0.2, 0.3, -0.1, 0.25, 1e-9, 3.141592653589793, 1e15, 9007199254740992, 9007199254740993, -9007199254740993, 1e21, -1e21, 1e300, 4294967296, -4294967297, 2147483647, 2147483648, -2147483648, -2147483649, 9223372036854775807, -9223372036854775808, 18446744073709551615, 1.0000001, 0.000001, 0.0000001, 123456.789, 5e-324}

func GenNum(r *core.Rng) float64 {
	if r.P(2, 3) {
		return core.Pick(r, numPool)
	}
	switch r.Intn(3) {
	case 0:
		return float64(r.Range(-20, 20))
	case 1:
		return float64(r.Range(-2000, 2000)) / 8
	}
	return (r.Float() - 0.5) * math.Pow(10, float64(r.Range(-3, 12)))
}

// GenJSON makes an arbitrary JSON value.
func GenJSON(r *core.Rng, depth int) interface{} {
	if depth > 0 && r.P(1, 12) {
		return Copy(core.Pick(r, core.Pick(r, alikes)))
	}
	n := 6
	if depth <= 0 {
		n = 4
	}
	switch r.Intn(n) {
	case 0:
		return nil
	case 1:
		return r.Bool()
	case 2:
		return GenNum(r)
	case 3:
		return GenString(r)
	case 4:
		l := make([]interface{}, r.Intn(4))
		for i := range l {
			l[i] = GenJSON(r, depth-1)
		}
		return l
	}
	m := map[string]interface{}{}
	for i := r.Intn(4); i > 0; i-- {
		m[GenName(r)] = GenJSON(r, depth-1)
	}
	return m
}

// alikes are families of different values that are printed or encoded nearly
// the same.
var alikes = func() (out [][]interface{}) {
	for _, t := range []string{
		`1 "1" [1] ["1"] [[1]] "[1]" true`,
		`["a b"] ["a","b"] "a b" "[a b]" ["a"," b"] ["ab"] ["a",["b"]] [["a","b"]]`,
		`true "true" [true] ["true"] 1`,
		`null "null" "<nil>" "" [null] {} [] [[]] ["null"] "map[]" "[]"`,
		`{"a":1} {"a":"1"} "map[a:1]" ["a",1] {"a":[1]} {"a":{"a":1}} {"a":1,"b":null} {"a":1.5}`,
		`{"a":null} {} {"a":{}} {"a":""} {"a":[]} {"a":false} {"a":0}`,
		`0 false "" null "0" [] {}`,
		`1000000 "1000000" "1e+06" 1000001`,
		`[1,2] [2,1] [1,2,2] [12] ["1","2"] "1,2" [[1],2] [1,[2]] {"0":1,"1":2}`,
		`"a" "A" ["a"] {"a":"a"} "a " " a" "\"a\"" "á" "a\u0301"`,
		`{"a b":1} {"a":{"b":1}} {"a":"b:1"} "map[a b:1]" {"a.b":1}`,
		`9007199254740992 9007199254740994 "9007199254740992" 9007199254740991 9.007199254740992e18`,
	} {
		d := json.NewDecoder(strings.NewReader(t))
		var l []interface{}
		for d.More() {
			var v interface{}
			if err := d.Decode(&v); err != nil {
				panic(err)
			}
			l = append(l, v)
		}
		out = append(out, l)
	}
	return out
}()

// alike finds a value that looks like v.
func alike(r *core.Rng, v interface{}) (interface{}, bool) {
	for _, k := range r.Perm(len(alikes)) {
		for _, e := range alikes[k] {
			if reflect.DeepEqual(e, v) {
				return Copy(core.Pick(r, alikes[k])), true
			}
		}
	}
	return nil, false
}

// GenOpts selects what specs are made of.
type GenOpts struct {
	Depth    int
	Kinds    []Kind   // allowed kinds; nil = all built-in ones
	Refs     []string // names that may be referenced from inside an array or object
	FlatRefs []string // names that may be referenced for the very same value
	Inside   bool     // we are inside an array or object of the root
	Defaults bool     // scalar property constraints may have defaults; combinators over objects are then avoided
	Formats  bool
	NoDeps   bool
	Wide     bool // occasionally many properties/items
	DupPats  bool // a pattern may be registered several times
}

func (o GenOpts) deeper() GenOpts {
	o.Depth--
	return o
}

// inside is deeper, for constraints that judge an element or property.
func (o GenOpts) inside() GenOpts {
	o.Depth--
	o.Inside = true
	return o
}

func (o GenOpts) refs() []string {
	if o.Inside {
		return o.Refs
	}
	return o.FlatRefs
}

func (o GenOpts) allowed(k Kind) bool {
	if k == Ref && len(o.refs()) == 0 {
		return false
	}
	if o.Defaults && (k == Any || k == OneOf || k == Not || k == All) {
		return false
	}
	if o.Kinds == nil {
		return k != Custom
	}
	for _, x := range o.Kinds {
		if x == k {
			return true
		}
	}
	return false
}

var leafKinds = []Kind{Empty, Null, Bool, String, String, Number, Integer, Integer, Enum, Ref}
var allKinds = []Kind{Empty, Null, Bool, String, String, Number, Number, Integer, Integer, Array, Array, Object, Object, Object, Enum, All, Any, OneOf, Not, Ref, Ref}

// GenSpec makes a constraint tree.
func GenSpec(r *core.Rng, o GenOpts) *Spec {
	l := allKinds
	if o.Depth <= 0 {
		l = leafKinds
	}
	for i := 0; i < 60; i++ {
		k := core.Pick(r, l)
		if o.allowed(k) {
			return GenKind(r, k, o)
		}
	}
	return &Spec{Kind: Empty}
}

func ip(i int) *int         { return &i }
func fp(f float64) *float64 { return &f }

// IP and FP make pointers.
func IP(i int) *int         { return &i }
func FP(f float64) *float64 { return &f }

// GenKind makes a spec of kind k.
func GenKind(r *core.Rng, k Kind, o GenOpts) *Spec {
	s := &Spec{Kind: k}
	switch k {
	case Bool:
		if o.Defaults && r.P(1, 2) {
			s.HasDef, s.Def = true, r.Bool()
		}
	case String:
		genStringRules(r, s, o)
		if o.Defaults && r.P(1, 2) {
			s.HasDef, s.Def = true, GenString(r)
		}
	case Number, Integer:
		GenNumberRules(r, s)
		if o.Defaults && r.P(1, 2) {
			s.HasDef, s.Def = true, GenNum(r)
		}
	case Array:
		genArrayRules(r, s, o)
	case Object:
		genObjectRules(r, s, o)
	case Enum:
		s.Enum = genEnum(r, func() interface{} { return GenJSON(r, 1) })
	case All, Any, OneOf:
		n := core.Pick(r, []int{0, 1, 1, 2, 2, 2, 3, 3, 4, 6})
		for i := 0; i < n; i++ {
			s.Children = append(s.Children, GenSpec(r, o.deeper()))
		}
		s.Reduce = r.P(1, 3)
	case Not:
		s.Children = []*Spec{GenSpec(r, o.deeper())}
	case Ref:
		s.RefName = core.Pick(r, o.refs())
	}
	return s
}

func genEnum(r *core.Rng, f func() interface{}) []interface{} {
	n := core.Pick(r, []int{1, 2, 2, 3, 4, 8})
	if r.P(1, 40) {
		n = r.Range(20, 70)
	}
	l := make([]interface{}, 0, n)
	for i := 0; i < n; i++ {
		l = append(l, f())
		if i > 0 && r.P(1, 4) {
			if x, ok := alike(r, l[r.Intn(i)]); ok {
				l[i] = x
			}
		}
	}
	return l
}

func genStringRules(r *core.Rng, s *Spec, o GenOpts) {
	if r.P(1, 4) {
		return
	}
	if r.P(1, 3) {
		s.MinLen = ip(core.Pick(r, []int{0, 1, 2, 3, 4, 5, 8, 16, 64, 255}))
	}
	if r.P(1, 3) {
		s.MaxLen = ip(core.Pick(r, []int{0, 1, 2, 3, 4, 5, 8, 10, 16, 32, 64, 255, 256}))
	}
	if r.P(1, 4) {
		s.Pattern = core.Pick(r, Pats).Re
	}
	if r.P(1, 6) {
		s.Enum = genEnum(r, func() interface{} {
			if r.P(1, 10) {
				return GenJSON(r, 0)
			}
			return GenString(r)
		})
	}
	if o.Formats && r.P(1, 6) {
		s.Format = core.Pick(r, append(append([]string{}, Formats...), UnknownFormats[1:4]...))
		s.MaxLen = nil
		s.Pattern = ""
		s.Enum = nil
	}
}

// GenNumberRules fills in numeric rules.
func GenNumberRules(r *core.Rng, s *Spec) {
	if r.P(1, 5) {
		return
	}
	if r.P(1, 2) {
		s.Min = fp(GenNum(r))
	}
	if r.P(1, 2) {
		s.Max = fp(GenNum(r))
	}
	if s.Min != nil && s.Max != nil && *s.Min > *s.Max && r.P(4, 5) {
		s.Min, s.Max = s.Max, s.Min
	}
	s.ExMin, s.ExMax = r.P(1, 3), r.P(1, 3)
	if r.P(1, 3) {
		s.MultipleOf = fp(core.Pick(r, []float64{1, 2, 3, 5, 7, 10, 0.5, 0.25, 0.1, 1.5, 100, 1e-3, 12, -2, 0, 60}))
	}
	if r.P(1, 6) {
		s.Enum = genEnum(r, func() interface{} { return GenNum(r) })
	}
}

func genArrayRules(r *core.Rng, s *Spec, o GenOpts) {
	if r.P(1, 3) {
		s.MinItems = ip(core.Pick(r, []int{0, 1, 1, 2, 3, 5}))
	}
	if r.P(1, 3) {
		s.MaxItems = ip(core.Pick(r, []int{0, 1, 2, 3, 4, 5, 8, 20}))
	}
	s.Unique = r.P(1, 3)
	switch r.Intn(4) {
	case 0:
	case 1:
		s.Items = GenSpec(r, o.inside())
		if r.P(1, 6) { // has no effect then
			s.Positional = []*Spec{GenSpec(r, o.inside())}
			s.AddItemsMode = AddNil
		}
	default:
		n := core.Pick(r, []int{1, 1, 2, 2, 3, 5})
		for i := 0; i < n; i++ {
			s.Positional = append(s.Positional, GenSpec(r, o.inside()))
		}
	}
	if s.Items == nil {
		switch r.Intn(3) {
		case 0:
			s.AddItemsMode = AddNil
		case 1:
			s.AddItemsMode = AddSpec
			s.AddItems = GenSpec(r, o.inside())
		}
	}
}

func genObjectRules(r *core.Rng, s *Spec, o GenOpts) {
	if r.P(1, 5) {
		s.MinProps = ip(core.Pick(r, []int{0, 1, 2, 3, 5}))
	}
	if r.P(1, 5) {
		s.MaxProps = ip(core.Pick(r, []int{0, 1, 2, 3, 4, 6, 10}))
	}
	n := core.Pick(r, []int{0, 1, 2, 2, 3, 4, 6})
	if o.Wide && r.P(1, 15) {
		n = r.Range(12, 60)
	}
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		name := GenName(r)
		if n > 10 {
			name = fmt.Sprintf("p%d", i)
		}
		if used[name] {
			continue
		}
		used[name] = true
		s.Props = append(s.Props, Prop{name, GenSpec(r, o.inside())})
	}
	np := core.Pick(r, []int{0, 0, 0, 1, 1, 2, 3})
	po := o.inside()
	pats := map[string]bool{}
	for i := 0; i < np; i++ {
		re := core.Pick(r, Pats).Re
		if o.DupPats && i > 0 && r.P(1, 4) {
			re = s.Patterns[0].Name
		}
		if pats[re] && !o.DupPats {
			continue
		}
		pats[re] = true
		if o.Defaults {
			// a value judged by two object constraints with defaults is
			// outside the default property
			po.Kinds = []Kind{Empty, Null, Bool, String, Number, Integer, Enum}
			po.Depth = 0
		}
		s.Patterns = append(s.Patterns, Prop{re, GenSpec(r, po)})
	}
	if r.P(1, 2) {
		s.AddProps = &Spec{Kind: Empty}
	} else if r.P(1, 2) {
		s.AddProps = GenSpec(r, o.inside())
	}
	for i := core.Pick(r, []int{0, 0, 1, 1, 2, 3}); i > 0; i-- {
		if len(s.Props) > 0 && r.P(2, 3) {
			s.Required = append(s.Required, core.Pick(r, s.Props).Name)
		} else {
			s.Required = append(s.Required, GenName(r))
		}
	}
	if o.NoDeps {
		return
	}
	anyName := func() string {
		if len(s.Props) > 0 && r.P(1, 2) {
			return core.Pick(r, s.Props).Name
		}
		return GenName(r)
	}
	from := map[string]bool{}
	for i := core.Pick(r, []int{0, 0, 0, 1, 1, 2}); i > 0; i-- {
		d := PropDep{From: anyName()}
		if from[d.From] {
			continue
		}
		from[d.From] = true
		for j := core.Pick(r, []int{1, 1, 2, 3}); j > 0; j-- {
			d.To = append(d.To, anyName())
		}
		s.PropDeps = append(s.PropDeps, d)
	}
	for i := core.Pick(r, []int{0, 0, 0, 0, 1, 2}); i > 0; i-- {
		name := anyName()
		if from[name] {
			continue // both kinds on one trigger are left open
		}
		from[name] = true
		do := o.deeper()
		if o.Defaults {
			do.Defaults, do.Refs, do.FlatRefs = false, nil, nil
		}
		ds := GenDepSpec(r, do)
		if o.Defaults {
			// nested objects have got their defaults when dependencies are
			// checked; whether they still equal a member is left open
			Walk(ds, func(x *Spec) {
				for _, e := range x.Enum {
					switch e.(type) {
					case map[string]interface{}, []interface{}:
						*x = Spec{Kind: Empty}
						return
					}
				}
			})
		}
		s.SchemaDeps = append(s.SchemaDeps, Prop{name, ds})
	}
}

// GenDepSpec makes a spec for a schema dependency: mostly open objects that
// ask for something.
func GenDepSpec(r *core.Rng, o GenOpts) *Spec {
	if r.P(1, 6) {
		return GenSpec(r, o)
	}
	oo := o
	oo.Depth = min(oo.Depth, 1)
	s := GenKind(r, Object, oo)
	if r.P(3, 4) {
		s.AddProps = &Spec{Kind: Empty}
	}
	return s
}

// GenValue makes a value aimed at s: usually satisfying, often just off. Its
// size is bounded.
func GenValue(r *core.Rng, s *Spec, env Env, depth int) interface{} {
	r.Fuel = 500
	return genValue(r, s, env, depth)
}

func genValue(r *core.Rng, s *Spec, env Env, depth int) interface{} {
	r.Fuel--
	if r.Fuel < 0 {
		return GenJSON(r, 0)
	}
	if r.P(1, 14) || depth < -6 {
		return GenJSON(r, min(depth, 2))
	}
	switch s.Kind {
	case Empty, Custom:
		return GenJSON(r, min(depth, 2))
	case Null:
		return nil
	case Bool:
		return r.Bool()
	case String:
		return genStringFor(r, s)
	case Number, Integer:
		return GenNumFor(r, s)
	case Array:
		return genArrayFor(r, s, env, depth)
	case Object:
		return genObjectFor(r, s, env, depth)
	case Enum:
		if len(s.Enum) > 0 && !r.P(1, 5) {
			return mutate(r, Copy(core.Pick(r, s.Enum)))
		}
		return GenJSON(r, min(depth, 2))
	case All, Any, OneOf:
		if len(s.Children) == 0 {
			return GenJSON(r, min(depth, 2))
		}
		v := genValue(r, core.Pick(r, s.Children), env, depth)
		if s.Kind != Any && len(s.Children) > 1 {
			// try to find a value for which more than one child matters
			for i := 0; i < 4; i++ {
				n := 0
				for _, c := range s.Children {
					if Eval(c, v, env) == Accept {
						n++
					}
				}
				if s.Kind == All && n == len(s.Children) || s.Kind == OneOf && n >= 1 {
					break
				}
				v = genValue(r, core.Pick(r, s.Children), env, depth)
			}
		}
		return v
	case Not:
		if r.P(1, 2) {
			return genValue(r, s.Children[0], env, depth)
		}
		return GenJSON(r, min(depth, 2))
	case Ref:
		if t, ok := env[s.RefName]; ok {
			return genValue(r, t, env, depth-1)
		}
		return GenJSON(r, min(depth, 2))
	}
	return nil
}

// mutate makes a tiny change now and then.
func mutate(r *core.Rng, v interface{}) interface{} {
	if !r.P(1, 4) {
		return v
	}
	if r.Bool() {
		if x, ok := alike(r, v); ok {
			return x
		}
	}
	switch x := v.(type) {
	case string:
		switch r.Intn(4) {
		case 3:
			return dropRune(r, x)
		case 0:
			return x + core.Pick(r, []string{" ", "x", "é", "\n"})
		case 1:
			if x != "" {
				rs := []rune(x)
				return string(rs[:len(rs)-1])
			}
			return "x"
		}
		return strings.ToUpper(x)
	case float64:
		switch r.Intn(3) {
		case 0:
			return x + 1
		case 1:
			return fin(math.Nextafter(x, math.Inf(1)))
		}
		return fin(-x)
	case bool:
		return !x
	case []interface{}:
		return append(x, GenJSON(r, 0))
	case map[string]interface{}:
		x[GenName(r)] = GenJSON(r, 0)
		return x
	}
	return v
}

// dropRune leaves out one character, preferably an odd one.
func dropRune(r *core.Rng, s string) string {
	rs := []rune(s)
	if len(rs) == 0 {
		return s
	}
	i := r.Intn(len(rs))
	for k, c := range rs {
		if (c < ' ' || c == '`' || c == '\\' || c == 0xfeff) && r.Bool() {
			i = k
		}
	}
	return string(append(rs[:i:i], rs[i+1:]...))
}

func genStringFor(r *core.Rng, s *Spec) interface{} {
	if s.Format != "" {
		return GenFormat(r, s.Format)
	}
	if len(s.Enum) > 0 && r.P(3, 4) {
		return mutate(r, Copy(core.Pick(r, s.Enum)))
	}
	if s.Pattern != "" && r.P(3, 4) {
		for _, p := range Pats {
			if p.Re == s.Pattern {
				x := core.Pick(r, p.Match)
				if r.P(1, 5) {
					x = dropRune(r, x)
				}
				return x
			}
		}
	}
	if s.MinLen != nil && r.P(1, 2) {
		return randStr(r, max(0, *s.MinLen+r.Range(-1, 1)))
	}
	if s.MaxLen != nil && r.P(2, 3) {
		return randStr(r, max(0, *s.MaxLen+r.Range(-1, 1)))
	}
	return GenString(r)
}

// GenNumFor makes a number aimed at the rules of s.
func GenNumFor(r *core.Rng, s *Spec) float64 {
	if len(s.Enum) > 0 && r.P(2, 3) {
		if f, ok := toFloat(core.Pick(r, s.Enum)); ok {
			if r.P(1, 5) {
				return math.Nextafter(f, math.Inf(1))
			}
			return f
		}
	}
	var cands []float64
	if s.Min != nil {
		cands = append(cands, *s.Min)
	}
	if s.Max != nil {
		cands = append(cands, *s.Max)
	}
	if len(cands) > 0 && r.P(2, 3) {
		b := core.Pick(r, cands)
		switch r.Intn(7) {
		case 0:
			b = math.Nextafter(b, math.Inf(1))
		case 1:
			b = math.Nextafter(b, math.Inf(-1))
		case 2:
			b++
		case 3:
			b--
		case 4:
			b = -b
		}
		if s.MultipleOf != nil && *s.MultipleOf != 0 && r.P(1, 3) {
			b = math.Round(b / *s.MultipleOf) * *s.MultipleOf
		}
		return fin(b)
	}
	if s.MultipleOf != nil && r.P(3, 4) {
		k := float64(r.Range(-6, 12))
		f := k * *s.MultipleOf
		if r.P(1, 4) {
			f += core.Pick(r, []float64{1, 0.5, *s.MultipleOf / 2, 1e-9})
		}
		return fin(f)
	}
	f := GenNum(r)
	if s.Kind == Integer && r.P(1, 2) {
		f = math.Trunc(f)
	}
	return fin(f)
}

func fin(f float64) float64 {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return 1
	}
	if f == 0 {
		return 0 // no negative zero
	}
	return f
}

func genArrayFor(r *core.Rng, s *Spec, env Env, depth int) interface{} {
	var n int
	lo, hi := 0, 5
	if s.MinItems != nil {
		lo = *s.MinItems
	}
	if s.MaxItems != nil {
		hi = *s.MaxItems
	}
	switch {
	case r.P(1, 3) && s.MinItems != nil:
		n = lo + r.Range(-1, 1)
	case r.P(1, 3) && s.MaxItems != nil:
		n = hi + r.Range(-1, 1)
	case len(s.Positional) > 0 && r.P(1, 2):
		n = len(s.Positional) + r.Range(-1, 2)
	default:
		if lo > hi {
			lo = hi
		}
		n = r.Range(lo, min(hi, lo+5))
	}
	if r.P(1, 200) && depth >= 1 {
		n = r.Range(50, 200)
	}
	n = max(0, n)
	l := make([]interface{}, n)
	for i := range l {
		switch {
		case s.Items != nil:
			l[i] = genValue(r, s.Items, env, depth-1)
		case i < len(s.Positional):
			l[i] = genValue(r, s.Positional[i], env, depth-1)
		case s.AddItemsMode == AddSpec:
			l[i] = genValue(r, s.AddItems, env, depth-1)
		default:
			l[i] = GenJSON(r, min(1, depth-1))
		}
	}
	if s.Unique && n > 1 && r.P(2, 5) {
		i, j := r.Intn(n), r.Intn(n)
		l[i] = Copy(l[j])
		if r.P(1, 3) {
			l[i] = lookalike(r, l[j])
		}
	}
	return l
}

// lookalike makes a different value that is easily confused with v.
func lookalike(r *core.Rng, v interface{}) interface{} {
	switch x := v.(type) {
	case float64:
		if r.Bool() {
			return fmt.Sprint(x)
		}
		return fin(math.Nextafter(x, math.Inf(1)))
	case bool:
		return fmt.Sprint(x)
	case nil:
		return core.Pick(r, []interface{}{"null", "nil", "<nil>", false, 0.0, "", []interface{}{}, map[string]interface{}{}})
	case string:
		return core.Pick(r, []interface{}{x + " ", []interface{}{x}, strings.ToUpper(x) + "A", map[string]interface{}{x: x}})
	case []interface{}:
		if len(x) > 1 && r.Bool() {
			parts := make([]string, len(x))
			for i := range x {
				parts[i] = fmt.Sprint(x[i])
			}
			return []interface{}{strings.Join(parts, " ")}
		}
		return []interface{}{x}
	case map[string]interface{}:
		m := Copy(x).(map[string]interface{})
		for k := range sortedOnce(m) {
			m[k] = lookalike(r, m[k])
			return m
		}
		return []interface{}{}
	}
	return v
}

func genObjectFor(r *core.Rng, s *Spec, env Env, depth int) interface{} {
	m := map[string]interface{}{}
	pres := core.Pick(r, []int{2, 5, 8, 10})
	for _, p := range s.Props {
		if r.P(pres, 10) {
			m[p.Name] = genValue(r, p.Spec, env, depth-1)
		}
	}
	valFor := func(name string) interface{} {
		for _, p := range s.Props {
			if p.Name == name {
				return genValue(r, p.Spec, env, depth-1)
			}
		}
		for _, p := range s.Patterns {
			if rx(p.Name).MatchString(name) && r.P(5, 6) {
				return genValue(r, p.Spec, env, depth-1)
			}
		}
		if s.AddProps != nil {
			return genValue(r, s.AddProps, env, depth-1)
		}
		return GenJSON(r, min(1, depth-1))
	}
	for _, n := range s.Required {
		if _, ok := m[n]; !ok && !r.P(1, 12) {
			m[n] = valFor(n)
		}
	}
	for _, p := range s.Patterns {
		if r.P(1, 2) {
			for _, pp := range Pats {
				if pp.Re == p.Name {
					n := core.Pick(r, pp.Match)
					if _, ok := m[n]; !ok {
						m[n] = valFor(n)
					}
				}
			}
		}
	}
	for i := core.Pick(r, []int{0, 0, 0, 1, 1, 2}); i > 0 && (s.AddProps != nil || r.P(1, 4)); i-- {
		n := GenName(r)
		if _, ok := m[n]; !ok {
			m[n] = valFor(n)
		}
	}
	for _, d := range s.PropDeps {
		if r.P(1, 2) {
			if _, ok := m[d.From]; !ok {
				m[d.From] = valFor(d.From)
			}
		}
		if _, ok := m[d.From]; ok {
			for _, t := range d.To {
				if _, ok := m[t]; !ok && r.P(9, 10) {
					m[t] = valFor(t)
				}
			}
		}
	}
	for _, d := range s.SchemaDeps {
		if r.P(1, 2) {
			if _, ok := m[d.Name]; !ok {
				m[d.Name] = valFor(d.Name)
			}
		}
		if _, ok := m[d.Name]; ok && d.Spec.Kind == Object {
			for _, n := range d.Spec.Required {
				if _, ok := m[n]; !ok && r.P(9, 10) {
					m[n] = valFor(n)
				}
			}
		}
	}
	if s.MaxProps != nil && len(m) > *s.MaxProps && r.P(3, 4) {
		for k := range sortedOnce(m) {
			if len(m) <= *s.MaxProps {
				break
			}
			delete(m, k)
		}
	}
	if s.MinProps != nil {
		for i := 0; len(m) < *s.MinProps && i < 10 && r.P(9, 10); i++ {
			n := GenName(r)
			m[n] = valFor(n)
		}
	}
	return m
}

// GenEnv makes a set of mutually recursive definitions. Recursion always
// passes through an array element or object property, so that validation of
// finite values is well-founded.
func GenEnv(r *core.Rng, names []string, o GenOpts) Env {
	env := Env{}
	o.Refs = names
	for i, n := range names {
		oo := o
		oo.FlatRefs = names[:i]
		oo.Inside = false
		if r.P(1, 4) && i > 0 {
			env[n] = &Spec{Kind: Ref, RefName: core.Pick(r, names[:i])}
			continue
		}
		env[n] = GenSpec(r, oo)
	}
	return env
}
