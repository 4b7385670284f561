package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/lestrrat-go/jsval"

	"verif/core"
	"verif/model"
)

// dumpSrc prints a value with its Go types; the same source runs in the
// harness (dumpTyped) and beside the generated code.
const dumpSrc = `
func dumpTyped(v interface{}) string {
	switch x := v.(type) {
	case map[string]interface{}:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := "{"
		for _, k := range ks {
			s += strconv.Quote(k) + ":" + dumpTyped(x[k]) + ","
		}
		return s + "}"
	case []interface{}:
		s := "["
		for _, e := range x {
			s += dumpTyped(e) + ","
		}
		return s + "]"
	case string:
		return strconv.Quote(x)
	}
	return fmt.Sprintf("%T(%v)", v, v)
}
`

func dumpTyped(v interface{}) string {
	switch x := v.(type) {
	case map[string]interface{}:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := "{"
		for _, k := range ks {
			s += strconv.Quote(k) + ":" + dumpTyped(x[k]) + ","
		}
		return s + "}"
	case []interface{}:
		s := "["
		for _, e := range x {
			s += dumpTyped(e) + ","
		}
		return s + "]"
	case string:
		return strconv.Quote(x)
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

type genTask struct {
	P int             `json:"p"`
	N string          `json:"n"`
	X json.RawMessage `json:"x"`
}

type genAnswer struct {
	OK    bool   `json:"ok"`
	Dump  string `json:"dump"`
	Panic string `json:"panic,omitempty"`
	Err   string `json:"err,omitempty"`
}

const runnerHead = `package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strconv"

	"github.com/lestrrat-go/jsval"
@IMPORTS@)

var progs = map[int]func(string) *jsval.JSVal{
@TABLE@}
` + dumpSrc + `
type task struct {
	P int             "json:\"p\""
	N string          "json:\"n\""
	X json.RawMessage "json:\"x\""
}
type answer struct {
	OK    bool   "json:\"ok\""
	Dump  string "json:\"dump\""
	Panic string "json:\"panic,omitempty\""
	Err   string "json:\"err,omitempty\""
}

func one(t task) (a answer) {
	defer func() {
		if e := recover(); e != nil {
			a.Panic = fmt.Sprint(e)
		}
	}()
	var x interface{}
	if err := json.Unmarshal(t.X, &x); err != nil {
		panic(err)
	}
	v := progs[t.P](t.N)
	if v == nil {
		a.Panic = "validator " + t.N + " is nil"
		return
	}
	err := v.Validate(x)
	a.OK = err == nil
	if err != nil {
		a.Err = err.Error()
	}
	a.Dump = dumpTyped(x)
	return
}

func main() {
	var ts []task
	if err := json.NewDecoder(os.Stdin).Decode(&ts); err != nil {
		panic(err)
	}
	as := make([]answer, len(ts))
	for i := range ts {
		as[i] = one(ts[i])
	}
	if err := json.NewEncoder(os.Stdout).Encode(as); err != nil {
		panic(err)
	}
}
`

// genModule writes a module in dir that uses /repo, like the harness does.
func genModule(r *core.Run, dir string) error {
	if err := os.MkdirAll(dir, 0755); err != nil {
		return err
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(r.Harness, f))
		if err != nil {
			return err
		}
		if f == "go.mod" {
			b = bytes.Replace(b, []byte("module verif\n"), []byte("module verifgen\n"), 1)
		}
		if err := os.WriteFile(filepath.Join(dir, f), b, 0644); err != nil {
			return err
		}
	}
	return nil
}

// wrapGenerated makes a Go file of generator output, the way users do.
func wrapGenerated(pkg, src string) string {
	return "package " + pkg + "\n\nimport \"github.com/lestrrat-go/jsval\"\n" + src + "\n"
}

var pkgLine = regexp.MustCompile(`(?m)(?:^# verifgen/p(\d+)|^p(\d+)/)`)

type genProg struct {
	c     *core.Case
	p     *program
	src   string
	tasks []genTask
	want  []genAnswer
	xs    []interface{}
	idx   int
}

// runGenerated compiles the programs and returns the answers per task.
func runGenerated(r *core.Run, dir string, ps []*genProg) bool {
	if err := genModule(r, dir); err != nil {
		r.Fail("%v", err)
		return false
	}
	defer os.RemoveAll(dir)
	var imps, tab strings.Builder
	var tasks []genTask
	for _, g := range ps {
		pkg := fmt.Sprintf("p%d", g.idx)
		os.MkdirAll(filepath.Join(dir, pkg), 0755)
		os.WriteFile(filepath.Join(dir, pkg, "gen.go"), []byte(wrapGenerated(pkg, g.src)), 0644)
		var get strings.Builder
		fmt.Fprintf(&get, "package %s\n\nimport \"github.com/lestrrat-go/jsval\"\n\nfunc Verif_get(n string) *jsval.JSVal {\n\tswitch n {\n", pkg)
		for _, n := range g.p.names {
			fmt.Fprintf(&get, "\tcase %q:\n\t\treturn %s\n", n, n)
		}
		fmt.Fprintf(&get, "\t}\n\treturn nil\n}\n")
		os.WriteFile(filepath.Join(dir, pkg, "get.go"), []byte(get.String()), 0644)
		fmt.Fprintf(&imps, "\t%q\n", "verifgen/"+pkg)
		fmt.Fprintf(&tab, "\t%d: %s.Verif_get,\n", g.idx, pkg)
		for i := range g.tasks {
			g.tasks[i].P = g.idx
		}
		tasks = append(tasks, g.tasks...)
	}
	main := strings.NewReplacer("@IMPORTS@", imps.String(), "@TABLE@", tab.String()).Replace(runnerHead)
	os.WriteFile(filepath.Join(dir, "main.go"), []byte(main), 0644)
	t0 := time.Now()
	cmd := exec.Command("go", "build", "-o", "runner", ".")
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	r.Count("compile_ms", int(time.Since(t0).Milliseconds()))
	if err != nil {
		byIdx := map[int]*genProg{}
		for _, g := range ps {
			byIdx[g.idx] = g
		}
		found := false
		for _, m := range pkgLine.FindAllStringSubmatch(string(out), -1) {
			i, _ := strconv.Atoi(m[1] + m[2])
			if g := byIdx[i]; g != nil {
				g.c.ViolateD("does not compile", map[string]string{"source": g.src}, "generated code does not compile:\n%.1500s\n%s\nsource:\n%s", out, g.p.desc, g.src)
				found = true
				break
			}
		}
		if !found {
			r.Fail("go build of generated code failed: %v\n%.3000s", err, out)
		}
		return false
	}
	in, _ := json.Marshal(tasks)
	run, done := command(200*time.Second, filepath.Join(dir, "runner"))
	defer done()
	run.Stdin = bytes.NewReader(in)
	var so, se bytes.Buffer
	run.Stdout, run.Stderr = &so, &se
	err = run.Run()
	if timedOut(run) {
		ps[0].c.Violate("generated code hangs", "the compiled validators (one of %d programs) do not finish", len(ps))
		return false
	}
	var as []genAnswer
	if err == nil {
		err = json.Unmarshal(so.Bytes(), &as)
	}
	if err != nil || len(as) != len(tasks) {
		// init of the generated code may crash
		for _, g := range ps {
			if strings.Contains(se.String(), fmt.Sprintf("verifgen/p%d.", g.idx)) {
				g.c.Violate("generated code crashes", "%v\n%.1500s\n%s\nsource:\n%s", err, se.String(), g.p.desc, g.src)
				return false
			}
		}
		r.Fail("runner: %v\n%.3000s", err, se.String())
		return false
	}
	k := 0
	ok := true
	for _, g := range ps {
		bad := false
		for i := range g.tasks {
			a, w := as[k], g.want[i]
			k++
			if bad {
				continue
			}
			r.Count("disagreements_checked", 1)
			if a.OK {
				r.Count("verdict_accept", 1)
			} else {
				r.Count("verdict_reject", 1)
			}
			what := func() string {
				return fmt.Sprintf("validator %s, input %s\n%s\nsource:\n%s", g.tasks[i].N, g.tasks[i].X, g.p.desc, g.src)
			}
			switch {
			case a.Panic != "":
				g.c.Violate("generated code panics", "%s\n%s", a.Panic, what())
				bad = true
			case a.OK != w.OK:
				g.c.Violate("verdicts differ", "original: accept=%v (%s), generated: accept=%v (%s)\n%s", w.OK, w.Err, a.OK, a.Err, what())
				bad = true
			case a.OK && a.Dump != w.Dump:
				g.c.Violate("defaults differ", "original leaves  %s\ngenerated leaves %s\n%s", w.Dump, a.Dump, what())
				bad = true
			}
			g.c.Eval(key(g.src, g.tasks[i].N, string(g.tasks[i].X)))
		}
		if bad {
			ok = false
			if r.Stopped() {
				break
			}
		}
	}
	return ok
}

// fillTasks judges inputs with the original validators.
func (g *genProg) fillTasks(nvals int) bool {
	c := g.c
	for i, v := range g.p.vs {
		for j := 0; j < nvals; j++ {
			x := roundTrip(g.p.value[i](c.Rng))
			b, _ := json.Marshal(x)
			res, ok := validate(c, v, x, func() string { return g.p.desc })
			if !ok {
				return false
			}
			w := genAnswer{OK: res.accepted, Dump: dumpTyped(x)}
			if res.err != nil {
				w.Err = res.err.Error()
			}
			g.tasks = append(g.tasks, genTask{N: g.p.names[i], X: b})
			g.want = append(g.want, w)
		}
	}
	return true
}

func init() {
	register(&core.Prop{
		ID:    "C15",
		Level: "translation_validation",
		Rule:  "random validators (built from schemas, from schemas with references or defaults, from hand-made constraint trees with typed literals, several per file sharing a constraint map) are generated, the source is compiled as a package of its own and run beside the original on directed inputs; verdicts and the (typed) content of the input after validation must agree",
		Assumptions: []string{
			"variable names that the generator itself uses (V<i>, R<i>, M) are not given to validators",
		},
		Run: func(r *core.Run) {
			batches := r.N(8, 60)
			size := r.N(150, 200)
			for b := 0; b < batches && !r.Stopped(); b++ {
				var mu sync.Mutex
				var ps []*genProg
				stage := fmt.Sprintf("batch%d", b)
				r.Cases(stage, size, func(c *core.Case) {
					p, err := mkProgram(c.Rng)
					if err != nil {
						c.R.Fail("cannot build: %v", err)
						return
					}
					var src string
					if !c.Call("generation of "+p.desc, func() { src, err = p.generate() }) {
						return
					}
					if err != nil {
						c.Violate("generation refused", "Process failed: %v\n%s", err, p.desc)
						return
					}
					g := &genProg{c: c, p: p, src: src, idx: c.Idx}
					if !g.fillTasks(24) {
						return
					}
					c.Count("programs", 1)
					c.Count("mode_"+p.mode, 1)
					if len(src) < 1500 {
						c.Sample(map[string]interface{}{"from": p.desc, "source": src})
					}
					mu.Lock()
					ps = append(ps, g)
					mu.Unlock()
				})
				if len(ps) == 0 {
					continue
				}
				sort.Slice(ps, func(i, j int) bool { return ps[i].idx < ps[j].idx })
				runGenerated(r, filepath.Join(r.Work, "gen"), ps)
			}
			// every single rule on its own
			if !r.Stopped() {
				var mu sync.Mutex
				var ps []*genProg
				list := singleRules()
				r.Cases("single-rules", len(list), func(c *core.Case) {
					e := list[c.Idx]
					v := jsval.New().SetRoot(e.c)
					if c.Idx%3 == 1 { // behind a name
						name := "#/definitions/" + strconv.Itoa(c.Idx)
						v.SetReference(name, e.c)
						v.SetRoot(jsval.Reference(v).RefersTo(name))
					}
					p := &program{vs: []*jsval.JSVal{v}, names: []string{"V0"}, desc: e.desc, mode: "single rule"}
					p.value = []func(*core.Rng) interface{}{e.value}
					var src string
					var err error
					if !c.Call("generation of "+p.desc, func() { src, err = p.generate() }) {
						return
					}
					if err != nil {
						c.Violate("generation refused", "Process failed: %v\n%s", err, p.desc)
						return
					}
					g := &genProg{c: c, p: p, src: src, idx: c.Idx}
					if !g.fillTasks(25) {
						return
					}
					c.Count("programs", 1)
					mu.Lock()
					ps = append(ps, g)
					mu.Unlock()
				})
				sort.Slice(ps, func(i, j int) bool { return ps[i].idx < ps[j].idx })
				// several single rules share a file
				if len(ps) > 0 {
					runGenerated(r, filepath.Join(r.Work, "gen"), mergeProgs(ps, 12))
				}
			}
			r.Cases("refused", r.N(1500, 20000), refusedCase)
		},
	})
}

// mergeProgs puts n one-validator programs into one file each.
func mergeProgs(ps []*genProg, n int) []*genProg {
	var l []*genProg
	for i := 0; i < len(ps); i += n {
		part := ps[i:min(i+n, len(ps))]
		m := &genProg{c: part[0].c, p: &program{mode: "single rules"}, idx: i}
		for j, g := range part {
			name := fmt.Sprintf("Rule%d", j)
			v := g.p.vs[0].SetName(name)
			m.p.vs = append(m.p.vs, v)
			m.p.names = append(m.p.names, name)
			m.p.desc += name + ": " + g.p.desc + "\n"
			for k := range g.tasks {
				g.tasks[k].N = name
			}
			m.tasks = append(m.tasks, g.tasks...)
			m.want = append(m.want, g.want...)
		}
		var err error
		if !m.c.Call("generation of "+m.p.desc, func() { m.src, err = m.p.generate() }) {
			return nil
		}
		if err != nil {
			m.c.Violate("generation refused", "Process failed: %v\n%s", err, m.p.desc)
			return nil
		}
		l = append(l, m)
	}
	return l
}

type ruleCase struct {
	c     jsval.Constraint
	desc  string
	value func(r *core.Rng) interface{}
}

// singleRules lists constraints with one rule or one literal each.
func singleRules() []ruleCase {
	var l []ruleCase
	add := func(s *model.Spec) {
		b := &model.Builder{}
		l = append(l, ruleCase{b.Build(s), s.String(), func(r *core.Rng) interface{} { return model.GenValue(r, s, nil, 2) }})
	}
	for _, k := range []model.Kind{model.Number, model.Integer} {
		for _, f := range []float64{0, 1, -1, 0.1, 2.5, 1e21, -1e-9, 9007199254740993, 123456789.125, 1.0000001, 3.141592653589793, 1.2345678901234567e300, 5e-324} {
			add(&model.Spec{Kind: k, Min: model.FP(f)})
			add(&model.Spec{Kind: k, Max: model.FP(f)})
			add(&model.Spec{Kind: k, Min: model.FP(f), ExMin: true})
			add(&model.Spec{Kind: k, Max: model.FP(f), ExMax: true})
			if f > 0 && f < 1e300 {
				add(&model.Spec{Kind: k, MultipleOf: model.FP(f)})
			}
			add(&model.Spec{Kind: k, Enum: []interface{}{f}})
		}
		add(&model.Spec{Kind: k, Enum: []interface{}{int(3), uint8(4), int64(5), float32(2.5)}})
		add(&model.Spec{Kind: k})
	}
	for _, n := range []int{0, 1, 5, 300} {
		add(&model.Spec{Kind: model.String, MinLen: model.IP(n)})
		add(&model.Spec{Kind: model.String, MaxLen: model.IP(n)})
		add(&model.Spec{Kind: model.Array, MinItems: model.IP(n)})
		add(&model.Spec{Kind: model.Array, MaxItems: model.IP(n)})
		open := &model.Spec{Kind: model.Empty}
		add(&model.Spec{Kind: model.Object, MinProps: model.IP(n), AddProps: open})
		add(&model.Spec{Kind: model.Object, MaxProps: model.IP(n), AddProps: open})
	}
	for _, p := range model.Pats {
		add(&model.Spec{Kind: model.String, Pattern: p.Re})
		add(&model.Spec{Kind: model.Object, Patterns: []model.Prop{{Name: p.Re, Spec: &model.Spec{Kind: model.Integer}}}})
	}
	for _, n := range model.Names {
		add(&model.Spec{Kind: model.String, Enum: []interface{}{n}})
		add(&model.Spec{Kind: model.Object, Required: []string{n}, Props: []model.Prop{{Name: n, Spec: &model.Spec{Kind: model.String, HasDef: true, Def: n}}}, PropDeps: []model.PropDep{{From: n, To: []string{"b", n}}}})
		add(&model.Spec{Kind: model.Object, AddProps: &model.Spec{Kind: model.Empty}, SchemaDeps: []model.Prop{{Name: n, Spec: &model.Spec{Kind: model.Object, AddProps: &model.Spec{Kind: model.Empty}, Required: []string{"a"}}}}})
	}
	for _, f := range append(append([]string{}, model.Formats...), model.UnknownFormats...) {
		add(&model.Spec{Kind: model.String, Format: f})
	}
	for _, d := range []interface{}{"", "x", "\x00\u2028\"`", 0.0, 1.5, 1e300, int(-3), uint64(1 << 60), float32(0.1), int8(-1), true, false} {
		k := model.Number
		switch d.(type) {
		case string:
			k = model.String
		case bool:
			k = model.Bool
		}
		s := &model.Spec{Kind: k, HasDef: true, Def: d}
		add(&model.Spec{Kind: model.Object, AddProps: &model.Spec{Kind: model.Empty}, Props: []model.Prop{{Name: "a", Spec: s}}})
		if k == model.Number {
			s2 := *s
			s2.Kind = model.Integer
			add(&model.Spec{Kind: model.Object, AddProps: &model.Spec{Kind: model.Empty}, Props: []model.Prop{{Name: "a", Spec: &s2}}})
		}
	}
	str, num := &model.Spec{Kind: model.String}, &model.Spec{Kind: model.Number}
	for _, m := range []model.AddMode{model.AddUnset, model.AddNil, model.AddSpec} {
		add(&model.Spec{Kind: model.Array, Positional: []*model.Spec{str, num}, AddItemsMode: m, AddItems: str})
		add(&model.Spec{Kind: model.Array, AddItemsMode: m, AddItems: str})
		add(&model.Spec{Kind: model.Array, Items: num, AddItemsMode: m, AddItems: str})
	}
	add(&model.Spec{Kind: model.Array, Unique: true})
	add(&model.Spec{Kind: model.Array, Items: str})
	for _, k := range []model.Kind{model.All, model.Any, model.OneOf} {
		add(&model.Spec{Kind: k})
		add(&model.Spec{Kind: k, Children: []*model.Spec{str}})
		add(&model.Spec{Kind: k, Children: []*model.Spec{str, num, {Kind: model.Integer}}})
	}
	add(&model.Spec{Kind: model.Not, Children: []*model.Spec{str}})
	add(&model.Spec{Kind: model.Not, Children: []*model.Spec{{Kind: model.Not, Children: []*model.Spec{num}}}})
	add(&model.Spec{Kind: model.Null})
	add(&model.Spec{Kind: model.Empty})
	add(&model.Spec{Kind: model.Bool})
	add(&model.Spec{Kind: model.Bool, Enum: []interface{}{true}})
	add(&model.Spec{Kind: model.Enum, Enum: []interface{}{nil, true, 1.0, 1.5, "a", []interface{}{1.0, nil}, map[string]interface{}{"a": []interface{}{}, "": nil}}})
	add(&model.Spec{Kind: model.Object})
	add(&model.Spec{Kind: model.Object, AddProps: num})
	// references that no map knows
	loose := func(mk func(jsval.Constraint) jsval.Constraint, desc string) {
		c := mk(jsval.Reference(&jsval.ConstraintMap{}).RefersTo("#/definitions/unknown"))
		l = append(l, ruleCase{c, desc + " with an unknown reference", func(r *core.Rng) interface{} {
			return core.Pick(r, []interface{}{"x", 1.0, nil, model.M{}, model.M{"a": 1.0}, model.M{"b": "x"}, []interface{}{}, []interface{}{1.0}})
		}})
	}
	loose(func(c jsval.Constraint) jsval.Constraint { return c }, "root")
	loose(func(c jsval.Constraint) jsval.Constraint { return jsval.Array().Items(c) }, "items")
	loose(func(c jsval.Constraint) jsval.Constraint { return jsval.Object().AddProp("a", c) }, "property")
	loose(func(c jsval.Constraint) jsval.Constraint { return jsval.Any().Add(c).Add(jsval.String()) }, "any")
	// many rules of one family
	rg := core.NewRng("sized rules")
	for _, n := range []int{0, 1, 2, 3, 7, 8, 9, 10, 11, 12, 16, 17, 20, 31, 33, 64, 65, 99, 100, 101, 128, 130} {
		for _, f := range []string{"enum_number", "enum_integer", "enum_string", "enum", "any", "all", "oneof", "nested_comb", "positional", "nested_array", "props", "required", "patterns", "patterns_one", "nested_object", "targets", "triggers", "defaults", "same", "length", "long_member", "long_names"} {
			n := n
			switch f {
			case "long_member", "long_names":
				n *= 20
			}
			if f == "triggers" || f == "patterns" || f == "patterns_one" || strings.HasPrefix(f, "nested") {
				n = min(n, 40)
			}
			s, vals, _ := sized(rg, f, n)
			k := 0
			l = append(l, ruleCase{(&model.Builder{}).Build(s), fmt.Sprintf("%s with %d rules", f, n), func(r *core.Rng) interface{} {
				k++
				if k <= len(vals) {
					return vals[k-1]
				}
				return core.Pick(r, vals)
			}})
		}
	}
	return l
}

// refusedCase: validators that cannot be written as Go source.
func refusedCase(c *core.Case) {
	r := c.Rng
	p, err := mkProgram(r)
	if err != nil {
		c.R.Fail("cannot build: %v", err)
		return
	}
	var bad jsval.Constraint
	var log []delivery
	kind := r.Intn(7)
	switch kind {
	case 0:
		bad = &probe{id: "p", log: &log}
	case 1:
		bad = jsval.String().Default(make(chan int))
	case 2:
		bad = jsval.Number().Default(struct{ A int }{1})
	case 3:
		bad = jsval.Enum("a", func() {})
	case 4:
		bad = jsval.Number().Minimum(core.Pick(r, []float64{math.NaN(), math.Inf(1), math.Inf(-1)}))
	case 5:
		bad = jsval.Integer().Maximum(core.Pick(r, []float64{math.NaN(), math.Inf(1), math.Inf(-1)}))
	case 6: // two validators that disagree about a reference
		n := core.Pick(r, []string{"x", "#/definitions/a"})
		v1 := jsval.New().SetName("A1")
		v1.SetReference(n, jsval.String())
		v1.SetRoot(jsval.Reference(v1).RefersTo(n))
		v2 := jsval.New().SetName("A2")
		v2.SetReference(n, jsval.Integer())
		v2.SetRoot(jsval.Reference(v2).RefersTo(n))
		p.vs = append(p.vs, v1, v2)
		// the program may use the same names for its own references
	}
	if bad != nil {
		k := bad
		for i := r.Intn(4); i > 0; i-- {
			switch r.Intn(10) {
			case 0:
				k = jsval.Array().Items(k)
			case 1:
				k = jsval.Array().PositionalItems([]jsval.Constraint{jsval.NullConstraint, k})
			case 2:
				k = jsval.Object().AddProp("a", k)
			case 3:
				k = jsval.Object().AdditionalProperties(k)
			case 4:
				k = jsval.Object().PatternPropertiesString("^a", k)
			case 5:
				k = jsval.Object().SchemaDependency("a", k)
			case 6:
				k = jsval.All().Add(jsval.String()).Add(k)
			case 7:
				k = jsval.Not(k)
			case 8:
				k = jsval.Any().Add(k)
			case 9:
				k = jsval.Array().PositionalItems([]jsval.Constraint{jsval.NullConstraint}).AdditionalItems(k)
			}
		}
		v := jsval.New().SetName("Bad")
		if r.P(1, 3) {
			v.SetReference("bad", k)
			v.SetRoot(jsval.Reference(v).RefersTo("bad"))
		} else {
			v.SetRoot(k)
		}
		p.vs = append(p.vs, v)
		for i := range r.Perm(len(p.vs)) {
			j := r.Intn(len(p.vs))
			p.vs[i], p.vs[j] = p.vs[j], p.vs[i]
		}
	}
	var buf bytes.Buffer
	if !c.Call("generation", func() { err = jsval.NewGenerator().Process(&buf, p.vs...) }) {
		return
	}
	if err == nil {
		c.Violate("unfaithful generation", "Process must refuse (kind %d) but wrote\n%s", kind, buf.String())
		return
	}
	if buf.Len() > 0 {
		c.Violate("partial output", "Process failed (%v) but wrote %d bytes", err, buf.Len())
		return
	}
	c.Count("refused", 1)
	c.Eval(key("refused", kind, p.desc))
}
