package props

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lestrrat-go/jsschema"
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"

	"verif/core"
	"verif/model"
)

// slow delays the calls of the constraint it wraps, to let other goroutines
// in. It uses no lock and no atomic, which would hide races from the
// detector.
type slow struct {
	jsval.Constraint
	how int
}

func dally(how int) {
	switch how {
	case 1:
		runtime.Gosched()
	case 2:
		for i := rand.IntN(4); i > 0; i-- {
			runtime.Gosched()
		}
	case 3:
		time.Sleep(time.Duration(rand.IntN(40)) * time.Microsecond)
	case 4:
		if rand.IntN(8) == 0 {
			time.Sleep(time.Duration(rand.IntN(300)) * time.Microsecond)
		}
	}
}

func (s slow) Validate(v interface{}) error {
	dally(s.how)
	err := s.Constraint.Validate(v)
	dally(s.how)
	return err
}

func (s slow) HasDefault() bool          { dally(s.how); return s.Constraint.HasDefault() }
func (s slow) DefaultValue() interface{} { dally(s.how); return s.Constraint.DefaultValue() }

// slowResolver delays lookups.
type slowResolver struct {
	r   jsval.RefResolver
	how int
}

func (s slowResolver) GetReference(n string) (jsval.Constraint, error) {
	dally(s.how)
	c, err := s.r.GetReference(n)
	dally(s.how)
	return c, err
}

// call is one observed call.
type call struct {
	g, what    int
	start, end int64
	out        outcome
	panicked   string
	err        error
}

var epoch = time.Now()

func nanos() int64 { return int64(time.Since(epoch)) }

// together runs f in g goroutines that start at the same moment, and returns
// what each of them observed.
func together(c *core.Case, g int, f func(i int, log *[]call)) ([]call, bool) {
	logs := make([][]call, g)
	gate := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var log []call
			<-gate
			p, msg, stack := core.Try(func() { f(i, &log) })
			if p {
				log = append(log, call{g: i, panicked: msg + "\n" + stack})
			}
			logs[i] = log
		}()
	}
	c.Try(func() { // under the stuck-call monitor
		close(gate)
		wg.Wait()
	})
	var all []call
	for _, l := range logs {
		all = append(all, l...)
	}
	for _, k := range all {
		if k.panicked != "" {
			c.ViolateD("panic", strings.Split(k.panicked, "\n"), "a call made from one of %d goroutines panicked: %.300s", g, k.panicked)
			return nil, false
		}
	}
	return all, true
}

// interleaving describes the order in which calls began and ended, and
// counts the pairs that overlapped.
func interleaving(all []call) (string, int) {
	type ev struct {
		t   int64
		s   string
		beg bool
	}
	var evs []ev
	for _, k := range all {
		evs = append(evs, ev{k.start, fmt.Sprintf("%d(%d", k.g, k.what), true}, ev{k.end, fmt.Sprintf("%d)", k.g), false})
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].t < evs[j].t })
	var sb strings.Builder
	open, over := 0, 0
	for _, e := range evs {
		sb.WriteString(e.s)
		sb.WriteByte(' ')
		if e.beg {
			over += open
			open++
		} else {
			open--
		}
	}
	return sb.String(), over
}

var freshSeq atomic.Int64

// freshened gives the struct that p points to a type that nobody has seen,
// for a new n.
func freshened(p reflect.Value, n int64) reflect.Value {
	t := p.Elem().Type()
	var sf []reflect.StructField
	for i := 0; i < t.NumField(); i++ {
		sf = append(sf, t.Field(i))
	}
	sf = append(sf, reflect.StructField{Name: fmt.Sprintf("Fresh%d", n), Type: reflect.TypeOf(0), Tag: `json:"-"`})
	twinMu.Lock()
	ft := reflect.StructOf(sf)
	twinMu.Unlock()
	q := reflect.New(ft)
	for i := 0; i < t.NumField(); i++ {
		if q.Elem().Field(i).CanSet() {
			q.Elem().Field(i).Set(p.Elem().Field(i))
		}
	}
	return q
}

// family is a set of validators over one set of definitions.
type family struct {
	specs []*model.Spec
	env   model.Env
	names []string
	text  []string // schema texts, if built from schemas
	docs  []model.M
	envs  []model.Env
}

func (f *family) String() string {
	if f.text != nil {
		return strings.Join(f.text, "\n")
	}
	return fmt.Sprintf("%v refs %s", f.specs, model.DescribeEnv(f.env))
}

func (f *family) envOf(i int) model.Env {
	if f.envs != nil {
		return f.envs[i]
	}
	return f.env
}

func mkFamily(r *core.Rng) *family {
	f := &family{}
	n := r.Range(1, 3)
	if r.P(1, 4) {
		for i := 0; i < n; i++ {
			var doc model.M
			if r.Bool() {
				doc = model.GenRefDoc(r, model.SOpts{Depth: 2, Defaults: r.P(1, 3)}, false)
			} else {
				doc = model.GenSchema(r, model.SOpts{Depth: 2, Formats: true, Stray: true, Defaults: r.P(1, 3)})
			}
			d := model.ReadDoc(doc)
			f.specs = append(f.specs, d.Spec)
			f.envs = append(f.envs, d.Env)
			f.text = append(f.text, model.Encode(nil, doc))
		}
		return f
	}
	f.names = pickRefNames(r, r.Range(1, 4))
	def := r.P(1, 2)
	f.env = model.GenEnv(r, f.names, model.GenOpts{Depth: 2, Defaults: def})
	for i := 0; i < n; i++ {
		o := model.GenOpts{Depth: r.Range(1, 3), Formats: r.Bool(), Defaults: def, Wide: r.P(1, 3), Refs: f.names, FlatRefs: f.names}
		if r.P(3, 4) {
			f.specs = append(f.specs, model.GenKind(r, model.Object, o))
		} else {
			f.specs = append(f.specs, model.GenSpec(r, o))
		}
	}
	return f
}

// build makes the validators; how > 0 injects delays, shared makes them share
// one constraint map.
func (f *family) build(r *core.Rng, how int, shared bool) ([]*jsval.JSVal, error) {
	var vs []*jsval.JSVal
	if f.text != nil {
		for _, t := range f.text {
			s, err := schemaRead(t)
			if err != nil {
				return nil, err
			}
			v, err := builder.New().BuildWithCtx(s, map[string]interface{}(decodeM(t)))
			if err != nil {
				return nil, err
			}
			if r.Bool() {
				v.SetName("V")
			}
			vs = append(vs, v)
		}
		return vs, nil
	}
	var cm *jsval.ConstraintMap
	if shared {
		cm = &jsval.ConstraintMap{}
	}
	for i, s := range f.specs {
		v := jsval.New()
		if r.Bool() {
			v.SetName("V")
		}
		if shared {
			v.SetConstraintMap(cm)
		}
		b := &model.Builder{Rng: r, Resolver: v}
		if how > 0 {
			b.Resolver = slowResolver{v, how}
			b.Wrap = func(s *model.Spec, c jsval.Constraint) jsval.Constraint {
				if r.P(1, 3) {
					return slow{c, how}
				}
				return c
			}
		}
		if !shared || i == 0 {
			registerAll(r, v.SetReference, b, f.env, f.names)
		}
		vs = append(vs, v.SetRoot(b.Build(s)))
	}
	return vs, nil
}

type job struct {
	v    int // validator
	json interface{}
	form int         // as in sample
	twin core.Rng    // how the struct was made
	typ  int64       // number of the struct type used in the concurrent part
	ro   interface{} // shared read-only value
	want outcome
}

func (j job) String() string {
	if j.form < 2 {
		return model.JSON(j.json)
	}
	x := j.input(j.typ)
	return fmt.Sprintf("%T %+v", x, x)
}

// input makes a fresh copy of the value, as struct of type number typ if it
// is to be one.
func (j job) input(typ int64) interface{} {
	s := sample{json: j.json, form: j.form}
	if j.form >= 2 {
		r := j.twin
		t, ok := structTwin(&r, model.Copy(j.json).(map[string]interface{}), []string{"a", "b", "foo"}, 1, true)
		if !ok {
			return model.Copy(j.json)
		}
		s.rv = freshened(t, typ)
	}
	return s.input()
}

// result runs v on x; x is dumped afterwards so that defaults show.
func result(v validator, x interface{}) (o outcome, err error) {
	err = v.Validate(x)
	o.ok = err == nil
	if o.ok {
		o.dump = dumpAny(x)
	}
	return o, err
}

func dumpAny(x interface{}) string {
	rv := reflect.ValueOf(x)
	if rv.Kind() == reflect.Ptr {
		rv = rv.Elem()
	}
	if rv.Kind() == reflect.Struct {
		return dumpTyped(structMap(rv))
	}
	if rv.IsValid() && rv.Kind() == reflect.Map {
		if m, ok := rv.Interface().(map[string]interface{}); ok {
			return dumpTyped(m)
		}
	}
	return dumpTyped(x)
}

func c19Case(c *core.Case) {
	r := c.Rng
	f := mkFamily(r)
	defs := false
	for i, s := range f.specs {
		chk := func(s *model.Spec) { defs = defs || s.HasDef }
		model.Walk(s, chk)
		for _, e := range f.envOf(i) {
			model.Walk(e, chk)
		}
	}
	shared := r.Bool()
	var jobs []job
	for n := r.Range(4, 10); n > 0; n-- {
		j := job{v: r.Intn(len(f.specs))}
		j.json = model.GenValue(r, f.specs[j.v], f.envOf(j.v), 3)
		if f.text != nil {
			j.json = roundTrip(j.json)
		}
		if _, ok := j.json.(map[string]interface{}); ok {
			j.form = r.Intn(4)
			j.twin = *r.Fork()
			j.typ = freshSeq.Add(1)
		}
		first := j.input(freshSeq.Add(1))
		// alone, with validators of its own
		vs, err := f.build(r.Fork(), 0, shared)
		if err != nil {
			c.Violate("build failed", "%v\n%s", err, f)
			return
		}
		if !c.Call("validation", func() { j.want, _ = result(vs[j.v], first) }) {
			return
		}
		if w := model.Eval(f.specs[j.v], j.json, f.envOf(j.v)); j.form == 0 && w != model.Unknown && (w == model.Accept) != j.want.ok {
			c.Violate("wrong verdict", "alone: %s, the model says %s\n%s\nvalue %s", acc(j.want.ok), w, f, j)
			return
		}
		if !defs && r.P(1, 3) { // nothing to fill in: all may look at one value
			j.ro = j.input(j.typ)
		}
		jobs = append(jobs, j)
	}
	how := r.Intn(5)
	vs, err := f.build(r.Fork(), how, shared)
	if err != nil {
		c.Violate("build failed", "%v\n%s", err, f)
		return
	}
	g := r.Range(4, 16)
	rounds := r.Range(1, 3)
	firstJob := r.Intn(len(jobs))
	type step struct {
		job int
		in  interface{}
	}
	plan := make([][]step, g)
	builders := make([]bool, g)
	rngs := make([]*core.Rng, g)
	for i := range plan {
		add := func(k int) {
			in := jobs[k].ro
			if in == nil {
				in = jobs[k].input(jobs[k].typ)
			}
			plan[i] = append(plan[i], step{k, in})
		}
		if r.P(3, 4) { // the very first use is contended
			add(firstJob)
		}
		for n := 0; n < rounds; n++ {
			for _, k := range r.Perm(len(jobs)) {
				add(k)
			}
		}
		builders[i] = r.P(1, 8)
		rngs[i] = r.Fork()
	}
	all, ok := together(c, g, func(i int, log *[]call) {
		mine := vs
		if builders[i] { // builds validators of its own meanwhile
			var err error
			if mine, err = f.build(rngs[i], how, shared); err != nil {
				*log = append(*log, call{g: i, panicked: "build failed: " + err.Error()})
				return
			}
		}
		for _, s := range plan[i] {
			k := call{g: i, what: s.job, start: nanos()}
			k.out, k.err = result(mine[jobs[s.job].v], s.in)
			k.end = nanos()
			*log = append(*log, k)
		}
	})
	if !ok {
		return
	}
	for _, k := range all {
		j := jobs[k.what]
		if k.out != j.want {
			c.Violate("verdict under concurrency", "alone: %+v\nfrom %d goroutines: %+v (err=%v)\n%s\nvalue %s", j.want, g, k.out, k.err, f, j)
			return
		}
	}
	il, over := interleaving(all)
	c.Count("calls", len(all))
	c.Count("overlapping_pairs", over)
	c.Count("sections", 1)
	if over > 0 {
		c.Eval(key(il))
	} else {
		c.Eval("")
	}
	c.Sample(map[string]interface{}{"goroutines": g, "validators": f.String(), "interleaving": truncate(il, 400)})
}

func truncate(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// c19Types: many goroutines, many struct types nobody has seen.
func c19Types(c *core.Case) {
	r := c.Rng
	s := &model.Spec{Kind: model.Object}
	names := []string{"a", "b", "A", "foo", "c"}
	for _, n := range names {
		switch r.Intn(4) {
		case 0:
			s.Props = append(s.Props, model.Prop{Name: n, Spec: &model.Spec{Kind: model.String, MinLen: model.IP(r.Intn(3))}})
		case 1:
			s.Required = append(s.Required, n)
		case 2:
			s.Props = append(s.Props, model.Prop{Name: n, Spec: &model.Spec{Kind: model.Empty}})
		}
	}
	if r.Bool() {
		s.AddProps = &model.Spec{Kind: model.Empty}
	}
	v := jsval.New().SetRoot((&model.Builder{Rng: r}).Build(s))
	n := r.Range(4, 24)
	xs := make([]interface{}, 0, n)
	wants := make([]model.Verdict, 0, n)
	for i := 0; i < n; i++ {
		m := map[string]interface{}{}
		for _, k := range names {
			if r.Bool() {
				m[k] = strings.Repeat("x", r.Intn(4))
			}
		}
		t, ok := structTwin(r, m, []string{"a", "b"}, 0, true)
		if !ok {
			continue
		}
		t = freshened(t, freshSeq.Add(1))
		if r.Bool() {
			xs = append(xs, t.Interface())
		} else {
			xs = append(xs, t.Elem().Interface())
		}
		wants = append(wants, model.Eval(s, m, nil))
	}
	g := r.Range(4, 16)
	orders := make([][]int, g)
	same := r.Bool()
	for i := range orders {
		orders[i] = r.Perm(len(xs))
		if same && i > 0 {
			orders[i] = orders[0]
		}
	}
	all, ok := together(c, g, func(i int, log *[]call) {
		for _, k := range orders[i] {
			t0 := nanos()
			err := v.Validate(xs[k])
			*log = append(*log, call{g: i, what: k, start: t0, end: nanos(), out: outcome{ok: err == nil}, err: err})
		}
	})
	if !ok {
		return
	}
	for _, k := range all {
		if w := wants[k.what]; w != model.Unknown && k.out.ok != (w == model.Accept) {
			c.Violate("verdict under concurrency", "the model says %s, one of %d goroutines got %s (err=%v)\n%s\nvalue %T %+v", w, g, acc(k.out.ok), k.err, s, xs[k.what], xs[k.what])
			return
		}
	}
	il, over := interleaving(all)
	c.Count("calls", len(all))
	c.Count("new_struct_types", len(xs))
	c.Count("overlapping_pairs", over)
	if over > 0 {
		c.Eval(key(il))
	} else {
		c.Eval("")
	}
}

func init() {
	register(&core.Prop{
		ID:    "C19",
		Level: "exploration",
		Rule:  "under the race detector: families of 1-3 validators (built from constraints or schemas, half of them sharing a constraint map, with mutually recursive references nobody has resolved and struct types nobody has seen) are used by 4-16 goroutines released at once, on copies of their own and on shared read-only values, with delays injected through user constraints and resolvers, while others build validators; every call's verdict and the defaults it filled in are compared with a validator used alone (itself compared with the model); events are recorded per goroutine without synchronisation and merged offline; non-trivial = a section whose calls overlapped, distinct by order of starts and ends",
		Run: func(r *core.Run) {
			r.CasesN("sections", r.N(2500, 60000), 3, c19Case)
			r.CasesN("types", r.N(1500, 40000), 3, c19Types)
			r.CasesN("crowd", r.N(3, 20), 1, c19Crowd)
		},
	})
}

func schemaRead(text string) (*schema.Schema, error) {
	return schema.Read(strings.NewReader(text))
}

// gated lets the validations wait inside the constraint until it is opened.
type gated struct {
	jsval.Constraint
	in   *atomic.Int64
	gate chan struct{}
}

func (g gated) Validate(v interface{}) error {
	g.in.Add(1)
	<-g.gate
	return g.Constraint.Validate(v)
}

// c19Crowd: thousands of goroutines are within an outer constraint before any
// of them gets to the inner one. The gate opens by itself, so that code that
// lets in few at a time passes as well.
func c19Crowd(c *core.Case) {
	rg := c.Rng
	n := 6000
	if core.Light() >= 20 {
		n = 500
	}
	inner := jsval.Object().AddProp("b", jsval.Array().Items(jsval.String().MinLength(1))).Required("b")
	var in atomic.Int64
	gate := make(chan struct{})
	m := &jsval.ConstraintMap{}
	var k jsval.Constraint = inner
	m.SetReference("inner", inner)
	if rg.Bool() {
		k = jsval.Reference(m).RefersTo("inner")
	}
	g := gated{k, &in, gate}
	var outer jsval.Constraint
	switch rg.Intn(4) {
	case 0:
		outer = jsval.Object().AddProp("a", g)
	case 1:
		outer = jsval.Object().PatternPropertiesString("^a", jsval.All().Add(g))
	case 2:
		m.SetReference("outer", jsval.Object().AdditionalProperties(jsval.OneOf().Add(g)))
		outer = jsval.Reference(m).RefersTo("outer")
	case 3:
		outer = jsval.Object().AddProp("a", jsval.Any().Add(jsval.NullConstraint).Add(g))
	}
	v := jsval.New().SetConstraintMap(m).SetRoot(outer)
	go func() {
		for end := time.Now().Add(2 * time.Second); time.Now().Before(end) && in.Load() < int64(n); {
			time.Sleep(time.Millisecond)
		}
		close(gate)
	}()
	var wrong atomic.Int64
	_, ok := together(c, n, func(i int, log *[]call) {
		x := map[string]interface{}{"a": map[string]interface{}{"b": []interface{}{"x", fmt.Sprint(i)}}}
		if i%3 == 0 {
			x = map[string]interface{}{"a": map[string]interface{}{"b": []interface{}{""}}}
		}
		if (v.Validate(x) == nil) != (i%3 != 0) {
			wrong.Add(1)
		}
	})
	if !ok {
		return
	}
	if w := wrong.Load(); w > 0 {
		c.Violate("verdict", "%d of %d concurrent validations gave a wrong verdict", w, n)
		return
	}
	c.Count("crowd_calls", n)
	c.Eval(key("crowd", c.Idx))
}
