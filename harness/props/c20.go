package props

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/lestrrat-go/jsval"

	"verif/core"
)

// rule is something that may be configured while others validate. bad
// violates this rule alone: it must be rejected by a validation that starts
// after reg has returned, and accepted by one that ended before reg was
// called. For inverse rules (a reference that cannot be resolved yet) it is
// the other way round.
type rule struct {
	kind    string
	reg     func()
	bad     map[string]interface{}
	good    map[string]interface{}
	read    func() bool // true: registered
	inverse bool
}

type rulebook struct {
	o     *jsval.ObjectConstraint
	cm    *jsval.ConstraintMap
	rules []*rule
	base  map[string]interface{}
	deps  map[string][]string // what GetPropDependencies must report at the end
	// objects may hold an object of the same kind, this many levels deep
	depth int
}

// nested is the property that holds an object judged by the same constraint.
const nested = "nested"

func (b *rulebook) with(kv ...interface{}) map[string]interface{} {
	m := map[string]interface{}{}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	return m
}

func mkRulebook(r *core.Rng, n int, how int) *rulebook {
	b := &rulebook{o: jsval.Object(), cm: &jsval.ConstraintMap{}, base: map[string]interface{}{}, deps: map[string][]string{}}
	o := b.o.AdditionalProperties(jsval.EmptyConstraint)
	str := func() jsval.Constraint {
		if how > 0 && r.Bool() {
			return slow{jsval.String(), how}
		}
		return jsval.String()
	}
	var resolver jsval.RefResolver = b.cm
	if how > 0 && r.Bool() {
		resolver = slowResolver{b.cm, how}
	}
	if r.P(1, 3) { // recursive
		self := &jsval.ConstraintMap{}
		o.AddProp(nested, jsval.Reference(self).RefersTo("self"))
		self.SetReference("self", o)
		b.depth = r.Range(1, 12)
	}
	common := r.Range(2, 4)
	var commonTo []string
	for i := 0; i < n; i++ {
		name := func(p string) string { return fmt.Sprintf("%s_%d_", p, i) }
		k := &rule{}
		switch r.Intn(11) {
		case 0:
			k.kind = "AddProp"
			p, c := name("prop"), str()
			k.reg = func() { o.AddProp(p, c) }
			k.bad, k.good = b.with(p, 1), b.with(p, "s")
		case 1:
			k.kind = "AddProp replacing"
			p, c := name("repl"), str()
			o.AddProp(p, jsval.EmptyConstraint)
			k.reg = func() { o.AddProp(p, c) }
			k.bad, k.good = b.with(p, 1), b.with(p, "s")
		case 2:
			k.kind = "PatternPropertiesString"
			p, c := name("pats"), str()
			k.reg = func() { o.PatternPropertiesString("^"+p, c) }
			k.bad, k.good = b.with(p+"x", 1), b.with(p+"x", "s")
		case 3:
			k.kind = "PatternProperties"
			p, c := name("patx"), str()
			rx := regexp.MustCompile(p + "$")
			k.reg = func() { o.PatternProperties(rx, c) }
			k.bad, k.good = b.with("a"+p, 1), b.with("a"+p, "s")
		case 4:
			k.kind = "Required"
			p, q := name("req"), name("reqq")
			b.base[p], b.base[q] = "s", "s"
			k.reg = func() { o.Required(p, q) }
			k.bad = b.with(core.Pick(r, []string{p, q}), nil) // nil: to be taken away
			k.good = b.with()
			k.read = func() bool { return o.IsPropRequired(q) }
		case 5:
			k.kind = "Required, declared"
			p := name("reqd")
			b.base[p] = "s"
			o.AddProp(p, str())
			k.reg = func() { o.Required(p) }
			k.bad, k.good = b.with(p, nil), b.with()
			k.read = func() bool { return o.IsPropRequired(p) }
		case 6:
			k.kind = "PropDependency"
			p, q := name("from"), name("to")
			k.reg = func() { o.PropDependency(p, q) }
			k.bad, k.good = b.with(p, 1), b.with(p, 1, q, 1)
			k.read = func() bool { l := o.GetPropDependencies(p); return len(l) == 1 && l[0] == q }
			b.deps[p] = []string{q}
		case 7, 8:
			k.kind = "PropDependency, shared"
			p, q := fmt.Sprintf("shared_%d", i%common), name("sto")
			commonTo = append(commonTo, q)
			k.reg = func() { o.PropDependency(p, q) }
			k.good = b.with(p, 1)
			k.bad = b.with(p, 1, q, nil)
			k.read = func() bool {
				for _, d := range o.GetPropDependencies(p) {
					if d == q {
						return true
					}
				}
				return false
			}
			b.deps[p] = append(b.deps[p], q)
		case 9:
			k.kind = "SchemaDependency"
			p, q := name("sfrom"), name("sreq")
			dep := jsval.Object().Required(q).AdditionalProperties(jsval.EmptyConstraint)
			k.reg = func() { o.SchemaDependency(p, dep) }
			k.bad, k.good = b.with(p, 1), b.with(p, 1, q, 1)
			k.read = func() bool { return o.GetSchemaDependency(p) == jsval.Constraint(dep) }
		default:
			k.kind = "SetReference"
			p := name("ref")
			o.AddProp(p, jsval.Reference(resolver).RefersTo(p))
			c := str()
			k.reg = func() { b.cm.SetReference(p, c) }
			k.bad, k.good, k.inverse = b.with(p, "s"), nil, true
			k.read = func() bool { g, err := b.cm.GetReference(p); return err == nil && g == c }
		}
		b.rules = append(b.rules, k)
	}
	for _, q := range commonTo {
		b.base[q] = 1
	}
	return b
}

// input completes what a rule looks at to an object that obeys all others.
func (b *rulebook) input(own map[string]interface{}) map[string]interface{} {
	m := make(map[string]interface{}, len(b.base)+len(own))
	for k, v := range b.base {
		m[k] = v
	}
	for k, v := range own {
		if v == nil {
			delete(m, k)
		} else {
			m[k] = v
		}
	}
	// inside of objects that obey all rules
	for i := 0; i < b.depth; i++ {
		up := make(map[string]interface{}, len(b.base)+1)
		for k, v := range b.base {
			up[k] = v
		}
		up[nested] = m
		m = up
	}
	return m
}

const (
	opReg = iota
	opBad
	opGood
	opRead
	opLen
)

type ruleOp struct {
	op, rule   int
	start, end int64
	ok         bool // accepted, or registered
	n          int  // opLen
	g          int
}

func c20Rules(c *core.Case) {
	r := c.Rng
	how := r.Intn(5)
	b := mkRulebook(r, r.Range(3, 14), how)
	var v validator = b.o
	if r.Bool() {
		jv := jsval.New().SetRoot(b.o)
		if r.Bool() {
			jv.SetName("V")
		}
		v = jv
	}
	writers, users := r.Range(1, 4), r.Range(2, 8)
	g := writers + users
	// a clock: either the system's, which does not synchronise the
	// goroutines, or a shared counter, which orders everything exactly
	var margin int64
	var tick func() int64
	if r.P(2, 3) {
		tick, margin = nanos, 1000
	} else {
		var n atomic.Int64
		tick = func() int64 { return n.Add(1) }
	}
	plans := make([][]ruleOp, g)
	ins := make([][]map[string]interface{}, g)
	for _, k := range r.Perm(len(b.rules)) {
		w := r.Intn(writers)
		plans[w] = append(plans[w], ruleOp{op: opReg, rule: k})
		ins[w] = append(ins[w], nil)
	}
	for u := writers; u < g; u++ {
		reader := r.P(1, 4)
		for n := r.Range(10, 40); n > 0; n-- {
			p := ruleOp{op: opBad, rule: r.Intn(len(b.rules))}
			k := b.rules[p.rule]
			var in map[string]interface{}
			switch {
			case k.read != nil && (reader || r.P(1, 4)):
				p.op = opRead
			case reader && r.P(1, 3):
				p.op = opLen
			case k.good != nil && r.P(1, 3):
				p.op = opGood
				in = b.input(k.good)
			default:
				in = b.input(k.bad)
			}
			plans[u] = append(plans[u], p)
			ins[u] = append(ins[u], in)
		}
	}
	pause := make([]*core.Rng, g)
	for i := range pause {
		pause[i] = r.Fork()
	}
	logs := make([][]ruleOp, g)
	_, ok := together(c, g, func(i int, _ *[]call) {
		for j, p := range plans[i] {
			if i < writers {
				for n := pause[i].Intn(4); n > 0; n-- {
					dally(core.Pick(pause[i], []int{1, 3}))
				}
			} else if pause[i].P(1, 4) {
				dally(1)
			}
			k := b.rules[p.rule]
			p.g = i
			p.start = tick()
			switch p.op {
			case opReg:
				k.reg()
			case opRead:
				p.ok = k.read()
			case opLen:
				p.n = b.cm.Len()
			default:
				p.ok = v.Validate(ins[i][j]) == nil
			}
			p.end = tick()
			logs[i] = append(logs[i], p)
		}
	})
	if !ok {
		return
	}
	reg := make([]ruleOp, len(b.rules))
	for _, l := range logs {
		for _, p := range l {
			if p.op == opReg {
				reg[p.rule] = p
			}
		}
	}
	var order strings.Builder
	before, after, during := 0, 0, 0
	for _, l := range logs {
		for _, p := range l {
			k := b.rules[p.rule]
			q := reg[p.rule]
			// is the rule certainly registered, certainly not, or open?
			yes := q.end+margin < p.start
			no := p.end+margin < q.start
			desc := func() string {
				return fmt.Sprintf("rule %d (%s), registered by goroutine %d at [%d,%d]; goroutine %d at [%d,%d]", p.rule, k.kind, q.g, q.start, q.end, p.g, p.start, p.end)
			}
			switch p.op {
			case opReg:
				continue
			case opGood:
				if !p.ok {
					c.Violate("spurious rejection", "an object that obeys every rule was rejected: %s", desc())
					return
				}
				continue
			case opLen:
				lo, hi := 0, 0
				for i, k := range b.rules {
					if k.inverse {
						if reg[i].end+margin < p.start {
							lo++
						}
						if reg[i].start-margin <= p.end {
							hi++
						}
					}
				}
				if p.n < lo || p.n > hi {
					c.Violate("wrong count", "Len reports %d names, between %d and %d were registered", p.n, lo, hi)
					return
				}
				continue
			case opRead:
				if yes && !p.ok {
					c.Violate("lost registration", "not visible to a read that started after it: %s", desc())
					return
				}
				if no && p.ok {
					c.Violate("phantom registration", "visible to a read that ended before it: %s", desc())
					return
				}
			case opBad:
				if yes && p.ok != k.inverse {
					c.Violate("rule not enforced", "by a validation that started after the registration returned: %s\ninput %v", desc(), k.bad)
					return
				}
				if no && p.ok == k.inverse {
					c.Violate("rule enforced too early", "by a validation that ended before the registration: %s\ninput %v", desc(), k.bad)
					return
				}
			}
			w := "o"
			switch {
			case yes:
				after++
				w = "+"
			case no:
				before++
				w = "-"
			default:
				during++
			}
			fmt.Fprintf(&order, "%s%d%s%d ", k.kind, p.op, w, p.rule)
		}
	}
	// nothing was lost
	for i, k := range b.rules {
		if v.Validate(b.input(k.bad)) == nil != k.inverse {
			c.Violate("lost registration", "in the end rule %d (%s) is not enforced on %v", i, k.kind, k.bad)
			return
		}
		if k.good != nil {
			if err := v.Validate(b.input(k.good)); err != nil {
				c.Violate("spurious rejection", "in the end rule %d (%s) rejects %v: %s", i, k.kind, k.good, err)
				return
			}
		}
		if k.read != nil && !k.read() {
			c.Violate("lost registration", "in the end rule %d (%s) is not visible", i, k.kind)
			return
		}
	}
	for from, to := range b.deps {
		got := append([]string{}, b.o.GetPropDependencies(from)...)
		sort.Strings(got)
		sort.Strings(to)
		if fmt.Sprint(got) != fmt.Sprint(to) {
			c.Violate("lost registration", "dependencies of %s are %v, registered were %v", from, got, to)
			return
		}
	}
	c.Count("ops_after_registration", after)
	c.Count("ops_before_registration", before)
	c.Count("ops_during_registration", during)
	c.Count("registrations", len(b.rules))
	if margin > 0 {
		c.Count("sections_without_synchronisation", 1)
	} else {
		c.Count("sections_with_exact_order", 1)
	}
	c.Eval(key(order.String()))
	c.Sample(map[string]interface{}{"writers": writers, "users": users, "judged": truncate(order.String(), 300)})
}

type mapIn struct {
	op, name, val int
}

type mapState [4]int8

var mapModel = porcupine.Model{
	Init: func() interface{} { return mapState{} },
	Step: func(st, in, out interface{}) (bool, interface{}) {
		s, i, o := st.(mapState), in.(mapIn), out.(int)
		switch i.op {
		case 0:
			s[i.name] = int8(i.val)
			return true, s
		case 1:
			return int(s[i.name]) == o, s
		}
		n := 0
		for _, x := range s {
			if x != 0 {
				n++
			}
		}
		return n == o, s
	},
	DescribeOperation: func(in, out interface{}) string {
		i := in.(mapIn)
		return fmt.Sprintf("%s(%d,%d)=%v", []string{"Set", "Get", "Len"}[i.op], i.name, i.val, out)
	},
}

func c20Map(c *core.Case) {
	r := c.Rng
	names := []string{"a", "#/definitions/a", "", "c"}
	pool := []jsval.Constraint{nil}
	idx := map[jsval.Constraint]int{}
	for i := 1; i < 40; i++ {
		x := jsval.String().MinLength(i)
		pool = append(pool, x)
		idx[x] = i
	}
	v := jsval.New()
	cm := v.ConstraintMap
	if r.Bool() {
		cm = &jsval.ConstraintMap{}
		v.SetConstraintMap(cm)
	}
	g := r.Range(2, 6)
	nn := r.Range(1, 4)
	plans := make([][]mapIn, g)
	next := 0
	for i := range plans {
		w := r.Range(1, 3)
		for n := r.Range(3, 8); n > 0; n-- {
			op := mapIn{op: 1, name: r.Intn(nn)}
			switch {
			case r.P(w, 4):
				if next+1 < len(pool) {
					next++
					op.op, op.val = 0, next
				}
			case r.P(1, 4):
				op.op = 2
			}
			plans[i] = append(plans[i], op)
		}
	}
	type rec struct {
		in         mapIn
		out        int
		start, end int64
	}
	logs := make([][]rec, g)
	foreign := make([]string, g)
	var n atomic.Int64
	tick := nanos
	exact := r.P(1, 3)
	if exact {
		tick = func() int64 { return n.Add(1) }
	}
	rngs := make([]*core.Rng, g)
	for i := range rngs {
		rngs[i] = r.Fork()
	}
	_, ok := together(c, g, func(i int, _ *[]call) {
		for _, op := range plans[i] {
			if rngs[i].P(1, 4) {
				dally(1)
			}
			k := rec{in: op, start: tick()}
			switch op.op {
			case 0:
				if op.val%2 == 0 {
					v.SetReference(names[op.name], pool[op.val])
				} else {
					cm.SetReference(names[op.name], pool[op.val])
				}
			case 1:
				x, err := cm.GetReference(names[op.name])
				if err == nil {
					k.out = idx[x]
					if k.out == 0 {
						foreign[i] = fmt.Sprintf("%T %v", x, x)
					}
				} else if x != nil {
					foreign[i] = fmt.Sprintf("an error together with %T", x)
				}
			case 2:
				k.out = cm.Len()
			}
			k.end = tick()
			logs[i] = append(logs[i], k)
		}
	})
	if !ok {
		return
	}
	var slack int64 // for clocks that differ between cores
	if !exact {
		slack = 1000
	}
	var h []porcupine.Operation
	var all []call
	for i, l := range logs {
		if foreign[i] != "" {
			c.Violate("foreign value", "a lookup returned %s", foreign[i])
			return
		}
		for _, k := range l {
			h = append(h, porcupine.Operation{ClientId: i, Input: k.in, Output: k.out, Call: 2*k.start - slack, Return: 2*k.end + 1 + slack})
			all = append(all, call{g: i, what: k.in.op*10 + k.in.name, start: k.start, end: k.end})
		}
	}
	switch porcupine.CheckOperationsTimeout(mapModel, h, 20*time.Second) {
	case porcupine.Illegal:
		var ops []string
		sort.Slice(h, func(i, j int) bool { return h[i].Call < h[j].Call })
		for _, o := range h {
			ops = append(ops, fmt.Sprintf("[%d..%d] goroutine %d: %s", o.Call, o.Return, o.ClientId, mapModel.DescribeOperation(o.Input, o.Output)))
		}
		c.Violate("not linearizable", "this history of a constraint map:\n%s", strings.Join(ops, "\n"))
		return
	case porcupine.Unknown:
		c.Count("linearizability_unknown", 1)
		return
	}
	il, over := interleaving(all)
	c.Count("map_histories", 1)
	c.Count("map_ops", len(h))
	c.Count("map_overlapping_pairs", over)
	if over > 0 {
		c.Eval(key(il))
	} else {
		c.Eval("")
	}
}

func init() {
	register(&core.Prop{
		ID:          "C20",
		Quick:       2,
		Level:       "exploration",
		Rule:        "under the race detector: 1-4 goroutines add rules (properties, patterns, required names, property and schema dependencies, references) to an object constraint and its constraint map while 2-8 others validate and read; every rule has an input that violates it alone, so that each recorded call is judged offline by real-time order: enforced if it started after the registration returned, not enforced if it ended before, never rejecting an object that obeys all rules, nothing lost in the end; two clocks, one that does not synchronise the goroutines and one that orders them exactly. Histories of SetReference/GetReference/Len are checked for linearizability with porcupine. Non-trivial = distinct sequences of judged operations and their position relative to the registration, and histories with overlapping operations",
		Assumptions: []string{"the system's monotonic clock does not differ between cores by more than 1 microsecond (sections with the exact clock do not need this)", "rules outside the listed ones (additional properties, counts) are configured before use"},
		Run: func(r *core.Run) {
			r.CasesN("rules", r.N(4000, 100000), 3, c20Rules)
			r.CasesN("maps", r.N(6000, 200000), 3, c20Map)
		},
	})
}
