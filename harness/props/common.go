// Package props holds one check per property.
package props

import (
	"context"
	"fmt"
	"os/exec"
	"strings"
	"sync"
	"time"

	"github.com/lestrrat-go/jsval"

	"verif/core"
	"verif/model"
)

// All lists the checks.
var All = map[string]*core.Prop{}

func register(p *core.Prop) { All[p.ID] = p }

// verdict runs one validation of the real code under the panic monitor.
type verdict struct {
	accepted bool
	err      error
	panicked bool
}

type validator interface{ Validate(interface{}) error }

func validate(c *core.Case, v validator, x interface{}, what func() string) (verdict, bool) {
	var err error
	p, msg, stack := c.Try(func() { err = v.Validate(x) })
	if p {
		c.ViolateD("panic", strings.Split(stack, "\n"), "Validate panicked: %s\n%s", msg, what())
		return verdict{panicked: true}, false
	}
	return verdict{accepted: err == nil, err: err}, true
}

// expect judges x with v and compares with the model's verdict.
func expect(c *core.Case, v validator, x interface{}, want model.Verdict, what func() string) bool {
	if want == model.Unknown {
		c.Count("model_unknown", 1)
		return true
	}
	got, ok := validate(c, v, x, what)
	if !ok {
		return false
	}
	if got.accepted != (want == model.Accept) {
		c.Violate("wrong verdict", "model says %s, the code says %s (err=%v)\n%s", want, acc(got.accepted), got.err, what())
		return false
	}
	c.Count("verdict_"+want.String(), 1)
	return true
}

func acc(b bool) string {
	if b {
		return "accept"
	}
	return "reject"
}

// newRoot wraps a constraint in a JSVal half of the time, so that both entry
// points are exercised.
func newRoot(r *core.Rng, c jsval.Constraint) validator {
	switch r.Intn(12) { // wrappings that change nothing
	case 0:
		c = jsval.All().Add(c)
	case 1:
		c = jsval.All().Add(jsval.EmptyConstraint).Add(c)
	case 2:
		m := &jsval.ConstraintMap{}
		m.SetReference("x", c)
		c = jsval.Reference(m).RefersTo("x")
	}
	switch r.Intn(3) {
	case 0:
		return jsval.New().SetRoot(c)
	case 1:
		return jsval.New().SetName("v").SetRoot(c)
	}
	return c
}

func show(spec *model.Spec, env model.Env, v interface{}) func() string {
	return func() string {
		return fmt.Sprintf("constraint: %s\nrefs:%s\nvalue: %s", spec, model.DescribeEnv(env), model.JSON(v))
	}
}

func key(parts ...interface{}) string { return fmt.Sprint(parts...) }

// probe is a user-defined constraint that records what it is given.
type probe struct {
	id   string
	log  *[]delivery
	pass func(v interface{}) bool
	def  interface{}
	has  bool
}

// rawNames are not UTF-8: no JSON document has such names, but Go maps do.
var rawNames = []string{"\xff", "\ufffd", "a\xff", "a\xfe", "\xe6\x97", "x-\x80"}

type delivery struct {
	ID  string
	Val interface{}
}

type probeErr struct{ id string }

func (e probeErr) Error() string { return "probe " + e.id + " rejects" }

func (p *probe) Validate(v interface{}) error {
	*p.log = append(*p.log, delivery{p.id, v})
	if p.pass == nil || p.pass(v) {
		return nil
	}
	return probeErr{p.id}
}
func (p *probe) HasDefault() bool          { return p.has }
func (p *probe) DefaultValue() interface{} { return p.def }

// command is exec.Command with a time limit; done must be called.
func command(limit time.Duration, name string, args ...string) (*exec.Cmd, func()) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.WaitDelay = 5 * time.Second
	limits.Store(cmd, ctx)
	return cmd, func() {
		limits.Delete(cmd)
		cancel()
	}
}

var limits sync.Map

// timedOut: was the command ended by its time limit?
func timedOut(cmd *exec.Cmd) bool {
	ctx, ok := limits.Load(cmd)
	return ok && ctx.(context.Context).Err() == context.DeadlineExceeded
}
