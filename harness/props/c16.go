package props

import (
	"bytes"
	"errors"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"hash/fnv"
	"os"
	"os/exec"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/lestrrat-go/jsval"

	"verif/core"
	"verif/model"
)

// faultyWriter fails in one of several ways.
type faultyWriter struct {
	mode   int // 0: error after n bytes, 1: short count without error after n bytes, 2: only the n-th Write call fails, 3: everything taken, but an error
	n      int
	got    bytes.Buffer
	calls  int
	failed bool
}

var errFaulty = errors.New("injected write error")

func (w *faultyWriter) Write(p []byte) (int, error) {
	w.calls++
	switch w.mode {
	case 0, 1:
		room := w.n - w.got.Len()
		if room >= len(p) {
			w.got.Write(p)
			return len(p), nil
		}
		w.failed = true
		w.got.Write(p[:max(room, 0)])
		if w.mode == 1 {
			return max(room, 0), nil
		}
		return max(room, 0), errFaulty
	case 2:
		if w.calls == w.n {
			w.failed = true
			return 0, errFaulty
		}
	case 3:
		w.got.Write(p)
		w.failed = true
		return len(p), errFaulty
	}
	w.got.Write(p)
	return len(p), nil
}

func c16Program(seed uint64, i int) (*program, *core.Rng, error) {
	r := core.NewRng(seed, "C16", "program", i)
	p, err := mkProgram(r)
	return p, r, err
}

// C16Child prints a hash of the generated source of n programs.
func C16Child(seed uint64, n int) {
	for i := 0; i < n; i++ {
		p, _, err := c16Program(seed, i)
		if err != nil {
			fmt.Println("build error", err)
			continue
		}
		var src string
		var perr error
		if pan, msg, _ := core.Try(func() { src, perr = p.generate() }); pan {
			fmt.Println("panic", msg)
			continue
		}
		if perr != nil {
			fmt.Println("error")
			continue
		}
		fmt.Println(hash64(src))
	}
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// generatedNames reads the declared validators, the order in which they are
// made and the numbering of the references from generated source.
func generatedNames(src string) (vals, made []string, refs map[string]string, err error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "g.go", "package p\n"+src, 0)
	if err != nil {
		return nil, nil, nil, err
	}
	refs = map[string]string{}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			vs := s.(*ast.ValueSpec)
			st, ok := vs.Type.(*ast.StarExpr)
			if !ok {
				continue
			}
			sel, ok := st.X.(*ast.SelectorExpr)
			if !ok || sel.Sel.Name != "JSVal" {
				continue
			}
			for _, n := range vs.Names {
				vals = append(vals, n.Name)
			}
		}
	}
	isVal := map[string]bool{}
	for _, n := range vals {
		isVal[n] = true
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if a, ok := n.(*ast.AssignStmt); ok && len(a.Lhs) == 1 {
			if id, ok := a.Lhs[0].(*ast.Ident); ok && isVal[id.Name] {
				made = append(made, id.Name)
			}
		}
		c, ok := n.(*ast.CallExpr)
		if !ok || len(c.Args) != 2 {
			return true
		}
		sel, ok := c.Fun.(*ast.SelectorExpr)
		if !ok || sel.Sel.Name != "SetReference" {
			return true
		}
		lit, ok := c.Args[0].(*ast.BasicLit)
		id, ok2 := c.Args[1].(*ast.Ident)
		if ok && ok2 {
			s, e := strconv.Unquote(lit.Value)
			if e != nil {
				err = e
			}
			refs[s] = id.Name
		}
		return true
	})
	return vals, made, refs, err
}

func c16Case(c *core.Case) {
	r := c.Rng
	// the program comes from a stream of its own, so that it can be made again
	p, vr, err := c16Program(c.R.Seed, c.Idx)
	if err != nil {
		c.R.Fail("cannot build: %v", err)
		return
	}
	// inputs and verdicts before
	type obs struct {
		v    int
		x    interface{}
		ok   bool
		dump string
	}
	var before []obs
	for i, v := range p.vs {
		for j := 0; j < 4; j++ {
			x := roundTrip(p.value[i](vr))
			x0 := roundTrip(x)
			res, ok := validate(c, v, x, func() string { return p.desc })
			if !ok {
				return
			}
			before = append(before, obs{i, x0, res.accepted, dumpTyped(x)})
		}
	}
	namesBefore := []string{}
	for _, v := range p.vs {
		namesBefore = append(namesBefore, v.Name)
	}
	vsBefore := append([]*jsval.JSVal(nil), p.vs...)
	g := jsval.NewGenerator()
	gen := func(g *jsval.Generator, vs []*jsval.JSVal, what string) (string, error, bool) {
		var buf bytes.Buffer
		var err error
		ok := c.Call(what+" of "+p.desc, func() { err = g.Process(&buf, vs...) })
		if ok && err != nil && buf.Len() > 0 {
			c.Violate("partial output", "Process failed (%v) but wrote %d bytes\n%s", err, buf.Len(), p.desc)
			ok = false
		}
		return buf.String(), err, ok
	}
	src, err, ok := gen(g, p.vs, "generation")
	if !ok {
		return
	}
	if err != nil {
		c.Violate("generation refused", "Process failed: %v\n%s", err, p.desc)
		return
	}
	same := func(what, s2 string, err error) bool {
		if err != nil || s2 != src {
			c.Violate("not reproducible", "%s gives other source (err=%v)\nfirst:\n%s\nnow:\n%s\n%s", what, err, src, s2, p.desc)
			return false
		}
		c.Count("repeated_generations", 1)
		return true
	}
	// formatting
	if f, err := format.Source([]byte(src)); err != nil || string(f) != src {
		c.Violate("not formatted", "the output is not gofmt-formatted (err=%v)\n%s", err, src)
		return
	}
	// names
	vals, made, refs, err := generatedNames(src)
	if err != nil {
		c.Violate("does not parse", "%v\n%s", err, src)
		return
	}
	want := append([]string(nil), p.names...)
	sort.Strings(want)
	if strings.Join(vals, " ") != strings.Join(want, " ") {
		c.Violate("wrong names", "validators are declared as %v, want %v\n%s\n%s", vals, want, p.desc, src)
		return
	}
	if strings.Join(made, " ") != strings.Join(want, " ") {
		c.Violate("wrong order", "validators are made in the order %v, want %v\n%s\n%s", made, want, p.desc, src)
		return
	}
	uniq := map[string]bool{}
	var rn []string
	for _, n := range p.refs {
		if !uniq[n] {
			uniq[n] = true
		}
	}
	for n := range refs {
		rn = append(rn, n)
	}
	sort.Strings(rn)
	for i, n := range rn {
		if refs[n] != fmt.Sprintf("R%d", i) {
			c.Violate("wrong reference number", "%q is %s, want R%d\n%s", n, refs[n], i, src)
			return
		}
		c.Count("references_numbered", 1)
	}
	if strings.HasPrefix(p.mode, "constraints with references") && len(rn) != len(uniq) {
		c.Violate("references lost", "%d references were registered, %d are generated\n%s\n%s", len(uniq), len(rn), p.desc, src)
		return
	}
	// the same validators again, also after other generations and failures
	s2, err, ok := gen(g, p.vs, "generation again")
	if !ok || !same("the same generator", s2, err) {
		return
	}
	if q, _, err := c16Program(c.R.Seed, r.Intn(1000)); err == nil {
		if _, _, ok := gen(g, q.vs, "another generation"); !ok {
			return
		}
	}
	if r.P(1, 3) {
		bad := jsval.New().SetRoot(jsval.All().Add(&probe{id: "x", log: &[]delivery{}}))
		out, err, ok := gen(g, append(append([]*jsval.JSVal(nil), p.vs...), bad), "generation with a constraint that has no source")
		if !ok {
			return
		}
		if err == nil {
			c.Violate("no error", "a user-defined constraint was generated as\n%s", out)
			return
		}
		c.Count("refusals", 1)
	}
	s2, err, ok = gen(g, p.vs, "generation after others")
	if !ok || !same("the same generator after other generations", s2, err) {
		return
	}
	if allNamed := !slices.Contains(namesBefore, ""); allNamed && len(p.vs) > 1 {
		vs := append([]*jsval.JSVal(nil), p.vs...)
		for i, j := range r.Perm(len(vs)) {
			vs[i] = p.vs[j]
		}
		s2, err, ok = gen(g, vs, "generation in another order")
		if !ok || !same("passing named validators in another order", s2, err) {
			return
		}
		c.Count("reordered_generations", 1)
	}
	s2, err, ok = gen(jsval.NewGenerator(), p.vs, "generation by a new generator")
	if !ok || !same("a new generator", s2, err) {
		return
	}
	// after validations the sources must be the same too
	for _, o := range before {
		x := model.Copy(o.x)
		res, ok := validate(c, p.vs[o.v], x, func() string { return p.desc })
		if !ok {
			return
		}
		if res.accepted != o.ok || dumpTyped(x) != o.dump {
			c.Violate("validator changed", "before generation: accept=%v, %s; after: accept=%v, %s\ninput %s\n%s", o.ok, o.dump, res.accepted, dumpTyped(x), model.JSON(o.x), p.desc)
			return
		}
	}
	for i, v := range p.vs {
		if v.Name != namesBefore[i] || v != vsBefore[i] {
			c.Violate("validator changed", "validator %d was named %q, after generation %q (moved: %v)", i, namesBefore[i], v.Name, v != vsBefore[i])
			return
		}
	}
	// rebuilt
	if p2, _, err := c16Program(c.R.Seed, c.Idx); err == nil {
		s2, err, ok = gen(g, p2.vs, "generation of the rebuilt validators")
		if !ok || !same("rebuilding", s2, err) {
			return
		}
	}
	// faults while writing
	pos := []int{0, 1, len(src) - 1, r.Intn(len(src)), r.Intn(len(src))}
	for k := 0; k < 9; k++ {
		w := &faultyWriter{}
		switch {
		case k < 5:
			w.mode, w.n = r.Intn(2), pos[k]
		case k < 7:
			w.mode, w.n = 2, core.Pick(r, []int{1, 1, 2, 3, 10, 100})
		case k == 7:
			w.mode = 3
		case k == 8:
			w.mode, w.n = r.Intn(2), len(src) // nothing fails
		}
		var err error
		if !c.Call("generation into a failing writer", func() { err = g.Process(w, p.vs...) }) {
			return
		}
		switch {
		case w.failed && err == nil:
			c.Violate("write failure not reported", "mode %d at %d: the writer took %d of %d bytes and failed, Process returned nil\n%s", w.mode, w.n, w.got.Len(), len(src), p.desc)
			return
		case !w.failed && err != nil:
			c.Violate("false error", "no write failed, Process returned %v", err)
			return
		case err == nil && w.got.String() != src:
			c.Violate("incomplete output", "Process returned nil, the writer holds %d of %d bytes", w.got.Len(), len(src))
			return
		}
		if w.failed {
			c.Count("injected_write_faults", 1)
			c.Count("write_fault_mode_"+strconv.Itoa(w.mode), 1)
		}
	}
	s2, err, ok = gen(g, p.vs, "generation after failed writes")
	if !ok || !same("generation after failed writes", s2, err) {
		return
	}
	if len(src) < 800 {
		c.Sample(map[string]interface{}{"from": p.desc, "names": vals, "references": refs})
	}
	c.Count("mode_"+p.mode, 1)
	c.Eval(key(src))
}

func init() {
	register(&core.Prop{
		ID:    "C16",
		Level: "exploration",
		Rule:  "random programs (see C15) are generated repeatedly, interleaved with other and failing generations, with validations, from rebuilt validators and in other processes; the bytes must be equal, formatted, with the variable names and reference numbers read from their syntax tree; writers that fail at sampled byte positions or calls must surface as errors; verdicts, names and order of the validators are compared before and after",
		Run: func(r *core.Run) {
			n := r.N(6000, 60000)
			r.Cases("generate", n, c16Case)
			// other processes
			m := r.N(1500, 8000)
			procs := r.N(4, 12)
			outs := make([][]string, procs)
			r.CasesN("processes", procs, 4, func(c *core.Case) {
				exe, err := os.Executable()
				if err != nil {
					r.Fail("%v", err)
					return
				}
				cmd, done := command(400*time.Second, exe, "-prop", "C16", "-child", strconv.Itoa(m), "-seed", strconv.FormatUint(r.Seed, 10))
				defer done()
				cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", 1+c.Idx), fmt.Sprintf("VERIF_PAD=%s", strings.Repeat("x", 100*c.Idx)))
				out, err := cmd.Output()
				if timedOut(cmd) {
					c.Violate("hang", "generation in another process does not finish")
					return
				}
				if err != nil {
					if x, ok := err.(*exec.ExitError); ok && strings.Contains(string(x.Stderr), "fatal error:") {
						c.Violate("crash", "generation crashed: %.2000s", x.Stderr)
						return
					}
					r.Fail("child: %v", err)
					return
				}
				outs[c.Idx] = strings.Split(strings.TrimSpace(string(out)), "\n")
				c.Eval(key("process", c.Idx))
			})
			if r.Stopped() || r.OnlyCase >= 0 {
				return
			}
			r.Cases("compare", m, func(c *core.Case) {
				for k := 1; k < procs; k++ {
					if outs[0] == nil || outs[k] == nil {
						return
					}
					if len(outs[k]) != m || len(outs[0]) != m {
						r.Fail("child printed %d lines", len(outs[k]))
						return
					}
					if outs[k][c.Idx] != outs[0][c.Idx] {
						p, _, _ := c16Program(r.Seed, c.Idx)
						c.Violate("differs between processes", "hash of the source: %s and %s\n%s", outs[0][c.Idx], outs[k][c.Idx], p.desc)
						return
					}
					c.Count("cross_process_comparisons", 1)
				}
				c.Eval(key("compare", outs[0][c.Idx]))
			})
			r.Cases("sizes", len(genFamilies)*len(sizeSweep)*r.N(1, 4), generateSized)
			r.Cases("refused", r.N(1500, 20000), refusedCase)
			r.Cases("odd-names", r.N(1500, 20000), oddNames)
		},
	})
}

// oddNames: validators whose name is no Go identifier. Whatever the generator
// makes of them, a nil error stands for formatted source, an error for no
// output.
func oddNames(c *core.Case) {
	r := c.Rng
	p, err := mkProgram(r)
	if err != nil {
		c.R.Fail("cannot build: %v", err)
		return
	}
	name := core.Pick(r, []string{"not a name", "1", "a-b", "func", "a.b", "+", "\"", "`", "a\nb", "type", "V0;", "日本 語", "x=1\nvar y", "(", "{", "}", "//", "/*", "\x00", "a,b", "[]", "..."})
	v := core.Pick(r, p.vs)
	if r.Bool() {
		v.SetName(name)
	} else {
		v.Name = name
	}
	first := ""
	var ferr error
	for i := 0; i < 2; i++ {
		var buf bytes.Buffer
		var err error
		if !c.Call(fmt.Sprintf("generation with the name %q of %s", name, p.desc), func() { err = jsval.NewGenerator().Process(&buf, p.vs...) }) {
			return
		}
		if err != nil && buf.Len() > 0 {
			c.Violate("partial output", "name %q: Process failed (%v) but wrote %d bytes", name, err, buf.Len())
			return
		}
		if err == nil {
			if f, ferr := format.Source(buf.Bytes()); ferr != nil || !bytes.Equal(f, buf.Bytes()) {
				c.Violate("not formatted", "name %q: no error, but the output is not gofmt-formatted (%v)\n%s", name, ferr, truncate(buf.String(), 3000))
				return
			}
			c.Count("odd_names_accepted", 1)
		} else {
			c.Count("odd_names_refused", 1)
		}
		if i == 1 && (buf.String() != first || (err == nil) != (ferr == nil)) {
			c.Violate("not reproducible", "name %q: errors %v and %v", name, ferr, err)
			return
		}
		first, ferr = buf.String(), err
	}
	c.Eval(key("odd", name, p.desc))
}

var genFamilies = []string{"names", "chain", "props", "required", "patterns", "defaults", "enum", "any", "positional", "validators"}

// generateSized: any number of rules, references or validators gives the same
// source from validators that were made in different orders.
func generateSized(c *core.Case) {
	rg := c.Rng
	f := genFamilies[c.Idx%len(genFamilies)]
	n := min(sizeSweep[c.Idx/len(genFamilies)%len(sizeSweep)], 310)
	var specs []*model.Spec
	env := model.Env{}
	if f == "validators" {
		for i := 0; i < n; i++ {
			specs = append(specs, intSpec(i))
		}
	} else {
		s, _, e := sized(rg, f, n)
		specs, env = []*model.Spec{s}, e
	}
	var first string
	for k := 0; k < 3; k++ {
		cm := &jsval.ConstraintMap{}
		b := &model.Builder{Rng: rg, Resolver: cm}
		registerAll(rg, cm.SetReference, b, env, envNames(env))
		vs := make([]*jsval.JSVal, len(specs))
		names := make([]string, len(specs))
		for i, j := range rg.Perm(len(specs)) {
			names[i] = fmt.Sprintf("W%d", j)
			vs[i] = jsval.New().SetName(names[i]).SetConstraintMap(cm).SetRoot(b.Build(specs[j]))
		}
		sort.Strings(names)
		var buf bytes.Buffer
		var err error
		if !c.Call("generation", func() { err = jsval.NewGenerator().Process(&buf, vs...) }) {
			return
		}
		if err != nil {
			c.Violate("generation refused", "%s with %d rules: Process failed: %v", f, n, err)
			return
		}
		src := buf.String()
		if k == 0 {
			first = src
			vals, made, refs, err := generatedNames(src)
			if err != nil {
				c.Violate("does not parse", "%s with %d rules: %v", f, n, err)
				return
			}
			if strings.Join(vals, " ") != strings.Join(names, " ") || strings.Join(made, " ") != strings.Join(names, " ") {
				c.Violate("wrong order", "%s with %d rules: validators are declared as %v and made as %v, want %v", f, n, vals, made, names)
				return
			}
			for i, n := range envNames(env) {
				if refs[n] != fmt.Sprintf("R%d", i) {
					c.Violate("wrong reference number", "%q is %s, want R%d", n, refs[n], i)
					return
				}
			}
			if g, err := format.Source([]byte(src)); err != nil || string(g) != src {
				c.Violate("not formatted", "%s with %d rules: the output is not gofmt-formatted (err=%v)", f, n, err)
				return
			}
		} else if src != first {
			c.Violate("not reproducible", "%s with %d rules: made again, the source differs\n%s\nnow:\n%s", f, n, truncate(first, 3000), truncate(src, 3000))
			return
		}
	}
	c.Eval(key("sized", f, n))
	c.Count("sized_"+f, 1)
}
