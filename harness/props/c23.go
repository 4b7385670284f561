package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"

	"verif/core"
	"verif/model"
)

func readFiles(dir string, names ...string) (string, error) {
	var sb strings.Builder
	for _, n := range names {
		b, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			return "", err
		}
		fmt.Fprintf(&sb, "== %s\n%s\n", n, b)
	}
	return sb.String(), nil
}

// otherBuild runs the check of property p with bin, a build of the monitors
// with another rendering of the library. Unless it is strict, it only matters
// what holds with the ordinary build.
func otherBuild(c *core.Case, bin, p, tier, how string, strict bool, env []string) bool {
	r := c.R
	ev := filepath.Join(r.Work, "ev")
	os.MkdirAll(filepath.Join(ev, "replay"), 0755)
	wk := filepath.Join(r.Work, "w-"+p)
	os.MkdirAll(wk, 0755)
	defer os.RemoveAll(wk)
	args := []string{"-prop", p, "-tier", tier, "-seed", fmt.Sprint(r.Seed), "-repo", r.Repo, "-work", wk, "-evidence", ev, "-harness", r.Harness}
	os.Remove(filepath.Join(ev, p+".json"))
	m2, done := command(400*time.Second, bin, args...)
	defer done()
	m2.Env = append(os.Environ(), env...)
	var so, se tailBuf
	m2.Stdout, m2.Stderr = &so, &se
	// the check has a watchdog of its own
	stop := make(chan struct{})
	defer close(stop)
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(10 * time.Second):
				c.Beat()
			}
		}
	}()
	err := m2.Run()
	if timedOut(m2) {
		r.Fail("%s the check of %s does not finish in time", how, p)
		return false
	}
	if err != nil && !strict {
		one := exec.Command(os.Args[0], args...)
		one.Env = m2.Env
		if one.Run() != nil {
			c.Count("broken_in_the_ordinary_build_too", 1)
			return true
		}
	}
	ee, _ := err.(*exec.ExitError)
	out := append(append([]byte{}, so.b...), se.b...)
	switch {
	case err == nil:
	case ee != nil && ee.ExitCode() == 1 || bytes.Contains(out, []byte("fatal error:")):
		c.Violate("contract broken", "%s the library breaks %s:\n%s", how, p, strings.ReplaceAll(string(out), "VIOLATION", "violation"))
		return false
	default:
		r.Fail("%s %s: %v\n%s", p, how, err, out)
		return false
	}
	var e struct {
		Coverage struct {
			Evaluations int `json:"evaluations"`
		} `json:"coverage"`
	}
	if b, err := os.ReadFile(filepath.Join(ev, p+".json")); err == nil {
		json.Unmarshal(b, &e)
	}
	c.Count("evaluations_of_"+p+"_"+strings.ReplaceAll(how, " ", "_"), e.Coverage.Evaluations)
	c.Count("bytes_printed_"+strings.ReplaceAll(how, " ", "_"), so.n)
	return true
}

// tailBuf keeps the end of what is written to it.
type tailBuf struct {
	b []byte
	n int
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.n += len(p)
	t.b = append(t.b, p...)
	if len(t.b) > 20000 {
		t.b = append([]byte(nil), t.b[len(t.b)-3000:]...)
	}
	return len(p), nil
}

// maybeGenerator runs genmaybe in scratch directories and puts what it writes
// in the library's place.
func maybeGenerator(c *core.Case) {
	r := c.R
	bin := filepath.Join(r.Work, "genmaybe")
	if !goBuild(r, "./internal/cmd/genmaybe", bin) {
		return
	}
	files := []string{"maybe.go", "maybe_gen_test.go"}
	first := ""
	var dir string
	for i := 0; i < 12; i++ {
		d := filepath.Join(r.Work, fmt.Sprintf("maybe%d", i%8))
		os.MkdirAll(d, 0755)
		if i >= 4 && i < 8 { // over old files
			for _, f := range files {
				os.WriteFile(filepath.Join(d, f), bytes.Repeat([]byte("junk\n"), 10000), 0644)
			}
		}
		cmd, done := command(100*time.Second, bin)
		defer done()
		cmd.Dir = d
		out, err := cmd.CombinedOutput()
		if err != nil {
			c.Violate("generator fails", "genmaybe: %v\n%s", err, out)
			return
		}
		all, err := readFiles(d, files...)
		if err != nil {
			c.Violate("generator fails", "genmaybe did not write its files: %v\n%s", err, out)
			return
		}
		if first == "" {
			first, dir = all, d
		}
		if all != first {
			c.Violate("not reproducible", "run %d of genmaybe wrote other bytes:\n%.3000s\n--- instead of\n%.3000s", i, all, first)
			return
		}
		c.Count("genmaybe_runs", 1)
	}
	// the library with the regenerated file
	rep := map[string]string{}
	for _, f := range files {
		rep[filepath.Join(r.Repo, f)] = filepath.Join(dir, f)
	}
	ov := filepath.Join(r.Work, "overlay.json")
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	os.WriteFile(ov, b, 0644)
	cmd := exec.Command("go", "build", "-overlay", ov, "-o", filepath.Join(r.Work, "mon2"), "./cmd/mon")
	cmd.Dir = r.Harness
	if out, err := cmd.CombinedOutput(); err != nil {
		c.ViolateD("does not compile", map[string]string{"maybe.go": first}, "the library does not compile with the regenerated maybe.go:\n%.3000s", out)
		return
	}
	props := []string{"C11", "C10", "C09"}
	if r.Tier != "quick" {
		props = append(props, "C17", "C18")
	}
	for _, p := range props {
		tier := r.Tier
		if p != "C11" {
			tier = "quick"
		}
		if !otherBuild(c, filepath.Join(r.Work, "mon2"), p, tier, "with the regenerated maybe.go", p == "C11", nil) {
			return
		}
		c.Eval(key("contract", p, first))
	}
	// the sanity test (and the package's other tests) with both files
	cmd = exec.Command("go", "test", "-vet=off", "-count=1", "-overlay", ov, "-v", ".")
	cmd.Dir = r.Repo
	out, err := cmd.CombinedOutput()
	if err != nil {
		c.Violate("tests fail", "with the regenerated files the package's tests fail:\n%.4000s", out)
		return
	}
	n := strings.Count(string(out), "--- PASS: TestSanity/Maybe")
	if n < 6 {
		c.Violate("tests missing", "the regenerated sanity test covers %d Maybe types:\n%.2000s", n, out)
		return
	}
	c.Count("tests_passed_with_regenerated_files", strings.Count(string(out), "--- PASS: "))
	c.Sample(map[string]interface{}{"files": files, "bytes": len(first), "properties": props})
	c.Eval(key("sanity", first))
}

// afterImports cuts the package clause and the imports of a Go file.
func afterImports(src []byte) (string, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "g.go", src, parser.ImportsOnly)
	if err != nil {
		return "", err
	}
	end := f.Name.End()
	for _, d := range f.Decls {
		if d.End() > end {
			end = d.End()
		}
	}
	return string(src[fs.Position(end).Offset:]), nil
}

// runGentest runs the test generator twice.
func runGentest(c *core.Case, text string) (string, bool) {
	dir := filepath.Join(c.R.Work, fmt.Sprintf("gt-%s-%d", c.Stage, c.Idx))
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	in := filepath.Join(dir, "schema.json")
	os.WriteFile(in, []byte(text), 0644)
	var first []byte
	for i := 0; i < 3; i++ {
		out := filepath.Join(dir, fmt.Sprintf("out%d_test.go", i%2))
		if i == 1 && c.Idx%2 == 0 { // over an old file
			os.WriteFile(out, bytes.Repeat([]byte("// junk\n"), 1+c.Idx%7*20000), 0644)
		}
		cmd, done := command(100*time.Second, filepath.Join(c.R.Work, "gentest"), in, out)
		defer done()
		cmd.Dir = dir
		msg, err := cmd.CombinedOutput()
		if err != nil {
			c.Violate("generator fails", "gentest: %v\n%s\n%s", err, msg, text)
			return "", false
		}
		b, err := os.ReadFile(out)
		if err != nil {
			c.Violate("generator fails", "gentest did not write its file: %v\n%s\n%s", err, msg, text)
			return "", false
		}
		if i == 0 {
			first = b
		} else if !bytes.Equal(first, b) {
			c.Violate("not reproducible", "gentest wrote\n%.2000s\n--- and then\n%.2000s\n%s", first, b, text)
			return "", false
		}
		c.Count("gentest_runs", 1)
	}
	src, err := afterImports(first)
	if err != nil {
		c.ViolateD("does not compile", nil, "gentest wrote a file that does not parse: %v\n%s\n%s", err, first, text)
		return "", false
	}
	return src, true
}

func gentestCases(r *core.Run, batch, size int) {
	var mu sync.Mutex
	var ps []*genProg
	meta, err := os.ReadFile(filepath.Join(r.Repo, "schema.json"))
	if err != nil {
		r.Fail("%v", err)
		return
	}
	r.Cases(fmt.Sprintf("gentest%d", batch), size, func(c *core.Case) {
		rg := c.Rng
		p := &program{mode: "gentest"}
		var text string
		if c.Idx == 0 { // the file it is there for
			text = string(meta)
			p.value = append(p.value, func(r *core.Rng) interface{} {
				switch r.Intn(4) {
				case 0:
					return hostileDoc(r)
				case 1:
					return model.GenJSON(r, 3)
				case 2:
					return model.GenRefDoc(r, model.SOpts{Depth: 2}, false)
				}
				return model.GenSchema(r, model.SOpts{Depth: 2, Formats: true, Stray: true})
			})
		} else {
			var doc model.M
			if rg.Bool() {
				doc = model.GenRefDoc(rg, model.SOpts{Depth: 2, Defaults: rg.P(1, 3)}, true)
			} else {
				doc = model.GenSchema(rg, model.SOpts{Depth: rg.Range(1, 3), Formats: true, Stray: true, Mixed: rg.P(1, 3), Defaults: rg.P(1, 3)})
			}
			text = model.Encode(rg, doc)
			d := model.ReadDoc(doc)
			p.value = append(p.value, func(r *core.Rng) interface{} { return model.GenValue(r, d.Spec, d.Env, 4) })
		}
		p.desc = "gentest on " + truncate(text, 3000)
		s, err := schemaRead(text)
		if err != nil {
			c.R.Fail("cannot read: %v\n%s", err, text)
			return
		}
		var v *jsval.JSVal
		if !c.Call("building", func() { v, err = builder.New().Build(s) }) {
			return
		}
		if err != nil {
			c.Violate("build failed", "%v\n%s", err, text)
			return
		}
		src, ok := runGentest(c, text)
		if !ok {
			return
		}
		names, _, _, err := generatedNames(src)
		if err != nil || len(names) != 1 {
			c.Violate("does not compile", "gentest wrote the validators %v: %v\n%s", names, err, src)
			return
		}
		p.vs, p.names = []*jsval.JSVal{v}, names
		g := &genProg{c: c, p: p, src: src, idx: c.Idx}
		n := 24
		if c.Idx == 0 {
			n = 600
		}
		if !g.fillTasks(n) {
			return
		}
		c.Count("gentest_programs", 1)
		mu.Lock()
		ps = append(ps, g)
		mu.Unlock()
	})
	if len(ps) > 0 && !r.Stopped() {
		sort.Slice(ps, func(i, j int) bool { return ps[i].idx < ps[j].idx })
		runGenerated(r, filepath.Join(r.Work, "gen"), ps)
	}
}

func init() {
	register(&core.Prop{
		ID:          "C23",
		Level:       "exploration",
		Rule:        "genmaybe, built from the current tree, is run repeatedly in scratch directories (empty, with old files); the library is recompiled with what it wrote in place of maybe.go and the checks of C11 (histories of every Maybe type), C10 and C09 (structs and defaults) are run on that library, and the package's tests with the regenerated sanity test; gentest is run on the repository's schema.json and on random schemas, its output compiled and run beside the validators built from the same schemas; non-trivial = distinct (contract, file) and distinct (source, input) pairs",
		Assumptions: []string{"bytes are compared between runs, never with the committed files"},
		Run: func(r *core.Run) {
			r.CasesN("genmaybe", 1, 1, maybeGenerator)
			if r.Stopped() || !goBuild(r, "./internal/cmd/gentest", filepath.Join(r.Work, "gentest")) {
				return
			}
			for b := 0; b < r.N(1, 12) && !r.Stopped(); b++ {
				gentestCases(r, b, r.N(120, 200))
			}
		},
	})
}
