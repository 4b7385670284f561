package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"

	"verif/core"
	"verif/model"
)

// goBuild builds a package of the repository under test.
func goBuild(r *core.Run, pkg, out string, flags ...string) bool {
	args := append([]string{"build", "-o", out}, flags...)
	cmd := exec.Command("go", append(args, pkg)...)
	cmd.Dir = r.Repo
	if b, err := cmd.CombinedOutput(); err != nil {
		r.Fail("go build %s: %v\n%s", pkg, err, b)
		return false
	}
	return true
}

// walkPtr resolves a JSON pointer (without escapes).
func walkPtr(doc interface{}, ptr string) (interface{}, bool) {
	if ptr == "" {
		return doc, true
	}
	if ptr[0] != '/' {
		return nil, false
	}
	for _, tok := range strings.Split(ptr[1:], "/") {
		switch x := doc.(type) {
		case map[string]interface{}:
			e, ok := x[tok]
			if !ok {
				return nil, false
			}
			doc = e
		case []interface{}:
			i, err := strconv.Atoi(tok)
			if err != nil || i < 0 || i >= len(x) || tok != strconv.Itoa(i) {
				return nil, false
			}
			doc = x[i]
		default:
			return nil, false
		}
	}
	return doc, true
}

var (
	schemaMaps  = map[string]bool{"definitions": true, "properties": true}
	schemaSubs  = map[string]bool{"not": true, "items": true, "additionalItems": true, "additionalProperties": true}
	schemaLists = map[string]bool{"allOf": true, "anyOf": true, "oneOf": true}
)

// pointers lists where the subschemas of a document are, and where other
// things are.
func pointers(doc model.M) (schemas, others []string) {
	plain := func(s string) bool { return s != "" && !strings.ContainsAny(s, "/~%\"\\") }
	var walk func(p string, m map[string]interface{})
	walk = func(p string, m map[string]interface{}) {
		for _, k := range model.SortedKeys(m) {
			q := p + "/" + k
			switch x := m[k].(type) {
			case map[string]interface{}:
				switch {
				case schemaMaps[k]:
					for _, n := range model.SortedKeys(x) {
						if s, ok := x[n].(map[string]interface{}); ok && plain(n) {
							schemas = append(schemas, q+"/"+n)
							walk(q+"/"+n, s)
						}
					}
				case schemaSubs[k]:
					schemas = append(schemas, q)
					walk(q, x)
				}
			case []interface{}:
				others = append(others, q)
				if schemaLists[k] {
					for i, e := range x {
						if s, ok := e.(map[string]interface{}); ok {
							schemas = append(schemas, fmt.Sprintf("%s/%d", q, i))
							walk(fmt.Sprintf("%s/%d", q, i), s)
						}
					}
				}
			default:
				if k != "$ref" {
					others = append(others, q)
				}
			}
		}
	}
	walk("", doc)
	arg := func(l []string) (out []string) { // what can be an argument of a command
		for _, s := range l {
			if !strings.Contains(s, "\x00") {
				out = append(out, s)
			}
		}
		return
	}
	return arg(schemas), arg(others)
}

// libraryOutput is what the library makes of the parts of a document.
func libraryOutput(text string, ptrs []string, prefix string) (out string, err error, known bool) {
	p, _, _ := core.Try(func() {
		var m map[string]interface{}
		if err = json.Unmarshal([]byte(text), &m); err != nil {
			return
		}
		var parts []string
		if len(ptrs) == 0 {
			parts = []string{text}
		}
		for _, q := range ptrs {
			e, ok := walkPtr(m, q)
			if _, isMap := e.(map[string]interface{}); !ok || !isMap {
				err = errors.New("no schema at " + q)
				return
			}
			b, _ := json.Marshal(e)
			parts = append(parts, string(b))
		}
		var vs []*jsval.JSVal
		for i, t := range parts {
			s, e := schemaRead(t)
			if e != nil {
				err = e
				return
			}
			var ctx map[string]interface{}
			json.Unmarshal([]byte(text), &ctx)
			v, e := builder.New().BuildWithCtx(s, ctx)
			if e != nil {
				err = e
				return
			}
			if prefix != "" {
				v.SetName(fmt.Sprint(prefix, i))
			}
			vs = append(vs, v)
		}
		var sb strings.Builder
		err = jsval.NewGenerator().Process(&sb, vs...)
		out = sb.String()
	})
	return out, err, !p && strings.TrimSpace(text) != "null"
}

func c22Case(c *core.Case) {
	r := c.Rng
	dir := filepath.Join(c.R.Work, fmt.Sprintf("c22-%d", c.Idx))
	if err := os.MkdirAll(dir, 0755); err != nil {
		c.R.Fail("%v", err)
		return
	}
	defer os.RemoveAll(dir)

	// the schema
	var doc model.M
	var text, kind string
	good := true // building and generating certainly succeeds
	switch r.Intn(10) {
	case 0, 1, 2:
		kind = "schema"
		doc = model.GenSchema(r, model.SOpts{Depth: r.Range(1, 3), Formats: true, Stray: true, Mixed: r.P(1, 3), Defaults: r.P(1, 3)})
		text = model.Encode(r, doc)
	case 3, 4, 5, 6:
		kind = "references"
		doc = model.GenRefDoc(r, model.SOpts{Depth: 2, Defaults: r.P(1, 3)}, false)
		text = model.Encode(r, doc)
	case 7:
		kind = "root reference"
		doc = model.GenRefDoc(r, model.SOpts{Depth: 2}, false)
		if d, ok := doc["definitions"].(map[string]interface{}); ok && len(d) > 0 {
			ps, _ := pointers(model.M{"definitions": d})
			if len(ps) > 0 {
				doc = model.M{"$ref": "#" + core.Pick(r, ps), "definitions": d}
			}
		}
		text = model.Encode(r, doc)
		good = false // the part may refer to what is gone
	default:
		var b []byte
		b, kind = playBody(r)
		text = string(b)
		good = false
	}
	var ptrs []string
	if doc != nil && r.P(1, 2) && !strings.Contains(text, `"#"`) {
		ss, os := pointers(doc)
		n := r.Range(1, 4)
		if r.P(1, 6) {
			n = core.Pick(r, []int{9, 10, 11, 12, 16, 17, 27, 40, 101})
		}
		for k := n; k > 0; k-- {
			switch {
			case r.P(1, 12*n/2+1):
				kind, good = "bad pointer", false
				bad := []string{"/nope", "definitions", "/definitions/nope/x", "#/definitions/a", "/properties/0/1", "x"}
				if len(os) > 0 && r.Bool() {
					bad = os
				}
				ptrs = append(ptrs, core.Pick(r, bad))
			case len(ss) > 0:
				ptrs = append(ptrs, core.Pick(r, ss))
			}
		}
		if len(ptrs) > 0 && kind == "root reference" {
			good = false
		}
	}
	prefix := ""
	if r.Bool() {
		prefix = core.Pick(r, []string{"V", "Foo", "my", "X_", "Validator", "Ünï"})
		if r.P(1, 20) {
			prefix, good = core.Pick(r, []string{"1x", "a-b", "a b", "\""}), false
		}
	}
	c.Beat()
	want, wantErr, known := libraryOutput(text, ptrs, prefix)
	if !known {
		c.Count("left_open", 1)
		return
	}
	if good && wantErr != nil {
		c.Violate("library", "the library cannot generate %v of %s: %v", ptrs, text, wantErr)
		return
	}
	in := filepath.Join(dir, "schema.json")
	if err := os.WriteFile(in, []byte(text), 0644); err != nil {
		c.R.Fail("%v", err)
		return
	}
	src := in
	fails := wantErr != nil
	if r.P(1, 20) {
		src = core.Pick(r, []string{filepath.Join(dir, "nope.json"), dir, filepath.Join(in, "x"), ""})
		fails, kind = true, "unreadable schema"
	}

	// the output
	var args [][]string
	opt := func(short, long, v string) {
		switch r.Intn(3) {
		case 0:
			args = append(args, []string{"-" + short, v})
		case 1:
			args = append(args, []string{"--" + long, v})
		default:
			args = append(args, []string{"--" + long + "=" + v})
		}
	}
	if src != "" || r.Bool() {
		opt("s", "schema", src)
	}
	out := ""
	mode := core.Pick(r, []string{"stdout", "stdout", "file", "file", "old file", "no dir", "a dir", "full file", "full stdout", "closed stdout", "the schema"})
	switch mode {
	case "file":
		out = filepath.Join(dir, core.Pick(r, []string{"out.go", "out file.go", "ö.go"}))
	case "old file":
		out = filepath.Join(dir, "out.go")
		os.WriteFile(out, bytes.Repeat([]byte("// old\n"), 4000), 0644)
	case "no dir":
		out = filepath.Join(dir, "nope", "out.go")
		fails = true
	case "a dir":
		out = dir
		fails = true
	case "full file":
		out = "/dev/full"
		fails = true
	case "full stdout", "closed stdout":
		fails = true
	case "the schema":
		out = in
	}
	if out != "" {
		opt("o", "outfile", out)
	}
	if prefix != "" {
		opt("P", "prefix", prefix)
	}
	var argv []string
	pi := r.Perm(len(args))
	k := r.Intn(len(args) + 1)
	for i := 0; i <= len(args); i++ {
		if i == k { // the pointers keep their order
			for _, p := range ptrs {
				switch r.Intn(3) {
				case 0:
					argv = append(argv, "-p", p)
				case 1:
					argv = append(argv, "--ptr", p)
				default:
					argv = append(argv, "--ptr="+p)
				}
			}
		}
		if i < len(args) {
			argv = append(argv, args[pi[i]]...)
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 140*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(c.R.Work, "jsval"), argv...)
	cmd.Dir = dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	switch mode {
	case "full stdout":
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			c.R.Fail("%v", err)
			return
		}
		defer f.Close()
		cmd.Stdout = f
	case "closed stdout": // a descriptor that cannot be written to
		f, err := os.Open("/dev/null")
		if err != nil {
			c.R.Fail("%v", err)
			return
		}
		defer f.Close()
		cmd.Stdout = f
	}
	err := cmd.Run()
	what := func() string {
		return fmt.Sprintf("jsval %q (%s, output %s)\nstatus: %v\nstderr: %.500s\nschema: %.3000s", argv, kind, mode, err, se.String(), text)
	}
	if ctx.Err() != nil {
		c.Violate("hang", "the command did not end\n%s", what())
		return
	}
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		c.R.Fail("%v", err)
		return
	}
	if ee != nil && !ee.Exited() || strings.Contains(se.String(), "panic:") || strings.Contains(se.String(), "fatal error:") {
		c.Violate("crash", "the command crashed\n%s", what())
		return
	}
	if fails != (err != nil) {
		c.Violate("exit status", "expected failure: %v (%v)\n%s", fails, wantErr, what())
		return
	}
	c.Count("kind:"+kind, 1)
	c.Count("output:"+mode, 1)
	c.Count("pointers", len(ptrs))
	c.Eval(key(text, ptrs, prefix, mode, src))
	if fails {
		if strings.TrimSpace(se.String()) == "" {
			c.Violate("no message", "the command failed without a message\n%s", what())
			return
		}
		c.Count("failures", 1)
		return
	}
	got := so.String()
	if out != "" {
		if strings.TrimSpace(got) != "" {
			c.Violate("output", "something was written to standard output although a file was named:\n%.500s\n%s", got, what())
			return
		}
		b, err := os.ReadFile(out)
		if err != nil {
			c.Violate("output", "the output file is missing: %v\n%s", err, what())
			return
		}
		got = string(b)
	}
	if strings.TrimSpace(got) != strings.TrimSpace(want) {
		c.Violate("output", "the command wrote\n%.3000s\n--- the library generates\n%.3000s\n%s", got, want, what())
		return
	}
	// the validators asked for, by name
	n := len(ptrs)
	if n == 0 {
		n = 1
	}
	pre := prefix
	if pre == "" {
		pre = "V"
	}
	names, _, _, perr := generatedNames(got)
	if perr != nil || len(names) != n {
		c.Violate("output", "%d validators (%v, %v) instead of %d\n%s", len(names), names, perr, n, what())
		return
	}
	have := map[string]bool{}
	for _, n := range names {
		have[n] = true
	}
	for i := 0; i < n; i++ {
		if !have[fmt.Sprint(pre, i)] {
			c.Violate("output", "no validator named %s%d among %v\n%s", pre, i, names, what())
			return
		}
	}
	c.Count("validators_written", n)
	c.Sample(fmt.Sprintf("jsval %q: %d bytes", argv, len(got)))
}

func init() {
	register(&core.Prop{
		ID:          "C22",
		Quick:       2,
		Level:       "exploration",
		Rule:        "the command, built from the current tree, is run on random schemas (with references, references at the root, hostile, cut off, large or malformed ones, unreadable files), random lists of pointers to subschemas, to other things and to nothing, prefixes, spellings and orders of options, and outputs (stdout, new and existing files, the schema file itself, directories, missing directories, full and unwritable devices); exit status, message and every byte written are compared with what the library builds and generates for the parts found by an independent pointer walk; non-trivial = distinct combination",
		Assumptions: []string{"pointers use no escapes", "references to the document itself are not combined with pointers", "references to other documents are not used"},
		Run: func(r *core.Run) {
			if !goBuild(r, "./cmd/jsval", filepath.Join(r.Work, "jsval")) {
				return
			}
			r.Cases("runs", r.N(3000, 60000), c22Case)
		},
	})
}
