package props

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/lestrrat-go/jsschema"
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"
	"github.com/lestrrat-go/jsval/server"

	"verif/core"
	"verif/model"
)

// libraryAnswer is what the library itself makes of a body; known is false
// if the schema parser, a dependency, does not survive it.
func libraryAnswer(body []byte) (code string, ok, known bool) {
	p, _, _ := core.Try(func() {
		var m map[string]interface{}
		if json.Unmarshal(body, &m) != nil {
			return
		}
		s, err := schema.Read(bytes.NewReader(body))
		if err != nil {
			return
		}
		v, err := builder.New().BuildWithCtx(s, m)
		if err != nil {
			return
		}
		var sb strings.Builder
		if jsval.NewGenerator().Process(&sb, v) != nil {
			return
		}
		code, ok = sb.String(), true
	})
	if strings.TrimSpace(string(body)) == "null" {
		return "", false, false // left open
	}
	return code, ok, !p
}

// nearBodies differ in little, and each has code of its own.
var nearBodies = []string{
	`{"type":"string","enum":["a b"]}`, `{"type":"string","enum":["a  b"]}`, `{"type":"string","enum":["a\tb"]}`, `{"type":"string","enum":["a\u0020b"]}`, `{"type":"string","enum":["ab"]}`, `{"type":"string","enum":["A b"]}`, `{"type":"string","enum":["a","b"]}`, `{"type":"string","enum":["b","a"]}`,
	` {"type":"string","enum":["a b"]}`, `{"enum":["a b"],"type":"string"}`, `{"type":"string","enum":[" a b"]}`, `{"type":"string","enum":["a b "]}`, `{"type":["string"],"enum":["a b"]}`,
	`{"type":"number","minimum":1}`, `{"type":"number","minimum":1.0}`, `{"type":"number","minimum":1e0}`, `{"type":"number","minimum":10}`, `{"type":"number","minimum":-1}`, `{"type":"number","maximum":1}`, `{"type":"integer","minimum":1}`,
	`{"type":"object","properties":{"a":{"type":"string"},"b":{"type":"integer"}}}`, `{"type":"object","properties":{"b":{"type":"string"},"a":{"type":"integer"}}}`, `{"type":"object","properties":{"a":{"type":"string"},"B":{"type":"integer"}}}`,
	`{"type":"array","items":{"type":"string"}}`, `{"type":"array","items":[{"type":"string"}]}`, `{"type":"string","pattern":"a.b"}`, `{"type":"string","pattern":"a\\.b"}`, `{"type":"string","title":"x"}`, `{"type":"string"}`, `{"type":"string"} `, `{"type":"string"}x`,
	`{"type":"string","enum":["é"]}`, `{"type":"string","enum":["e\u0301"]}`, `{"type":"string","enum":["\u00e9"]}`, `{"type":"integer","default":1}`, `{"type":"integer","default":2}`,
}

// playBody makes a request body of some kind.
func playBody(r *core.Rng) (body []byte, kind string) {
	valid := func() []byte {
		switch r.Intn(4) {
		case 0:
			return []byte(model.Encode(r, model.GenRefDoc(r, model.SOpts{Depth: 2, Defaults: r.Bool()}, false)))
		case 1:
			return []byte(model.Encode(r, model.M{"type": "string", "enum": []interface{}{fmt.Sprint("id", r.Uint64())}}))
		}
		return []byte(model.Encode(r, model.GenSchema(r, model.SOpts{Depth: r.Range(1, 2), Formats: true, Stray: true, Mixed: r.P(1, 3), Defaults: r.P(1, 3)})))
	}
	switch r.Intn(15) {
	case 14: // bodies that are easily taken for one another
		return []byte(core.Pick(r, nearBodies)), "near"
	case 0: // cut off
		b := valid()
		return b[:r.Intn(len(b))], "cut off"
	case 1:
		b := append(valid(), core.Pick(r, []string{"x", "{}", " 1", "]", "\x00", "}", ",", "\ufeff"})...)
		return b, "goes on"
	case 2:
		return []byte(core.Pick(r, []string{"", " ", "null", "true", "[]", "{", "}", "\"x\"", "1", "{\"type\"", "\xff\xfe", "\x00", "{'type':'string'}", "[[[[", "{\"a\":\"\xff\"}", "{}", "{\"type\":[]}", "{\"type\":\"foo\"}", "{\"type\":1}", "{\"minimum\":\"x\"}", "{\"pattern\":\"(\"}", "{\"type\":\"string\",\"pattern\":\"(\"}", "{\"$ref\":\"#/definitions/nope\"}", "{\"definitions\":{\"a\":{\"$ref\":\"#/definitions/a\"}},\"$ref\":\"#/definitions/a\"}"})), "odd"
	case 3:
		for {
			d := hostileDoc(r)
			if !remoteRef(d) {
				return []byte(model.Encode(r, d)), "hostile"
			}
		}
	case 4: // bytes flipped
		b := valid()
		for n := r.Range(1, 4); n > 0; n-- {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
		if bytes.Contains(b, []byte("$ref")) {
			return valid(), "schema"
		}
		return b, "flipped"
	case 5:
		n := core.Pick(r, []int{1 << 10, 1 << 14, 1 << 17})
		return []byte(`{"type":"string","enum":["` + strings.Repeat("x", n) + `"]}`), "large"
	case 6:
		n := core.Pick(r, []int{20, 100, 20000})
		if r.Bool() {
			return []byte(strings.Repeat(`{"not":`, n) + "{}" + strings.Repeat("}", n)), "deep"
		}
		return []byte(strings.Repeat("[", n*10)), "deep"
	case 7:
		return append([]byte(core.Pick(r, []string{" \n\t", "\ufeff", ""})), valid()...), "schema"
	}
	return valid(), "schema"
}

// checkAnswer judges one answer of /generate.json.
func checkAnswer(status int, ctype string, got []byte, code string, ok bool) string {
	if ok && !strings.HasPrefix(ctype, "application/json") {
		return fmt.Sprintf("the generated code comes as %q", ctype)
	}
	if status != http.StatusOK && ok {
		return fmt.Sprintf("status %d", status)
	}
	dec := json.NewDecoder(bytes.NewReader(got))
	var m map[string]interface{}
	if err := dec.Decode(&m); err != nil || m == nil {
		return fmt.Sprintf("the answer is not a JSON object (%v): %.200q", err, got)
	}
	if _, err := dec.Token(); err != io.EOF {
		return fmt.Sprintf("something follows the JSON object: %.300q", got)
	}
	s, isb := m["success"].(bool)
	if !isb {
		return fmt.Sprintf("no success flag: %.200q", got)
	}
	if s != ok {
		return fmt.Sprintf("success is %v, it should be %v: %.300q", s, ok, got)
	}
	if ok {
		if c, isstr := m["code"].(string); !isstr || c != code {
			return fmt.Sprintf("the code is not the generator's output for this body:\n%.600v\n--- instead of\n%.600s", m["code"], code)
		}
		return ""
	}
	if msg, isstr := m["message"].(string); !isstr || msg == "" {
		return fmt.Sprintf("a failure without message: %.200q", got)
	}
	if c, has := m["code"]; has && c != "" {
		return fmt.Sprintf("a failure with code: %.200q", got)
	}
	return ""
}

type playReq struct {
	path string
	body []byte
	kind string
	code string
	ok   bool
}

// broken is a body that fails after n bytes.
type broken struct {
	b []byte
	n int
}

func (b *broken) Read(p []byte) (int, error) {
	if b.n == 0 {
		return 0, errors.New("connection lost")
	}
	if len(p) > b.n {
		p = p[:b.n]
	}
	k := copy(p, b.b)
	b.b, b.n = b.b[k:], b.n-k
	return k, nil
}
func (b *broken) Close() error { return nil }

// deaf is a client that is gone.
type deaf struct {
	h http.Header
	n int
}

func (d *deaf) Header() http.Header { return d.h }
func (d *deaf) WriteHeader(int)     {}
func (d *deaf) Write(p []byte) (int, error) {
	if d.n < len(p) {
		n := d.n
		d.n = 0
		return n, errors.New("broken pipe")
	}
	d.n -= len(p)
	return len(p), nil
}

type logBuf struct {
	mu sync.Mutex
	sb strings.Builder
}

func (l *logBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.sb.Write(p)
}
func (l *logBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.sb.String()
}

var notFound = []string{"/x", "/generate", "/generate.json/", "/index.html", "//", "/generate.jsonx", "/Generate.json", "/%2f", "/generate.json/.."}

func checkPage(path string, status int, ctype string, body []byte) string {
	if path != "/" {
		if status != http.StatusNotFound {
			return fmt.Sprintf("%s: status %d instead of 404", path, status)
		}
		return ""
	}
	if status != http.StatusOK || !strings.HasPrefix(ctype, "text/html") || !bytes.Contains(bytes.ToLower(body), []byte("<html")) || !bytes.Contains(bytes.ToLower(body), []byte("</html>")) {
		return fmt.Sprintf("index page: status %d, type %q, %d bytes", status, ctype, len(body))
	}
	return ""
}

// exchange makes a request. One that fails on a connection that has been used
// before (which either side may have closed meanwhile) is made again, on
// connections of its own.
func exchange(cl *http.Client, method, url string, body []byte, noLength bool) (status int, ctype string, got []byte, err error) {
	for try := 0; try < 3; try++ {
		var rd io.Reader = bytes.NewReader(body)
		if noLength {
			rd = io.MultiReader(rd)
		}
		var req *http.Request
		if req, err = http.NewRequest(method, url, rd); err != nil {
			return
		}
		dress(req, len(body))
		req.Close = try > 0
		var res *http.Response
		if res, err = cl.Do(req); err != nil {
			continue
		}
		status, ctype = res.StatusCode, res.Header.Get("Content-Type")
		got, err = io.ReadAll(res.Body)
		res.Body.Close()
		if err == nil {
			return
		}
	}
	return
}

// dress gives a request headers that must not matter.
func dress(req *http.Request, n int) *http.Request {
	types := []string{"", "application/json", "application/x-www-form-urlencoded; charset=UTF-8", "text/plain", "multipart/form-data; boundary=x", "application/octet-stream", "application/x-www-form-urlencoded", "text/html", "nonsense"}
	if t := types[n%len(types)]; t != "" {
		req.Header.Set("Content-Type", t)
	}
	switch n % 5 {
	case 1:
		req.Header.Set("Accept", "text/html")
	case 2:
		req.Header.Set("Accept-Encoding", "identity")
		req.Header.Set("Origin", "http://example.com")
	case 3:
		req.Header.Set("X-Requested-With", "XMLHttpRequest")
		req.Header.Set("If-None-Match", "*")
	case 4:
		req.Header.Set("X-HTTP-Method-Override", "GET")
		req.Header.Set("Range", "bytes=0-10")
	}
	return req
}

func c21Case(c *core.Case) {
	r := c.Rng
	var reqs []playReq
	for n := r.Range(6, 16); n > 0; n-- {
		q := playReq{path: "/generate.json"}
		switch r.Intn(8) {
		case 0:
			q.path, q.kind = "/", "index"
		case 1:
			q.path, q.kind = core.Pick(r, notFound), "not found"
			if q.body, _ = playBody(r); len(q.body) > 1000 {
				q.body = q.body[:1000] // nobody reads it
			}
		default:
			q.body, q.kind = playBody(r)
			known := false
			c.Beat()
			if q.code, q.ok, known = libraryAnswer(q.body); !known {
				c.Count("left_open", 1)
				continue
			}
		}
		reqs = append(reqs, q)
	}
	srv := server.New()
	var lb logBuf
	real := r.Bool()
	var ts *httptest.Server
	if real {
		ts = httptest.NewUnstartedServer(srv)
		ts.Config.ErrorLog = log.New(&lb, "", 0)
		ts.Start()
		defer ts.Close()
	}
	g := r.Range(2, 10)
	plans := make([][]int, g)
	abuse := make([][]int, g)
	rngs := make([]*core.Rng, g)
	clients := make([]*http.Client, g)
	for i := range plans {
		plans[i] = r.Perm(len(reqs))
		for range plans[i] {
			a := 0
			if r.P(1, 6) {
				a = r.Range(1, 3)
			}
			abuse[i] = append(abuse[i], a)
		}
		rngs[i] = r.Fork()
		clients[i] = &http.Client{Transport: &http.Transport{DisableKeepAlives: r.Bool()}, Timeout: 120 * time.Second}
	}
	problems := make([]string, g)
	all, ok := together(c, g, func(i int, lg *[]call) {
		rr := rngs[i]
		for j, k := range plans[i] {
			q := reqs[k]
			if len(q.body) > 0 && abuse[i][j] > 0 { // a client that fails
				abused(srv, ts, rr, q, abuse[i][j])
			}
			var status int
			var ctype string
			var got []byte
			ev := call{g: i, what: k, start: nanos()}
			method := http.MethodPost
			if q.kind == "index" || q.kind == "not found" && len(q.body)%2 == 0 {
				method = http.MethodGet
			}
			if real {
				var err error
				if status, ctype, got, err = exchange(clients[i], method, ts.URL+q.path, q.body, false); err != nil {
					problems[i] = fmt.Sprintf("%s request: no answer: %v\nbody %.300q\nserver log: %s", q.kind, err, q.body, lb.String())
					return
				}
			} else {
				w := httptest.NewRecorder()
				srv.ServeHTTP(w, dress(httptest.NewRequest(method, "http://h"+q.path, bytes.NewReader(q.body)), len(q.body)))
				status, ctype, got = w.Code, w.Header().Get("Content-Type"), w.Body.Bytes()
			}
			ev.end = nanos()
			var msg string
			if q.path == "/generate.json" {
				msg = checkAnswer(status, ctype, got, q.code, q.ok)
			} else {
				msg = checkPage(q.path, status, ctype, got)
			}
			if msg != "" {
				problems[i] = fmt.Sprintf("%s request: %s\nbody %.600q", q.kind, msg, q.body)
				return
			}
			*lg = append(*lg, ev)
		}
	})
	for i := range clients {
		clients[i].CloseIdleConnections()
	}
	if !ok {
		return
	}
	for _, p := range problems {
		if p != "" {
			c.Violate("wrong answer", "one of %d clients: %s", g, p)
			return
		}
	}
	if s := lb.String(); strings.Contains(s, "panic serving") {
		c.Violate("panic", "%.3000s", s)
		return
	}
	il, over := interleaving(all)
	c.Count("answers", len(all))
	c.Count("overlapping_pairs", over)
	for _, q := range reqs {
		c.Count("requests:"+q.kind, 1)
		if q.ok {
			c.Count("expected_success", 1)
		} else if q.path == "/generate.json" {
			c.Count("expected_failure", 1)
		}
	}
	var ks strings.Builder
	for _, q := range reqs {
		fmt.Fprintf(&ks, "%x ", hash64(string(q.body)))
	}
	c.Eval(key(il, ks.String()))
	if len(reqs) > 0 {
		c.Sample(map[string]interface{}{"clients": g, "tcp": real, "requests": len(reqs), "first": fmt.Sprintf("%s %.200q", reqs[0].path, reqs[0].body), "order": truncate(il, 200)})
	}
}

// nearFamily makes bodies that differ from one another in little: in one
// character, in a blank, in case, in the order of members, in what comes at
// the beginning, in the middle or at the end of a long one.
func nearFamily(r *core.Rng) (out [][]byte) {
	name := func() string { return fmt.Sprintf("n%d", r.Intn(1000)) }
	pad := core.Pick(r, []int{0, 1, 16, 64, 256, 1024, 5000})
	word := []byte(strings.Repeat("q", pad) + "abc def" + strings.Repeat("w", pad))
	bodyOf := func(w string) []byte {
		switch r.Intn(3) {
		case 0:
			return []byte(fmt.Sprintf(`{"type":"string","enum":[%q]}`, w))
		case 1:
			return []byte(fmt.Sprintf(`{"type":"object","properties":{%q:{"type":"string"}}}`, w))
		}
		return []byte(fmt.Sprintf(`{"type":"string","default":%q}`, w))
	}
	out = append(out, bodyOf(string(word)), bodyOf(string(word)))
	for n := r.Range(3, 8); n > 0; n-- {
		w := append([]byte(nil), word...)
		switch i := core.Pick(r, []int{0, len(w) / 2, len(w) - 1, r.Intn(len(w))}); r.Intn(5) {
		case 0:
			w[i] = byte('a' + r.Intn(26))
		case 1:
			w = append(w[:i:i], append([]byte(" "), w[i:]...)...)
		case 2:
			w = append(w[:i:i], w[i+1:]...)
		case 3:
			w = bytes.ToUpper(w)
		case 4:
			w = bytes.ReplaceAll(w, []byte(" "), []byte(core.Pick(r, []string{"  ", "_", "", "\t"})))
		}
		out = append(out, bodyOf(string(w)))
	}
	a, b := name(), name()
	n := r.Intn(1000)
	for _, v := range []string{
		`{"type":"object","required":["%s","%s"]}`, `{"type":"object","properties":{"%s":{"type":"string"},"%s":{"type":"integer"}}}`,
		`{"type":"object","properties":{"%s":{"type":"integer"},"%s":{"type":"string"}}}`, `{"type":"object","properties":{"%s":{"not":{"type":"integer"}},"%s":{"type":"string"}}}`,
	} {
		out = append(out, []byte(fmt.Sprintf(v, a, b)), []byte(fmt.Sprintf(v, b, a)))
	}
	for _, k := range []string{"minimum", "maximum", "multipleOf"} {
		for _, f := range []string{"%d", "%d.5", "1%d", "%d0"} {
			out = append(out, []byte(fmt.Sprintf(`{"type":"number",%q:`+f+`}`, k, n+1)))
		}
	}
	return out
}

// c21History: one server gets a long history of requests, of bodies that are
// easily taken for one another and of failures, each of them repeatedly.
func c21History(c *core.Case) {
	r := c.Rng
	var reqs []playReq
	add := func(kind string, b []byte) {
		c.Beat()
		if code, ok, known := libraryAnswer(b); known {
			reqs = append(reqs, playReq{path: "/generate.json", body: b, kind: kind, code: code, ok: ok})
		}
	}
	for _, b := range nearBodies {
		add("near", []byte(b))
	}
	for n := r.Range(2, 5); n > 0; n-- {
		for _, b := range nearFamily(r) {
			add("near", b)
		}
	}
	for n := r.Range(5, 30); n > 0; n-- {
		b, kind := playBody(r)
		if len(b) < 20000 {
			add(kind, b)
		}
	}
	srv := server.New()
	total := 0
	for round := 0; round < 3; round++ {
		for _, k := range r.Perm(len(reqs)) {
			q := reqs[k]
			w := httptest.NewRecorder()
			srv.ServeHTTP(w, dress(httptest.NewRequest("POST", "http://h"+q.path, bytes.NewReader(q.body)), len(q.body)))
			total++
			if total%64 == 0 {
				c.Beat()
			}
			if msg := checkAnswer(w.Code, w.Header().Get("Content-Type"), w.Body.Bytes(), q.code, q.ok); msg != "" {
				c.Violate("wrong answer", "request %d of a server's life (%s): %s\nbody %.600q", total, q.kind, msg, q.body)
				return
			}
		}
	}
	c.Count("history_requests", total)
	c.Count("histories", 1)
	c.Eval(key("history", string(reqs[len(reqs)-1].body), fmt.Sprint(len(reqs))))
}

// c21Large: bodies of many megabytes, which differ at their end.
func c21Large(c *core.Case) {
	r := c.Rng
	n := core.Pick(r, []int{1 << 12, 1 << 16, 1 << 18, 1 << 20, 1 << 20, 1 << 21, 1 << 22, 5 << 20, 1 << 23, 10 << 20, 1 << 24, 33 << 20}) + r.Range(-2, 2)
	if r.P(1, 4) {
		n = r.Range(1, 1<<23)
	}
	end := core.Pick(r, []string{`"minLength":7}`, `"minLength":7} `, `"minLength":7`, `"minLength":7}}`, `"minLength":"7"}`, `"pattern":"("}`})
	pad := bytes.Repeat([]byte{core.Pick(r, []byte(" \n\t"))}, n)
	head, tail := []byte(`{"type":"string",`), []byte(end)
	switch r.Intn(4) {
	case 0: // blanks first
		head, tail = pad, append(head, tail...)
	case 1:
		head = append(head, pad...)
	case 2:
		head = append(head, `"description":"`...)
		head = append(head, bytes.Repeat([]byte("d"), n)...)
		head = append(head, `",`...)
	case 3: // blanks last
		tail = append(append(tail, pad...), core.Pick(r, []string{"", "}", "{}", "x"})...)
	}
	body := append(head, tail...)
	c.Beat()
	code, ok, known := libraryAnswer(body)
	if !known {
		return
	}
	srv := server.New()
	real := r.Bool()
	var ts *httptest.Server
	cl := &http.Client{Transport: &http.Transport{DisableKeepAlives: r.Bool()}, Timeout: 120 * time.Second}
	defer cl.CloseIdleConnections()
	if real {
		ts = httptest.NewServer(srv)
		defer ts.Close()
	}
	for i := 0; i < 2; i++ {
		c.Beat()
		var status int
		var ctype string
		var got []byte
		if real {
			var err error
			status, ctype, got, err = exchange(cl, "POST", ts.URL+"/generate.json", body, r.Bool())
			if err != nil {
				// the server may stop reading what cannot be valid any more
				if ok {
					c.Violate("wrong answer", "a body of %d bytes (valid) gets no answer: %v", len(body), err)
				}
				return
			}
		} else {
			w := httptest.NewRecorder()
			srv.ServeHTTP(w, dress(httptest.NewRequest("POST", "http://h/generate.json", bytes.NewReader(body)), len(body)))
			status, ctype, got = w.Code, w.Header().Get("Content-Type"), w.Body.Bytes()
		}
		if msg := checkAnswer(status, ctype, got, code, ok); msg != "" {
			c.Violate("wrong answer", "a body of %d bytes that ends with %.40q: %s", len(body), body[max(0, len(body)-30):], msg)
			return
		}
	}
	c.Count("large_bodies", 1)
	c.Count("large_bodies_bytes", len(body))
	c.Eval(key("large", len(body), ok, real))
}

// abused plays a client that fails in some way; nothing is expected but that
// the server survives, and does not call a truncated body a schema.
func abused(srv *server.Server, ts *httptest.Server, r *core.Rng, q playReq, how int) {
	switch {
	case how == 1: // gone before the answer
		w := &deaf{h: http.Header{}, n: r.Intn(40)}
		srv.ServeHTTP(w, dress(httptest.NewRequest("POST", "http://h"+q.path, bytes.NewReader(q.body)), len(q.body)))
	case how == 2 || ts == nil: // gone within the body
		w := httptest.NewRecorder()
		req := httptest.NewRequest("POST", "http://h"+q.path, nil)
		n := r.Intn(len(q.body) + 1)
		req.Body = &broken{b: q.body, n: n}
		srv.ServeHTTP(w, req)
		if q.path == "/generate.json" && checkAnswer(w.Code, "", w.Body.Bytes(), "", false) != "" {
			panic(fmt.Sprintf("a body that breaks off after %d of %d bytes is answered %.300q", n, len(q.body), w.Body.Bytes()))
		}
	default: // gone within the body, over TCP
		conn, err := net.Dial("tcp", ts.Listener.Addr().String())
		if err != nil {
			return
		}
		n := r.Intn(len(q.body) + 1)
		fmt.Fprintf(conn, "POST %s HTTP/1.1\r\nHost: h\r\nContent-Length: %d\r\n\r\n", q.path, len(q.body)+1)
		conn.Write(q.body[:n])
		if r.Bool() {
			conn.(*net.TCPConn).CloseWrite()
			conn.SetReadDeadline(time.Now().Add(60 * time.Second))
			res, err := http.ReadResponse(bufio.NewReader(conn), nil)
			if err == nil {
				b, err := io.ReadAll(res.Body)
				res.Body.Close()
				if err == nil && q.path == "/generate.json" && res.StatusCode == http.StatusOK && checkAnswer(res.StatusCode, "", b, "", false) != "" {
					conn.Close()
					panic(fmt.Sprintf("a request that breaks off after %d of %d bytes is answered %.300q", n, len(q.body)+1, b))
				}
			}
		}
		conn.Close()
	}
}

// c21Command: the server that the jsval command runs.
func c21Command(c *core.Case) {
	r := c.Rng
	bin := filepath.Join(c.R.Work, "jsval")
	opt := func(addr string) []string {
		return core.Pick(r, [][]string{{"server", "-l", addr}, {"server", "--listen", addr}, {"server", "--listen=" + addr}, {"server", "-l" + addr}})
	}
	// an address that is taken
	taken, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.R.Fail("cannot listen: %v", err)
		return
	}
	defer taken.Close()
	bad := core.Pick(r, []string{taken.Addr().String(), "127.0.0.1:99999", "127.0.0.1:x", "nonsense", "192.0.2.1:8080", "127.0.0.1"})
	c.Beat()
	cmd, done := command(60*time.Second, bin, opt(bad)...)
	out, err := cmd.CombinedOutput()
	if timedOut(cmd) {
		c.Violate("exit status", "jsval server goes on running with the unusable address %q", bad)
		done()
		return
	}
	done()
	if ee, isexit := err.(*exec.ExitError); !isexit || ee.ExitCode() <= 0 || bytes.Contains(out, []byte("panic:")) {
		c.Violate("exit status", "jsval server with the unusable address %q: %v\n%.2000s", bad, err, out)
		return
	}
	c.Count("unusable_addresses", 1)
	// one that is free
	var addr string
	var se logBuf
	var exited chan error
	cl := &http.Client{Transport: &http.Transport{}, Timeout: 120 * time.Second}
	defer cl.CloseIdleConnections()
	up := false
	for try := 0; try < 5 && !up; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			c.R.Fail("cannot listen: %v", err)
			return
		}
		addr = l.Addr().String()
		l.Close()
		cmd, done := command(140*time.Second, bin, opt(addr)...)
		defer done()
		cmd.Stdout, cmd.Stderr = &se, &se
		if err := cmd.Start(); err != nil {
			c.R.Fail("cannot run: %v", err)
			return
		}
		exited = make(chan error, 1)
		go func(ch chan error) { ch <- cmd.Wait() }(exited)
		defer cmd.Process.Kill()
		for t := time.Now(); !up && time.Since(t) < 60*time.Second; time.Sleep(20 * time.Millisecond) {
			if conn, err := net.Dial("tcp", addr); err == nil {
				conn.Close()
				up = true
			} else if len(exited) > 0 {
				break
			}
		}
	}
	if !up {
		c.Violate("not serving", "jsval server does not listen on %s, nor on four other free addresses\n%.2000s", addr, se.String())
		return
	}
	var reqs []playReq
	for n := r.Range(20, 60); n > 0; n-- {
		b, kind := playBody(r)
		c.Beat()
		if code, ok, known := libraryAnswer(b); known {
			reqs = append(reqs, playReq{path: "/generate.json", body: b, kind: kind, code: code, ok: ok})
		}
	}
	for _, p := range append([]string{"/", "/"}, notFound...) {
		if !strings.Contains(p, "..") && p != "//" {
			reqs = append(reqs, playReq{path: p, kind: "page"})
		}
	}
	g := r.Range(1, 6)
	problems := make([]string, g)
	perms := make([][]int, g)
	for i := range perms {
		perms[i] = r.Perm(len(reqs))
	}
	all, ok := together(c, g, func(i int, lg *[]call) {
		for _, k := range perms[i] {
			q := reqs[k]
			ev := call{g: i, what: k, start: nanos()}
			method := "POST"
			if q.kind == "page" {
				method = "GET"
			}
			status, ctype, got, err := exchange(cl, method, "http://"+addr+q.path, q.body, false)
			if err != nil {
				problems[i] = fmt.Sprintf("%s request: no answer: %v\nbody %.300q", q.kind, err, q.body)
				return
			}
			ev.end = nanos()
			msg := ""
			if q.kind == "page" {
				msg = checkPage(q.path, status, ctype, got)
			} else {
				msg = checkAnswer(status, ctype, got, q.code, q.ok)
			}
			if msg != "" {
				problems[i] = fmt.Sprintf("%s request to jsval server: %s\nbody %.600q", q.kind, msg, q.body)
				return
			}
			*lg = append(*lg, ev)
		}
	})
	if !ok {
		return
	}
	for _, p := range problems {
		if p != "" {
			c.Violate("wrong answer", "%s\nits output: %.2000s", p, se.String())
			return
		}
	}
	if len(exited) > 0 {
		c.Violate("not serving", "jsval server ended: %v\n%.2000s", <-exited, se.String())
		return
	}
	if s := se.String(); strings.Contains(s, "DATA RACE") || strings.Contains(s, "panic serving") {
		c.Violate("race or panic", "%.3000s", s)
		return
	}
	il, _ := interleaving(all)
	c.Count("answers_of_the_command", len(all))
	c.Eval(key("command", il, addr))
}

func init() {
	register(&core.Prop{
		ID:          "C21",
		Level:       "exploration",
		Rule:        "under the race detector: fresh servers, over loopback TCP or called directly, get 6-16 requests (schemas, schemas with references, cut off, continued, hostile, corrupted, large and deep bodies, the index, unknown paths) from each of 2-10 clients at once, between clients that break off within the body or before the answer; servers get long histories of bodies easily taken for one another; bodies of up to 33 MiB that differ at their ends; the built command (with the race detector) runs the server on free and unusable addresses; every answer is compared with what the library itself makes of that body; non-trivial = a section with distinct bodies and order of events",
		Assumptions: []string{"a body of null, and bodies on which the schema parser (a dependency) panics, are left open", "references to other documents are not used"},
		Run: func(r *core.Run) {
			r.CasesN("sections", r.N(300, 8000), 4, c21Case)
			r.Cases("histories", r.N(16, 400), c21History)
			r.CasesN("large", r.N(48, 400), 4, c21Large)
			if !goBuild(r, "./cmd/jsval", filepath.Join(r.Work, "jsval"), "-race") {
				return
			}
			r.CasesN("command", r.N(12, 300), 3, c21Command)
		},
	})
}
