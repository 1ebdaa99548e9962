package main

// C24: the HTTP client and the off-chain reader over HTTP.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"net/http"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/iden3/go-iden3-core/components/httpclient"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/readerhttp"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/writerhttp"
	"github.com/iden3/go-iden3-core/db"
)

func init() {
	rules["C24"] = "a case is a server answering with chosen statuses, bodies (valid, truncated, with garbage, wrong types, missing required fields, several values) and framings (length, chunked, cut off, hung up, not HTTP), compared request by request with what a strict JSON reading of the answer gives; or a reader asking for identities and states of publications; distinct = distinct (target type, status, body, framing)"
	assumptions["C24"] = []string{"a body that is the JSON value null may be taken as a value or refused", "answers whose body does not matter to the caller (no result wanted) are judged by their status"}
	reg(Part{Prop: "C24", Name: "answers", Quick: 700, Thorough: 16000, Run: c24Answers,
		Need: []string{"succeeded", "malformed refused", "invalid refused", "status errors", "server messages", "cut answers refused", "empty refused"}})
	reg(Part{Prop: "C24", Name: "requests", Quick: 100, Thorough: 1000, Run: c24Requests, Need: []string{"requests seen", "unreachable", "odd urls"}})
	reg(Part{Prop: "C24", Name: "reader", Quick: 160, Thorough: 3000, Run: c24Reader, Need: []string{"reads", "asked exactly", "other data refused", "reader errors"}})
	reg(Part{Prop: "C24", Name: "shared", Race: true, Quick: 24, Thorough: 240, Run: c24Shared, Need: []string{"concurrent requests"}})
}

type c24Plain struct {
	A int
	B string `json:"b"`
	C []int
	D *c24Plain
}

type c24Valid struct {
	Name  string `json:"name" validate:"required"`
	N     int    `json:"n" validate:"min=1,max=9"`
	Inner struct {
		X []byte `json:"x" validate:"required"`
	} `json:"inner"`
	Opt *int `json:"opt"`
}

// ok is what the tags say.
func (v c24Valid) ok() bool {
	return v.Name != "" && v.N >= 1 && v.N <= 9 && v.Inner.X != nil
}

// answer of the server.
type answer struct {
	status int
	body   string
	frame  string // "", "chunked", "short", "abort", "close", "garbage", "none"
	ctype  string
}

// send writes the answer.
func (a answer) send(w http.ResponseWriter) {
	hijack := func(f func(net.Conn)) {
		cn, _, err := w.(http.Hijacker).Hijack()
		if err == nil {
			f(cn)
			cn.Close()
		}
	}
	w.Header().Set("Connection", "close") // each request on its own connection
	if a.ctype != "" {
		w.Header().Set("Content-Type", a.ctype)
	}
	switch a.frame {
	case "short": // more is announced than sent
		hijack(func(cn net.Conn) {
			fmt.Fprintf(cn, "HTTP/1.1 %d X\r\nConnection: close\r\nContent-Length: %d\r\n\r\n%s", a.status, len(a.body)+7, a.body)
		})
	case "abort":
		w.WriteHeader(a.status)
		w.Write([]byte(a.body))
		w.(http.Flusher).Flush()
		panic(http.ErrAbortHandler)
	case "close":
		hijack(func(net.Conn) {})
	case "garbage":
		hijack(func(cn net.Conn) { fmt.Fprintf(cn, "%s\r\n\r\n", a.body) })
	case "half-header":
		hijack(func(cn net.Conn) { fmt.Fprintf(cn, "HTTP/1.1 200 OK\r\nContent-Len") })
	case "until-close":
		hijack(func(cn net.Conn) { fmt.Fprintf(cn, "HTTP/1.1 %d X\r\nConnection: close\r\n\r\n%s", a.status, a.body) })
	case "chunked":
		w.WriteHeader(a.status)
		for i := 0; i < len(a.body); i++ {
			if i%5 == 0 {
				w.(http.Flusher).Flush()
			}
			w.Write([]byte(a.body[i : i+1]))
		}
	default:
		w.WriteHeader(a.status)
		w.Write([]byte(a.body))
	}
}

// broken: the answer does not arrive completely.
func (a answer) broken() bool {
	switch a.frame {
	case "short", "abort", "close", "garbage", "half-header":
		return true
	}
	return false
}

func listen(c *C, h http.Handler) (url string, stop func()) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	c.Must(err, "listen")
	s := &http.Server{Handler: h}
	go s.Serve(l)
	return "http://" + l.Addr().String(), func() { s.Close() }
}

var c24Statuses = []int{200, 200, 200, 200, 200, 200, 201, 202, 203, 206, 204, 205, 400, 401, 403, 404, 409, 418, 429, 500, 502, 503, 504, 300, 304, 599}

func c24Body(c *C, kind int) string {
	var v interface{}
	switch kind {
	case 0:
		v = c24Plain{A: c.R.Intn(100) - 50, B: randText(c), C: []int{1, c.R.Intn(9)}, D: &c24Plain{B: "in"}}
	case 1:
		x := c24Valid{Name: randText(c), N: c.R.Intn(12) - 1}
		if c.R.Intn(2) == 0 {
			x.Name, x.N = "n"+x.Name, 1+c.R.Intn(9)
		}
		if c.R.Intn(4) > 0 {
			x.Inner.X = []byte{1, byte(c.R.Intn(256))}
		}
		v = x
	case 2:
		v = map[string]interface{}{"k": c.R.Intn(9), randText(c): []string{"x"}}
	case 3:
		v = []string{randText(c), "2"}[:c.R.Intn(3)]
	case 4:
		v = randText(c)
	}
	b, err := json.Marshal(v)
	c.Must(err, "json")
	s := string(b)
	switch c.R.Intn(14) {
	case 0:
		s = s[:c.R.Intn(len(s))]
	case 1:
		s += []string{"x", "}", "]", "\x00", s, "null", "// c", ",", "\"", " {"}[c.R.Intn(10)]
	case 2:
		i := c.R.Intn(len(s))
		s = s[:i] + string(rune(' '+c.R.Intn(90))) + s[i:]
	case 3:
		s = " \n\t" + s + "\r\n  "
	case 4:
		s = []string{"", " ", "null", "{}", "[]", "0", "true", "\"\"", "<html>error</html>", "{\"error\":\"in a success\"}", "{'a':1}", "NaN", "\xef\xbb\xbf{}", "{\"name\":3}", "{\"b\":[]}", "{\"A\":1e99}", "{\"A\":1.5}", "[1,]"}[c.R.Intn(18)]
	}
	return s
}

func randText(c *C) string {
	const al = "ab c\"\\/<&é\u2028\n{}[]:,0"
	r := []rune(al)
	var s string
	for k := c.R.Intn(8); k > 0; k-- {
		s += string(r[c.R.Intn(len(r))])
	}
	return s
}

func c24Target(kind int) interface{} {
	switch kind {
	case 0:
		return &c24Plain{}
	case 1:
		return &c24Valid{}
	case 2:
		return &map[string]interface{}{}
	case 3:
		return &[]string{}
	}
	return new(string)
}

func c24Answers(c *C) {
	var mu sync.Mutex
	next := map[string]answer{}
	url, stop := listen(c, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mu.Lock()
		a := next[r.URL.Path]
		mu.Unlock()
		a.send(w)
	}))
	defer stop()
	cl := httpclient.NewHttpClient(url)
	for k := 0; k < 60; k++ {
		kind := c.R.Intn(5)
		a := answer{status: c24Statuses[c.R.Intn(len(c24Statuses))]}
		a.body = c24Body(c, kind)
		if a.status >= 300 {
			switch c.R.Intn(4) {
			case 0, 1:
				a.body = js(map[string]string{"error": "message " + randText(c)})
			case 2:
				a.body = "plain message " + fmt.Sprint(c.R.Intn(1000))
			}
		}
		a.frame = []string{"", "", "", "", "", "", "chunked", "until-close", "short", "abort", "close", "garbage", "half-header"}[c.R.Intn(13)]
		a.ctype = []string{"", "application/json", "text/plain", "application/json; charset=utf-8"}[c.R.Intn(4)]
		nobody := a.status == 204 || a.status == 304
		if nobody && a.frame == "chunked" {
			a.frame = ""
		}
		if a.frame == "garbage" {
			a.body = "x" + a.body
		}
		want := c.R.Intn(8) > 0
		path := fmt.Sprintf("/p%d", k)
		mu.Lock()
		next[path] = a
		mu.Unlock()
		var res, exp interface{}
		exp = c24Target(kind)
		if want {
			res = c24Target(kind)
		}
		req := cl.NewRequest().Path(path[1:])
		if c.R.Intn(3) == 0 {
			req = req.Post("").BodyJSON(map[string]int{"x": k})
		} else {
			req = req.Get("")
		}
		err := cl.DoRequest(req, res)
		what := fmt.Sprintf("the answer %d %q (%s)", a.status, a.body, a.frame)
		c.Logf("%s into %T: %v", what, res, err)
		c.Distinct("%T|%d|%s|%s", res, a.status, a.body, a.frame)
		success := a.status >= 200 && a.status < 300
		if !success {
			c.Assert(err != nil, "status-accepted", "%s is taken as a success", what)
			c.Count("status errors", 1)
			if !a.broken() && !nobody {
				var m map[string]interface{}
				var msg string
				if json.Unmarshal([]byte(a.body), &m) == nil {
					msg, _ = m["error"].(string)
				}
				if msg != "" {
					c.Assert(strings.Contains(err.Error(), msg), "message-lost", "%s gives the error %q", what, err)
					var se httpclient.ServerError
					c.Assert(errors.As(err, &se) && se.Err == msg, "message-lost", "%s gives the error %#v", what, err)
					c.Count("server messages", 1)
				} else {
					c.Assert(strings.Contains(err.Error(), fmt.Sprint(a.status)) || (a.body != "" && strings.Contains(err.Error(), strings.TrimSpace(a.body))), "message-lost",
						"%s gives the error %q", what, err)
					if strings.HasPrefix(a.body, "plain message") {
						c.Assert(strings.Contains(err.Error(), a.body), "message-lost", "%s gives the error %q", what, err)
						c.Count("server messages", 1)
					}
				}
			}
			continue
		}
		if a.frame == "close" || a.frame == "garbage" || a.frame == "half-header" {
			c.Assert(err != nil, "cut-accepted", "%s is taken as a success", what)
			c.Count("cut answers refused", 1)
			continue
		}
		if !want {
			if !a.broken() {
				c.Assert(err == nil, "refused", "%s, without a result, gives the error %v", what, err)
			}
			continue
		}
		if a.broken() {
			c.Assert(err != nil, "cut-accepted", "%s, which is cut off, is taken as a success", what)
			c.Count("cut answers refused", 1)
			continue
		}
		if nobody {
			c.Assert(err != nil, "empty-accepted", "an answer without body (%d) is taken as the value %s", a.status, js(res))
			c.Count("empty refused", 1)
			continue
		}
		derr := json.Unmarshal([]byte(a.body), exp)
		valid := true
		if v, ok := exp.(*c24Valid); ok && derr == nil {
			valid = v.ok()
		}
		switch {
		case derr != nil:
			c.Assert(err != nil, either(strings.TrimSpace(a.body) == "", "empty-accepted", "malformed-accepted"), "%s is taken as the value %s", what, js(res))
			c.Count(either(strings.TrimSpace(a.body) == "", "empty refused", "malformed refused"), 1)
		case strings.TrimSpace(a.body) == "null":
		case !valid:
			c.Assert(err != nil, "invalid-accepted", "%s is taken as the value %s", what, js(res))
			c.Count("invalid refused", 1)
		default:
			c.Assert(err == nil, "refused", "%s gives the error %v", what, err)
			c.Assert(reflect.DeepEqual(res, exp), "other-value", "%s gives %s instead of %s", what, js(res), js(exp))
			c.Count("succeeded", 1)
		}
	}
}

func c24Requests(c *C) {
	var mu sync.Mutex
	var seen []string
	var body bytes.Buffer
	url, stop := listen(c, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mu.Lock()
		seen = append(seen, r.Method+" "+r.URL.RequestURI())
		body.Reset()
		body.ReadFrom(r.Body)
		mu.Unlock()
		if strings.HasSuffix(r.URL.Path, "/loop") {
			http.Redirect(w, r, r.URL.Path, 302)
			return
		}
		if strings.HasSuffix(r.URL.Path, "/moved") {
			http.Redirect(w, r, strings.TrimSuffix(r.URL.Path, "moved")+"here", 302)
			return
		}
		fmt.Fprintf(w, `{"A":7}`)
	}))
	base := []string{"", "/", "/api", "/api/", "/a/b/c", "/a/b/"}[c.R.Intn(6)]
	cl := httpclient.NewHttpClient(url + base)
	pre := strings.TrimSuffix(base, "/") + "/"
	for k := 0; k < 20; k++ {
		p := []string{"x", "x/y", "id/state/00ff", "q?a=b&c=d", "x/"}[c.R.Intn(5)]
		post := c.R.Intn(2) == 0
		var res c24Plain
		req := cl.NewRequest().Path(p)
		method := "GET"
		if post {
			method = "POST"
			req = req.Post("").BodyJSON(map[string]int{"v": k})
		} else {
			req = req.Get("")
		}
		seen = nil
		err := cl.DoRequest(req, &res)
		mu.Lock()
		c.Assert(err == nil && res.A == 7, "refused", "%s %s at %s: %v", method, p, base, err)
		c.Assert(len(seen) == 1 && seen[0] == method+" "+pre+p, "other-request", "%s of %q at base %q asked for %q", method, p, base, seen)
		if post {
			c.Assert(strings.TrimSpace(body.String()) == fmt.Sprintf(`{"v":%d}`, k), "other-body", "sent %q", body.String())
		}
		mu.Unlock()
		c.Count("requests seen", 1)
		c.Distinct("%s %s %s", base, p, method)
	}
	var res c24Plain
	c.Assert(cl.DoRequest(cl.NewRequest().Path("moved").Get(""), &res) == nil && res.A == 7, "refused", "a redirected request failed")
	c.Assert(cl.DoRequest(cl.NewRequest().Path("loop").Get(""), &res) != nil, "loop-accepted", "an endless redirection is taken as a success")
	stop()
	res = c24Plain{}
	err := cl.DoRequest(cl.NewRequest().Path("x").Get(""), &res)
	c.Assert(err != nil && res.A == 0, "unreachable-accepted", "a request to a server that is down: %v %v", err, res)
	c.Count("unreachable", 1)
	for _, u := range []string{"", "/", "nothing", "http://", "http://127.0.0.1:1", "http://127.0.0.1:1/", "ftp://127.0.0.1:1", "http://no host/", "::", "%zz", "http://127.0.0.1:99999"} {
		odd := httpclient.NewHttpClient(u)
		done := make(chan error, 1)
		c.Go(func() { done <- odd.DoRequest(odd.NewRequest().Path("x").Get(""), &res) })
		select {
		case err = <-done:
			c.Assert(err != nil, "unreachable-accepted", "a request at %q is taken as a success", u)
		case <-time.After(60 * time.Second):
			c.Fail("hang", "a request at %q does not end", u)
		}
		id := randID(c.R)
		_, err = readerhttp.NewIdenPubOffChainHttp().GetPublicData(u, &id, nil)
		c.Assert(err != nil, "unreachable-accepted", "a reader at %q is successful", u)
		c.Count("odd urls", 1)
	}
}

func c24Reader(c *C) {
	// two identities on one server
	type pub struct {
		s   *c16srv
		src *pubSrc
	}
	var pubs [2]*pub
	for i := range pubs {
		w, err := writerhttp.NewIdenPubOffChainWriteHttp(&writerhttp.Config{CacheLen: 10, Url: "u"}, db.NewMemoryStorage())
		c.Must(err, "writer")
		p := &pub{s: &c16srv{w: w, id: randID(c.R)}, src: newPubSrc(c)}
		for k := 0; k < 2+c.R.Intn(3); k++ {
			r := p.src.next(c.R.Intn(3))
			c.Must(w.Publish(&p.s.id, p.src.data(r)), "publish")
		}
		pubs[i] = p
	}
	var mu sync.Mutex
	var seen []string
	var bad *answer
	var other string // answer as if this path was asked
	base := []string{"", "/", "/base", "/base/"}[c.R.Intn(4)]
	url, stop := listen(c, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mu.Lock()
		seen = append(seen, r.Method+" "+r.URL.RequestURI())
		b, o := bad, other
		mu.Unlock()
		if b != nil {
			b.send(w)
			return
		}
		if o != "" {
			r.URL.Path = o
		}
		i := 0
		if strings.Contains(r.URL.Path, pubs[1].s.id.String()) {
			i = 1
		}
		pubs[i].s.ServeHTTP(w, r)
	}))
	defer stop()
	rd := readerhttp.NewIdenPubOffChainHttp()
	pre := strings.TrimSuffix(base, "/")
	for k := 0; k < 20; k++ {
		i := c.R.Intn(2)
		p := pubs[i]
		id := p.s.id
		j := c.R.Intn(len(p.src.made))
		last := c.R.Intn(3) == 0
		path := fmt.Sprintf("%s/%s/state/%s", pre, id.String(), hsh(p.src.made[j].st).Hex())
		st := hsh(p.src.made[j].st)
		if last {
			j = len(p.src.made) - 1
			path = fmt.Sprintf("%s/%s/laststate", pre, id.String())
			st = nil
		}
		keep := ""
		if st != nil {
			keep = st.Hex()
		}
		mode := c.R.Intn(4)
		seen, bad, other = nil, nil, ""
		what, wrong := "an honest server", ""
		switch mode {
		case 0:
			q := pubs[c.R.Intn(2)]
			o := q.src.made[c.R.Intn(len(q.src.made))]
			other = fmt.Sprintf("/%s/state/%s", q.s.id.String(), hsh(o.st).Hex())
			what = "a server that answers with another publication"
		case 1:
			g, err := p.s.w.GetPublicData(hsh(p.src.made[j].st))
			c.Must(err, "blobs")
			good, _ := json.Marshal(g)
			a := answer{status: 200, body: string(good)}
			kind := c.R.Intn(10)
			switch kind {
			case 0:
				a.status = []int{404, 500, 503, 400}[c.R.Intn(4)]
			case 1:
				a.body = a.body[:c.R.Intn(len(a.body))]
			case 2:
				a.frame = []string{"short", "abort", "close", "garbage", "half-header"}[c.R.Intn(5)]
			case 3:
				a.body = "{}"
			case 4:
				a.status = 204
			case 5:
				a.body += "}"
			default:
				b := *g
				wrong = p.src.otherBlobs(&b)
				same := b.ClaimsTreeRoot == g.ClaimsTreeRoot && b.RootsTreeRoot == g.RootsTreeRoot && b.RevocationsTreeRoot == g.RevocationsTreeRoot && bytes.Equal(b.RootsTree, g.RootsTree) && bytes.Equal(b.RevocationsTree, g.RevocationsTree)
				if same {
					wrong += " (perhaps the same)"
				}
				y, _ := json.Marshal(b)
				a.body = string(y)
			}
			bad = &a
			what = fmt.Sprintf("the answer %d (%d of %d bytes, %s)", a.status, len(a.body), len(good), a.frame)
		}
		pd, err := rd.GetPublicData(url+base, &id, st)
		c.Logf("identity %d, publication %d, last=%v, %s: %v", i, j, last, what, err)
		mu.Lock()
		if bad == nil || len(seen) > 0 {
			c.Assert(len(seen) >= 1, "not-asked", "the server was not asked")
		}
		for _, s := range seen {
			c.Assert(s == "GET "+path, "other-request", "asked %q instead of %q", s, path)
		}
		c.Assert(len(seen) == 1 || bad != nil, "asked-again", "asked %d times", len(seen))
		mu.Unlock()
		c.Count("asked exactly", 1)
		if st != nil {
			c.Assert(st.Hex() == keep && id == p.s.id, "arguments-changed", "the reader changed its arguments")
		}
		r := p.src.made[j]
		if err == nil {
			if wrong != "" {
				what += ", " + wrong
			}
			c.Assert(bad == nil || strings.HasSuffix(wrong, "same)"), "bad-accepted", "%s is taken as a success", what)
			if last {
				// whatever was served as the last one
				ok := false
				for _, q := range pubs {
					for _, x := range q.src.made {
						ok = ok || x.st == h32(*pd.IdenState)
					}
				}
				c.Assert(ok && (mode == 0 || h32(*pd.IdenState) == r.st), "other-data", "the last publication read is %s", pd.IdenState.Hex())
			} else {
				c.Assert(h32(*pd.IdenState) == r.st && h32(*pd.ClaimsTreeRoot) == r.clr && h32(*pd.RevocationsTreeRoot) == r.rer && h32(*pd.RootsTreeRoot) == r.ror, "other-data",
					"the state %s was asked and the data of %s returned (%s)", keep, pd.IdenState.Hex(), what)
				sameTree(c, pd.RevocationsTree, r.revs, r.revs.list(), "revocations tree over HTTP")
				sameTree(c, pd.RootsTree, r.roots, nil, "roots tree over HTTP")
			}
			c.Count("reads", 1)
		} else {
			c.Assert(mode < 2, "refused", "an honest server's publication: %v", err)
			if mode == 0 {
				c.Count("other data refused", 1)
			} else {
				c.Count("reader errors", 1)
			}
			c.Assert(pd == nil, "data-with-error", "data is returned with the error %v", err)
		}
		c.Distinct("%d %v %d %s", mode, last, i, what)
	}
}

// c24Shared: one client and one reader used by many goroutines.
func c24Shared(c *C) {
	url, stop := listen(c, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		n := len(r.URL.Path)
		switch n % 4 {
		case 0:
			w.WriteHeader(500)
			fmt.Fprintf(w, `{"error":"e%s"}`, r.URL.Path)
		case 1:
			fmt.Fprintf(w, `{"b":`)
		default:
			fmt.Fprintf(w, `{"A":%d,"b":%q}`, n, r.URL.Path)
		}
	}))
	defer stop()
	cl := httpclient.NewHttpClient(url)
	for g := 0; g < 8; g++ {
		g := g
		c.Go(func() {
			for k := 0; k < 20; k++ {
				p := strings.Repeat("x", k) + fmt.Sprintf("g%d", g)
				n := len(p) + 1
				var res c24Plain
				err := cl.DoRequest(cl.NewRequest().Path(p).Get(""), &res)
				switch n % 4 {
				case 0:
					c.Assert(err != nil && strings.Contains(err.Error(), "e/"+p), "message-lost", "%v", err)
				case 1:
					c.Assert(err != nil, "malformed-accepted", "%v", res)
				default:
					c.Assert(err == nil && res.A == n && res.B == "/"+p, "other-value", "%s: %v %+v", p, err, res)
				}
				c.Count("concurrent requests", 1)
			}
		})
	}
	c.Wait()
	c.Distinct("%d", c.N)
}
