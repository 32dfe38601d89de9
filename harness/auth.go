package harness

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	sim "verifsim"
	"verifsim/simhttp"
)

// C26: with authentication switched on, what carries no valid credential is not executed.

func init() {
	budgets["C26"] = budget{quick: 1500}
	gen := func(g *Gen, faults bool) {
		genCluster(g)
		g.Set("metas", 1)
		g.Set("objs", g.Pick(1, 2, 3))
		g.Set("apis", g.Pick(1, 2, 2))
		g.Set("ps", 1)
		g.Set("distinct", 0)
		g.Set("skew", 0)
		g.Set("enable", g.Pick(1, 1, 1, 1, 1, 1, 0))
		m := g.Set("modes", g.Pick(1, 1, 1, 2, 3, 3)) // 1: password, 2: callback
		g.Set("initial", g.Pick(0, 0, 1, 1, 2))       // 0: from the configuration, 1: stored before, 2: configuration is empty
		clients := g.Set("clients", g.Pick(2, 3, 3))
		for i, n := 0, g.Range(10, 40); i < n; i++ {
			switch k := g.Intn(100); {
			case k < 88 || !faults && k < 93:
				cred := g.Pick(0, 0, 0, 1, 2, 3, 4, 5, 5, 6, 7, 8, 9, 10)
				if m == 2 {
					cred = g.Pick(0, 1, 1, 1)
				}
				tok := 0
				if m&2 != 0 {
					tok = g.Pick(0, 1, 1, 2)
				}
				g.P.Ops = append(g.P.Ops, Op{K: "req", A: g.Intn(12), B: cred, C: tok + 8*g.Pick(0, 0, 0, 1, 2), D: g.Range(1, clients-1)})
			case k < 94:
				g.P.Ops = append(g.P.Ops, Op{K: "rotate", A: g.Intn(3)})
			case k < 97 && m&2 != 0:
				g.P.Ops = append(g.P.Ops, Op{K: "mode", A: g.Intn(6)})
			default:
				g.P.Ops = append(g.P.Ops, Op{K: g.pickS("term", "term", "kill"), A: g.Intn(2), B: g.Intn(50)})
			}
		}
	}
	register(&Scenario{Prop: "C26", Name: "access", Weight: 2, Gen: func(g *Gen) {
		gen(g, false)
		g.Set("quiet", 1)
	}, Run: runAuth})
	register(&Scenario{Prop: "C26", Name: "faults", Weight: 3, Gen: func(g *Gen) {
		gen(g, true)
		g.Rate(g.pickS("etcd.refuse", "etcd.refuse", "etcd.resploss", "net.refuse", "net.reqcut", "net.respcut", "net.resploss", "net.slow"), g.Pick(20, 60, 150, 300))
		if g.Chance(60) {
			g.Rate("etcd.outage", g.Pick(10, 30, 100, 300))
		}
		g.P.Max = g.Range(1, 25)
	}, Run: runAuth})
}

type cred struct {
	usr, pwd string
	from     int // stored between these moments
	to       int
}

type authReq struct {
	name, bucket, method string
	version              int
	token                int // 0 none, 1 good, 2 bad
	granted              bool
	asked                int
}

type authWorld struct {
	*objWorld
	quiet    bool
	creds    []cred
	reqs     map[string]*authReq
	mode     int // what the callback server does: 0 judges, 1 denies, 2 fails, 3 breaks, 4 stalls, 5 gives 204
	pw, cb   bool
	enable   bool
	restarts int
}

const authKey = "api_credential"

func credBytes(u, p string) string {
	var b strings.Builder
	b.WriteByte(0x82)
	for _, v := range []string{"username", u, "password", p} {
		b.WriteByte(0xa0 | byte(len(v)))
		b.WriteString(v)
	}
	return b.String()
}

func (o *authWorld) rotate(u, p string) {
	now := o.tick()
	if n := len(o.creds); n > 0 {
		o.creds[n-1].to = now
	}
	o.creds = append(o.creds, cred{u, p, now, 0})
	o.w.Etcd.Set(authKey, credBytes(u, p))
	o.w.Logf("credential is now %s:%s", u, p)
}

// matches tells whether a name and password were the stored ones at some moment, and whether
// they were it all the time between s and e.
func (o *authWorld) matches(u, p string, s, e int) (some, all bool) {
	for _, c := range o.creds {
		if c.from <= e && (c.to == 0 || c.to >= s) && c.usr == u && c.pwd == p {
			some = true
			all = c.from <= s && c.to == 0 || c.from <= s && c.to > e
		}
	}
	return
}

func basic(u, p string) string {
	return "Basic " + base64.StdEncoding.EncodeToString([]byte(u+":"+p))
}

// ServeHTTP is the server which judges tokens.
func (o *authWorld) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	w := o.w
	body, err := io.ReadAll(r.Body)
	if err != nil {
		rw.WriteHeader(400)
		return
	}
	tok := r.URL.Query().Get("access-token")
	q := o.reqs[tok]
	w.Logf("callback is asked about %q: %s, mode %d", tok, body, o.mode)
	if q != nil {
		q.asked++
		var v struct {
			Bucket   string `json:"bucket"`
			FileName string `json:"file_name"`
			Version  int    `json:"version"`
			Method   string `json:"method"`
		}
		bad := json.Unmarshal(body, &v) != nil
		v.FileName, _ = url.PathUnescape(v.FileName)
		if bad || q.bucket != "" && v.Bucket != q.bucket || v.FileName != q.name || v.Method != q.method || v.Version != q.version {
			defer func() { recover(); w.S.Stop() }()
			w.Fail("asked-otherwise", "the callback is asked about %s to judge %s %s version %d in bucket %s", body, q.method, q.name, q.version, q.bucket)
		}
	}
	switch o.mode {
	case 1:
		rw.WriteHeader(401)
		return
	case 2:
		rw.WriteHeader(500)
		return
	case 3:
		rw.WriteHeader(503)
		return
	case 4:
		sim.Sleep(20 * time.Second)
	case 5:
		rw.WriteHeader(204)
		return
	}
	if q == nil || q.token != 1 {
		rw.WriteHeader([]int{401, 403, 400}[len(tok)%3])
		io.WriteString(rw, `{"message":"no"}`)
		return
	}
	q.granted = true
	rw.WriteHeader(200)
}

var authNames = []string{"plain", "a b.txt", "x/y"}

func runAuth(w *World) {
	P := w.Plan.P
	o := &authWorld{objWorld: newObjWorld(w), quiet: P["quiet"] == 1, reqs: map[string]*authReq{}, enable: P["enable"] == 1}
	o.pw, o.cb = P["modes"]&1 != 0, P["modes"]&2 != 0
	cfgU, cfgP := "admin", "secret1"
	if P["initial"] == 2 {
		cfgU, cfgP = "", ""
	}
	o.apiExtra = func(i int) string {
		return fmt.Sprintf("auth:\n  enable: %v\n  password:\n    enable: %v\n    username: \"%s\"\n    password: \"%s\"\n  callback:\n    enable: %v\n    url: http://10.0.7.1:9000/judge\n    params: [\"access-token\"]\n", o.enable, o.pw, cfgU, cfgP, o.cb)
	}
	cb := w.newProc("callback", "callback", "10.0.7.1", "9000")
	cb.run = func(string) {
		s := &simhttp.Server{Addr: ":9000", Handler: o}
		_ = s.ListenAndServe()
	}
	cb.Start()
	if P["initial"] == 1 {
		o.rotate("root", "before")
	}
	off := w.S.Plan.Off
	w.S.Plan.Off = true
	o.boot()
	if P["initial"] == 0 && o.pw {
		// one of them stored what is configured
		if got := w.Etcd.Snapshot(authKey)[authKey]; got != credBytes(cfgU, cfgP) {
			w.Fail("not-initialised", "%s:%s is configured and nothing failed, but the credential stored is %q", cfgU, cfgP, got)
		}
		o.creds = append(o.creds, cred{cfgU, cfgP, o.tick(), 0})
	}
	o.kept("after the first boot")
	w.S.Plan.Off = off
	// what the requests are about; straight to the metadata server
	o.direct("POST", "/bucket", oBucket{Name: "b0", Versioning: true, VersionRemains: 50})
	for i := 0; i < 8; i++ {
		o.direct("POST", "/bucket", oBucket{Name: "victim" + strconv.Itoa(i), Versioning: true, VersionRemains: 9})
	}
	for _, p := range o.apis {
		w.keep(p, &keeper{gap: 2 * time.Second})
	}
	P["clients"]++
	o.runClients(func(op Op, i int) {
		switch op.K {
		case "req":
			o.request(op, i)
		case "rotate":
			o.rotate([]string{"root", "admin", "ops"}[op.A], "pw"+strconv.Itoa(i))
		case "mode":
			o.mode = op.A
			w.Logf("callback mode %d", op.A)
		default:
			p := o.apis[op.A%len(o.apis)]
			sim.Sleep(time.Duration(op.B) * 20 * time.Millisecond)
			if op.K == "term" {
				if p.Alive() && w.S.Inject("sigterm", func() string { return p.Name }) {
					p.Term()
				}
			} else if p.Alive() && w.S.Inject("crash", func() string { return p.Name }) {
				p.Crash(false)
			}
		}
	})
	// nothing fails any more, everybody starts once more
	w.S.Plan.Off = true
	w.Net.HealAll()
	o.mode = 0
	for _, p := range o.apis {
		if !w.Until(5*time.Minute, p.Alive) {
			w.Fail("no-restart", "%s is not running 5 minutes after the faults ended", p.Name)
		}
	}
	sim.Sleep(20 * time.Second)
	o.kept("after the faults")
	for _, p := range o.apis {
		n := p.Node
		if p.Term() {
			p.AwaitExit(time.Minute)
		}
		if !w.Until(5*time.Minute, func() bool { return p.Node != n && p.Alive() }) {
			w.Fail("no-restart", "%s does not start again", p.Name)
		}
	}
	sim.Sleep(10 * time.Second)
	o.kept("after restarting")
	o.quiet = true
	for i := range o.apis {
		for k, b := range []int{0, 1, 2, 4, 5, 9, 0, 1} {
			op := Op{K: "req", A: []int{0, 1, 2, 4, 5, 7, 8, 11}[k], B: b, C: []int{0, 0, 2, 0, 0, 0, 0, 1}[k], D: i}
			o.request(op, 10000+100*i+k)
		}
	}
}

// kept: nobody but the administrator changes the stored credential.
func (o *authWorld) kept(when string) {
	w := o.w
	got, ok := w.Etcd.Snapshot(authKey)[authKey]
	if len(o.creds) == 0 {
		if ok {
			w.Fail("credential-invented", "%s: no credential is configured, but %q is stored", when, got)
		}
		return
	}
	c := o.creds[len(o.creds)-1]
	if got != credBytes(c.usr, c.pwd) {
		w.Fail("credential-changed", "%s: the credential was set to %s:%s, but stored is %q", when, c.usr, c.pwd, got)
	}
}

// direct changes a metadata server without any API server.
func (o *authWorld) direct(method, path string, v any) {
	body, _ := json.Marshal(v)
	var r *Reply
	if !o.w.Until(time.Minute, func() bool {
		r = o.w.Do(method, o.metas[0].Addr(), path, body, reqOpt{hdr: map[string]string{"Content-Type": "application/json"}})
		return r.OK() || r.Err == nil && r.Code == 400
	}) {
		o.w.Fail("setup", "%s %s gives %s", method, path, r)
	}
}

// peek reads from the metadata server, which asks for no credentials.
func (o *authWorld) peek(path string) *Reply {
	var r *Reply
	o.w.Until(2*time.Minute, func() bool {
		r = o.w.Do("GET", o.metas[0].Addr(), path, nil, reqOpt{})
		return r.Err == nil && r.Code/100 != 5
	})
	return r
}

func (o *authWorld) request(op Op, i int) {
	w := o.w
	api := o.apis[(i+op.D)%len(o.apis)]
	hdr := map[string]string{"bucket": "b0", "Content-Type": "application/json"}
	var usr, pwd string
	var has bool
	cur := cred{usr: "nobody", pwd: "nothing"}
	if n := len(o.creds); n > 0 {
		cur = o.creds[n-1]
	}
	switch op.B {
	case 0:
		usr, pwd, has = cur.usr, cur.pwd, true
	case 1:
	case 2:
		usr, pwd, has = cur.usr, cur.pwd+"x", true
	case 3:
		usr, pwd, has = cur.usr+"x", cur.pwd, true
	case 4:
		usr, pwd, has = "", "", true
	case 5:
		if n := len(o.creds); n > 1 {
			cur = o.creds[n-2]
		}
		usr, pwd, has = cur.usr, cur.pwd, true
	case 6:
		hdr["Authorization"] = "Basic !!!" + base64.StdEncoding.EncodeToString([]byte(cur.usr+":"+cur.pwd))
	case 7:
		hdr["Authorization"] = "Bearer " + base64.StdEncoding.EncodeToString([]byte(cur.usr+":"+cur.pwd))
	case 8:
		usr, pwd, has = strings.ToUpper(cur.usr), cur.pwd, true
	case 9:
		usr, pwd, has = "admin", "secret1", true
	case 10:
		usr, pwd, has = cur.usr, "", true
	}
	if has {
		hdr["Authorization"] = basic(usr, pwd)
	}
	q := &authReq{bucket: "b0", token: op.C & 3}
	host := ""
	switch op.C >> 3 {
	case 1:
		host = "victim1.goodfs.example:8080"
	case 2:
		host = "localhost:8080"
	}
	valid := map[string]string{"bucket": "b0", "Content-Type": "application/json", "Authorization": basic(cur.usr, cur.pwd)}
	id := fmt.Sprintf("t%d-%d", i, op.C&3)
	if q.token > 0 {
		hdr["access-token"] = id
		o.reqs[id] = q
	}
	// the request
	c := o.content(i+1, 500+i%7*700)
	name := fmt.Sprintf("n%d-%s", i, authNames[i%3])
	ename := url.PathEscape(name)
	q.name = name
	var path string
	var body []byte
	ok := 200
	switch op.A {
	case 0:
		q.method, path, body, ok = "PUT", "/v1/objects/"+ename, c.body, 201
		hdr["digest"] = c.digest
	case 1:
		q.method, path, ok = "GET", "/v1/objects/"+ename+"?version=3", 404
		q.version = 3
	case 2:
		q.method, path, ok = "GET", "/v1/metadata/"+ename, 404
	case 3:
		q.method, path, ok = "GET", "/v1/metadata/"+ename+"/versions?page=1&page_size=5", 0
	case 4:
		q.method, path, ok, q.name = "POST", "/v1/bucket", 201, ""
		body, _ = json.Marshal(oBucket{Name: "new" + strconv.Itoa(i), Versioning: true, VersionRemains: 3})
	case 5:
		q.method, path, q.name = "PUT", "/v1/bucket/b0", "b0"
		ok = 0 // may be refused as not newer
		body, _ = json.Marshal(oBucket{Name: "b0", Versioning: true, VersionRemains: 100 + i})
	case 6:
		q.method, path, q.name = "GET", "/v1/bucket/b0", "b0"
	case 7:
		q.name = "victim" + strconv.Itoa(op.D%8) // of this client
		q.method, path, ok = "DELETE", "/v1/bucket/"+q.name, 0
	case 8:
		q.method, path, ok = "POST", "/v1/big/"+ename, 201
		hdr["digest"], hdr["size"] = c.digest, strconv.Itoa(c.size)
	case 9, 10:
		// somebody's upload
		h := map[string]string{"bucket": "b0", "digest": c.digest, "size": strconv.Itoa(c.size), "Authorization": valid["Authorization"]}
		r := w.Do("POST", api.Addr(), "/v1/big/"+ename, nil, reqOpt{hdr: h})
		if r.Err != nil || r.Code != 201 {
			return
		}
		path = r.Header.Get("Location")
		q.name = ""
		if op.A == 9 {
			q.method = "HEAD"
		} else {
			q.method, body = "PATCH", c.body
			hdr["Range"] = "bytes=0-"
		}
	case 11:
		q.method, path, q.name = "GET", "/v1/security/check", ""
	}
	valid["x"] = path
	before := ""
	if op.A == 7 {
		before = o.peek("/bucket/" + q.name).String()
	}
	s := o.tick()
	r := w.Do(q.method, api.Addr(), path, body, reqOpt{hdr: hdr, host: host})
	e := o.tick()
	some, all := o.matches(usr, pwd, s, e)
	some, all = some && has && o.pw, all && has && o.pw
	w.Logf("req %d %s %s as %q token %d: %s", i, q.method, path, hdr["Authorization"], q.token, r)
	if !o.enable {
		some, all = true, true
	}
	w.Nontriv++
	if some || q.granted {
		if (all || q.granted) && o.quiet && r.Err == nil && r.Code != 503 && (ok > 0 && r.Code != ok || r.Code == 401 || r.Code == 403) {
			w.Fail("denied", "%s %s with valid credentials (%q, token granted %v) is answered %s", q.method, path, hdr["Authorization"], q.granted, r)
		}
		return
	}
	// nothing entitled this request
	if r.Err == nil && (r.Code/100 == 2 || r.Code/100 == 3) {
		w.Fail("accepted", "%s %s without valid credentials (%q, token %d) is answered %s", q.method, path, hdr["Authorization"], q.token, r)
	}
	switch op.A {
	case 0, 8, 10:
		for _, n := range []string{name, ename} {
			if g := o.peek("/metadata/" + esc("b0/"+n)); g.Err == nil && g.Code != 404 {
				w.Fail("executed", "%s %s without valid credentials was refused, but there is %s", q.method, path, g)
			}
		}
		if op.A == 10 && o.quiet {
			h := w.Do("HEAD", api.Addr(), path, nil, reqOpt{hdr: valid})
			if h.Err == nil && h.Code == 200 && h.Header.Get("Content-Length") != "0" {
				w.Fail("executed", "a part sent without valid credentials was refused, but the upload has %s bytes now", h.Header.Get("Content-Length"))
			}
		}
	case 4:
		if g := o.peek("/bucket/new" + strconv.Itoa(i)); g.Err == nil && g.Code != 404 {
			w.Fail("executed", "bucket new%d was created without valid credentials: %s", i, g)
		}
	case 5:
		if g := o.peek("/bucket/b0"); strings.Contains(string(g.Body), fmt.Sprintf("\"versionRemains\":%d,", 100+i)) {
			w.Fail("executed", "bucket b0 was changed without valid credentials: %s", g)
		}
	case 7:
		if strings.HasPrefix(before, "200") {
			if g := o.peek("/bucket/" + q.name); g.Err == nil && g.Code == 404 {
				w.Fail("executed", "bucket %s was deleted without valid credentials", q.name)
			}
		}
	}
}
