package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"

	sim "verifsim"
	"verifsim/simetcd"
)

// C25: the administration server shows what the servers hold and does what it is told.

func init() {
	budgets["C25"] = budget{quick: 1200}
	gen := func(g *Gen, faults bool) {
		genCluster(g)
		g.Set("metas", g.Pick(1, 2, 2, 3))
		g.Set("objs", g.Pick(1, 2, 3))
		g.Set("apis", g.Pick(1, 2, 2))
		g.Set("distinct", 0)
		g.Set("skew", 0)
		g.Set("auth", g.Pick(0, 1, 1))
		clients := g.Set("clients", g.Pick(2, 3, 3))
		g.Set("name", g.Intn(len(admNames)))
		names := 4 * g.Pick(1, 1, 2, 4, len(admNames))
		for i, n := 0, g.Range(15, 50); i < n; i++ {
			c := g.Range(1, clients)
			switch k := g.Intn(100); {
			case k < 40:
				g.P.Ops = append(g.P.Ops, Op{K: "up", A: g.Intn(names), B: g.Pick(1, 300, 5000, 60000, 70000, 200000), C: g.Pick(0, 0, 0, 0, 0, 0, 0, 1, 2), D: c})
			case k < 55:
				g.P.Ops = append(g.P.Ops, Op{K: "down", A: g.Intn(names), B: g.Pick(0, 0, 1, 2, 3), C: g.Pick(0, 0, 0, 0, 0, 0, 1, 2), D: c})
			case k < 67:
				g.P.Ops = append(g.P.Ops, Op{K: "page", A: g.Intn(60), B: g.Pick(1, 1, 2, 3, 4), C: g.Pick(1, 2, 3, 7, 100, 100), D: c})
			case k < 72:
				g.P.Ops = append(g.P.Ops, Op{K: "vers", A: g.Intn(names), D: c})
			case k < 75:
				g.P.Ops = append(g.P.Ops, Op{K: "stat", D: c})
			case k < 95 || !faults:
				g.P.Ops = append(g.P.Ops, Op{K: g.pickS("mk", "mk", "set", "drop"), A: g.Intn(len(admBuckets)), B: g.Range(1, 40), C: g.Pick(0, 0, 0, 0, 0, 0, 1, 2), D: 0})
			default:
				g.P.Ops = append(g.P.Ops, Op{K: g.pickS("term", "kill", "kill"), A: g.Intn(9), B: g.Intn(50), D: 0})
			}
		}
		if faults {
			g.Set("late", g.Pick(0, 0, 1))
		}
		g.Set("tail", len(g.P.Ops))
		for i, n := 0, g.Pick(5, 20, 30); i < n; i++ {
			if g.Chance(30) {
				g.P.Ops = append(g.P.Ops, Op{K: "page", A: g.Pick(0, 0, 20, 21, 22, 23), B: 1, C: 100, D: g.Range(1, clients)})
				continue
			}
			g.P.Ops = append(g.P.Ops, Op{K: "down", A: g.Intn(names), B: g.Pick(0, 0, 1, 2), D: g.Range(1, clients)})
		}
	}
	register(&Scenario{Prop: "C25", Name: "console", Weight: 2, Gen: func(g *Gen) {
		gen(g, false)
		g.Set("quiet", 1)
	}, Run: runAdmin})
	register(&Scenario{Prop: "C25", Name: "faults", Weight: 3, Gen: func(g *Gen) {
		gen(g, true)
		g.Rate(g.pickS("net.refuse", "net.reqcut", "net.respcut", "net.respcut", "net.resploss", "net.slow", "etcd.refuse", "etcd.resploss"), g.Pick(3, 10, 30, 80, 200))
		if g.Chance(40) {
			g.Rate("etcd.outage", g.Pick(10, 100, 300))
		}
		if g.Chance(30) {
			g.Rate("net.crash", g.Pick(2, 10))
		}
		g.P.Max = g.Range(1, 20)
	}, Run: runAdmin})
}

var (
	admNames   = []string{"plain", "a b.txt", "x#y", "q?z=1", "100%", "p%41", "pA", "ü.bin", "a+b", "n.1", "n", "&=@:", "dots..", "%2F", "\"q\""}
	admHome    = []string{"b", "b-", "b0", "b.x"} // for objects
	admBuckets = []string{"k", "k#x", "k?y=1", "k%41", "kA", "k-1", "k 2", "ü"}
)

type admPut struct {
	*oPut
	done bool // answered 201
}

type admWorld struct {
	*objWorld
	quiet bool
	admin *Proc
	ups   []*admPut
	bks   map[string]*oBucket // what is known; nil: not there
	open  map[string]bool     // outcome of a command is unknown
	pw    string
	rev   int64                     // of etcd when everything was up
	seen  map[string]map[int]string // content of versions
}

func (o *admWorld) auth(c int) (h map[string]string, ok bool) {
	h = map[string]string{}
	switch c {
	case 0:
		h["Authorization"] = basic("admin", "secret1")
		return h, true
	case 1:
		return h, false
	}
	h["Authorization"] = basic("admin", "secret2")
	return h, o.w.Plan.P["auth"] == 0
}

func (o *admWorld) name(a, client int) (bk, name string) {
	return admHome[a%len(admHome)], admNames[(o.w.Plan.P["name"]+a/len(admHome))%len(admNames)] + strconv.Itoa(client)
}

// denied: a request without valid credentials was not executed.
func (o *admWorld) denied(what string, r *Reply) {
	if r.Err == nil && r.Code/100 == 2 {
		o.w.Fail("accepted", "%s without valid credentials is answered %s", what, r)
	}
}

func (o *admWorld) upload(bk, name string, c *oContent, auth int) *admPut {
	w := o.w
	hdr, ok := o.auth(auth)
	p := &admPut{oPut: &oPut{id: len(o.puts), bk: bk, name: name, c: c, start: w.S.Now(), seqS: o.tick()}}
	if !ok {
		p.bad = true
	}
	o.puts = append(o.puts, p.oPut)
	o.ups = append(o.ups, p)
	const bd = "----form7d8f2c"
	var b bytes.Buffer
	part := func(s string) { b.WriteString("--" + bd + "\r\nContent-Disposition: form-data; " + s + "\r\n\r\n") }
	file := func() {
		part("name=\"file\"; filename=\"" + strings.ReplaceAll(name, "\"", "\\\"") + "\"\r\nContent-Type: application/octet-stream")
		b.Write(c.body)
	}
	if p.id%2 == 0 {
		part("name=\"bucket\"")
		b.WriteString(bk + "\r\n")
		file()
	} else {
		file()
		b.WriteString("\r\n")
		part("name=\"bucket\"")
		b.WriteString(bk)
	}
	b.WriteString("\r\n--" + bd + "--\r\n")
	hdr["Content-Type"] = "multipart/form-data; boundary=" + bd
	r := w.Do("PUT", o.admin.Addr(), "/api/objects/upload", b.Bytes(), reqOpt{hdr: hdr})
	p.seqE, p.end = o.tick(), w.S.Now()
	w.Logf("up#%d %s/%s %d bytes auth %d: %s", p.id, bk, name, c.size, auth, r)
	if !ok {
		o.denied("upload of "+bk+"/"+name, r)
		return p
	}
	if r.Err == nil && r.Code/100 == 2 {
		p.done = true
		w.Nontriv++
	} else if o.quiet {
		w.Fail("upload-refused", "nothing is wrong, but uploading %s/%s (%d bytes) is answered %s", bk, name, c.size, r)
	}
	return p
}

// last: the newest upload of an object that is known to be done, if nothing came
// after it that may be.
func (o *admWorld) last(bk, name string) (p *admPut, later bool) {
	for _, x := range o.ups {
		if x.bk == bk && x.name == name && !x.bad {
			if x.done {
				p = x
			} else {
				later = true // it may become the newest at any time
			}
		}
	}
	return
}

func (o *admWorld) download(bk, name string, ver, auth, client int) *Reply {
	w := o.w
	hdr, ok := o.auth(auth)
	rd := &oRead{bk: bk, name: name, ver: ver, seqS: o.tick()}
	want, later := o.last(bk, name)
	kv := []string{"bucket", bk}
	if ver > 0 {
		kv = append(kv, "version", strconv.Itoa(ver))
	}
	r := w.Do("GET", o.admin.Addr(), "/api/objects/download/"+url.PathEscape(name)+q(kv...), nil, reqOpt{hdr: hdr})
	rd.seqE, rd.code = o.tick(), r.Code
	w.Logf("down %s/%s v%d auth %d: %d %v %d bytes", bk, name, ver, auth, r.Code, r.Err, len(r.Body))
	if !ok {
		o.denied("download of "+bk+"/"+name, r)
		return r
	}
	if r.Err != nil {
		o.prefix(bk, name, ver, 0, r, rd)
		return r
	}
	if r.Code/100 == 2 {
		o.delivered(rd, r)
		w.Nontriv++
		id := bk + "/" + name
		if o.seen[id] == nil {
			o.seen[id] = map[int]string{}
		}
		tag := fmt.Sprint(rd.from[0].c.tag)
		if old := o.seen[id][ver]; ver > 0 && old != "" && old != tag {
			w.Fail("wrong-version", "version %d of %s was content %s before, now it is %s", ver, id, old, tag)
		}
		o.seen[id][ver] = tag
		// a client reads its own uploads
		if ver == 0 && client > 0 && want != nil && !later && rd.from[0].c != want.c {
			w.Fail("stale-read", "upload %d of %s was acknowledged, but the latest version is %s", want.id, id, o.whose(r.Body, 0))
		}
		return r
	}
	if o.quiet && client > 0 && want != nil && ver <= 1 {
		w.Fail("read-refused", "nothing is wrong and upload %d of %s/%s was acknowledged, but downloading version %d gives %s", want.id, bk, name, ver, r)
	}
	return r
}

type admMeta struct{ Name, Bucket string }

// page reads one page of the names of objects.
func (o *admWorld) page(bk, name string, page, size int) (l []string, total int, r *Reply) {
	hdr, _ := o.auth(0)
	r = o.w.Do("GET", o.admin.Addr(), "/api/metadata/page"+q("bucket", bk, "name", name, "page", strconv.Itoa(page), "pageSize", strconv.Itoa(size)), nil, reqOpt{hdr: hdr})
	if r.Err != nil || r.Code != 200 {
		return
	}
	var ms []admMeta
	if e := r.JSON(&ms); e != nil {
		o.w.Fail("bad-page", "a page of names is no JSON: %s", r)
	}
	pre := name
	if bk != "" {
		pre = bk + "/" + name
	}
	for _, m := range ms {
		id := m.Bucket + "/" + m.Name
		if !strings.HasPrefix(id, pre) {
			o.w.Fail("wrong-page", "a page of what begins with %q has %q", pre, id)
		}
		known := false
		for _, p := range o.ups {
			known = known || p.bk == m.Bucket && p.name == m.Name && !p.bad
		}
		if !known {
			o.w.Fail("wrong-page", "a page lists %q, which nobody ever uploaded", id)
		}
		if len(l) > 0 && l[len(l)-1] >= id {
			o.w.Fail("wrong-page", "a page lists %q before %q", l[len(l)-1], id)
		}
		l = append(l, id)
	}
	if len(l) > size {
		o.w.Fail("wrong-page", "a page of %d has %d entries", size, len(l))
	}
	total = atoiHdr(r, "X-Total-Count")
	return
}

func atoiHdr(r *Reply, k string) int {
	n, e := strconv.Atoi(r.Header.Get(k))
	if e != nil {
		return -1
	}
	return n
}

// steady: the console knows all metadata servers. It found them at its start, and they have been registered since.
func (o *admWorld) steady() bool {
	h := simetcd.C().History("goodfs/registry/metaserver/")
	return o.admin.Boots == 1 && (len(h) == 0 || h[len(h)-1].Rev <= o.rev)
}

// bucketPage reads one page of buckets.
func (o *admWorld) bucketPage(name string, page, size int) (l []oBucket, total int, r *Reply) {
	hdr, _ := o.auth(0)
	r = o.w.Do("GET", o.admin.Addr(), "/api/metadata/buckets"+q("name", name, "page", strconv.Itoa(page), "pageSize", strconv.Itoa(size)), nil, reqOpt{hdr: hdr})
	if r.Err != nil || r.Code != 200 {
		return
	}
	if e := r.JSON(&l); e != nil {
		o.w.Fail("bad-page", "a page of buckets is no JSON: %s", r)
	}
	total = atoiHdr(r, "X-Total-Count")
	return
}

// command changes buckets; only one client does.
func (o *admWorld) command(op Op) {
	w := o.w
	name := admBuckets[op.A]
	hdr, ok := o.auth(op.C)
	cfg := &oBucket{Name: name, Versioning: true, VersionRemains: op.B}
	body, _ := json.Marshal(cfg)
	hdr["Content-Type"] = "application/json"
	var r *Reply
	old := o.bks[name]
	switch op.K {
	case "mk":
		r = w.Do("POST", o.admin.Addr(), "/api/metadata/create_bucket", body, reqOpt{hdr: hdr})
	case "set":
		r = w.Do("PUT", o.admin.Addr(), "/api/metadata/update_bucket", body, reqOpt{hdr: hdr})
	case "drop":
		r = w.Do("DELETE", o.admin.Addr(), "/api/metadata/delete_bucket/"+url.PathEscape(name), nil, reqOpt{hdr: hdr})
	}
	w.Logf("%s bucket %q remains %d auth %d: %s", op.K, name, op.B, op.C, r)
	defer sim.Sleep(20 * time.Millisecond) // changes within the same moment are refused
	if !ok {
		o.denied(op.K+" of bucket "+name, r)
		return
	}
	switch {
	case r.Err == nil && r.Code == 200:
		if !o.open[name] && old == nil && op.K == "set" && o.quiet {
			w.Fail("bad-ack", "%s of bucket %q, which does not exist, is acknowledged", op.K, name)
		}
		if !o.open[name] && old != nil && op.K == "mk" && o.quiet {
			w.Fail("bad-ack", "creating bucket %q, which exists, is acknowledged", name)
		}
		if op.K == "drop" {
			cfg = nil
		}
		o.bks[name] = cfg
		if o.quiet {
			o.open[name] = false
		}
		w.Nontriv++
	case o.quiet && r.Err == nil:
		if op.K == "mk" && old == nil || op.K != "mk" && old != nil || op.K == "drop" {
			w.Fail("refused", "nothing is wrong, but %s of bucket %q (it is %v) is answered %s", op.K, name, old, r)
		}
	default:
		o.open[name] = true
	}
}

func (o *admWorld) versions(bk, name string, addr string, console bool) (string, int, *Reply) {
	hdr, _ := o.auth(0)
	path := "/v1/metadata/" + url.PathEscape(name) + "/versions" + q("page", "1", "page_size", "20")
	if console {
		path = "/api/metadata/versions" + q("name", name, "bucket", bk, "page", "1", "pageSize", "20")
	} else {
		hdr["bucket"] = bk
	}
	r := o.w.Do("GET", addr, path, nil, reqOpt{hdr: hdr})
	return string(r.Body), atoiHdr(r, "X-Total-Count"), r
}

func runAdmin(w *World) {
	P := w.Plan.P
	o := &admWorld{objWorld: newObjWorld(w), quiet: P["quiet"] == 1, bks: map[string]*oBucket{}, open: map[string]bool{}, seen: map[string]map[int]string{}}
	if P["auth"] == 1 {
		o.apiExtra = func(int) string {
			return "auth:\n  enable: true\n  password:\n    enable: true\n    username: admin\n    password: secret1\n"
		}
	}
	o.admin = w.Admin(1)
	off := w.S.Plan.Off
	if P["objs"]%2 == 0 {
		o.admin.Start() // before anybody else, perhaps without etcd
	}
	w.S.Plan.Off = true
	o.boot()
	w.S.Plan.Off = off
	if !o.admin.Alive() {
		o.admin.Start()
	}
	h, _ := o.auth(0)
	h["Content-Type"] = "application/json"
	w.S.Plan.Off = true
	for _, b := range admHome {
		body, _ := json.Marshal(oBucket{Name: b, Versioning: true, VersionRemains: 100})
		var r *Reply
		if !w.Until(time.Minute, func() bool {
			r = w.Do("POST", o.apis[0].Addr(), "/v1/bucket", body, reqOpt{hdr: h})
			return r.OK()
		}) {
			w.Fail("setup", "creating bucket %s gives %s", b, r)
		}
		o.bks[b] = &oBucket{Name: b, Versioning: true, VersionRemains: 100}
	}
	if !w.Until(2*time.Minute, func() bool {
		l, _, r := o.bucketPage("", 1, 100)
		return r.OK() && len(l) == len(admHome)
	}) {
		_, _, r := o.bucketPage("", 1, 100)
		w.Fail("not-serving", "two minutes after the start the console lists these buckets: %s", r)
	}
	sim.Sleep(3 * time.Second)
	o.rev = simetcd.C().Rev
	w.S.Plan.Off = off
	if !o.quiet {
		for _, p := range w.Procs {
			w.keep(p, &keeper{gap: 3 * time.Second})
		}
		w.Net.Killable = func(n *sim.Node, what string) bool { return true }
	}
	P["clients"]++
	late := P["late"] == 1 // failures only while reading
	o.runClients(func(op Op, i int) {
		w.S.Plan.Off = late && i < P["tail"]
		late = late && i < P["tail"]
		switch op.K {
		case "up":
			bk, name := o.name(op.A, op.D)
			o.upload(bk, name, o.content(i+1, op.B), op.C)
		case "down":
			bk, name := o.name(op.A, op.D)
			if i >= P["tail"] && len(o.ups) > 0 {
				p := o.ups[(op.A*31+i)%len(o.ups)]
				bk, name = p.bk, p.name
			}
			o.download(bk, name, op.B, op.C, op.D)
		case "page":
			bk, name := "", ""
			if op.A >= 20 {
				bk = admHome[op.A%4]
			}
			if op.A >= 40 {
				name = admNames[(P["name"]+op.A%2)%len(admNames)][:1]
			}
			var must []string
			for _, p := range o.ups {
				if p.done {
					must = append(must, p.bk+"/"+p.name)
				}
			}
			steady := o.steady()
			l, total, r := o.page(bk, name, op.B, op.C)
			if r.Err == nil && r.Code != 200 && o.quiet {
				w.Fail("page-refused", "nothing is wrong, but page %d of %s/%s is answered %s", op.B, bk, name, r)
			}
			if (o.quiet || steady && o.steady()) && op.B == 1 && op.C == 100 && r.OK() {
				has := map[string]bool{}
				for _, x := range l {
					has[x] = true
				}
				for _, x := range must {
					pre := bk + "/" + name
					if bk == "" {
						pre = name
					}
					if strings.HasPrefix(x, pre) && !has[x] {
						w.Fail("wrong-page", "%s was uploaded, but the list has only %v", x, l)
					}
				}
				if total != len(l) && o.quiet {
					w.Fail("wrong-total", "a page with all %d objects gives %d as the total", len(l), total)
				}
			}
		case "vers":
			bk, name := o.name(op.A, op.D)
			n := 0
			for _, p := range o.ups {
				if p.bk == bk && p.name == name && p.done {
					n++
				}
			}
			_, total, r := o.versions(bk, name, o.admin.Addr(), true)
			if o.quiet && (n > 0 && (r.Code != 200 || total != n) || n == 0 && r.Code == 200 && total > 0) {
				w.Fail("wrong-versions", "%s/%s has %d versions, but the list is %s, total %d", bk, name, n, r, total)
			}
		case "stat":
			r := w.Do("GET", o.admin.Addr(), "/api/server/stat", nil, reqOpt{})
			if r.Code != 200 && o.quiet {
				w.Fail("no-stat", "nothing is wrong, but the state of servers is answered %s", r)
			}
		case "mk", "set", "drop":
			o.command(op)
		default:
			p := w.Procs[op.A%len(w.Procs)]
			sim.Sleep(time.Duration(op.B) * 20 * time.Millisecond)
			if op.K == "term" {
				if p.Alive() && w.S.Inject("sigterm", func() string { return p.Name }) {
					p.Term()
				}
			} else if p.Alive() && w.S.Inject("crash", func() string { return p.Name }) {
				p.Crash(false)
			}
		}
	})
	// nothing fails any more
	w.S.Plan.Off = true
	w.Net.HealAll()
	for _, p := range w.Procs {
		if !w.Until(5*time.Minute, p.Alive) {
			w.Fail("no-restart", "%s is not running 5 minutes after the faults ended", p.Name)
		}
	}
	sim.Sleep(40 * time.Second)
	o.settled()
}

// settled: the console shows exactly what is there.
func (o *admWorld) settled() {
	w := o.w
	var all []string
	there := map[string]bool{}
	// an upload that failed may leave a name without versions
	for _, m := range o.metas {
		var ms []admMeta
		r := w.Do("GET", m.Addr(), "/metadata/list?page_size=10000", nil, reqOpt{})
		if r.Code != 200 || r.JSON(&ms) != nil {
			w.Fail("list-refused", "nothing is wrong, but the list of %s is %s", m.Name, r)
		}
		for _, x := range ms {
			id := x.Bucket + "/" + x.Name
			if there[id] {
				w.Fail("two-owners", "two metadata servers list %s", id)
			}
			there[id] = true
			all = append(all, id)
		}
	}
	done := map[string]bool{}
	for _, p := range o.ups {
		id := p.bk + "/" + p.name
		if p.bad || done[id] {
			continue
		}
		done[id] = true
		_, n, r := o.versions(p.bk, p.name, o.apis[0].Addr(), false)
		if r.Err != nil || r.Code != 200 && r.Code != 404 {
			w.Fail("versions-refused", "nothing is wrong, but the versions of %s are answered %s", id, r)
		}
		body, total, c := o.versions(p.bk, p.name, o.admin.Addr(), true)
		want, _, _ := o.versions(p.bk, p.name, o.apis[0].Addr(), false)
		if c.Code != r.Code && r.Code == 200 || r.Code == 200 && (total != n || body != want) {
			w.Fail("wrong-versions", "the API server gives %s as the versions of %s, the console %s", r, id, c)
		}
	}
	for _, p := range o.ups {
		if p.done && !there[p.bk+"/"+p.name] {
			w.Fail("lost-upload", "upload %d of %s/%s was acknowledged, but the object does not exist", p.id, p.bk, p.name)
		}
	}
	sort.Strings(all)
	for k, pre := range [][2]string{{"", ""}, {"b", ""}, {"b-", ""}, {"", "b"}, {"b", "a"}, {"b.x", "n"}, {"b0", "p%"}} {
		key := pre[1]
		if pre[0] != "" {
			key = pre[0] + "/" + pre[1]
		}
		var want []string
		for _, x := range all {
			if strings.HasPrefix(x, key) {
				want = append(want, x)
			}
		}
		size := 1 + (k+len(all))%4
		var got []string
		for p := 1; p <= len(want)/size+2; p++ {
			l, total, r := o.page(pre[0], pre[1], p, size)
			if r.Err != nil || r.Code != 200 {
				w.Fail("page-refused", "nothing is wrong, but page %d of %q is answered %s", p, key, r)
			}
			got = append(got, l...)
			if total != len(want) {
				w.Fail("wrong-total", "there are %d objects that begin with %q, but page %d of size %d gives %d as the total", len(want), key, p, size, total)
			}
		}
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			w.Fail("wrong-page", "the pages of size %d of what begins with %q give %q together instead of %q", size, key, got, want)
		}
		w.Nontriv++
	}
	// what was uploaded is read
	for i, p := range o.ups {
		if p.bad {
			continue
		}
		want, later := o.last(p.bk, p.name)
		if want == nil {
			continue
		}
		r := o.download(p.bk, p.name, 0, 0, 1)
		if r.Err != nil || r.Code != 200 {
			w.Fail("lost-upload", "%s/%s was uploaded, but downloading it gives %s", p.bk, p.name, r)
		}
		if !later {
			rd, a := o.get2(p.bk, p.name)
			if a.Code != 200 || !bytes.Equal(a.Body, r.Body) {
				w.Fail("differs", "%s/%s is %d bytes at the console, but reading it from an API server gives %d %d bytes", p.bk, p.name, len(r.Body), rd.code, len(a.Body))
			}
		}
		if i > 12 {
			break
		}
	}
	// every acknowledged upload is one of the versions
	for i, p := range o.ups {
		if !p.done || i%3 != 0 {
			continue
		}
		_, n, _ := o.versions(p.bk, p.name, o.apis[0].Addr(), false)
		found := false
		for v := n; v > 0 && !found; v-- {
			r := o.download(p.bk, p.name, v, 0, 1)
			found = r.Err == nil && r.Code == 200 && bytes.Equal(r.Body, p.c.body)
		}
		if !found {
			w.Fail("lost-upload", "upload %d of %s/%s was acknowledged, but none of its %d versions has its content", p.id, p.bk, p.name, n)
		}
	}
	// buckets
	var got []oBucket
	total := 0
	size := 1 + len(all)%5
	for p := 1; p <= 20; p++ {
		l, t, r := o.bucketPage("", p, size)
		if r.Err != nil || r.Code != 200 {
			w.Fail("page-refused", "nothing is wrong, but page %d of buckets is answered %s", p, r)
		}
		got = append(got, l...)
		total = t
	}
	if total != len(got) {
		w.Fail("wrong-total", "the pages of buckets have %d entries, but %d is given as the total", len(got), total)
	}
	has := map[string]bool{}
	for i := range got {
		b := got[i]
		if has[b.Name] || i > 0 && got[i-1].Name > b.Name {
			w.Fail("wrong-page", "pages of buckets: %v", got)
		}
		has[b.Name] = true
		if o.open[b.Name] {
			continue
		}
		if want := o.bks[b.Name]; want == nil || want.VersionRemains != b.VersionRemains || want.Versioning != b.Versioning {
			w.Fail("wrong-bucket", "bucket %q is listed as %+v instead of %+v", b.Name, b, want)
		}
	}
	for _, n := range append(append([]string{}, admBuckets...), admHome...) {
		if o.bks[n] != nil && !o.open[n] && !has[n] {
			w.Fail("wrong-bucket", "bucket %q is not there: %v", n, got)
		}
	}
	o.monitor(len(all), len(got))
}

func (o *admWorld) get2(bk, name string) (*oRead, *Reply) {
	r := o.w.Do("GET", o.apis[0].Addr(), "/v1/objects/"+url.PathEscape(name), nil, reqOpt{hdr: map[string]string{"bucket": bk, "Authorization": basic("admin", "secret1")}})
	return &oRead{code: r.Code}, r
}

// monitor: the state of the servers.
func (o *admWorld) monitor(objects, buckets int) {
	w := o.w
	r := w.Do("GET", o.admin.Addr(), "/api/server/stat", nil, reqOpt{})
	type info struct {
		ServerId, HttpAddr string
		IsMaster           bool
	}
	var st struct{ MetaServer, DataServer, ApiServer map[string]info }
	if r.Code != 200 || r.JSON(&st) != nil {
		w.Fail("no-stat", "the state of servers is answered %s", r)
	}
	want := []map[string]string{{}, {}, {}}
	for i, l := range [][]*Proc{o.metas, o.objs, o.apis} {
		for _, p := range l {
			want[i][p.ID] = p.Addr()
		}
	}
	for i, m := range []map[string]info{st.MetaServer, st.DataServer, st.ApiServer} {
		have := map[string]string{}
		for _, k := range sortedKeysI(m) {
			have[k] = m[k].HttpAddr
			if i == 0 && !m[k].IsMaster {
				w.Fail("wrong-stat", "%s is not shown as a master", k)
			}
		}
		if s := mapDiff(have, want[i]); s != "" {
			w.Fail("wrong-stat", "the servers shown are wrong: %s", s)
		}
	}
	r = w.Do("GET", o.admin.Addr(), "/api/server/overview", nil, reqOpt{})
	var ov struct {
		AliveCounts                map[string]int
		TotalBuckets, TotalObjects int
	}
	if r.Code != 200 || r.JSON(&ov) != nil {
		w.Fail("no-stat", "the overview is answered %s", r)
	}
	if ov.TotalBuckets != buckets || ov.TotalObjects != objects || ov.AliveCounts["apiserver"] != len(o.apis) || ov.AliveCounts["metaserver"] != len(o.metas) || ov.AliveCounts["objectserver"] != len(o.objs) {
		w.Fail("wrong-stat", "there are %d buckets and %d objects, but the overview is %s", buckets, objects, r)
	}
	// usage goes on being recorded
	sim.Sleep(3 * time.Minute)
	for i, l := range [][]*Proc{o.apis, o.metas, o.objs} {
		r := w.Do("GET", o.admin.Addr(), fmt.Sprintf("/api/server/%s/timeline?server=%d", []string{"cpu", "mem"}[i%2], i), nil, reqOpt{})
		var tl map[string][]struct {
			Time    time.Time
			Percent float64
		}
		if r.Code != 200 || r.JSON(&tl) != nil {
			w.Fail("no-stat", "the timeline is answered %s", r)
		}
		for _, p := range l {
			t := tl[p.ID]
			if len(t) == 0 || time.Since(t[len(t)-1].Time) > 150*time.Second {
				w.Fail("no-usage", "three minutes after the last failure the console has no recent usage of %s: %v", p.Name, t)
			}
			for k := 1; k < len(t); k++ {
				if t[k].Time.Before(t[k-1].Time) {
					w.Fail("wrong-stat", "the timeline of %s goes back: %v", p.Name, t)
				}
			}
		}
	}
}

func sortedKeysI[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
