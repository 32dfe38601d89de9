package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"time"

	sim "verifsim"
)

// One object server by itself: what it acknowledged is there, complete and
// exact, across crashes, power failures and disk and network errors; what it
// did not acknowledge is there completely or not at all.

type storeName struct {
	name     string
	size     int
	gen      int
	compress bool
	may      map[int]bool // contents (generations) it may have; 0: absent
	temps    []string
	ghosts   map[int]bool // writes whose outcome is open and which may still land
}

type storeWorld struct {
	w      *World
	p      *Proc
	k      *keeper
	names  []*storeName
	epoch  int  // counts ends of the process
	down   bool // it is being terminated
	faulty bool
	temps  int
	exactN int
}

func (n *storeName) body(gen int) []byte {
	sum := int64(0)
	for _, c := range n.name {
		sum = sum*31 + int64(c)
	}
	return fill(sum*1000+int64(gen), n.size)
}

func (n *storeName) set(g ...int) {
	n.may = map[int]bool{}
	for _, x := range g {
		n.may[x] = true
	}
}

func (n *storeName) String() string {
	var s []string
	for g := 0; g <= n.gen; g++ {
		if n.may[g] {
			s = append(s, strconv.Itoa(g))
		}
	}
	return fmt.Sprintf("%s (%d bytes, compress %v) may hold {%s} of generations up to %d", n.name, n.size, n.compress, strings.Join(s, ","), n.gen)
}

// nextGen: a name stands for one content until it was surely deleted.
func (n *storeName) nextGen() {
	if len(n.may) == 1 && n.may[0] && len(n.ghosts) == 0 {
		n.gen++
	}
}

// landed: a complete write of gen was acknowledged. An object that exists is
// never overwritten.
func (n *storeName) landed(gen int) {
	m := map[int]bool{gen: true}
	for g := range n.may { // a set: order does not matter
		if g != 0 {
			m[g] = true
		}
	}
	for g := range n.ghosts {
		m[g] = true
	}
	n.may = m
}

func (n *storeName) maybe(gen int) { n.may[gen] = true; n.ghosts[gen] = true }

func (sw *storeWorld) cq(n *storeName) string {
	if n.compress {
		return "?compress=true"
	}
	return ""
}

func (sw *storeWorld) do(method, path string, body []byte, hdr map[string]string, o reqOpt) *Reply {
	o.hdr = hdr
	if o.timeout == 0 {
		o.timeout = 30 * time.Second
	}
	return sw.w.Do(method, sw.p.Addr(), path, body, o)
}

// excused: this answer may be the consequence of a fault.
func (sw *storeWorld) excused(boot int) bool {
	return sw.faulty || sw.down || boot != sw.epoch || !sw.p.Alive()
}

func (sw *storeWorld) op(n *storeName, o Op) {
	w, boot := sw.w, sw.epoch
	path := "/objects/" + n.name
	switch o.K {
	case "put":
		n.nextGen()
		g := n.gen
		b := n.body(g)
		ro := reqOpt{}
		cut := false
		if o.C > 0 {
			ro.body, ro.size, cut = &cutReader{b, len(b) * o.C / 1000}, len(b), true
		}
		r := sw.do("PUT", path+sw.cq(n), b, nil, ro)
		w.Logf("put %s gen %d: %s", n.name, g, r)
		switch {
		case r.Err != nil || r.Code/100 == 5:
			if !cut {
				n.maybe(g)
			}
			if !cut && !sw.excused(boot) {
				w.Fail("put-refused", "PUT of %v: %s without any fault", n, r)
			}
		case r.OK():
			if cut && n.may[0] && !(len(n.may) > 1) && len(n.ghosts) == 0 {
				w.Fail("put-incomplete", "PUT of %v is acknowledged although only %d bytes of it were sent", n, len(b)*o.C/1000)
			}
			if !cut {
				n.landed(g)
			} else {
				delete(n.may, 0)
				for x := range n.ghosts {
					n.may[x] = true
				}
			}
		default:
			if !cut && !sw.excused(boot) {
				w.Fail("put-refused", "PUT of %v: %s", n, r)
			}
		}
	case "get":
		sw.get(n, o.C)
	case "head":
		r := sw.do("HEAD", path, nil, nil, reqOpt{})
		w.Logf("head %s: %s", n.name, r)
		switch {
		case r.Err != nil || r.Code >= 500:
			if !sw.excused(boot) {
				w.Fail("head-refused", "HEAD of %v: %s", n, r)
			}
		case r.OK():
			if len(n.may) == 1 && n.may[0] && len(n.ghosts) == 0 {
				w.Fail("ghost", "HEAD says that %v exists", n)
			}
		default:
			if !n.may[0] {
				w.Fail("lost", "HEAD says %d for %v", r.Code, n)
			}
		}
	case "del":
		r := sw.do("DELETE", path, nil, nil, reqOpt{})
		w.Logf("delete %s: %s", n.name, r)
		if r.OK() {
			n.set(0)
			for g := range n.ghosts {
				n.may[g] = true
			}
		} else {
			n.may[0] = true
			if !sw.excused(boot) {
				w.Fail("delete-refused", "DELETE of %v: %s", n, r)
			}
		}
	case "temp":
		sw.temp(n, o)
	}
}

func (sw *storeWorld) get(n *storeName, off int) {
	w, boot := sw.w, sw.epoch
	hdr := map[string]string{"Size": strconv.Itoa(n.size)}
	if off > n.size {
		off = n.size - 1
	}
	if off > 0 {
		hdr["Range"] = fmt.Sprintf("bytes=%d-", off)
	}
	r := sw.do("GET", "/objects/"+n.name+sw.cq(n), nil, hdr, reqOpt{})
	w.Logf("get %s from %d: %d %v %d bytes", n.name, off, r.Code, r.Err, len(r.Body))
	ok := r.Err == nil && r.Code == 200
	if r.Err == nil && r.Code/100 != 2 {
		if r.Code == 404 {
			if !n.may[0] {
				w.Fail("lost", "GET says %s for %v", r, n)
			}
			return
		}
		if !sw.excused(boot) {
			w.Fail("get-refused", "GET of %v: %s", n, r)
		}
		return
	}
	if r.Err != nil && len(r.Body) == 0 {
		if !sw.excused(boot) {
			w.Fail("get-broken", "GET of %v: %s", n, r)
		}
		return
	}
	found := -1
	for g := 1; g <= n.gen; g++ {
		if !n.may[g] && !n.ghosts[g] {
			continue
		}
		b := n.body(g)[off:]
		if ok && bytes.Equal(b, r.Body) || !ok && bytes.HasPrefix(b, r.Body) {
			found = g
		}
	}
	if found < 0 {
		w.Fail("wrong-bytes", "GET of %v from %d gives %d bytes, %v, that are no content of it: %q...", n, off, len(r.Body), r.Err, trunc(string(r.Body), 60))
	}
	if !ok && !sw.excused(boot) {
		w.Fail("get-broken", "GET of %v: %s after %d bytes", n, r.Err, len(r.Body))
	}
	if ok {
		sw.exactN++
	}
}

// temp uploads in parts and commits, gives up, or just stops.
func (sw *storeWorld) temp(n *storeName, o Op) {
	w, boot := sw.w, sw.epoch
	n.nextGen()
	g := n.gen
	b := n.body(g)
	r := sw.do("POST", "/temp/"+n.name, nil, map[string]string{"Size": strconv.Itoa(n.size)}, reqOpt{})
	if !r.OK() {
		if !sw.excused(boot) {
			w.Fail("temp-refused", "POST of a temp of %v: %s", n, r)
		}
		return
	}
	sw.temps++
	id := string(r.Body)
	tp := "/temp/" + id
	sent, broken := 0, false
	part := []int{4096, 8192, 65536, 1 << 20}[o.B%4]
	stopAt := len(b) + 1
	if o.D%5 == 1 {
		stopAt = len(b) * (o.C % 1000) / 1000
	}
	for sent < len(b) && sent < stopAt {
		e := min(sent+part, len(b))
		ro := reqOpt{}
		cut := o.D%5 == 2 && !broken && o.C%7 == sent/part%7
		if cut {
			ro.body, ro.size = &cutReader{b[sent:e], (e - sent) * (o.C % 1000) / 1000}, e-sent
		}
		r = sw.do("PATCH", tp, b[sent:e], nil, ro)
		if cut && r.OK() {
			w.Fail("temp-incomplete", "PATCH of %s is acknowledged although the part was not sent completely", n.name)
		}
		if cut {
			broken = true // the part is sent again
			hr := sw.do("HEAD", tp, nil, nil, reqOpt{})
			if hr.OK() {
				sz, _ := strconv.Atoi(hr.Header.Get("Size"))
				if sz != sent {
					if !sw.excused(boot) {
						w.Fail("temp-size", "HEAD of temp %s of %v says %d bytes after a part was cut off, %d were acknowledged", id, n, sz, sent)
					}
					return // a client gives up
				}
			}
			continue
		}
		if !r.OK() {
			if !sw.excused(boot) {
				w.Fail("temp-refused", "PATCH of a temp of %v: %s", n, r)
			}
			w.Logf("temp %s of %s abandoned: %s", id, n.name, r)
			return // outcome of the part unknown: a client gives up
		}
		sent = e
		if o.D%5 == 4 {
			hr := sw.do("HEAD", tp, nil, nil, reqOpt{})
			if hr.OK() {
				if sz, _ := strconv.Atoi(hr.Header.Get("Size")); sz != sent {
					w.Fail("temp-size", "HEAD of temp %s of %v says %d bytes, %d were acknowledged", id, n, sz, sent)
				}
			}
			gr := sw.do("GET", tp, nil, map[string]string{"Size": strconv.Itoa(sent)}, reqOpt{})
			if gr.OK() && !bytes.Equal(gr.Body, b[:sent]) {
				w.Fail("temp-bytes", "GET of temp %s of %v gives %d bytes that differ from the %d sent", id, n, len(gr.Body), sent)
			}
		}
	}
	w.Logf("temp %s of %s: %d of %d sent", id, n.name, sent, len(b))
	if sent < len(b) {
		return // left alone: expires
	}
	if o.D%5 == 3 {
		r = sw.do("DELETE", tp, nil, nil, reqOpt{})
		w.Logf("temp %s removed: %s", id, r)
		if r.OK() {
			// until then its content was never committed
			r = sw.do("PUT", tp+sw.cq(n), nil, nil, reqOpt{})
			if r.OK() {
				w.Fail("temp-revived", "temp %s of %v is committed after it was removed", id, n)
			}
		}
		return
	}
	r = sw.do("PUT", tp+sw.cq(n), nil, nil, reqOpt{})
	w.Logf("temp %s of %s gen %d committed: %s", id, n.name, g, r)
	switch {
	case r.OK():
		n.landed(g)
	case r.Err != nil || r.Code/100 == 5:
		n.maybe(g)
		fallthrough
	default:
		if !sw.excused(boot) {
			w.Fail("commit-refused", "committing temp %s of %v: %s", id, n, r)
		}
	}
}

func (sw *storeWorld) capacity() (int64, bool) {
	r := sw.do("GET", "/stat", nil, nil, reqOpt{})
	if !r.OK() {
		return 0, false
	}
	v, err := strconv.ParseInt(r.Header.Get("Capacity"), 10, 64)
	return v, err == nil
}

func (sw *storeWorld) serving() bool {
	return sw.do("GET", "/ping", nil, nil, reqOpt{timeout: 3 * time.Second}).OK()
}

func runStore(w *World) {
	P := w.Plan.P
	opt := ObjOpts{Mounts: P["mounts"], CacheMB: P["cacheMB"], ItemMax: []string{"1KB", "64KB"}[P["itemmax"]], TTL: fmt.Sprintf("%dm", P["ttl"])}
	p := w.Object(1, opt)
	sw := &storeWorld{w: w, p: p}
	for i := 0; i < P["names"]; i++ {
		n := &storeName{name: fmt.Sprintf("%x.%d", 0xabc+i*7, i), size: objSizes[P[fmt.Sprintf("size%d", i)]%len(objSizes)], compress: P[fmt.Sprintf("z%d", i)] == 1, ghosts: map[int]bool{}}
		n.set(0)
		sw.names = append(sw.names, n)
	}
	p.Start()
	if !w.Until(2*time.Minute, sw.serving) {
		w.Fail("not-serving", "the object server does not serve 2 minutes after booting")
	}
	p.Disk.Track = P["power"] > 0
	p.Disk.Faulty = func(f string) bool { return strings.Contains(f, "_store") }
	sw.faulty = len(w.Plan.Rates) > 0
	sw.k = w.keep(p, &keeper{power: P["power"] > 0, onDead: func() { sw.epoch++ }, ready: func() {
		if !w.Until(2*time.Minute, func() bool { return !p.Alive() || sw.serving() }) {
			w.Fail("no-restart", "the object server does not serve 2 minutes after a restart")
		}
		sw.down = false
		// nothing of an earlier process can land any more
		for _, n := range sw.names {
			n.ghosts = map[int]bool{}
		}
	}})
	w.clientsRun(P["clients"], func(c, i int, o Op) {
		w.awaitUp(sw.k)
		switch o.K {
		case "kill":
			if w.S.Inject("crash", func() string { return p.Name }) {
				p.Crash(false)
			}
			return
		case "term":
			if w.S.Inject("sigterm", func() string { return p.Name }) {
				sw.down = true
				sw.epoch++
				p.Term()
				if !p.AwaitExit(3 * time.Minute) {
					w.Fail("no-exit", "the object server still runs 3 minutes after SIGTERM")
				}
			}
			return
		}
		// the names of one client are its own
		mine := []*storeName{}
		for k, n := range sw.names {
			if k%P["clients"] == c {
				mine = append(mine, n)
			}
		}
		sw.op(mine[o.idx()%len(mine)], o)
	})
	w.S.Plan.Off = true
	p.Disk.Full = false
	w.awaitUp(sw.k)
	if P["final"] > 0 {
		p.Crash(false)
		sim.Sleep(5 * time.Millisecond)
		w.awaitUp(sw.k)
	}
	sw.faulty = false
	sim.Sleep(35 * time.Second) // requests that were given up are over
	for round := 0; round < 2; round++ {
		for i, n := range sw.names {
			sw.op(n, Op{K: "head"})
			sw.get(n, 0)
			sw.get(n, []int{1, 4096, 5000}[i%3])
			// GET and HEAD agree
		}
	}
	sw.k.off = true
	sw.checkCap()
	// temps that were never committed disappear
	sim.Sleep(time.Duration(P["ttl"])*2*time.Minute + 2*time.Minute)
	for _, f := range sw.files() {
		if f.temp && !f.srv.Disk.MetaFailed[f.path] {
			w.Fail("temp-left", "%d minutes after the last request the temp file %s (%d bytes) is still there", P["ttl"]*2+2, f.name, f.size)
		}
	}
	for _, n := range sw.names {
		sw.get(n, 0)
	}
	w.Nontriv += sw.exactN
}

func (sw *storeWorld) files() []shardFile {
	o := &objWorld{w: sw.w, objs: []*Proc{sw.p}}
	return o.shardFiles()
}

func (sw *storeWorld) checkCap() {
	want := int64(0)
	for _, f := range sw.files() {
		if !f.temp {
			want += f.size
		}
	}
	got, ok := sw.capacity()
	if !ok || got != want {
		sw.w.Fail("capacity", "the object server reports %d bytes of objects, its objects are %d bytes", got, want)
	}
}

func (o Op) idx() int { n, _ := strconv.Atoi(o.S); return n }

func genStore(g *Gen, temps bool) {
	cl := g.Set("clients", g.Pick(1, 1, 2, 3))
	n := g.Set("names", cl*g.Range(1, 2))
	for i := 0; i < n; i++ {
		g.Set(fmt.Sprintf("size%d", i), g.Intn(len(objSizes)))
		g.Set(fmt.Sprintf("z%d", i), g.Pick(0, 0, 1))
	}
	g.Set("mounts", g.Pick(1, 1, 2, 3))
	g.Set("cacheMB", g.Pick(16, 1024))
	g.Set("itemmax", g.Intn(2))
	g.Set("ttl", g.Pick(3, 10, 60))
	g.Set("power", g.Pick(0, 1, 1))
	g.Set("final", g.Intn(2))
	for k := g.Range(6, 24); k > 0; k-- {
		o := Op{A: g.Intn(cl), B: g.Intn(4), S: strconv.Itoa(g.Intn(2))}
		x := g.Intn(100)
		switch {
		case temps && x < 45:
			o.K, o.C, o.D = "temp", g.Intn(1000), g.Intn(5)
		case x < 30:
			o.K = "put"
			if g.Chance(20) {
				o.C = g.Range(1, 999)
			}
		case x < 50:
			o.K, o.D, o.C = "temp", 0, g.Intn(1000)
		case x < 75:
			o.K, o.C = "get", g.Pick(0, 0, 1, 4096, 5000, 8192)
		case x < 85:
			o.K = "head"
		default:
			o.K = "del"
		}
		g.P.Ops = append(g.P.Ops, o)
	}
}

func (g *Gen) kills(n int, kinds ...string) {
	for ; n > 0; n-- {
		i := g.Intn(len(g.P.Ops))
		g.P.Ops = append(g.P.Ops[:i:i], append([]Op{{K: kinds[g.Intn(len(kinds))], A: g.Intn(max(1, g.P.P["clients"]))}}, g.P.Ops[i:]...)...)
	}
}

func init() {
	for _, prop := range []string{"C15", "C16"} {
		temps := prop == "C16"
		register(&Scenario{Prop: prop, Name: "plain", Weight: 1, Gen: func(g *Gen) {
			genStore(g, temps)
			g.kills(g.Intn(2), "term")
		}, Run: runStore})
		register(&Scenario{Prop: prop, Name: "crash", Weight: 2, Gen: func(g *Gen) {
			genStore(g, temps)
			g.kills(g.Intn(3), "kill", "kill", "term")
			g.Rate("disk.crash", g.Pick(0, 10, 40))
			g.P.Max = g.Range(1, 5)
		}, Run: runStore})
		register(&Scenario{Prop: prop, Name: "faults", Weight: 2, Gen: func(g *Gen) {
			genStore(g, temps)
			g.kills(g.Intn(2), "kill", "term")
			g.Rate(g.pickS("disk.eio.write", "disk.eio.sync", "disk.enospc", "disk.eio.read", "disk.eio.open", "disk.short.read", "disk.eio.stat", "disk.eio.meta"), g.Pick(20, 80, 200))
			g.Rate(g.pickS("net.reqcut", "net.respcut", "net.resploss", "net.slow"), g.Pick(0, 20, 80, 200))
			g.P.Max = g.Range(1, 10)
		}, Run: runStore})
	}
	budgets["C15"] = budget{quick: 2500}
	budgets["C16"] = budget{quick: 2500}
	_ = json.Marshal
}
