package harness

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	sim "verifsim"
)

// A whole cluster seen through the REST API of the apiservers. Every upload has
// content of its own unless the plan asks for the same content again, so a body
// that is read says which upload it came from.

type oContent struct {
	tag    int
	size   int
	body   []byte
	digest string
}

type oPut struct {
	id         int
	bk, name   string
	c          *oContent
	bad, cut   bool // wrong digest or a body that was never sent completely: must never become visible
	start      time.Duration
	end        time.Duration // 0: outcome open
	acked      bool
	refused    bool // answered with an error
	ver        int
	seqS, seqE int
	ss         int
	compress   bool
}

type oRead struct {
	bk, name   string
	ver        int // 0: latest
	seqS, seqE int
	code       int
	from       []*oPut // uploads with this content
	off        int
}

type oBucket struct {
	Name           string `json:"name"`
	Versioning     bool   `json:"versioning"`
	Readonly       bool   `json:"readonly"`
	Compress       bool   `json:"compress"`
	StoreStrategy  int    `json:"storeStrategy"`
	DataShards     int    `json:"dataShards"`
	ParityShards   int    `json:"parityShards"`
	VersionRemains int    `json:"versionRemains"`
}

type objWorld struct {
	w        *World
	metas    []*Proc
	objs     []*Proc
	apis     []*Proc
	buckets  map[string]*oBucket
	contents map[int]*oContent
	byHash   map[string]*oContent
	puts     []*oPut
	reads    []*oRead
	seq      int
	ds, ps   int
	copies   int
	checksum bool
	apiExtra func(i int) string // more configuration of an API server
	keep     map[string]bool    // retention may remove versions of these buckets
	late     string             // what was found of those
	raced    map[string]bool    // hashes whose shards were recreated while servers left or joined
}

func (o *objWorld) tick() int { o.seq++; return o.seq }

func newObjWorld(w *World) *objWorld {
	return &objWorld{w: w, buckets: map[string]*oBucket{}, contents: map[int]*oContent{}, byHash: map[string]*oContent{}, keep: map[string]bool{}, raced: map[string]bool{}}
}

// genCluster draws the shape of the cluster.
func genCluster(g *Gen) {
	g.Set("objs", g.Pick(1, 2, 3, 3, 4, 5))
	g.Set("apis", g.Pick(1, 1, 2))
	g.Set("ds", g.Pick(1, 2, 2, 3, 3, 4))
	g.Set("ps", g.Pick(0, 1, 1, 2))
	if g.P.P["ps"] == 0 {
		g.Set("ps", 1)
	}
	g.Set("block", g.Pick(4096, 4096, 8192, 16384, 5000, 21845, 32768))
	g.Set("copies", g.Pick(1, 2, 2, 3))
	g.Set("copyblk", g.Pick(4, 32, 64, 100))
	g.Set("tol", g.Pick(0, 0, 34))
	g.Set("rwasync", g.Pick(0, 1))
	g.Set("cpasync", g.Pick(0, 1))
	g.Set("sum", g.Pick(0, 1, 1))
	g.Set("distinct", g.Pick(0, 0, 1, 2))
	g.Set("mounts", g.Pick(1, 1, 2))
	g.Set("cacheMB", g.Pick(16, 16, 1024))
	g.Set("itemmax", g.Pick(0, 1, 1))
	g.Set("select", g.Pick(0, 0, 1, 2))
	g.Set("skew", g.Pick(0, 0, 0, 1))
	g.Set("metas", g.Pick(1, 1, 2, 3))
}

// boot starts everything and waits until it serves.
func (o *objWorld) boot() {
	w, P := o.w, o.w.Plan.P
	o.ds, o.ps, o.copies = P["ds"], P["ps"], P["copies"]
	o.checksum = P["sum"] == 1
	n := max(1, P["metas"])
	if P["raft"] > 0 {
		// one group of metadata servers
		g := w.newGroup(P["raft"], "g1", 1, nil, true)
		o.metas, n = g.procs, 0
	}
	for i := 1; i <= n; i++ {
		opt := MetaOpts{}
		if n > 1 {
			opt.Slots = []string{fmt.Sprintf("%d-%d", 16384*(i-1)/n, 16384*i/n)}
		}
		m := w.Meta(i, opt)
		o.metas = append(o.metas, m)
		m.Start()
	}
	for i := 1; i <= P["objs"]; i++ {
		opt := ObjOpts{Mounts: P["mounts"], CacheMB: P["cacheMB"], ItemMax: []string{"1KB", "64KB"}[P["itemmax"]]}
		if t := P["ttl"]; t > 0 {
			opt.TTL = fmt.Sprintf("%dm", t)
		}
		p := w.Object(i, opt)
		o.objs = append(o.objs, p)
		p.Start()
	}
	for i := 1; i <= P["apis"]; i++ {
		extra := ""
		if o.apiExtra != nil {
			extra = o.apiExtra(i)
		}
		p := w.Api(i, ApiOpts{
			Extra: extra, Checksum: o.checksum, DataShards: o.ds, ParityShards: o.ps, BlockPerShard: P["block"],
			Copies: o.copies, CopyBlock: fmt.Sprintf("%dKB", P["copyblk"]), Tolerance: fmt.Sprintf("0.%02d", P["tol"]),
			RewriteAsync: P["rwasync"] == 1, CopyAsync: P["cpasync"] == 1,
			DistinctSize: []string{"0", "100MB", "64KB"}[P["distinct"]],
			Select:       []string{"random", "space-first", "io-first"}[P["select"]],
		})
		o.apis = append(o.apis, p)
		p.Start()
	}
	for _, p := range w.Procs {
		p.OnExit = func(p *Proc) {
			if p.Node.Panic != "" {
				w.Fail("process-panic", "%s died: %s at %s", p.Name, p.Node.Panic, p.Node.PanicAt)
			}
		}
	}
	if P["skew"] == 1 {
		for i, p := range w.Procs {
			p.SetSkew(time.Duration(i*37-50) * time.Second)
		}
	}
	if !w.Until(5*time.Minute, o.ready) {
		w.Fail("not-serving", "the cluster does not serve 5 minutes after booting")
	}
}

// meta is the metadata server which answers for name.
func (o *objWorld) meta(name string) *Proc {
	if o.w.Plan.P["raft"] > 0 {
		reg := o.w.Etcd.Snapshot("")
		for _, k := range sortedKeys(reg) {
			for _, p := range o.metas {
				if strings.HasSuffix(k, "/"+p.ID+"_master") {
					return p
				}
			}
		}
		return o.metas[0]
	}
	slot := int(crc32.ChecksumIEEE([]byte(name)) & 16383)
	n := len(o.metas)
	for i := 1; i < n; i++ {
		if slot < 16384*i/n {
			return o.metas[i-1]
		}
	}
	return o.metas[n-1]
}

// ready: every apiserver knows every other server.
func (o *objWorld) ready() bool {
	for _, a := range o.apis {
		r := o.w.Do("GET", a.Addr(), "/ping", nil, reqOpt{timeout: 5 * time.Second})
		if r.Code == 0 {
			return false
		}
	}
	n := 0
	reg := o.w.Etcd.Snapshot("")
	for _, k := range sortedKeys(reg) {
		if strings.Contains(k, "/objectserver/") || strings.HasSuffix(k, "_objectserver") || strings.Contains(k, "objectserver") {
			n++
		}
	}
	if n < len(o.objs) {
		return false
	}
	sim.Sleep(3 * time.Second)
	return true
}

func (o *objWorld) mkBucket(b *oBucket) {
	w := o.w
	body, _ := json.Marshal(b)
	var r *Reply
	if !w.Until(time.Minute, func() bool {
		r = w.Do("POST", o.apis[0].Addr(), "/v1/bucket", body, reqOpt{hdr: map[string]string{"Content-Type": "application/json"}})
		return r.OK()
	}) {
		w.Fail("bucket-create", "creating bucket %s gives %s", b.Name, r)
	}
	o.buckets[b.Name] = b
}

func (o *objWorld) content(tag, size int) *oContent {
	if c := o.contents[tag]; c != nil {
		return c
	}
	b := fill(int64(tag), size)
	s := sha256.Sum256(b)
	c := &oContent{tag: tag, size: size, body: b, digest: hex.EncodeToString(s[:])}
	o.contents[tag] = c
	o.byHash[c.digest] = c
	return c
}

type putOpt struct {
	ss       int
	compress bool
	bad      bool // send a wrong digest
	cut      int  // send only that many bytes (‰ of the size), then give up
	timeout  time.Duration
}

// cutReader fails in the middle of the body.
type cutReader struct {
	b []byte
	n int
}

func (c *cutReader) Read(p []byte) (int, error) {
	if c.n <= 0 {
		return 0, errors.New("client gone")
	}
	k := min(len(p), c.n, len(c.b))
	copy(p, c.b[:k])
	c.b, c.n = c.b[k:], c.n-k
	return k, nil
}

func (o *objWorld) put(api *Proc, bk, name string, c *oContent, opt putOpt) (*oPut, *Reply) {
	w := o.w
	p := &oPut{id: len(o.puts), bk: bk, name: name, c: c, start: w.S.Now(), seqS: o.tick(), ss: opt.ss, compress: opt.compress}
	o.puts = append(o.puts, p)
	dg := c.digest
	if opt.bad {
		// of its own: without checksum the cluster believes digests
		x := sha256.Sum256([]byte("wrong " + c.digest))
		dg = hex.EncodeToString(x[:])
		p.bad = o.checksum
	}
	var kv []string
	if opt.ss > 0 {
		kv = append(kv, "ss", strconv.Itoa(opt.ss))
	}
	if opt.compress {
		kv = append(kv, "compress", "true")
	}
	ro := reqOpt{hdr: map[string]string{"bucket": bk, "digest": dg}, timeout: opt.timeout}
	if opt.cut > 0 {
		p.bad, p.cut = true, true
		ro.body = &cutReader{c.body, c.size * opt.cut / 1000}
		ro.size = c.size
	}
	r := w.Do("PUT", api.Addr(), "/v1/objects/"+url.PathEscape(name)+q(kv...), c.body, ro)
	p.seqE, p.end = o.tick(), w.S.Now()
	w.Logf("put#%d %s/%s tag %d size %d ss %d z %v bad %v: %s", p.id, bk, name, c.tag, c.size, opt.ss, opt.compress, p.bad, r)
	if r.Err != nil {
		return p, r
	}
	if r.Code == 201 {
		var v struct {
			Name, Bucket string
			Version      int
		}
		if e := r.JSON(&v); e != nil || v.Name != name || v.Bucket != bk || v.Version <= 0 {
			w.Fail("bad-ack", "upload %s/%s is acknowledged with %s", bk, name, r)
		}
		if o.impossible(p) {
			w.Fail("bad-upload-accepted", "upload of %s/%s with a wrong digest or an incomplete body is acknowledged: %s", bk, name, r)
		}
		p.acked, p.ver = true, v.Version
		for _, x := range o.puts {
			if x != p && x.acked && x.bk == bk && x.name == name && x.ver == p.ver {
				w.Fail("version-reused", "uploads %d and %d of %s/%s are both acknowledged as version %d", x.id, p.id, bk, name, p.ver)
			}
		}
	} else if r.Code/100 == 2 {
		w.Fail("bad-ack", "upload %s/%s is answered %s", bk, name, r)
	} else {
		p.refused = true
	}
	return p, r
}

// impossible: nothing of upload p may ever be visible. A body that breaks off is
// no matter if the cluster has the content already: it need not be read.
func (o *objWorld) impossible(p *oPut) bool {
	if !p.cut {
		return p.bad
	}
	for _, x := range o.puts {
		if !x.bad && x.c.digest == p.c.digest {
			return false
		}
	}
	return true
}

// get reads an object and judges the bytes at once: whatever is delivered
// completely must be the exact content of one upload that may be visible.
func (o *objWorld) get(api *Proc, bk, name string, ver, off int, timeout time.Duration) (*oRead, *Reply) {
	w := o.w
	rd := &oRead{bk: bk, name: name, ver: ver, seqS: o.tick(), off: off}
	ro := reqOpt{hdr: map[string]string{"bucket": bk}, timeout: timeout}
	if off > 0 {
		ro.hdr["Range"] = fmt.Sprintf("bytes=%d-", off)
	}
	var kv []string
	if ver > 0 {
		kv = append(kv, "version", strconv.Itoa(ver))
	}
	r := w.Do("GET", api.Addr(), "/v1/objects/"+url.PathEscape(name)+q(kv...), nil, ro)
	rd.seqE, rd.code = o.tick(), r.Code
	if r.Err != nil {
		w.Logf("get %s/%s v%d from %d: %d %v after %d bytes", bk, name, ver, off, r.Code, r.Err, len(r.Body))
		o.prefix(bk, name, ver, off, r, rd)
		return rd, r
	}
	w.Logf("get %s/%s v%d from %d: %d, %d bytes", bk, name, ver, off, r.Code, len(r.Body))
	if r.Code/100 == 2 {
		o.delivered(rd, r)
	}
	return rd, r
}

// delivered: these bytes were answered completely.
func (o *objWorld) delivered(rd *oRead, r *Reply) {
	w, bk, name, ver, off := o.w, rd.bk, rd.name, rd.ver, rd.off
	for _, p := range o.puts {
		if p.bk != bk || p.name != name || o.impossible(p) {
			continue
		}
		if ver > 0 && p.acked && p.ver != ver {
			continue
		}
		// from beyond the end on there is nothing
		if bytes.Equal(p.c.body[min(off, p.c.size):], r.Body) {
			rd.from = append(rd.from, p)
		}
	}
	if len(rd.from) == 0 {
		w.Fail("wrong-bytes", "reading %s/%s version %d from byte %d gives %d %d bytes (%s), which no upload of it can explain: %s",
			bk, name, ver, off, r.Code, len(r.Body), o.whose(r.Body, off), o.history(bk, name))
	}
	o.reads = append(o.reads, rd)
}

// prefix: what was delivered before the connection broke must be right too.
func (o *objWorld) prefix(bk, name string, ver, off int, r *Reply, rd *oRead) {
	if r.Code/100 != 2 || len(r.Body) == 0 {
		return
	}
	for _, p := range o.puts {
		if p.bk == bk && p.name == name && !o.impossible(p) && off <= p.c.size && bytes.HasPrefix(p.c.body[off:], r.Body) {
			return
		}
	}
	o.w.Fail("wrong-bytes", "reading %s/%s version %d from byte %d breaks off after %d bytes (%s) that no upload of it can explain: %s",
		bk, name, ver, off, len(r.Body), o.whose(r.Body, off), o.history(bk, name))
}

// whose describes bytes for a report.
func (o *objWorld) whose(b []byte, off int) string {
	for _, p := range o.puts {
		c := p.c.body
		if off < len(c) {
			c = c[off:]
			n := 0
			for n < len(c) && n < len(b) && c[n] == b[n] {
				n++
			}
			if n > 16 || n == len(c) {
				return fmt.Sprintf("agrees with upload %d of %s/%s for %d of %d bytes", p.id, p.bk, p.name, n, len(c))
			}
		}
	}
	return fmt.Sprintf("%q", trunc(string(b), 80))
}

func (o *objWorld) history(bk, name string) string {
	var s []string
	for _, p := range o.puts {
		if p.bk == bk && p.name == name {
			st := "open"
			if p.acked {
				st = fmt.Sprintf("v%d", p.ver)
			} else if p.refused {
				st = "refused"
			}
			if p.bad {
				st += " bad"
			}
			s = append(s, fmt.Sprintf("#%d %d bytes %s", p.id, p.c.size, st))
		}
	}
	return "[" + strings.Join(s, ", ") + "]"
}

// judge decides the recorded history of reads: a read of the latest version that
// began after an upload was acknowledged never shows an older one, and later reads
// never go back; a read of a version shows that version.
func (o *objWorld) judge() {
	w := o.w
	for _, r := range o.reads {
		floor, why := 0, ""
		for _, p := range o.puts {
			if p.bk == r.bk && p.name == r.name && p.acked && p.seqE < r.seqS && p.ver > floor {
				floor, why = p.ver, fmt.Sprintf("upload %d", p.id)
			}
		}
		if r.ver > 0 {
			ok := false
			for _, p := range r.from {
				ok = ok || !p.acked || p.ver == r.ver
			}
			if !ok {
				w.Fail("wrong-version", "reading version %d of %s/%s shows upload %d: %s", r.ver, r.bk, r.name, r.from[0].id, o.history(r.bk, r.name))
			}
			continue
		}
		if w.Plan.P["raft"] > 0 {
			continue // the followers, which also are asked, are behind
		}
		for _, e := range o.reads {
			if e.bk == r.bk && e.name == r.name && e.ver == 0 && e.seqE < r.seqS {
				lo := -1
				for _, p := range e.from {
					v := 0
					if p.acked {
						v = p.ver
					}
					if lo < 0 || v < lo {
						lo = v
					}
				}
				if lo > floor {
					floor, why = lo, "an earlier read"
				}
			}
		}
		ok := false
		for _, p := range r.from {
			ok = ok || p.seqS < r.seqE && (!p.acked || p.ver >= floor)
		}
		if !ok {
			w.Fail("stale-read", "reading the latest version of %s/%s shows upload %d (version %d) although %s showed version %d before: %s",
				r.bk, r.name, r.from[0].id, r.from[0].ver, why, floor, o.history(r.bk, r.name))
		}
	}
}

// every acknowledged upload reads back.
func (o *objWorld) verifyAll(class string) {
	w := o.w
	for _, p := range o.puts {
		if !p.acked || o.keep[p.bk] {
			continue
		}
		rd, r := o.get(o.apis[p.id%len(o.apis)], p.bk, p.name, p.ver, 0, 0)
		if r.Err != nil || r.Code != 200 {
			w.Fail(class, "version %d of %s/%s (upload %d, %d bytes, ss %d, compress %v) cannot be read back: %s", p.ver, p.bk, p.name, p.id, p.c.size, p.ss, p.compress, r)
		}
		_ = rd
		w.Nontriv++
	}
}

// --- the disks of the objectservers -----------------------------------------

type shardFile struct {
	srv  *Proc
	path string
	name string
	size int64
	temp bool
}

func (o *objWorld) shardFiles() []shardFile {
	var r []shardFile
	for _, p := range o.objs {
		for _, m := range p.Mounts {
			filepath.Walk(filepath.Join(m, "objects"), func(pt string, fi os.FileInfo, err error) error {
				if err != nil || fi.IsDir() {
					if fi != nil && fi.IsDir() && strings.HasSuffix(pt, "_path-cache") {
						return filepath.SkipDir
					}
					return nil
				}
				r = append(r, shardFile{p, pt, fi.Name(), fi.Size(), strings.HasPrefix(fi.Name(), "TempInfo_")})
				return nil
			})
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].path < r[j].path })
	return r
}

var objSizes = []int{1, 100, 1000, 4095, 4096, 4097, 8191, 8192, 12288, 12289, 20000, 65535, 65536, 65537, 70000, 98304, 100000, 131072, 131073, 200000, 262145}

var objNames = []string{"a", "a.1", "b.txt", "name with space", "é%2F", "a#b"}

var _ = io.EOF
