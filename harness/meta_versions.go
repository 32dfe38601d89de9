package harness

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	sim "verifsim"
)

// One client, long histories: numbering, listing, paging and lookup of versions
// are exact at every moment. The reference is a plain in-memory map.

type refVer struct {
	seq    int
	hash   string
	val    int
	locate string
}

type refRec struct {
	name, bucket string
	next         int
	vers         []*refVer
}

type refMeta struct {
	w    *World
	recs map[string]*refRec
	bks  map[string]int
	// a replicated group acknowledges the creation of something that exists, without effect
	again bool
}

// errMoved: another server leads the group now, nothing was done
var errMoved = errors.New("leader moved")

func (r *refRec) find(seq int) *refVer {
	for _, v := range r.vers {
		if v.seq == seq {
			return v
		}
	}
	return nil
}

func (r *refMeta) ids() []string { return sortedKeys(r.recs) }

func (v *refVer) short() string {
	return fmt.Sprintf("%d:%s:%d:%s", v.seq, v.hash, v.val, v.locate)
}

var verIDs = []string{"v", "v.1", "v.10", "bk/v", "bk/v.1", "w"}
var verHashes = []string{"h0", "h1", "h2", "h10", "h"}

// verify compares everything the server shows with the reference.
func (r *refMeta) verify(c *metaClient, page int) {
	w := r.w
	for i, id := range verIDs {
		rec := r.recs[id]
		rpc := i%2 == 0
		st, m := c.GetMeta(id, true, rpc)
		if rec == nil {
			if st != rNone {
				w.Fail("phantom-record", "record %q does not exist, but reading it gives %s %+v (%s)", id, st, m, c.last)
			}
			if st, vs, _ := c.ListVer(id, 1, 10, rpc); st != rNone && len(vs) > 0 {
				w.Fail("phantom-version", "record %q does not exist, but listing versions gives %v", id, vs)
			}
			continue
		}
		if st != rOK || m.Name != rec.name || m.Bucket != rec.bucket {
			w.Fail("wrong-record", "record %q is {%s %s}, read %s %+v (%s)", id, rec.name, rec.bucket, st, m, c.last)
		}
		first, last := 0, 0
		if n := len(rec.vers); n > 0 {
			first, last = rec.vers[0].seq, rec.vers[n-1].seq
		}
		if m.Total != len(rec.vers) || m.First != first || m.Last != last {
			w.Fail("wrong-counters", "record %q has %d versions %d..%d, its counters are %d, %d..%d", id, len(rec.vers), first, last, m.Total, m.First, m.Last)
		}
		// pages put together are the whole list, in order of the numbers
		var got []string
		for p := 1; ; p++ {
			st, vs, tot := c.ListVer(id, p, page, rpc == (p%2 == 0))
			if st != rOK {
				w.Fail("unreadable", "page %d/%d of versions of %q: %s", p, page, id, c.last)
			}
			if tot != len(rec.vers) {
				w.Fail("wrong-total", "versions of %q: total %d in page %d, there are %d", id, tot, p, len(rec.vers))
			}
			if len(vs) > page {
				w.Fail("wrong-page", "page %d of versions of %q has %d entries, page size is %d", p, id, len(vs), page)
			}
			for _, v := range vs {
				got = append(got, v.short())
			}
			if len(vs) < page {
				break
			}
		}
		var want []string
		for _, v := range rec.vers {
			want = append(want, v.short())
		}
		if strings.Join(got, " ") != strings.Join(want, " ") {
			w.Fail("wrong-versions", "versions of %q in pages of %d: %v, expected %v", id, page, got, want)
		}
		// the latest
		st, v := c.GetVer(id, 0, !rpc)
		if len(rec.vers) == 0 {
			if st != rNone {
				w.Fail("wrong-latest", "%q has no version, its latest one is %s %+v", id, st, v)
			}
		} else if l := rec.vers[len(rec.vers)-1]; st != rOK || v.short() != l.short() {
			w.Fail("wrong-latest", "latest version of %q is %s, read %s %+v", id, l.short(), st, v)
		}
	}
	r.verifyHash(c)
	r.verifyLists(c)
}

func (r *refMeta) verifyHash(c *metaClient) {
	for i, h := range verHashes {
		var want, got []string
		for _, id := range r.ids() {
			for _, v := range r.recs[id].vers {
				if v.hash == h {
					want = append(want, v.short())
				}
			}
		}
		st, vs := c.ByHash(h, i%2 == 0)
		if st != rOK && st != rNone {
			r.w.Fail("unreadable", "lookup of hash %q: %s", h, c.last)
		}
		for _, v := range vs {
			got = append(got, v.short())
		}
		if !sameStrings(got, want) {
			r.w.Fail("hash-lookup", "lookup of hash %q gives %v, the versions with it are %v", h, got, want)
		}
	}
}

func (r *refMeta) verifyLists(c *metaClient) {
	for _, pre := range []string{"", "v", "v.1", "bk/", "x"} {
		for _, size := range []int{1, 3, 100} {
			var want []string
			for _, id := range r.ids() { // in order of ids, cut to size
				if strings.HasPrefix(id, pre) && len(want) < size {
					want = append(want, r.recs[id].name)
				}
			}
			sort.Strings(want)
			st, l := c.ListMeta(pre, size)
			if st != rOK {
				r.w.Fail("unreadable", "list of records with prefix %q: %s", pre, c.last)
			}
			var got []string
			for _, m := range l {
				got = append(got, m.Name)
			}
			if strings.Join(got, " ") != strings.Join(want, " ") {
				r.w.Fail("wrong-list", "records with prefix %q, at most %d: %v, expected %v", pre, size, got, want)
			}
		}
	}
	for _, pre := range []string{"", "b", "b1", "c"} {
		for _, size := range []int{1, 100} {
			var want, got []string
			for _, b := range sortedKeys(r.bks) {
				if strings.HasPrefix(b, pre) && len(want) < size {
					want = append(want, fmt.Sprintf("%s=%d", b, r.bks[b]))
				}
			}
			st, l := c.ListBuckets(pre, size)
			if st != rOK {
				r.w.Fail("unreadable", "list of buckets with prefix %q: %s", pre, c.last)
			}
			for _, b := range l {
				got = append(got, fmt.Sprintf("%s=%d", b.Name, b.Val))
			}
			if strings.Join(got, " ") != strings.Join(want, " ") {
				r.w.Fail("wrong-list", "buckets with prefix %q, at most %d: %v, expected %v", pre, size, got, want)
			}
		}
	}
}

// apply performs one operation on both sides.
func (r *refMeta) apply(c *metaClient, o Op, i int) {
	w := r.w
	rpc := o.D == 1
	id := verIDs[o.B%len(verIDs)]
	rec := r.recs[id]
	expect := func(st string, want ...string) {
		w.Nontriv++
		for _, x := range want {
			if st == x {
				return
			}
		}
		if r.again && (strings.Contains(c.last, "not writable") || strings.HasPrefix(c.last, "503")) {
			panic(errMoved)
		}
		w.Fail("unexpected-answer", "op %d %s %q C=%d rpc=%v: %s (%s), expected %v", i, o.K, id, o.C, rpc, st, c.last, want)
	}
	sim.Sleep(2 * time.Millisecond) // timestamps differ
	switch o.K {
	case "addMeta":
		name := fmt.Sprintf("%s-n%03d", id, i)
		st := c.AddMeta(id, name, fmt.Sprintf("bk%d", i%3), rpc)
		if rec != nil {
			if r.again {
				expect(st, rOK, rNo)
			} else {
				expect(st, rNo)
			}
			return
		}
		expect(st, rOK)
		r.recs[id] = &refRec{name: name, bucket: fmt.Sprintf("bk%d", i%3)}
	case "updMeta":
		name := fmt.Sprintf("%s-u%03d", id, i)
		st := c.UpdMeta(id, name, "other")
		if rec == nil {
			expect(st, rNone)
			return
		}
		expect(st, rOK)
		rec.name = name
	case "delMeta":
		expect(c.DelMeta(id), rOK, rNone)
		delete(r.recs, id)
	case "addVer":
		for n := 0; n <= o.C/8; n++ { // sometimes several at once
			v := &refVer{hash: verHashes[(o.C+n)%len(verHashes)], val: 1000*i + n, locate: fmt.Sprintf("s%d,t%d,u%d", i, i, n)}
			st, seq := c.AddVer(id, v.hash, v.val, strings.Split(v.locate, ","), rpc)
			if rec == nil {
				expect(st, rNone)
				return
			}
			expect(st, rOK)
			if seq != rec.next+1 {
				w.Fail("wrong-number", "new version of %q got number %d, the last one given was %d", id, seq, rec.next)
			}
			rec.next++
			v.seq = seq
			rec.vers = append(rec.vers, v)
			sim.Sleep(time.Millisecond)
		}
	case "updVer":
		seq := r.pick(rec, o.C)
		val, loc := 1000*i, fmt.Sprintf("x%d,y%d", i, i)
		st := c.UpdVer(id, seq, "h-ignored", val, strings.Split(loc, ","), rpc)
		if rec == nil || rec.find(seq) == nil {
			expect(st, rNone)
			return
		}
		expect(st, rOK)
		rec.find(seq).val, rec.find(seq).locate = val, loc
	case "delVer":
		seq := r.pick(rec, o.C)
		st := c.DelVer(id, seq, rpc)
		if rec == nil {
			expect(st, rOK, rNone)
			return
		}
		if rec.find(seq) == nil {
			expect(st, rNone)
			return
		}
		expect(st, rOK)
		for k, v := range rec.vers {
			if v.seq == seq {
				rec.vers = append(rec.vers[:k:k], rec.vers[k+1:]...)
				break
			}
		}
	case "delAll":
		if rec == nil {
			return
		}
		expect(c.DelVer(id, -1, false), rOK)
		rec.vers = nil
	case "locate":
		h := verHashes[o.C%len(verHashes)]
		idx := o.C % 4
		loc := fmt.Sprintf("L%d", i)
		st := c.Locate(h, idx, loc)
		var hit []*refVer
		for _, id := range r.ids() {
			for _, v := range r.recs[id].vers {
				if v.hash == h {
					hit = append(hit, v)
				}
			}
		}
		switch {
		case len(hit) == 0:
			expect(st, rOK, rNone)
		default:
			expect(st, rOK)
			for _, v := range hit {
				l := strings.Split(v.locate, ",")
				if idx >= len(l) {
					// has fewer shards or copies
					continue
				}
				l[idx] = loc
				v.locate = strings.Join(l, ",")
			}
		}
	case "getVer":
		seq := r.pick(rec, o.C)
		st, v := c.GetVer(id, seq, rpc)
		if rec == nil || rec.find(seq) == nil {
			expect(st, rNone)
			return
		}
		expect(st, rOK)
		if v.short() != rec.find(seq).short() {
			w.Fail("wrong-version", "version %d of %q is %s, read %s", seq, id, rec.find(seq).short(), v.short())
		}
	case "addBk":
		b := fmt.Sprintf("b%d", o.C%4)
		st := c.AddBucket(b, i+1, rpc)
		if _, ok := r.bks[b]; ok {
			if r.again {
				expect(st, rOK, rNo)
			} else {
				expect(st, rNo)
			}
			return
		}
		expect(st, rOK)
		r.bks[b] = i + 1
	case "delBk":
		b := fmt.Sprintf("b%d", o.C%4)
		expect(c.DelBucket(b), rOK, rNone)
		delete(r.bks, b)
	}
}

func (r *refMeta) pick(rec *refRec, k int) int {
	if rec == nil || len(rec.vers) == 0 || k%7 == 0 {
		return 1 + k
	}
	return rec.vers[k%len(rec.vers)].seq
}

func genRef(g *Gen, n int, kinds []string) {
	ids := g.Set("ids", g.Range(1, len(verIDs)))
	for i := 0; i < ids; i++ {
		g.Op("addMeta", 0, i, 0, g.Intn(2))
	}
	for i := 0; i < n; i++ {
		g.Op(kinds[g.Intn(len(kinds))], 0, g.Intn(ids), g.Intn(40), g.Intn(2))
	}
	g.Set("page", g.Pick(1, 2, 3, 7, 10, 25))
	g.Set("power", g.Intn(2))
}

func runRef(w *World, replicas int, final func(r *refMeta, c *metaClient)) {
	P := w.Plan.P
	r := &refMeta{w: w, recs: map[string]*refRec{}, bks: map[string]int{}}
	m, c := w.bootMeta(MetaOpts{CacheMB: 8})
	m.Disk.Track = P["power"] > 0
	for i, o := range w.Plan.Ops {
		switch o.K {
		case "kill", "term":
			if o.K == "kill" {
				if !w.S.Inject("crash", func() string { return m.Name }) {
					continue
				}
				m.Crash(P["power"] > 0)
			} else {
				if !w.S.Inject("sigterm", func() string { return m.Name }) {
					continue
				}
				m.Term()
				if !m.AwaitExit(3 * time.Minute) {
					w.Fail("no-exit", "metadata server still runs 3 min after SIGTERM")
				}
			}
			m.Start()
			w.ready(m, c)
			r.verify(c, P["page"])
		case "verify":
			r.verify(c, 1+o.C%10)
		default:
			r.apply(c, o, i)
		}
	}
	r.verify(c, P["page"])
	if final != nil {
		final(r, c)
	}
}

func init() {
	budgets["C04"] = budget{quick: 2500}
	budgets["C05"] = budget{quick: 2500}
	register(&Scenario{Prop: "C04", Name: "history", Weight: 3, Gen: func(g *Gen) {
		genRef(g, g.Range(10, 60), []string{"addVer", "addVer", "addVer", "addVer", "delVer", "delVer", "updVer", "getVer", "getVer", "verify", "addMeta", "updMeta", "addBk", "delBk", "delMeta", "delAll"})
		for n := g.Intn(3); n > 0; n-- {
			g.insert(Op{K: g.pickS("kill", "term")})
		}
	}, Run: func(w *World) { runRef(w, 1, nil) }})
	register(&Scenario{Prop: "C05", Name: "history", Weight: 3, Gen: func(g *Gen) {
		genRef(g, g.Range(10, 50), []string{"addVer", "addVer", "addVer", "locate", "locate", "locate", "delVer", "updVer", "delMeta", "delAll", "addMeta", "verify"})
		for n := g.Intn(3); n > 0; n-- {
			g.insert(Op{K: g.pickS("kill", "term")})
		}
	}, Run: func(w *World) { runRef(w, 1, nil) }})
}

// insert puts an operation somewhere in the workload.
func (g *Gen) insert(o Op) {
	i := g.Intn(len(g.P.Ops) + 1)
	g.P.Ops = append(g.P.Ops[:i:i], append([]Op{o}, g.P.Ops[i:]...)...)
}

// Concurrent locate updates of one hash: at every moment all its versions show
// the same shard locations.
func runLocate(w *World) {
	P := w.Plan.P
	var procs []*Proc
	var keeps []*keeper
	power := P["power"] > 0
	w.S.Plan.Off = true
	h := w.newHist()
	var g *raftGroup
	if P["servers"] > 1 {
		g = w.newGroup(P["servers"], "g1", 1, []string{"0-16384"}, false)
		g.settle(h, time.Minute)
		procs = g.procs
	} else {
		m, _ := w.bootMeta(MetaOpts{CacheMB: 8})
		g = &raftGroup{w: w, last: make([]int, 16), procs: []*Proc{m}}
		procs = g.procs
	}
	const hash = "hx"
	n := P["vers"]
	for i := 0; i < n; i++ {
		id := verIDs[i%3]
		if i < 3 {
			if out := g.do(h, 9, metaIn{k: "addMeta", id: id, val: "x", bucket: "bk0"}, true, time.Minute); out == nil || out.st != rOK {
				w.Fail("setup", "cannot add %q: %v", id, out)
			}
		}
		if out := g.do(h, 9, metaIn{k: "addVer", id: id, hash: hash, num: i + 1, locate: "o,o,o"}, true, time.Minute); out == nil || out.st != rOK {
			w.Fail("setup", "cannot add a version to %q: %v", id, out)
		}
	}
	for _, p := range procs {
		p.Disk.Track = power
		keeps = append(keeps, w.keep(p, &keeper{power: power, gap: 500 * time.Millisecond}))
	}
	w.S.Plan.Off = false
	tried := []map[string]bool{{"o": true}, {"o": true}, {"o": true}}
	acked := []int{0, 0, 0}
	show := func(c *metaClient, strict bool) []string {
		st, vs := c.ByHash(hash, true)
		if st != rOK {
			return nil
		}
		if len(vs) != n {
			if strict {
				w.Fail("hash-lookup", "lookup of the hash gives %d versions, there are %d", len(vs), n)
			}
			return nil // a follower catching up
		}
		for _, v := range vs {
			if v.Locate != vs[0].Locate {
				w.Fail("partial-locate-update", "versions of one hash show different locations: %v", vs)
			}
		}
		l := strings.Split(vs[0].Locate, ",")
		for i := range l {
			if !tried[i][l[i]] {
				w.Fail("phantom-locate", "location %d shows %q, which nobody wrote", i, l[i])
			}
		}
		return l
	}
	w.clientsRun(P["clients"]+1, func(c, i int, o Op) {
		if g.nemesis(o) {
			return
		}
		p := procs[o.B%len(procs)]
		if !p.Alive() {
			sim.Sleep(30 * time.Millisecond)
			return
		}
		cl := w.metaClient(p.Addr())
		cl.to = 5 * time.Second
		switch o.K {
		case "locate":
			loc := fmt.Sprintf("L%d", i)
			idx := o.C % 3
			tried[idx][loc] = true
			for k := 0; k < 2*len(procs); k++ {
				p := procs[(g.last[c]+k)%len(procs)]
				if !p.Alive() {
					continue
				}
				cl := w.metaClient(p.Addr())
				cl.to = 5 * time.Second
				st := cl.Locate(hash, idx, loc)
				w.Logf("locate %d=%s at %s -> %s %s", idx, loc, p.Name, st, trunc(cl.last, 100))
				if st == rOK {
					acked[idx]++
					w.Nontriv++
					return
				}
				if st == rNone {
					w.Fail("hash-lookup", "locate update finds no version of a hash that has %d: %s", n, cl.last)
				}
			}
		case "byHash":
			show(cl, P["servers"] == 1)
		}
	})
	w.S.Plan.Off = true
	w.Net.HealAll()
	for _, p := range procs {
		p.SetSkew(0)
	}
	for _, k := range keeps {
		w.awaitUp(k)
	}
	if P["servers"] > 1 {
		g.settle(h, 2*time.Minute)
	} else {
		w.ready(procs[0], w.metaClient(procs[0].Addr()))
	}
	var first []string
	var seen string
	if !w.Until(2*time.Minute, func() bool {
		first, seen = nil, ""
		for i, p := range procs {
			l := show(w.metaClient(p.Addr()), false)
			seen += fmt.Sprintf(" %s=%v", p.Name, l)
			if l == nil || i > 0 && strings.Join(l, ",") != strings.Join(first, ",") {
				return false
			}
			first = l
		}
		return true
	}) {
		w.Fail("replicas-differ", "servers show different locations:%s", seen)
	}
	for i := range first {
		if acked[i] > 0 && first[i] == "o" {
			w.Fail("locate-update-lost", "location %d is still the original one after %d acknowledged updates", i, acked[i])
		}
	}
	for _, k := range keeps {
		k.off = true
	}
}

func init() {
	register(&Scenario{Prop: "C05", Name: "locate", Weight: 2, Gen: func(g *Gen) {
		cl := g.Set("clients", g.Range(2, 3))
		s := g.Set("servers", g.Pick(1, 1, 1, 3))
		g.Set("vers", g.Pick(3, 4, 12))
		g.Set("power", g.Intn(2))
		for n := g.Range(6, 20); n > 0; n-- {
			g.Op(g.pickS("locate", "locate", "byHash"), g.Intn(cl), g.Intn(3), g.Intn(3), 0)
		}
		if s > 1 {
			for n := g.Range(1, 4); n > 0; n-- {
				g.Op("wait", cl, 0, g.Range(1, 10), 0)
				g.Op(g.pickS("kill", "isolate", "heal"), cl, g.Intn(3), 0, 0)
			}
		} else {
			g.Rate("disk.crash", g.Pick(0, 20, 60))
		}
		g.P.Max = g.Range(1, 5)
	}, Run: runLocate})
}
