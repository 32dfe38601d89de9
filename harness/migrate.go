package harness

import (
	"context"
	"fmt"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"

	"common/hashslot"
	"common/proto/pb"
	sim "verifsim"
	"verifsim/simetcd"
	"verifsim/simgrpc"
)

const slotKeys = "goodfs/hash_slot/"

// names of records whose slots are spread over the whole range, for probing
var spread = []string{"barrier0", "barrier1", "barrier2", "barrier3", "barrier5", "r9", "r3"}

type slotRange struct {
	from, to int
	id       string // store: a group or a server of its own
	server   string // who serves it
}

// parseSlots reads one stored assignment.
func parseSlots(key, val string) ([]slotRange, error) {
	var info hashslot.SlotInfo
	if _, err := info.UnmarshalMsg([]byte(val)); err != nil {
		return nil, err
	}
	id := strings.TrimPrefix(key, slotKeys)
	var l []slotRange
	for _, s := range info.Slots {
		a, b, ok := strings.Cut(s, "-")
		x, err1 := strconv.Atoi(a)
		y, err2 := strconv.Atoi(b)
		if !ok || err1 != nil || err2 != nil || x >= y {
			return nil, fmt.Errorf("bad range %q", s)
		}
		l = append(l, slotRange{x, y, id, info.ServerID})
	}
	return l, nil
}

// slotMap is who owns what now.
func slotMap(snap map[string]string) ([]slotRange, error) {
	var l []slotRange
	for _, k := range sortedKeys(snap) {
		r, err := parseSlots(k, snap[k])
		if err != nil {
			return nil, fmt.Errorf("%s: %v", k, err)
		}
		l = append(l, r...)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].from < l[j].from || l[i].from == l[j].from && l[i].to < l[j].to })
	return l, nil
}

func ownerOf(l []slotRange, slot int) (slotRange, bool) {
	for _, r := range l {
		if r.from <= slot && slot < r.to {
			return r, true
		}
	}
	return slotRange{}, false
}

// checkSlots: at every moment each slot had exactly one owner. A record that was
// taken away at a regular shutdown still counts: it comes back with its server.
func (w *World) checkSlots(servers int) {
	cur := map[string]string{}
	hist := simetcd.C().History(slotKeys)
	for i, e := range hist {
		if !e.Delete {
			cur[e.Key] = e.Value
		}
		if len(cur) < servers || i+1 < len(hist) && hist[i+1].Rev == e.Rev {
			continue
		}
		l, err := slotMap(cur)
		if err != nil {
			w.Fail("bad-slots", "revision %d: %v", e.Rev, err)
		}
		at := 0
		for _, r := range l {
			if r.from > at {
				w.Fail("slots-lost", "revision %d: slots %d-%d have no owner: %v", e.Rev, at, r.from, l)
			}
			if r.from < at {
				w.Fail("slots-twice", "revision %d: slot %d has two owners: %v", e.Rev, r.from, l)
			}
			at = r.to
		}
		if at != 16384 {
			w.Fail("slots-lost", "revision %d: slots %d-16384 have no owner: %v", e.Rev, at, l)
		}
	}
}

// migration is what an administrator asks for.
type migration struct {
	src, dst *Proc
	from, to string // stores
	slots    []string
	edges    []slotRange
	bad      bool // some slots belong to somebody else
}

// plan turns numbers into a migration of slots somebody owns.
func (g *raftGroup) planMigration(o Op) *migration {
	l, err := slotMap(simetcd.C().Snapshot(slotKeys))
	if err != nil {
		g.w.Fail("bad-slots", "%v", err)
	}
	from := []int{0, 1000, 2500, 3000, 4500, 6000, 7000, 9000, 11000, 12000, 13500, 15000}[o.B%12]
	at := -1
	if o.D == 4 { // a range that begins or ends right at the slot of a name
		names := append([]string{"bk1", "bk2"}, metaIDs[:6]...)
		from = hashslot.CalcBytesSlot([]byte(names[o.B%len(names)]))
		at = o.C % 4
	}
	r, ok := ownerOf(l, from)
	if !ok {
		return nil // its server is down
	}
	m := &migration{from: r.id}
	k := -1
	for i, id := range g.stores {
		if id == r.id {
			k = i
		}
	}
	m.to = g.stores[(k+1+o.C%(len(g.stores)-1))%len(g.stores)]
	m.src, m.dst = g.server(m.from), g.server(m.to)
	if m.src == nil || m.dst == nil {
		return nil
	}
	add := func(a, b int) {
		m.slots = append(m.slots, fmt.Sprint(a, "-", b))
		m.edges = append(m.edges, slotRange{a, b, r.id, ""})
	}
	size := []int{1, 500, 2000, 4000, 8000, 16384}[o.C/2%6]
	to := min(from+size, r.to)
	if size == 16384 {
		from = r.from
	}
	switch o.D {
	case 2: // several pieces of one range
		if n := (r.to - from) / 8; n > 0 {
			for i := 0; i < 2+o.C%3; i++ {
				add(from+2*n*i, from+2*n*i+n)
			}
			return m
		}
	case 3: // a range that goes on beyond what is owned
		m.bad = true
		if r.to < 16384 {
			add(from, r.to+200)
		} else {
			m.bad = r.from > 0
			add(max(0, r.from-200), to)
		}
		return m
	}
	switch at { // else it begins at the name
	case 1: // it ends with the name
		from, to = max(r.from, from+1-size), from+1
	case 2: // it ends before the name
		if from > r.from {
			from, to = max(r.from, from-size), from
		}
	}
	add(from, to)
	if o.D == 1 { // another piece of the same owner
		for _, x := range l {
			if x.id == r.id && x.from >= to+1 {
				add(x.from, x.to)
				break
			} else if x.id == r.id && x.to > to+100 && x.from <= to {
				add(to+50, x.to)
				break
			}
		}
	}
	return m
}

// server is who serves the slots of a store, as registered.
func (g *raftGroup) server(store string) *Proc {
	v, ok := simetcd.C().Snapshot(slotKeys)[slotKeys+store]
	if !ok {
		return nil
	}
	var info hashslot.SlotInfo
	if _, err := info.UnmarshalMsg([]byte(v)); err != nil {
		g.w.Fail("bad-slots", "%s: %v", store, err)
	}
	for _, p := range g.procs {
		if p.ID == info.ServerID {
			return p
		}
	}
	return nil
}

// run performs it: done, refused, or unknown.
func (m *migration) run(w *World, limit time.Duration) (string, string) {
	w.Logf("migrate %v from %s to %s", m.slots, m.src.Name, m.dst.Name)
	cc, err := simgrpc.Dial(m.src.Addr())
	must(err)
	defer cc.Close()
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	resp, err := pb.NewHashSlotClient(cc).StartMigration(ctx, &pb.MigrationReq{
		Slots:          m.slots,
		TargetLocation: &pb.LocationInfo{Host: m.dst.IP, Port: m.dst.Port},
	})
	st, why := "unknown", ""
	switch {
	case err != nil:
		why = err.Error()
	case resp.Success:
		st = "done"
	default:
		st, why = "refused", resp.Message
	}
	w.Logf("migrate -> %s %s", st, why)
	return st, why
}

// verifyOwner: the answer of a migration tells who owns the slots.
func (m *migration) verifyOwner(w *World, st, why string) {
	if st == "unknown" {
		return
	}
	l, err := slotMap(simetcd.C().Snapshot(slotKeys))
	if err != nil {
		w.Fail("bad-slots", "%v", err)
	}
	want := m.to
	if st == "refused" {
		want = m.from
	}
	for _, e := range m.edges {
		for _, s := range []int{e.from, (e.from + e.to) / 2, e.to - 1} {
			if r, ok := ownerOf(l, s); ok && r.id != want {
				w.Fail("wrong-owner", "migration of %v from %s to %s: %s (%s), but slot %d belongs to %s", m.slots, m.src.Name, m.dst.Name, st, why, s, r.id)
			}
		}
	}
}

// content is everything about the records as their clients see it, times included.
func (g *raftGroup) content(ids []string) (string, error) {
	w := g.w
	l, err := slotMap(simetcd.C().Snapshot(slotKeys))
	if err != nil {
		return "", err
	}
	var b strings.Builder
	for _, id := range ids {
		name := id
		if isBucket(id) {
			name = bucketName(id)
		}
		r, ok := ownerOf(l, hashslot.CalcBytesSlot([]byte(name)))
		if !ok {
			return "", fmt.Errorf("nobody owns %s", name)
		}
		for _, p := range g.procs {
			c := w.metaClient(p.Addr())
			get := func(path string) string {
				_, rep := c.http("GET", path, nil)
				if rep == nil || rep.Err != nil {
					return "no answer"
				}
				return fmt.Sprintf("%d %s", rep.Code, rep.Body)
			}
			var s string
			if isBucket(id) {
				s = get("/bucket/" + esc(name))
			} else {
				s = get("/metadata/"+esc(name)) + "\n" + get("/metadata_version/"+url.PathEscape(name)+"/list?page=1&page_size=1000")
			}
			if p.ID == r.id {
				fmt.Fprintf(&b, "%s: %s\n", name, s)
			} else if !strings.HasPrefix(s, "404") {
				w.Fail("left-behind", "%s belongs to %s, %s still has it: %s", name, r.id, p.Name, trunc(s, 300))
			}
		}
	}
	return b.String(), nil
}

// endMigrations: whatever happened, the deployment works again and everything
// acknowledged is there.
func (g *raftGroup) endMigrations(h *metaHist, names int) {
	w := g.w
	for i, n := range spread {
		begin := time.Now()
		limit := 2 * time.Minute
		for ok := false; !ok; {
			out := g.do(h, 9, metaIn{k: "addMeta", id: fmt.Sprintf("%s", n), val: "x", bucket: "bk0"}, i%2 == 0, limit)
			// it may exist by an earlier attempt without answer
			ok = out != nil && (out.st == rOK || out.st == rNo)
			if !ok && time.Since(begin) > limit {
				w.Fail("not-writable", "no server takes a write of %q (slot %d) 2 min after the last fault: %s; slots %v", n, hashslot.CalcBytesSlot([]byte(n)), g.describe(), must2(slotMap(simetcd.C().Snapshot(slotKeys))))
			}
		}
	}
	read := func(in metaIn) {
		end := time.Now().Add(time.Minute)
		for {
			if g.grouped { // only leaders know the latest
				l := must2(slotMap(simetcd.C().Snapshot(slotKeys)))
				name := in.id
				if isBucket(name) {
					name = bucketName(name)
				}
				if r, ok := ownerOf(l, hashslot.CalcBytesSlot([]byte(name))); ok {
					for i, p := range g.procs {
						if p.ID == r.server {
							g.last[9] = i
						}
					}
				}
			}
			out := g.do(h, 9, in, true, time.Second)
			if out != nil && out.st != rUnk {
				return
			}
			if time.Now().After(end) {
				w.Fail("unreadable", "no server answers %v on a healthy deployment; slots %v", in, must2(slotMap(simetcd.C().Snapshot(slotKeys))))
			}
		}
	}
	for b := 0; b < names; b++ {
		id := metaIDs[b]
		read(metaIn{k: "getMeta", id: id})
		read(metaIn{k: "extra", id: id})
		read(metaIn{k: "list", id: id, page: 1, size: 50})
		for s := 0; s <= 6; s++ {
			read(metaIn{k: "getVer", id: id, seq: s})
		}
		// numbers of versions are not used again
		g.do(h, 9, metaIn{k: "addVer", id: id, hash: "hashz", num: 7, locate: "x,y"}, true, time.Minute)
		read(metaIn{k: "list", id: id, page: 1, size: 50})
	}
	for b := 0; b < 2; b++ {
		read(metaIn{k: "getBk", id: bkPrefix + []string{"bk1", "bk2"}[b]})
	}
	for _, n := range spread {
		read(metaIn{k: "getMeta", id: n})
	}
}

// lookups: at the owner of each store, the lookup by content hash gives exactly
// the versions that have it.
func (g *raftGroup) lookups() {
	w := g.w
	l := must2(slotMap(simetcd.C().Snapshot(slotKeys)))
	for _, store := range g.stores {
		p := g.server(store)
		if p == nil {
			w.Fail("slots-lost", "nobody owns the slots of %s", store)
		}
		cl := w.metaClient(p.Addr())
		ask := func(what string, fn func() string) {
			st := fn()
			for end := time.Now().Add(time.Minute); st != rOK && st != rNone; st = fn() {
				if time.Now().After(end) {
					w.Fail("unreadable", "%s does not tell %s: %s", p.Name, what, cl.last)
				}
				sim.Sleep(300 * time.Millisecond)
			}
		}
		want := map[string][]string{}
		for _, id := range metaIDs {
			if r, _ := ownerOf(l, hashslot.CalcBytesSlot([]byte(id))); r.id != store {
				continue
			}
			var vs []VerRec
			ask("the versions of "+id, func() (st string) {
				st, vs, _ = cl.ListVer(id, 1, 1000, true)
				return
			})
			for _, v := range vs {
				want[v.Hash] = append(want[v.Hash], v.short())
			}
		}
		for i, hash := range []string{"hash0", "hash1", "hash2", "hashz"} {
			var got []string
			ask("versions by "+hash, func() string {
				st, vs := cl.ByHash(hash, i%2 == 0)
				got = nil
				for _, v := range vs {
					got = append(got, v.short())
				}
				return st
			})
			if !sameStrings(got, want[hash]) {
				w.Fail("hash-lookup", "lookup of hash %q at %s gives %v, its versions with it are %v", hash, p.Name, got, want[hash])
			}
		}
	}
}

// replicas: every server of a store shows the same.
func (g *raftGroup) replicas(h *metaHist) {
	l := must2(slotMap(simetcd.C().Snapshot(slotKeys)))
	for i, sub := range g.subs {
		own := g.w.newHist()
		for _, id := range sortedKeys(h.ops) {
			name := id
			if isBucket(id) {
				name = bucketName(id)
			}
			if r, _ := ownerOf(l, hashslot.CalcBytesSlot([]byte(name))); r.id == g.stores[i] {
				own.ops[id] = nil
			}
		}
		sub.converge(own, 2*time.Minute)
	}
}

func must2[T any](v T, err error) T {
	must(err)
	return v
}

// bootGroups starts replicated stores.
func (w *World) bootGroups(sizes ...int) *raftGroup {
	g := &raftGroup{w: w, last: make([]int, 16), grouped: true}
	first := 1
	for i, n := range sizes {
		name := fmt.Sprint("g", i+1)
		sub := w.newGroup(n, name, first, []string{[]string{"0-10000", "10000-16384"}[i]}, true)
		g.procs = append(g.procs, sub.procs...)
		g.stores = append(g.stores, name)
		g.subs = append(g.subs, sub)
		first += n
	}
	if !w.Until(time.Minute, func() bool {
		return len(simetcd.C().Snapshot(slotKeys)) == len(sizes)
	}) {
		w.Fail("not-serving", "no slots are registered a minute after the start")
	}
	return g
}

func (w *World) bootSlots(n int) *raftGroup {
	g := &raftGroup{w: w, last: make([]int, 16)}
	cuts := map[int][]string{
		2: {"0-10000", "10000-16384"},
		3: {"0-6000", "6000-11000", "11000-16384"},
	}[n]
	for i := 0; i < n; i++ {
		p := w.Meta(1+i, MetaOpts{Slots: []string{cuts[i]}, CacheMB: 8})
		p.Start()
		g.procs = append(g.procs, p)
		g.stores = append(g.stores, p.ID)
	}
	for _, p := range g.procs {
		p := p
		if !w.Until(time.Minute, func() bool {
			c := w.metaClient(p.Addr())
			c.to = 2 * time.Second
			st, _ := c.GetMeta("no-such-record", false, false)
			return st == rNone && len(simetcd.C().Snapshot(slotKeys+p.ID)) > 0
		}) {
			w.Fail("not-serving", "%s does not serve its slots a minute after its start", p.Name)
		}
	}
	return g
}

func init() {
	budgets["C07"] = budget{quick: 2500}
	gen := func(g *Gen, clients, ops int) {
		g.Set("servers", g.Pick(2, 2, 3))
		g.Set("clients", clients)
		g.Set("names", g.Range(2, 6))
		genMetaOps(g, clients, g.P.P["names"], ops, g.Pick(60, 80))
	}
	migs := func(g *Gen, client, n int) {
		for ; n > 0; n-- {
			g.insert(Op{K: "mig", A: client, B: g.Intn(12), C: g.Intn(12), D: g.Pick(0, 0, 0, 1, 2, 3, 4, 4)})
		}
	}
	// One administrator who also is the only client: a migration changes nothing but
	// the server that answers.
	register(&Scenario{Prop: "C07", Name: "content", Weight: 2, Gen: func(g *Gen) {
		gen(g, 1, g.Range(6, 24))
		migs(g, 0, g.Range(1, 5))
	}, Run: func(w *World) {
		P := w.Plan.P
		g := w.bootSlots(P["servers"])
		for _, p := range g.procs {
			crashGuard(p)
		}
		h := w.newHist()
		for i, o := range w.Plan.Ops {
			if o.K != "mig" {
				in := metaInput(o, i)
				g.do(h, 0, in, o.D == 1 || readOnlyOp(in.k), 30*time.Second)
				sim.Sleep(3 * time.Millisecond)
				continue
			}
			m := g.planMigration(o)
			if m == nil {
				w.Fail("slots-lost", "nobody owns a slot: %v", simetcd.C().Snapshot(slotKeys))
			}
			ids := sortedKeys(h.ops)
			before := must2(g.content(ids))
			st, why := m.run(w, 5*time.Minute)
			if m.bad && st == "done" {
				w.Fail("moved-foreign", "%v do not belong to %s, but it moved them to %s", m.slots, m.src.Name, m.dst.Name)
			}
			if st != "done" && !m.bad {
				w.Fail("refused", "healthy servers, %v belongs to %s, migration to %s: %s %s", m.slots, m.src.Name, m.dst.Name, st, why)
			}
			w.Nontriv++
			if !m.bad {
				m.verifyOwner(w, st, why)
			}
			g.lookups()
			if after := must2(g.content(ids)); after != before {
				w.Fail("content-changed", "migration of %v from %s to %s changed records: %s", m.slots, m.src.Name, m.dst.Name, diffLine(before, after))
			}
		}
		g.endMigrations(h, P["names"])
		g.lookups()
		w.checkSlots(P["servers"])
		h.judge("record-lost", false)
	}})
	run := func(w *World) {
		P := w.Plan.P
		w.S.Plan.Off = true
		var g *raftGroup
		if P["groups"] > 0 {
			g = w.bootGroups(3, P["groups"])
		} else {
			g = w.bootSlots(P["servers"])
		}
		h := w.newHist()
		for _, p := range g.procs {
			p.Disk.Track = P["power"] > 0
			g.keeps = append(g.keeps, w.keep(p, &keeper{power: P["power"] > 0, gap: time.Duration(P["gap"]) * time.Millisecond}))
		}
		w.S.Plan.Off = false
		faulty := P["faulty"] > 0
		moving := false
		w.clientsRun(P["clients"]+3, func(c, i int, o Op) {
			switch {
			case g.nemesis(o):
			case o.K == "etcd":
				if w.S.Inject("etcd.down", func() string { return "" }) {
					simetcd.C().Down = true
					sim.Sleep(time.Duration(o.C) * 200 * time.Millisecond)
					simetcd.C().Down = false
				}
			case o.K == "mig":
				m := g.planMigration(o)
				if m == nil {
					sim.Sleep(300 * time.Millisecond)
					return
				}
				moving = true
				st, why := m.run(w, 3*time.Minute)
				if m.bad && st == "done" && P["admins"] < 2 {
					w.Fail("moved-foreign", "%v do not belong to %s, but it moved them to %s", m.slots, m.src.Name, m.dst.Name)
				}
				// a group that is stalled elects a leader again, meanwhile it refuses
				calm := !faulty && (P["groups"] == 0 || w.S.Probes["sched.stall"] == 0)
				if calm && st != "done" && !m.bad && P["admins"] < 2 {
					w.Fail("refused", "healthy servers, %v belongs to %s, migration to %s: %s %s", m.slots, m.src.Name, m.dst.Name, st, why)
				}
				moving = false
				w.S.Probe("migration." + st)
				if !m.bad && P["admins"] < 2 {
					m.verifyOwner(w, st, why)
				}
			default:
				in := metaInput(o, i)
				if g.grouped && readOnlyOp(in.k) {
					if p := g.procs[(o.B+o.C+i)%len(g.procs)]; p.Alive() {
						cl := w.metaClient(p.Addr())
						cl.to = 5 * time.Second
						h.peek(cl, in, true)
					}
					return
				}
				if g.do(h, c, in, o.D == 1 || readOnlyOp(in.k), 5*time.Second) != nil && moving {
					w.S.Probe("answered.while.moving")
				}
				if P["think"] > 0 {
					sim.Sleep(w.S.Between(0, time.Duration(P["think"])*time.Millisecond))
				}
			}
		})
		w.S.Plan.Off = true
		w.Net.HealAll()
		for _, k := range g.keeps {
			w.awaitUp(k)
		}
		g.endMigrations(h, P["names"])
		if P["final"] > 0 { // everything restarts once more
			for i, p := range g.procs {
				if (P["final"]>>i)&1 == 0 {
					p.Crash(P["power"] > 0)
				} else {
					p.Term()
					p.AwaitExit(3 * time.Minute)
				}
			}
			sim.Sleep(50 * time.Millisecond)
			for _, k := range g.keeps {
				w.awaitUp(k)
			}
			g.endMigrations(h, P["names"])
		}
		g.lookups()
		if P["admins"] > 1 { // moves that got into each other's way can be repeated
			for i := range g.stores {
				m := g.planMigration(Op{B: i * 4, C: i})
				if m == nil {
					continue
				}
				if st, why := m.run(w, 5*time.Minute); st != "done" {
					w.Fail("refused", "healthy servers, %v belongs to %s, migration to %s: %s %s", m.slots, m.src.Name, m.dst.Name, st, why)
				}
			}
			g.endMigrations(h, P["names"])
			g.lookups()
		}
		g.replicas(h)
		for _, k := range g.keeps {
			k.off = true
		}
		w.checkSlots(len(g.stores))
		h.judge("acknowledged-write-lost", g.grouped)
	}
	register(&Scenario{Prop: "C07", Name: "busy", Weight: 2, Gen: func(g *Gen) {
		cl := g.Range(1, 3)
		gen(g, cl, g.Range(10, 40))
		g.Set("think", g.Pick(0, 2, 10))
		migs(g, cl, g.Range(1, 6))
		g.Set("final", g.Pick(0, 0, 1, 2, 3))
	}, Run: run})
	// Several administrators, who know nothing of each other.
	register(&Scenario{Prop: "C07", Name: "cross", Weight: 2, Gen: func(g *Gen) {
		cl := g.Range(1, 3)
		gen(g, cl, g.Range(10, 40))
		g.Set("servers", g.Pick(2, 3, 3))
		g.Set("admins", 2)
		g.Set("think", g.Pick(0, 1, 3))
		migs(g, cl, g.Range(2, 6))
		migs(g, cl+2, g.Range(2, 6))
		g.Rate("net.slow", g.Pick(0, 0, 10, 50))
		g.P.Max = g.Range(1, 10)
	}, Run: run})
	// The stores are replicated groups.
	register(&Scenario{Prop: "C07", Name: "groups", Weight: 1, Gen: func(g *Gen) {
		cl := g.Range(1, 3)
		gen(g, cl, g.Range(8, 30))
		g.Set("groups", g.Pick(1, 3))
		g.Set("think", g.Pick(2, 10, 50))
		migs(g, cl, g.Range(1, 4))
		if g.Chance(60) {
			g.Set("faulty", 1)
			g.Set("gap", g.Pick(100, 1000, 5000))
			g.Set("final", g.Pick(0, 0, 0, 1))
			for n := g.Intn(5); n > 0; n-- {
				g.Op("wait", cl+1, 0, g.Range(0, 20), 0)
				g.Op(g.pickS("kill", "kill", "term", "isolate", "cut", "heal"), cl+1, g.Intn(6), g.Intn(11), 0)
			}
			g.Rate("net.crash", g.Pick(0, 3, 10))
			g.Rate("net.slow", g.Pick(0, 0, 20))
			g.P.Max = g.Range(1, 6)
		}
	}, Run: run})
	register(&Scenario{Prop: "C07", Name: "faults", Weight: 4, Gen: func(g *Gen) {
		cl := g.Range(1, 3)
		gen(g, cl, g.Range(10, 40))
		g.Set("think", g.Pick(0, 2, 10, 50))
		g.Set("faulty", 1)
		g.Set("gap", g.Pick(100, 1000, 5000))
		g.Set("power", g.Intn(2))
		migs(g, cl, g.Range(1, 6))
		g.Set("final", g.Pick(0, 0, 1, 2, 3))
		for n := g.Intn(4); n > 0; n-- {
			g.Op("wait", cl+1, 0, g.Range(0, 10), 0)
			g.Op(g.pickS("kill", "kill", "term", "isolate", "cut", "heal", "etcd"), cl+1, g.Intn(3), g.Intn(11), 0)
		}
		switch g.Intn(4) {
		case 0:
			g.Rate("disk.crash", g.Pick(3, 10, 30))
		case 1:
			g.Rate("net.crash", g.Pick(3, 10, 30))
		case 2:
			g.Rate("etcd.refuse", g.Pick(20, 100))
			g.Rate("etcd.resploss", g.Pick(20, 100, 300))
		}
		g.Rate("net.reqcut", g.Pick(0, 0, 10))
		g.Rate("net.respcut", g.Pick(0, 0, 10))
		g.Rate("net.slow", g.Pick(0, 0, 20))
		g.P.Max = g.Range(1, 6)
	}, Run: run})
}
