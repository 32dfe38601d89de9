package harness

import (
	"fmt"
	"sort"
	"strings"
	"time"

	adminnode "adminserver/vnode"
	apinode "apiserver/vnode"
	objnode "objectserver/vnode"
	sim "verifsim"
	"verifsim/simetcd"
)

// C19: who is registered, as what, and who believes whom to be there.

func init() {
	budgets["C19"] = budget{quick: 1500}
	gen := func(g *Gen) {
		g.Set("group", g.Pick(0, 1, 1))
		g.Set("metas", g.Pick(1, 2))
		g.Set("objs", g.Pick(1, 2, 3))
		g.Set("apis", g.Pick(1, 2))
		g.Set("admin", g.Pick(0, 1))
		g.Set("ids", g.Pick(0, 0, 1, 2))
		g.Set("stagger", g.Pick(0, 0, 300, 3000))
		n := g.Range(2, 10)
		for i := 0; i < n; i++ {
			k := g.pickS("kill", "kill", "killfor", "term", "term", "termfor", "move", "move", "etcdout", "expire", "isolate", "stall", "cutetcd", "heal", "compact", "leader", "late")
			g.P.Ops = append(g.P.Ops, Op{K: k, A: g.Intn(12), B: g.Pick(0, 50, 400, 1500, 4000, 9000, 15000), C: g.Pick(100, 1000, 3000, 6000, 12000, 25000), D: g.Intn(12)})
		}
		if g.Chance(50) {
			g.Rate("etcd.refuse", g.Pick(10, 50, 150))
			g.P.Max = g.Range(1, 8)
		}
		if g.Chance(30) {
			g.Rate("etcd.resploss", g.Pick(10, 50))
			g.P.Max = g.Range(1, 8)
		}
	}
	register(&Scenario{Prop: "C19", Name: "registry", Weight: 1, Gen: gen, Run: runRegistry})
}

func runRegistry(w *World) {
	P := w.Plan.P
	id := func(p *Proc, i int) {
		switch P["ids"] {
		case 1:
			p.ID = fmt.Sprintf("%s_%d", strings.TrimRight(p.Name, "0123456789"), i)
		case 2:
			p.ID = fmt.Sprintf("%s-node.%d_x_y", p.Name[:1], i)
		}
	}
	var metas []*Proc
	if P["group"] == 1 {
		var peers []string
		for i := 1; i <= 3; i++ {
			x := &Proc{Name: fmt.Sprintf("meta%d", i), ID: fmt.Sprintf("meta%d", i)}
			id(x, i)
			peers = append(peers, fmt.Sprintf("%s,10.0.1.%d:8090", x.ID, i))
		}
		for i := 1; i <= 3; i++ {
			p := w.Meta(i, MetaOpts{Cluster: true, Bootstrap: i == 1, Group: "g1", Peers: peers, CacheMB: 8})
			id(p, i)
			metas = append(metas, p)
		}
	} else {
		for i := 1; i <= P["metas"]; i++ {
			lo, hi := 16384*(i-1)/P["metas"], 16384*i/P["metas"]
			p := w.Meta(i, MetaOpts{Slots: []string{fmt.Sprintf("%d-%d", lo, hi)}, CacheMB: 8})
			id(p, i)
			metas = append(metas, p)
		}
	}
	for i := 1; i <= P["objs"]; i++ {
		id(w.Object(i, ObjOpts{}), i)
	}
	for i := 1; i <= P["apis"]; i++ {
		id(w.Api(i, ApiOpts{}), i)
	}
	if P["admin"] == 1 {
		w.Admin(1)
	}
	gone := map[*Proc]bool{} // for good
	late := map[*Proc]bool{} // not started yet
	for _, op := range w.Plan.Ops {
		if op.K == "late" {
			late[w.Procs[op.A%len(w.Procs)]] = true
		}
	}
	for _, p := range w.Procs {
		p := p
		p.OnExit = func(p *Proc) {
			if p.Node.Panic != "" {
				w.Fail("process-panic", "%s died: %s at %s", p.Name, p.Node.Panic, p.Node.PanicAt)
			}
		}
		if !late[p] {
			p.Start()
		}
		if P["stagger"] > 0 {
			sim.Sleep(w.S.Between(0, time.Duration(P["stagger"])*time.Millisecond))
		}
	}
	back := func(p *Proc, d time.Duration) {
		w.Background("restart", func() {
			sim.Sleep(d)
			if !gone[p] && !p.Alive() {
				p.Start()
			}
		})
	}
	badness := func() int {
		n := w.S.Probes["etcd.lease-expired"]
		for _, f := range w.S.Plan.Fired {
			if strings.HasPrefix(f.Kind, "etcd.") || f.Kind == "partition" {
				n++
			}
		}
		if simetcd.C().Down || w.Net.Cuts() > 0 {
			n = w.S.Steps // never the same
		}
		return n
	}
	for _, op := range w.Plan.Ops {
		sim.Sleep(time.Duration(op.B) * time.Millisecond)
		p := w.Procs[op.A%len(w.Procs)]
		d := time.Duration(op.C) * time.Millisecond
		where := func() string { return p.Name }
		if op.K == "leader" || op.K == "isolate" {
			for _, m := range metas {
				if P["group"] == 1 && m.Alive() && isWritable(w, m) {
					p = m
				}
			}
		}
		switch op.K {
		case "late":
			if !p.Alive() && !gone[p] {
				p.Start()
			}
		case "kill", "leader":
			if p.Alive() && w.S.Inject("crash", where) {
				p.Crash(false)
				back(p, d)
			}
		case "killfor":
			if p.Alive() && p.Kind != "adminserver" && w.S.Inject("crash", where) {
				gone[p] = true
				p.Crash(false)
			}
		case "move":
			// the machine comes back, as the same server, under another address
			if p.Alive() && (p.Kind == "objectserver" || p.Kind == "apiserver") && w.S.Inject("move", where) {
				if op.D%3 == 0 {
					p.Term()
					p.AwaitExit(time.Minute)
				}
				if p.Alive() {
					p.Crash(false)
				}
				p.IP = p.IP[:strings.LastIndexByte(p.IP, '.')+1] + fmt.Sprint(100+int(op.C)%97+op.A)
				back(p, d)
			}
		case "term":
			if p.Alive() && w.S.Inject("sigterm", where) {
				bad := badness()
				serving := w.Net.Lookup(p.Addr()) != nil // before that it just dies
				p.Term()
				if op.C%2000 == 1000 || !serving {
					back(p, d+20*time.Second)
					break
				}
				if p.AwaitExit(time.Minute) && bad == badness() {
					for _, k := range sortedKeys(simetcd.C().Snapshot("goodfs/registry/" + p.Kind + "/")) {
						k = k[strings.LastIndexByte(k, '/')+1:]
						if k == p.ID || k == p.ID+"_master" || k == p.ID+"_slave" {
							w.Fail("left-listed", "%s has shut down regularly and etcd was fine, but it is still registered as %s", p.Name, k)
						}
					}
				}
				back(p, d)
			}
		case "termfor":
			if p.Alive() && p.Kind != "adminserver" && w.S.Inject("sigterm", where) {
				gone[p] = true
				p.Term()
			}
		case "etcdout":
			if op.D%4 == 0 {
				d *= 5
			}
			if w.S.Inject("etcd.down", func() string { return d.String() }) {
				c := simetcd.C()
				c.Down = true
				c.Refusing = op.D%3 == 1
				w.Background("etcd", func() {
					sim.Sleep(d)
					c.Down = false
				})
			}
		case "expire":
			if w.S.Inject("etcd.expire", func() string { return "all leases" }) {
				simetcd.C().ExpireAll()
			}
		case "compact":
			simetcd.C().Compact()
		case "isolate":
			if w.S.Inject("partition", where) {
				for _, m := range metas {
					if m != p {
						w.Net.Cut(p.IP, m.IP)
					}
				}
			}
		case "cutetcd":
			if w.S.Inject("partition", where) {
				w.Net.Cut(p.IP, simetcd.Host)
				w.Background("heal", func() {
					sim.Sleep(d)
					w.Net.Heal(p.IP, simetcd.Host)
				})
			}
		case "heal":
			w.Net.HealAll()
		case "stall":
			if p.Alive() && w.S.Inject("stall", where) {
				p.Node.Stall = time.Now().Add(d)
			}
		}
	}
	// faults end
	w.S.Plan.Off = true
	sim.Sleep(100 * time.Millisecond)
	w.Net.HealAll()
	simetcd.C().Down = false
	for _, p := range w.Procs {
		p := p
		if p.Node != nil && p.Node.Stall.After(time.Now()) {
			sim.Sleep(time.Until(p.Node.Stall))
		}
		if gone[p] {
			if p.Alive() && !p.AwaitExit(time.Minute) {
				w.Fail("no-exit", "%s is still running a minute after SIGTERM", p.Name)
			}
			continue
		}
		if !w.Until(time.Minute, p.Alive) {
			p.Start()
		}
	}
	n := 0
	for _, m := range metas {
		if !gone[m] {
			n++
		}
	}
	var why string
	ok := func() bool {
		for _, p := range w.Procs {
			if !gone[p] && !p.Alive() {
				p.Start()
			}
		}
		why = registryState(w, metas, gone, P["group"] == 1, P["group"] == 0 || n >= 2 && !gone[metas[0]])
		return why == ""
	}
	if !w.Until(90*time.Second, ok) {
		w.Fail("no-convergence", "90 s after the last failure: %s", why)
	}
	end := time.Now().Add(30 * time.Second)
	for time.Now().Before(end) {
		sim.Sleep(2 * time.Second)
		// a server that comes back to its group may have it elect once more
		if !w.Until(30*time.Second, ok) {
			w.Fail("not-stable", "long after the last failure: %s", why)
		}
	}
	w.Nontriv++
}

// isWritable: the server takes writes, as leaders and single servers do.
func isWritable(w *World, p *Proc) bool {
	r := w.Do("DELETE", p.Addr(), "/bucket/no-such-bucket", nil, reqOpt{timeout: 2 * time.Second})
	return r.Err == nil && r.Code != 503
}

// registryState tells what is wrong with the registry or with what servers see.
func registryState(w *World, metas []*Proc, gone map[*Proc]bool, group, elected bool) string {
	const root = "goodfs/registry/"
	reg := simetcd.C().Snapshot(root)
	want := map[string]string{}
	alive := map[string]map[string]string{"metaserver": {}, "objectserver": {}, "apiserver": {}}
	var masters []string
	for _, p := range w.Procs {
		if gone[p] || p.Kind == "adminserver" {
			continue
		}
		if !p.Alive() {
			return p.Name + " is not running"
		}
		k := root + p.Kind + "/" + p.ID
		if p.Kind == "metaserver" {
			role := "_slave"
			if isWritable(w, p) {
				role = "_master"
				masters = append(masters, p.Addr())
			}
			k += role
		}
		want[k] = p.Addr()
		alive[p.Kind][p.ID] = p.Addr()
	}
	if group && elected && len(masters) != 1 {
		return fmt.Sprintf("the metadata group has %d leaders", len(masters))
	}
	if s := mapDiff(reg, want); s != "" {
		return "the registry is wrong: " + s
	}
	sort.Strings(masters)
	for _, p := range w.Procs {
		if !p.Alive() || p.Kind == "metaserver" {
			continue
		}
		names := map[string][]string{"apiserver": {"metaserver", "objectserver"}, "objectserver": {"metaserver", "objectserver"}, "adminserver": {"metaserver", "objectserver", "apiserver"}}[p.Kind]
		for _, name := range names {
			var mp map[string]string
			var l, ms []string
			done := false
			sim.GoOn(p.Node, "observer", func() {
				switch p.Kind {
				case "apiserver":
					mp, l = apinode.Services(name)
					ms = apinode.Masters(name)
				case "objectserver":
					mp, l = objnode.Services(name)
					ms = objnode.Masters(name)
				case "adminserver":
					mp, l = adminnode.Services(name)
					ms = adminnode.Masters(name)
				}
				done = true
			})
			if !w.Until(10*time.Second, func() bool { return done || !p.Alive() }) || !done {
				return p.Name + " does not answer"
			}
			if s := mapDiff(mp, alive[name]); s != "" {
				return fmt.Sprintf("what %s knows of %s is wrong: %s", p.Name, name, s)
			}
			var all []string
			for _, k := range sortedKeys(alive[name]) {
				all = append(all, alive[name][k])
			}
			if !sameStrings(l, all) {
				return fmt.Sprintf("%s lists %v as %s, but there are %v", p.Name, l, name, all)
			}
			if name == "metaserver" {
				sort.Strings(ms)
				if !sameStrings(ms, masters) {
					return fmt.Sprintf("%s takes %v for the masters, but they are %v", p.Name, ms, masters)
				}
			}
		}
	}
	return ""
}

func mapDiff(have, want map[string]string) string {
	var s []string
	for _, k := range sortedKeys(have) {
		if v, ok := want[k]; !ok {
			s = append(s, fmt.Sprintf("%s (%s) is listed, but should not be", k, have[k]))
		} else if v != have[k] {
			s = append(s, fmt.Sprintf("%s is %s instead of %s", k, have[k], v))
		}
	}
	for _, k := range sortedKeys(want) {
		if _, ok := have[k]; !ok {
			s = append(s, fmt.Sprintf("%s (%s) is missing", k, want[k]))
		}
	}
	return strings.Join(s, ", ")
}
