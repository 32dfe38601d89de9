package harness

import (
	"common/proto/pb"
	"context"
	"fmt"
	"strconv"
	"strings"
	"time"

	sim "verifsim"
	"verifsim/simgrpc"
)

// C18: object servers leave and join the cluster, moving their objects.

func init() {
	budgets["C18"] = budget{quick: 700}
	gen := func(g *Gen) {
		genCluster(g)
		g.Set("objs", g.Pick(2, 3, 3, 4, 5))
		g.Set("power", g.Pick(0, 1))
		g.Set("ttl", 1)
		genBuckets(g)
		n := genLossUploads(g)
		for i := g.Intn(4); i > 0; i-- {
			genLossUploads(g)
		}
		for i, m := 0, g.Range(2, 6); i < m; i++ {
			g.P.Ops = append(g.P.Ops, Op{K: g.pickS("leave", "leave", "join", "join", "uploads", "stop"), A: g.Intn(8), B: g.Intn(100)})
		}
		for i, m := 0, g.Intn(40); i < m; i++ {
			g.P.Ops = append(g.P.Ops, Op{K: "get", A: g.Intn(n), B: g.Intn(400), C: g.Pick(0, 0, 1, 5000)})
		}
	}
	register(&Scenario{Prop: "C18", Name: "moves", Weight: 2, Gen: func(g *Gen) {
		gen(g)
		g.Set("quiet", 1)
		g.Rate("net.slow", g.Pick(0, 0, 30))
	}, Run: runMoves})
	register(&Scenario{Prop: "C18", Name: "faults", Weight: 3, Gen: func(g *Gen) {
		gen(g)
		g.Set("raft", g.Pick(0, 0, 0, 3))
		g.Set("mgap", g.Pick(0, 0, 20, 60))
		for i, m := 0, g.Range(1, 5); i < m; i++ {
			g.insert(Op{K: g.pickS("kill", "kill", "killmeta", "killmeta", "term", "isolate", "heal", "full", "badread", "deadmeta"), A: g.Intn(8), B: g.Intn(400), C: g.Intn(6)})
		}
		if g.Chance(50) {
			g.Rate(g.pickS("net.refuse", "net.reqcut", "net.respcut", "net.resploss", "net.slow"), g.Pick(20, 60, 150))
		}
		if g.Chance(50) {
			g.Rate(g.pickS("disk.eio.write", "disk.eio.sync", "disk.enospc", "disk.eio.open", "disk.crash", "disk.eio.read", "disk.eio.stat", "disk.eio.meta"), g.Pick(10, 40, 150))
		}
		g.P.Max = g.Range(1, 8)
	}, Run: runMoves})
}

type objMove struct {
	*objLoss
	left    map[*Proc]bool // left the cluster for good
	had     map[*Proc]map[string]bool
	leftAt  map[*Proc]int
	failed  int // moves that failed so far
	stopped map[*Proc]bool
	moving  bool
	starts  func() // a move starts
	quiet   bool
}

func (o *objMove) rpc(p *Proc, leave bool) (string, bool) {
	cc, err := simgrpc.Dial(p.Addr())
	must(err)
	defer cc.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Minute)
	defer cancel()
	c := pb.NewObjectMigrationClient(cc)
	var r *pb.Response
	if leave {
		r, err = c.LeaveCommand(ctx, &pb.EmptyReq{})
	} else {
		r, err = c.JoinCommand(ctx, &pb.EmptyReq{})
	}
	o.w.Logf("%s leave=%v: %v %v", p.Name, leave, r, err)
	if err != nil {
		return err.Error(), false
	}
	return r.Message, r.Success
}

func (o *objMove) members() (r []*Proc) {
	for _, p := range o.objs {
		if !o.left[p] {
			r = append(r, p)
		}
	}
	return r
}

// objectsOf lists the objects on the disks of p.
func (o *objMove) objectsOf(p *Proc) (names []string, size int64) {
	for _, f := range o.shardFiles() {
		if f.srv == p && !f.temp {
			names = append(names, f.name)
			size += f.size
		}
	}
	return
}

func (o *objMove) leave(p *Proc) { o.leaveTry(p, true) }

func (o *objMove) leaveTry(p *Proc, again bool) {
	w := o.w
	if o.left[p] || len(o.members()) < 2 || !p.Alive() {
		return
	}
	o.moving = true
	o.starts()
	defer func() { o.moving = false }()
	had, _ := o.objectsOf(p)
	o.had[p] = map[string]bool{}
	for _, n := range had {
		o.had[p][n] = true
	}
	node := p.Node
	msg, ok := o.rpc(p, true)
	if ok {
		if rest, _ := o.objectsOf(p); len(rest) > 0 {
			w.Fail("left-behind", "%s says that it has left with success, but still has %v of %d objects", p.Name, rest, len(had))
		}
		o.named(p)
		if p.Node == node && p.Alive() {
			o.left[p], o.leftAt[p] = true, o.failed
		}
		w.S.Probe("leave.done")
		w.Nontriv += len(had)
		return
	}
	o.failed++
	w.S.Probe("leave.failed")
	if o.quiet && len(had) > 0 && !again {
		w.Fail("leave-failed", "nothing is wrong with the cluster, but %s cannot leave: %s", p.Name, msg)
	}
	if !p.Alive() {
		return
	}
	if o.quiet {
		// it may have chosen a server which has left just now
		sim.Sleep(20 * time.Second)
	}
	// it goes on being a member
	o.left[p] = true
	o.join(p)
	if o.quiet && again {
		sim.Sleep(20 * time.Second)
		o.leaveTry(p, false)
	}
}

// named: no version names a server which has left.
func (o *objMove) named(p *Proc) {
	for _, u := range o.acked() {
		v := o.version(u)
		for i, a := range v.Locate {
			if a != p.Addr() {
				continue
			}
			msg := fmt.Sprintf("%s has left with success, but version %d of %s/%s names it for its shard or copy %d", p.Name, u.ver, u.bk, u.name, i)
			if !o.raced[v.Hash] {
				o.w.Fail("still-named", "%s", msg)
			}
			o.late = msg
		}
	}
}

func (o *objMove) join(p *Proc) {
	w := o.w
	if o.stopped[p] {
		o.stopped[p] = false
		p.Start()
		o.left[p] = false
		w.Until(time.Minute, p.Alive)
		sim.Sleep(15 * time.Second)
	}
	if !p.Alive() {
		return
	}
	total := int64(0)
	for _, x := range o.members() {
		if x != p {
			_, n := o.objectsOf(x)
			total += n
		}
	}
	o.moving = true
	o.starts()
	defer func() { o.moving = false }()
	again := 3
	for {
		msg, ok := o.rpc(p, false)
		o.left[p] = false
		if ok {
			w.S.Probe("join.done")
			w.Nontriv++
			return
		}
		// it takes a moment to be registered
		if again--; again < 0 {
			o.failed++
			w.S.Probe("join.failed")
			if o.quiet && total > 0 && !strings.Contains(msg, "non avaliable") {
				w.Fail("join-failed", "nothing is wrong with the cluster, but %s cannot join: %s", p.Name, msg)
			}
			return
		}
		sim.Sleep(5 * time.Second)
	}
}

func runMoves(w *World) {
	o := &objMove{objLoss: newObjLoss(w), left: map[*Proc]bool{}, had: map[*Proc]map[string]bool{}, leftAt: map[*Proc]int{}, stopped: map[*Proc]bool{}, quiet: w.Plan.P["quiet"] == 1}
	P := w.Plan.P
	off := w.S.Plan.Off
	w.S.Plan.Off = true
	o.boot()
	o.mkBuckets()
	n := 0
	for i, op := range w.Plan.Ops {
		if op.K == "put" {
			o.mustPut(op, i)
			n++
		}
	}
	sim.Sleep(5 * time.Second)
	w.S.Plan.Off = off
	for _, p := range w.Procs {
		p := p
		k := &keeper{gap: 5 * time.Second}
		if p.Kind == "objectserver" {
			p.Disk.Track = P["power"] > 0
			p.Disk.Faulty = func(f string) bool { return strings.Contains(f, "_store") }
			k.power = P["power"] > 0
			// a server which starts again is registered again
			k.onDead = func() { o.left[p] = false }
		} else if p.Kind == "metaserver" && P["mgap"] > 0 {
			k.gap = time.Duration(P["mgap"]) * time.Second // long enough to be taken off the registry
		}
		if !o.quiet {
			w.keep(p, k)
		}
	}
	rewritten := map[string]time.Duration{} // when the last shard of a hash was begun to be recreated
	uploading := false
	w.Net.Seen = func(from, what string) {
		if !strings.HasPrefix(what, "POST /temp/") || !strings.HasPrefix(from, "10.0.3.") || uploading {
			return
		}
		h := what[len("POST /temp/"):]
		if i := strings.LastIndexByte(h, '.'); i > 0 {
			rewritten[h[:i]] = w.S.Now()
			if o.moving {
				o.raced[h[:i]] = true
			}
		}
	}
	o.starts = func() {
		for h, t := range rewritten {
			if w.S.Now()-t < 10*time.Second {
				o.raced[h] = true
			}
		}
	}
	var admin, reads []Op
	for _, op := range w.Plan.Ops {
		switch op.K {
		case "put":
		case "get":
			reads = append(reads, op)
		default:
			admin = append(admin, op)
		}
	}
	victim := func(op Op) *Proc { return o.objs[op.A%len(o.objs)] }
	moves := 0
	done := false
	w.All(func() {
		for i, op := range admin {
			p := victim(op)
			switch op.K {
			case "leave":
				moves++
				o.leave(p)
			case "join":
				moves++
				o.join(p)
			case "stop":
				if o.left[p] && o.quiet && p.Alive() {
					p.Term()
					o.stopped[p] = true
					w.Until(time.Minute, func() bool { return !p.Alive() })
				}
			case "uploads":
				w.S.Plan.Off = true
				sim.Sleep(10 * time.Second)
				uploading = true
				if o.quiet {
					o.mustPut(Op{K: "put", A: op.A % 3, B: (op.B * 7) % len(objSizes), C: 8 * (op.B % 3), S: "0"}, 1000+i)
				} else {
					o.opPut(Op{K: "put", A: op.A % 3, B: (op.B * 7) % len(objSizes), C: 8 * (op.B % 3), S: "0"}, 1000+i)
				}
				uploading = false
				sim.Sleep(time.Second)
				w.S.Plan.Off = off
			case "heal":
				w.Net.HealAll()
			case "deadmeta":
				// the next moves find the registry without it
				if m := o.metas[op.A%len(o.metas)]; m.Alive() && w.S.Inject("crash", func() string { return m.Name }) {
					m.Crash(false)
					sim.Sleep(12 * time.Second)
				}
			default:
				// strikes during one of the next moves
				op := op
				w.Background("nemesis", func() {
					for from := moves; moves <= from+op.C%2 && !done; {
						sim.Sleep(time.Millisecond)
					}
					if done {
						return
					}
					sim.Sleep(time.Duration(op.B) * 100 * time.Microsecond)
					switch op.K {
					case "kill":
						if p.Alive() && w.S.Inject("crash", func() string { return p.Name }) {
							p.Crash(false)
						}
					case "killmeta":
						if m := o.metas[op.A%len(o.metas)]; m.Alive() && w.S.Inject("crash", func() string { return m.Name }) {
							m.Crash(false)
						}
					case "term":
						if p.Alive() && w.S.Inject("sigterm", func() string { return p.Name }) {
							p.Term()
						}
					case "isolate":
						if w.S.Inject("partition", func() string { return p.Name }) {
							for _, a := range o.objs {
								if a != p {
									w.Net.Cut(a.IP, p.IP)
								}
							}
							sim.Sleep(time.Duration(op.B) * 20 * time.Millisecond)
							w.Net.HealAll()
						}
					case "full":
						if w.S.Inject("disk.full", func() string { return p.Name }) {
							p.Disk.Full = true
							sim.Sleep(time.Duration(op.B) * 20 * time.Millisecond)
							p.Disk.Full = false
						}
					}
				})
			}
		}
		done = true
	}, func() {
		for _, op := range reads {
			for !done && !o.moving {
				sim.Sleep(time.Millisecond)
			}
			sim.Sleep(time.Duration(op.B) * 100 * time.Microsecond)
			a := o.acked()
			p := a[op.A%len(a)]
			for try := 0; ; try++ {
				_, r := o.get(o.apis[op.A%len(o.apis)], p.bk, p.name, p.ver, min(op.C, p.c.size), 0)
				if r.OK() || !o.quiet {
					break
				}
				if try == 5 {
					w.Fail("read-failed", "nothing is wrong with the cluster, but reading version %d of %s/%s (%d bytes) fails %d times while servers leave and join: %s", p.ver, p.bk, p.name, p.c.size, try+1, r)
				}
				sim.Sleep(time.Second)
			}
		}
	})
	done = true
	var objs []*Proc
	for _, p := range o.objs {
		if !o.stopped[p] {
			objs = append(objs, p)
		}
	}
	o.objs = objs
	o.restSettle()
	for _, p := range o.objs {
		if o.left[p] {
			// one that another server sent to it afterwards, in a move which
			// failed then, is only a copy too many
			rest, _ := o.objectsOf(p)
			for _, n := range rest {
				if o.had[p][n] && o.leftAt[p] == o.failed {
					w.Fail("left-behind", "%s has left with success, but has %s now", p.Name, n)
				}
			}
			o.named(p)
		}
		r := w.Do("GET", p.Addr(), "/stat", nil, reqOpt{})
		c, err := strconv.ParseInt(r.Header.Get("Capacity"), 10, 64)
		if names, n := o.objectsOf(p); err != nil || c != n {
			w.Fail("capacity", "%s reports a capacity of %q, but its %d objects take %d bytes", p.Name, r.Header.Get("Capacity"), len(names), n)
		}
	}
	o.storedWhole()
	o.judge()
	o.verifyAll("lost-object")
	for _, f := range o.shardFiles() {
		if f.temp && !f.srv.Disk.MetaFailed[f.path] {
			w.Fail("temp-left", "three minutes after the last move the temp file %s (%d bytes) is still on %s", f.name, f.size, f.srv.Name)
		}
	}
	if o.late != "" {
		w.Fail("late-repair", "%s: an API server that was recreating shards recorded it", o.late)
	}
}

// restSettle is settle without the servers that were stopped.
func (o *objMove) restSettle() {
	w := o.w
	w.S.Plan.Off = true
	w.Net.HealAll()
	for _, p := range o.objs {
		p.Disk.Full = false
	}
	for _, p := range w.Procs {
		p := p
		if !o.stopped[p] && !w.Until(5*time.Minute, p.Alive) {
			w.Fail("no-restart", "%s is not running 5 minutes after the faults ended", p.Name)
		}
	}
	sim.Sleep(3 * time.Minute)
}

var _ = fmt.Sprint
