package harness

import "time"

func init() {
	register(&Scenario{Prop: "SMOKE", Name: "boot", Gen: func(g *Gen) {}, Run: func(w *World) {
		m := w.Meta(1, MetaOpts{})
		m.Start()
		for i := 1; i <= 3; i++ {
			w.Object(i, ObjOpts{}).Start()
		}
		w.Until(30*time.Second, func() bool { return false })
		a := w.Api(1, ApiOpts{})
		a.Start()
		w.Until(30*time.Second, func() bool { return false })
		for _, p := range w.Procs {
			w.Logf("%s alive=%v panic=%v %s", p.Name, p.Alive(), p.Node.Panic, p.Node.PanicStack)
		}
		snap := w.Etcd.Snapshot("")
		for _, k := range sortedKeys(snap) {
			v := snap[k]
			w.Logf("etcd %s=%s", k, v)
		}
		w.Nontriv++
	}})
}
