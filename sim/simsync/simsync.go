// Package simsync replaces package sync in instrumented code.
package simsync

import (
	"sync"
	sim "verifsim"
)

type Locker = sync.Locker
type Pool = sync.Pool

type mstate struct {
	sim     *sim.Sim
	locked  bool
	readers int
	writers int // waiting writers
	q       sim.WaitList
}

func get(p **mstate) *mstate {
	if *p == nil || (*p).sim != sim.S {
		*p = &mstate{sim: sim.S}
	}
	return *p
}

type Mutex struct{ st *mstate }

func (m *Mutex) Lock() {
	sim.Y()
	st := get(&m.st)
	for st.locked {
		if !sim.InTask() {
			panic("simsync: contended lock outside of a task")
		}
		sim.Probe("mutex.contended")
		st.q.Wait()
	}
	st.locked = true
}

func (m *Mutex) TryLock() bool {
	st := get(&m.st)
	if st.locked {
		return false
	}
	st.locked = true
	return true
}

func (m *Mutex) Unlock() {
	st := get(&m.st)
	if !st.locked {
		fatal("sync: unlock of unlocked mutex")
	}
	st.locked = false
	st.q.WakeAll()
	sim.Y()
}

func fatal(s string) { panic("fatal error: " + s) }

type RWMutex struct{ st *mstate }

func (m *RWMutex) Lock() {
	sim.Y()
	st := get(&m.st)
	st.writers++
	for st.locked || st.readers > 0 {
		if !sim.InTask() {
			panic("simsync: contended lock outside of a task")
		}
		st.q.Wait()
	}
	st.writers--
	st.locked = true
}

func (m *RWMutex) TryLock() bool {
	st := get(&m.st)
	if st.locked || st.readers > 0 {
		return false
	}
	st.locked = true
	return true
}

func (m *RWMutex) Unlock() {
	st := get(&m.st)
	if !st.locked {
		fatal("sync: Unlock of unlocked RWMutex")
	}
	st.locked = false
	st.q.WakeAll()
	sim.Y()
}

func (m *RWMutex) RLock() {
	sim.Y()
	st := get(&m.st)
	for st.locked || st.writers > 0 {
		if !sim.InTask() {
			panic("simsync: contended lock outside of a task")
		}
		st.q.Wait()
	}
	st.readers++
}

func (m *RWMutex) TryRLock() bool {
	st := get(&m.st)
	if st.locked || st.writers > 0 {
		return false
	}
	st.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	st := get(&m.st)
	if st.readers <= 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	st.readers--
	if st.readers == 0 {
		st.q.WakeAll()
	}
	sim.Y()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type wgstate struct {
	sim *sim.Sim
	n   int
	q   sim.WaitList
}

type WaitGroup struct{ st *wgstate }

func (w *WaitGroup) get() *wgstate {
	if w.st == nil || w.st.sim != sim.S {
		w.st = &wgstate{sim: sim.S}
	}
	return w.st
}

func (w *WaitGroup) Add(d int) {
	st := w.get()
	st.n += d
	if st.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if st.n == 0 {
		st.q.WakeAll()
	}
	sim.Y()
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	sim.Y()
	st := w.get()
	if st.n > 0 {
		// woken once, when the counter dropped to zero
		st.q.Wait()
	}
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sim.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T { o.Do(func() { r = f() }); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var r1 T1
	var r2 T2
	return func() (T1, T2) { o.Do(func() { r1, r2 = f() }); return r1, r2 }
}

type Cond struct {
	L Locker
	q *sim.WaitList
}

func NewCond(l Locker) *Cond { return &Cond{L: l, q: &sim.WaitList{}} }

func (c *Cond) list() *sim.WaitList {
	if c.q == nil {
		c.q = &sim.WaitList{}
	}
	return c.q
}

func (c *Cond) Wait() {
	w := c.list().Enqueue()
	c.L.Unlock()
	w.Await()
	c.L.Lock()
}
func (c *Cond) Signal()    { c.list().WakeOne(); sim.Y() }
func (c *Cond) Broadcast() { c.list().WakeAll(); sim.Y() }

// Map keeps insertion order so that Range is repeatable.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) Load(k any) (any, bool) { sim.Y(); v, ok := m.m[k]; return v, ok }

func (m *Map) Store(k, v any) { sim.Y(); m.store(k, v) }

func (m *Map) store(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	sim.Y()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	m.store(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	sim.Y()
	v, ok := m.m[k]
	if ok {
		m.del(k)
	}
	return v, ok
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(append([]any{}, m.keys[:i]...), m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) Delete(k any) { sim.Y(); m.del(k) }

func (m *Map) Swap(k, v any) (any, bool) {
	sim.Y()
	old, ok := m.m[k]
	m.store(k, v)
	return old, ok
}

func (m *Map) CompareAndSwap(k, o, n any) bool {
	sim.Y()
	if old, ok := m.m[k]; ok && old == o {
		m.m[k] = n
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, o any) bool {
	sim.Y()
	if old, ok := m.m[k]; ok && old == o {
		m.del(k)
		return true
	}
	return false
}

func (m *Map) Clear() { m.m, m.keys = nil, nil }

func (m *Map) Range(f func(k, v any) bool) {
	keys := append([]any{}, m.keys...)
	for _, k := range keys {
		sim.Y()
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}
