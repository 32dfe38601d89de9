// Package simbadger is a small stand-in for badger: serialisable transactions
// over an ordered map that survives process crashes (badger's memtable log is
// memory mapped, so committed transactions do too).
package simbadger

import (
	"os"
	"sort"
	"time"
	sim "verifsim"

	ob "github.com/dgraph-io/badger/v3"
)

type store struct {
	kv   map[string]*ent
	ver  uint64
	open bool
}

type ent struct {
	val []byte
	ver uint64
	exp time.Time
}

type DB struct {
	st     *store
	path   string
	closed bool
	node   *sim.Node
}

func stores() map[string]*store {
	m, _ := sim.S.Data["badger"].(map[string]*store)
	if m == nil {
		m = map[string]*store{}
		sim.S.Data["badger"] = m
	}
	return m
}

func Open(opt ob.Options) (*DB, error) {
	p := opt.Dir
	if _, err := os.Stat(p); err != nil {
		if err := os.MkdirAll(p, 0o755); err != nil {
			return nil, err
		}
	}
	m := stores()
	if m[p] == nil {
		m[p] = &store{kv: map[string]*ent{}}
	}
	return &DB{st: m[p], path: p, node: sim.CurNode()}, nil
}

func (db *DB) Close() error { db.closed = true; return nil }
func (db *DB) Sync() error  { return nil }

// Dump returns the contents (harness only).
func Dump(path string) map[string]string {
	r := map[string]string{}
	if s := stores()[path]; s != nil {
		for k, e := range s.kv {
			r[k] = string(e.val)
		}
	}
	return r
}

// Paths lists the stores (harness only).
func Paths() []string {
	var r []string
	for p := range stores() {
		r = append(r, p)
	}
	sort.Strings(r)
	return r
}

type Txn struct {
	db     *DB
	update bool
	start  uint64
	snap   map[string]*ent
	reads  map[string]bool
	writes map[string]*ent // val nil: delete
	done   bool
}

func (db *DB) NewTransaction(update bool) *Txn {
	sim.Y()
	t := &Txn{db: db, update: update, start: db.st.ver, snap: map[string]*ent{}, reads: map[string]bool{}, writes: map[string]*ent{}}
	for k, e := range db.st.kv {
		t.snap[k] = e
	}
	return t
}

func (t *Txn) Discard() { t.done = true }

func (t *Txn) Commit() error {
	if t.done {
		return ob.ErrDiscardedTxn
	}
	t.done = true
	if len(t.writes) == 0 {
		return nil
	}
	sim.Y()
	st := t.db.st
	for k := range t.reads {
		if e := st.kv[k]; e != nil && e.ver > t.start {
			sim.Probe("badger.conflict")
			return ob.ErrConflict
		} else if e == nil && t.snap[k] != nil {
			sim.Probe("badger.conflict")
			return ob.ErrConflict
		}
	}
	st.ver++
	for k, w := range t.writes {
		if w == nil {
			delete(st.kv, k)
			continue
		}
		w.ver = st.ver
		st.kv[k] = w
	}
	sim.Y()
	return nil
}

func (db *DB) Update(fn func(*Txn) error) error {
	if db.closed {
		return ob.ErrDBClosed
	}
	t := db.NewTransaction(true)
	defer t.Discard()
	if err := fn(t); err != nil {
		return err
	}
	return t.Commit()
}

func (db *DB) View(fn func(*Txn) error) error {
	if db.closed {
		return ob.ErrDBClosed
	}
	t := db.NewTransaction(false)
	defer t.Discard()
	return fn(t)
}

func (t *Txn) lookup(k string) *ent {
	if w, ok := t.writes[k]; ok {
		return w
	}
	e := t.snap[k]
	if e != nil && !e.exp.IsZero() && e.exp.Before(time.Now()) {
		return nil
	}
	return e
}

func (t *Txn) Get(key []byte) (*Item, error) {
	sim.Y()
	if len(key) == 0 {
		return nil, ob.ErrEmptyKey
	}
	if t.done {
		return nil, ob.ErrDiscardedTxn
	}
	k := string(key)
	if t.update {
		t.reads[k] = true
	}
	e := t.lookup(k)
	if e == nil {
		return nil, ob.ErrKeyNotFound
	}
	return &Item{k: k, e: e}, nil
}

func (t *Txn) set(k string, e *ent) error {
	if !t.update {
		return ob.ErrReadOnlyTxn
	}
	if k == "" {
		return ob.ErrEmptyKey
	}
	if t.done {
		return ob.ErrDiscardedTxn
	}
	t.writes[k] = e
	return nil
}

func (t *Txn) Set(key, val []byte) error {
	return t.set(string(key), &ent{val: append([]byte{}, val...)})
}

func (t *Txn) SetEntry(e *ob.Entry) error {
	x := &ent{val: append([]byte{}, e.Value...)}
	if e.ExpiresAt > 0 {
		x.exp = time.Unix(int64(e.ExpiresAt), 0)
	}
	return t.set(string(e.Key), x)
}

func (t *Txn) Delete(key []byte) error { return t.set(string(key), nil) }

type Item struct {
	k string
	e *ent
}

func (i *Item) Key() []byte              { return []byte(i.k) }
func (i *Item) KeyCopy(d []byte) []byte  { return append(d[:0], i.k...) }
func (i *Item) ValueSize() int64         { return int64(len(i.e.val)) }
func (i *Item) EstimatedSize() int64     { return int64(len(i.e.val)) }
func (i *Item) IsDeletedOrExpired() bool { return false }
func (i *Item) Version() uint64          { return i.e.ver }
func (i *Item) Value(fn func(v []byte) error) error {
	return fn(append([]byte(nil), i.e.val...))
}
func (i *Item) ValueCopy(d []byte) ([]byte, error) { return append(d[:0], i.e.val...), nil }

type Iterator struct {
	t    *Txn
	keys []string
	i    int
	opt  ob.IteratorOptions
}

func (t *Txn) NewIterator(opt ob.IteratorOptions) *Iterator {
	set := map[string]bool{}
	for k := range t.snap {
		set[k] = true
	}
	for k := range t.writes {
		set[k] = true
	}
	it := &Iterator{t: t, opt: opt}
	for k := range set {
		if t.lookup(k) != nil && (len(opt.Prefix) == 0 || len(k) >= len(opt.Prefix) && k[:len(opt.Prefix)] == string(opt.Prefix)) {
			it.keys = append(it.keys, k)
		}
	}
	sort.Strings(it.keys)
	if opt.Reverse {
		sort.Sort(sort.Reverse(sort.StringSlice(it.keys)))
	}
	it.i = len(it.keys)
	return it
}

func (it *Iterator) Rewind()     { it.i = 0 }
func (it *Iterator) Valid() bool { return it.i < len(it.keys) }
func (it *Iterator) Next()       { sim.Y(); it.i++ }
func (it *Iterator) Close()      {}
func (it *Iterator) Seek(k []byte) {
	it.i = sort.SearchStrings(it.keys, string(k))
}
func (it *Iterator) ValidForPrefix(p []byte) bool {
	return it.Valid() && len(it.keys[it.i]) >= len(p) && it.keys[it.i][:len(p)] == string(p)
}
func (it *Iterator) Item() *Item {
	k := it.keys[it.i]
	return &Item{k: k, e: it.t.lookup(k)}
}
