// Package simetcd replaces the etcd client by one that talks to an etcd model
// over the simulated network: revisions, transactions, leases with virtual time
// and watches that resume.
package simetcd

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"time"
	sim "verifsim"
	"verifsim/simnet"

	"go.etcd.io/etcd/api/v3/etcdserverpb"
	"go.etcd.io/etcd/api/v3/mvccpb"
	"go.etcd.io/etcd/api/v3/v3rpc/rpctypes"
	oc "go.etcd.io/etcd/client/v3"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

const Host = "etcd"

type event struct {
	rev  int64
	typ  mvccpb.Event_EventType
	kv   *mvccpb.KeyValue
	prev *mvccpb.KeyValue
}

type lease struct {
	id      int64
	ttl     int64
	expires time.Time
	keys    map[string]bool
}

// Cluster is the state of the etcd service of one run.
type Cluster struct {
	Rev       int64
	Compacted int64
	kvs       map[string]*mvccpb.KeyValue
	hist      []event
	leases    map[int64]*lease
	nextLease int64
	subs      map[chan struct{}]bool
	subList   []chan struct{}
	Down      bool
	Refusing  bool // while it is down, connections are refused at once
	Frozen    bool // leases do not expire (etcd itself is paused)
}

func C() *Cluster {
	c, _ := sim.S.Data["etcd"].(*Cluster)
	if c == nil {
		c = &Cluster{Rev: 1, kvs: map[string]*mvccpb.KeyValue{}, leases: map[int64]*lease{}, nextLease: 1000, subs: map[chan struct{}]bool{}}
		sim.S.Data["etcd"] = c
		sim.GoOn(nil, "etcd-lessor", func() {
			for {
				sim.Sleep(500 * time.Millisecond)
				c.expire()
			}
		})
	}
	return c
}

func (c *Cluster) expire() {
	if c.Frozen || c.Down {
		return
	}
	var ids []int64
	for id := range c.leases {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		if c.leases[id].expires.Before(time.Now()) {
			sim.Probe("etcd.lease-expired")
			sim.Logf("etcd: lease %x expired", id)
			c.revoke(id)
		}
	}
}

func (c *Cluster) revoke(id int64) bool {
	l := c.leases[id]
	if l == nil {
		return false
	}
	var ks []string
	for k := range l.keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	delete(c.leases, id)
	if len(ks) > 0 {
		c.Rev++
		for _, k := range ks {
			c.del(k)
		}
		c.notify()
	}
	return true
}

func (c *Cluster) notify() {
	for _, s := range c.subList {
		select {
		case s <- struct{}{}:
		default:
		}
	}
}

func (c *Cluster) del(k string) bool {
	kv := c.kvs[k]
	if kv == nil {
		return false
	}
	delete(c.kvs, k)
	if l := c.leases[kv.Lease]; l != nil {
		delete(l.keys, k)
	}
	c.hist = append(c.hist, event{rev: c.Rev, typ: mvccpb.DELETE, kv: &mvccpb.KeyValue{Key: []byte(k), ModRevision: c.Rev}, prev: kv})
	return true
}

func (c *Cluster) put(k string, v []byte, lid int64) *mvccpb.KeyValue {
	old := c.kvs[k]
	kv := &mvccpb.KeyValue{Key: []byte(k), Value: append([]byte(nil), v...), CreateRevision: c.Rev, ModRevision: c.Rev, Version: 1, Lease: lid}
	if old != nil {
		kv.CreateRevision, kv.Version = old.CreateRevision, old.Version+1
		if l := c.leases[old.Lease]; l != nil {
			delete(l.keys, k)
		}
	}
	if l := c.leases[lid]; l != nil {
		l.keys[k] = true
	}
	c.kvs[k] = kv
	c.hist = append(c.hist, event{rev: c.Rev, typ: mvccpb.PUT, kv: kv, prev: old})
	return old
}

// Snapshot returns the current contents (harness only).
func (c *Cluster) Snapshot(prefix string) map[string]string {
	r := map[string]string{}
	for k, v := range c.kvs {
		if len(k) >= len(prefix) && k[:len(prefix)] == prefix {
			r[k] = string(v.Value)
		}
	}
	return r
}

// Event is an element of the history of the service.
type Event struct {
	Rev    int64
	Delete bool
	Key    string
	Value  string
}

func (c *Cluster) History(prefix string) []Event {
	var r []Event
	for _, e := range c.hist {
		if bytes.HasPrefix(e.kv.Key, []byte(prefix)) {
			r = append(r, Event{e.rev, e.typ == mvccpb.DELETE, string(e.kv.Key), string(e.kv.Value)})
		}
	}
	return r
}

// Set writes a key directly (harness only).
func (c *Cluster) Set(k, v string) {
	c.Rev++
	c.put(k, []byte(v), 0)
	c.notify()
}

// Unset deletes a key directly (harness only).
func (c *Cluster) Unset(k string) {
	c.Rev++
	c.del(k)
	c.notify()
}

func (c *Cluster) Compact() { c.Compacted = c.Rev }

// LeaseCount returns how many leases are alive.
func (c *Cluster) LeaseCount() int { return len(c.leases) }

// ExpireAll drops every lease, as after a long outage.
func (c *Cluster) ExpireAll() {
	for _, l := range c.leases {
		l.expires = time.Time{}
	}
	c.expire()
}

func inRange(k string, key, end []byte) bool {
	if len(end) == 0 {
		return k == string(key)
	}
	if len(end) == 1 && end[0] == 0 {
		return k >= string(key)
	}
	return k >= string(key) && k < string(end)
}

func (c *Cluster) header() *etcdserverpb.ResponseHeader {
	return &etcdserverpb.ResponseHeader{ClusterId: 1, MemberId: 1, Revision: c.Rev, RaftTerm: 1}
}

func (c *Cluster) rng(r *etcdserverpb.RangeRequest) *etcdserverpb.RangeResponse {
	resp := &etcdserverpb.RangeResponse{Header: c.header()}
	var kvs []*mvccpb.KeyValue
	for k, v := range c.kvs {
		if !inRange(k, r.Key, r.RangeEnd) {
			continue
		}
		if r.MaxCreateRevision > 0 && v.CreateRevision > r.MaxCreateRevision || r.MinCreateRevision > 0 && v.CreateRevision < r.MinCreateRevision ||
			r.MaxModRevision > 0 && v.ModRevision > r.MaxModRevision || r.MinModRevision > 0 && v.ModRevision < r.MinModRevision {
			continue
		}
		kvs = append(kvs, v)
	}
	resp.Count = int64(len(kvs))
	if r.CountOnly {
		return resp
	}
	sort.Slice(kvs, func(i, j int) bool { return bytes.Compare(kvs[i].Key, kvs[j].Key) < 0 })
	if r.SortOrder != etcdserverpb.RangeRequest_NONE || r.SortTarget != etcdserverpb.RangeRequest_KEY {
		less := func(a, b *mvccpb.KeyValue) int {
			d := int64(0)
			switch r.SortTarget {
			case etcdserverpb.RangeRequest_KEY:
				return bytes.Compare(a.Key, b.Key)
			case etcdserverpb.RangeRequest_VALUE:
				return bytes.Compare(a.Value, b.Value)
			case etcdserverpb.RangeRequest_VERSION:
				d = a.Version - b.Version
			case etcdserverpb.RangeRequest_CREATE:
				d = a.CreateRevision - b.CreateRevision
			case etcdserverpb.RangeRequest_MOD:
				d = a.ModRevision - b.ModRevision
			}
			if d < 0 {
				return -1
			} else if d > 0 {
				return 1
			}
			return 0
		}
		sort.SliceStable(kvs, func(i, j int) bool {
			if r.SortOrder == etcdserverpb.RangeRequest_DESCEND {
				return less(kvs[i], kvs[j]) > 0
			}
			return less(kvs[i], kvs[j]) < 0
		})
	}
	if r.Limit > 0 && int64(len(kvs)) > r.Limit {
		kvs = kvs[:r.Limit]
		resp.More = true
	}
	for _, kv := range kvs {
		x := *kv
		x.Key = append([]byte(nil), kv.Key...)
		x.Value = append([]byte(nil), kv.Value...)
		if r.KeysOnly {
			x.Value = nil
		}
		resp.Kvs = append(resp.Kvs, &x)
	}
	return resp
}

func (c *Cluster) doPut(r *etcdserverpb.PutRequest) (*etcdserverpb.PutResponse, error) {
	if r.Lease != 0 && c.leases[r.Lease] == nil {
		return nil, rpctypes.ErrGRPCLeaseNotFound
	}
	v, l := r.Value, r.Lease
	if old := c.kvs[string(r.Key)]; old != nil {
		if r.IgnoreValue {
			v = old.Value
		}
		if r.IgnoreLease {
			l = old.Lease
		}
	}
	old := c.put(string(r.Key), v, l)
	resp := &etcdserverpb.PutResponse{}
	if r.PrevKv {
		resp.PrevKv = old
	}
	return resp, nil
}

func (c *Cluster) doDel(r *etcdserverpb.DeleteRangeRequest) *etcdserverpb.DeleteRangeResponse {
	var ks []string
	for k := range c.kvs {
		if inRange(k, r.Key, r.RangeEnd) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	resp := &etcdserverpb.DeleteRangeResponse{Deleted: int64(len(ks))}
	for _, k := range ks {
		if r.PrevKv {
			resp.PrevKvs = append(resp.PrevKvs, c.kvs[k])
		}
		c.del(k)
	}
	return resp
}

func (c *Cluster) compare(cs []*etcdserverpb.Compare) bool {
	for _, x := range cs {
		kv := c.kvs[string(x.Key)]
		if kv == nil {
			kv = &mvccpb.KeyValue{}
			if x.Target == etcdserverpb.Compare_VALUE {
				return false
			}
		}
		d := 0
		cmp := func(a, b int64) int {
			if a < b {
				return -1
			} else if a > b {
				return 1
			}
			return 0
		}
		switch t := x.TargetUnion.(type) {
		case *etcdserverpb.Compare_Version:
			d = cmp(kv.Version, t.Version)
		case *etcdserverpb.Compare_CreateRevision:
			d = cmp(kv.CreateRevision, t.CreateRevision)
		case *etcdserverpb.Compare_ModRevision:
			d = cmp(kv.ModRevision, t.ModRevision)
		case *etcdserverpb.Compare_Lease:
			d = cmp(kv.Lease, t.Lease)
		case *etcdserverpb.Compare_Value:
			d = bytes.Compare(kv.Value, t.Value)
		}
		ok := false
		switch x.Result {
		case etcdserverpb.Compare_EQUAL:
			ok = d == 0
		case etcdserverpb.Compare_NOT_EQUAL:
			ok = d != 0
		case etcdserverpb.Compare_GREATER:
			ok = d > 0
		case etcdserverpb.Compare_LESS:
			ok = d < 0
		}
		if !ok {
			return false
		}
	}
	return true
}

func checkTxn(ops []*etcdserverpb.RequestOp) error {
	if len(ops) > 128 {
		return rpctypes.ErrGRPCTooManyOps
	}
	puts := map[string]bool{}
	for _, o := range ops {
		if p := o.GetRequestPut(); p != nil {
			if len(p.Key) == 0 {
				return rpctypes.ErrGRPCEmptyKey
			}
			if puts[string(p.Key)] {
				return rpctypes.ErrGRPCDuplicateKey
			}
			puts[string(p.Key)] = true
		}
	}
	for _, o := range ops {
		if d := o.GetRequestDeleteRange(); d != nil {
			for k := range puts {
				if inRange(k, d.Key, d.RangeEnd) {
					return rpctypes.ErrGRPCDuplicateKey
				}
			}
		}
	}
	return nil
}

func (c *Cluster) txn(r *etcdserverpb.TxnRequest) (*etcdserverpb.TxnResponse, error) {
	if err := checkTxn(r.Success); err != nil {
		return nil, err
	}
	if err := checkTxn(r.Failure); err != nil {
		return nil, err
	}
	resp := &etcdserverpb.TxnResponse{Succeeded: c.compare(r.Compare)}
	ops := r.Failure
	if resp.Succeeded {
		ops = r.Success
	}
	c.Rev++
	n := len(c.hist)
	for _, o := range ops {
		switch q := o.Request.(type) {
		case *etcdserverpb.RequestOp_RequestPut:
			p, err := c.doPut(q.RequestPut)
			if err != nil {
				return nil, err
			}
			resp.Responses = append(resp.Responses, &etcdserverpb.ResponseOp{Response: &etcdserverpb.ResponseOp_ResponsePut{ResponsePut: p}})
		case *etcdserverpb.RequestOp_RequestDeleteRange:
			resp.Responses = append(resp.Responses, &etcdserverpb.ResponseOp{Response: &etcdserverpb.ResponseOp_ResponseDeleteRange{ResponseDeleteRange: c.doDel(q.RequestDeleteRange)}})
		case *etcdserverpb.RequestOp_RequestRange:
			resp.Responses = append(resp.Responses, &etcdserverpb.ResponseOp{Response: &etcdserverpb.ResponseOp_ResponseRange{ResponseRange: c.rng(q.RequestRange)}})
		case *etcdserverpb.RequestOp_RequestTxn:
			t, err := c.txn(q.RequestTxn)
			if err != nil {
				return nil, err
			}
			resp.Responses = append(resp.Responses, &etcdserverpb.ResponseOp{Response: &etcdserverpb.ResponseOp_ResponseTxn{ResponseTxn: t}})
		}
	}
	if len(c.hist) == n {
		c.Rev--
	}
	resp.Header = c.header()
	c.notify()
	return resp, nil
}

// ---- client ----

type client struct {
	c      *Cluster
	node   *sim.Node
	closed chan struct{}
	isShut bool
}

// call is one RPC: f runs at the service.
func (cl *client) call(ctx context.Context, what string, retry bool, f func() error) error {
	n := simnet.N()
	me := simnet.IP(cl.node)
	for try := 0; ; try++ {
		select {
		case <-cl.closed:
			return status.Error(codes.Canceled, "grpc: the client connection is closing")
		default:
		}
		if try == 0 && sim.S.Roll("etcd.outage", func() string { return me + " " + what }) {
			// refused for so long that the client stops trying
			if e := simnet.SleepCtx(ctx, 2500*time.Millisecond); e != nil {
				return e
			}
			return status.Error(codes.Unavailable, simnet.Refused("etcd").Error())
		}
		err := func() error {
			if sim.S.Roll("etcd.refuse", func() string { return me + " " + what }) {
				return simnet.Refused("etcd")
			}
			if err := n.Transit(ctx, me, Host, what); err != nil {
				return err
			}
			deadline := time.Now().Add(n.Timeout)
			for cl.c.Down {
				if cl.c.Refusing {
					return simnet.Refused("etcd")
				}
				if time.Now().After(deadline) {
					return simnet.ErrTimeout(what)
				}
				if err := simnet.SleepCtx(ctx, 200*time.Millisecond); err != nil {
					return err
				}
			}
			if err := f(); err != nil {
				return err
			}
			if sim.S.Roll("etcd.resploss", func() string { return me + " " + what }) {
				return simnet.Reset("read")
			}
			return n.Transit(ctx, Host, me, what)
		}()
		if err == nil {
			return nil
		}
		if ctx.Err() != nil {
			return ctx.Err()
		}
		if _, ok := status.FromError(err); ok {
			return err
		}
		if retry && try < 100 {
			if e := simnet.SleepCtx(ctx, 25*time.Millisecond); e != nil {
				return e
			}
			continue
		}
		return status.Error(codes.Unavailable, err.Error())
	}
}

type kvClient struct{ *client }

func (k kvClient) Range(ctx context.Context, in *etcdserverpb.RangeRequest, _ ...grpc.CallOption) (r *etcdserverpb.RangeResponse, err error) {
	err = k.call(ctx, "Range "+string(in.Key), true, func() error { r = k.c.rng(in); return nil })
	if err != nil {
		return nil, err
	}
	return
}

func (k kvClient) Put(ctx context.Context, in *etcdserverpb.PutRequest, _ ...grpc.CallOption) (r *etcdserverpb.PutResponse, err error) {
	err = k.call(ctx, "Put "+string(in.Key), false, func() error {
		if len(in.Key) == 0 {
			return rpctypes.ErrGRPCEmptyKey
		}
		k.c.Rev++
		r, err = k.c.doPut(in)
		if err != nil {
			k.c.Rev--
			return err
		}
		r.Header = k.c.header()
		sim.Logf("etcd: put %s=%q lease=%x", in.Key, in.Value, in.Lease)
		k.c.notify()
		return nil
	})
	if err != nil {
		return nil, err
	}
	return
}

func (k kvClient) DeleteRange(ctx context.Context, in *etcdserverpb.DeleteRangeRequest, _ ...grpc.CallOption) (r *etcdserverpb.DeleteRangeResponse, err error) {
	err = k.call(ctx, "Delete "+string(in.Key), false, func() error {
		k.c.Rev++
		r = k.c.doDel(in)
		if r.Deleted == 0 {
			k.c.Rev--
		}
		r.Header = k.c.header()
		sim.Logf("etcd: delete %s (%d)", in.Key, r.Deleted)
		k.c.notify()
		return nil
	})
	if err != nil {
		return nil, err
	}
	return
}

func (k kvClient) Txn(ctx context.Context, in *etcdserverpb.TxnRequest, _ ...grpc.CallOption) (r *etcdserverpb.TxnResponse, err error) {
	err = k.call(ctx, "Txn", false, func() error { r, err = k.c.txn(in); return err })
	if err != nil {
		return nil, err
	}
	return
}

func (k kvClient) Compact(ctx context.Context, in *etcdserverpb.CompactionRequest, _ ...grpc.CallOption) (*etcdserverpb.CompactionResponse, error) {
	return &etcdserverpb.CompactionResponse{Header: k.c.header()}, nil
}

type leaser struct {
	*client
	ctx    context.Context
	cancel context.CancelFunc
}

func toErr(err error) error {
	if err == nil {
		return nil
	}
	return rpctypes.Error(err)
}

func (l *leaser) Grant(ctx context.Context, ttl int64) (*oc.LeaseGrantResponse, error) {
	var r *oc.LeaseGrantResponse
	err := l.call(ctx, "LeaseGrant", false, func() error {
		if ttl <= 0 {
			ttl = 1
		}
		if ttl < 2 { // minimum TTL of a cluster
			ttl = 2
		}
		l.c.nextLease++
		id := l.c.nextLease
		l.c.leases[id] = &lease{id: id, ttl: ttl, expires: time.Now().Add(time.Duration(ttl) * time.Second), keys: map[string]bool{}}
		r = &oc.LeaseGrantResponse{ResponseHeader: l.c.header(), ID: oc.LeaseID(id), TTL: ttl}
		sim.Logf("etcd: grant %x ttl=%d", id, ttl)
		return nil
	})
	if err != nil {
		return nil, toErr(err)
	}
	return r, nil
}

func (l *leaser) Revoke(ctx context.Context, id oc.LeaseID) (*oc.LeaseRevokeResponse, error) {
	err := l.call(ctx, "LeaseRevoke", true, func() error {
		sim.Logf("etcd: revoke %x", int64(id))
		if !l.c.revoke(int64(id)) {
			return rpctypes.ErrGRPCLeaseNotFound
		}
		return nil
	})
	if err != nil {
		return nil, toErr(err)
	}
	return &oc.LeaseRevokeResponse{Header: l.c.header()}, nil
}

func (l *leaser) TimeToLive(ctx context.Context, id oc.LeaseID, opts ...oc.LeaseOption) (*oc.LeaseTimeToLiveResponse, error) {
	r := &oc.LeaseTimeToLiveResponse{ID: id, TTL: -1}
	err := l.call(ctx, "LeaseTTL", true, func() error {
		if x := l.c.leases[int64(id)]; x != nil {
			r.TTL = int64(time.Until(x.expires) / time.Second)
			r.GrantedTTL = x.ttl
		}
		r.ResponseHeader = l.c.header()
		return nil
	})
	return r, toErr(err)
}

func (l *leaser) Leases(ctx context.Context) (*oc.LeaseLeasesResponse, error) {
	return nil, errors.New("not modelled")
}

func (l *leaser) once(ctx context.Context, id oc.LeaseID) (*oc.LeaseKeepAliveResponse, error) {
	r := &oc.LeaseKeepAliveResponse{ID: id}
	err := l.call(ctx, "LeaseKeepAlive", false, func() error {
		if x := l.c.leases[int64(id)]; x != nil {
			x.expires = time.Now().Add(time.Duration(x.ttl) * time.Second)
			r.TTL = x.ttl
		}
		r.ResponseHeader = l.c.header()
		return nil
	})
	return r, err
}

func (l *leaser) KeepAliveOnce(ctx context.Context, id oc.LeaseID) (*oc.LeaseKeepAliveResponse, error) {
	r, err := l.once(ctx, id)
	if err != nil {
		return nil, toErr(err)
	}
	if r.TTL <= 0 {
		return nil, rpctypes.ErrLeaseNotFound
	}
	return r, nil
}

func (l *leaser) KeepAlive(ctx context.Context, id oc.LeaseID) (<-chan *oc.LeaseKeepAliveResponse, error) {
	select {
	case <-l.ctx.Done():
		return nil, oc.ErrKeepAliveHalted{Reason: l.ctx.Err()}
	default:
	}
	ch := make(chan *oc.LeaseKeepAliveResponse, oc.LeaseResponseChSize)
	sim.GoNamed("etcd-keepalive", func() {
		defer close(ch)
		// the first deadline is the client's guess
		deadline := time.Now().Add(6 * time.Second)
		for {
			rctx, cancel := context.WithDeadline(l.ctx, deadline)
			stop := make(chan struct{})
			if ctx.Done() != nil {
				sim.GoNamed("etcd-keepalive-ctx", func() {
					sim.Select(false, sim.RecvCase(stop), sim.RecvCase(ctx.Done()))
					cancel()
				})
			}
			r, err := l.once(rctx, id)
			close(stop)
			cancel()
			if ctx.Err() != nil || l.ctx.Err() != nil {
				return
			}
			wait := 500 * time.Millisecond
			if err == nil {
				if r.TTL <= 0 {
					return
				}
				deadline = time.Now().Add(time.Duration(r.TTL) * time.Second)
				select {
				case ch <- r:
				default:
				}
				wait = time.Duration(r.TTL) * time.Second / 3
			} else if time.Now().After(deadline) || rctx.Err() == context.DeadlineExceeded {
				return
			}
			t := time.NewTimer(wait)
			i, _, _ := sim.Select(false, sim.RecvCase(t.C), sim.RecvCase(ctx.Done()), sim.RecvCase(l.ctx.Done()))
			t.Stop()
			if i != 0 {
				return
			}
		}
	})
	return ch, nil
}

func (l *leaser) Close() error { l.cancel(); return nil }

type watcher struct {
	*client
	ctx    context.Context
	cancel context.CancelFunc
}

func (w *watcher) Watch(ctx context.Context, key string, opts ...oc.OpOption) oc.WatchChan {
	op := oc.OpGet(key, opts...)
	kb, end := op.KeyBytes(), op.RangeBytes()
	ch := make(chan oc.WatchResponse)
	bad := func() oc.WatchChan {
		close(ch)
		return ch
	}
	next := op.Rev()
	// the watch is created at the service before Watch returns
	for {
		if ctx.Err() != nil || w.ctx.Err() != nil {
			return bad()
		}
		err := w.call(ctx, "Watch "+key, true, func() error {
			if next == 0 {
				next = w.c.Rev + 1
			}
			return nil
		})
		if err == nil {
			break
		}
		if ctx.Err() != nil || w.ctx.Err() != nil {
			return bad()
		}
	}
	sig := make(chan struct{}, 1)
	w.c.subList = append(w.c.subList, sig)
	sig <- struct{}{}
	sim.GoNamed("etcd-watch", func() {
		defer close(ch)
		defer func() {
			for i, s := range w.c.subList {
				if s == sig {
					w.c.subList = append(w.c.subList[:i:i], w.c.subList[i+1:]...)
					break
				}
			}
		}()
		for {
			i, _, _ := sim.Select(false, sim.RecvCase(sig), sim.RecvCase(ctx.Done()), sim.RecvCase(w.ctx.Done()))
			if i != 0 {
				return
			}
			for {
				if next <= w.c.Compacted && w.c.Compacted > 0 {
					r := oc.WatchResponse{Header: *w.c.header(), CompactRevision: w.c.Compacted, Canceled: true}
					sim.Select(false, sim.SendCase(ch)(r), sim.RecvCase(ctx.Done()), sim.RecvCase(w.ctx.Done()))
					return
				}
				has := false
				for k := len(w.c.hist) - 1; k >= 0 && w.c.hist[k].rev >= next; k-- {
					has = true
				}
				if !has {
					break
				}
				// a lossy link only delays the stream: the client resumes it
				for {
					err := simnet.N().Transit(ctx, Host, simnet.IP(w.node), "watch")
					if ctx.Err() != nil || w.ctx.Err() != nil {
						return
					}
					if err == nil && !w.c.Down {
						break
					}
					sim.Sleep(200 * time.Millisecond)
				}
				r := oc.WatchResponse{Header: *w.c.header()}
				top := w.c.Rev
				if sim.S.Rng.Intn(3) == 0 {
					// deliver only the oldest revision first
					for k := range w.c.hist {
						if w.c.hist[k].rev >= next {
							top = w.c.hist[k].rev
							break
						}
					}
				}
				for k := range w.c.hist {
					e := &w.c.hist[k]
					if e.rev < next || e.rev > top || !inRange(string(e.kv.Key), kb, end) {
						continue
					}
					kv := *e.kv
					ev := &oc.Event{Type: e.typ, Kv: &kv}
					if reflect.ValueOf(op).FieldByName("prevKV").Bool() {
						ev.PrevKv = e.prev
					}
					r.Events = append(r.Events, ev)
				}
				next = top + 1
				if len(r.Events) == 0 {
					continue
				}
				if i, _, _ := sim.Select(false, sim.SendCase(ch)(r), sim.RecvCase(ctx.Done()), sim.RecvCase(w.ctx.Done())); i != 0 {
					return
				}
			}
		}
	})
	return ch
}

func (w *watcher) RequestProgress(ctx context.Context) error { return nil }
func (w *watcher) Close() error                              { w.cancel(); return nil }

// New connects to the etcd model.
func New(cfg oc.Config) (*oc.Client, error) {
	if len(cfg.Endpoints) == 0 {
		return nil, oc.ErrNoAvailableEndpoints
	}
	ctx := context.Background()
	cl := &client{c: C(), node: sim.CurNode(), closed: make(chan struct{})}
	c := oc.NewCtxClient(ctx)
	c.KV = oc.NewKVFromKVClient(kvClient{cl}, nil)
	lctx, lcancel := context.WithCancel(ctx)
	c.Lease = &leaser{cl, lctx, func() {
		lcancel()
		if !cl.isShut {
			cl.isShut = true
			close(cl.closed)
		}
	}}
	wctx, wcancel := context.WithCancel(ctx)
	c.Watcher = &watcher{cl, wctx, wcancel}
	return c, nil
}

func init() { _ = fmt.Sprint }
