package harness

import (
	"context"
	"encoding/json"
	"fmt"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"

	ogrpc "google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"common/proto/msg"
	"common/proto/pb"
	"common/util"
	sim "verifsim"
	"verifsim/simgrpc"
)

var _ ogrpc.CallOption

// Outcome classes of a mutation.
const (
	rOK   = "ok"   // acknowledged
	rNo   = "no"   // definitely refused, without effect
	rNone = "none" // definitely refused: the thing does not exist
	rUnk  = "?"    // nobody can tell
)

// metaClient talks to one metadata server, over HTTP or over gRPC.
type metaClient struct {
	w    *World
	addr string
	rpc  pb.MetadataApiClient
	last string // how the last call ended
	to   time.Duration
}

func (w *World) metaClient(addr string) *metaClient {
	cc, err := simgrpc.Dial(addr)
	must(err)
	return &metaClient{w: w, addr: addr, rpc: pb.NewMetadataApiClient(cc), to: 30 * time.Second}
}

func esc(s string) string { return url.PathEscape(s) }

// id: some plans use ids which are mixed up when they are not escaped well.
func (c *metaClient) id(id string) string {
	if c.w.Plan.P["oddids"] == 1 {
		for i, x := range []string{"bk/a b", "bk/a+b", "bk/a%20b", "bk/a%2Bb", "bk/ä?#", "bk/a%2520b"} {
			if metaIDs[i] == id {
				return x
			}
		}
	}
	return id
}

func (c *metaClient) http(method, path string, body any) (string, *Reply) {
	var b []byte
	if body != nil {
		b, _ = json.Marshal(body)
	}
	r := c.w.Do(method, c.addr, path, b, reqOpt{timeout: c.to, hdr: map[string]string{"Content-Type": "application/json"}})
	c.last = r.String()
	switch {
	case r.Err != nil:
		return rUnk, r
	case r.Code/100 == 2:
		return rOK, r
	case r.Code == 404:
		return rNone, r
	case r.Code/100 == 4 || r.Code == 503:
		return rNo, r
	}
	return rUnk, r
}

func (c *metaClient) grpcErr(err error) string {
	c.w.Ops++
	if err == nil {
		c.last = "ok"
		return rOK
	}
	c.last = err.Error()
	switch status.Code(err) {
	case codes.NotFound:
		return rNone
	case codes.InvalidArgument, codes.Aborted:
		return rNo
	case codes.Unavailable:
		if strings.Contains(err.Error(), "not writable") || strings.Contains(err.Error(), "in migration") {
			return rNo
		}
	}
	return rUnk
}

func (c *metaClient) ctx() (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), c.to)
}

func pack[T interface{ MarshalMsg([]byte) ([]byte, error) }](v T) []byte {
	b, err := v.MarshalMsg(nil)
	must(err)
	return b
}

// MetaRec is what a client sees of a metadata record.
type MetaRec struct {
	Name, Bucket string
	CT, UT       int64
	Total        int
	First, Last  int
}

func (c *metaClient) AddMeta(id, val, bucket string, rpc bool) string {
	id = c.id(id)
	if rpc {
		ctx, cancel := c.ctx()
		defer cancel()
		_, err := c.rpc.SaveMetadata(ctx, &pb.Metadata{Id: id, Msgpack: pack(&msg.Metadata{Extra: &msg.Extra{}, Name: val, Bucket: bucket})})
		return c.grpcErr(err)
	}
	st, _ := c.http("POST", "/metadata/"+esc(id), map[string]any{"name": val, "bucket": bucket})
	return st
}

func (c *metaClient) UpdMeta(id, val, bucket string) string {
	id = c.id(id)
	st, _ := c.http("PUT", "/metadata/"+esc(id), map[string]any{"name": val, "bucket": bucket})
	return st
}

func (c *metaClient) DelMeta(id string) string {
	id = c.id(id)
	st, _ := c.http("DELETE", "/metadata/"+esc(id), nil)
	return st
}

func (c *metaClient) GetMeta(id string, extra, rpc bool) (string, *MetaRec) {
	id = c.id(id)
	if rpc {
		ctx, cancel := c.ctx()
		defer cancel()
		m, err := c.rpc.GetMetadata(ctx, &pb.MetaReq{Id: id, WithExtra: extra})
		st := c.grpcErr(err)
		if st != rOK {
			return st, nil
		}
		var md msg.Metadata
		if err := util.DecodeMsgp(&md, m.Data); err != nil {
			c.w.Fail("undecodable-reply", "GetMetadata %s: %v", id, err)
		}
		r := &MetaRec{Name: md.Name, Bucket: md.Bucket, CT: md.CreateTime, UT: md.UpdateTime}
		if md.Extra != nil {
			r.Total, r.First, r.Last = md.Total, md.FirstVersion, md.LastVersion
		}
		return st, r
	}
	st, rep := c.http("GET", "/metadata/"+esc(id)+q("version", "-1", "with_extra", strconv.FormatBool(extra)), nil)
	if st != rOK {
		return st, nil
	}
	var md struct {
		Name, Bucket           string
		CreateTime, UpdateTime int64
		Total, FirstVersion    int
		LastVersion            int
	}
	if err := rep.JSON(&md); err != nil {
		c.w.Fail("undecodable-reply", "GET metadata %s: %v %q", id, err, rep.Body)
	}
	return st, &MetaRec{Name: md.Name, Bucket: md.Bucket, CT: md.CreateTime, UT: md.UpdateTime, Total: md.Total, First: md.FirstVersion, Last: md.LastVersion}
}

// ListMeta lists metadata with a prefix.
func (c *metaClient) ListMeta(prefix string, size int) (string, []MetaRec) {
	st, rep := c.http("GET", "/metadata/list"+q("prefix", prefix, "page_size", strconv.Itoa(size), "order_by", "name"), nil)
	if st != rOK {
		return st, nil
	}
	var l []struct {
		Name, Bucket           string
		CreateTime, UpdateTime int64
	}
	if err := rep.JSON(&l); err != nil {
		c.w.Fail("undecodable-reply", "list metadata: %v %q", err, rep.Body)
	}
	var res []MetaRec
	for _, x := range l {
		res = append(res, MetaRec{Name: x.Name, Bucket: x.Bucket, CT: x.CreateTime, UT: x.UpdateTime})
	}
	return st, res
}

func mkVer(hash string, val int, locate []string) *msg.Version {
	return &msg.Version{StoreStrategy: 1, DataShards: int32(len(locate)), ShardSize: 7, Size: int64(val), Hash: hash, Locate: locate}
}

func (c *metaClient) AddVer(id, hash string, val int, locate []string, rpc bool) (string, int) {
	id = c.id(id)
	v := mkVer(hash, val, locate)
	if rpc {
		ctx, cancel := c.ctx()
		defer cancel()
		r, err := c.rpc.SaveVersion(ctx, &pb.Metadata{Id: id, Msgpack: pack(v)})
		st := c.grpcErr(err)
		if st != rOK {
			return st, 0
		}
		return st, int(r.Data)
	}
	st, rep := c.http("POST", "/metadata_version/"+esc(id), v)
	if st != rOK {
		return st, 0
	}
	n, err := strconv.Atoi(rep.Header.Get("Version"))
	if err != nil {
		c.w.Fail("undecodable-reply", "add version %s: no Version header", id)
	}
	return st, n
}

func (c *metaClient) UpdVer(id string, seq int, hash string, val int, locate []string, rpc bool) string {
	id = c.id(id)
	v := mkVer(hash, val, locate)
	if rpc {
		ctx, cancel := c.ctx()
		defer cancel()
		_, err := c.rpc.UpdateVersion(ctx, &pb.Metadata{Id: id, Version: int32(seq), Msgpack: pack(v)})
		return c.grpcErr(err)
	}
	st, _ := c.http("PUT", "/metadata_version/"+esc(id)+q("version", strconv.Itoa(seq)), v)
	return st
}

func (c *metaClient) DelVer(id string, seq int, rpc bool) string {
	id = c.id(id)
	if rpc && seq > 0 {
		ctx, cancel := c.ctx()
		defer cancel()
		_, err := c.rpc.RemoveVersion(ctx, &pb.MetaReq{Id: id, Version: int32(seq)})
		return c.grpcErr(err)
	}
	st, _ := c.http("DELETE", "/metadata_version/"+esc(id)+q("version", strconv.Itoa(seq)), nil)
	return st
}

// VerRec is what a client sees of a version.
type VerRec struct {
	Seq    int
	Hash   string
	Val    int
	Locate string
	Ts     int64
	UID    string
}

func recOf(v *msg.Version) VerRec {
	return VerRec{Seq: int(v.Sequence), Hash: v.Hash, Val: int(v.Size), Locate: strings.Join(v.Locate, ","), Ts: v.Ts, UID: v.UniqueId}
}

func (v VerRec) short() string { return fmt.Sprintf("%d:%s:%d:%s", v.Seq, v.Hash, v.Val, v.Locate) }

type jver struct {
	Size     int64
	Hash     string
	Sequence uint64
	Locate   []string
	Ts       int64
	UniqueId string
}

func (v jver) rec() VerRec {
	return VerRec{Seq: int(v.Sequence), Hash: v.Hash, Val: int(v.Size), Locate: strings.Join(v.Locate, ","), Ts: v.Ts, UID: v.UniqueId}
}

// GetVer reads a version; seq 0 is the latest one.
func (c *metaClient) GetVer(id string, seq int, rpc bool) (string, *VerRec) {
	id = c.id(id)
	if rpc {
		ctx, cancel := c.ctx()
		defer cancel()
		m, err := c.rpc.GetVersion(ctx, &pb.MetaReq{Id: id, Version: int32(seq)})
		st := c.grpcErr(err)
		if st != rOK {
			return st, nil
		}
		var v msg.Version
		if err := util.DecodeMsgp(&v, m.Data); err != nil {
			c.w.Fail("undecodable-reply", "GetVersion %s: %v", id, err)
		}
		r := recOf(&v)
		return st, &r
	}
	st, rep := c.http("GET", "/metadata_version/"+esc(id)+q("version", strconv.Itoa(seq)), nil)
	if st != rOK {
		return st, nil
	}
	var v jver
	if err := rep.JSON(&v); err != nil {
		c.w.Fail("undecodable-reply", "GET version %s: %v %q", id, err, rep.Body)
	}
	r := v.rec()
	return st, &r
}

func decodeVers(b []byte) ([]VerRec, error) {
	vs, err := util.DecodeArrayMsgp(b, func() *msg.Version { return &msg.Version{} })
	if err != nil {
		return nil, err
	}
	var res []VerRec
	for _, v := range vs {
		res = append(res, recOf(v))
	}
	return res, nil
}

func (c *metaClient) ListVer(id string, page, size int, rpc bool) (string, []VerRec, int) {
	id = c.id(id)
	if rpc {
		ctx, cancel := c.ctx()
		defer cancel()
		m, err := c.rpc.ListVersion(ctx, &pb.MetaReq{Id: id, Page: &pb.Pageable{Page: int32(page), PageSize: int32(size)}})
		st := c.grpcErr(err)
		if st != rOK {
			return st, nil, 0
		}
		vs, err := decodeVers(m.Data)
		if err != nil {
			c.w.Fail("undecodable-reply", "ListVersion %s: %v", id, err)
		}
		return st, vs, int(m.Total)
	}
	st, rep := c.http("GET", "/metadata_version/"+esc(id)+"/list"+q("page", strconv.Itoa(page), "page_size", strconv.Itoa(size)), nil)
	if st != rOK {
		return st, nil, 0
	}
	var vs []jver
	if err := rep.JSON(&vs); err != nil {
		c.w.Fail("undecodable-reply", "list versions %s: %v %q", id, err, rep.Body)
	}
	var res []VerRec
	for _, v := range vs {
		res = append(res, v.rec())
	}
	total, _ := strconv.Atoi(rep.Header.Get("X-Total-Count"))
	return st, res, total
}

func (c *metaClient) ByHash(hash string, rpc bool) (string, []VerRec) {
	if rpc {
		ctx, cancel := c.ctx()
		defer cancel()
		m, err := c.rpc.GetVersionsByHash(ctx, &pb.MetaReq{Hash: hash})
		st := c.grpcErr(err)
		if st != rOK {
			return st, nil
		}
		vs, err := decodeVers(m.Data)
		if err != nil {
			c.w.Fail("undecodable-reply", "GetVersionsByHash %s: %v", hash, err)
		}
		return st, vs
	}
	st, rep := c.http("GET", "/version/list"+q("hash", hash), nil)
	if st != rOK {
		return st, nil
	}
	var vs []jver
	if err := rep.JSON(&vs); err != nil {
		c.w.Fail("undecodable-reply", "versions by hash: %v %q", err, rep.Body)
	}
	var res []VerRec
	for _, v := range vs {
		res = append(res, v.rec())
	}
	return st, res
}

func (c *metaClient) Locate(hash string, idx int, loc string) string {
	st, _ := c.http("PATCH", "/version/locate", map[string]any{"locate": loc, "hash": hash, "locateIndex": idx})
	return st
}

// --- buckets

type BucketRec struct {
	Name    string
	Val     int
	CT, UT  int64
	Version bool
}

func (c *metaClient) AddBucket(name string, val int, rpc bool) string {
	if rpc {
		ctx, cancel := c.ctx()
		defer cancel()
		_, err := c.rpc.SaveBucket(ctx, &pb.Metadata{Id: name, Msgpack: pack(&msg.Bucket{Name: name, VersionRemains: int32(val)})})
		return c.grpcErr(err)
	}
	st, _ := c.http("POST", "/bucket", map[string]any{"name": name, "versionRemains": val})
	return st
}

func (c *metaClient) UpdBucket(name string, val int) string {
	st, _ := c.http("PUT", "/bucket/"+esc(name), map[string]any{"versionRemains": val})
	return st
}

func (c *metaClient) DelBucket(name string) string {
	st, _ := c.http("DELETE", "/bucket/"+esc(name), nil)
	return st
}

func (c *metaClient) GetBucket(name string, rpc bool) (string, *BucketRec) {
	if rpc {
		ctx, cancel := c.ctx()
		defer cancel()
		m, err := c.rpc.GetBucket(ctx, &pb.MetaReq{Id: name})
		st := c.grpcErr(err)
		if st != rOK {
			return st, nil
		}
		var b msg.Bucket
		if err := util.DecodeMsgp(&b, m.Data); err != nil {
			c.w.Fail("undecodable-reply", "GetBucket %s: %v", name, err)
		}
		return st, &BucketRec{Name: b.Name, Val: int(b.VersionRemains), CT: b.CreateTime, UT: b.UpdateTime}
	}
	st, rep := c.http("GET", "/bucket/"+esc(name), nil)
	if st != rOK {
		return st, nil
	}
	var b msg.Bucket
	if err := rep.JSON(&b); err != nil {
		c.w.Fail("undecodable-reply", "GET bucket %s: %v %q", name, err, rep.Body)
	}
	return st, &BucketRec{Name: b.Name, Val: int(b.VersionRemains), CT: b.CreateTime, UT: b.UpdateTime}
}

func (c *metaClient) ListBuckets(prefix string, size int) (string, []BucketRec) {
	st, rep := c.http("GET", "/bucket/list"+q("prefix", prefix, "page_size", strconv.Itoa(size)), nil)
	if st != rOK {
		return st, nil
	}
	var bs []msg.Bucket
	if err := rep.JSON(&bs); err != nil {
		c.w.Fail("undecodable-reply", "list buckets: %v %q", err, rep.Body)
	}
	var r []BucketRec
	for _, b := range bs {
		r = append(r, BucketRec{Name: b.Name, Val: int(b.VersionRemains), CT: b.CreateTime, UT: b.UpdateTime})
	}
	return st, r
}

// --- sequential specification of one metadata name --------------------------

type verState struct {
	seq    int
	hash   string
	val    int
	locate string
	hi     int64 // its timestamp is not above
}

// metaState is the state of one metadata record with its versions.
type metaState struct {
	exists bool
	val    string
	bucket string
	hi     int64 // update time is not above
	next   int   // last number handed out
	vers   []verState
}

func (s metaState) key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%v|%s|%s|%d|%d", s.exists, s.val, s.bucket, s.next, s.hi)
	for _, v := range s.vers {
		fmt.Fprintf(&b, "|%d:%s:%d:%s:%d", v.seq, v.hash, v.val, v.locate, v.hi)
	}
	return b.String()
}

func (s metaState) find(seq int) int {
	for i, v := range s.vers {
		if v.seq == seq {
			return i
		}
	}
	return -1
}

func (s metaState) with(f func(*metaState)) metaState {
	t := s
	t.vers = append([]verState(nil), s.vers...)
	f(&t)
	return t
}

type metaIn struct {
	k      string
	id     string
	val    string
	bucket string
	seq    int
	hash   string
	num    int
	locate string
	page   int
	size   int
	at     int64 // ms of the call
	end    int64 // ms of the return
}

type metaOut struct {
	st   string
	seq  int
	meta *MetaRec
	ver  *VerRec
	list []VerRec
	tot  int
	bk   *BucketRec
	op   *LinOp // its place in the history
}

func (i metaIn) String() string {
	return fmt.Sprintf("%s %s val=%s seq=%d hash=%s num=%d loc=%s page=%d/%d", i.k, i.id, i.val, i.seq, i.hash, i.num, i.locate, i.page, i.size)
}
func (o *metaOut) String() string {
	s := o.st
	if o.seq != 0 {
		s += fmt.Sprintf(" seq=%d", o.seq)
	}
	if o.meta != nil {
		s += fmt.Sprintf(" name=%s bucket=%s total=%d first=%d last=%d", o.meta.Name, o.meta.Bucket, o.meta.Total, o.meta.First, o.meta.Last)
	}
	if o.ver != nil {
		s += " " + o.ver.short()
	}
	if o.bk != nil {
		s += fmt.Sprintf(" bucket %s val=%d", o.bk.Name, o.bk.Val)
	}
	for _, v := range o.list {
		s += " [" + v.short() + "]"
	}
	return s
}

func one(s metaState) []metaState { return []metaState{s} }

// metaStep is the specification. existsOK: adding a record that exists may be
// acknowledged without changing it (replicated mode repeats log entries).
func metaStep(existsOK bool) func(s metaState, in, out any) []metaState {
	return func(s metaState, in_, out_ any) []metaState {
		in := in_.(metaIn)
		var out *metaOut
		if out_ != nil {
			out = out_.(*metaOut)
			if out.st == rNo {
				switch in.k {
				case "addMeta":
					// refused: it exists (the caller checks refusals without reason)
					if s.exists {
						return one(s)
					}
					return nil
				case "updMeta":
					// refused as older than what is stored
					if s.exists && s.hi >= in.at {
						return one(s)
					}
					return nil
				case "updVer":
					if i := s.find(in.seq); i >= 0 && s.vers[i].hi >= in.at {
						return one(s)
					}
					return nil
				case "addVer", "delVer", "delMeta", "delAll":
					return nil
				}
				return nil
			}
		}
		ok := out == nil || out.st == rOK
		none := out != nil && out.st == rNone
		switch in.k {
		case "addMeta":
			if s.exists {
				if existsOK || out == nil {
					return one(s)
				}
				return nil
			}
			if !ok {
				return nil
			}
			return one(metaState{exists: true, val: in.val, bucket: in.bucket, hi: in.end})
		case "updMeta":
			if !s.exists {
				if none || out == nil {
					return one(s)
				}
				return nil
			}
			if !ok {
				return nil
			}
			return one(s.with(func(t *metaState) { t.val, t.hi = in.val, in.end }))
		case "delMeta":
			if !ok && !(none && !s.exists) {
				return nil
			}
			return one(metaState{})
		case "addVer":
			if !s.exists {
				if none || out == nil {
					return one(s)
				}
				return nil
			}
			if !ok {
				return nil
			}
			if out != nil && out.seq != s.next+1 {
				return nil
			}
			return one(s.with(func(t *metaState) {
				t.next++
				t.vers = append(t.vers, verState{t.next, in.hash, in.num, in.locate, in.end})
			}))
		case "updVer":
			i := s.find(in.seq)
			if i < 0 {
				if none || out == nil {
					return one(s)
				}
				return nil
			}
			if !ok {
				return nil
			}
			return one(s.with(func(t *metaState) { t.vers[i].val, t.vers[i].locate, t.vers[i].hi = in.num, in.locate, in.end }))
		case "delVer":
			i := s.find(in.seq)
			if i < 0 {
				if none || out == nil || (ok && !s.exists) {
					return one(s)
				}
				return nil
			}
			if !ok {
				return nil
			}
			return one(s.with(func(t *metaState) { t.vers = append(t.vers[:i], t.vers[i+1:]...) }))
		case "getMeta":
			if none {
				if s.exists {
					return nil
				}
				return one(s)
			}
			if !ok || !s.exists || out == nil || out.meta.Name != s.val || out.meta.Bucket != s.bucket {
				return nil
			}
			return one(s)
		case "extra":
			if none {
				if s.exists {
					return nil
				}
				return one(s)
			}
			if !ok || !s.exists || out == nil {
				return nil
			}
			if out.meta.Total != len(s.vers) {
				return nil
			}
			if len(s.vers) > 0 && (out.meta.First != s.vers[0].seq || out.meta.Last != s.vers[len(s.vers)-1].seq) {
				return nil
			}
			return one(s)
		case "getVer":
			i := s.find(in.seq)
			if in.seq == 0 {
				i = len(s.vers) - 1
			}
			if none {
				if i >= 0 {
					return nil
				}
				return one(s)
			}
			if !ok || i < 0 || out == nil {
				return nil
			}
			if out.ver.Seq != s.vers[i].seq || out.ver.Hash != s.vers[i].hash || out.ver.Val != s.vers[i].val || out.ver.Locate != s.vers[i].locate {
				return nil
			}
			return one(s)
		case "list":
			if none {
				if s.exists {
					return nil
				}
				return one(s)
			}
			if !ok || !s.exists || out == nil {
				return nil
			}
			lo := (in.page - 1) * in.size
			hi := lo + in.size
			if hi > len(s.vers) {
				hi = len(s.vers)
			}
			if lo > hi {
				lo = hi
			}
			if len(out.list) != hi-lo || out.tot != len(s.vers) {
				return nil
			}
			for k, v := range s.vers[lo:hi] {
				o := out.list[k]
				if o.Seq != v.seq || o.Hash != v.hash || o.Val != v.val || o.Locate != v.locate {
					return nil
				}
			}
			return one(s)
		}
		panic("metaStep: " + in.k)
	}
}

// metaHist records operations per metadata name.
type metaHist struct {
	patience time.Duration // how long a read may fail while a group elects a leader
	w        *World
	ev       int64
	ops      map[string][]*LinOp
	errs     []string
	skew     int64 // largest difference between two clocks of the deployment, ms
}

func (w *World) newHist() *metaHist { return &metaHist{w: w, ops: map[string][]*LinOp{}} }

func (h *metaHist) tick() int64 { h.ev++; return h.ev }

// run performs one operation and records it.
func (h *metaHist) run(client int, c *metaClient, in metaIn, rpc bool) *metaOut {
	in.at, in.end = sim.NowMs()-h.skew, linForever
	op := &LinOp{Client: client, In: in, Call: h.tick(), Ret: linForever}
	h.ops[in.id] = append(h.ops[in.id], op)
	h.w.Logf("c%d call %v rpc=%v", client, in, rpc)
	out := c.perform(in, rpc)
	out.op = op
	h.w.Logf("c%d ret %v -> %v (%s)", client, in, out, trunc(c.last, 120))
	if out.st == rUnk {
		if readOnlyOp(in.k) {
			// a read without answer says nothing
			l := h.ops[in.id]
			for i := range l {
				if l[i] == op {
					h.ops[in.id] = append(l[:i:i], l[i+1:]...)
					break
				}
			}
		}
		return out
	}
	in.end = sim.NowMs() + h.skew
	op.In, op.Out, op.Ret = in, out, h.tick()
	h.w.Nontriv++
	return out
}

func readOnlyOp(k string) bool {
	switch k {
	case "getMeta", "getVer", "list", "extra", "getBk":
		return true
	}
	return false
}

// crashed bounds operations without answer: the server died, they cannot take
// effect from now on.
func (h *metaHist) crashed(pending []*LinOp) {
	t := h.tick()
	for _, o := range pending {
		if o.Out == nil && o.Ret > t {
			o.Ret = t
		}
	}
}

func (h *metaHist) open() (r []*LinOp) {
	for _, id := range sortedKeys(h.ops) {
		for _, o := range h.ops[id] {
			if o.Out == nil && o.Ret == linForever {
				r = append(r, o)
			}
		}
	}
	return
}

func (c *metaClient) perform(in metaIn, rpc bool) *metaOut {
	o := &metaOut{}
	var loc []string
	if in.locate != "" {
		loc = strings.Split(in.locate, ",")
	}
	switch in.k {
	case "addMeta":
		o.st = c.AddMeta(in.id, in.val, in.bucket, rpc)
	case "updMeta":
		o.st = c.UpdMeta(in.id, in.val, in.bucket)
	case "delMeta":
		o.st = c.DelMeta(in.id)
	case "addVer":
		o.st, o.seq = c.AddVer(in.id, in.hash, in.num, loc, rpc)
	case "updVer":
		o.st = c.UpdVer(in.id, in.seq, in.hash, in.num, loc, rpc)
	case "delVer":
		o.st = c.DelVer(in.id, in.seq, rpc)
	case "getMeta":
		o.st, o.meta = c.GetMeta(in.id, false, rpc)
	case "extra":
		o.st, o.meta = c.GetMeta(in.id, true, rpc)
	case "getVer":
		o.st, o.ver = c.GetVer(in.id, in.seq, rpc)
	case "list":
		o.st, o.list, o.tot = c.ListVer(in.id, in.page, in.size, rpc)
	case "addBk":
		o.st = c.AddBucket(bucketName(in.id), in.num, rpc)
	case "updBk":
		o.st = c.UpdBucket(bucketName(in.id), in.num)
	case "delBk":
		o.st = c.DelBucket(bucketName(in.id))
	case "getBk":
		o.st, o.bk = c.GetBucket(bucketName(in.id), rpc)
	default:
		panic("perform: " + in.k)
	}
	if readOnlyOp(in.k) && o.st == rNo {
		o.st = rUnk // redirected or not ready
	}
	return o
}

// judge checks every recorded history.
func (h *metaHist) judge(class string, existsOK bool) {
	for _, id := range sortedKeys(h.ops) {
		var ok, decided bool
		var stuck string
		if isBucket(id) {
			ok, decided, stuck = CheckLin(LinModel[bkState]{Step: bkStep(existsOK), Key: bkState.key, Desc: descOp}, h.ops[id], 200000)
		} else {
			ok, decided, stuck = CheckLin(LinModel[metaState]{Step: metaStep(existsOK), Key: metaState.key, Desc: descOp}, h.ops[id], 200000)
		}
		if !decided {
			h.w.S.Probe("lin.undecided")
			continue
		}
		if !ok {
			h.w.Fail(class, "history of %q has no sequential explanation (%d operations): %s", id, len(h.ops[id]), trunc(stuck, 1500))
		}
	}
}

func descOp(o *LinOp) string {
	if o.Out == nil {
		return fmt.Sprintf("%v -> no answer", o.In)
	}
	return fmt.Sprintf("%v -> %v", o.In, o.Out)
}

func sortRecs(v []VerRec) []VerRec {
	sort.Slice(v, func(i, j int) bool { return v[i].short() < v[j].short() })
	return v
}
