// Package simgrpc replaces grpc connections and servers: calls travel as HTTP/2
// exchanges over the simulated network.
package simgrpc

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	ohttp "net/http"
	"net/url"
	"strconv"
	"strings"
	"time"
	sim "verifsim"
	"verifsim/simhttp"
	"verifsim/simnet"

	ogrpc "google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

type DialOption interface{}
type ServerOption interface{ apply(*Server) }

type optFn func(*Server)

func (f optFn) apply(s *Server) { f(s) }

func WithInsecure() DialOption                              { return "insecure" }
func WithBlock() DialOption                                 { return "block" }
func WithTransportCredentials(any) DialOption               { return "creds" }
func WithDefaultCallOptions(...ogrpc.CallOption) DialOption { return "callopts" }
func WithTimeout(time.Duration) DialOption                  { return "timeout" }
func MaxConcurrentStreams(n uint32) ServerOption            { return optFn(func(*Server) {}) }
func MaxRecvMsgSize(n int) ServerOption                     { return optFn(func(s *Server) { s.maxRecv = n }) }
func MaxSendMsgSize(n int) ServerOption                     { return optFn(func(*Server) {}) }
func UnaryInterceptor(i ogrpc.UnaryServerInterceptor) ServerOption {
	return optFn(func(s *Server) { s.unary = append([]ogrpc.UnaryServerInterceptor{i}, s.unary...) })
}
func StreamInterceptor(i ogrpc.StreamServerInterceptor) ServerOption {
	return optFn(func(s *Server) { s.stream = append([]ogrpc.StreamServerInterceptor{i}, s.stream...) })
}
func ChainUnaryInterceptor(is ...ogrpc.UnaryServerInterceptor) ServerOption {
	return optFn(func(s *Server) { s.unary = append(s.unary, is...) })
}
func ChainStreamInterceptor(is ...ogrpc.StreamServerInterceptor) ServerOption {
	return optFn(func(s *Server) { s.stream = append(s.stream, is...) })
}

// ---- framing ----

func writeFrame(w io.Writer, m any) error {
	pm, ok := m.(proto.Message)
	if !ok {
		return status.Errorf(codes.Internal, "grpc: error while marshaling: %T is not a proto.Message", m)
	}
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(pm)
	if err != nil {
		return status.Errorf(codes.Internal, "grpc: error while marshaling: %v", err)
	}
	h := make([]byte, 4, 4+len(b))
	binary.BigEndian.PutUint32(h, uint32(len(b)))
	_, err = w.Write(append(h, b...))
	return err
}

func readFrame(r io.Reader, m any, max int) error {
	var h [4]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return err
	}
	n := int(binary.BigEndian.Uint32(h[:]))
	if max > 0 && n > max {
		return status.Errorf(codes.ResourceExhausted, "grpc: received message larger than max (%d vs. %d)", n, max)
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		return err
	}
	return proto.Unmarshal(b, m.(proto.Message))
}

// ---- client ----

type ClientConn struct {
	target string
	closed bool
	ctx    context.Context
	cancel context.CancelFunc
}

func Dial(target string, opts ...DialOption) (*ClientConn, error) {
	return DialContext(context.Background(), target, opts...)
}

func DialContext(_ context.Context, target string, opts ...DialOption) (*ClientConn, error) {
	if i := strings.LastIndex(target, "/"); i >= 0 {
		target = target[i+1:]
	}
	ctx, cancel := context.WithCancel(context.Background())
	return &ClientConn{target: target, ctx: ctx, cancel: cancel}, nil
}

func NewClient(target string, opts ...DialOption) (*ClientConn, error) { return Dial(target, opts...) }

func (c *ClientConn) Target() string { return c.target }

func (c *ClientConn) Close() error {
	if c.closed {
		return ogrpc.ErrClientConnClosing
	}
	c.closed = true
	c.cancel()
	return nil
}

func toStatus(ctx context.Context, err error) error {
	if err == nil || err == io.EOF {
		return err
	}
	if ctx.Err() != nil {
		return status.FromContextError(ctx.Err()).Err()
	}
	if errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded) {
		return status.FromContextError(err).Err()
	}
	if s, ok := status.FromError(err); ok {
		return s.Err()
	}
	return status.Error(codes.Unavailable, err.Error())
}

func (c *ClientConn) Invoke(ctx context.Context, method string, args, reply any, opts ...ogrpc.CallOption) error {
	cs, err := c.newStream(ctx, method)
	if err != nil {
		return err
	}
	defer cs.cancel()
	if err := cs.SendMsg(args); err != nil && err != io.EOF {
		return err
	}
	cs.CloseSend()
	err = cs.RecvMsg(reply)
	if err == io.EOF {
		return status.Error(codes.Internal, "cardinality violation")
	}
	if err != nil {
		return err
	}
	// wait for the status
	err = cs.RecvMsg(nil)
	if err == io.EOF {
		return nil
	}
	return err
}

func (c *ClientConn) NewStream(ctx context.Context, desc *ogrpc.StreamDesc, method string, opts ...ogrpc.CallOption) (ogrpc.ClientStream, error) {
	return c.newStream(ctx, method)
}

type clientStream struct {
	cc      *ClientConn
	ctx     context.Context
	cancel  context.CancelFunc
	method  string
	out     *simnet.Pipe
	resp    *ohttp.Response
	rerr    error
	got     chan struct{}
	done    bool
	final   error
	closedS bool
}

func (c *ClientConn) newStream(ctx context.Context, method string) (*clientStream, error) {
	sim.Y()
	if c.closed {
		return nil, ogrpc.ErrClientConnClosing
	}
	if err := ctx.Err(); err != nil {
		return nil, status.FromContextError(err).Err()
	}
	host, port, err := net.SplitHostPort(c.target)
	if err != nil || host == "" || port == "" {
		return nil, status.Errorf(codes.Unavailable, "connection error: desc = \"transport: Error while dialing: dial tcp: %q: missing address\"", c.target)
	}
	sctx, cancel := context.WithCancel(ctx)
	cs := &clientStream{cc: c, ctx: sctx, cancel: cancel, method: method, out: simnet.NewPipe(), got: make(chan struct{})}
	// closing the connection ends its streams
	sim.GoNamed("grpc "+method, func() {
		i, _, _ := sim.Select(false, sim.RecvCase(c.ctx.Done()), sim.RecvCase(sctx.Done()))
		if i == 0 {
			cancel()
		}
	})
	u := &url.URL{Scheme: "http", Host: c.target, Path: method}
	req := (&ohttp.Request{Method: "POST", URL: u, Host: c.target, Header: ohttp.Header{}, Body: &outBody{cs.out}, ContentLength: -1}).WithContext(sctx)
	req.Header.Set("Content-Type", "application/grpc")
	if d, ok := ctx.Deadline(); ok {
		req.Header.Set("Grpc-Timeout", strconv.FormatInt(int64(time.Until(d)), 10))
	}
	sim.GoNamed("grpc "+method, func() {
		resp, err := (&simhttp.Transport{H2: true}).RoundTrip(req)
		cs.resp, cs.rerr = resp, err
		if err != nil {
			cs.out.CloseRead(io.EOF)
		}
		close(cs.got)
	})
	return cs, nil
}

type outBody struct{ p *simnet.Pipe }

func (b *outBody) Read(p []byte) (int, error) { return b.p.Read(p) }
func (b *outBody) Close() error               { b.p.CloseRead(io.EOF); return nil }

func (s *clientStream) Header() (metadata.MD, error) { return metadata.MD{}, nil }
func (s *clientStream) Trailer() metadata.MD         { return metadata.MD{} }
func (s *clientStream) Context() context.Context     { return s.ctx }

func (s *clientStream) CloseSend() error {
	if !s.closedS {
		s.closedS = true
		s.out.CloseWrite(nil)
	}
	return nil
}

func (s *clientStream) SendMsg(m any) error {
	if s.closedS {
		return status.Error(codes.Internal, "SendMsg called after CloseSend")
	}
	if s.done {
		return io.EOF
	}
	err := writeFrame(s.out, m)
	if err == nil {
		return nil
	}
	if _, ok := status.FromError(err); ok && err != io.EOF {
		return err
	}
	return io.EOF
}

func (s *clientStream) finish(err error) error {
	s.done = true
	s.final = err
	s.out.CloseRead(io.EOF)
	s.cancel()
	return err
}

func (s *clientStream) RecvMsg(m any) error {
	if s.done {
		return s.final
	}
	if i, _, _ := sim.Select(false, sim.RecvCase(s.got), sim.RecvCase(s.ctx.Done())); i == 1 {
		// a response may already be there
		select {
		case <-s.got:
		default:
			return s.finish(toStatus(s.ctx, s.ctx.Err()))
		}
	}
	if s.rerr != nil {
		return s.finish(toStatus(s.ctx, s.rerr))
	}
	if s.resp.StatusCode != 200 {
		io.Copy(io.Discard, s.resp.Body)
		s.resp.Body.Close()
		return s.finish(status.Errorf(codes.Unknown, "unexpected HTTP status code received from server: %d", s.resp.StatusCode))
	}
	var err error
	if m == nil {
		var b [1]byte
		_, err = io.ReadFull(s.resp.Body, b[:])
		if err == nil {
			err = status.Error(codes.Internal, "cardinality violation")
		}
	} else {
		err = readFrame(s.resp.Body, m, 4<<20)
	}
	if err == nil {
		return nil
	}
	if err != io.EOF {
		s.resp.Body.Close()
		return s.finish(toStatus(s.ctx, err))
	}
	s.resp.Body.Close()
	t := s.resp.Trailer
	c := t.Get("Grpc-Status")
	if c == "" {
		return s.finish(status.Error(codes.Unavailable, "error reading from server: EOF"))
	}
	code, _ := strconv.Atoi(c)
	if code == 0 {
		return s.finish(io.EOF)
	}
	return s.finish(status.Error(codes.Code(code), t.Get("Grpc-Message")))
}

// ---- server ----

type Server struct {
	unary    []ogrpc.UnaryServerInterceptor
	stream   []ogrpc.StreamServerInterceptor
	services map[string]*service
	maxRecv  int
	stopped  bool
	drain    bool
	conns    map[*serverStream]bool
	idle     sim.WaitList
}

type service struct {
	impl    any
	methods map[string]*ogrpc.MethodDesc
	streams map[string]*ogrpc.StreamDesc
}

func NewServer(opts ...ServerOption) *Server {
	s := &Server{services: map[string]*service{}, maxRecv: 4 << 20, conns: map[*serverStream]bool{}}
	for _, o := range opts {
		o.apply(s)
	}
	return s
}

func (s *Server) RegisterService(sd *ogrpc.ServiceDesc, ss any) {
	sv := &service{impl: ss, methods: map[string]*ogrpc.MethodDesc{}, streams: map[string]*ogrpc.StreamDesc{}}
	for i := range sd.Methods {
		sv.methods[sd.Methods[i].MethodName] = &sd.Methods[i]
	}
	for i := range sd.Streams {
		sv.streams[sd.Streams[i].StreamName] = &sd.Streams[i]
	}
	s.services[sd.ServiceName] = sv
}

func (s *Server) GetServiceInfo() map[string]ogrpc.ServiceInfo { return nil }

func (s *Server) Serve(net.Listener) error { return errors.New("simgrpc: Serve is not simulated") }

func (s *Server) wait() {
	for len(s.conns) > 0 {
		s.idle.Wait()
	}
}

// GracefulStop behaves like grpc 1.61: transports that came in through
// ServeHTTP cannot be drained.
func (s *Server) GracefulStop() {
	sim.Y()
	if s.stopped {
		return
	}
	if !s.drain {
		if len(s.conns) > 0 {
			panic("Drain() is not implemented")
		}
		s.drain = true
	}
	s.wait()
	s.stopped = true
}

func (s *Server) Stop() {
	sim.Y()
	if s.stopped {
		return
	}
	for st := range s.conns {
		st.cancel()
	}
	s.wait()
	s.stopped = true
}

type serverStream struct {
	ctx    context.Context
	cancel context.CancelFunc
	w      ohttp.ResponseWriter
	r      *ohttp.Request
	max    int
}

func (s *serverStream) SetHeader(metadata.MD) error  { return nil }
func (s *serverStream) SendHeader(metadata.MD) error { return nil }
func (s *serverStream) SetTrailer(metadata.MD)       {}
func (s *serverStream) Context() context.Context     { return s.ctx }

func (s *serverStream) SendMsg(m any) error {
	if err := s.ctx.Err(); err != nil {
		return status.FromContextError(err).Err()
	}
	if err := writeFrame(s.w, m); err != nil {
		if _, ok := status.FromError(err); ok {
			return err
		}
		return status.Error(codes.Unavailable, err.Error())
	}
	s.w.(ohttp.Flusher).Flush()
	return nil
}

func (s *serverStream) RecvMsg(m any) error {
	err := readFrame(s.r.Body, m, s.max)
	if err == nil || err == io.EOF {
		return err
	}
	if s.ctx.Err() != nil {
		return status.FromContextError(s.ctx.Err()).Err()
	}
	if _, ok := status.FromError(err); ok {
		return err
	}
	return status.Error(codes.Canceled, err.Error())
}

func (s *Server) ServeHTTP(w ohttp.ResponseWriter, r *ohttp.Request) {
	if s.stopped {
		panic(ohttp.ErrAbortHandler)
	}
	if s.drain {
		panic("Drain() is not implemented")
	}
	ctx, cancel := context.WithCancel(r.Context())
	if t := r.Header.Get("Grpc-Timeout"); t != "" {
		if d, err := strconv.ParseInt(t, 10, 64); err == nil {
			ctx, cancel = context.WithTimeout(ctx, time.Duration(d))
		}
	}
	defer cancel()
	st := &serverStream{ctx: ctx, cancel: cancel, w: w, r: r, max: s.maxRecv}
	s.conns[st] = true
	defer func() {
		delete(s.conns, st)
		if len(s.conns) == 0 {
			s.idle.WakeAll()
		}
	}()
	w.Header().Set("Content-Type", "application/grpc")
	fin := make(chan error, 1)
	// grpc runs handlers on goroutines of their own: a panic there is fatal
	sim.GoOn(sim.CurNode(), "rpc "+r.URL.Path, func() { fin <- s.handle(st, r.URL.Path) })
	// the transport dies with the connection even if the handler goes on
	var err error
	i, v, _ := sim.Select(false, sim.RecvCase(fin), sim.RecvCase(ctx.Done()))
	if i == 0 {
		err, _ = v.(error)
	} else {
		err = status.FromContextError(ctx.Err()).Err()
	}
	code, msg := codes.OK, ""
	if err != nil {
		sts, ok := status.FromError(err)
		if !ok {
			sts = status.FromContextError(err)
		}
		code, msg = sts.Code(), sts.Message()
	}
	w.Header().Set(ohttp.TrailerPrefix+"Grpc-Status", strconv.Itoa(int(code)))
	w.Header().Set(ohttp.TrailerPrefix+"Grpc-Message", msg)
}

func (s *Server) handle(st *serverStream, path string) error {
	p := strings.TrimPrefix(path, "/")
	i := strings.LastIndex(p, "/")
	if i < 0 {
		return status.Errorf(codes.Unimplemented, "malformed method name: %q", path)
	}
	sv := s.services[p[:i]]
	if sv == nil {
		return status.Errorf(codes.Unimplemented, "unknown service %v", p[:i])
	}
	if md := sv.methods[p[i+1:]]; md != nil {
		dec := func(m any) error {
			if err := readFrame(st.r.Body, m, st.max); err != nil {
				if _, ok := status.FromError(err); ok {
					return err
				}
				return status.Errorf(codes.Internal, "grpc: error unmarshalling request: %v", err)
			}
			return nil
		}
		var ic ogrpc.UnaryServerInterceptor
		if len(s.unary) > 0 {
			ic = chainUnary(s.unary)
		}
		resp, err := md.Handler(sv.impl, st.ctx, dec, ic)
		if err != nil {
			return err
		}
		return st.SendMsg(resp)
	}
	if sd := sv.streams[p[i+1:]]; sd != nil {
		info := &ogrpc.StreamServerInfo{FullMethod: path, IsClientStream: sd.ClientStreams, IsServerStream: sd.ServerStreams}
		if len(s.stream) == 0 {
			return sd.Handler(sv.impl, st)
		}
		return chainStream(s.stream)(sv.impl, st, info, sd.Handler)
	}
	return status.Errorf(codes.Unimplemented, "unknown method %v for service %v", p[i+1:], p[:i])
}

func chainUnary(is []ogrpc.UnaryServerInterceptor) ogrpc.UnaryServerInterceptor {
	return func(ctx context.Context, req any, info *ogrpc.UnaryServerInfo, h ogrpc.UnaryHandler) (any, error) {
		var next func(k int) ogrpc.UnaryHandler
		next = func(k int) ogrpc.UnaryHandler {
			if k == len(is) {
				return h
			}
			return func(ctx context.Context, req any) (any, error) { return is[k](ctx, req, info, next(k+1)) }
		}
		return next(0)(ctx, req)
	}
}

func chainStream(is []ogrpc.StreamServerInterceptor) ogrpc.StreamServerInterceptor {
	return func(srv any, ss ogrpc.ServerStream, info *ogrpc.StreamServerInfo, h ogrpc.StreamHandler) error {
		var next func(k int) ogrpc.StreamHandler
		next = func(k int) ogrpc.StreamHandler {
			if k == len(is) {
				return h
			}
			return func(srv any, ss ogrpc.ServerStream) error { return is[k](srv, ss, info, next(k+1)) }
		}
		return next(0)(srv, ss)
	}
}

func init() { _ = fmt.Sprint }
