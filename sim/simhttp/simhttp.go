// Package simhttp replaces the networked parts of net/http: servers and
// transports of simulated processes talk over simnet.
package simhttp

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	ohttp "net/http"
	"net/url"
	"strconv"
	"strings"
	"syscall"
	"time"
	sim "verifsim"
	"verifsim/simnet"

	"crypto/tls"
	"log"
)

// Server is http.Server on the simulated network.
type Server struct {
	Addr                         string
	Handler                      ohttp.Handler
	DisableGeneralOptionsHandler bool
	TLSConfig                    *tls.Config
	ReadTimeout                  time.Duration
	ReadHeaderTimeout            time.Duration
	WriteTimeout                 time.Duration
	IdleTimeout                  time.Duration
	MaxHeaderBytes               int
	TLSNextProto                 map[string]func(*ohttp.Server, *tls.Conn, ohttp.Handler)
	ConnState                    func(net.Conn, ohttp.ConnState)
	ErrorLog                     *log.Logger
	BaseContext                  func(net.Listener) context.Context
	ConnContext                  func(ctx context.Context, c net.Conn) context.Context

	node     *sim.Node
	addr     string
	tls      bool
	down     bool
	done     chan struct{}
	active   int
	idle     sim.WaitList
	shutdown []func()
}

func (s *Server) init() {
	if s.done == nil {
		s.done = make(chan struct{})
	}
}

func (s *Server) RegisterOnShutdown(f func()) { s.shutdown = append(s.shutdown, f) }
func (s *Server) SetKeepAlivesEnabled(bool)   {}

func (s *Server) ListenAndServe() error {
	s.init()
	if s.down {
		return ohttp.ErrServerClosed
	}
	_, port, err := net.SplitHostPort(s.Addr)
	if err != nil {
		return err
	}
	s.node = sim.CurNode()
	s.addr = simnet.IP(s.node) + ":" + port
	if err := simnet.N().Listen(s.addr, s); err != nil {
		return err
	}
	sim.Recv(s.done)
	return ohttp.ErrServerClosed
}

func (s *Server) ListenAndServeTLS(cert, key string) error {
	s.tls = true
	return s.ListenAndServe()
}

func (s *Server) close() {
	s.init()
	if !s.down {
		s.down = true
		simnet.N().Unlisten(s.addr, s)
		close(s.done)
	}
}

func (s *Server) Close() error {
	s.close()
	return nil
}

// Shutdown waits for HTTP/1 requests; connections taken over by h2c are not
// known to net/http and are not waited for.
func (s *Server) Shutdown(ctx context.Context) error {
	sim.Y()
	s.close()
	for _, f := range s.shutdown {
		sim.Go(f)
	}
	for s.active > 0 {
		if err := simnet.SleepCtx(ctx, 10*time.Millisecond); err != nil {
			return err
		}
	}
	return nil
}

// Transport is the RoundTripper of every simulated client.
type Transport struct{ H2 bool }

func (t *Transport) CloseIdleConnections() {}

func init() {
	ohttp.DefaultTransport = &Transport{}
}

// Get and friends use the replaced default transport.
func Get(u string) (*ohttp.Response, error) { return ohttp.DefaultClient.Get(u) }
func Post(u, ct string, b io.Reader) (*ohttp.Response, error) {
	return ohttp.DefaultClient.Post(u, ct, b)
}
func Head(u string) (*ohttp.Response, error) { return ohttp.DefaultClient.Head(u) }
func PostForm(u string, d url.Values) (*ohttp.Response, error) {
	return ohttp.DefaultClient.PostForm(u, d)
}

func bodyErr(h2 bool, err error) error {
	if err == nil {
		return nil
	}
	if h2 {
		return fmt.Errorf("http2: stream error: %w", err)
	}
	return io.ErrUnexpectedEOF
}

// lost is how a client sees a connection which went away.
func lost() error {
	if sim.S.Fault.Intn(2) == 0 {
		return io.ErrUnexpectedEOF
	}
	return simnet.Reset("read")
}

// RoundTrip performs one exchange.
func (t *Transport) RoundTrip(req *ohttp.Request) (*ohttp.Response, error) {
	if sim.S == nil || !sim.InTask() {
		return nil, errors.New("simhttp: no simulation")
	}
	n := simnet.N()
	ctx := req.Context()
	fail := func(err error) (*ohttp.Response, error) {
		if req.Body != nil {
			req.Body.Close()
		}
		return nil, err
	}
	host := req.URL.Host
	if req.URL.Port() == "" {
		host = net.JoinHostPort(host, "80")
	}
	addr, sip, err := simnet.Resolve(host)
	if err != nil {
		return fail(err)
	}
	me := sim.CurNode()
	what := req.Method + " " + req.URL.Path
	sim.Logf("http> %s %s%s", req.Method, addr, req.URL.RequestURI())
	if sim.S.Roll("net.refuse", func() string { return simnet.IP(me) + "->" + sip + " " + what }) {
		return fail(simnet.Refused(addr))
	}
	if err := n.Transit(ctx, simnet.IP(me), sip, "dial"); err != nil {
		return fail(err)
	}
	srv, _ := n.Lookup(addr).(*Server)
	if srv == nil || srv.node.Dead {
		return fail(simnet.Refused(addr))
	}
	if srv.node.Stall.After(time.Now()) {
		sim.Probe("net.to-stalled")
	}
	x := n.NewExchange(me, srv.node, sip, what)

	// what the server gets
	sctx, cancel := context.WithCancel(context.Background())
	sreq := &ohttp.Request{
		Method: req.Method, Host: req.URL.Host, RemoteAddr: simnet.IP(me) + ":40000",
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: ohttp.Header{}, ContentLength: req.ContentLength,
	}
	if t.H2 {
		sreq.Proto, sreq.ProtoMajor, sreq.ProtoMinor = "HTTP/2.0", 2, 0
	}
	if req.Host != "" {
		sreq.Host = req.Host
	}
	uri := req.URL.RequestURI()
	sreq.RequestURI = uri
	if sreq.URL, err = url.ParseRequestURI(uri); err != nil {
		return fail(err)
	}
	for k, v := range req.Header {
		sreq.Header[k] = append([]string(nil), v...)
	}
	if req.Header.Get("User-Agent") == "" {
		sreq.Header.Set("User-Agent", "Go-http-client/2.0")
	}
	hasBody := req.Body != nil && req.Body != ohttp.NoBody
	if req.ContentLength == 0 && hasBody {
		sreq.ContentLength = -1
	}
	if !hasBody {
		sreq.ContentLength = 0
	}
	if sreq.ContentLength > 0 {
		sreq.Header.Set("Content-Length", strconv.FormatInt(sreq.ContentLength, 10))
	}
	if hasBody {
		sreq.Body = &srvBody{x: x, h2: t.H2, want: sreq.ContentLength}
	} else {
		x.Req.CloseWrite(nil)
		sreq.Body = ohttp.NoBody
	}
	*sreq = *sreq.WithContext(sctx)

	dropResp := sim.S.Roll("net.resploss", func() string { return simnet.IP(me) + "->" + sip + " " + what })
	if hasBody && sim.S.Roll("net.reqcut", func() string { return simnet.IP(me) + "->" + sip + " " + what }) {
		max := req.ContentLength
		if max <= 0 {
			max = 16 << 10
		}
		x.Req.Limit = sim.S.Fault.Int63n(max + 1)
		x.Req.OnLimit = func() { x.Break(simnet.Reset("write")) }
	}

	respCh := make(chan *respHead, 1)
	w := &respWriter{x: x, h: ohttp.Header{}, head: respCh, method: req.Method, h2: t.H2, cl: -1}
	x.OnBreak(func(err error) {
		cancel()
		select {
		case respCh <- &respHead{err: err}:
		default:
		}
	})
	if sim.S.Roll("net.respcut", func() string { return simnet.IP(me) + "->" + sip + " " + what }) {
		x.Resp.Limit = sim.S.Fault.Int63n(64 << 10)
		if sim.S.Fault.Intn(2) == 0 {
			x.Resp.Limit = sim.S.Fault.Int63n(512)
		}
		cause := lost()
		x.Resp.OnLimit = func() { x.Break(cause) }
	}
	// HTTP/2 connections of an h2c server have been taken over from net/http
	counted := !t.H2
	if counted {
		srv.active++
	}
	if n.Seen != nil {
		n.Seen(simnet.IP(me), what)
	}
	sim.GoOn(srv.node, "http "+what, func() {
		defer func() {
			if counted {
				srv.active--
				counted = false
			}
			cancel()
		}()
		handler := srv.Handler
		if handler == nil {
			handler = ohttp.DefaultServeMux
		}
		var panicked any
		func() {
			defer func() {
				if r := recover(); r != nil {
					panicked = r
				}
			}()
			handler.ServeHTTP(w, sreq)
		}()
		if panicked != nil {
			sim.Logf("handler panic: %v", panicked)
			sim.Probe("http.handler-panic")
			x.Break(simnet.Reset("handler panic"))
			return
		}
		w.finish(dropResp)
		if n.Killable != nil && n.Killable(srv.node, what) && sim.S.Roll("net.crash", func() string { return sip + " after " + what }) {
			node := srv.node
			after := sim.S.Between(0, 4*time.Millisecond)
			sim.GoOn(nil, "crash", func() {
				sim.Sleep(after)
				node.Kill()
			})
		}
		// a handler that did not read its request: the peer is told to stop
		x.Req.CloseRead(errServerStopped)
	})
	// the request body
	if hasBody {
		sim.GoNamed("body "+what, func() {
			err := pump(x, req)
			if err != nil {
				x.Req.CloseWrite(err)
				if !errors.Is(err, errServerStopped) {
					// a client that fails to send its body resets the stream
					x.Break(err)
				}
			} else {
				x.Req.CloseWrite(nil)
			}
		})
	} else if req.Body != nil {
		req.Body.Close()
	}
	// wait for the response
	var h *respHead
	i, v, _ := sim.Select(false, sim.RecvCase(respCh), sim.RecvCase(ctx.Done()))
	if i == 1 {
		x.Break(ctx.Err())
		return nil, ctx.Err()
	}
	h = v.(*respHead)
	if h.err != nil {
		x.Done()
		if (errors.Is(h.err, syscall.ECONNRESET) || h.err == io.ErrUnexpectedEOF) && sim.S.Fault.Intn(3) == 0 {
			// closed before the first byte of the response
			return nil, io.EOF
		}
		return nil, h.err
	}
	if err := n.Transit(ctx, sip, simnet.IP(me), "read"); err != nil {
		x.Break(err)
		return nil, err
	}
	if err := x.Broken(); err != nil && h.cl != 0 {
		// the reset overtook the response
		if sim.S.Rng.Intn(2) == 0 {
			return nil, err
		}
	}
	resp := &ohttp.Response{
		Status: fmt.Sprintf("%d %s", h.status, ohttp.StatusText(h.status)), StatusCode: h.status,
		Proto: sreq.Proto, ProtoMajor: sreq.ProtoMajor, ProtoMinor: sreq.ProtoMinor,
		Header: h.header, ContentLength: h.cl, Request: req, Trailer: w.trailer,
	}
	if h.nobody {
		resp.Body = ohttp.NoBody
		x.Resp.CloseRead(simnet.ErrCanceled)
		if req.Method == "HEAD" {
			if c, e := strconv.ParseInt(h.header.Get("Content-Length"), 10, 64); e == nil {
				resp.ContentLength = c
			}
		}
	} else {
		resp.Body = &cliBody{x: x, h2: t.H2, want: h.cl, ctx: ctx, w: w, resp: resp, cancel: cancel}
	}
	if ctx.Done() != nil && !h.nobody {
		fin := make(chan struct{})
		x.OnDone(func() { close(fin) })
		sim.GoNamed("ctx "+what, func() {
			if i, _, _ := sim.Select(false, sim.RecvCase(fin), sim.RecvCase(ctx.Done())); i == 1 {
				x.Break(ctx.Err())
			}
		})
	}
	if h.nobody {
		x.Done()
	}
	sim.Logf("http< %d %s %s", h.status, what, addr)
	return resp, nil
}

var errServerStopped = errors.New("http2: server finished without reading the request body")

// pump sends the request body.
func pump(x *simnet.Exchange, req *ohttp.Request) error {
	defer req.Body.Close()
	buf := make([]byte, 16<<10)
	var sent int64
	for {
		k, err := req.Body.Read(buf)
		if k > 0 {
			if req.ContentLength > 0 && sent+int64(k) > req.ContentLength {
				return errors.New("http2: request body larger than specified content length")
			}
			if e := link(req.Context(), x, x.ClientIP, x.ServerIP); e != nil {
				return e
			}
			if _, e := x.Req.Write(buf[:k]); e != nil {
				return e
			}
			sent += int64(k)
		}
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
		sim.Y()
	}
}

// link waits until the link between a and b lets data through.
func link(ctx context.Context, x *simnet.Exchange, a, b string) error {
	n := simnet.N()
	if !n.Blocked(a, b) {
		return nil
	}
	deadline := time.Now().Add(n.Timeout)
	for n.Blocked(a, b) {
		if x.Broken() != nil {
			return x.Broken()
		}
		if time.Now().After(deadline) {
			return simnet.ErrTimeout("write")
		}
		if err := simnet.SleepCtx(ctx, 200*time.Millisecond); err != nil {
			return err
		}
	}
	return nil
}

type srvBody struct {
	x      *simnet.Exchange
	h2     bool
	want   int64
	got    int64
	closed bool
}

func (b *srvBody) Read(p []byte) (int, error) {
	if b.closed {
		return 0, ohttp.ErrBodyReadAfterClose
	}
	if b.want >= 0 && b.got >= b.want {
		return 0, io.EOF
	}
	n, err := b.x.Req.Read(p)
	b.got += int64(n)
	if err == io.EOF && b.want > 0 && b.got < b.want {
		if b.h2 {
			return n, fmt.Errorf("request declared a Content-Length of %d but only wrote %d bytes", b.want, b.got)
		}
		return n, io.ErrUnexpectedEOF
	}
	if err != nil && err != io.EOF {
		if b.h2 {
			return n, errors.New("stream error: stream ID 1; CANCEL")
		}
		return n, io.ErrUnexpectedEOF
	}
	return n, err
}

func (b *srvBody) Close() error {
	b.closed = true
	return nil
}

type respHead struct {
	err    error
	status int
	header ohttp.Header
	cl     int64
	nobody bool
}

type respWriter struct {
	x       *simnet.Exchange
	h       ohttp.Header
	head    chan *respHead
	method  string
	h2      bool
	status  int
	sentHdr ohttp.Header
	cl      int64 // declared length
	written int64
	buf     bytes.Buffer
	sent    bool
	ended   bool
	trailer ohttp.Header
}

func (w *respWriter) Header() ohttp.Header { return w.h }

func (w *respWriter) WriteHeader(code int) {
	if w.status != 0 {
		return
	}
	if code >= 100 && code <= 199 {
		return
	}
	w.status = code
	w.sentHdr = w.h.Clone()
	if c := w.sentHdr.Get("Content-Length"); c != "" {
		if v, err := strconv.ParseInt(c, 10, 64); err == nil && v >= 0 {
			w.cl = v
		} else {
			w.sentHdr.Del("Content-Length")
		}
	}
}

func bodyAllowed(code int) bool { return code >= 200 && code != 204 && code != 304 }

func (w *respWriter) Write(b []byte) (int, error) {
	sim.Y()
	if w.ended {
		return 0, errors.New("http2: stream closed")
	}
	if w.status == 0 {
		w.WriteHeader(200)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if !bodyAllowed(w.status) {
		return 0, ohttp.ErrBodyNotAllowed
	}
	w.written += int64(len(b))
	if w.cl >= 0 && w.written > w.cl {
		return 0, ohttp.ErrContentLength
	}
	if w.method == "HEAD" {
		return len(b), nil
	}
	if w.buf.Len()+len(b) <= 4096 {
		return w.buf.Write(b)
	}
	if err := w.flush(); err != nil {
		return 0, err
	}
	n, err := w.x.Resp.Write(b)
	return n, err
}

func (w *respWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

func (w *respWriter) sendHead() {
	if w.sent {
		return
	}
	w.sent = true
	h := w.sentHdr
	if bodyAllowed(w.status) && h.Get("Content-Type") == "" && w.written > 0 {
		h.Set("Content-Type", ohttp.DetectContentType(w.buf.Bytes()))
	}
	if h.Get("Date") == "" {
		h.Set("Date", time.Now().UTC().Format(ohttp.TimeFormat))
	}
	select {
	case w.head <- &respHead{status: w.status, header: h.Clone(), cl: w.cl, nobody: w.method == "HEAD" || !bodyAllowed(w.status)}:
	default:
	}
}

func (w *respWriter) flush() error {
	w.sendHead()
	if w.buf.Len() == 0 {
		if w.x.Broken() != nil {
			return w.x.Broken()
		}
		return nil
	}
	b := append([]byte(nil), w.buf.Bytes()...)
	w.buf.Reset()
	_, err := w.x.Resp.Write(b)
	return err
}

func (w *respWriter) Flush() {
	if w.status == 0 {
		w.WriteHeader(200)
	}
	w.flush()
}

func (w *respWriter) FlushError() error {
	if w.status == 0 {
		w.WriteHeader(200)
	}
	return w.flush()
}

func (w *respWriter) CloseNotify() <-chan bool { return make(chan bool, 1) }

func (w *respWriter) finish(drop bool) {
	w.ended = true
	if w.status == 0 {
		w.WriteHeader(200)
	}
	if !w.sent {
		if drop {
			w.x.Break(lost())
			return
		}
		if w.cl < 0 && w.sentHdr.Get("Content-Length") == "" && bodyAllowed(w.status) && w.sentHdr.Get("Trailer") == "" && !w.h2grpc() {
			w.cl = w.written
			if w.method != "HEAD" || w.written > 0 {
				w.sentHdr.Set("Content-Length", strconv.FormatInt(w.written, 10))
			}
		}
	}
	// trailers
	for k, v := range w.h {
		if strings.HasPrefix(k, ohttp.TrailerPrefix) {
			if w.trailer == nil {
				w.trailer = ohttp.Header{}
			}
			w.trailer[strings.TrimPrefix(k, ohttp.TrailerPrefix)] = v
		}
	}
	w.flush()
	if w.cl >= 0 && w.written < w.cl && w.method != "HEAD" && bodyAllowed(w.status) {
		w.x.Resp.CloseWrite(io.ErrUnexpectedEOF)
		return
	}
	w.x.Resp.CloseWrite(nil)
}

func (w *respWriter) h2grpc() bool { return w.h2 && w.h.Get("Content-Type") == "application/grpc" }

type cliBody struct {
	x      *simnet.Exchange
	h2     bool
	want   int64
	got    int64
	closed bool
	ctx    context.Context
	w      *respWriter
	resp   *ohttp.Response
	cancel func()
	err    error
}

func (b *cliBody) Read(p []byte) (int, error) {
	if b.closed {
		return 0, errors.New("http: read on closed response body")
	}
	if b.err != nil {
		return 0, b.err
	}
	if e := link(b.ctx, b.x, b.x.ServerIP, b.x.ClientIP); e != nil {
		b.x.Break(e)
		b.err = e
		return 0, e
	}
	n, err := b.x.Resp.Read(p)
	b.got += int64(n)
	if err != nil {
		b.resp.Trailer = b.w.trailer
		if err != io.EOF && b.ctx.Err() != nil {
			err = b.ctx.Err()
		} else if err != io.EOF && !b.h2 {
			err = io.ErrUnexpectedEOF
		}
		b.err = err
		b.x.Done()
	}
	return n, err
}

func (b *cliBody) Close() error {
	if b.closed {
		return nil
	}
	b.closed = true
	sim.Y()
	b.x.Resp.CloseRead(errors.New("http2: stream closed"))
	if b.err == nil && !b.x.Resp.Drained() {
		// the stream is reset, the server's request context ends
		b.cancel()
	}
	b.x.Done()
	return nil
}
