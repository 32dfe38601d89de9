// Package simnet is the simulated network: named hosts, links that can be cut
// or slow, and bounded byte pipes that connect simulated processes.
package simnet

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"syscall"
	"time"
	sim "verifsim"
)

// Net is the state of the network of one run.
type Net struct {
	cut       map[string]bool // "a|b" in both directions when blocked
	endpoints map[string]any  // "ip:port" -> listener
	exchanges []*Exchange
	MinDelay  time.Duration
	MaxDelay  time.Duration
	Killable  func(n *sim.Node, what string) bool // which servers may die right after a response to what
	Seen      func(from, what string)             // told about every request that reaches a server
	Timeout   time.Duration                       // how long a peer retransmits before giving up
	waiters   sim.WaitList
	Stats     map[string]int
}

func N() *Net {
	n, _ := sim.S.Data["net"].(*Net)
	if n == nil {
		n = &Net{cut: map[string]bool{}, endpoints: map[string]any{}, MinDelay: 50 * time.Microsecond, MaxDelay: 2 * time.Millisecond, Timeout: 20 * time.Second, Stats: map[string]int{}}
		sim.S.Data["net"] = n
	}
	return n
}

// IP of a simulated process ("harness" clients have their own).
func IP(n *sim.Node) string {
	if n == nil {
		return "10.9.9.9"
	}
	if ip, ok := n.Data["ip"].(string); ok {
		return ip
	}
	return n.Name
}

func key(a, b string) string {
	if a > b {
		a, b = b, a
	}
	return a + "|" + b
}

// Cut blocks all traffic between two hosts, Heal lets it flow again.
func (n *Net) Cut(a, b string) { n.cut[key(a, b)] = true; sim.Logf("net: cut %s - %s", a, b) }
func (n *Net) Heal(a, b string) {
	delete(n.cut, key(a, b))
	sim.Logf("net: heal %s - %s", a, b)
	n.waiters.WakeAll()
}
func (n *Net) HealAll() {
	n.cut = map[string]bool{}
	sim.Logf("net: heal all")
	n.waiters.WakeAll()
}

// Cuts tells how many pairs of hosts are cut off from each other.
func (n *Net) Cuts() int { return len(n.cut) }

func (n *Net) Blocked(a, b string) bool { return a != b && n.cut[key(a, b)] }

// Isolate cuts a host off from all the others given.
func (n *Net) Isolate(a string, others ...string) {
	for _, o := range others {
		if o != a {
			n.cut[key(a, o)] = true
		}
	}
	sim.Logf("net: isolate %s from %v", a, others)
}

// Listen registers a server at ip:port.
func (n *Net) Listen(addr string, srv any) error {
	if n.endpoints[addr] != nil {
		return &net.OpError{Op: "listen", Net: "tcp", Err: syscall.EADDRINUSE}
	}
	n.endpoints[addr] = srv
	sim.Logf("net: listen %s", addr)
	return nil
}

func (n *Net) Unlisten(addr string, srv any) {
	if n.endpoints[addr] == srv {
		delete(n.endpoints, addr)
		sim.Logf("net: unlisten %s", addr)
	}
}

func (n *Net) Lookup(addr string) any { return n.endpoints[addr] }

func (n *Net) Endpoints() []string {
	var r []string
	for k := range n.endpoints {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Drop forgets the listeners of a dead process and breaks its connections.
func (n *Net) Drop(node *sim.Node) {
	ip := IP(node)
	for a := range n.endpoints {
		if strings.HasPrefix(a, ip+":") {
			delete(n.endpoints, a)
		}
	}
	for _, x := range n.live() {
		if x.Client == node || x.Server == node {
			x.Break(&net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET})
		}
	}
}

func (n *Net) live() []*Exchange {
	k := n.exchanges[:0]
	for _, x := range n.exchanges {
		if !x.done {
			k = append(k, x)
		}
	}
	for i := len(k); i < len(n.exchanges); i++ {
		n.exchanges[i] = nil
	}
	n.exchanges = k
	return append([]*Exchange(nil), k...)
}

// Exchange is one request/response between two processes.
type Exchange struct {
	Client, Server     *sim.Node
	ClientIP, ServerIP string
	What               string
	Req, Resp          *Pipe
	done               bool
	onBreak            []func(error)
	onDone             []func()
	broken             error
}

func (n *Net) NewExchange(c, s *sim.Node, sip, what string) *Exchange {
	x := &Exchange{Client: c, Server: s, ClientIP: IP(c), ServerIP: sip, What: what}
	x.Req, x.Resp = NewPipe(), NewPipe()
	n.exchanges = append(n.exchanges, x)
	n.Stats["exchanges"]++
	return x
}

func (x *Exchange) OnBreak(f func(error)) {
	if x.broken != nil {
		f(x.broken)
		return
	}
	x.onBreak = append(x.onBreak, f)
}

// Break is a connection reset: both directions fail.
func (x *Exchange) Break(err error) {
	if x.done || x.broken != nil {
		return
	}
	x.broken = err
	for _, f := range x.onBreak {
		f(err)
	}
	x.Req.Fail(err)
	x.Resp.Fail(err)
	x.Done()
}

func (x *Exchange) Broken() error { return x.broken }
func (x *Exchange) Done() {
	if !x.done {
		x.done = true
		for _, f := range x.onDone {
			f()
		}
	}
}

// OnDone registers f for the end of the exchange (it runs at once if it is over).
func (x *Exchange) OnDone(f func()) {
	if x.done {
		f()
		return
	}
	x.onDone = append(x.onDone, f)
}

type timeoutErr struct{ s string }

func (e *timeoutErr) Error() string   { return e.s }
func (e *timeoutErr) Timeout() bool   { return true }
func (e *timeoutErr) Temporary() bool { return true }

// ErrTimeout is what a peer behind a partition produces in the end.
func ErrTimeout(what string) error {
	return &net.OpError{Op: what, Net: "tcp", Err: &timeoutErr{"i/o timeout"}}
}

// Transit models one message from a to b: latency, and waiting out a cut.
func (n *Net) Transit(ctx context.Context, a, b, what string) error {
	d := n.MinDelay + time.Duration(sim.S.Rng.Int63n(int64(n.MaxDelay-n.MinDelay)+1))
	if sim.S.Roll("net.slow", func() string { return a + "->" + b + " " + what }) {
		d += sim.S.Between(20*time.Millisecond, 3*time.Second)
	}
	if err := SleepCtx(ctx, d); err != nil {
		return err
	}
	if !n.Blocked(a, b) {
		return nil
	}
	n.Stats["blocked"]++
	deadline := time.Now().Add(n.Timeout)
	for n.Blocked(a, b) {
		if time.Now().After(deadline) {
			return ErrTimeout(what)
		}
		if err := SleepCtx(ctx, 200*time.Millisecond); err != nil {
			return err
		}
	}
	return nil
}

// SleepCtx sleeps unless ctx ends first.
func SleepCtx(ctx context.Context, d time.Duration) error {
	if ctx == nil || ctx.Done() == nil {
		sim.Sleep(d)
		return nil
	}
	if err := ctx.Err(); err != nil {
		return err
	}
	t := time.NewTimer(d)
	defer t.Stop()
	i, _, _ := sim.Select(false, sim.RecvCase(t.C), sim.RecvCase(ctx.Done()))
	if i == 1 {
		return ctx.Err()
	}
	return nil
}

// WaitCtx waits on w unless ctx ends.
type Cond struct {
	ch chan struct{}
}

// Pipe is a bounded byte stream between two tasks.
type Pipe struct {
	buf     []byte
	cap     int
	werr    error // set when the writing side is finished: what readers get after the data
	rerr    error // set when the reading side is gone: what writers get
	readers sim.WaitList
	writers sim.WaitList
	Total   int64
	Limit   int64 // break after that many bytes (<0: never)
	OnLimit func()
}

func NewPipe() *Pipe { return &Pipe{cap: 64 << 10, Limit: -1} }

func (p *Pipe) wake() {
	p.readers.WakeAll()
	p.writers.WakeAll()
}

func (p *Pipe) Write(b []byte) (int, error) {
	n := 0
	for len(b) > 0 {
		if p.rerr != nil {
			return n, p.rerr
		}
		if p.werr != nil {
			return n, io.ErrClosedPipe
		}
		room := p.cap - len(p.buf)
		if room <= 0 {
			p.writers.Wait()
			continue
		}
		k := len(b)
		if k > room {
			k = room
		}
		if p.Limit >= 0 && p.Total+int64(k) > p.Limit {
			k = int(p.Limit - p.Total)
			p.buf = append(p.buf, b[:k]...)
			p.Total += int64(k)
			p.Limit = -1
			p.readers.WakeAll()
			if p.OnLimit != nil {
				p.OnLimit()
			}
			continue
		}
		p.buf = append(p.buf, b[:k]...)
		p.Total += int64(k)
		b = b[k:]
		n += k
		p.readers.WakeAll()
		sim.Y()
	}
	if p.rerr != nil {
		return n, p.rerr
	}
	return n, nil
}

func (p *Pipe) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	sim.Y()
	for len(p.buf) == 0 {
		if p.werr != nil {
			return 0, p.werr
		}
		if p.rerr != nil {
			return 0, p.rerr
		}
		p.readers.Wait()
	}
	k := len(p.buf)
	// how a stream is cut into reads is up to the network
	if k > 1 && sim.S.Rng.Intn(4) == 0 {
		k = 1 + sim.S.Rng.Intn(k)
	}
	n := copy(b, p.buf[:k])
	p.buf = append([]byte(nil), p.buf[n:]...)
	p.writers.WakeAll()
	return n, nil
}

// CloseWrite ends the stream; readers see err (io.EOF if nil) after the data.
func (p *Pipe) CloseWrite(err error) {
	if p.werr != nil {
		return
	}
	if err == nil {
		err = io.EOF
	}
	p.werr = err
	p.wake()
}

// CloseRead: nobody reads any more; writers see err.
func (p *Pipe) CloseRead(err error) {
	if p.rerr != nil {
		return
	}
	if err == nil {
		err = io.ErrClosedPipe
	}
	p.rerr = err
	p.buf = nil
	p.wake()
}

// Fail breaks both sides; buffered data is lost.
func (p *Pipe) Fail(err error) {
	if p.werr == nil || len(p.buf) > 0 {
		if p.werr == io.EOF || p.werr == nil {
			p.werr = err
		}
		p.buf = nil
	}
	if p.rerr == nil {
		p.rerr = err
	}
	p.wake()
}

// Drained: the writer ended the stream and everything was read.
func (p *Pipe) Drained() bool { return p.werr == io.EOF && len(p.buf) == 0 }

func (p *Pipe) Finished() bool { return p.werr != nil }

// Refused is a failed connection attempt.
func Refused(addr string) error {
	return &net.OpError{Op: "dial", Net: "tcp", Addr: strAddr(addr), Err: syscall.ECONNREFUSED}
}

type strAddr string

func (s strAddr) Network() string { return "tcp" }
func (s strAddr) String() string  { return string(s) }

// Reset is a broken connection.
func Reset(what string) error {
	return &net.OpError{Op: what, Net: "tcp", Err: syscall.ECONNRESET}
}

// Resolve turns host:port as written by the caller into ip:port.
func Resolve(addr string) (string, string, error) {
	h, p, err := net.SplitHostPort(addr)
	if err != nil {
		return "", "", err
	}
	if h == "" || h == "localhost" || h == "127.0.0.1" || h == "0.0.0.0" {
		h = IP(sim.CurNode())
	}
	return h + ":" + p, h, nil
}

var ErrCanceled = errors.New("stream canceled")

func init() { _ = fmt.Sprint }
