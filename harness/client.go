package harness

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"time"

	"verifsim/simhttp"
)

// Reply is the outcome of one HTTP request of a simulated client.
type Reply struct {
	Code   int
	Body   []byte
	Header http.Header
	Err    error // transport or body error: the outcome is unknown
}

func (r *Reply) OK() bool { return r.Err == nil && r.Code/100 == 2 }
func (r *Reply) String() string {
	if r.Err != nil {
		return "error " + r.Err.Error()
	}
	return fmt.Sprintf("%d %s", r.Code, trunc(string(r.Body), 200))
}
func (r *Reply) JSON(v any) error { return json.Unmarshal(r.Body, v) }

type reqOpt struct {
	hdr     map[string]string
	timeout time.Duration
	h2      bool
	chunked bool
	body    io.Reader
	abortAt int // cancel the request after that many response bytes
	size    int // Content-Length that is announced
	host    string
}

// errReader is a client that fails while sending.
var errClientGone = errors.New("client gone")

func (w *World) Do(method, addr, path string, body []byte, o reqOpt) *Reply {
	w.Ops++
	if o.timeout == 0 {
		o.timeout = 60 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), o.timeout)
	defer cancel()
	var rd io.Reader
	if o.body != nil {
		rd = o.body
	} else if body != nil {
		rd = bytes.NewReader(body)
		if o.chunked {
			rd = struct{ io.Reader }{rd}
		}
	}
	req, err := http.NewRequestWithContext(ctx, method, "http://"+addr+path, rd)
	if err != nil {
		panic(err)
	}
	for k, v := range o.hdr {
		req.Header.Set(k, v)
	}
	if o.host != "" {
		req.Host = o.host
	}
	if o.size > 0 {
		req.ContentLength = int64(o.size)
	}
	tr := &simhttp.Transport{H2: o.h2}
	resp, err := tr.RoundTrip(req)
	if err != nil {
		return &Reply{Err: err}
	}
	defer resp.Body.Close()
	r := &Reply{Code: resp.StatusCode, Header: resp.Header}
	if o.abortAt > 0 {
		r.Body, r.Err = io.ReadAll(io.LimitReader(resp.Body, int64(o.abortAt)))
		if r.Err == nil && len(r.Body) == o.abortAt {
			r.Err = errClientGone
		}
	} else {
		r.Body, r.Err = io.ReadAll(resp.Body)
	}
	if r.Err != nil {
		w.Logf("body of %s %s: %v after %d bytes", method, path, r.Err, len(r.Body))
	}
	return r
}

func q(kv ...string) string {
	v := url.Values{}
	for i := 0; i+1 < len(kv); i += 2 {
		v.Set(kv[i], kv[i+1])
	}
	if len(v) == 0 {
		return ""
	}
	return "?" + v.Encode()
}

// fill produces recognisable content: n bytes determined by tag.
func fill(tag int64, n int) []byte {
	b := make([]byte, n)
	x := uint64(tag)*0x9e3779b97f4a7c15 + 1
	for i := 0; i < n; i += 8 {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		for k := 0; k < 8 && i+k < n; k++ {
			b[i+k] = byte(x >> (8 * k))
		}
	}
	return b
}
