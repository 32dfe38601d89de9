// Package simhttp2 replaces the client side of x/net/http2.
package simhttp2

import (
	"context"
	"crypto/tls"
	"net"
	ohttp "net/http"
	"time"
	"verifsim/simhttp"

	ohttp2 "golang.org/x/net/http2"
)

type Transport struct {
	DialTLSContext             func(ctx context.Context, network, addr string, cfg *tls.Config) (net.Conn, error)
	DialTLS                    func(network, addr string, cfg *tls.Config) (net.Conn, error)
	TLSClientConfig            *tls.Config
	ConnPool                   ohttp2.ClientConnPool
	DisableCompression         bool
	AllowHTTP                  bool
	MaxHeaderListSize          uint32
	MaxReadFrameSize           uint32
	MaxDecoderHeaderTableSize  uint32
	MaxEncoderHeaderTableSize  uint32
	StrictMaxConcurrentStreams bool
	IdleConnTimeout            time.Duration
	ReadIdleTimeout            time.Duration
	PingTimeout                time.Duration
	WriteByteTimeout           time.Duration
	CountError                 func(errType string)
}

func (t *Transport) RoundTrip(r *ohttp.Request) (*ohttp.Response, error) {
	return (&simhttp.Transport{H2: true}).RoundTrip(r)
}

func (t *Transport) CloseIdleConnections() {}
