// Package simhclog replaces go-hclog: log output is dropped (the original
// insists on writing to a real file).
package simhclog

import ohclog "github.com/hashicorp/go-hclog"

func New(opts *ohclog.LoggerOptions) ohclog.Logger {
	return ohclog.NewNullLogger()
}
