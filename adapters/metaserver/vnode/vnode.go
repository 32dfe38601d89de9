// Package vnode starts the server the way its command does.
package vnode

import (
	"metaserver/config"
	"metaserver/internal/app"
)

func Run(path string) {
	cfg := config.ReadConfigFrom(path)
	app.Run(cfg)
}
