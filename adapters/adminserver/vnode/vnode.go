// Package vnode starts the server the way its command does.
package vnode

import (
	"adminserver/config"
	"adminserver/internal/app"
	"adminserver/internal/usecase/pool"
)

func Run(path string) {
	cfg := config.ReadConfigFrom(path)
	app.Run(&cfg)
}

// Services is what this server knows of the servers of a service.
func Services(name string) (map[string]string, []string) {
	if pool.Discovery == nil {
		return nil, nil
	}
	return pool.Discovery.GetServiceMapping(name), pool.Discovery.GetServices(name)
}

// Masters are those of them which it takes for masters.
func Masters(name string) (l []string) {
	if pool.Discovery == nil {
		return nil
	}
	for _, v := range pool.Discovery.GetServiceMappingWith(name, true) {
		l = append(l, v)
	}
	return
}
