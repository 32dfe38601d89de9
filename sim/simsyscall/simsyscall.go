// Package simsyscall replaces the file system queries of package syscall.
package simsyscall

import (
	osys "syscall"
	sim "verifsim"
)

// Statfs reports the simulated disk that path lives on.
func Statfs(path string, buf *osys.Statfs_t) error {
	*buf = osys.Statfs_t{Type: 0xEF53, Bsize: 4096, Frsize: 4096, Blocks: 1 << 22, Bfree: 1 << 21, Bavail: 1 << 21, Files: 1 << 20, Ffree: 1 << 19}
	if n := sim.CurNode(); n != nil {
		if f, ok := n.Data["statfs"].(func(string, *osys.Statfs_t)); ok {
			f(path, buf)
		}
	}
	return nil
}

func Stat(path string, st *osys.Stat_t) error {
	err := osys.Stat(path, st)
	st.Dev = 8
	return err
}
