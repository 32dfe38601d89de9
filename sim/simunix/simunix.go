// Package simunix replaces golang.org/x/sys/unix in the modules under test:
// the O_DIRECT flag of a simulated file lives in its wrapper.
package simunix

import (
	"syscall"
	"verifsim/simos"

	ounix "golang.org/x/sys/unix"
)

func FcntlInt(fd uintptr, cmd, arg int) (int, error) {
	r, err := ounix.FcntlInt(fd, cmd, arg&^syscall.O_DIRECT)
	if err != nil {
		return r, err
	}
	switch cmd {
	case ounix.F_GETFL:
		if simos.Direct(fd) {
			r |= syscall.O_DIRECT
		}
	case ounix.F_SETFL:
		simos.SetDirect(fd, arg&syscall.O_DIRECT != 0)
	}
	return r, err
}

// Mmap remembers the mappings: those of a crashed process go at the end of the run.
func Mmap(fd int, offset int64, length int, prot int, flags int) ([]byte, error) {
	b, err := ounix.Mmap(fd, offset, length, prot, flags)
	if err == nil {
		simos.Mapped(b)
	}
	return b, err
}

func Munmap(b []byte) error {
	simos.Unmapped(b)
	return ounix.Munmap(b)
}
