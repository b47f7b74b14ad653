// Package unix stands in for golang.org/x/sys/unix, of which the interpreter of Starlark needs just Mmap.
package unix

import "syscall"

const (
	PROT_READ   = syscall.PROT_READ
	MAP_PRIVATE = syscall.MAP_PRIVATE
	MAP_ANON    = syscall.MAP_ANON
)

// Mmap is the system call.
func Mmap(fd int, offset int64, length int, prot int, flags int) ([]byte, error) {
	return syscall.Mmap(fd, offset, length, prot, flags)
}
