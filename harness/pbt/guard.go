package pbt

import (
	"fmt"
	"syscall"
	"unsafe"
)

// Guarded is a block of memory between two inaccessible pages.
type Guarded struct {
	mem  []byte
	page int
	size int // usable bytes between the guard pages
}

// NewGuarded maps size usable bytes (rounded up to pages) between inaccessible pages.
func NewGuarded(size int) *Guarded {
	page := syscall.Getpagesize()
	n := (size + page - 1) / page * page
	mem, err := syscall.Mmap(-1, 0, n+2*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(fmt.Sprintf("VERIF-ERROR mmap: %v", err))
	}
	if err := syscall.Mprotect(mem[:page], syscall.PROT_NONE); err != nil {
		panic(fmt.Sprintf("VERIF-ERROR mprotect: %v", err))
	}
	if err := syscall.Mprotect(mem[page+n:], syscall.PROT_NONE); err != nil {
		panic(fmt.Sprintf("VERIF-ERROR mprotect: %v", err))
	}
	return &Guarded{mem: mem, page: page, size: n}
}

// Size is the number of usable bytes.
func (g *Guarded) Size() int { return g.size }

// All returns the usable bytes.
func (g *Guarded) All() []byte { return g.mem[g.page : g.page+g.size : g.page+g.size] }

// Place fills all usable memory with the canary byte and returns the offset at which n bytes lie so
// that they end gap bytes before the upper guard page (atEnd) or start gap bytes after the lower one.
func (g *Guarded) Place(n, gap int, atEnd bool, canary byte) int {
	b := g.All()
	for i := range b {
		b[i] = canary
	}
	if atEnd {
		return g.size - gap - n
	}
	return gap
}

// CheckCanary reports the first byte outside [off, off+n) that is not the canary, -1 if none.
func (g *Guarded) CheckCanary(off, n int, canary byte) int {
	for i, x := range g.All() {
		if (i < off || i >= off+n) && x != canary {
			return i
		}
	}
	return -1
}

// Slice returns n elements of T at byte offset off of the usable memory.
func Slice[T any](g *Guarded, off, n int) []T {
	if n == 0 {
		// keep a pointer to the position so that even an empty slice points at the guard
		if off >= g.size {
			return nil
		}
	}
	p := unsafe.Pointer(&g.mem[g.page+off])
	return unsafe.Slice((*T)(p), n)
}
