package kit

import (
	"syscall"
	"unsafe"
)

// Guarded is a float32 array whose end (or start) touches an inaccessible page.
// The slack on the other side of the array holds canaries.
type Guarded struct {
	A      []float32
	region []byte
	slack  []float32
}

const canary = float32(-7.7777e29)

// NewGuarded maps n floats flush with an inaccessible page after (atEnd) or before them.
func NewGuarded(n int, atEnd bool) *Guarded {
	const pg = 4096
	body := (n*4 + pg - 1) / pg * pg
	if body == 0 {
		body = pg
	}
	m, err := syscall.Mmap(-1, 0, body+2*pg, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	if err := syscall.Mprotect(m[:pg], syscall.PROT_NONE); err != nil {
		panic(err)
	}
	if err := syscall.Mprotect(m[pg+body:], syscall.PROT_NONE); err != nil {
		panic(err)
	}
	all := unsafe.Slice((*float32)(unsafe.Pointer(&m[pg])), body/4)
	g := &Guarded{region: m}
	if atEnd {
		g.A, g.slack = all[len(all)-n:len(all):len(all)], all[:len(all)-n]
	} else {
		g.A, g.slack = all[:n:n], all[n:]
	}
	for i := range g.slack {
		g.slack[i] = canary
	}
	return g
}

// Intact tells whether nothing was written next to the array.
func (g *Guarded) Intact() bool {
	for _, v := range g.slack {
		if v != canary {
			return false
		}
	}
	return true
}

func (g *Guarded) Free() { syscall.Munmap(g.region) }
