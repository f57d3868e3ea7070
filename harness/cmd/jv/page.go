package main

import "syscall"

// page is read-only memory followed by an inaccessible page.
type page struct{ mem []byte }

const pageSize = 4096

func newPage(n int) *page {
	size := (n/pageSize + 2) * pageSize
	b, err := syscall.Mmap(-1, 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		fatal(9, "mmap: %v", err)
	}
	if err := syscall.Mprotect(b[size-pageSize:], syscall.PROT_NONE); err != nil {
		fatal(9, "mprotect: %v", err)
	}
	return &page{b[:size-pageSize]}
}

// put places text at the end of the page and protects it against writing.
func (e *Env) put(text []byte) []byte {
	if e.page == nil || len(e.page.mem) < len(text) {
		n := len(text)
		if n < 64<<10 {
			n = 64 << 10
		}
		e.page = newPage(n)
	}
	m := e.page.mem
	if err := syscall.Mprotect(m, syscall.PROT_READ|syscall.PROT_WRITE); err != nil {
		fatal(9, "mprotect: %v", err)
	}
	at := len(m) - len(text)
	copy(m[at:], text)
	if err := syscall.Mprotect(m, syscall.PROT_READ); err != nil {
		fatal(9, "mprotect: %v", err)
	}
	return m[at:len(m):len(m)]
}

// scribble overwrites what put placed.
func (e *Env) scribble() {
	m := e.page.mem
	if err := syscall.Mprotect(m, syscall.PROT_READ|syscall.PROT_WRITE); err != nil {
		fatal(9, "mprotect: %v", err)
	}
	for i := range m {
		m[i] = '#'
	}
}
