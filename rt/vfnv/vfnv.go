// Package vfnv stands in for hash/fnv: a hash function that is cheap to reason
// about and collides often. What depends on the hash values must hold for
// every hash function.
package vfnv

type Hash struct{ h uint64 }

// Calls counts the hashes begun.
var Calls int

func New64a() *Hash { Calls++; return &Hash{0xcbf29ce484222325} }
func New64() *Hash  { return New64a() }

type Hash32 struct{ Hash }

func New32a() *Hash32 { return &Hash32{*New64a()} }
func New32() *Hash32  { return New32a() }

func (h *Hash) Write(b []byte) (int, error) {
	s := h.h
	for _, c := range b {
		s += uint64(c)
	}
	h.h = s
	return len(b), nil
}
func (h *Hash) Sum64() uint64       { return h.h }
func (h *Hash) Reset()              { Calls++; h.h = 0xcbf29ce484222325 }
func (h *Hash) Size() int           { return 8 }
func (h *Hash) BlockSize() int      { return 1 }
func (h *Hash) Sum(b []byte) []byte { return append(b, byte(h.h)) }
func (h *Hash32) Sum32() uint32     { return uint32(h.h) }
