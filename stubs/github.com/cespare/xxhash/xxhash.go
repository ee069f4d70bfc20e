// Package xxhash stands in for github.com/cespare/xxhash (not in this
// sandbox's module cache): the same 64-bit hash function, written plainly.
package xxhash

import "math/bits"

const (
	p1 uint64 = 11400714785074694791
	p2 uint64 = 14029467366897019727
	p3 uint64 = 1609587929392839161
	p4 uint64 = 9650029242287828579
	p5 uint64 = 2870177450012600261
)

func u64(b []byte) uint64 {
	var x uint64
	for i := 7; i >= 0; i-- {
		x = x<<8 | uint64(b[i])
	}
	return x
}

func u32(b []byte) uint64 {
	return uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24
}

func round(acc, in uint64) uint64 { return bits.RotateLeft64(acc+in*p2, 31) * p1 }

func merge(acc, v uint64) uint64 { return (acc^round(0, v))*p1 + p4 }

// Sum64 hashes b.
func Sum64(b []byte) uint64 {
	n := uint64(len(b))
	h := p5
	if len(b) >= 32 {
		a := p1
		v1, v2, v3, v4 := a+p2, p2, uint64(0), -a
		for len(b) >= 32 {
			v1, v2, v3, v4 = round(v1, u64(b)), round(v2, u64(b[8:])), round(v3, u64(b[16:])), round(v4, u64(b[24:]))
			b = b[32:]
		}
		h = bits.RotateLeft64(v1, 1) + bits.RotateLeft64(v2, 7) + bits.RotateLeft64(v3, 12) + bits.RotateLeft64(v4, 18)
		h = merge(merge(merge(merge(h, v1), v2), v3), v4)
	}
	h += n
	for ; len(b) >= 8; b = b[8:] {
		h = bits.RotateLeft64(h^round(0, u64(b)), 27)*p1 + p4
	}
	if len(b) >= 4 {
		h = bits.RotateLeft64(h^u32(b)*p1, 23)*p2 + p3
		b = b[4:]
	}
	for ; len(b) > 0; b = b[1:] {
		h = bits.RotateLeft64(h^uint64(b[0])*p5, 11) * p1
	}
	h = (h ^ h>>33) * p2
	h = (h ^ h>>29) * p3
	return h ^ h>>32
}

// Sum64String hashes s.
func Sum64String(s string) uint64 { return Sum64([]byte(s)) }
