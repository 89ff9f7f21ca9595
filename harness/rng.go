package main

import (
	"hash/fnv"
	"math/rand/v2"
)

// Rand is the only source of randomness: seeded by (VERIF_SEED, property, case).
type Rand struct{ *rand.Rand }

func NewRand(seed uint64, label string, idx uint64) *Rand {
	h := fnv.New64a()
	h.Write([]byte(label))
	return &Rand{rand.New(rand.NewPCG(seed*0x9E3779B97F4A7C15+1, h.Sum64()^(idx*0xD1B54A32D192ED03)))}
}

func (r *Rand) Bool() bool         { return r.Uint64()&1 == 0 }
func (r *Rand) P(pct int) bool     { return r.IntN(100) < pct }
func (r *Rand) Range(a, b int) int { return a + r.IntN(b-a+1) } // inclusive
func (r *Rand) Byte() byte         { return byte(r.Uint64()) }
func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = r.Byte()
	}
	return b
}
func Pick[T any](r *Rand, xs ...T) T { return xs[r.IntN(len(xs))] }

// SkewLen picks lengths around interesting boundaries.
func (r *Rand) SkewLen(max int) int {
	var n int
	switch r.IntN(6) {
	case 0:
		n = r.IntN(4)
	case 1:
		n = r.IntN(20)
	case 2:
		n = Pick(r, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097)
	case 3:
		n = r.IntN(200)
	default:
		n = r.IntN(max + 1)
	}
	if n > max {
		n = r.IntN(max + 1)
	}
	return n
}

// Data produces byte strings of different character.
func (r *Rand) Data(n int) []byte {
	b := make([]byte, n)
	switch r.IntN(7) {
	case 0:
		for i := range b {
			b[i] = r.Byte()
		}
	case 1: // runs
		for i := 0; i < n; {
			c := r.Byte()
			l := Pick(r, 1, 2, 3, r.Range(1, 300))
			for j := 0; j < l && i < n; j++ {
				b[i] = c
				i++
			}
		}
	case 2: // zero heavy
		for i := range b {
			if r.P(20) {
				b[i] = r.Byte()
			}
		}
	case 3: // text
		for i := range b {
			b[i] = byte(Pick(r, 'a', 'b', 'e', 'o', 't', ' ', '\n', byte('A'+r.IntN(26)), byte('a'+r.IntN(26))))
		}
	case 4: // tiny alphabet
		a := r.Byte()
		for i := range b {
			b[i] = a + byte(r.IntN(3))
		}
	case 5: // PDF looking tokens
		i := 0
		for i < n {
			t := Pick(r, "endstream", "endobj", "stream", "\r", "\n", "\r\n", "<<", ">>", "(", ")", "%", "\\", "~>", ">", "z", "\x80", "trailer", "/Name", " ", "\x00", "\xff", "EOF")
			i += copy(b[i:], t)
		}
	default:
		c := r.Byte()
		for i := range b {
			b[i] = c + byte(i)
		}
	}
	if n > 2 && r.P(8) {
		// what may be taken for a mark of some format
		copy(b, Pick(r, "<~", "\xff\xd8\xff", "\x78\x9c", "\x1f\x8b", "\xef\xbb\xbf", "\xfe\xff", "\xff\xfe", "%PDF-", "\x80\x0b", "0x", "#!", "\r\n", "MZ", "PK", "\x89PNG\r\n", "GIF8"))
	}
	return b
}
