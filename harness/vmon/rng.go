package main

import (
	"hash/fnv"
	"math"
)

// Rand is a splitmix64 generator. Every case has its own, seeded by (seed, property, case number).
type Rand struct{ s uint64 }

func NewRand(seed uint64, prop string, i int) *Rand {
	h := fnv.New64a()
	h.Write([]byte(prop))
	r := &Rand{seed*0x9E3779B97F4A7C15 ^ h.Sum64() ^ (uint64(i)+1)*0xD1B54A32D192ED03}
	r.U64()
	r.U64()
	return r
}

func (r *Rand) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return z ^ z>>31
}

// Fork gives an independent generator, for another goroutine.
func (r *Rand) Fork() *Rand { return &Rand{r.U64()} }

func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) Bool() bool         { return r.U64()&1 == 1 }
func (r *Rand) P(percent int) bool { return r.Intn(100) < percent }
func (r *Rand) Float() float64     { return float64(r.U64()>>11) / (1 << 53) }
func pick[T any](r *Rand, xs []T) T {
	return xs[r.Intn(len(xs))]
}

func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}

func shuffle[T any](r *Rand, xs []T) {
	for i := len(xs) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		xs[i], xs[j] = xs[j], xs[i]
	}
}

const MaxID = uint64(1) << 53

// interesting ids: the ends of the encodings' ranges
var edgeIDs = []uint64{0, 1, 2, 9, 23, 24, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 1<<24 - 1, 1 << 24,
	1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 40, 1<<52 + 1, 1<<53 - 1, 1 << 53}

// ID returns an id in 0..2^53.
func (r *Rand) ID() uint64 {
	switch r.Intn(4) {
	case 0:
		return pick(r, edgeIDs)
	case 1:
		return uint64(r.Intn(1000)) + 1
	case 2:
		return r.U64()>>(11+uint(r.Intn(50))) + 1
	}
	return r.U64()%MaxID + 1
}

// ID1 returns an id in 1..2^53.
func (r *Rand) ID1() uint64 {
	if id := r.ID(); id > 0 {
		return id
	}
	return 1
}

func (r *Rand) F64() float64 {
	switch r.Intn(5) {
	case 0:
		return pick(r, []float64{0, 1, -1, 0.5, -0.5, math.MaxFloat64, math.SmallestNonzeroFloat64, 1e15, 1e21, 1e-7,
			math.MaxFloat32, 3.141592653589793, 16777217, 1<<53 + 2})
	case 1:
		return float64(int64(r.U64()) >> uint(r.Intn(63)))
	case 2:
		return float64(r.Intn(2000)-1000) / 8
	}
	for {
		f := math.Float64frombits(r.U64())
		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			return f
		}
	}
}
