// Package vrand replaces the global source of math/rand by a fixed one.
package vrand

import "vrt"

var ep *vrt.Exec
var s uint64

func next() uint64 {
	if ep != vrt.X {
		ep = vrt.X
		s = 1
	}
	s += 0x9e3779b97f4a7c15
	return vrt.Mix(s, 0x7a4d)
}

func Int() int         { return int(next() >> 1) }
func Int63() int64     { return int64(next() >> 1) }
func Int31() int32     { return int32(next() >> 33) }
func Uint32() uint32   { return uint32(next()) }
func Uint64() uint64   { return next() }
func Float64() float64 { return float64(next()>>11) / (1 << 53) }
func Float32() float32 { return float32(next()>>40) / (1 << 24) }
func Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return int64(next()>>1) % n
}
func Intn(n int) int       { return int(Int63n(int64(n))) }
func Int31n(n int32) int32 { return int32(Int63n(int64(n))) }
func Perm(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	Shuffle(n, func(i, j int) { r[i], r[j] = r[j], r[i] })
	return r
}
func Shuffle(n int, f func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		f(i, Intn(i+1))
	}
}
func Seed(int64) {}

// math/rand/v2
func Int64() int64            { return int64(next() >> 1) }
func Int32() int32            { return int32(next() >> 33) }
func IntN(n int) int          { return int(Int63n(int64(n))) }
func Int64N(n int64) int64    { return Int63n(n) }
func Int32N(n int32) int32    { return int32(Int63n(int64(n))) }
func Uint64N(n uint64) uint64 { return next() % n }
func Uint32N(n uint32) uint32 { return uint32(next() % uint64(n)) }
func UintN(n uint) uint       { return uint(next() % uint64(n)) }
func Uint() uint              { return uint(next()) }
func N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](n T) T {
	return T(Int63n(int64(n)))
}
