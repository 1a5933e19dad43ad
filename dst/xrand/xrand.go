// Package xrand is math/rand's top-level generator under the simulator.
package xrand

import "verif.local/dst/rt"

func u() uint64 {
	if rt.W == nil {
		return 4
	}
	return uint64(rt.W.Net.N(1<<30))<<30 | uint64(rt.W.Net.N(1<<30))
}
func Int() int             { return int(u() & (1<<62 - 1)) }
func Intn(n int) int       { return int(u() % uint64(n)) }
func IntN(n int) int       { return Intn(n) }
func Int63() int64         { return int64(Int()) }
func Int63n(n int64) int64 { return int64(u() % uint64(n)) }
func Int31() int32         { return int32(u() & (1<<31 - 1)) }
func Int31n(n int32) int32 { return int32(u() % uint64(n)) }
func Uint32() uint32       { return uint32(u()) }
func Uint64() uint64       { return u() }
func Float64() float64     { return float64(u()%(1<<53)) / (1 << 53) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}
func Seed(int64) {}

func Int64() int64            { return Int63() }
func Int64N(n int64) int64    { return Int63n(n) }
func Int32() int32            { return Int31() }
func Int32N(n int32) int32    { return Int31n(n) }
func Uint() uint              { return uint(u()) }
func UintN(n uint) uint       { return uint(u() % uint64(n)) }
func Uint32N(n uint32) uint32 { return uint32(u() % uint64(n)) }
func Uint64N(n uint64) uint64 { return u() % n }
func Float32() float32        { return float32(u()%(1<<24)) / (1 << 24) }
func N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	return T(u() % uint64(n))
}
func Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(u())
	}
	return len(b), nil
}
