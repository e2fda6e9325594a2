package rand

import "vsim/gs/simrt"

func r() *simrt.Rng { return simrt.W.RandRng }

func Int() int { return int(r().U64() >> 1) }
func IntN(n int) int {
	if n <= 0 {
		panic("invalid argument to IntN")
	}
	return r().N(n)
}
func Int32() int32            { return int32(r().U64() >> 33) }
func Int32N(n int32) int32    { return int32(IntN(int(n))) }
func Int64() int64            { return int64(r().U64() >> 1) }
func Int64N(n int64) int64    { return int64(IntN(int(n))) }
func Uint() uint              { return uint(r().U64()) }
func Uint32() uint32          { return uint32(r().U64() >> 32) }
func Uint64() uint64          { return r().U64() }
func Uint32N(n uint32) uint32 { return uint32(IntN(int(n))) }
func Uint64N(n uint64) uint64 { return uint64(IntN(int(n))) }
func Float64() float64        { return float64(r().U64()>>11) / (1 << 53) }
func Float32() float32        { return float32(r().U64()>>40) / (1 << 24) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r().N(i+1))
	}
}
func N[T ~int | ~int64 | ~int32 | ~uint | ~uint32 | ~uint64](n T) T { return T(r().N(int(n))) }
