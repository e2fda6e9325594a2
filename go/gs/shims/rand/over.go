package rand

import "vsim/gs/simrt"

func r() *simrt.Rng { return simrt.W.RandRng }

func Seed(int64) {}
func Int() int   { return int(r().U64() >> 1) }
func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return r().N(n)
}
func Int31() int32         { return int32(r().U64() >> 33) }
func Int31n(n int32) int32 { return int32(Intn(int(n))) }
func Int63() int64         { return int64(r().U64() >> 1) }
func Int63n(n int64) int64 { return int64(Intn(int(n))) }
func Uint32() uint32       { return uint32(r().U64() >> 32) }
func Uint64() uint64       { return r().U64() }
func Float64() float64     { return float64(r().U64()>>11) / (1 << 53) }
func Float32() float32     { return float32(r().U64()>>40) / (1 << 24) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r().N(i+1))
	}
}
func Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(r().U64())
	}
	return len(b), nil
}
