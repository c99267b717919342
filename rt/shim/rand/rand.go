// Package rand replaces math/rand in instrumented code: every draw is made by
// the checker.
package rand

import (
	std "math/rand"

	"github.com/kitex-contrib/xds/verifrt/vrt"
)

type (
	Source   = std.Source
	Source64 = std.Source64
	Zipf     = std.Zipf
)

func Seed(int64)           {}
func Int63() int64         { return int64(vrt.Draw(1 << 63)) }
func Uint32() uint32       { return uint32(vrt.Draw(1 << 32)) }
func Uint64() uint64       { return vrt.Draw(0) }
func Int31() int32         { return int32(vrt.Draw(1 << 31)) }
func Int() int             { return int(vrt.Draw(1 << 63)) }
func Int63n(n int64) int64 { ck(n > 0, "Int63n"); return int64(vrt.Draw(uint64(n))) }
func Int31n(n int32) int32 { ck(n > 0, "Int31n"); return int32(vrt.Draw(uint64(n))) }
func Intn(n int) int       { ck(n > 0, "Intn"); return int(vrt.Draw(uint64(n))) }
func Float64() float64     { return float64(vrt.Draw(1<<53)) / (1 << 53) }
func Float32() float32     { return float32(vrt.Draw(1<<24)) / (1 << 24) }
func NormFloat64() float64 { return 0 }
func ExpFloat64() float64  { return 1 }
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}
func Perm(n int) []int {
	m := make([]int, n)
	for i := 0; i < n; i++ {
		j := Intn(i + 1)
		m[i] = m[j]
		m[j] = i
	}
	return m
}
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(vrt.Draw(256))
	}
	return len(p), nil
}

func ck(ok bool, f string) {
	if !ok {
		panic("invalid argument to " + f)
	}
}

type src struct{}

func (src) Int63() int64   { return Int63() }
func (src) Uint64() uint64 { return Uint64() }
func (src) Seed(int64)     {}

func NewSource(int64) Source { return src{} }

// Rand draws from the checker whatever its source.
type Rand struct{ src Source }

func New(s Source) *Rand { return &Rand{s} }

func (*Rand) Seed(int64)                         {}
func (*Rand) Int63() int64                       { return Int63() }
func (*Rand) Uint32() uint32                     { return Uint32() }
func (*Rand) Uint64() uint64                     { return Uint64() }
func (*Rand) Int31() int32                       { return Int31() }
func (*Rand) Int() int                           { return Int() }
func (*Rand) Int63n(n int64) int64               { return Int63n(n) }
func (*Rand) Int31n(n int32) int32               { return Int31n(n) }
func (*Rand) Intn(n int) int                     { return Intn(n) }
func (*Rand) Float64() float64                   { return Float64() }
func (*Rand) Float32() float32                   { return Float32() }
func (*Rand) NormFloat64() float64               { return NormFloat64() }
func (*Rand) ExpFloat64() float64                { return ExpFloat64() }
func (*Rand) Shuffle(n int, swap func(i, j int)) { Shuffle(n, swap) }
func (*Rand) Perm(n int) []int                   { return Perm(n) }
func (*Rand) Read(p []byte) (int, error)         { return Read(p) }
