// Package rand replaces math/rand/v2 in instrumented code: every draw is made
// by the checker.
package rand

import (
	std "math/rand/v2"

	"github.com/kitex-contrib/xds/verifrt/vrt"
)

type Source = std.Source

func Int64() int64            { return int64(vrt.Draw(1 << 63)) }
func Uint32() uint32          { return uint32(vrt.Draw(1 << 32)) }
func Uint64() uint64          { return vrt.Draw(0) }
func Int32() int32            { return int32(vrt.Draw(1 << 31)) }
func Int() int                { return int(vrt.Draw(1 << 63)) }
func Uint() uint              { return uint(vrt.Draw(0)) }
func Int64N(n int64) int64    { ck(n > 0, "Int64N"); return int64(vrt.Draw(uint64(n))) }
func Uint64N(n uint64) uint64 { ck(n > 0, "Uint64N"); return vrt.Draw(n) }
func Int32N(n int32) int32    { ck(n > 0, "Int32N"); return int32(vrt.Draw(uint64(n))) }
func Uint32N(n uint32) uint32 { ck(n > 0, "Uint32N"); return uint32(vrt.Draw(uint64(n))) }
func IntN(n int) int          { ck(n > 0, "IntN"); return int(vrt.Draw(uint64(n))) }
func UintN(n uint) uint       { ck(n > 0, "UintN"); return uint(vrt.Draw(uint64(n))) }
func Float64() float64        { return float64(vrt.Draw(1<<53)) / (1 << 53) }
func Float32() float32        { return float32(vrt.Draw(1<<24)) / (1 << 24) }
func NormFloat64() float64    { return 0 }
func ExpFloat64() float64     { return 1 }

func N[I ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n I) I {
	ck(n > 0, "N")
	return I(vrt.Draw(uint64(n)))
}

func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, IntN(i+1))
	}
}

func Perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	Shuffle(n, func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
}

func ck(ok bool, f string) {
	if !ok {
		panic("invalid argument to " + f)
	}
}

type src struct{}

func (src) Uint64() uint64 { return Uint64() }

func NewPCG(uint64, uint64) Source     { return src{} }
func NewChaCha8(...interface{}) Source { return src{} }

// Rand is a generator; its draws are the checker's too.
type Rand struct{}

func New(Source) *Rand { return &Rand{} }

func (*Rand) Int64() int64                       { return Int64() }
func (*Rand) Uint32() uint32                     { return Uint32() }
func (*Rand) Uint64() uint64                     { return Uint64() }
func (*Rand) Int32() int32                       { return Int32() }
func (*Rand) Int() int                           { return Int() }
func (*Rand) Int64N(n int64) int64               { return Int64N(n) }
func (*Rand) Uint64N(n uint64) uint64            { return Uint64N(n) }
func (*Rand) Int32N(n int32) int32               { return Int32N(n) }
func (*Rand) Uint32N(n uint32) uint32            { return Uint32N(n) }
func (*Rand) IntN(n int) int                     { return IntN(n) }
func (*Rand) Float64() float64                   { return Float64() }
func (*Rand) Float32() float32                   { return Float32() }
func (*Rand) Shuffle(n int, swap func(i, j int)) { Shuffle(n, swap) }
func (*Rand) Perm(n int) []int                   { return Perm(n) }
