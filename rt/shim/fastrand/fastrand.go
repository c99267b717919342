// Package fastrand replaces bytedance/gopkg/lang/fastrand in instrumented code.
package fastrand

import "github.com/kitex-contrib/xds/verifrt/shim/rand"
import "github.com/kitex-contrib/xds/verifrt/vrt"

func Uint64() uint64       { return rand.Uint64() }
func Uint32() uint32       { return rand.Uint32() }
func Int() int             { return rand.Int() }
func Int31() int32         { return rand.Int31() }
func Int63() int64         { return rand.Int63() }
func Int63n(n int64) int64 { ck(n > 0, "Int63n"); return rand.Int63n(n) }
func Int31n(n int32) int32 { ck(n > 0, "Int31n"); return rand.Int31n(n) }
func Intn(n int) int       { ck(n > 0, "Intn"); return rand.Intn(n) }
func Float64() float64     { return rand.Float64() }
func Float32() float32     { return rand.Float32() }
func Uint32n(n uint32) uint32 {
	if n == 0 {
		return 0
	}
	return uint32(vrt.Draw(uint64(n)))
}

func Uint64n(n uint64) uint64            { ck(n > 0, "Uint64n"); return vrt.Draw(n) }
func Read(p []byte) (int, error)         { return rand.Read(p) }
func Shuffle(n int, swap func(i, j int)) { rand.Shuffle(n, swap) }
func Perm(n int) []int                   { return rand.Perm(n) }

func ck(ok bool, f string) {
	if !ok {
		panic("invalid argument to " + f)
	}
}
