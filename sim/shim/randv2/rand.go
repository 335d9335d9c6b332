//go:build go1.21

// Package rand replaces math/rand/v2 inside a simulation: the package-level generator is driven by the seed of the run.
package rand

import (
	real "math/rand/v2"

	"github.com/hired/gevulot/zzsim/simrt"
)

type source struct{}

func (source) Uint64() uint64 { return simrt.AppRand() }

var global = real.New(source{})

func ExpFloat64() float64                { return global.ExpFloat64() }
func Float32() float32                   { return global.Float32() }
func Float64() float64                   { return global.Float64() }
func Int() int                           { return global.Int() }
func Int32() int32                       { return global.Int32() }
func Int32N(n int32) int32               { return global.Int32N(n) }
func Int64() int64                       { return global.Int64() }
func Int64N(n int64) int64               { return global.Int64N(n) }
func IntN(n int) int                     { return global.IntN(n) }
func NormFloat64() float64               { return global.NormFloat64() }
func Perm(n int) []int                   { return global.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { global.Shuffle(n, swap) }
func Uint() uint                         { return global.Uint() }
func Uint32() uint32                     { return global.Uint32() }
func Uint32N(n uint32) uint32            { return global.Uint32N(n) }
func Uint64() uint64                     { return global.Uint64() }
func Uint64N(n uint64) uint64            { return global.Uint64N(n) }
func UintN(n uint) uint                  { return global.UintN(n) }

type intType interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

func N[Int intType](n Int) Int {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return Int(global.Uint64N(uint64(n)))
}
