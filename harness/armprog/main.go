// Command armprog holds the routines that have ARM assembly (and their portable companions) behind
// entry points the emulator can call; it is only linked, never run.
package main

import (
	"fmt"

	"github.com/samuel/go-dsp/dsp"
)

//go:noinline
func Ui8toi16(input []byte, output []int16) { dsp.Ui8toi16(input, output) }

//go:noinline
func Ui8toi16b(input, output []byte) { dsp.Ui8toi16b(input, output) }

//go:noinline
func Ui8tof32(input []byte, output []float32) { dsp.Ui8tof32(input, output) }

//go:noinline
func I8tof32(input []byte, output []float32) { dsp.I8tof32(input, output) }

//go:noinline
func Ui8toc64(input []byte, output []complex64) { dsp.Ui8toc64(input, output) }

//go:noinline
func I8toc64(input []int8, output []complex64) { dsp.I8toc64(input, output) }

//go:noinline
func C64toi8(input []complex64, output []int8) { dsp.C64toi8(input, output) }

//go:noinline
func F32toi16(input []float32, output []int16, scale float32) { dsp.F32toi16(input, output, scale) }

//go:noinline
func F32toi16ble(input []float32, output []byte, scale float32) {
	dsp.F32toi16ble(input, output, scale)
}

//go:noinline
func I16ToBLE(input []int16, output []byte) { dsp.I16ToBLE(input, output) }

//go:noinline
func I16bleToF64(input []byte, output []float64, scale float64) {
	dsp.I16bleToF64(input, output, scale)
}

//go:noinline
func I16bleToF32(input []byte, output []float32, scale float32) {
	dsp.I16bleToF32(input, output, scale)
}

//go:noinline
func I32bleToF32(input []byte, output []float32, scale float32) {
	dsp.I32bleToF32(input, output, scale)
}

//go:noinline
func F32Tof32ble(input []float32, output []byte) { dsp.F32Tof32ble(input, output) }

//go:noinline
func VMulC64xF32(input, output []complex64, mul []float32) { dsp.VMulC64xF32(input, output, mul) }

//go:noinline
func VMulC64(input, output, mul []complex64) { dsp.VMulC64(input, output, mul) }

//go:noinline
func VAddF32(input, output []float32) { dsp.VAddF32(input, output) }

//go:noinline
func VAddC64(input, output []complex64) { dsp.VAddC64(input, output) }

//go:noinline
func VScaleC64(input, output []complex64, scale float32) { dsp.VScaleC64(input, output, scale) }

//go:noinline
func VScaleF32(input, output []float32, scale float32) { dsp.VScaleF32(input, output, scale) }

//go:noinline
func VAbsC64(input []complex64, output []float32) { dsp.VAbsC64(input, output) }

//go:noinline
func VMaxF32(input []float32) float32 { return dsp.VMaxF32(input) }

//go:noinline
func VMinF32(input []float32) float32 { return dsp.VMinF32(input) }

//go:noinline
func FastAtan2(y, x float32) float32 { return dsp.FastAtan2(y, x) }

//go:noinline
func FastAtan2_2(y, x float32) float32 { return dsp.FastAtan2_2(y, x) }

// Filter states live in memory the caller provides: Size and Init functions describe and prepare it.

//go:noinline
func FMDemod(fi *dsp.FMDemodFilter, input []complex64, output []float32) int {
	return fi.Demodulate(input, output)
}

//go:noinline
func DownsampleInit(fi *dsp.LowPassDownsampleComplexFilter, d int) { fi.Downsample = d }

//go:noinline
func Downsample(fi *dsp.LowPassDownsampleComplexFilter, s []complex64) []complex64 {
	return fi.Filter(s)
}

//go:noinline
func RationalInit(fi *dsp.LowPassDownsampleRationalFilter, fast, slow int) {
	fi.Fast, fi.Slow = fast, slow
}

//go:noinline
func Rational(fi *dsp.LowPassDownsampleRationalFilter, s []float32) []float32 { return fi.Filter(s) }

//go:noinline
func Rotate90(fi *dsp.Rotate90Filter, s []complex64) []complex64 { return fi.Filter(s) }

//go:noinline
func I32Rotate90(fi *dsp.I32Rotate90Filter, s []int32) []int32 { return fi.Filter(s) }

var keep = []any{
	Ui8toi16, Ui8toi16b, Ui8tof32, I8tof32, Ui8toc64, I8toc64, C64toi8, F32toi16, F32toi16ble, I16ToBLE, I16bleToF64, I16bleToF32,
	I32bleToF32, F32Tof32ble, VMulC64xF32, VMulC64, VAddF32, VAddC64, VScaleC64, VScaleF32, VAbsC64, VMaxF32, VMinF32, FastAtan2,
	FastAtan2_2, FMDemod, DownsampleInit, Downsample, RationalInit, Rational, Rotate90, I32Rotate90,
}

func main() { fmt.Println(len(keep)) }
