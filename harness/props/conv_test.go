package props

import (
	"encoding/binary"
	"fmt"
	"math"
	"testing"

	"github.com/samuel/go-dsp/dsp"
	"pgregory.net/rapid"
	"verif/harness/pbt"
)

// place copies v to a random alignment in a larger buffer, so that SIMD code sees unaligned slices.
func place[T any](c *pbt.Case, v []T, label string) []T {
	off := rapid.IntRange(0, 35).Draw(c.T, label+" alignment")
	buf := make([]T, off+len(v)+40)
	copy(buf[off:], v)
	return buf[off : off+len(v) : off+len(v)]
}

// placeRoom is place, and also returns the 20 elements behind the slice, set to mark.
func placeRoom[T any](c *pbt.Case, v []T, mark T, label string) (in, room []T) {
	off := rapid.IntRange(0, 35).Draw(c.T, label+" alignment")
	buf := make([]T, off+len(v)+20)
	copy(buf[off:], v)
	in, room = buf[off:off+len(v)], buf[off+len(v):]
	for i := range room {
		room[i] = mark
	}
	return in, room
}

// outSlice makes a garbage-filled output of n elements at a random alignment.
func outSlice[T any](c *pbt.Case, n int, garbage func(i int) T, label string) []T {
	v := make([]T, n)
	for i := range v {
		v[i] = garbage(i)
	}
	return place(c, v, label)
}

// lens draws (input length, output length) in samples: mostly equal.
func lens(c *pbt.Case, max int) (int, int) {
	n := pbt.Len(c.T, max, "len")
	m := n
	switch rapid.IntRange(0, 5).Draw(c.T, "output length") {
	case 0:
		m = pbt.Len(c.T, max, "outlen")
	case 1:
		m = n + rapid.IntRange(1, 40).Draw(c.T, "extra")
	case 2:
		m = n - rapid.IntRange(0, n).Draw(c.T, "fewer")
	}
	return n, m
}

func varied[T comparable](v []T) bool {
	for _, x := range v {
		if x != v[0] {
			return true
		}
	}
	return false
}

func maxLen() int {
	if pbt.Thorough() {
		return 6000
	}
	return 1500
}

func scaleF32(c *pbt.Case) float32 {
	return rapid.OneOf(
		rapid.SampledFrom([]float32{1, -1, 0, 0.5, 2, 1.0 / 32768, 32767, 1.0 / 3, -0.1, 1e-30, 1e30, 127.5}),
		rapid.Float32Range(-100, 100),
		rapid.Float32Range(-1e-3, 1e-3),
		rapid.Float32Range(-1e6, 1e6),
	).Draw(c.T, "scale")
}

type convCase struct {
	name   string
	inLen  int // raw lengths as passed
	outLen int
}

func note(c *pbt.Case, name string, nontrivial bool, inLen, outLen int, extra ...any) {
	c.Key(name, inLen, outLen)
	c.Key(extra...)
	c.NonTrivial(nontrivial)
	c.Label(name)
	c.LabelIf(inLen != outLen, "unequal lengths")
	c.LabelIf(inLen > 64, "longer than one SIMD block")
	c.LabelIf(inLen == 0 || outLen == 0, "empty")
	c.Samplef("%s: %d input elements, room for %d", name, inLen, outLen)
}

func TestC01(t *testing.T) {
	bytesConv := func(name string, perSample int, run func(c *pbt.Case, in []byte, outLen int) (n int, bad func(i int) string)) {
		t.Run(name, func(t *testing.T) {
			pbt.Prop(t, "C01/"+name, 1, func(c *pbt.Case) {
				n, m := lens(c, maxLen())
				raw := n * perSample
				if perSample > 1 {
					raw += rapid.IntRange(0, perSample-1).Draw(c.T, "odd bytes")
				}
				data := pbt.Bytes(c.T, raw, "data")
				in := place(c, data, "in")
				cnt, bad := run(c, in, m)
				if string(in) != string(data) {
					c.Fatalf("%s modified its input", name)
				}
				note(c, name, cnt > 1 && varied(data), n, m, data)
				for i := 0; i < cnt; i++ {
					if msg := bad(i); msg != "" {
						c.Fatalf("%s: sample %d of %d (input %d bytes, output %d): %s", name, i, cnt, raw, m, msg)
					}
				}
			})
		})
	}

	bytesConv("Ui8toi16", 1, func(c *pbt.Case, in []byte, m int) (int, func(int) string) {
		out := outSlice(c, m, func(i int) int16 { return int16(i*7919 + 1) }, "out")
		dsp.Ui8toi16(in, out)
		return min(len(in), m), func(i int) string {
			b := byte(int(in[i]) - 128)
			want := int16(uint16(b)*256 + uint16(b))
			if out[i] != want {
				return fmt.Sprintf("input %d: got %d, want %d", in[i], out[i], want)
			}
			return ""
		}
	})
	bytesConv("Ui8toi16b", 1, func(c *pbt.Case, in []byte, m int) (int, func(int) string) {
		m2 := 2 * m
		if m > 0 {
			m2 += rapid.IntRange(0, 1).Draw(c.T, "odd out")
		}
		out := outSlice(c, m2, func(i int) byte { return byte(i*31 + 7) }, "out")
		dsp.Ui8toi16b(in, out)
		return min(len(in), m), func(i int) string {
			want := byte(int(in[i]) - 128)
			if out[2*i] != want || out[2*i+1] != want {
				return fmt.Sprintf("input %d: got bytes %d,%d, want %d twice", in[i], out[2*i], out[2*i+1], want)
			}
			return ""
		}
	})
	f32out := func(name string, f func([]byte, []float32), ref func(byte) float32) {
		bytesConv(name, 1, func(c *pbt.Case, in []byte, m int) (int, func(int) string) {
			out := outSlice(c, m, func(i int) float32 { return float32(i) + 0.25 }, "out")
			f(in, out)
			return min(len(in), m), func(i int) string {
				if want := ref(in[i]); out[i] != want {
					return fmt.Sprintf("input %d: got %v, want %v", in[i], out[i], want)
				}
				return ""
			}
		})
	}
	f32out("Ui8tof32", dsp.Ui8tof32, func(b byte) float32 { return float32(b) - 128 })
	f32out("I8tof32", dsp.I8tof32, func(b byte) float32 {
		if b >= 128 {
			return float32(b) - 256
		}
		return float32(b)
	})
	bytesConv("Ui8toc64", 2, func(c *pbt.Case, in []byte, m int) (int, func(int) string) {
		out := outSlice(c, m, func(i int) complex64 { return complex(float32(i)+0.25, -0.75) }, "out")
		dsp.Ui8toc64(in, out)
		return min(len(in)/2, m), func(i int) string {
			want := complex(float32(in[2*i])-128, float32(in[2*i+1])-128)
			if out[i] != want {
				return fmt.Sprintf("input %d,%d: got %v, want %v", in[2*i], in[2*i+1], out[i], want)
			}
			return ""
		}
	})
	bytesConv("I8toc64", 2, func(c *pbt.Case, in []byte, m int) (int, func(int) string) {
		sin := make([]int8, len(in))
		for i, b := range in {
			sin[i] = int8(b)
		}
		out := outSlice(c, m, func(i int) complex64 { return complex(float32(i)+0.25, -0.75) }, "out")
		dsp.I8toc64(sin, out)
		return min(len(in)/2, m), func(i int) string {
			want := complex(float32(sin[2*i]), float32(sin[2*i+1]))
			if out[i] != want {
				return fmt.Sprintf("input %d,%d: got %v, want %v", sin[2*i], sin[2*i+1], out[i], want)
			}
			return ""
		}
	})
	le16 := func(b []byte, i int) int16 { return int16(binary.LittleEndian.Uint16(b[2*i:])) }
	bytesConv("I16bleToF64", 2, func(c *pbt.Case, in []byte, m int) (int, func(int) string) {
		scale := rapid.OneOf(rapid.SampledFrom([]float64{1, -1, 0.5, 1.0 / 32768, 1.0 / 3, 1e100, 0}), rapid.Float64Range(-1000, 1000)).Draw(c.T, "scale")
		c.Key(scale)
		out := outSlice(c, m, func(i int) float64 { return float64(i) + 0.25 }, "out")
		dsp.I16bleToF64(in, out, scale)
		return min(len(in)/2, m), func(i int) string {
			if want := float64(le16(in, i)) * scale; out[i] != want {
				return fmt.Sprintf("input %d scale %v: got %v, want %v", le16(in, i), scale, out[i], want)
			}
			return ""
		}
	})
	bytesConv("I16bleToF32", 2, func(c *pbt.Case, in []byte, m int) (int, func(int) string) {
		scale := scaleF32(c)
		c.Key(scale)
		out := outSlice(c, m, func(i int) float32 { return float32(i) + 0.25 }, "out")
		dsp.I16bleToF32(in, out, scale)
		return min(len(in)/2, m), func(i int) string {
			if want := float32(le16(in, i)) * scale; out[i] != want {
				return fmt.Sprintf("input %d scale %v: got %v, want %v", le16(in, i), scale, out[i], want)
			}
			return ""
		}
	})
	bytesConv("I32bleToF32", 4, func(c *pbt.Case, in []byte, m int) (int, func(int) string) {
		scale := scaleF32(c)
		c.Key(scale)
		out := outSlice(c, m, func(i int) float32 { return float32(i) + 0.25 }, "out")
		dsp.I32bleToF32(in, out, scale)
		return min(len(in)/4, m), func(i int) string {
			v := int32(binary.LittleEndian.Uint32(in[4*i:]))
			if want := float32(v) * scale; out[i] != want {
				return fmt.Sprintf("input %d scale %v: got %v, want %v", v, scale, out[i], want)
			}
			return ""
		}
	})

	// float -> integer; values are built so that the scaled results fit the target
	toInt := func(c *pbt.Case, n int, scale float32, lo, hi int) []float32 {
		r := pbt.NewRng(c.T, "values")
		mode := rapid.IntRange(0, 3).Draw(c.T, "value mode")
		v := make([]float32, n)
		for i := range v {
			target := float64(r.Range(lo, hi))
			switch mode {
			case 0:
			case 1:
				target += r.Sym()
			case 2:
				target += []float64{0, 0.5, -0.5, 0.999, -0.999, 0.25}[r.Intn(6)]
			case 3:
				target = []float64{float64(lo), float64(hi), 0, 0.75, -0.75, 1, -1, 1.5, -1.5}[r.Intn(9)]
			}
			if scale != 0 {
				v[i] = float32(target / float64(scale))
			} else {
				v[i] = float32(target)
			}
			if p := float64(v[i] * scale); !(p > float64(lo)-1 && p < float64(hi)+1) {
				v[i] = 0
			}
		}
		return v
	}
	f2iScale := func(c *pbt.Case) float32 {
		return rapid.OneOf(
			rapid.SampledFrom([]float32{1, -1, 32767, 32768, 0.5, 1.0 / 3, 0, 1 << 14}),
			rapid.Float32Range(-40000, 40000),
			rapid.Float32Range(-2, 2),
		).Draw(c.T, "scale")
	}
	t.Run("F32toi16", func(t *testing.T) {
		pbt.Prop(t, "C01/F32toi16", 1, func(c *pbt.Case) {
			n, m := lens(c, maxLen())
			scale := f2iScale(c)
			in := place(c, toInt(c, n, scale, -32768, 32767), "in")
			out := outSlice(c, m, func(i int) int16 { return int16(i*7919 + 1) }, "out")
			dsp.F32toi16(in, out, scale)
			note(c, "F32toi16", min(n, m) > 1 && varied(in), n, m, in, scale)
			for i := range in[:min(n, m)] {
				p := in[i] * scale
				if want := int16(math.Trunc(float64(p))); out[i] != want {
					c.Fatalf("F32toi16: element %d of %d, %v*%v: got %d, want %d", i, min(n, m), in[i], scale, out[i], want)
				}
			}
		})
	})
	t.Run("F32toi16ble", func(t *testing.T) {
		pbt.Prop(t, "C01/F32toi16ble", 1, func(c *pbt.Case) {
			n, m := lens(c, maxLen())
			scale := f2iScale(c)
			in := place(c, toInt(c, n, scale, -32768, 32767), "in")
			m2 := 2 * m
			if m > 0 {
				m2 += rapid.IntRange(0, 1).Draw(c.T, "odd out")
			}
			out := outSlice(c, m2, func(i int) byte { return byte(i*31 + 7) }, "out")
			dsp.F32toi16ble(in, out, scale)
			note(c, "F32toi16ble", min(n, m) > 1 && varied(in), n, m, in, scale)
			for i := range in[:min(n, m)] {
				p := in[i] * scale
				if want := int16(math.Trunc(float64(p))); le16(out, i) != want {
					c.Fatalf("F32toi16ble: element %d of %d, %v*%v: got %d, want %d", i, min(n, m), in[i], scale, le16(out, i), want)
				}
			}
		})
	})
	t.Run("C64toi8", func(t *testing.T) {
		pbt.Prop(t, "C01/C64toi8", 1, func(c *pbt.Case) {
			n, m := lens(c, maxLen())
			parts := toInt(c, 2*n, 1, -128, 127)
			in := make([]complex64, n)
			for i := range in {
				in[i] = complex(parts[2*i], parts[2*i+1])
			}
			in = place(c, in, "in")
			m2 := 2 * m
			if m > 0 {
				m2 += rapid.IntRange(0, 1).Draw(c.T, "odd out")
			}
			out := outSlice(c, m2, func(i int) int8 { return int8(i*31 + 7) }, "out")
			dsp.C64toi8(in, out)
			note(c, "C64toi8", min(n, m) > 1 && varied(in), n, m, in)
			for i := range in[:min(n, m)] {
				re, im := int8(math.Trunc(float64(real(in[i])))), int8(math.Trunc(float64(imag(in[i]))))
				if out[2*i] != re || out[2*i+1] != im {
					c.Fatalf("C64toi8: element %d of %d, %v: got %d,%d want %d,%d", i, min(n, m), in[i], out[2*i], out[2*i+1], re, im)
				}
			}
		})
	})
	t.Run("I16ToBLE", func(t *testing.T) {
		pbt.Prop(t, "C01/I16ToBLE", 1, func(c *pbt.Case) {
			n, m := lens(c, maxLen())
			data := pbt.Bytes(c.T, 2*n, "data")
			in := make([]int16, n)
			for i := range in {
				in[i] = le16(data, i)
			}
			in = place(c, in, "in")
			m2 := 2 * m
			if m > 0 {
				m2 += rapid.IntRange(0, 1).Draw(c.T, "odd out")
			}
			out := outSlice(c, m2, func(i int) byte { return byte(i*31 + 7) }, "out")
			dsp.I16ToBLE(in, out)
			note(c, "I16ToBLE", min(n, m) > 1 && varied(in), n, m, data)
			for i := range in[:min(n, m)] {
				if lo, hi := byte(uint16(in[i])), byte(uint16(in[i])>>8); out[2*i] != lo || out[2*i+1] != hi {
					c.Fatalf("I16ToBLE: element %d of %d, %d: got %d,%d want %d,%d", i, min(n, m), in[i], out[2*i], out[2*i+1], lo, hi)
				}
			}
		})
	})
	t.Run("F32Tof32ble", func(t *testing.T) {
		pbt.Prop(t, "C01/F32Tof32ble", 1, func(c *pbt.Case) {
			n, m := lens(c, maxLen())
			in := pbt.F32s(c.T, n, false, "values")
			if r := pbt.NewRng(c.T, "NaNs"); r.Intn(4) == 0 { // the bits of a NaN count, too
				for i := range in {
					if r.Intn(3) == 0 {
						in[i] = math.Float32frombits(0x7fc00000 | uint32(r.U64())&0x803fffff)
					}
				}
				c.Label("with NaNs")
			}
			in = place(c, in, "in")
			m4 := 4 * m
			if m > 0 {
				m4 += rapid.IntRange(0, 3).Draw(c.T, "odd out")
			}
			out := outSlice(c, m4, func(i int) byte { return byte(i*31 + 7) }, "out")
			dsp.F32Tof32ble(in, out)
			note(c, "F32Tof32ble", min(n, m) > 1 && varied(in), n, m, in)
			for i := range in[:min(n, m)] {
				u := math.Float32bits(in[i])
				if want := [4]byte{byte(u), byte(u >> 8), byte(u >> 16), byte(u >> 24)}; [4]byte(out[4*i:4*i+4]) != want {
					c.Fatalf("F32Tof32ble: element %d of %d, %v: got % x want % x", i, min(n, m), in[i], out[4*i:4*i+4], want)
				}
			}
		})
	})
}
