package props

import (
	"encoding/binary"
	"math"
	"testing"

	"github.com/samuel/go-dsp/dsp"
	"pgregory.net/rapid"
	"verif/harness/pbt"
)

func le16s(b []byte) []int16 {
	v := make([]int16, len(b)/2)
	for i := range v {
		v[i] = int16(binary.LittleEndian.Uint16(b[2*i:]))
	}
	return v
}

// TestC04: chains of conversions, and variants of one conversion against each other.
func TestC04(t *testing.T) {
	draw16 := func(c *pbt.Case) []int16 {
		n := pbt.Len(c.T, maxLen(), "samples")
		return place(c, le16s(pbt.Bytes(c.T, 2*n, "data")), "in")
	}
	start := func(c *pbt.Case, name string, n int, nontrivial bool, key ...any) {
		c.Key(name, n)
		c.Key(key...)
		c.NonTrivial(n > 1 && nontrivial)
		c.Label(name)
		c.LabelIf(n > 64, "longer than one SIMD block")
		c.Samplef("%s: %d samples", name, n)
	}
	t.Run("i16-ble-f32-i16", func(t *testing.T) {
		pbt.Prop(t, "C04/i16-ble-f32-i16", 1, func(c *pbt.Case) {
			in := draw16(c)
			n := len(in)
			k := rapid.IntRange(-8, 15).Draw(c.T, "scale exponent")
			down, up := float32(math.Ldexp(1, -k)), float32(math.Ldexp(1, k))
			ble := outSlice(c, 2*n, func(i int) byte { return 0xa5 }, "bytes")
			dsp.I16ToBLE(in, ble)
			f := outSlice(c, n, func(i int) float32 { return 1e9 }, "floats")
			dsp.I16bleToF32(ble, f, down)
			back := outSlice(c, n, func(i int) int16 { return 0x55 }, "back")
			dsp.F32toi16(f, back, up)
			ble2 := outSlice(c, 2*n, func(i int) byte { return 0x5a }, "bytes2")
			dsp.F32toi16ble(f, ble2, up)
			start(c, "i16-ble-f32-i16", n, varied(in), ble, k)
			for i := range in {
				if back[i] != in[i] {
					c.Fatalf("sample %d of %d: %d became %d after I16ToBLE, I16bleToF32 by 2^%d and F32toi16 by 2^%d (as float: %v)", i, n, in[i], back[i], -k, k, f[i])
				}
			}
			if string(ble2) != string(ble) {
				c.Fatalf("F32toi16ble after I16bleToF32 gives other bytes for %d samples (scale 2^%d)", n, k)
			}
		})
	})
	t.Run("f64-f32", func(t *testing.T) {
		pbt.Prop(t, "C04/f64-f32", 1, func(c *pbt.Case) {
			n := pbt.Len(c.T, maxLen(), "samples")
			in := place(c, pbt.Bytes(c.T, 2*n+rapid.IntRange(0, 1).Draw(c.T, "odd"), "data"), "in")
			k := rapid.IntRange(-10, 20).Draw(c.T, "scale exponent")
			s := math.Ldexp(1, k)
			f32 := outSlice(c, n, func(i int) float32 { return 1e9 }, "f32")
			f64 := outSlice(c, n, func(i int) float64 { return 1e9 }, "f64")
			dsp.I16bleToF32(in, f32, float32(s))
			dsp.I16bleToF64(in, f64, s)
			start(c, "f64-f32", n, varied(in), in, k)
			for i := range f32 {
				if float64(f32[i]) != f64[i] {
					c.Fatalf("sample %d of %d (bytes % x, scale 2^%d): %v as float32, %v as float64", i, n, in[2*i:2*i+2], k, f32[i], f64[i])
				}
			}
			// the same samples as 32-bit integers
			wide := make([]byte, 4*n)
			for i, v := range le16s(in) {
				binary.LittleEndian.PutUint32(wide[4*i:], uint32(int32(v)))
			}
			g := make([]float32, n)
			dsp.I32bleToF32(place(c, wide, "wide"), g, float32(s))
			for i := range g {
				if g[i] != f32[i] {
					c.Fatalf("sample %d of %d (scale 2^%d): %v from 16-bit bytes, %v from 32-bit bytes", i, n, k, f32[i], g[i])
				}
			}
		})
	})
	t.Run("i8-c64-i8", func(t *testing.T) {
		pbt.Prop(t, "C04/i8-c64-i8", 1, func(c *pbt.Case) {
			n := pbt.Len(c.T, maxLen(), "samples")
			data := pbt.Bytes(c.T, 2*n, "data")
			in := make([]int8, 2*n)
			off := make([]byte, 2*n)
			for i, b := range data {
				in[i] = int8(b)
				off[i] = b ^ 0x80
			}
			z := outSlice(c, n, func(i int) complex64 { return 1e9 }, "z")
			dsp.I8toc64(in, z)
			back := outSlice(c, 2*n, func(i int) int8 { return 99 }, "back")
			dsp.C64toi8(z, back)
			start(c, "i8-c64-i8", n, varied(in), data)
			for i := range in {
				if back[i] != in[i] {
					c.Fatalf("value %d of %d: %d became %d after I8toc64 and C64toi8", i, 2*n, in[i], back[i])
				}
			}
			// offset-binary, signed, real and complex forms of the same samples
			zu := outSlice(c, n, func(i int) complex64 { return 1e9 }, "zu")
			dsp.Ui8toc64(place(c, off, "off"), zu)
			fs := outSlice(c, 2*n, func(i int) float32 { return 1e9 }, "fs")
			dsp.I8tof32(place(c, data, "signed"), fs)
			fu := outSlice(c, 2*n, func(i int) float32 { return 1e9 }, "fu")
			dsp.Ui8tof32(place(c, off, "offset"), fu)
			for i := range z {
				if zu[i] != z[i] {
					c.Fatalf("sample %d of %d: Ui8toc64 gives %v, I8toc64 gives %v for the same samples", i, n, zu[i], z[i])
				}
				if complex(fs[2*i], fs[2*i+1]) != z[i] || complex(fu[2*i], fu[2*i+1]) != z[i] {
					c.Fatalf("sample %d of %d: I8toc64 gives %v, I8tof32 %v,%v, Ui8tof32 %v,%v", i, n, z[i], fs[2*i], fs[2*i+1], fu[2*i], fu[2*i+1])
				}
			}
			// 8 to 16 bits, as words and as bytes, and back through floats: the high byte is the sample
			w := outSlice(c, 2*n, func(i int) int16 { return 77 }, "words")
			dsp.Ui8toi16(place(c, off, "off2"), w)
			wb := outSlice(c, 4*n, func(i int) byte { return 77 }, "word bytes")
			dsp.Ui8toi16b(place(c, off, "off3"), wb)
			wl := make([]byte, 4*n)
			dsp.I16ToBLE(w, wl)
			for i := range w {
				if int8(w[i]>>8) != in[i] {
					c.Fatalf("value %d of %d: Ui8toi16 gives %#x for the sample %d", i, 2*n, uint16(w[i]), in[i])
				}
			}
			if string(wl) != string(wb) {
				c.Fatalf("Ui8toi16b and Ui8toi16 followed by I16ToBLE differ for %d samples", 2*n)
			}
		})
	})
	t.Run("f32-bits", func(t *testing.T) {
		pbt.Prop(t, "C04/f32-bits", 1, func(c *pbt.Case) {
			n := pbt.Len(c.T, maxLen(), "samples")
			raw := pbt.Bytes(c.T, 4*n, "data")
			in := make([]float32, n)
			for i := range in {
				in[i] = math.Float32frombits(binary.LittleEndian.Uint32(raw[4*i:]))
				if in[i] != in[i] { // a NaN may be quieted on the way
					in[i] = 0
					binary.LittleEndian.PutUint32(raw[4*i:], 0)
				}
			}
			in = place(c, in, "in")
			out := outSlice(c, 4*n, func(i int) byte { return 0x77 }, "out")
			dsp.F32Tof32ble(in, out)
			start(c, "f32-bits", n, varied(raw), raw)
			if string(out) != string(raw) {
				for i := range out {
					if out[i] != raw[i] {
						c.Fatalf("byte %d of %d: % x instead of % x for %v", i, len(out), out[i/4*4:i/4*4+4], raw[i/4*4:i/4*4+4], in[i/4])
					}
				}
			}
		})
	})
}

func close32(got, want, tol float64) bool {
	if math.IsInf(want, 0) || math.IsInf(got, 0) {
		return got == want
	}
	return math.Abs(got-want) <= tol
}

// TestC05: vector arithmetic against its definition.
func TestC05(t *testing.T) {
	c64s := func(c *pbt.Case, n int, label string) []complex64 {
		f := moderate(c.T, 2*n, label)
		v := make([]complex64, n)
		for i := range v {
			v[i] = complex(f[2*i], f[2*i+1])
		}
		return place(c, v, label)
	}
	// lens3 draws input, output and third operand lengths
	lens3 := func(c *pbt.Case) (int, int, int) {
		n, m := lens(c, maxLen())
		k := n
		if rapid.IntRange(0, 2).Draw(c.T, "third") == 0 {
			k = pbt.Len(c.T, maxLen(), "third length")
		}
		return n, m, k
	}
	cmul := func(a, b complex64) (complex128, float64) {
		x, y := complex128(a), complex128(b)
		return x * y, 1e-6 * (math.Abs(real(x)) + math.Abs(imag(x))) * (math.Abs(real(y)) + math.Abs(imag(y)))
	}
	closeC := func(got complex64, want complex128, tol float64) bool {
		tol += 1e-37
		return close32(float64(real(got)), real(want), tol) && close32(float64(imag(got)), imag(want), tol)
	}
	const inPlaceNote = "output and input the same slice"

	t.Run("VMulC64xF32", func(t *testing.T) {
		pbt.Prop(t, "C05/VMulC64xF32", 1, func(c *pbt.Case) {
			n, m, k := lens3(c)
			in, mul := c64s(c, n, "in"), place(c, moderate(c.T, k, "mul"), "mul")
			orig := append([]complex64{}, in...)
			same := rapid.IntRange(0, 3).Draw(c.T, "in place") == 0
			out := in
			if !same {
				out = c64s(c, m, "out")
			} else {
				m = n
			}
			dsp.VMulC64xF32(in, out, mul)
			cnt := min(n, m, k)
			note(c, "VMulC64xF32", cnt > 1, n, m, orig, mul)
			c.LabelIf(same, inPlaceNote)
			for i := 0; i < cnt; i++ {
				want := complex(float64(real(orig[i]))*float64(mul[i]), float64(imag(orig[i]))*float64(mul[i]))
				if !closeC(out[i], want, 1e-7*(math.Abs(real(want))+math.Abs(imag(want)))) {
					c.Fatalf("VMulC64xF32 (%d, %d, %d): element %d, %v*%v: got %v, want %v", n, m, k, i, orig[i], mul[i], out[i], want)
				}
			}
		})
	})
	t.Run("VMulC64", func(t *testing.T) {
		pbt.Prop(t, "C05/VMulC64", 1, func(c *pbt.Case) {
			n, m, k := lens3(c)
			in, mul := c64s(c, n, "in"), c64s(c, k, "mul")
			orig := append([]complex64{}, in...)
			same := rapid.IntRange(0, 3).Draw(c.T, "in place") == 0
			out := in
			if !same {
				out = c64s(c, m, "out")
			} else {
				m = n
			}
			dsp.VMulC64(in, out, mul)
			cnt := min(n, m, k)
			note(c, "VMulC64", cnt > 1, n, m, orig, mul)
			c.LabelIf(same, inPlaceNote)
			for i := 0; i < cnt; i++ {
				want, tol := cmul(orig[i], mul[i])
				if !closeC(out[i], want, tol) {
					c.Fatalf("VMulC64 (%d, %d, %d): element %d, %v*%v: got %v, want %v", n, m, k, i, orig[i], mul[i], out[i], want)
				}
			}
		})
	})
	t.Run("VAddF32", func(t *testing.T) {
		pbt.Prop(t, "C05/VAddF32", 1, func(c *pbt.Case) {
			n, m := lens(c, maxLen())
			in, out := place(c, moderate(c.T, n, "in"), "in"), place(c, moderate(c.T, m, "out"), "out")
			orig := append([]float32{}, out...)
			dsp.VAddF32(in, out)
			note(c, "VAddF32", min(n, m) > 1, n, m, in, orig)
			for i := 0; i < min(n, m); i++ {
				if want := orig[i] + in[i]; out[i] != want {
					c.Fatalf("VAddF32 (%d, %d): element %d, %v+%v: got %v", n, m, i, orig[i], in[i], out[i])
				}
			}
		})
	})
	t.Run("VAddC64", func(t *testing.T) {
		pbt.Prop(t, "C05/VAddC64", 1, func(c *pbt.Case) {
			n, m := lens(c, maxLen())
			in, out := c64s(c, n, "in"), c64s(c, m, "out")
			orig := append([]complex64{}, out...)
			dsp.VAddC64(in, out)
			note(c, "VAddC64", min(n, m) > 1, n, m, in, orig)
			for i := 0; i < min(n, m); i++ {
				if want := orig[i] + in[i]; out[i] != want {
					c.Fatalf("VAddC64 (%d, %d): element %d, %v+%v: got %v", n, m, i, orig[i], in[i], out[i])
				}
			}
		})
	})
	t.Run("VScaleF32", func(t *testing.T) {
		pbt.Prop(t, "C05/VScaleF32", 1, func(c *pbt.Case) {
			n, m := lens(c, maxLen())
			in := place(c, pbt.F32s(c.T, n, true, "in"), "in")
			orig := append([]float32{}, in...)
			same := rapid.IntRange(0, 3).Draw(c.T, "in place") == 0
			out := in
			if !same {
				out = outSlice(c, m, func(i int) float32 { return float32(i) + 0.25 }, "out")
			} else {
				m = n
			}
			scale := scaleF32(c)
			dsp.VScaleF32(in, out, scale)
			note(c, "VScaleF32", min(n, m) > 1 && scale != 1, n, m, orig, scale)
			c.LabelIf(same, inPlaceNote)
			for i := 0; i < min(n, m); i++ {
				if want := orig[i] * scale; out[i] != want {
					c.Fatalf("VScaleF32 (%d, %d): element %d, %v*%v: got %v, want %v", n, m, i, orig[i], scale, out[i], want)
				}
			}
		})
	})
	t.Run("VScaleC64", func(t *testing.T) {
		pbt.Prop(t, "C05/VScaleC64", 1, func(c *pbt.Case) {
			n, m := lens(c, maxLen())
			in := c64s(c, n, "in")
			orig := append([]complex64{}, in...)
			same := rapid.IntRange(0, 3).Draw(c.T, "in place") == 0
			out := in
			if !same {
				out = c64s(c, m, "out")
			} else {
				m = n
			}
			scale := rapid.Float32Range(-1000, 1000).Draw(c.T, "scale")
			dsp.VScaleC64(in, out, scale)
			note(c, "VScaleC64", min(n, m) > 1 && scale != 1, n, m, orig, scale)
			c.LabelIf(same, inPlaceNote)
			for i := 0; i < min(n, m); i++ {
				if want := complex(real(orig[i])*scale, imag(orig[i])*scale); out[i] != want {
					c.Fatalf("VScaleC64 (%d, %d): element %d, %v*%v: got %v, want %v", n, m, i, orig[i], scale, out[i], want)
				}
			}
		})
	})
	t.Run("VAbsC64", func(t *testing.T) {
		pbt.Prop(t, "C05/VAbsC64", 1, func(c *pbt.Case) {
			n, m := lens(c, maxLen())
			in := c64s(c, n, "in")
			out := outSlice(c, m, func(i int) float32 { return -1 }, "out")
			dsp.VAbsC64(in, out)
			note(c, "VAbsC64", min(n, m) > 1, n, m, in)
			for i := 0; i < min(n, m); i++ {
				want := math.Hypot(float64(real(in[i])), float64(imag(in[i])))
				if !close32(float64(out[i]), want, 1e-6*want) {
					c.Fatalf("VAbsC64 (%d, %d): element %d, |%v|: got %v, want %v", n, m, i, in[i], out[i], want)
				}
			}
		})
	})
	t.Run("Conj32", func(t *testing.T) {
		pbt.Prop(t, "C05/Conj32", 1, func(c *pbt.Case) {
			f := pbt.F32s(c.T, 2, false, "parts")
			x := complex(f[0], f[1])
			got := dsp.Conj32(x)
			c.Key("Conj32", f)
			c.NonTrivial(f[1] != 0)
			c.Label("Conj32")
			c.Samplef("Conj32(%v)", x)
			if real(got) != f[0] || imag(got) != -f[1] {
				c.Fatalf("Conj32(%v) = %v", x, got)
			}
		})
	})
}

// TestC06: extrema.
func TestC06(t *testing.T) {
	for _, f := range []struct {
		name string
		fn   func([]float32) float32
		sign float32
	}{{"VMaxF32", dsp.VMaxF32, 1}, {"VMinF32", dsp.VMinF32, -1}} {
		t.Run(f.name, func(t *testing.T) {
			pbt.Prop(t, "C06/"+f.name, 1, func(c *pbt.Case) {
				n := pbt.Len(c.T, maxLen(), "len")
				v := pbt.F32s(c.T, n, rapid.Bool().Draw(c.T, "finite"), "values")
				switch k := rapid.IntRange(0, 4).Draw(c.T, "shape"); {
				case n == 0:
				case k == 0: // all on one side of zero, the extremum somewhere
					r := pbt.NewRng(c.T, "side")
					for i := range v {
						v[i] = -f.sign * float32(1+r.F()*100)
					}
					v[rapid.IntRange(0, n-1).Draw(c.T, "at")] = -f.sign * 0.5
					c.Label("extremum on the far side of zero")
				case k == 1: // single outlier
					for i := range v {
						v[i] = 1
					}
					v[rapid.IntRange(0, n-1).Draw(c.T, "at")] = 1 + f.sign*rapid.Float32Range(1e-6, 10).Draw(c.T, "above")
					c.Label("single outlier")
				case k == 2: // monotone, so the extremum lies at an end
					s := rapid.Float32Range(-1, 1).Draw(c.T, "slope")
					for i := range v {
						v[i] = s*float32(i) - 50
					}
				case k == 3:
					for i := range v {
						v[i] = -f.sign * float32(math.Inf(1))
					}
					if rapid.Bool().Draw(c.T, "one finite") {
						v[rapid.IntRange(0, n-1).Draw(c.T, "at")] = -f.sign * math.MaxFloat32
					}
					c.Label("infinities")
				}
				orig := append([]float32{}, v...)
				in := place(c, v, "in")
				// values just outside the slice must not matter
				if n > 0 {
					full := in[:n:n]
					_ = full
				}
				got := f.fn(in)
				c.Key(f.name, orig)
				c.NonTrivial(n > 1 && varied(orig))
				c.Label(f.name)
				c.LabelIf(n > 64, "longer than one SIMD block")
				c.LabelIf(n == 0, "empty")
				want := -f.sign * float32(math.Inf(1))
				at := -1
				for i, x := range orig {
					if (x-want)*f.sign > 0 || math.IsInf(float64(want), 0) && x != want {
						if f.sign*x > f.sign*want {
							want, at = x, i
						}
					}
				}
				c.Samplef("%s of %d values, extremum %v at %d", f.name, n, want, at)
				if got != want {
					c.Fatalf("%s of %d values: got %v, want %v (at index %d)", f.name, n, got, want, at)
				}
				for i, x := range in {
					if x != orig[i] {
						c.Fatalf("%s modified its input", f.name)
					}
				}
			})
		})
	}
}
