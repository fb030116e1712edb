package props

import (
	"math"
	"math/cmplx"
	"testing"

	"github.com/samuel/go-dsp/dsp"
	"pgregory.net/rapid"
	"verif/harness/pbt"
)

// iq draws a complex signal whose non-zero samples have magnitudes in [1e-6, 1e6].
func iq(c *pbt.Case, n int, label string) []complex64 {
	r := pbt.NewRng(c.T, label+" seed")
	v := make([]complex64, n)
	kind := rapid.IntRange(0, 5).Draw(c.T, label+" kind")
	amp := math.Pow(10, rapid.Float64Range(-5, 5).Draw(c.T, label+" log amplitude"))
	step := rapid.Float64Range(-math.Pi, math.Pi).Draw(c.T, label+" step")
	ph := r.F() * 7
	for i := range v {
		switch kind {
		case 0: // tone
			ph += step
			v[i] = complex64(cmplx.Rect(amp, ph))
		case 1: // frequency modulated
			ph += step * math.Sin(float64(i)*0.05)
			v[i] = complex64(cmplx.Rect(amp, ph))
		case 2: // noise
			v[i] = complex64(cmplx.Rect(amp*(0.1+r.F()), r.F()*7))
		case 3: // with silence
			if r.Intn(3) > 0 {
				v[i] = complex64(cmplx.Rect(amp, r.F()*7))
			}
		case 4: // jumps by multiples of a quarter turn
			v[i] = []complex64{1, 1i, -1, -1i, 1 + 1i, -1 - 1i}[r.Intn(6)]
		case 5: // 8-bit receiver samples
			v[i] = complex(float32(r.Range(-128, 127)), float32(r.Range(-128, 127)))
		}
	}
	return v
}

// lead is the angle by which a leads b; ok is false when either has no direction.
func lead(a, b complex64) (float64, bool) {
	if a == 0 || b == 0 {
		return 0, false
	}
	return cmplx.Phase(complex128(a) * cmplx.Conj(complex128(b))), true
}

// TestC09: FM demodulation over any division of the stream.
func TestC09(t *testing.T) {
	t.Run("FMDemodFilter", func(t *testing.T) {
		pbt.Prop(t, "C09/FMDemodFilter", 1, func(c *pbt.Case) {
			n := pbt.Len(c.T, 1000, "samples")
			in := iq(c, n, "signal")
			orig := append([]complex64{}, in...)
			cuts := pbt.Cuts(c.T, n, "calls")
			var f dsp.FMDemodFilter
			got := make([]float32, 0, n)
			pos := 0
			for _, b := range cuts {
				out := make([]float32, b+rapid.IntRange(0, 3).Draw(c.T, "spare"))
				for i := range out {
					out[i] = 77
				}
				if m := f.Demodulate(in[pos:pos+b:pos+b], out); m != b {
					c.Fatalf("Demodulate of %d samples reports %d", b, m)
				}
				for _, x := range out[b:] {
					if x != 77 {
						c.Fatalf("Demodulate of %d samples wrote more outputs", b)
					}
				}
				got = append(got, out[:b]...)
				pos += b
			}
			c.Key(orig, cuts)
			c.NonTrivial(n > 2 && len(cuts) > 1)
			c.LabelIf(len(cuts) > 1, "several calls")
			c.Samplef("%d samples demodulated in %d calls", n, len(cuts))
			var prev complex64
			for i, x := range orig {
				want, ok := lead(x, prev)
				if ok || x == 0 || prev == 0 {
					if !(angleDiff(float64(got[i]), want) <= 0.011) {
						c.Fatalf("sample %d of %d (calls %v): %v after %v leads by %v rad, output is %v", i, n, head(cuts), x, prev, want, got[i])
					}
				}
				if !(math.Abs(float64(got[i])) <= math.Pi+1e-3) {
					c.Fatalf("sample %d of %d (calls %v): %v after %v: output %v is no angle", i, n, head(cuts), x, prev, got[i])
				}
				prev = x
			}
			for i := range in {
				if in[i] != orig[i] {
					c.Fatalf("Demodulate changed sample %d of its input", i)
				}
			}
		})
	})
	t.Run("PolarDiscriminator", func(t *testing.T) {
		pbt.Prop(t, "C09/PolarDiscriminator", 4, func(c *pbt.Case) {
			v := iq(c, 2, "pair")
			a, b := v[0], v[1]
			c.Key("polar", v)
			c.NonTrivial(a != 0 && b != 0 && a != b)
			c.Label("discriminator")
			got, got32 := dsp.PolarDiscriminator(complex128(a), complex128(b)), float64(dsp.PolarDiscriminator32(a, b))
			c.Samplef("discriminators of %v and %v: %v, %v", a, b, got, got32)
			want, ok := lead(a, b)
			if ok && (!(angleDiff(got, want) <= 1e-9) || !(angleDiff(got32, want) <= 0.011)) {
				c.Fatalf("PolarDiscriminator(%v, %v) = %v, PolarDiscriminator32 = %v, exact %v", a, b, got, got32, want)
			}
			if !(math.Abs(got) <= math.Pi) || !(math.Abs(got32) <= math.Pi+1e-3) {
				c.Fatalf("PolarDiscriminator(%v, %v) = %v, PolarDiscriminator32 = %v", a, b, got, got32)
			}
		})
	})
}

// TestC26: rotation by a quarter turn per sample.
func TestC26(t *testing.T) {
	pow := []complex64{1, 1i, -1, -1i}
	t.Run("Rotate90Filter", func(t *testing.T) {
		pbt.Prop(t, "C26/Rotate90Filter", 1, func(c *pbt.Case) {
			n := pbt.Len(c.T, 1000, "groups") * 4
			f := pbt.F32s(c.T, 2*n, false, "values")
			in := make([]complex64, n)
			for i := range in {
				in[i] = complex(f[2*i], f[2*i+1])
			}
			in, room := placeRoom(c, in, 12345, "in")
			orig := append([]complex64{}, in...)
			var fi dsp.Rotate90Filter
			out := fi.Filter(in)
			c.Key("r90", f)
			c.NonTrivial(n > 0 && varied(orig))
			c.Label("Rotate90Filter")
			c.Samplef("Rotate90Filter of %d samples", n)
			if len(out) != n || n > 0 && &out[0] != &in[0] {
				c.Fatalf("Rotate90Filter of %d samples does not return the samples it was given", n)
			}
			for i, x := range orig {
				var want complex64
				switch i % 4 {
				case 0:
					want = x
				case 1:
					want = complex(-imag(x), real(x))
				case 2:
					want = complex(-real(x), -imag(x))
				case 3:
					want = complex(imag(x), -real(x))
				}
				if out[i] != want {
					c.Fatalf("Rotate90Filter: sample %d of %d: %v * %v: got %v", i, n, x, pow[i%4], out[i])
				}
			}
			for i, x := range room {
				if x != 12345 {
					c.Fatalf("Rotate90Filter of %d samples wrote sample %d", n, n+i)
				}
			}
			for k := 0; k < 3; k++ {
				out = fi.Filter(out)
			}
			for i := range orig {
				if out[i] != orig[i] {
					c.Fatalf("sample %d of %d is %v instead of %v after four rotations", i, n, out[i], orig[i])
				}
			}
		})
	})
	t.Run("I32Rotate90Filter", func(t *testing.T) {
		pbt.Prop(t, "C26/I32Rotate90Filter", 1, func(c *pbt.Case) {
			n := pbt.Len(c.T, 1000, "groups") * 4
			r := pbt.NewRng(c.T, "seed")
			in := make([]int32, 2*n)
			wide := rapid.Bool().Draw(c.T, "wide")
			for i := range in {
				if wide {
					in[i] = int32(r.U64())
				} else {
					in[i] = int32(r.Range(-128, 127))
				}
			}
			in, room := placeRoom(c, in, 12345, "in")
			orig := append([]int32{}, in...)
			var fi dsp.I32Rotate90Filter
			out := fi.Filter(in)
			c.Key("i32r90", n, len(orig), wide, r.U64())
			c.NonTrivial(n > 0)
			c.Label("I32Rotate90Filter")
			c.Samplef("I32Rotate90Filter of %d samples", n)
			if len(out) != 2*n || n > 0 && &out[0] != &in[0] {
				c.Fatalf("I32Rotate90Filter of %d samples does not return the samples it was given", n)
			}
			for i := 0; i < n; i++ {
				re, im := orig[2*i], orig[2*i+1]
				for k := 0; k < i%4; k++ {
					re, im = -im, re
				}
				if out[2*i] != re || out[2*i+1] != im {
					c.Fatalf("I32Rotate90Filter: sample %d of %d: (%d,%d) * %v: got (%d,%d)", i, n, orig[2*i], orig[2*i+1], pow[i%4], out[2*i], out[2*i+1])
				}
			}
			for i, x := range room {
				if x != 12345 {
					c.Fatalf("I32Rotate90Filter of %d samples wrote beyond them (value %d)", n, 2*n+i)
				}
			}
			for k := 0; k < 3; k++ {
				out = fi.Filter(out)
			}
			for i := range orig {
				if out[i] != orig[i] {
					c.Fatalf("value %d of %d is %v instead of %v after four rotations", i, 2*n, out[i], orig[i])
				}
			}
		})
	})
}
