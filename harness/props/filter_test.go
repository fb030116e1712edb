package props

import (
	"fmt"
	"math"
	"math/cmplx"
	"testing"

	"github.com/samuel/go-dsp/dsp"
	"pgregory.net/rapid"
	"verif/harness/pbt"
)

const (
	eps64 = 1.1e-16
	eps32 = 6e-8
)

// tiny is an absolute error that is always tolerated: results may be denormal numbers.
func tiny(eps float64) float64 {
	if eps == eps32 {
		return 1e-36
	}
	return 1e-300
}

// diffEq evaluates the difference equation and returns the outputs, the largest sum of absolute
// terms of any step, and the sum of the absolute impulse response of 1/A over the length.
func diffEq(b, a []float64, x []complex128) (y []complex128, terms, amp float64) {
	y = make([]complex128, len(x))
	for n := range x {
		var s complex128
		t := 0.0
		for k := range b {
			if n-k >= 0 {
				v := complex(b[k]/a[0], 0) * x[n-k]
				s += v
				t += math.Abs(real(v)) + math.Abs(imag(v))
			}
		}
		for k := 1; k < len(a); k++ {
			if n-k >= 0 {
				v := complex(a[k]/a[0], 0) * y[n-k]
				s -= v
				t += math.Abs(real(v)) + math.Abs(imag(v))
			}
		}
		y[n] = s
		terms = math.Max(terms, t)
	}
	h := make([]float64, len(x))
	for n := range h {
		if n == 0 {
			h[n] = 1
		}
		for k := 1; k < len(a) && k <= n; k++ {
			h[n] -= a[k] / a[0] * h[n-k]
		}
		amp += math.Abs(h[n])
	}
	return y, terms, amp
}

func maxAbs(v []complex128) float64 {
	m := 0.0
	for _, x := range v {
		m = math.Max(m, math.Max(math.Abs(real(x)), math.Abs(imag(x))))
	}
	return m
}

func TestC11(t *testing.T) {
	kinds := []struct {
		name string
		eps  float64
		cplx bool
		mk   func(b, a []float64) (run func(in []complex128, place bool) []complex128, scribble func(), intact func() bool)
	}{
		{"IIRFilter", eps64, false, func(b, a []float64) (func([]complex128, bool) []complex128, func(), func() bool) {
			scribble, intact := keep(b, a)
			f := dsp.NewIIRFilter(b, a)
			p := filterProc("", realsOf, fromReals, true, f.Filter)
			return func(in []complex128, pl bool) []complex128 { return p.feed(in, variant(pl)) }, scribble, intact
		}},
		{"ComplexIIRFilter", eps64, true, func(b, a []float64) (func([]complex128, bool) []complex128, func(), func() bool) {
			scribble, intact := keep(b, a)
			f := dsp.NewComplexIIRFilter(b, a)
			ident := func(b []complex128) []complex128 { return append([]complex128(nil), b...) }
			p := filterProc("", ident, ident, true, f.Filter)
			return func(in []complex128, pl bool) []complex128 { return p.feed(in, variant(pl)) }, scribble, intact
		}},
		{"ComplexIIRFilter32", eps32, true, func(b, a []float64) (func([]complex128, bool) []complex128, func(), func() bool) {
			b32, a32 := to32(b), to32(a)
			scribble, intact := keep(b32, a32)
			f := dsp.NewComplexIIRFilter32(b32, a32)
			p := filterProc("", cplx32, fromC64, true, f.Filter)
			return func(in []complex128, pl bool) []complex128 { return p.feed(in, variant(pl)) }, scribble, intact
		}},
	}
	for _, k := range kinds {
		t.Run(k.name, func(t *testing.T) {
			pbt.Prop(t, "C11/"+k.name+"/rejected", 0.05, func(c *pbt.Case) { badCoefficients(c, k.name) })
			pbt.Prop(t, "C11/"+k.name, 4, func(c *pbt.Case) {
				order := rapid.IntRange(0, 8).Draw(c.T, "order")
				n := pbt.Longer(c, rapid.OneOf(rapid.IntRange(0, 30), rapid.IntRange(0, 250)).Draw(c.T, "samples"), 1<<16, "stream")
				in := pbt.C128s(c.T, n, "signal")
				if !k.cplx {
					in = fromReals(realsOf(in))
				}
				level := math.Pow(10, rapid.OneOf(rapid.Just(0.0), rapid.Just(0.0), rapid.Float64Range(-20, 8)).Draw(c.T, "log level"))
				for i := range in { // representable in single precision
					in[i] *= complex(level, 0)
					in[i] = complex128(complex64(in[i]))
				}
				var b, a []float64
				exact := rapid.IntRange(0, 2).Draw(c.T, "exact") == 0
				if s := pbt.NewRng(c.T, "sparse"); s.Intn(12) == 5 {
					// a high order, as of echoes: few coefficients other than zero
					exact = false
					order = s.Range(5, []int{12, 40, 100, 400}[s.Intn(4)])
					b, a = make([]float64, order+1), make([]float64, order+1)
					a[0] = []float64{1, -1, 2, 0.5, 3}[s.Intn(5)]
					for k, left := s.Range(1, 4), 0.9*math.Abs(a[0]); k > 0; k-- {
						v := left * s.Sym() * 0.7
						left -= math.Abs(v)
						i := s.Range(1, order)
						if s.Bool() {
							i = order - s.Intn(min(order, 3))
						}
						if a[i] == 0 {
							a[i] = v
						}
					}
					for k := s.Range(1, 5); k > 0; k-- {
						b[s.Range(0, order)] = 2 * s.Sym()
					}
					if len(in) < 3*order && s.Intn(4) > 0 {
						for len(in) < 3*order {
							v := complex(s.Sym()*level, s.Sym()*level)
							if !k.cplx {
								v = complex(real(v), 0)
							}
							in = append(in, complex128(complex64(v)))
						}
						n = len(in)
					}
					c.Label("sparse coefficients")
				} else if exact {
					// small integers over a power of two: the results are exactly representable
					r := pbt.NewRng(c.T, "integers")
					n = min(n, 14)
					in = in[:n]
					for i := range in {
						in[i] = complex(float64(r.Range(-3, 3)), float64(r.Range(-3, 3)))
						if !k.cplx {
							in[i] = complex(real(in[i]), 0)
						}
					}
					b, a = make([]float64, order+1), make([]float64, order+1)
					for i := range b {
						b[i], a[i] = float64(r.Range(-3, 3)), float64(r.Range(-1, 1))
					}
					a[0] = []float64{1, -1, 2, -2, 0.5}[r.Intn(5)]
				} else {
					b, a = coefs(c, order, rapid.SampledFrom([]float64{0.3, 0.7, 0.9, 0.99}).Draw(c.T, "radius"))
				}
				if k.eps == eps32 {
					for i := range b {
						b[i], a[i] = float64(float32(b[i])), float64(float32(a[i]))
					}
				}
				ob, oa := append([]float64(nil), b...), append([]float64(nil), a...)
				run, scribble, intact := k.mk(b, a)
				if !intact() {
					c.Fatalf("building the filter changed the coefficient slices b=%v a=%v", ob, oa)
				}
				late := rapid.Bool().Draw(c.T, "overwrite coefficients")
				if late {
					scribble()
				}
				inPlace := rapid.Bool().Draw(c.T, "in place")
				got := run(in, inPlace)
				want, terms, amp := diffEq(ob, oa, in)
				tol := 8*float64(order+3)*k.eps*terms*amp + tiny(k.eps)*(amp+1)
				if exact && maxAbs(want) < 1000 {
					tol = 0
				}
				c.Key(k.name, ob, oa, in)
				big := maxAbs(want)
				tight := tol <= 1e-3*big && big > 0
				c.NonTrivial(tight && n > order && order > 0)
				if order > 8 {
					c.Label(k.name + " of a high order")
				} else {
					c.Label(fmt.Sprintf("%s order %d", k.name, order))
				}
				c.LabelIf(exact && tol == 0, "exact comparison")
				c.LabelIf(!exact && level < 1e-6, "tiny input")
				c.LabelIf(!tight, "loose tolerance")
				c.LabelIf(inPlace, "output and input the same slice")
				c.LabelIf(late, "coefficient slices overwritten after construction")
				c.Samplef("%s b=%.4g a=%.4g on %d samples, tolerance %.3g", k.name, ob, oa, n, tol)
				for i := range want {
					if d := cmplx.Abs(got[i] - want[i]); !(d <= 2*tol) && !(math.IsInf(tol, 0) || math.IsNaN(tol)) {
						c.Fatalf("%s b=%v a=%v (in place %v): output %d of %d is %v instead of %v (tolerance %v)", k.name, ob, oa, inPlace, i, n, got[i], want[i], tol)
					}
				}
			})
		})
	}
}

func variant(inPlace bool) int {
	if inPlace {
		return 1
	}
	return 0
}

// badCoefficients: lists that define no filter are rejected.
func badCoefficients(c *pbt.Case, kind string) {
	n, m := rapid.IntRange(0, 6).Draw(c.T, "len(b)"), rapid.IntRange(0, 6).Draw(c.T, "len(a)")
	if n == m {
		n, m = 0, rapid.IntRange(0, 1).Draw(c.T, "only a")
	}
	b, a := make([]float64, n, 8), make([]float64, m, 8)
	for i := range b {
		b[i] = 1
	}
	for i := range a {
		a[i] = 1
	}
	c.Key(kind, n, m)
	c.NonTrivial(n != m)
	c.Label(kind + " with lists that define no filter")
	c.Samplef("%s with %d coefficients b and %d coefficients a", kind, n, m)
	defer func() {
		if recover() == nil {
			c.Fatalf("%s accepts %d coefficients b with %d coefficients a", kind, n, m)
		}
	}()
	switch kind {
	case "IIRFilter":
		dsp.NewIIRFilter(b, a)
	case "ComplexIIRFilter":
		dsp.NewComplexIIRFilter(b, a)
	default:
		dsp.NewComplexIIRFilter32(to32(b), to32(a))
	}
}

func TestC12(t *testing.T) {
	type proto struct {
		name string
		// mk builds the filter; p is Q, or the shelf slope
		mk func(rate, f, p, gain float64) *dsp.BiQuadFilter
		h  func(s complex128, q, a float64) complex128
	}
	shelfQ := func(a, slope float64) float64 { return 1 / math.Sqrt((a+1/a)*(1/slope-1)+2) }
	den := func(s complex128, q float64) complex128 { return s*s + s/complex(q, 0) + 1 }
	protos := []proto{
		{"NewLowPass", func(r, f, q, g float64) *dsp.BiQuadFilter { return dsp.NewLowPassBiQuadFilter(r, f, q) }, func(s complex128, q, a float64) complex128 { return 1 / den(s, q) }},
		{"NewHighPass", func(r, f, q, g float64) *dsp.BiQuadFilter { return dsp.NewHighPassBiQuadFilter(r, f, q) }, func(s complex128, q, a float64) complex128 { return s * s / den(s, q) }},
		{"NewBandPassConstantSkirtGain", func(r, f, q, g float64) *dsp.BiQuadFilter {
			return dsp.NewBandPassConstantSkirtGainBiQuadFilter(r, f, q)
		}, func(s complex128, q, a float64) complex128 { return s / den(s, q) }},
		{"NewBandPassConstantPeakGain", func(r, f, q, g float64) *dsp.BiQuadFilter {
			return dsp.NewBandPassConstantPeakGainBiQuadFilter(r, f, q)
		}, func(s complex128, q, a float64) complex128 { return s / complex(q, 0) / den(s, q) }},
		{"Notch", func(r, f, q, g float64) *dsp.BiQuadFilter { return dsp.NotchBiQuadFilter(r, f, q) }, func(s complex128, q, a float64) complex128 { return (s*s + 1) / den(s, q) }},
		{"AllPass", func(r, f, q, g float64) *dsp.BiQuadFilter { return dsp.AllPassBiQuadFilter(r, f, q) }, func(s complex128, q, a float64) complex128 { return (s*s - s/complex(q, 0) + 1) / den(s, q) }},
		{"PeakingEQ", func(r, f, q, g float64) *dsp.BiQuadFilter { return dsp.PeakingEQBiQuadFilter(r, f, q, g) }, func(s complex128, q, a float64) complex128 {
			return (s*s + s*complex(a/q, 0) + 1) / (s*s + s*complex(1/(a*q), 0) + 1)
		}},
		{"LowShelf", func(r, f, p, g float64) *dsp.BiQuadFilter { return dsp.LowShelfBiQuadFilter(r, f, p, g) }, func(s complex128, p, a float64) complex128 {
			m := s * complex(math.Sqrt(a)/shelfQ(a, p), 0)
			A := complex(a, 0)
			return A * (s*s + m + A) / (A*s*s + m + 1)
		}},
		{"HighShelf", func(r, f, p, g float64) *dsp.BiQuadFilter { return dsp.HighShelfBiQuadFilter(r, f, p, g) }, func(s complex128, p, a float64) complex128 {
			m := s * complex(math.Sqrt(a)/shelfQ(a, p), 0)
			A := complex(a, 0)
			return A * (A*s*s + m + 1) / (s*s + m + A)
		}},
	}
	for _, p := range protos {
		t.Run(p.name, func(t *testing.T) {
			pbt.Prop(t, "C12/"+p.name, 2, func(c *pbt.Case) {
				rate := rapid.SampledFrom([]float64{1, 8000, 44100, 48000, 2400000, 0.5}).Draw(c.T, "sample rate")
				rel := rapid.OneOf(rapid.Float64Range(0.001, 0.499), rapid.Float64Range(0.001, 0.02), rapid.Float64Range(0.45, 0.499), rapid.Just(0.25)).Draw(c.T, "relative frequency")
				f0 := rel * rate
				gain := rapid.OneOf(rapid.Float64Range(-30, 30), rapid.Float64Range(-3, 3), rapid.Just(0.0), rapid.Float64Range(-90, 90)).Draw(c.T, "gain")
				a := math.Pow(10, gain/40)
				shelf := p.name == "LowShelf" || p.name == "HighShelf"
				var par float64
				if shelf {
					// any slope with real Q
					lim := 1.0
					if x := 1 - 2/(a+1/a); x > 0.1 {
						lim = math.Min(0.95/x, 10)
					}
					par = rapid.OneOf(rapid.Float64Range(0.1, 1), rapid.Just(1.0), rapid.Float64Range(0.1, math.Max(0.2, lim))).Draw(c.T, "slope")
					if (a+1/a)*(1/par-1)+2 < 1e-3 {
						par = 1
					}
				} else {
					par = rapid.OneOf(rapid.Float64Range(0.1, 20), rapid.Just(math.Sqrt2/2), rapid.Float64Range(0.1, 1), rapid.Float64Range(20, 500)).Draw(c.T, "q")
				}
				f := p.mk(rate, f0, par, gain)
				c.Key(p.name, rate, f0, par, gain)
				c.NonTrivial(true)
				c.Label(p.name)
				c.Samplef("%sBiQuadFilter at %v of %v, Q/slope %v, gain %v dB", p.name, f0, rate, par, gain)
				if a1, a2 := f.A1/f.A0, f.A2/f.A0; !(math.Abs(a2) < 1) || !(math.Abs(a1) < 1+a2) {
					c.Fatalf("%sBiQuadFilter(%v, %v, %v, %v) is not stable: a1=%v a2=%v", p.name, rate, f0, par, gain, a1, a2)
				}
				r := pbt.NewRng(c.T, "test frequencies")
				ws := []float64{2 * math.Pi * rel, 1e-3, math.Pi - 1e-3}
				for i := 0; i < 12; i++ {
					ws = append(ws, r.F()*math.Pi*0.9999+1e-6)
				}
				for _, w := range ws {
					z := cmplx.Exp(complex(0, -w))
					num := complex(f.B0, 0) + complex(f.B1, 0)*z + complex(f.B2, 0)*z*z
					dn := complex(f.A0, 0) + complex(f.A1, 0)*z + complex(f.A2, 0)*z*z
					got := num / dn
					s := complex(0, math.Tan(w/2)/math.Tan(math.Pi*rel))
					want := p.h(s, par, a)
					if d := cmplx.Abs(got - want); !(d <= 1e-6*(1+cmplx.Abs(want))) {
						c.Fatalf("%sBiQuadFilter(rate %v, f %v, Q/slope %v, gain %v): response at %v rad/sample is %v, that of the analogue prototype %v", p.name, rate, f0, par, gain, w, got, want)
					}
				}
			})
		})
	}
	t.Run("run", func(t *testing.T) {
		pbt.Prop(t, "C12/run", 4, func(c *pbt.Case) {
			b, a := coefs(c, 2, rapid.SampledFrom([]float64{0.5, 0.9, 0.99}).Draw(c.T, "radius"))
			n := pbt.Longer(c, rapid.IntRange(0, 200).Draw(c.T, "samples"), 1<<16, "stream")
			in := pbt.F64s(c.T, n, "signal")
			level := math.Pow(10, rapid.OneOf(rapid.Just(0.0), rapid.Just(0.0), rapid.Float64Range(-20, 8)).Draw(c.T, "log level"))
			for i := range in {
				in[i] *= level
			}
			f := &dsp.BiQuadFilter{B0: b[0], B1: b[1], B2: b[2], A0: a[0], A1: a[1], A2: a[2]}
			single := rapid.Bool().Draw(c.T, "single precision")
			if s := pbt.NewRng(c.T, "tuned"); s.Intn(4) == 0 {
				// tuned while nothing comes in: some coefficients were others before
				old := []*float64{&f.B0, &f.B1, &f.B2, &f.A0, &f.A1, &f.A2}
				for i, p := range old {
					if s.Bool() {
						*p = s.Sym() * 2
						if i == 3 {
							*p = 1 + s.F()
						}
					}
				}
				z, o := make([]float64, s.Intn(4)), make([]float64, 4)
				if s.Bool() {
					f.Filter(z, o)
				} else {
					f.FilterF32(make([]float32, len(z)), make([]float32, 4))
				}
				f.B0, f.B1, f.B2, f.A0, f.A1, f.A2 = b[0], b[1], b[2], a[0], a[1], a[2]
				c.Label("tuned")
			}
			inPlace := rapid.Bool().Draw(c.T, "in place")
			got := make([]float64, n)
			eps := eps64
			if single {
				eps = eps32
				i32, o32 := to32(in), make([]float32, n)
				for i := range in {
					in[i] = float64(i32[i])
				}
				if inPlace {
					o32 = i32
				}
				f.FilterF32(i32, o32)
				for i := range got {
					got[i] = float64(o32[i])
				}
			} else {
				if inPlace {
					copy(got, in)
					f.Filter(got, got)
				} else {
					f.Filter(in, got)
				}
			}
			want, terms, amp := diffEq(b, a, fromReals(in))
			tol := 80*eps*terms*amp + tiny(eps)*(amp+1)
			c.Key("run", b, a, in, single)
			c.NonTrivial(n > 3 && tol < 1e-2*maxAbs(want))
			c.Label("run")
			c.LabelIf(single, "single precision")
			c.LabelIf(inPlace, "output and input the same slice")
			c.Samplef("BiQuadFilter b=%.4g a=%.4g on %d samples", b, a, n)
			for i := range got {
				if d := math.Abs(got[i] - real(want[i])); !(d <= tol) {
					c.Fatalf("BiQuadFilter b=%v a=%v (single %v): output %d of %d is %v instead of %v", b, a, single, i, n, got[i], real(want[i]))
				}
			}
		})
	})
}

func TestC13(t *testing.T) {
	check := func(name string, eps float64, mk func(a float64) (block func([]float64, bool) []float64, one func(float64) float64)) {
		t.Run(name, func(t *testing.T) {
			pbt.Prop(t, "C13/"+name, 6, func(c *pbt.Case) {
				a := rapid.OneOf(rapid.Float64Range(0, 1), rapid.SampledFrom([]float64{0, 0.5, 0.9, 0.95, 0.995, 0.999, 1}), rapid.Float64Range(-1, 0)).Draw(c.T, "a")
				n := pbt.Longer(c, rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 500)).Draw(c.T, "samples"), 1<<17, "stream")
				in := pbt.F64s(c.T, n, "signal")
				gain := math.Pow(10, rapid.OneOf(rapid.Just(0.0), rapid.Float64Range(-4, 8), rapid.Float64Range(-20, 0)).Draw(c.T, "log gain"))
				constant := rapid.IntRange(0, 2).Draw(c.T, "constant") == 0
				if constant {
					if rapid.IntRange(0, 2).Draw(c.T, "long") == 0 {
						n = rapid.IntRange(500, 5000).Draw(c.T, "constant samples")
						in = make([]float64, n)
					}
					v := rapid.Float64Range(-100, 100).Draw(c.T, "level")
					for i := range in {
						in[i] = v
					}
				}
				for i := range in {
					in[i] *= gain
				}
				if eps == eps32 {
					a = float64(float32(a))
					for i := range in {
						in[i] = float64(float32(in[i]))
					}
				}
				block, one := mk(a)
				cuts := pbt.Cuts(c.T, n, "calls")
				r := pbt.NewRng(c.T, "entry points")
				var got []float64
				pos := 0
				for _, b := range cuts {
					if r.Intn(3) == 0 {
						for _, x := range in[pos : pos+b] {
							got = append(got, one(x))
						}
					} else {
						got = append(got, block(in[pos:pos+b], r.Bool())...)
					}
					pos += b
				}
				c.Key(name, a, in, cuts)
				c.NonTrivial(n > 2 && a != 0)
				c.Label(name)
				c.LabelIf(constant, "constant input")
				c.LabelIf(gain > 1e3, "large input")
				c.LabelIf(gain < 1e-6, "tiny input")
				c.Samplef("%s a=%v: %d samples in calls %v", name, a, n, head(cuts))
				w, big, amp, pw := 0.0, 0.0, 0.0, 1.0
				for i, x := range in {
					prev := w
					w = x + a*w
					big = math.Max(big, math.Abs(w)+math.Abs(x))
					amp += pw
					pw *= math.Abs(a)
					tol := (16*eps*big + tiny(eps)) * (amp + 1)
					if d := math.Abs(got[i] - (w - prev)); !(d <= tol) {
						c.Fatalf("%s a=%v: output %d of %d (calls %v) is %v instead of %v", name, a, i, n, head(cuts), got[i], w-prev)
					}
				}
				if n > 0 && got[0] != in[0] {
					c.Fatalf("%s a=%v: the first output is %v for the first input %v", name, a, got[0], in[0])
				}
				if constant && a >= 0 && a < 1 && n > 0 {
					last := math.Abs(got[n-1])
					if lim := math.Abs(in[0])*math.Pow(a, float64(n-1)) + (40*eps*math.Abs(in[0])+tiny(eps))/(1-a); !(last <= lim*(1+1e-3)) {
						c.Fatalf("%s a=%v: constant %v still gives %v after %d samples", name, a, in[0], got[n-1], n)
					}
				}
			})
		})
	}
	check("DCFilter", eps64, func(a float64) (func([]float64, bool) []float64, func(float64) float64) {
		f := dsp.NewDCFilter(a)
		return func(in []float64, inPlace bool) []float64 {
			out := make([]float64, len(in))
			if inPlace {
				copy(out, in)
				f.Filter(out, out)
			} else {
				f.Filter(in, out)
			}
			return out
		}, f.FilterOne
	})
	check("DCFilter32", eps32, func(a float64) (func([]float64, bool) []float64, func(float64) float64) {
		f := dsp.NewDCFilter32(float32(a))
		return func(in []float64, inPlace bool) []float64 {
				i32 := to32(in)
				out := make([]float32, len(in))
				if inPlace {
					out = i32
				}
				f.Filter(i32, out)
				o := make([]float64, len(in))
				for i, x := range out {
					o[i] = float64(x)
				}
				return o
			}, func(x float64) float64 {
				return float64(f.FilterOne(float32(x)))
			}
	})
}

// oddSamples draws positions of infinite, undefined and huge samples: their groups are not judged,
// but the others must not notice.
func oddSamples(c *pbt.Case, n int) map[int]float32 {
	odd := map[int]float32{}
	if n == 0 || rapid.IntRange(0, 3).Draw(c.T, "odd samples") > 0 {
		return odd
	}
	c.Label("infinite, undefined or huge samples")
	for k := rapid.IntRange(1, 3).Draw(c.T, "how many"); k > 0; k-- {
		odd[rapid.IntRange(0, n-1).Draw(c.T, "odd at")] = rapid.SampledFrom([]float32{float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), 1e30, -1e30}).Draw(c.T, "odd")
	}
	return odd
}

func TestC14(t *testing.T) {
	t.Run("Complex", func(t *testing.T) {
		pbt.Prop(t, "C14/Complex", 5, func(c *pbt.Case) {
			d := rapid.OneOf(rapid.IntRange(1, 10), rapid.IntRange(1, 200), rapid.IntRange(1, 5000)).Draw(c.T, "factor")
			n := pbt.Longer(c, rapid.OneOf(rapid.IntRange(0, 60), rapid.IntRange(0, 1200)).Draw(c.T, "samples"), 1<<18, "stream")
			r := pbt.NewRng(c.T, "signal")
			if d > 200 {
				n += r.Intn(3 * d)
			}
			ints := rapid.Bool().Draw(c.T, "integers")
			in := make([]complex64, n)
			for i := range in {
				if ints {
					in[i] = complex(float32(r.Range(-128, 127)), float32(r.Range(-128, 127)))
				} else {
					in[i] = complex(float32(r.Sym()), float32(r.Sym()))
				}
			}
			odd := oddSamples(c, n)
			for i, v := range odd {
				in[i] = complex(v, 0)
				if r.Bool() {
					in[i] = complex(0, v)
				}
			}
			cuts := pbt.Cuts(c.T, n, "calls")
			f := dsp.LowPassDownsampleComplexFilter{Downsample: d}
			var got []complex64
			pos := 0
			for _, b := range cuts {
				blk := place(c, in[pos:pos+b], "block")
				got = append(got, f.Filter(blk)...)
				pos += b
				if len(got) != pos/d {
					c.Fatalf("factor %d: %d outputs after %d samples in calls %v", d, len(got), pos, head(cuts))
				}
			}
			c.Key("complex", d, in, cuts)
			c.NonTrivial(len(got) > 1 && d > 1)
			c.Label("LowPassDownsampleComplexFilter")
			c.LabelIf(n%d != 0, "incomplete group at the end")
			c.Samplef("factor %d: %d samples in calls %v", d, n, head(cuts))
			for i, g := range got {
				var want complex128
				skip := false
				for k, x := range in[i*d : (i+1)*d] {
					want += complex128(x)
					_, o := odd[i*d+k]
					skip = skip || o
				}
				if skip {
					continue
				}
				tol := 0.0
				if !ints {
					tol = eps32 * float64(d) * float64(d) * 2
				}
				if !(cmplx.Abs(complex128(g)-want) <= tol) {
					c.Fatalf("factor %d: output %d of %d (calls %v) is %v instead of %v", d, i, len(got), head(cuts), g, want)
				}
			}
		})
	})
	t.Run("Rational", func(t *testing.T) {
		pbt.Prop(t, "C14/Rational", 5, func(c *pbt.Case) {
			fast := rapid.OneOf(rapid.IntRange(1, 12), rapid.IntRange(1, 1000), rapid.IntRange(1, 400000)).Draw(c.T, "fast")
			slow := rapid.IntRange(1, fast).Draw(c.T, "slow")
			switch rapid.IntRange(0, 3).Draw(c.T, "ratio kind") {
			case 0:
				slow = max1(1, fast/rapid.IntRange(1, 8).Draw(c.T, "divisor"))
			case 1:
				slow = fast - min(fast-1, rapid.IntRange(0, 3).Draw(c.T, "close"))
			}
			n := pbt.Longer(c, rapid.OneOf(rapid.IntRange(0, 60), rapid.IntRange(0, 1200)).Draw(c.T, "samples"), 1<<18, "stream")
			r := pbt.NewRng(c.T, "signal")
			in := make([]float32, n)
			for i := range in {
				in[i] = float32(r.Range(-128, 127))
			}
			odd := oddSamples(c, n)
			for i, v := range odd {
				in[i] = v
			}
			cuts := pbt.Cuts(c.T, n, "calls")
			f := dsp.LowPassDownsampleRationalFilter{Fast: fast, Slow: slow}
			var got []float32
			pos := 0
			count := func(n int) int { return int(int64(n) * int64(slow) / int64(fast)) }
			for _, b := range cuts {
				got = append(got, f.Filter(place(c, in[pos:pos+b], "block"))...)
				pos += b
				if len(got) != count(pos) {
					c.Fatalf("ratio %d/%d: %d outputs after %d samples in calls %v instead of %d", slow, fast, len(got), pos, head(cuts), count(pos))
				}
			}
			c.Key("rational", fast, slow, in, cuts)
			c.NonTrivial(len(got) > 1 && slow != fast)
			c.Label("LowPassDownsampleRationalFilter")
			c.LabelIf(slow != 0 && fast%slow != 0, "fractional ratio")
			c.Samplef("ratio %d/%d: %d samples in calls %v", slow, fast, n, head(cuts))
			ratio := float64(slow) / float64(fast)
			k, sum, skip := 0, 0.0, false
			for i, x := range in {
				sum += float64(x)
				if _, o := odd[i]; o {
					skip = true
				}
				if count(i+1) > k {
					want := sum * ratio
					if !skip && !(math.Abs(float64(got[k])-want) <= 4*eps32*math.Abs(want)) {
						c.Fatalf("ratio %d/%d: output %d of %d (calls %v) is %v instead of %v", slow, fast, k, len(got), head(cuts), got[k], want)
					}
					k++
					sum, skip = 0, false
				}
			}
		})
	})
}
