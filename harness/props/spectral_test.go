package props

import (
	"fmt"
	"math"
	"math/cmplx"
	"testing"

	"github.com/samuel/go-dsp/dsp"
	"github.com/samuel/go-dsp/dsp/dtmf"
	"pgregory.net/rapid"
	"verif/harness/pbt"
)

// dtft is the transform of x at bin k of n (k may be any integer).
func dtft(x []complex128, k, n int) complex128 {
	var s complex128
	k %= n
	for i, v := range x {
		// reduce the phase in integers: exact for every length
		p := 2 * math.Pi * float64(k*i%n) / float64(n)
		sn, cs := math.Sincos(p)
		s += v * complex(cs, -sn)
	}
	return s
}

// nearestBins returns the bin nearest to f, or both when the frequency lies halfway between two.
func nearestBins(f uint64, rate, block int) []int {
	num := 2*uint64(block)*f + uint64(rate)
	k := int(num / (2 * uint64(rate)))
	if num%(2*uint64(rate)) == 0 && k > 0 {
		return []int{k, k - 1}
	}
	return []int{k}
}

// oddSignals vanish at 0, at half or at a quarter of the sample rate.
var oddSignals = [][]float64{{}, {1, -2, 1}, {1, 2, 1}, {1, -1}, {1, 1}, {1, 0, 1}, {1, 0, -1}, {1}, {1, -2, 1, 0}, {1, -3, 3, -1}}

func TestC15(t *testing.T) {
	type instance struct {
		feed  func([]complex128)
		reset func()
		mag   func() []float64
		cplx  func() []complex128
	}
	kinds := []struct {
		name string
		eps  float64
		cplx bool
		mk   func(fr []uint64, rate, block int) instance
	}{
		{"Goertzel", eps64, false, func(fr []uint64, rate, block int) instance {
			g := dsp.NewGoertzel(fr, rate, block)
			return instance{func(b []complex128) { g.Feed(realsOf(b)) }, g.Reset, g.Magnitude, g.Complex}
		}},
		{"Goertzel32", eps32, false, func(fr []uint64, rate, block int) instance {
			g := dsp.NewGoertzel32(fr, rate, block)
			return instance{func(b []complex128) { g.Feed(reals32(b)) }, g.Reset, func() []float64 { return realsOf(from32(g.Magnitude())) }, func() []complex128 { return fromC64(g.Complex()) }}
		}},
		{"ComplexGoertzel", eps64, true, func(fr []uint64, rate, block int) instance {
			g := dsp.NewComplexGoertzel(fr, rate, block)
			return instance{g.Feed, g.Reset, g.Magnitude, g.Complex}
		}},
	}
	for _, k := range kinds {
		t.Run(k.name, func(t *testing.T) {
			pbt.Prop(t, "C15/"+k.name, 1, func(c *pbt.Case) {
				rate := rapid.OneOf(rapid.SampledFrom([]int{8000, 44100, 48000, 11025, 1000, 7}), rapid.IntRange(1, 100000), rapid.SampledFrom([]int{2400000, 1e9, 1<<31 - 1})).Draw(c.T, "sample rate")
				block := pbt.Longer(c, rapid.OneOf(rapid.IntRange(1, 40), rapid.IntRange(1, 300), rapid.SampledFrom([]int{205, 256, 64})).Draw(c.T, "block size"), 20000, "block")
				var fr []uint64
				edges := false
				for i := rapid.IntRange(0, 5).Draw(c.T, "targets"); i > 0; i-- {
					switch rapid.IntRange(0, 4).Draw(c.T, "target kind") {
					case 4: // at the edge of a bin
						k := uint64(rapid.IntRange(0, block).Draw(c.T, "bin"))
						fr = append(fr, (2*k+1)*uint64(rate)/(2*uint64(block))+uint64(rapid.IntRange(0, 1).Draw(c.T, "above")))
						edges = true
					case 0: // exactly a bin, if the rate allows
						fr = append(fr, uint64(rapid.IntRange(0, block-1).Draw(c.T, "bin"))*uint64(rate)/uint64(block))
					case 1:
						if len(fr) > 0 {
							fr = append(fr, fr[0])
							break
						}
						fallthrough
					case 2:
						fr = append(fr, uint64(rapid.IntRange(0, rate/2).Draw(c.T, "target")))
					default:
						fr = append(fr, rapid.Uint64Range(0, 3*uint64(rate)).Draw(c.T, "target"))
					}
				}
				given := append([]uint64(nil), fr...)
				g := k.mk(fr, rate, block)
				r := pbt.NewRng(c.T, "history")
				for i := range fr { // the caller's slice is the caller's
					fr[i] = 3
				}
				var cur []complex128
				c.Key(k.name, rate, block, fmt.Sprint(given))
				checks, resets, dropped, exact := 0, 0, 0, 0
				descr := fmt.Sprintf("%s targets %v rate %d block %d:", k.name, given, rate, block)
				amp := 0.0
				steps := r.Range(1, 14)
				for st := 0; st < steps; st++ {
					op := r.Intn(7)
					if st == steps-1 {
						op = 6
					}
					switch op {
					case 0, 1, 2, 3:
						n := r.Intn(2*block + 2)
						if op == 1 || op == 2 { // up to the end of the block
							n = max(0, block-len(cur))
						}
						b := make([]complex128, n)
						odd, at, a32 := -1, 0, math.Ldexp(1, r.Range(-8, 8))
						if r.Intn(5) == 0 {
							odd, at = r.Intn(len(oddSignals)), r.Intn(n+1)
							if r.Bool() {
								at = 0
							}
						}
						w, ph, a := 2*math.Pi*r.F(), 6*r.F(), math.Pow(10, r.Sym()*3)
						if r.Bool() && len(given) > 0 {
							w = 2 * math.Pi * float64(given[0]) / float64(rate)
						}
						for i := range b {
							v := cmplx.Rect(a, w*float64(i)+ph) + complex(a*0.2*r.Sym(), a*0.2*r.Sym())
							if !k.cplx {
								v = complex(real(v), 0)
							}
							b[i] = complex128(complex64(v))
							if odd >= 0 { // accumulators that are exactly zero
								b[i] = 0
								if j := i - at; j >= 0 && j < len(oddSignals[odd]) {
									b[i] = complex(a32*oddSignals[odd][j], 0)
								}
							}
							amp = math.Max(amp, cmplx.Abs(b[i]))
						}
						c.Key(n, w, ph, a, odd, at)
						g.feed(b)
						cur = append(cur, b...)
						descr += fmt.Sprintf(" feed %d", n)
					case 4:
						g.reset()
						dropped += len(cur)
						cur = nil
						resets++
						descr += " reset"
					default:
						N, q := float64(len(cur)), 0.0
						qm := r.Bool()
						if qm {
							g.cplx()
						}
						mag := append([]float64(nil), g.mag()...)
						cx := append([]complex128(nil), g.cplx()...)
						descr += " query"
						checks++
						if len(mag) != len(given) || len(cx) != len(given) {
							c.Fatalf("%s: %d magnitudes and %d complex results for %d targets", descr, len(mag), len(cx), len(given))
						}
						for i, f := range given {
							okMag, okCx := false, len(cur) != block
							var want []string
							for _, bin := range nearestBins(f, rate, block) {
								x := dtft(cur, bin%block, block)
								sn := math.Abs(math.Sin(2 * math.Pi * float64(bin%block) / float64(block)))
								q = amp * N * math.Min(N, 1/math.Max(sn, 1e-6))
								tolC := 1e-12*N*N*amp + 4*k.eps*cmplx.Abs(x) + 1e-300
								tolM := 2*cmplx.Abs(x)*tolC + tolC*tolC + 64*eps64*q*q + 4*k.eps*real(x*cmplx.Conj(x)) + 1e-36
								if math.Abs(mag[i]-real(x*cmplx.Conj(x))) <= tolM {
									okMag = true
								}
								if len(cur) == block && cmplx.Abs(cx[i]-x) <= tolC {
									okCx = true
								}
								want = append(want, fmt.Sprint(x, " squared modulus ", real(x*cmplx.Conj(x))))
							}
							if !okMag {
								c.Fatalf("%s: %d samples since reset, target %d (%d Hz): magnitude %v, the transform is %v", descr, len(cur), i, f, mag[i], want)
							}
							if !okCx {
								c.Fatalf("%s: %d samples since reset, target %d (%d Hz): complex result %v, the transform is %v", descr, len(cur), i, f, cx[i], want)
							}
						}
						if len(cur) == block {
							exact++
						}
					}
				}
				c.NonTrivial(checks > 0 && len(given) > 0 && amp > 0)
				c.Label(k.name)
				c.LabelIf(exact > 0, "exactly one block fed")
				c.LabelIf(dropped > 0, "history dropped by Reset")
				c.LabelIf(len(given) > 1, "several targets")
				c.LabelIf(edges, "target next to the edge of a bin")
				c.Samplef("%s", descr)
			})
		})
	}
}

func TestC16(t *testing.T) {
	kinds := []struct {
		name string
		eps  float64
		mk   func(k, n int, w []float64) func(complex128) complex128
	}{
		{"SDFT", eps64, func(k, n int, w []float64) func(complex128) complex128 {
			return dsp.NewSDFT(k, n, w).Filter
		}},
		{"SDFT32", eps32, func(k, n int, w []float64) func(complex128) complex128 {
			f := dsp.NewSDFT32(k, n, to32(w))
			return func(x complex128) complex128 { return complex128(f.Filter(complex64(x))) }
		}},
	}
	tables := [][]float64{dsp.HanningFreqCoeff, dsp.HammingFreqCoeff, dsp.BlackmanFreqCoeff}
	for _, k := range kinds {
		t.Run(k.name, func(t *testing.T) {
			pbt.Prop(t, "C16/"+k.name, 1, func(c *pbt.Case) {
				n := pbt.Longer(c, rapid.OneOf(rapid.IntRange(1, 9), rapid.IntRange(1, 70)).Draw(c.T, "N"), 1024, "N")
				bin := rapid.IntRange(0, n-1).Draw(c.T, "bin")
				if e := rapid.IntRange(0, 5).Draw(c.T, "edge"); e < 2 {
					bin = e * (n - 1)
				}
				var win []float64
				switch rapid.IntRange(0, 3).Draw(c.T, "window kind") {
				case 0:
				case 1:
					win = append(win, rapid.SampledFrom(tables).Draw(c.T, "table")...)
				default:
					for i := rapid.IntRange(1, 8).Draw(c.T, "window length"); i > 0; i-- {
						win = append(win, float64(float32(rapid.Float64Range(-2, 2).Draw(c.T, "w"))))
					}
				}
				if len(win) > n {
					win = win[:n]
				}
				given := append([]float64(nil), win...)
				f := k.mk(bin, n, win)
				for i := range win {
					win[i] = 77
				}
				m := pbt.Longer(c, rapid.OneOf(rapid.IntRange(1, 3*n+3), rapid.IntRange(1, 300)).Draw(c.T, "samples"), 1<<17, "stream")
				in := pbt.C128s(c.T, m, "signal")
				for i := range in {
					in[i] = complex128(complex64(in[i]))
				}
				c.Key(k.name, n, bin, given, in)
				c.NonTrivial(m > 1 && maxAbs(in) > 0)
				c.Label(k.name)
				c.LabelIf(m > n, "samples leave the window")
				c.LabelIf(len(given) > 1, "frequency-domain window")
				c.LabelIf(len(given) > 1 && (bin < len(given)/2 || bin+len(given)/2 >= n), "bins wrap around")
				c.Samplef("%s bin %d of %d, window %v, %d samples", k.name, bin, n, given, m)
				w := given
				if len(w) == 0 {
					w = []float64{1}
				}
				sw := 0.0
				for _, v := range w {
					sw += math.Abs(v)
				}
				amp := maxAbs(in) * 1.5
				last := make([]complex128, n)
				for i, x := range in {
					got := f(x)
					last = append(last[1:], x)
					// all bins each time would be quadratic: check the first ones, the last one and some
					if (i > 2*n && i%7 != 0 || n*m > 100000 && i%(n*m/20000) != 0) && i != m-1 {
						continue
					}
					var want complex128
					for q, v := range w {
						want += complex(v, 0) * dtft(last, ((bin-len(w)/2+q)%n+n)%n, n)
					}
					tol := k.eps*(8+2*float64(i+n))*float64(n+1)*amp*sw + tiny(k.eps)
					if d := cmplx.Abs(got - want); !(d <= tol) {
						c.Fatalf("%s bin %d of %d, window %v, after sample %d: %v, the DFT of the last %d samples gives %v", k.name, bin, n, given, i, got, n, want)
					}
				}
			})
		})
	}
	// With the tables the result is the DFT of the windowed samples.
	t.Run("tables", func(t *testing.T) {
		pbt.Prop(t, "C16/tables", 0.5, func(c *pbt.Case) {
			i := rapid.IntRange(0, 2).Draw(c.T, "table")
			n := rapid.IntRange(5, 60).Draw(c.T, "N")
			bin := rapid.IntRange(0, n-1).Draw(c.T, "bin")
			wf := []func([]float64){dsp.HanningWindow, dsp.HammingWindow, dsp.BlackmanWindow}[i]
			win := make([]float64, n+1)
			wf(win)
			m := rapid.IntRange(1, 150).Draw(c.T, "samples")
			in := pbt.C128s(c.T, m, "signal")
			s := dsp.NewSDFT(bin, n, tables[i])
			last := make([]complex128, n)
			var got complex128
			for _, x := range in {
				got = s.Filter(x)
				last = append(last[1:], x)
			}
			for j := range last {
				last[j] *= complex(win[j], 0)
			}
			want := dtft(last, bin, n)
			c.Key(i, n, bin, in)
			c.NonTrivial(maxAbs(in) > 0)
			c.Label("frequency-domain window tables")
			if d := cmplx.Abs(got - want); !(d <= eps64*float64(10+2*m+2*n)*float64(n)*maxAbs(in)*3+1e-300) {
				c.Fatalf("table %d, bin %d of %d after %d samples: %v, the DFT of the windowed samples is %v", i, bin, n, m, got, want)
			}
		})
	})
}

func TestC17(t *testing.T) {
	cosine := func(a ...float64) func(n, l int) float64 {
		return func(n, l int) float64 {
			if l == 1 {
				return 1
			}
			v, sign := 0.0, 1.0
			for i, c := range a {
				v += sign * c * math.Cos(2*math.Pi*float64(i*n)/float64(l-1))
				sign = -sign
			}
			return v
		}
	}
	windows := []struct {
		name string
		f    func([]float64)
		f32  func([]float32)
		def  func(n, l int) float64
	}{
		{"Triangle", dsp.TriangleWindow, dsp.TriangleWindowF32, func(n, l int) float64 {
			return 1 - math.Abs(float64(2*n-(l-1)))/float64(l+1)
		}},
		{"Hamming", dsp.HammingWindow, dsp.HammingWindowF32, cosine(0.53836, 0.46164)},
		{"Hanning", dsp.HanningWindow, dsp.HanningWindowF32, cosine(0.5, 0.5)},
		{"Blackman", dsp.BlackmanWindow, dsp.BlackmanWindowF32, cosine(0.42, 0.5, 0.08)},
		{"Nuttall", dsp.NuttallWindow, dsp.NuttallWindowF32, cosine(0.355768, 0.487396, 0.144232, 0.012604)},
	}
	for _, w := range windows {
		t.Run(w.name, func(t *testing.T) {
			pbt.Prop(t, "C17/"+w.name, 1, func(c *pbt.Case) {
				hi := 2000
				if pbt.Thorough() {
					hi = 40000
				}
				l := rapid.OneOf(rapid.IntRange(0, 70), rapid.IntRange(0, 600), rapid.IntRange(0, hi)).Draw(c.T, "length")
				l = pbt.Longer(c, l, 40000, "window")
				junk := rapid.SampledFrom([]float64{0, 1e9, -3, math.Inf(1), math.NaN()}).Draw(c.T, "previous contents")
				off := rapid.IntRange(0, 8).Draw(c.T, "alignment")
				buf, buf32 := make([]float64, off+l+3), make([]float32, off+l+3)
				for i := range buf {
					buf[i], buf32[i] = junk, float32(junk)
				}
				v, v32 := buf[off:off+l], buf32[off:off+l]
				w.f(v)
				w.f32(v32)
				c.Key(w.name, l, off, junk)
				c.NonTrivial(l > 2)
				c.Label(w.name)
				c.LabelIf(l%2 == 1, "odd length")
				c.LabelIf(l <= 3, "length 0..3")
				c.Samplef("%s window of length %d", w.name, l)
				same := func(a, b float64) bool { return a == b || a != a && b != b }
				for i := range buf {
					if (i < off || i >= off+l) && (!same(buf[i], junk) || !same(float64(buf32[i]), float64(float32(junk)))) {
						c.Fatalf("%s(%d) wrote outside its slice", w.name, l)
					}
				}
				for n := 0; n < l; n++ {
					want := w.def(n, l)
					if !(math.Abs(v[n]-want) <= 1e-11) {
						c.Fatalf("%s(%d)[%d] = %v, defined as %v", w.name, l, n, v[n], want)
					}
					if !(math.Abs(float64(v32[n])-v[n]) <= 1.3e-7) {
						c.Fatalf("%s(%d)[%d] = %v in single and %v in double precision", w.name, l, n, v32[n], v[n])
					}
					if !(v[n] <= 1+1e-12 && v32[n] <= 1+2e-7) {
						c.Fatalf("%s(%d)[%d] = %v, %v exceeds 1", w.name, l, n, v[n], v32[n])
					}
					if d := math.Abs(v[n] - v[l-1-n]); !(d <= 1e-11) {
						c.Fatalf("%s(%d) is not symmetric: [%d] = %v, [%d] = %v", w.name, l, n, v[n], l-1-n, v[l-1-n])
					}
				}
				if l%2 == 1 && (!(math.Abs(v[l/2]-1) <= 1e-11) || !(math.Abs(float64(v32[l/2])-1) <= 1.3e-7)) {
					c.Fatalf("%s(%d) is %v, %v at its centre", w.name, l, v[l/2], v32[l/2])
				}
			})
		})
	}
	t.Run("tables", func(t *testing.T) {
		tables := []struct {
			name string
			f    func([]float64)
			v    []float64
			v32  []float32
		}{
			{"Blackman", dsp.BlackmanWindow, dsp.BlackmanFreqCoeff, dsp.BlackmanFreqCoeff32},
			{"Hamming", dsp.HammingWindow, dsp.HammingFreqCoeff, dsp.HammingFreqCoeff32},
			{"Hanning", dsp.HanningWindow, dsp.HanningFreqCoeff, dsp.HanningFreqCoeff32},
		}
		pbt.Prop(t, "C17/tables", 1, func(c *pbt.Case) {
			tb := rapid.SampledFrom(tables).Draw(c.T, "table")
			n := rapid.IntRange(5, 200).Draw(c.T, "period")
			w := make([]float64, n+1)
			tb.f(w)
			x := fromReals(w[:n])
			c.Key(tb.name, n)
			c.NonTrivial(true)
			c.Label("coefficient tables")
			if len(tb.v) != len(tb.v32) || len(tb.v)%2 != 1 {
				c.Fatalf("%s tables have %d and %d elements", tb.name, len(tb.v), len(tb.v32))
			}
			h := len(tb.v) / 2
			for k := -n / 2; k < n-n/2; k++ {
				got := dtft(x, (k+n)%n, n) / complex(float64(n), 0)
				want := 0.0
				if k >= -h && k <= h {
					want = tb.v[k+h]
					if !(math.Abs(float64(tb.v32[k+h])-want) <= 1e-7) {
						c.Fatalf("%s tables differ at %d: %v, %v", tb.name, k+h, tb.v[k+h], tb.v32[k+h])
					}
				}
				if !(cmplx.Abs(got-complex(want, 0)) <= 1e-10) {
					c.Fatalf("%s: coefficient %d of the window of period %d is %v, the table has %v", tb.name, k, n, got, want)
				}
			}
		})
	})
}

// interpolation kernels: the weights of the samples at floor(x)+lo ... for the fraction f.
type kernel struct {
	name string
	lo   int
	w    func(f float64) []float64
	f    func([]float64, float64) float64
	f32  func([]float32, float32) float32
}

// zform builds weights from the polynomial coefficients of the even and odd pairs (inner to outer).
func zform(coef ...[]float64) func(f float64) []float64 {
	return func(f float64) []float64 {
		z := f - 0.5
		pairs := len(coef[0])
		w := make([]float64, 2*pairs)
		p := 1.0
		for i, c := range coef {
			for j, v := range c {
				w[pairs+j] += v * p
				if i%2 == 0 {
					w[pairs-1-j] += v * p
				} else {
					w[pairs-1-j] -= v * p
				}
			}
			p *= z
		}
		return w
	}
}

var kernels = []kernel{
	{"Linear", 0, func(f float64) []float64 { return []float64{1 - f, f} }, dsp.Linear, dsp.LinearF32},
	{"Hermite4p3o", -1, func(f float64) []float64 {
		// Catmull-Rom
		return []float64{((-0.5*f+1)*f - 0.5) * f, (1.5*f-2.5)*f*f + 1, ((-1.5*f+2)*f + 0.5) * f, (0.5*f - 0.5) * f * f}
	}, dsp.Hermite4p3o, dsp.Hermite4p3oF32},
	{"Optimal2x4p4o", -1, zform(
		[]float64{0.45645918406487612, 0.04354173901996461},
		[]float64{0.47236675362442071, 0.17686613581136501},
		[]float64{-0.253674794204558521, 0.25371918651882464},
		[]float64{-0.37917091811631082, 0.11952965967158000},
		[]float64{0.04252164479749607, -0.04289144034653719},
	), dsp.Optimal2x4p4o, dsp.Optimal2x4p4oF32},
	{"Optimal2x6p5o", -2, zform(
		[]float64{0.40513396007145713, 0.09251794438424393, 0.00234806603570670},
		[]float64{0.28342806338906690, 0.21703277024054901, 0.01309294748731515},
		[]float64{-0.191337682540351941, 0.16187844487943592, 0.02946017143111912},
		[]float64{-0.16471626190554542, -0.00154547203542499, 0.03399271444851909},
		[]float64{0.03845798729588149, -0.05712936104242644, 0.01866750929921070},
		[]float64{0.04317950185225609, -0.01802814255926417, 0.00152170021558204},
	), dsp.Optimal2x6p5o, dsp.Optimal2x6p5oF32},
}

func (k kernel) ref(s []float64, x float64) float64 {
	if k.name == "Linear" && !(x >= 0 && x < float64(len(s))) {
		return 0
	}
	fl := math.Floor(x)
	v := 0.0
	for i, w := range k.w(x - fl) {
		if j := fl + float64(k.lo+i); j >= 0 && j < float64(len(s)) {
			v += w * s[int(j)]
		}
	}
	return v
}

func TestC18(t *testing.T) {
	for _, k := range kernels {
		t.Run(k.name, func(t *testing.T) {
			pbt.Prop(t, "C18/"+k.name, 1, func(c *pbt.Case) {
				n := pbt.Longer(c, rapid.OneOf(rapid.IntRange(0, 8), rapid.IntRange(0, 60)).Draw(c.T, "samples"), 5000, "table")
				kind := rapid.IntRange(0, 2).Draw(c.T, "signal")
				s := make([]float64, n)
				r := pbt.NewRng(c.T, "signal seed")
				p0, p1, p2 := r.Sym()*10, r.Sym()*4, r.Sym()
				if k.name == "Linear" {
					p2 = 0
				}
				if kind == 0 {
					s = pbt.F64s(c.T, n, "signal")
				}
				for i := range s {
					switch kind {
					case 1:
						s[i] = p0 + p1*float64(i) + p2*float64(i)*float64(i)
					case 2:
						s[i] = float64(r.Range(-100, 100))
					}
				}
				s32 := to32(s)
				amp := 1e-30
				for i := range s {
					if kind != 1 {
						s[i] = float64(s32[i])
					}
					amp = math.Max(amp, math.Abs(s[i]))
				}
				keep, keep32 := append([]float64(nil), s...), append([]float32(nil), s32...)
				for q := 0; q < 6; q++ {
					var x float64
					switch rapid.IntRange(0, 7).Draw(c.T, "position kind") {
					case 0, 1:
						x = float64(rapid.IntRange(-4, n+4).Draw(c.T, "integer position"))
					case 2:
						x = rapid.SampledFrom([]float64{1e3, -1e3, 1e10, -1e10, 1e18, -1e18, 9.3e18, -9.3e18, 1e19, -1e19, 1e30, -1e30, math.MaxFloat32, -math.MaxFloat32, 1 << 31, -1 << 31, 1<<32 + 1, 1 << 33, -1 << 32, 2147483646.5, -2147483649.5, -1e-30, 1e-30, -1e-9, math.Copysign(0, -1)}).Draw(c.T, "extreme position")
						c.Label("extreme position")
					case 3:
						x = float64(rapid.IntRange(-3, n+3).Draw(c.T, "near")) + rapid.SampledFrom([]float64{1e-9, -1e-9, 1e-5, -1e-5, 0.5}).Draw(c.T, "offset")
					default:
						x = rapid.Float64Range(-4, float64(n+4)).Draw(c.T, "position")
					}
					c.Key(k.name, s, x)
					in := x >= 0 && x < float64(n)
					c.NonTrivial(in && amp > 1e-30)
					c.LabelIf(in, "inside the samples")
					c.LabelIf(x == math.Floor(x), "integer position")
					c.Samplef("%s of %d samples at %v", k.name, n, x)
					var got float64
					if p := pbt.Catch(func() { got = k.f(s, x) }); p != nil {
						c.Fatalf("%s of %d samples at %v panics: %v", k.name, n, x, p)
					}
					want := k.ref(s, x)
					if !(math.Abs(got-want) <= 1e-13*amp) {
						c.Fatalf("%s of %v at %v: %v instead of %v", k.name, s, x, got, want)
					}
					x32 := float32(x)
					var got32 float32
					if p := pbt.Catch(func() { got32 = k.f32(s32, x32) }); p != nil {
						c.Fatalf("%sF32 of %d samples at %v panics: %v", k.name, n, x32, p)
					}
					want32 := k.ref(realsOf(from32(s32)), float64(x32))
					// a negative position whose fraction rounds up to 1 is as far as single precision goes
					if !(math.Abs(float64(got32)-want32) <= 4e-6*amp) {
						c.Fatalf("%sF32 of %v at %v: %v instead of %v", k.name, s32, x32, got32, want32)
					}
					if x == math.Floor(x) && (k.name == "Linear" || k.name == "Hermite4p3o") {
						want := 0.0
						if in {
							want = s[int(x)]
						}
						if got != want || float64(got32) != float64(float32(want)) && float64(x32) == x {
							c.Fatalf("%s of %v at the integer position %v: %v, %v instead of the sample %v", k.name, s, x, got, got32, want)
						}
					}
					if kind == 1 && k.name[0] != 'O' && x+float64(k.lo) >= 0 && math.Floor(x)-float64(k.lo)+1 <= float64(n-1) {
						want := p0 + p1*x + p2*x*x
						if !(math.Abs(got-want) <= 1e-12*(amp+1)) {
							c.Fatalf("%s of a polynomial of %d samples at %v: %v instead of %v", k.name, n, x, got, want)
						}
						c.Label("polynomial reproduced")
					}
					// shift invariance (the optimal kernels are not continuous at the grid): d samples in front (zeros for those before the start)
					if math.Abs(x) < 1000 && k.name != "Linear" {
						d := rapid.IntRange(0, 5).Draw(c.T, "shift")
						sh := append(make([]float64, d), s...)
						if g := k.f(sh, x+float64(d)); math.Floor(x+float64(d)) == math.Floor(x)+float64(d) && !(math.Abs(g-got) <= 1e-11*amp) {
							c.Fatalf("%s of %v at %v: %v, but %v when moved by %d", k.name, s, x, got, g, d)
						}
					}
				}
				if !same(s, keep) || !same(s32, keep32) {
					c.Fatalf("%s changed the samples", k.name)
				}
			})
		})
	}
}

func TestC19(t *testing.T) {
	wins := []struct {
		name string
		f    func([]float32)
	}{
		{"nil", nil}, {"Hamming", dsp.HammingWindowF32}, {"Hanning", dsp.HanningWindowF32}, {"Blackman", dsp.BlackmanWindowF32},
		{"rectangle", func(w []float32) {
			for i := range w {
				w[i] = 1
			}
		}},
	}
	t.Run("blocks", func(t *testing.T) {
		pbt.Prop(t, "C19/blocks", 2, func(c *pbt.Case) {
			rate := rapid.SampledFrom([]int{8000, 11025, 16000, 22050, 44100, 48000}).Draw(c.T, "sample rate")
			block := pbt.Longer(c, rapid.OneOf(rapid.IntRange(1, 30), rapid.IntRange(1, 400), rapid.SampledFrom([]int{205, 51, 102, 160})).Draw(c.T, "block size"), 9000, "block")
			low, high := dtmf.StdLowFreq, dtmf.StdHighFreq
			win := wins[1]
			var d *dtmf.DTMF
			if std := rapid.Bool().Draw(c.T, "standard"); std {
				d = dtmf.NewStandard(rate, block)
			} else {
				many := rapid.IntRange(0, 19).Draw(c.T, "many frequencies") == 13
				c.LabelIf(many, "many frequencies")
				draw := func(l string) (f []uint64) {
					n := rapid.IntRange(1, 5).Draw(c.T, l+" count")
					if many {
						n += 15
						block = min(block, 400)
					}
					for i := n; i > 0; i-- {
						f = append(f, uint64(rapid.IntRange(0, rate/2).Draw(c.T, l)))
					}
					return
				}
				if rapid.Bool().Draw(c.T, "own frequencies") {
					low, high = draw("low"), draw("high")
				}
				win = rapid.SampledFrom(wins).Draw(c.T, "window")
				d = dtmf.New(low, high, rate, block, win.f)
			}
			w := make([]float32, block)
			if win.f != nil {
				win.f(w)
			} else {
				dsp.HammingWindowF32(w)
			}
			r := pbt.NewRng(c.T, "blocks")
			c.Key(rate, block, win.name, fmt.Sprint(low, high))
			descr := fmt.Sprintf("rate %d block %d window %s low %v high %v:", rate, block, win.name, low, high)
			nz, over := 0, false
			for st := r.Range(1, 5); st > 0; st-- {
				n := block
				switch r.Intn(5) {
				case 0:
					n = r.Intn(2*block + 30)
				case 1:
					n = r.Intn(block + 1)
				}
				x := make([]float32, n)
				kind, amp := r.Intn(4), math.Pow(10, 4*r.Sym())
				w1, w2 := r.F()*math.Pi, r.F()*math.Pi
				a1, a2 := r.F(), r.F()
				for i := range x {
					switch kind {
					case 1:
						x[i] = float32(amp * r.Sym())
					case 2, 3:
						x[i] = float32(amp * (a1*math.Sin(w1*float64(i)) + a2*math.Sin(w2*float64(i)) + 0.1*r.Sym()))
					}
					if i >= block { // must not matter
						x[i] = float32(1e6 * amp * math.Sin(2*math.Pi*float64(high[0])*float64(i)/float64(rate)))
						over = true
					}
				}
				c.Key(x)
				descr += fmt.Sprintf(" feed %d", n)
				orig := append([]float32(nil), x...)
				key, mag := d.Feed(x)
				if !same(x, orig) {
					c.Fatalf("%s: the caller's samples were modified", descr)
				}
				sum := 0.0
				y := make([]complex128, min(n, block))
				for i := range y {
					y[i] = complex(float64(x[i])*float64(w[i]), 0)
					sum += math.Abs(real(y[i]))
				}
				if sum > 0 {
					nz++
				}
				N := float64(len(y))
				// the squared magnitudes each bin may have (two for a frequency between two bins), with error
				type span struct{ lo, hi float64 }
				spans := func(fr []uint64) (out []span) {
					for _, f := range fr {
						s := span{math.Inf(1), 0}
						for _, bin := range nearestBins(f, rate, block) {
							v := dtft(y, bin%block, block)
							m := real(v * cmplx.Conj(v))
							sn := math.Abs(math.Sin(2 * math.Pi * float64(bin%block) / float64(block)))
							q := sum * math.Min(N, 1/math.Max(sn, 1e-6))
							e := 2e-7*sum + 1e-12*N*sum
							tol := 2*math.Sqrt(m)*e + e*e + 64*eps64*q*q + 1e-6*m + 1e-36
							s.lo, s.hi = math.Min(s.lo, m-tol), math.Max(s.hi, m+tol)
						}
						out = append(out, s)
					}
					return
				}
				ls, hs := spans(low), spans(high)
				if key < 0 || key >= len(low)*len(high) {
					c.Fatalf("%s: key %d out of range", descr, key)
				}
				row, col := key/len(high), key%len(high)
				strongest := func(what string, s []span, i int) (m span) {
					m = span{0, 0}
					for j := range s {
						m.lo, m.hi = math.Max(m.lo, s[j].lo), math.Max(m.hi, s[j].hi)
						if s[j].lo > s[i].hi {
							c.Fatalf("%s: %s %d reported, but bin %d is stronger: squared magnitudes %v", descr, what, i, j, s)
						}
					}
					return
				}
				lm, hm := strongest("row", ls, row), strongest("column", hs, col)
				if m := float64(mag); !(m >= math.Min(lm.lo, hm.lo) && m <= math.Min(lm.hi, hm.hi)) {
					c.Fatalf("%s: magnitude %v, the smaller of the squared magnitudes of the strongest row and column is in %v, %v", descr, mag, lm, hm)
				}
			}
			c.NonTrivial(nz > 0)
			c.LabelIf(nz > 1, "several blocks")
			c.LabelIf(over, "more samples than the block")
			c.Samplef("%s", descr)
		})
	})
	t.Run("tones", func(t *testing.T) {
		pbt.Prop(t, "C19/tones", 2, func(c *pbt.Case) {
			rate := rapid.SampledFrom([]int{8000, 11025, 16000, 22050, 32000, 44100, 48000}).Draw(c.T, "sample rate")
			block := 205 * rate / 8000
			d := dtmf.NewStandard(rate, block)
			descr := fmt.Sprintf("rate %d block %d", rate, block)
			for st := rapid.IntRange(1, 4).Draw(c.T, "keys"); st > 0; st-- {
				key := rapid.IntRange(0, 15).Draw(c.T, "key")
				level := math.Pow(10, rapid.Float64Range(-4, 4.5).Draw(c.T, "level"))
				// the tones of ITU-T Q.23, whatever the lists of the package say
				lo, hi := []float64{697, 770, 852, 941}[key/4], []float64{1209, 1336, 1477, 1633}[key%4]
				if l, h := dtmf.StdLowFreq[key/4], dtmf.StdHighFreq[key%4]; float64(l) != lo || float64(h) != hi {
					c.Fatalf("key %c is listed as %d and %d Hz, it is %v and %v Hz", "123A456B789C*0#D"[key], l, h, lo, hi)
				}
				lo *= 1 + rapid.Float64Range(-0.01, 0.01).Draw(c.T, "error of the low tone")
				hi *= 1 + rapid.Float64Range(-0.01, 0.01).Draw(c.T, "error of the high tone")
				twist := rapid.Float64Range(-6, 6).Draw(c.T, "twist dB")
				p1, p2 := rapid.Float64Range(0, 6.3).Draw(c.T, "phase 1"), rapid.Float64Range(0, 6.3).Draw(c.T, "phase 2")
				a1, a2 := level*math.Pow(10, twist/40), level*math.Pow(10, -twist/40)
				x := make([]float32, block+rapid.IntRange(0, 20).Draw(c.T, "more samples"))
				for i := range x {
					tm := 2 * math.Pi * float64(i) / float64(rate)
					x[i] = float32(a1*math.Sin(lo*tm+p1) + a2*math.Sin(hi*tm+p2))
				}
				c.Key(rate, key, lo, hi, level, twist, p1, p2)
				c.NonTrivial(true)
				c.Label(fmt.Sprintf("tone pair at %d", rate))
				descr += fmt.Sprintf("; key %c level %.3g twist %.1f dB phases %.2f, %.2f", dtmf.Keypad[key], level, twist, p1, p2)
				c.Samplef("%s", descr)
				got, mag := d.Feed(x)
				if got != key || mag <= 0 || got >= len(dtmf.Keypad) || dtmf.Keypad[got] != rune("123A456B789C*0#D"[key]) {
					c.Fatalf("%s: detected %d with %v", descr, got, mag)
				}
			}
		})
	})
}
