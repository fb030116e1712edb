package props

import (
	"fmt"
	"math"
	"math/cmplx"
	"strings"
	"testing"

	"github.com/samuel/go-dsp/dsp"
	"github.com/samuel/go-dsp/dsp/dtmf"
	"pgregory.net/rapid"
	"verif/harness/pbt"
)

// proc is one instance of a stateful stream processor.
type proc struct {
	// feed processes a block; variant selects between equivalent entry points
	feed func(block []complex128, variant int) []complex128
	// final returns results available at the end of the stream
	final func() []complex128
	// wrong describes a modified argument, if any
	wrong *string
}

// procKind builds processors: draw chooses the parameters and returns a constructor (which may be
// called repeatedly and passes the same argument slices each time), a function that overwrites those
// argument slices, one that tells whether they still hold what was drawn, and a description.
type procKind struct {
	name string
	draw func(c *pbt.Case) (mk func() proc, scribble func(), intact func() bool, descr string)
	// state is false when blocks are independent of each other by design
	stream bool
}

func realsOf(b []complex128) []float64 {
	v := make([]float64, len(b))
	for i, x := range b {
		v[i] = real(x)
	}
	return v
}

func reals32(b []complex128) []float32 {
	v := make([]float32, len(b))
	for i, x := range b {
		v[i] = float32(real(x))
	}
	return v
}

func cplx32(b []complex128) []complex64 {
	v := make([]complex64, len(b))
	for i, x := range b {
		v[i] = complex64(x)
	}
	return v
}

func fromReals(v []float64) []complex128 {
	b := make([]complex128, len(v))
	for i, x := range v {
		b[i] = complex(x, 0)
	}
	return b
}

func from32(v []float32) []complex128 {
	b := make([]complex128, len(v))
	for i, x := range v {
		b[i] = complex(float64(x), 0)
	}
	return b
}

func fromC64(v []complex64) []complex128 {
	b := make([]complex128, len(v))
	for i, x := range v {
		b[i] = complex128(x)
	}
	return b
}

func noFinal() []complex128 { return nil }

// checkSame records in wrong that an input changed.
func checkSame[T comparable](wrong *string, what string, got, want []T) {
	for i := range want {
		if got[i] != want[i] && got[i] == got[i] {
			*wrong = fmt.Sprintf("%s changed element %d of its input from %v to %v", what, i, want[i], got[i])
			return
		}
	}
}

func filterProc[T comparable](name string, conv func([]complex128) []T, back func([]T) []complex128, inPlace bool, fns ...func(in, out []T)) proc {
	wrong := new(string)
	return proc{wrong: wrong, final: noFinal, feed: func(b []complex128, variant int) []complex128 {
		in := conv(b)
		keep := append([]T(nil), in...)
		if variant&1 == 1 && inPlace {
			fns[(variant>>1)%len(fns)](in, in)
			return back(in)
		}
		out := make([]T, len(in))
		fns[(variant>>1)%len(fns)](in, out)
		checkSame(wrong, name, in, keep)
		return back(out)
	}}
}

// coefs draws coefficients of a filter that is stable: denominator from poles inside radius maxR.
func coefs(c *pbt.Case, order int, maxR float64) (b, a []float64) {
	r := pbt.NewRng(c.T, "coefficients")
	a = []float64{1}
	mul := func(f []float64) {
		out := make([]float64, len(a)+len(f)-1)
		for i, x := range a {
			for j, y := range f {
				out[i+j] += x * y
			}
		}
		a = out
	}
	for len(a)-1 < order {
		if order-(len(a)-1) >= 2 && r.Bool() {
			rad, w := r.F()*maxR, r.F()*math.Pi
			mul([]float64{1, -2 * rad * math.Cos(w), rad * rad})
		} else {
			mul([]float64{1, -r.Sym() * maxR})
		}
	}
	b = make([]float64, order+1)
	for i := range b {
		b[i] = r.Sym() * 2
	}
	a0 := rapid.SampledFrom([]float64{1, 2, -1, 0.5, -3, 0.1, 7}).Draw(c.T, "a0")
	for i := range a {
		a[i] *= a0
	}
	return b, a
}

func to32(v []float64) []float32 {
	o := make([]float32, len(v))
	for i, x := range v {
		o[i] = float32(x)
	}
	return o
}

func same[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func keep[T comparable](vs ...[]T) (scribble func(), intact func() bool) {
	copies := make([][]T, len(vs))
	for i, v := range vs {
		copies[i] = append([]T(nil), v[:cap(v)]...)
	}
	return func() {
			for _, v := range vs {
				v = v[:cap(v)]
				var junk T
				switch p := any(&junk).(type) {
				case *float64:
					*p = 1234.5
				case *float32:
					*p = 1234.5
				case *uint64:
					*p = 1111
				}
				for i := range v {
					v[i] = junk
				}
			}
		}, func() bool {
			for i, v := range vs {
				if !same(v[:cap(v)], copies[i]) {
					return false
				}
			}
			return true
		}
}

// roomy copies v to a slice with spare capacity, which belongs to the caller as well.
func roomy[T any](v []T) []T {
	return append(make([]T, 0, len(v)+9), v...)
}

func nothing()       {}
func alwaysOK() bool { return true }
func targets(c *pbt.Case) (freqs []uint64, rate, block int) {
	rate = rapid.SampledFrom([]int{8000, 44100, 48000, 11025, 1000, 7}).Draw(c.T, "sample rate")
	block = rapid.IntRange(1, 300).Draw(c.T, "block size")
	n := rapid.IntRange(1, 5).Draw(c.T, "targets")
	for i := 0; i < n; i++ {
		freqs = append(freqs, uint64(rapid.IntRange(0, rate).Draw(c.T, "target")))
	}
	return
}

var procKinds = []procKind{
	{"IIRFilter", func(c *pbt.Case) (func() proc, func(), func() bool, string) {
		b, a := coefs(c, rapid.IntRange(0, 6).Draw(c.T, "order"), 0.98)
		b, a = roomy(b), roomy(a)
		scribble, intact := keep(b, a)
		return func() proc {
			return filterProc("IIRFilter.Filter", realsOf, fromReals, true, dsp.NewIIRFilter(b, a).Filter)
		}, scribble, intact, fmt.Sprintf("order %d", len(b)-1)
	}, true},
	{"ComplexIIRFilter", func(c *pbt.Case) (func() proc, func(), func() bool, string) {
		b, a := coefs(c, rapid.IntRange(0, 6).Draw(c.T, "order"), 0.98)
		b, a = roomy(b), roomy(a)
		scribble, intact := keep(b, a)
		ident := func(b []complex128) []complex128 { return append([]complex128(nil), b...) }
		return func() proc {
			return filterProc("ComplexIIRFilter.Filter", ident, ident, true, dsp.NewComplexIIRFilter(b, a).Filter)
		}, scribble, intact, fmt.Sprintf("order %d", len(b)-1)
	}, true},
	{"ComplexIIRFilter32", func(c *pbt.Case) (func() proc, func(), func() bool, string) {
		b64, a64 := coefs(c, rapid.IntRange(0, 4).Draw(c.T, "order"), 0.9)
		b, a := to32(b64), to32(a64)
		b, a = roomy(b), roomy(a)
		scribble, intact := keep(b, a)
		return func() proc {
			return filterProc("ComplexIIRFilter32.Filter", cplx32, fromC64, true, dsp.NewComplexIIRFilter32(b, a).Filter)
		}, scribble, intact, fmt.Sprintf("order %d", len(b)-1)
	}, true},
	{"BiQuadFilter", func(c *pbt.Case) (func() proc, func(), func() bool, string) {
		f0 := rapid.Float64Range(0.01, 0.49).Draw(c.T, "f0")
		q := rapid.Float64Range(0.2, 10).Draw(c.T, "q")
		return func() proc {
			return filterProc("BiQuadFilter.Filter", realsOf, fromReals, true, dsp.NewLowPassBiQuadFilter(1, f0, q).Filter)
		}, nothing, alwaysOK, fmt.Sprintf("f0 %v q %v", f0, q)
	}, true},
	{"BiQuadFilter F32", func(c *pbt.Case) (func() proc, func(), func() bool, string) {
		f0 := rapid.Float64Range(0.01, 0.49).Draw(c.T, "f0")
		gain := rapid.Float64Range(-20, 20).Draw(c.T, "gain")
		return func() proc {
			return filterProc("BiQuadFilter.FilterF32", reals32, from32, true, dsp.PeakingEQBiQuadFilter(1, f0, 1.5, gain).FilterF32)
		}, nothing, alwaysOK, fmt.Sprintf("f0 %v gain %v", f0, gain)
	}, true},
	{"DCFilter", func(c *pbt.Case) (func() proc, func(), func() bool, string) {
		a := rapid.Float64Range(0, 1).Draw(c.T, "a")
		return func() proc {
			f := dsp.NewDCFilter(a)
			return filterProc("DCFilter.Filter", realsOf, fromReals, true, f.Filter, func(in, out []float64) {
				for i, x := range in {
					out[i] = f.FilterOne(x)
				}
			})
		}, nothing, alwaysOK, fmt.Sprintf("a %v", a)
	}, true},
	{"DCFilter32", func(c *pbt.Case) (func() proc, func(), func() bool, string) {
		a := rapid.Float32Range(0, 1).Draw(c.T, "a")
		return func() proc {
			f := dsp.NewDCFilter32(a)
			return filterProc("DCFilter32.Filter", reals32, from32, true, f.Filter, func(in, out []float32) {
				for i, x := range in {
					out[i] = f.FilterOne(x)
				}
			})
		}, nothing, alwaysOK, fmt.Sprintf("a %v", a)
	}, true},
	{"LowPassDownsampleComplexFilter", func(c *pbt.Case) (func() proc, func(), func() bool, string) {
		d := rapid.OneOf(rapid.IntRange(1, 8), rapid.IntRange(1, 100)).Draw(c.T, "factor")
		return func() proc {
			f := &dsp.LowPassDownsampleComplexFilter{Downsample: d}
			return proc{wrong: new(string), final: noFinal, feed: func(b []complex128, _ int) []complex128 {
				return fromC64(f.Filter(cplx32(b)))
			}}
		}, nothing, alwaysOK, fmt.Sprintf("factor %d", d)
	}, true},
	{"LowPassDownsampleRationalFilter", func(c *pbt.Case) (func() proc, func(), func() bool, string) {
		fast := rapid.OneOf(rapid.IntRange(1, 12), rapid.IntRange(1, 400000)).Draw(c.T, "fast")
		slow := rapid.IntRange(1, fast).Draw(c.T, "slow")
		return func() proc {
			f := &dsp.LowPassDownsampleRationalFilter{Fast: fast, Slow: slow}
			return proc{wrong: new(string), final: noFinal, feed: func(b []complex128, _ int) []complex128 {
				return from32(f.Filter(reals32(b)))
			}}
		}, nothing, alwaysOK, fmt.Sprintf("ratio %d/%d", slow, fast)
	}, true},
	{"FMDemodFilter", func(c *pbt.Case) (func() proc, func(), func() bool, string) {
		return func() proc {
			f := &dsp.FMDemodFilter{}
			wrong := new(string)
			return proc{wrong: wrong, final: noFinal, feed: func(b []complex128, _ int) []complex128 {
				in := cplx32(b)
				keep := append([]complex64(nil), in...)
				out := make([]float32, len(in))
				n := f.Demodulate(in, out)
				if n != len(in) {
					*wrong = fmt.Sprintf("Demodulate of %d samples reports %d", len(in), n)
				}
				checkSame(wrong, "Demodulate", in, keep)
				return from32(out)
			}}
		}, nothing, alwaysOK, ""
	}, true},
	{"Goertzel", func(c *pbt.Case) (func() proc, func(), func() bool, string) {
		fr, rate, block := targets(c)
		fr = roomy(fr)
		scribble, intact := keep(fr)
		return func() proc {
			g := dsp.NewGoertzel(fr, rate, block)
			p := filterProc("Goertzel.Feed", realsOf, fromReals, false, func(in, _ []float64) { g.Feed(in) })
			p.final = func() []complex128 {
				return append(fromReals(g.Magnitude()), append([]complex128(nil), g.Complex()...)...)
			}
			return p
		}, scribble, intact, fmt.Sprintf("targets %v", fr)
	}, true},
	{"Goertzel32", func(c *pbt.Case) (func() proc, func(), func() bool, string) {
		fr, rate, block := targets(c)
		fr = roomy(fr)
		scribble, intact := keep(fr)
		return func() proc {
			g := dsp.NewGoertzel32(fr, rate, block)
			p := filterProc("Goertzel32.Feed", reals32, from32, false, func(in, _ []float32) { g.Feed(in) })
			p.final = func() []complex128 {
				return append(from32(g.Magnitude()), fromC64(g.Complex())...)
			}
			return p
		}, scribble, intact, fmt.Sprintf("targets %v", fr)
	}, true},
	{"ComplexGoertzel", func(c *pbt.Case) (func() proc, func(), func() bool, string) {
		fr, rate, block := targets(c)
		fr = roomy(fr)
		scribble, intact := keep(fr)
		ident := func(b []complex128) []complex128 { return append([]complex128(nil), b...) }
		return func() proc {
			g := dsp.NewComplexGoertzel(fr, rate, block)
			p := filterProc("ComplexGoertzel.Feed", ident, ident, false, func(in, _ []complex128) { g.Feed(in) })
			p.final = func() []complex128 {
				return append(fromReals(g.Magnitude()), append([]complex128(nil), g.Complex()...)...)
			}
			return p
		}, scribble, intact, fmt.Sprintf("targets %v", fr)
	}, true},
	{"SDFT", func(c *pbt.Case) (func() proc, func(), func() bool, string) {
		n := rapid.IntRange(1, 40).Draw(c.T, "n")
		k := rapid.IntRange(0, n-1).Draw(c.T, "k")
		win := append([]float64(nil), rapid.SampledFrom([][]float64{nil, dsp.HanningFreqCoeff, dsp.HammingFreqCoeff, dsp.BlackmanFreqCoeff}).Draw(c.T, "window")...)
		win = roomy(win)
		scribble, intact := keep(win)
		return func() proc {
			s := dsp.NewSDFT(k, n, win)
			return proc{wrong: new(string), final: noFinal, feed: func(b []complex128, _ int) []complex128 {
				out := make([]complex128, len(b))
				for i, x := range b {
					out[i] = s.Filter(x)
				}
				return out
			}}
		}, scribble, intact, fmt.Sprintf("bin %d of %d", k, n)
	}, false},
	{"SDFT32", func(c *pbt.Case) (func() proc, func(), func() bool, string) {
		n := rapid.IntRange(1, 40).Draw(c.T, "n")
		k := rapid.IntRange(0, n-1).Draw(c.T, "k")
		win := append([]float32(nil), rapid.SampledFrom([][]float32{nil, dsp.HanningFreqCoeff32, dsp.HammingFreqCoeff32, dsp.BlackmanFreqCoeff32}).Draw(c.T, "window")...)
		win = roomy(win)
		scribble, intact := keep(win)
		return func() proc {
			s := dsp.NewSDFT32(k, n, win)
			return proc{wrong: new(string), final: noFinal, feed: func(b []complex128, _ int) []complex128 {
				out := make([]complex64, len(b))
				for i, x := range cplx32(b) {
					out[i] = s.Filter(x)
				}
				return fromC64(out)
			}}
		}, scribble, intact, fmt.Sprintf("bin %d of %d", k, n)
	}, false},
	{"DTMF", func(c *pbt.Case) (func() proc, func(), func() bool, string) {
		block := rapid.IntRange(1, 260).Draw(c.T, "block size")
		lo, hi := append([]uint64(nil), dtmf.StdLowFreq...), append([]uint64(nil), dtmf.StdHighFreq...)
		lo, hi = roomy(lo), roomy(hi)
		scribble, intact := keep(lo, hi)
		return func() proc {
			d := dtmf.New(lo, hi, 8000, block, nil)
			wrong := new(string)
			return proc{wrong: wrong, final: noFinal, feed: func(b []complex128, _ int) []complex128 {
				in := reals32(b)
				keep := append([]float32(nil), in...)
				key, mag := d.Feed(in)
				checkSame(wrong, "DTMF.Feed", in, keep)
				return []complex128{complex(float64(key), float64(mag))}
			}}
		}, scribble, intact, fmt.Sprintf("block %d", block)
	}, false},
}

func equalOut(a, b []complex128) int {
	if len(a) != len(b) {
		return min(len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] && !(cmplx.IsNaN(a[i]) && cmplx.IsNaN(b[i])) {
			return i
		}
	}
	return -1
}

// closeOut is equalOut with a relative error of the largest value (a turn counts as nothing for
// angles): calls may round differently from each other.
func closeOut(k string, a, b []complex128) int {
	i := equalOut(a, b)
	if i < 0 || len(a) != len(b) {
		return i
	}
	eps := 1e-11
	if k == "FMDemodFilter" || k == "BiQuadFilter F32" || strings.Contains(k, "32") || strings.HasPrefix(k, "LowPass") {
		eps = 2e-6
	}
	m := math.Min(maxAbs(a), maxAbs(b))
	for ; i < len(a); i++ {
		d := cmplx.Abs(a[i] - b[i])
		if k == "FMDemodFilter" {
			d = math.Min(d, math.Abs(d-2*math.Pi))
		}
		if a[i] != b[i] && !(d <= eps*m) && !(cmplx.IsNaN(a[i]) && cmplx.IsNaN(b[i])) {
			return i
		}
	}
	return -1
}

// TestC10: any division into blocks gives the output of one call.
func TestC10(t *testing.T) {
	for _, k := range procKinds {
		if !k.stream {
			continue
		}
		t.Run(k.name, func(t *testing.T) {
			pbt.Prop(t, "C10/"+k.name, 1, func(c *pbt.Case) {
				mk, _, _, descr := k.draw(c)
				n := pbt.Longer(c, rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 400)).Draw(c.T, "samples"), 1<<17, "stream")
				in := pbt.C128s(c.T, n, "stream")
				cuts := pbt.Cuts(c.T, n, "calls")
				whole := mk()
				want := whole.feed(in, 0)
				wf := whole.final()
				p := mk()
				vr := pbt.NewRng(c.T, "entry points")
				var got []complex128
				pos := 0
				for _, b := range cuts {
					got = append(got, p.feed(in[pos:pos+b], vr.Intn(8))...)
					pos += b
				}
				gf := p.final()
				c.Key(k.name, descr, in, cuts)
				nz := 0
				for _, b := range cuts {
					if b > 0 {
						nz++
					}
				}
				c.NonTrivial(n > 2 && nz > 1)
				c.Label(k.name)
				c.LabelIf(nz < len(cuts), "empty calls")
				c.LabelIf(nz == n && n > 1, "one sample per call")
				c.Samplef("%s (%s): %d samples in calls %v", k.name, descr, n, head(cuts))
				if i := closeOut(k.name, got, want); i >= 0 {
					c.Fatalf("%s (%s): %d samples in calls %v: output %d of %d/%d differs from that of a single call: %v instead of %v", k.name, descr, n, head(cuts), i, len(got), len(want), at(got, i), at(want, i))
				}
				if i := closeOut(k.name, gf, wf); i >= 0 {
					c.Fatalf("%s (%s): %d samples in calls %v: final result %d is %v instead of %v", k.name, descr, n, head(cuts), i, at(gf, i), at(wf, i))
				}
			})
		})
	}
	// double and single precision calls of one biquad share its state
	t.Run("BiQuadFilter mixed", func(t *testing.T) {
		pbt.Prop(t, "C10/BiQuadFilter mixed", 1, func(c *pbt.Case) {
			f0, q := rapid.Float64Range(0.01, 0.49).Draw(c.T, "f0"), rapid.Float64Range(0.2, 10).Draw(c.T, "q")
			n := pbt.Longer(c, rapid.IntRange(0, 200).Draw(c.T, "samples"), 1<<15, "stream")
			in := reals32(pbt.C128s(c.T, n, "stream"))
			in64 := make([]float64, n)
			for i, x := range in {
				in64[i] = float64(x)
			}
			want := make([]float64, n)
			dsp.NewHighPassBiQuadFilter(1, f0, q).Filter(in64, want)
			cuts := pbt.Cuts(c.T, n, "calls")
			p := dsp.NewHighPassBiQuadFilter(1, f0, q)
			pos := 0
			vr := pbt.NewRng(c.T, "entry points")
			c.Key("mixed", f0, q, in, cuts)
			c.NonTrivial(n > 2 && len(cuts) > 1)
			c.Label("BiQuadFilter mixed precision")
			c.Samplef("BiQuadFilter: %d samples in calls of both precisions %v", n, head(cuts))
			for _, b := range cuts {
				if vr.Bool() {
					out := make([]float64, b)
					p.Filter(in64[pos:pos+b], out)
					for i := range out {
						if !(math.Abs(out[i]-want[pos+i]) <= 1e-11*math.Abs(want[pos+i])+1e-14) {
							c.Fatalf("sample %d of %d (calls %v): %v instead of %v", pos+i, n, head(cuts), out[i], want[pos+i])
						}
					}
				} else {
					out := make([]float32, b)
					p.FilterF32(in[pos:pos+b], out)
					for i := range out {
						if d := math.Abs(float64(out[i]) - want[pos+i]); !(d <= 1e-6*math.Abs(want[pos+i])+1e-30) {
							c.Fatalf("sample %d of %d (calls %v): %v instead of %v", pos+i, n, head(cuts), out[i], want[pos+i])
						}
					}
				}
				pos += b
			}
		})
	})
}

func at(v []complex128, i int) any {
	if i < len(v) {
		return v[i]
	}
	return "(none)"
}
