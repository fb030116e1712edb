package props

import (
	"math"
	"testing"

	"github.com/samuel/go-dsp/dsp"
	"pgregory.net/rapid"
	"verif/harness/pbt"
)

// angleDiff is the distance of two angles modulo 2*pi.
func angleDiff(a, b float64) float64 {
	d := math.Mod(math.Abs(a-b), 2*math.Pi)
	return math.Min(d, 2*math.Pi-d)
}

// point draws a point of ordinary magnitude: any angle, axes, diagonals, tiny and huge ratios.
func point(c *pbt.Case, label string) (y, x float64) {
	mag := math.Pow(10, rapid.Float64Range(-12, 37).Draw(c.T, label+" log magnitude"))
	k := rapid.IntRange(0, 5).Draw(c.T, label+" kind")
	sx, sy := rapid.SampledFrom([]float64{1, -1}).Draw(c.T, label+" sign x"), rapid.SampledFrom([]float64{1, -1}).Draw(c.T, label+" sign y")
	switch k {
	case 0:
		a := rapid.Float64Range(-math.Pi, math.Pi).Draw(c.T, label+" angle")
		return mag * math.Sin(a), mag * math.Cos(a)
	case 1: // axis
		if rapid.Bool().Draw(c.T, label+" vertical") {
			return sy * mag, 0
		}
		return 0, sx * mag
	case 2: // near a diagonal
		d := rapid.Float64Range(-1e-3, 1e-3).Draw(c.T, label+" off")
		return sy * mag * (1 + d), sx * mag
	case 3: // extreme ratio
		e := rapid.Float64Range(-20, 20).Draw(c.T, label+" log ratio")
		if rapid.Bool().Draw(c.T, label+" beyond single precision") {
			e = 38 + pbt.NewRng(c.T, label+" ratio").F()*12 // the ratio overflows single precision
			if sx < 0 {
				e = -e
			}
		}
		r := math.Pow(10, e)
		y, x = mag*r, mag
		for math.Max(y, x) > 1e37 {
			y, x = y*1e-3, x*1e-3
		}
		for math.Max(y, x) < 1e-12 {
			y, x = y*1e3, x*1e3
		}
		return sy * y, rapid.SampledFrom([]float64{1, -1}).Draw(c.T, label+" side") * x
	case 4: // near the negative real axis
		return sy * mag * rapid.Float64Range(0, 1e-4).Draw(c.T, label+" off"), -mag
	}
	return sy * float64(rapid.IntRange(0, 4).Draw(c.T, label+" iy")), sx * float64(rapid.IntRange(0, 4).Draw(c.T, label+" ix"))
}

func TestC07(t *testing.T) {
	funcs := []struct {
		name string
		fn   func(y, x float32) float64
		tol  float64
		axis float64
	}{
		{"FastAtan2", func(y, x float32) float64 { return float64(dsp.FastAtan2(y, x)) }, 0.0105, 1e-4},
		{"FastAtan2_2", func(y, x float32) float64 { return float64(dsp.FastAtan2_2(y, x)) }, 0.005, 1e-4},
		{"FastPhase32", func(y, x float32) float64 { return float64(dsp.FastPhase32(complex(x, y))) }, 0.0105, 1e-4},
		{"Phase32", func(y, x float32) float64 { return float64(dsp.Phase32(complex(x, y))) }, 1e-6, 1e-6},
	}
	for _, f := range funcs {
		t.Run(f.name, func(t *testing.T) {
			pbt.Prop(t, "C07/"+f.name, 8, func(c *pbt.Case) {
				fy, fx := point(c, "p")
				y, x := float32(fy), float32(fx)
				c.Key(f.name, y, x)
				c.NonTrivial(x != 0 && y != 0)
				c.Label(f.name)
				c.LabelIf(x == 0 || y == 0, "on an axis")
				c.LabelIf(x == 0 && y == 0, "origin")
				c.LabelIf(x < 0, "left half-plane")
				ratio := math.Abs(float64(y) / float64(x))
				c.LabelIf(ratio > 1e6 || ratio < 1e-6 && y != 0, "extreme ratio")
				if x == 0 && y == 0 && f.name == "Phase32" {
					x, y = 0, 0 // the exact phase tells the zeros apart
				}
				got := f.fn(y, x)
				want := math.Atan2(float64(y), float64(x))
				c.Samplef("%s(%v, %v) = %v (exact %v)", f.name, y, x, got, want)
				if x == 0 && y == 0 {
					if got != 0 {
						c.Fatalf("%s of the origin = %v", f.name, got)
					}
					return
				}
				tol := f.tol
				if x == 0 || y == 0 {
					tol = f.axis
				}
				if !(angleDiff(got, want) <= tol) || !(math.Abs(got) <= math.Pi+1e-4) {
					c.Fatalf("%s(%v, %v) = %v, the angle is %v", f.name, y, x, got, want)
				}
				// the right quadrant: the sign of the angle is that of y away from the negative axis
				if y != 0 && math.Abs(want) < math.Pi-2*tol && math.Abs(want) > 2*tol && (got < 0) != (y < 0) {
					c.Fatalf("%s(%v, %v) = %v lies in the wrong half-plane", f.name, y, x, got)
				}
			})
		})
	}
}

// fixedToRad converts pi = 1<<14.
func fixedToRad(v int) float64 { return float64(v) * math.Pi / (1 << 14) }

func TestC08(t *testing.T) {
	coord := func(c *pbt.Case, max int) (int, int) {
		k := rapid.IntRange(0, 5).Draw(c.T, "kind")
		sx, sy := rapid.SampledFrom([]int{1, -1}).Draw(c.T, "sign x"), rapid.SampledFrom([]int{1, -1}).Draw(c.T, "sign y")
		bits := 1
		for 1<<bits < max {
			bits++
		}
		mag := rapid.Custom(func(t *rapid.T) int {
			return min(max, rapid.IntRange(0, 1<<rapid.IntRange(1, bits).Draw(t, "bits")).Draw(t, "m"))
		})
		switch k {
		case 0, 1:
			return sy * mag.Draw(c.T, "y"), sx * mag.Draw(c.T, "x")
		case 2: // circle
			r := float64(mag.Draw(c.T, "r"))
			a := rapid.Float64Range(-math.Pi, math.Pi).Draw(c.T, "a")
			return int(r * math.Sin(a)), int(r * math.Cos(a))
		case 3: // axis
			if rapid.Bool().Draw(c.T, "vertical") {
				return sy * mag.Draw(c.T, "y"), 0
			}
			return 0, sx * mag.Draw(c.T, "x")
		case 4: // near a diagonal
			m := mag.Draw(c.T, "m")
			return sy * max1(0, min(max, m+rapid.IntRange(-2, 2).Draw(c.T, "d"))), sx * m
		}
		return rapid.IntRange(-20, 20).Draw(c.T, "y"), rapid.IntRange(-20, 20).Draw(c.T, "x")
	}
	for _, f := range []struct {
		name string
		fn   func(y, x int) int
		tol  float64
		max  int
	}{
		// x and y scaled by the table size or by pi must not overflow an int of 32 bits
		{"Atan2LUT", dsp.Atan2LUT, 0.005, 1 << 22},
		{"FastAtan2Fixed", dsp.FastAtan2Fixed, 0.08, 1 << 17},
	} {
		t.Run(f.name, func(t *testing.T) {
			pbt.Prop(t, "C08/"+f.name, 12, func(c *pbt.Case) {
				mx := f.max
				if math.MaxInt > 1<<32 && rapid.Bool().Draw(c.T, "wide") {
					mx = math.MaxInt >> 23
				}
				y, x := coord(c, mx)
				c.Key(f.name, y, x)
				c.NonTrivial(x != 0 && y != 0)
				c.Label(f.name)
				c.LabelIf(x == 0 || y == 0, "on an axis")
				c.LabelIf(x < 0, "left half-plane")
				got := f.fn(y, x)
				c.Samplef("%s(%d, %d) = %d", f.name, y, x, got)
				if got < -(1<<14) || got > 1<<14 {
					c.Fatalf("%s(%d, %d) = %d leaves [-pi, pi]", f.name, y, x, got)
				}
				if x == 0 && y == 0 {
					if got != 0 {
						c.Fatalf("%s(0, 0) = %d", f.name, got)
					}
					return
				}
				want := math.Atan2(float64(y), float64(x))
				if d := angleDiff(fixedToRad(got), want); d > f.tol {
					c.Fatalf("%s(%d, %d) = %d (%v rad), the angle is %v rad: off by %v", f.name, y, x, got, fixedToRad(got), want, d)
				}
			})
		})
	}
}

func max1(a, b int) int {
	if a > b {
		return a
	}
	return b
}
