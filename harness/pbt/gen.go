package pbt

import (
	"math"

	"pgregory.net/rapid"
)

// Rng expands a drawn 64-bit value deterministically (splitmix64): large buffers would otherwise
// need one rapid draw per element.
type Rng struct{ s uint64 }

// NewRng draws the seed of an expansion.
func NewRng(t *rapid.T, label string) *Rng {
	return &Rng{rapid.Uint64().Draw(t, label)}
}

// RngFrom returns an expansion with a given seed.
func RngFrom(s uint64) *Rng { return &Rng{s} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a value in [0, n).
func (r *Rng) Intn(n int) int { return int(r.U64() % uint64(n)) }

// Range returns a value in [lo, hi].
func (r *Rng) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

// F returns a value in [0, 1).
func (r *Rng) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

// Sym returns a value in [-1, 1).
func (r *Rng) Sym() float64 { return 2*r.F() - 1 }

// Bool returns a coin flip.
func (r *Rng) Bool() bool { return r.U64()&1 == 1 }

// Len draws a buffer length: mostly around the boundaries of 8/16/32/64-element blocks, sometimes
// anything up to max.
// Longer now and then makes a length n much larger, but not larger than n+max.
func Longer(c *Case, n, max int, label string) int {
	t, more := c.T, 0
	switch u := rapid.Uint64().Draw(t, label+" long"); {
	case u < 1<<16: // small draws (and with them shrunk cases) are not long
	case RngFrom(u).Intn(1500) == 0:
		more = 1<<rapid.IntRange(14, 17).Draw(t, label+" extra") + rapid.IntRange(-1, 1).Draw(t, label+" odd")
	case RngFrom(u+1).Intn(50) == 0:
		more = 1<<rapid.IntRange(9, 13).Draw(t, label+" extra") + rapid.IntRange(-1, 1).Draw(t, label+" odd")
	}
	if more > max {
		more = max
	}
	c.LabelIf(more > 0, "long "+label)
	return n + more
}

func Len(t *rapid.T, max int, label string) int {
	n := rapid.OneOf(
		rapid.IntRange(0, 20),
		rapid.Custom(func(t *rapid.T) int {
			b := rapid.SampledFrom([]int{8, 16, 32, 64, 128}).Draw(t, "block")
			k := rapid.IntRange(1, 6).Draw(t, "blocks")
			d := rapid.IntRange(-3, 3).Draw(t, "delta")
			return b*k + d
		}),
		rapid.IntRange(0, 200),
		rapid.IntRange(0, max),
	).Draw(t, label)
	if n > max {
		n = max
	}
	if n < 0 {
		n = 0
	}
	if max >= 1000 {
		// rapid favours small numbers and the ends of ranges: a draw of its own is
		// expanded, so that small draws (and with them shrunk cases) are not huge
		switch u := rapid.Uint64().Draw(t, label+" huge"); {
		case u < 1<<16:
		case RngFrom(u).Intn(5000) == 0:
			n += 1 << rapid.IntRange(17, 20).Draw(t, label+" extra")
		case RngFrom(u+1).Intn(50) == 0:
			n += 1 << rapid.IntRange(13, 16).Draw(t, label+" extra")
		}
	}
	return n
}

// Bytes draws n bytes.
func Bytes(t *rapid.T, n int, label string) []byte {
	b := make([]byte, n)
	if n == 0 {
		return b
	}
	switch rapid.IntRange(0, 3).Draw(t, label+" kind") {
	case 0:
		base, step := rapid.Byte().Draw(t, label+" base"), rapid.Byte().Draw(t, label+" step")
		for i := range b {
			b[i] = base
			base += step
		}
	case 1: // one odd value out
		base := rapid.Byte().Draw(t, label+" base")
		for i := range b {
			b[i] = base
		}
		b[rapid.IntRange(0, n-1).Draw(t, label+" pos")] = rapid.Byte().Draw(t, label+" odd")
	case 2:
		r := NewRng(t, label+" seed")
		ext := []byte{0, 1, 0x7f, 0x80, 0x81, 0xff, 0xfe}
		for i := range b {
			b[i] = ext[r.Intn(len(ext))]
		}
	default:
		r := NewRng(t, label+" seed")
		for i := range b {
			b[i] = byte(r.U64())
		}
	}
	return b
}

// F32Special are float32 values worth meeting.
var F32Special = []float32{0, float32(math.Copysign(0, -1)), 1, -1, 0.5, -0.5, math.MaxFloat32, -math.MaxFloat32,
	math.SmallestNonzeroFloat32, -math.SmallestNonzeroFloat32, float32(math.Inf(1)), float32(math.Inf(-1)), 1e-20, 1e20, 3, 127, -128, 32767, -32768}

// F32s draws n float32 values without NaN; finite restricts to finite ones of moderate size.
func F32s(t *rapid.T, n int, finite bool, label string) []float32 {
	b := make([]float32, n)
	if n == 0 {
		return b
	}
	k := rapid.IntRange(0, 4).Draw(t, label+" kind")
	switch k {
	case 0: // ramp
		base := rapid.Float32Range(-1000, 1000).Draw(t, label+" base")
		step := rapid.Float32Range(-10, 10).Draw(t, label+" step")
		for i := range b {
			b[i] = base + float32(i)*step
		}
	case 1:
		base := rapid.Float32Range(-1000, 1000).Draw(t, label+" base")
		for i := range b {
			b[i] = base
		}
		b[rapid.IntRange(0, n-1).Draw(t, label+" pos")] = rapid.Float32Range(-1000, 1000).Draw(t, label+" odd")
	case 2:
		r := NewRng(t, label+" seed")
		for i := range b {
			b[i] = F32Special[r.Intn(len(F32Special))]
			if finite && math.Abs(float64(b[i])) > 1e6 {
				b[i] = float32(r.Range(-3, 3))
			}
		}
	case 3:
		r := NewRng(t, label+" seed")
		scale := math.Pow(10, float64(rapid.IntRange(-6, 6).Draw(t, label+" scale")))
		if finite {
			scale = math.Min(scale, 1000)
		}
		for i := range b {
			b[i] = float32(r.Sym() * scale)
		}
	default:
		r := NewRng(t, label+" seed")
		for i := range b {
			for {
				b[i] = math.Float32frombits(uint32(r.U64()))
				if finite {
					b[i] = float32(r.Range(-1000, 1000))
				}
				if b[i] == b[i] {
					break
				}
			}
		}
	}
	return b
}

// F64s draws n finite float64 values of moderate size.
func F64s(t *rapid.T, n int, label string) []float64 {
	b := make([]float64, n)
	if n == 0 {
		return b
	}
	switch rapid.IntRange(0, 3).Draw(t, label+" kind") {
	case 0: // impulse
		b[rapid.IntRange(0, n-1).Draw(t, label+" pos")] = rapid.Float64Range(-100, 100).Draw(t, label+" amp")
	case 1:
		r := NewRng(t, label+" seed")
		for i := range b {
			b[i] = float64(r.Range(-100, 100))
		}
	case 2:
		r := NewRng(t, label+" seed")
		w, p, a := r.F()*math.Pi, r.F()*6, r.F()*10
		for i := range b {
			b[i] = a * math.Sin(w*float64(i)+p)
		}
	default:
		r := NewRng(t, label+" seed")
		for i := range b {
			b[i] = r.Sym()
		}
	}
	return b
}

// C128s draws n finite complex values of moderate size.
func C128s(t *rapid.T, n int, label string) []complex128 {
	re, im := F64s(t, n, label+" re"), F64s(t, n, label+" im")
	b := make([]complex128, n)
	for i := range b {
		b[i] = complex(re[i], im[i])
	}
	return b
}

// Cuts draws a division of n items into calls (block sizes summing to n, zeros included).
func Cuts(t *rapid.T, n int, label string) []int {
	var out []int
	switch rapid.IntRange(0, 3).Draw(t, label+" kind") {
	case 0: // one by one
		if n <= 400 {
			for i := 0; i < n; i++ {
				out = append(out, 1)
			}
			return out
		}
		fallthrough
	case 1: // fixed blocks
		b := rapid.IntRange(1, 70).Draw(t, label+" block")
		for left := n; left > 0; left -= b {
			out = append(out, min(b, left))
		}
		return out
	case 2: // two or three explicit cuts
		left := n
		for k := rapid.IntRange(1, 3).Draw(t, label+" cuts"); k > 0; k-- {
			b := rapid.IntRange(0, left).Draw(t, label+" cut")
			out = append(out, b)
			left -= b
		}
		return append(out, left)
	}
	r := NewRng(t, label+" seed")
	m := rapid.IntRange(1, 40).Draw(t, label+" max")
	for left := n; left > 0; {
		b := min(r.Range(0, m), left)
		out = append(out, b)
		left -= b
	}
	return out
}
