package props

import (
	"encoding/binary"
	"math"
	"testing"
	"unsafe"

	"github.com/samuel/go-dsp/dsp"
	"pgregory.net/rapid"
	"verif/harness/pbt"
)

// elemOp is a bulk routine seen as a function from samples to samples.
type elemOp struct {
	bulkOp
	per []int // bytes per sample of each operand
	// kind of content per operand: b any bytes, f finite floats, i floats that fit the integer target
	kind string
}

func op(name string) bulkOp {
	for _, o := range bulkOps {
		if o.name == name {
			return o
		}
	}
	panic("VERIF-ERROR no op " + name)
}

var elemOps = []elemOp{
	{op("Ui8toi16"), []int{1, 2}, "bb"},
	{op("Ui8toi16b"), []int{1, 2}, "bb"},
	{op("Ui8tof32"), []int{1, 4}, "bb"},
	{op("I8tof32"), []int{1, 4}, "bb"},
	{op("Ui8toc64"), []int{2, 8}, "bb"},
	{op("I8toc64"), []int{2, 8}, "bb"},
	{op("C64toi8"), []int{8, 2}, "cb"},
	{op("F32toi16"), []int{4, 2}, "ib"},
	{op("F32toi16ble"), []int{4, 2}, "ib"},
	{op("I16ToBLE"), []int{2, 2}, "bb"},
	{op("I16bleToF64"), []int{2, 8}, "bb"},
	{op("I16bleToF32"), []int{2, 4}, "bb"},
	{op("I32bleToF32"), []int{4, 4}, "bb"},
	{op("F32Tof32ble"), []int{4, 4}, "fb"},
	{op("VMulC64xF32"), []int{8, 8, 4}, "fff"},
	{op("VMulC64"), []int{8, 8, 8}, "fff"},
	{op("VAddF32"), []int{4, 4}, "ff"},
	{op("VAddC64"), []int{8, 8}, "ff"},
	{op("VScaleF32"), []int{4, 4}, "ff"},
	{op("VScaleC64"), []int{8, 8}, "ff"},
	{op("VAbsC64"), []int{8, 4}, "ff"},
}

// rawFloats packs float32 values into bytes.
func rawFloats(v []float32) []byte {
	b := make([]byte, 4*len(v))
	for i, x := range v {
		binary.LittleEndian.PutUint32(b[4*i:], math.Float32bits(x))
	}
	return b
}

// moderate draws finite floats whose products neither overflow nor underflow.
func moderate(t *rapid.T, n int, label string) []float32 {
	r := pbt.NewRng(t, label)
	v := make([]float32, n)
	mode := rapid.IntRange(0, 2).Draw(t, label+" mode")
	for i := range v {
		switch mode {
		case 0:
			v[i] = float32(r.Sym() * 1000)
		case 1:
			v[i] = float32(r.Range(-5, 5))
		default:
			v[i] = float32(math.Ldexp(r.Sym(), r.Range(-20, 20)))
		}
		if v[i] == 0 {
			v[i] = 0 // no negative zero
		}
	}
	return v
}

// apply runs the op on samples [lo, hi) of the operand contents, copied to offsets off inside fresh
// memory, and returns the output samples.
func (o *elemOp) apply(content [][]byte, lo, hi int, off []int, scale float64) []byte {
	ops := make([]operand, len(o.per))
	var out []byte
	for i, per := range o.per {
		buf := alignedBuf(off[i] + (hi-lo)*per + 16)
		mem := buf[off[i] : off[i]+(hi-lo)*per]
		copy(mem, content[i][lo*per:hi*per])
		ops[i] = operand{unsafe.Pointer(&buf[off[i]]), (hi - lo) * per / o.sizes[i], 0}
		if i == 1 {
			out = mem
		}
	}
	o.run(ops, scale)
	return out
}

// alignedBuf returns n bytes starting at a 64-byte boundary.
func alignedBuf(n int) []byte {
	b := make([]byte, n+64)
	k := int(-uintptr(unsafe.Pointer(&b[0])) & 63)
	return b[k : k+n]
}

func outIsFloat(name string) bool {
	switch name {
	case "Ui8toi16", "Ui8toi16b", "C64toi8", "F32toi16", "F32toi16ble", "I16ToBLE", "F32Tof32ble":
		return false
	}
	return true
}

// canon maps -0 to 0 in floating-point outputs.
func canon(name string, b []byte) []byte {
	if !outIsFloat(name) {
		return b
	}
	if name == "I16bleToF64" {
		for i := 0; i+8 <= len(b); i += 8 {
			if u := binary.LittleEndian.Uint64(b[i:]); u == 1<<63 {
				binary.LittleEndian.PutUint64(b[i:], 0)
			}
		}
		return b
	}
	for i := 0; i+4 <= len(b); i += 4 {
		if u := binary.LittleEndian.Uint32(b[i:]); u == 1<<31 {
			binary.LittleEndian.PutUint32(b[i:], 0)
		}
	}
	return b
}

func TestC03(t *testing.T) {
	for i := range elemOps {
		o := &elemOps[i]
		t.Run(o.name, func(t *testing.T) {
			pbt.Prop(t, "C03/"+o.name, 1, func(c *pbt.Case) {
				n := pbt.Len(c.T, maxLen(), "samples")
				scale := rapid.SampledFrom([]float64{1, -1, 0.5, 0.3, -0.7, 100, 1.0 / 32768}).Draw(c.T, "scale")
				content := make([][]byte, len(o.per))
				for i, per := range o.per {
					switch o.kind[i] {
					case 'b':
						content[i] = pbt.Bytes(c.T, n*per, "content")
					case 'f':
						content[i] = rawFloats(moderate(c.T, n*per/4, "content"))
					case 'c', 'i':
						r := pbt.NewRng(c.T, "content")
						v := make([]float32, n*per/4)
						lim := 127.4
						if o.kind[i] == 'i' {
							lim = 32767.4 / math.Abs(scale)
						}
						for k := range v {
							v[k] = float32(r.Sym() * lim)
							if p := float64(v[k] * float32(scale)); o.kind[i] == 'i' && (p <= -32769 || p >= 32768) {
								v[k] = 0
							}
						}
						content[i] = rawFloats(v)
					}
					c.Key(content[i])
				}
				offs := func(label string) []int {
					off := make([]int, len(o.per))
					for i := range off {
						unit := min(o.sizes[i], 4)
						off[i] = rapid.IntRange(0, 40).Draw(c.T, label) * unit
					}
					return off
				}
				c.Key(o.name, scale)
				offA := offs("alignment")
				whole := canon(o.name, o.apply(content, 0, n, offA, scale))
				pbt.Digest(whole)
				cuts := pbt.Cuts(c.T, n, "cuts")
				var parts []byte
				pos := 0
				for k, b := range cuts {
					off := offA
					if k < 8 {
						off = offs("part alignment")
					}
					parts = append(parts, canon(o.name, o.apply(content, pos, pos+b, off, scale))...)
					pos += b
				}
				c.Key(cuts)
				c.NonTrivial(n > 1 && len(cuts) > 1)
				c.Label(o.name)
				c.LabelIf(n > 64, "longer than one SIMD block")
				c.Samplef("%s: %d samples at byte offsets %v, split into %d calls, scale %v", o.name, n, offA, len(cuts), scale)
				per := o.per[1]
				for i := range whole {
					if whole[i] != parts[i] {
						c.Fatalf("%s of %d samples (scale %v): sample %d is % x in one call but % x when split as %v", o.name, n, scale, i/per, whole[i/per*per:i/per*per+per], parts[i/per*per:i/per*per+per], head(cuts))
					}
				}
				// moving every sample by k positions moves the results
				if n > 0 {
					k := rapid.IntRange(0, n-1).Draw(c.T, "rotation")
					rot := make([][]byte, len(content))
					for i, per := range o.per {
						rot[i] = append(append([]byte{}, content[i][k*per:]...), content[i][:k*per]...)
					}
					moved := canon(o.name, o.apply(rot, 0, n, offA, scale))
					for i := 0; i < n; i++ {
						j := (i + k) % n
						if string(moved[i*per:i*per+per]) != string(whole[j*per:j*per+per]) {
							c.Fatalf("%s of %d samples (scale %v): the same sample gives % x at index %d and % x at index %d", o.name, n, scale, whole[j*per:j*per+per], j, moved[i*per:i*per+per], i)
						}
					}
				}
			})
		})
	}
	for _, f := range []struct {
		name string
		fn   func([]float32) float32
		join func(a, b float32) float32
	}{
		{"VMaxF32", dsp.VMaxF32, func(a, b float32) float32 { return max(a, b) }},
		{"VMinF32", dsp.VMinF32, func(a, b float32) float32 { return min(a, b) }},
	} {
		t.Run(f.name, func(t *testing.T) {
			pbt.Prop(t, "C03/"+f.name, 1, func(c *pbt.Case) {
				n := pbt.Len(c.T, maxLen(), "len")
				v := place(c, moderate(c.T, n, "content"), "in")
				whole := f.fn(v)
				pbt.Digest(canon(f.name, rawFloats([]float32{whole})))
				cuts := pbt.Cuts(c.T, n, "cuts")
				got := f.fn(nil)
				pos := 0
				for _, b := range cuts {
					got = f.join(got, f.fn(v[pos:pos+b]))
					pos += b
				}
				c.Key(f.name, v, cuts)
				c.NonTrivial(n > 1 && len(cuts) > 1)
				c.Label(f.name)
				c.Samplef("%s: %d values in %d parts", f.name, n, len(cuts))
				if got != whole {
					c.Fatalf("%s of %d values: %v in one call, %v over the parts %v", f.name, n, whole, got, head(cuts))
				}
				if n > 0 {
					k := rapid.IntRange(0, n-1).Draw(c.T, "rotation")
					if g := f.fn(append(append([]float32{}, v[k:]...), v[:k]...)); g != whole {
						c.Fatalf("%s of %d values: %v, but %v when the values are rotated by %d", f.name, n, whole, g, k)
					}
				}
			})
		})
	}
}

func head(v []int) []int {
	if len(v) > 20 {
		return v[:20]
	}
	return v
}
