package props

import (
	"bytes"
	"fmt"
	"math"
	"testing"
	"unsafe"

	"github.com/samuel/go-dsp/dsp"
	"pgregory.net/rapid"
	"verif/harness/pbt"
)

// bulkOp describes a bulk routine: raw operands, how many elements of the output it writes.
type bulkOp struct {
	name  string
	sizes []int // element size per operand; the output, if any, is operand 1
	out   bool
	rmw   bool // the output is also read
	// written elements of the output for the given operand lengths
	written func(l []int) int
	run     func(o []operand, scale float64)
}

type operand struct {
	p     unsafe.Pointer
	n     int
	spare int // elements of capacity beyond the length
}

func sl[T any](o operand) []T {
	if o.p == nil {
		return nil
	}
	return unsafe.Slice((*T)(o.p), o.n+o.spare)[:o.n]
}

var bulkOps = []bulkOp{
	{"Ui8toi16", []int{1, 2}, true, false, func(l []int) int { return min(l[0], l[1]) }, func(o []operand, s float64) { dsp.Ui8toi16(sl[byte](o[0]), sl[int16](o[1])) }},
	{"Ui8toi16b", []int{1, 1}, true, false, func(l []int) int { return 2 * min(l[0], l[1]/2) }, func(o []operand, s float64) { dsp.Ui8toi16b(sl[byte](o[0]), sl[byte](o[1])) }},
	{"Ui8tof32", []int{1, 4}, true, false, func(l []int) int { return min(l[0], l[1]) }, func(o []operand, s float64) { dsp.Ui8tof32(sl[byte](o[0]), sl[float32](o[1])) }},
	{"I8tof32", []int{1, 4}, true, false, func(l []int) int { return min(l[0], l[1]) }, func(o []operand, s float64) { dsp.I8tof32(sl[byte](o[0]), sl[float32](o[1])) }},
	{"Ui8toc64", []int{1, 8}, true, false, func(l []int) int { return min(l[0]/2, l[1]) }, func(o []operand, s float64) { dsp.Ui8toc64(sl[byte](o[0]), sl[complex64](o[1])) }},
	{"I8toc64", []int{1, 8}, true, false, func(l []int) int { return min(l[0]/2, l[1]) }, func(o []operand, s float64) { dsp.I8toc64(sl[int8](o[0]), sl[complex64](o[1])) }},
	{"C64toi8", []int{8, 1}, true, false, func(l []int) int { return 2 * min(l[0], l[1]/2) }, func(o []operand, s float64) { dsp.C64toi8(sl[complex64](o[0]), sl[int8](o[1])) }},
	{"F32toi16", []int{4, 2}, true, false, func(l []int) int { return min(l[0], l[1]) }, func(o []operand, s float64) { dsp.F32toi16(sl[float32](o[0]), sl[int16](o[1]), float32(s)) }},
	{"F32toi16ble", []int{4, 1}, true, false, func(l []int) int { return 2 * min(l[0], l[1]/2) }, func(o []operand, s float64) { dsp.F32toi16ble(sl[float32](o[0]), sl[byte](o[1]), float32(s)) }},
	{"I16ToBLE", []int{2, 1}, true, false, func(l []int) int { return 2 * min(l[0], l[1]/2) }, func(o []operand, s float64) { dsp.I16ToBLE(sl[int16](o[0]), sl[byte](o[1])) }},
	{"I16bleToF64", []int{1, 8}, true, false, func(l []int) int { return min(l[0]/2, l[1]) }, func(o []operand, s float64) { dsp.I16bleToF64(sl[byte](o[0]), sl[float64](o[1]), s) }},
	{"I16bleToF32", []int{1, 4}, true, false, func(l []int) int { return min(l[0]/2, l[1]) }, func(o []operand, s float64) { dsp.I16bleToF32(sl[byte](o[0]), sl[float32](o[1]), float32(s)) }},
	{"I32bleToF32", []int{1, 4}, true, false, func(l []int) int { return min(l[0]/4, l[1]) }, func(o []operand, s float64) { dsp.I32bleToF32(sl[byte](o[0]), sl[float32](o[1]), float32(s)) }},
	{"F32Tof32ble", []int{4, 1}, true, false, func(l []int) int { return 4 * min(l[0], l[1]/4) }, func(o []operand, s float64) { dsp.F32Tof32ble(sl[float32](o[0]), sl[byte](o[1])) }},
	{"VMulC64xF32", []int{8, 8, 4}, true, false, func(l []int) int { return min(l[0], l[1], l[2]) }, func(o []operand, s float64) {
		dsp.VMulC64xF32(sl[complex64](o[0]), sl[complex64](o[1]), sl[float32](o[2]))
	}},
	{"VMulC64", []int{8, 8, 8}, true, false, func(l []int) int { return min(l[0], l[1], l[2]) }, func(o []operand, s float64) {
		dsp.VMulC64(sl[complex64](o[0]), sl[complex64](o[1]), sl[complex64](o[2]))
	}},
	{"VAddF32", []int{4, 4}, true, true, func(l []int) int { return min(l[0], l[1]) }, func(o []operand, s float64) { dsp.VAddF32(sl[float32](o[0]), sl[float32](o[1])) }},
	{"VAddC64", []int{8, 8}, true, true, func(l []int) int { return min(l[0], l[1]) }, func(o []operand, s float64) { dsp.VAddC64(sl[complex64](o[0]), sl[complex64](o[1])) }},
	{"VScaleF32", []int{4, 4}, true, false, func(l []int) int { return min(l[0], l[1]) }, func(o []operand, s float64) { dsp.VScaleF32(sl[float32](o[0]), sl[float32](o[1]), float32(s)) }},
	{"VScaleC64", []int{8, 8}, true, false, func(l []int) int { return min(l[0], l[1]) }, func(o []operand, s float64) {
		dsp.VScaleC64(sl[complex64](o[0]), sl[complex64](o[1]), float32(s))
	}},
	{"VAbsC64", []int{8, 4}, true, false, func(l []int) int { return min(l[0], l[1]) }, func(o []operand, s float64) { dsp.VAbsC64(sl[complex64](o[0]), sl[float32](o[1])) }},
	{"VMaxF32", []int{4}, false, false, nil, func(o []operand, s float64) { dsp.VMaxF32(sl[float32](o[0])) }},
	{"VMinF32", []int{4}, false, false, nil, func(o []operand, s float64) { dsp.VMinF32(sl[float32](o[0])) }},
}

var guards []*pbt.Guarded

func guard(i int) *pbt.Guarded {
	for len(guards) <= i {
		guards = append(guards, pbt.NewGuarded(4096))
	}
	return guards[i]
}

var empties [8]struct{}

func TestC02(t *testing.T) {
	t.Run("long", func(t *testing.T) {
		pbt.Prop(t, "C02/long", 0.05, longCase)
	})
	for _, op := range bulkOps {
		op := op
		t.Run(op.name, func(t *testing.T) {
			pbt.Prop(t, "C02/"+op.name, 1, func(c *pbt.Case) {
				size := guard(0).Size()
				maxSz := 1
				for _, s := range op.sizes {
					maxSz = max(maxSz, s)
				}
				// mostly related lengths, in samples
				base := pbt.Len(c.T, size/maxSz-8, "samples")
				related := rapid.IntRange(0, 3).Draw(c.T, "related") > 0
				ops := make([]operand, len(op.sizes))
				offs := make([]int, len(op.sizes))
				lens := make([]int, len(op.sizes))
				before := make([][]byte, len(op.sizes))
				canary := rapid.Byte().Draw(c.T, "canary")
				nils := false
				for i, sz := range op.sizes {
					n := base
					if related {
						switch {
						case sz == 1 && maxSz > 2 && op.name != "Ui8tof32" && op.name != "I8tof32":
							n = base * unitBytes(op.name)
						case op.name == "Ui8toi16b" && i == 1 || op.name == "I16ToBLE" && i == 1:
							n = base * 2
						}
						n += rapid.IntRange(-2, 2).Draw(c.T, "delta")
					} else {
						n = pbt.Len(c.T, size/sz-64, "len")
					}
					n = max(0, min(n, size/sz-64))
					lens[i] = n
					g := guard(i)
					gap := 0
					if rapid.Bool().Draw(c.T, "gap") {
						gap = rapid.IntRange(0, 40).Draw(c.T, "gap size") * min(sz, 4)
					}
					atEnd := rapid.IntRange(0, 3).Draw(c.T, "at end") > 0
					off := g.Place(n*sz, gap, atEnd, canary)
					offs[i] = off
					mem := g.All()[off : off+n*sz]
					copy(mem, pbt.Bytes(c.T, n*sz, "content"))
					before[i] = bytes.Clone(mem)
					switch {
					case n == 0 && rapid.Bool().Draw(c.T, "nil"):
						ops[i], nils = operand{nil, 0, 0}, true
					case off >= size: // empty slice ending at the guard: keep the address
						ops[i] = operand{unsafe.Pointer(&empties[i]), 0, 0}
					default:
						spare := 0
						if rapid.Bool().Draw(c.T, "spare capacity") {
							spare = (size - off - n*sz) / sz
						}
						c.LabelIf(spare > 0, "capacity beyond the length")
						ops[i] = operand{unsafe.Pointer(&g.All()[off]), n, spare}
					}
					c.Key(n, off, mem)
				}
				scale := rapid.SampledFrom([]float64{1, 0, -1, 0.5, 32767, math.Inf(1), 1e30}).Draw(c.T, "scale")
				c.Key(op.name, scale)
				c.Label(op.name)
				c.LabelIf(nils, "nil slice")
				c.LabelIf(base > 64, "longer than one SIMD block")
				c.Samplef("%s: lengths %v at offsets %v of guarded %d-byte blocks, scale %v", op.name, lens, offs, size, scale)
				uneq := false
				for _, l := range lens {
					uneq = uneq || l != lens[0]
				}
				c.LabelIf(uneq, "unequal lengths")
				written := 0
				if op.written != nil {
					written = op.written(lens)
				} else {
					written = lens[0]
				}
				c.NonTrivial(written > 0 || uneq)
				if p := pbt.Catch(func() { op.run(ops, scale) }); p != nil {
					c.Fatalf("%s with lengths %v at offsets %v (guarded block of %d bytes): %v", op.name, lens, offs, size, p)
				}
				for i, sz := range op.sizes {
					g := guard(i)
					if at := g.CheckCanary(offs[i], lens[i]*sz, canary); at >= 0 {
						c.Fatalf("%s with lengths %v wrote outside operand %d: byte %d relative to its start (operand has %d bytes)", op.name, lens, i, at-offs[i], lens[i]*sz)
					}
					mem := g.All()[offs[i] : offs[i]+lens[i]*sz]
					keep := 0
					if op.out && i == 1 {
						keep = written * sz
					}
					for k := keep; k < len(mem); k++ {
						if mem[k] != before[i][k] {
							what := "its input"
							if op.out && i == 1 {
								what = fmt.Sprintf("the output beyond the %d processed elements", written)
							}
							c.Fatalf("%s with lengths %v modified %s: operand %d element %d", op.name, lens, what, i, k/sz)
						}
					}
				}
			})
		})
	}
}

// unitBytes is the number of byte elements per sample of the byte operand of an op.
func unitBytes(name string) int {
	switch name {
	case "I32bleToF32", "F32Tof32ble":
		return 4
	case "Ui8toc64", "I8toc64", "C64toi8", "F32toi16ble", "I16bleToF64", "I16bleToF32":
		return 2
	}
	return 1
}

// longBlocks are the memory of the operands of longCase, each between inaccessible pages.
var longBlocks []*pbt.Guarded

// longCase calls one routine on slices of up to 2^21 (VScaleC64 sometimes 2^25) samples.
func longCase(c *pbt.Case) {
	op := rapid.SampledFrom(bulkOps).Draw(c.T, "routine")
	bits := rapid.IntRange(13, 21).Draw(c.T, "bits")
	n := 1<<bits + rapid.IntRange(-40, 40).Draw(c.T, "delta")
	if op.name == "VScaleC64" && unsafe.Sizeof(uintptr(0)) == 8 && rapid.IntRange(0, 3).Draw(c.T, "longest") == 0 {
		// in place: half a gigabyte once per process is enough
		n = 1<<25 + rapid.IntRange(-3, 40).Draw(c.T, "over")
		c.Key(op.name, n)
		c.Label("longest")
		c.NonTrivial(true)
		v := longest()[:n:n]
		at := []int{0, 1, n / 2, n - 2, n - 1}
		for _, i := range at {
			v[i] = complex(float32(i%100+1), 3)
		}
		if p := pbt.Catch(func() { dsp.VScaleC64(v, v, 2) }); p != nil {
			c.Fatalf("VScaleC64 of %d samples: %v", n, p)
		}
		for _, i := range at {
			if want := complex(2*float32(i%100+1), 6); v[i] != want {
				c.Fatalf("VScaleC64 of %d samples: sample %d is %v instead of %v", n, i, v[i], want)
			}
		}
		return
	}
	const pad, mark = 4096, 0x5c
	ops := make([]operand, len(op.sizes))
	mem := make([][]byte, len(op.sizes))
	room := make([][]byte, len(op.sizes))
	before := make([][]byte, len(op.sizes))
	l := make([]int, len(op.sizes))
	for i, sz := range op.sizes {
		m := n
		if sz == 1 && i == 1 {
			m = 4 * n
		}
		m += rapid.IntRange(-5, 5).Draw(c.T, "unequal")
		l[i] = m
		for len(longBlocks) <= i {
			longBlocks = append(longBlocks, pbt.NewGuarded(8<<21+4096+2*pad))
		}
		g := longBlocks[i].All()
		if rapid.Bool().Draw(c.T, "at end") {
			o := len(g) - m*sz
			mem[i], room[i] = g[o:], g[o-pad:o]
		} else {
			mem[i], room[i] = g[:m*sz], g[m*sz:m*sz+pad]
		}
		r := pbt.NewRng(c.T, "content")
		a, b := r.U64(), r.U64()
		p := mem[i]
		for k := range p {
			p[k] = byte(a >> (uint(k) & 31))
			if k&4095 == 0 {
				a += b
			}
		}
		for k := range room[i] {
			room[i][k] = mark
		}
		before[i] = bytes.Clone(mem[i])
		ops[i] = operand{unsafe.Pointer(&mem[i][0]), m, 0}
	}
	c.Key(op.name, l)
	c.NonTrivial(true)
	c.Label(op.name)
	c.Samplef("%s: lengths %v", op.name, l)
	if p := pbt.Catch(func() { op.run(ops, 0.5) }); p != nil {
		c.Fatalf("%s with lengths %v: %v", op.name, l, p)
	}
	for i, sz := range op.sizes {
		keep := 0
		if op.out && i == 1 {
			keep = op.written(l) * sz
		}
		if !bytes.Equal(mem[i][keep:], before[i][keep:]) {
			c.Fatalf("%s with lengths %v modified operand %d beyond %d bytes", op.name, l, i, keep)
		}
		for k, x := range room[i] {
			if x != mark {
				c.Fatalf("%s with lengths %v wrote outside operand %d, into byte %d of the %d next to it", op.name, l, i, k, pad)
			}
		}
	}
}

var longMem []complex64

func longest() []complex64 {
	if longMem == nil {
		longMem = make([]complex64, 1<<25+64)
	}
	return longMem
}
