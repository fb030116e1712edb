package props

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/cmplx"
	"os"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/armemu"
	"verif/harness/pbt"
)

var le = binary.LittleEndian

// armRoutine describes a bulk routine: its value for one sample and how many elements a sample takes.
type armRoutine struct {
	name       string
	in, out    int // bytes per element
	inN, outN  int // elements per sample
	mul        int // bytes per element of a third operand, or 0
	scale      int // bytes of the scale, or 0
	kind       string
	want       func(in, mul, old []byte, scale float64) []byte
	tol        float64 // relative error allowed (values formed by several roundings, which may be fused), 0: exact
	inPlace    bool
	neonValues bool // computed by NEON, which treats subnormal numbers as zero
}

func bf32(v float32) []byte { return le.AppendUint32(nil, math.Float32bits(v)) }
func bf64(v float64) []byte { return le.AppendUint64(nil, math.Float64bits(v)) }
func bi16(v int16) []byte   { return le.AppendUint16(nil, uint16(v)) }
func rf32(b []byte) float32 { return math.Float32frombits(le.Uint32(b)) }
func bc64(v complex64) []byte {
	return append(bf32(real(v)), bf32(imag(v))...)
}
func rc64(b []byte) complex64 { return complex(rf32(b), rf32(b[4:])) }

var armRoutines = []armRoutine{
	{name: "Ui8toi16", in: 1, out: 2, inN: 1, outN: 1, kind: "bytes", want: func(in, _, _ []byte, _ float64) []byte {
		return []byte{in[0] ^ 0x80, in[0] ^ 0x80}
	}},
	{name: "Ui8toi16b", in: 1, out: 1, inN: 1, outN: 2, kind: "bytes", want: func(in, _, _ []byte, _ float64) []byte {
		return []byte{in[0] ^ 0x80, in[0] ^ 0x80}
	}},
	{name: "Ui8tof32", in: 1, out: 4, inN: 1, outN: 1, kind: "bytes", want: func(in, _, _ []byte, _ float64) []byte {
		return bf32(float32(int(in[0]) - 128))
	}},
	{name: "I8tof32", in: 1, out: 4, inN: 1, outN: 1, kind: "bytes", want: func(in, _, _ []byte, _ float64) []byte {
		return bf32(float32(int8(in[0])))
	}},
	{name: "Ui8toc64", in: 1, out: 8, inN: 2, outN: 1, kind: "bytes", want: func(in, _, _ []byte, _ float64) []byte {
		return append(bf32(float32(int(in[0])-128)), bf32(float32(int(in[1])-128))...)
	}},
	{name: "I8toc64", in: 1, out: 8, inN: 2, outN: 1, kind: "bytes", want: func(in, _, _ []byte, _ float64) []byte {
		return append(bf32(float32(int8(in[0]))), bf32(float32(int8(in[1])))...)
	}},
	{name: "C64toi8", in: 8, out: 1, inN: 1, outN: 2, kind: "int8", want: func(in, _, _ []byte, _ float64) []byte {
		return []byte{byte(int8(rf32(in))), byte(int8(rf32(in[4:])))}
	}},
	{name: "F32toi16", in: 4, out: 2, inN: 1, outN: 1, scale: 4, kind: "int16", want: func(in, _, _ []byte, s float64) []byte {
		return bi16(int16(rf32(in) * float32(s)))
	}},
	{name: "F32toi16ble", in: 4, out: 1, inN: 1, outN: 2, scale: 4, kind: "int16", want: func(in, _, _ []byte, s float64) []byte {
		return bi16(int16(rf32(in) * float32(s)))
	}},
	{name: "I16ToBLE", in: 2, out: 1, inN: 1, outN: 2, kind: "bytes", want: func(in, _, _ []byte, _ float64) []byte {
		return in[:2]
	}},
	{name: "I16bleToF64", in: 1, out: 8, inN: 2, outN: 1, scale: 8, kind: "bytes", want: func(in, _, _ []byte, s float64) []byte {
		return bf64(s * float64(int16(le.Uint16(in))))
	}},
	{name: "I16bleToF32", in: 1, out: 4, inN: 2, outN: 1, scale: 4, kind: "bytes", want: func(in, _, _ []byte, s float64) []byte {
		return bf32(float32(s) * float32(int16(le.Uint16(in))))
	}},
	{name: "I32bleToF32", in: 1, out: 4, inN: 4, outN: 1, scale: 4, kind: "bytes", want: func(in, _, _ []byte, s float64) []byte {
		return bf32(float32(s) * float32(int32(le.Uint32(in))))
	}},
	{name: "F32Tof32ble", in: 4, out: 1, inN: 1, outN: 4, kind: "float", want: func(in, _, _ []byte, _ float64) []byte {
		return in[:4]
	}},
	{name: "VMulC64xF32", in: 8, out: 8, inN: 1, outN: 1, mul: 4, kind: "float", inPlace: true, want: func(in, mul, _ []byte, _ float64) []byte {
		return append(bf32(rf32(in)*rf32(mul)), bf32(rf32(in[4:])*rf32(mul))...)
	}},
	{name: "VMulC64", in: 8, out: 8, inN: 1, outN: 1, mul: 8, kind: "float", inPlace: true, tol: 1e-6, want: func(in, mul, _ []byte, _ float64) []byte {
		return bc64(complex64(complex128(rc64(in)) * complex128(rc64(mul))))
	}},
	{name: "VAddF32", in: 4, out: 4, inN: 1, outN: 1, kind: "float", want: func(in, _, old []byte, _ float64) []byte {
		return bf32(rf32(in) + rf32(old))
	}},
	{name: "VAddC64", in: 8, out: 8, inN: 1, outN: 1, kind: "float", want: func(in, _, old []byte, _ float64) []byte {
		return bc64(rc64(in) + rc64(old))
	}},
	{name: "VScaleC64", in: 8, out: 8, inN: 1, outN: 1, scale: 4, kind: "float", inPlace: true, neonValues: true, want: func(in, _, _ []byte, s float64) []byte {
		return append(bf32(rf32(in)*float32(s)), bf32(rf32(in[4:])*float32(s))...)
	}},
	{name: "VScaleF32", in: 4, out: 4, inN: 1, outN: 1, scale: 4, kind: "float", inPlace: true, neonValues: true, want: func(in, _, _ []byte, s float64) []byte {
		return bf32(rf32(in) * float32(s))
	}},
	{name: "VAbsC64", in: 8, out: 4, inN: 1, outN: 1, kind: "modest", tol: 1e-6, want: func(in, _, _ []byte, _ float64) []byte {
		return bf32(float32(math.Hypot(float64(rf32(in)), float64(rf32(in[4:])))))
	}},
}

// armImages loads the programs linked for ARM and ARM64, once.
var armImages = map[string]*armemu.Image{}

func armImage(t *testing.T, arch string) *armemu.Image {
	if im := armImages[arch]; im != nil {
		return im
	}
	p := os.Getenv(map[string]string{"arm": "VERIF_ARM", "arm64": "VERIF_ARM64"}[arch])
	if p == "" {
		t.Skip("no program for " + arch)
	}
	im, err := armemu.Load(p)
	if err != nil {
		t.Fatalf("VERIF-ERROR: %s: %v", p, err)
	}
	armImages[arch] = im
	return im
}

// armRun runs one call; known is false if the emulator cannot execute the code.
func armRun(c *pbt.Case, m *armemu.Machine, what, name string, args []armemu.Arg, results string) (res []armemu.Arg, known bool) {
	res, err := m.Call("main."+name, args, results)
	if err != nil {
		if f, ok := err.(*armemu.Fault); ok && f.Unsupported {
			c.Label("not executable: " + f.Msg)
			return nil, false
		}
		c.Fatalf("%s: %v", what, err)
	}
	return res, true
}

func armMachine(c *pbt.Case, im *armemu.Image, arch string) (*armemu.Machine, string) {
	m := im.New()
	mode := arch
	if arch == "arm" {
		neon, vec := byte(0), byte(0)
		switch rapid.IntRange(0, 2).Draw(c.T, "features") {
		case 0:
			neon, mode = 1, "arm with NEON"
		case 1:
			mode = "arm with VFP"
		default:
			vec, mode = 1, "arm with VFP vectors"
		}
		m.SetByte("github.com/samuel/go-dsp/dsp.HaveNEON", neon)
		m.SetByte("github.com/samuel/go-dsp/dsp.UseVector", vec)
	}
	c.Label(mode)
	return m, mode
}

func armFloat(r *pbt.Rng, kind int) float32 {
	switch kind {
	case 0:
		return float32(r.Sym())
	case 1:
		return float32(r.Range(-9, 9))
	case 2:
		return float32(r.Sym() * math.Pow(2, float64(r.Range(-30, 30))))
	}
	switch r.Intn(12) {
	case 0:
		return 0
	case 1:
		return float32(math.Copysign(0, -1))
	case 2:
		return float32(math.Inf(1))
	case 3:
		return float32(math.Inf(-1))
	case 4:
		return math.MaxFloat32
	case 5:
		return math.SmallestNonzeroFloat32
	case 6:
		return -0x1p-126
	}
	return float32(r.Sym() * 100)
}

func armSame(got, want []byte, size int, tol float64, ref, neon float64) bool {
	if size < 4 {
		return string(got) == string(want)
	}
	for i := 0; i < len(want); i += 4 {
		if size == 8 && len(want) == 8 && tol < 0 { // a double
			a, b := math.Float64frombits(le.Uint64(got)), math.Float64frombits(le.Uint64(want))
			return a == b && math.Signbit(a) == math.Signbit(b) || a != a && b != b
		}
		a, b := rf32(got[i:]), rf32(want[i:])
		if a != a && b != b || le.Uint32(got[i:]) == le.Uint32(want[i:]) {
			continue
		}
		if a == 0 && math.Abs(float64(b)) < neon {
			continue
		}
		if tol > 0 && math.Abs(float64(a)-float64(b)) <= tol*math.Max(ref, math.Abs(float64(b)))+1e-44 {
			continue
		}
		return false
	}
	return true
}

func mag(b []byte) float64 {
	s := 0.0
	for i := 0; i+4 <= len(b); i += 4 {
		s = math.Hypot(s, float64(rf32(b[i:])))
	}
	return s
}

func TestC32(t *testing.T) {
	for _, arch := range []string{"arm", "arm64"} {
		arch := arch
		t.Run(arch+"/bulk", func(t *testing.T) {
			im := armImage(t, arch)
			pbt.Prop(t, "C32/"+arch+"/bulk", 6, func(c *pbt.Case) { armBulk(c, im, arch) })
		})
		t.Run(arch+"/extrema", func(t *testing.T) {
			im := armImage(t, arch)
			pbt.Prop(t, "C32/"+arch+"/extrema", 2, func(c *pbt.Case) { armExtrema(c, im, arch) })
		})
		t.Run(arch+"/angle", func(t *testing.T) {
			im := armImage(t, arch)
			pbt.Prop(t, "C32/"+arch+"/angle", 1, func(c *pbt.Case) { armAngle(c, im, arch) })
		})
		t.Run(arch+"/filters", func(t *testing.T) {
			im := armImage(t, arch)
			pbt.Prop(t, "C32/"+arch+"/filters", 3, func(c *pbt.Case) { armFilters(c, im, arch) })
		})
	}
}

func armBulk(c *pbt.Case, im *armemu.Image, arch string) {
	rt := armRoutines[rapid.IntRange(0, len(armRoutines)-1).Draw(c.T, "routine")]
	m, mode := armMachine(c, im, arch)
	r := pbt.NewRng(c.T, "data")
	n := pbt.Len(c.T, 300, "samples")
	ni, no := n*rt.inN, n*rt.outN
	inPlace := rt.inPlace && rapid.IntRange(0, 3).Draw(c.T, "in place") == 0
	nm := n
	switch rapid.IntRange(0, 3).Draw(c.T, "lengths") {
	case 1:
		no = pbt.Len(c.T, 300*rt.outN, "output elements")
	case 2:
		ni = pbt.Len(c.T, 300*rt.inN, "input elements")
	case 3:
		if rt.mul > 0 {
			nm = pbt.Len(c.T, 300, "multipliers")
		}
	}
	if inPlace {
		no = ni
	}
	off := func(align int, label string) int {
		if align > 4 {
			align = 4
		}
		return rapid.IntRange(0, 63/align).Draw(c.T, label) * align
	}
	inA, in := m.Buffer(ni*rt.in, off(rt.in, "input offset"))
	outA, out := inA, in
	if !inPlace {
		outA, out = m.Buffer(no*rt.out, off(rt.out, "output offset"))
	}
	var mulA uint64
	var mul []byte
	if rt.mul > 0 {
		mulA, mul = m.Buffer(nm*rt.mul, off(rt.mul, "multiplier offset"))
	}
	scale := 0.0
	if rt.scale > 0 {
		switch r.Intn(4) {
		case 0:
			scale = 1
		case 1:
			scale = -1
		case 2:
			scale = r.Sym() * 10
		default:
			scale = math.Pow(2, float64(r.Range(-15, 15)))
		}
		if rt.scale == 4 {
			scale = float64(float32(scale))
		}
	}
	kind := r.Intn(4)
	floats := func(b []byte) {
		for i := 0; i+4 <= len(b); i += 4 {
			k := kind
			if rt.kind == "modest" && k == 3 {
				k = 2
			}
			le.PutUint32(b[i:], math.Float32bits(armFloat(r, k)))
		}
	}
	switch rt.kind {
	case "bytes":
		for i := range in {
			in[i] = byte(r.U64())
		}
	case "int8":
		for i := 0; i+4 <= len(in); i += 4 {
			le.PutUint32(in[i:], math.Float32bits(float32(r.Sym()*128.99)+0))
			if v := rf32(in[i:]); v <= -129 || v >= 128 {
				le.PutUint32(in[i:], math.Float32bits(-128))
			}
		}
	case "int16":
		for i := 0; i+4 <= len(in); i += 4 {
			v := float32(r.Sym() * 32767.9 / scale)
			if p := v * float32(scale); p <= -32769 || p >= 32768 {
				v = 0
			}
			le.PutUint32(in[i:], math.Float32bits(v))
		}
	default:
		floats(in)
	}
	floats(mul)
	if rt.name == "VAddF32" || rt.name == "VAddC64" {
		floats(out)
	} else if !inPlace {
		for i := range out {
			out[i] = byte(i*31 + 7)
		}
	}
	in0, out0, mul0 := append([]byte(nil), in...), append([]byte(nil), out...), append([]byte(nil), mul...)
	args := append(armemu.Slice(inA, ni, ni), armemu.Slice(outA, no, no)...)
	if rt.mul > 0 {
		args = append(args, armemu.Slice(mulA, nm, nm)...)
	}
	switch rt.scale {
	case 4:
		args = append(args, armemu.F32(float32(scale)))
	case 8:
		args = append(args, armemu.F64(scale))
	}
	cnt := min(ni/rt.inN, no/rt.outN)
	if rt.mul > 0 {
		cnt = min(cnt, nm)
	}
	what := fmt.Sprintf("%s on %s, %d input and %d output elements", rt.name, mode, ni, no)
	if rt.mul > 0 {
		what += fmt.Sprintf(", %d multipliers", nm)
	}
	if rt.scale > 0 {
		what += fmt.Sprintf(", scale %v", scale)
	}
	c.Key(rt.name, mode, in0, ni, no, nm, fmt.Sprint(scale), inPlace)
	c.NonTrivial(cnt > 1 && varied(in0))
	c.Label("routine " + rt.name)
	c.Samplef("%s, input %x...", what, in0[:min(len(in0), 12)])
	if _, known := armRun(c, m, what, rt.name, args, ""); !known {
		return
	}
	for i := 0; i < cnt; i++ {
		is, os := rt.in*rt.inN, rt.out*rt.outN
		var mu []byte
		tol, ref := rt.tol, 0.0
		if rt.mul > 0 {
			mu = mul0[i*rt.mul:]
			ref = mag(in0[i*is:i*is+is]) * mag(mu[:rt.mul])
		}
		if rt.out == 8 && rt.scale == 8 {
			tol = -1
		}
		want := rt.want(in0[i*is:i*is+is], mu, out0[i*os:i*os+os], scale)
		got := out[i*os : i*os+os]
		if rt.name == "VMulC64" && !finite32(append(append([]byte{}, want...), got...)) || rt.name == "VMulC64" && !finite32(append(append([]byte{}, in0[i*is:i*is+is]...), mu[:rt.mul]...)) {
			continue // intermediate products may overflow
		}
		flushed := 0.0 // magnitude below which NEON may give zero, as it takes subnormal operands and results for zero
		if rt.neonValues && mode == "arm with NEON" {
			flushed = 0x1p-126 * math.Max(1, math.Abs(scale))
		}
		if !armSame(got, want, rt.out, tol, ref, flushed) {
			c.Fatalf("%s: sample %d of %d: input %x gives %x instead of %x", what, i, cnt, in0[i*is:i*is+is], got, want)
		}
	}
	if tail := cnt * rt.out * rt.outN; string(out[tail:]) != string(out0[tail:]) {
		c.Fatalf("%s: the output changes after sample %d", what, cnt)
	}
	if !inPlace && string(in) != string(in0) || string(mul) != string(mul0) {
		c.Fatalf("%s: an input changes", what)
	}
}

func finite32(b []byte) bool {
	for i := 0; i+4 <= len(b); i += 4 {
		if v := float64(rf32(b[i:])); v != v || math.Abs(v) > 1e18 {
			return false
		}
	}
	return true
}

func armExtrema(c *pbt.Case, im *armemu.Image, arch string) {
	m, mode := armMachine(c, im, arch)
	r := pbt.NewRng(c.T, "data")
	n := pbt.Len(c.T, 300, "samples")
	a, in := m.Buffer(4*n, 4*rapid.IntRange(0, 15).Draw(c.T, "offset"))
	kind := r.Intn(4)
	v := make([]float32, n)
	for i := range v {
		v[i] = armFloat(r, kind)
		if kind == 3 && math.Abs(float64(v[i])) <= 0x1p-126 {
			v[i] = 1 // NEON takes subnormal numbers for zero
		}
	}
	if n > 0 && r.Bool() { // one element stands out
		x := float32(1e9)
		if r.Bool() {
			x = -x
		}
		v[r.Intn(n)] = x
	}
	lo, hi := math.Inf(1), math.Inf(-1)
	for i, x := range v {
		le.PutUint32(in[4*i:], math.Float32bits(x))
		lo, hi = math.Min(lo, float64(x)), math.Max(hi, float64(x))
	}
	in0 := string(in)
	name, want := "VMaxF32", hi
	if rapid.Bool().Draw(c.T, "minimum") {
		name, want = "VMinF32", lo
	}
	c.Key(name, mode, in0)
	c.NonTrivial(n > 1 && lo != hi)
	what := fmt.Sprintf("%s on %s of %v", name, mode, v)
	c.Samplef("%s on %s of %d elements from %v to %v", name, mode, n, lo, hi)
	res, known := armRun(c, m, what, name, armemu.Slice(a, n, n), "f")
	if known && res[0].F != want {
		c.Fatalf("%s gives %v instead of %v", what, res[0].F, want)
	}
	if string(in) != in0 {
		c.Fatalf("%s changes its input", what)
	}
}

func angleDist(a, b float64) float64 {
	return math.Abs(math.Remainder(a-b, 2*math.Pi))
}

func armAngle(c *pbt.Case, im *armemu.Image, arch string) {
	m, mode := armMachine(c, im, arch)
	py, px := point(c, "point")
	y, x := float32(py), float32(px)
	want := math.Atan2(float64(y), float64(x))
	c.Key(mode, fmt.Sprint(y, x))
	c.NonTrivial(x != 0 && y != 0)
	for _, k := range []struct {
		name string
		tol  float64
	}{{"FastAtan2", 0.0102}, {"FastAtan2_2", 0.0051}} {
		what := fmt.Sprintf("%s(%v, %v) on %s", k.name, y, x, mode)
		c.Samplef("%s", what)
		res, known := armRun(c, m, what, k.name, []armemu.Arg{armemu.F32(y), armemu.F32(x)}, "f")
		if !known {
			continue
		}
		got := res[0].F
		if x == 0 && y == 0 {
			want = 0 // whatever the signs of the zeros
		}
		if !(angleDist(got, want) <= k.tol && math.Abs(got) <= math.Pi+0.0102) { // so that a NaN fails
			c.Fatalf("%s = %v, the angle is %v", what, got, want)
		}
	}
}

func armFilters(c *pbt.Case, im *armemu.Image, arch string) {
	m, mode := armMachine(c, im, arch)
	r := pbt.NewRng(c.T, "signal")
	fi, _ := m.Buffer(64, 0)
	which := rapid.IntRange(0, 4).Draw(c.T, "filter")
	blocks := rapid.IntRange(1, 4).Draw(c.T, "calls")
	offset := func() int { return 4 * rapid.IntRange(0, 15).Draw(c.T, "offset") }
	name := []string{"FMDemod", "Downsample", "Rational", "Rotate90", "I32Rotate90"}[which]
	c.Label("filter " + name)
	what := fmt.Sprintf("%s on %s", name, mode)
	var hist []complex128 // FMDemod: all input; Downsample: input not yet emitted
	var sum float64
	idx, fast, slow, total := 0, 0, 0, 0
	switch which {
	case 1:
		fast = rapid.IntRange(1, 12).Draw(c.T, "factor")
		if _, ok := armRun(c, m, what, "DownsampleInit", []armemu.Arg{armemu.Ptr(fi), armemu.Int(fast)}, ""); !ok {
			return
		}
		what += fmt.Sprintf(" by %d", fast)
	case 2:
		fast = rapid.IntRange(1, 60).Draw(c.T, "fast")
		slow = rapid.IntRange(1, fast).Draw(c.T, "slow")
		if _, ok := armRun(c, m, what, "RationalInit", []armemu.Arg{armemu.Ptr(fi), armemu.Int(fast), armemu.Int(slow)}, ""); !ok {
			return
		}
		what += fmt.Sprintf(" from %d to %d", fast, slow)
	}
	for b := 0; b < blocks; b++ {
		n := pbt.Len(c.T, 120, "samples")
		total += n
		what := fmt.Sprintf("%s, call %d with %d samples", what, b, n)
		c.Samplef("%s", what)
		switch which {
		case 0:
			outN := n
			short := false
			switch rapid.IntRange(0, 9).Draw(c.T, "longer output") {
			case 1:
				outN += r.Range(1, 5)
			case 2: // no use is defined (portable code panics), but other memory is to be left alone
				if short = r.Intn(4) == 0 && n > 0; short {
					outN = r.Intn(n)
				}
			}
			inA, in := m.Buffer(8*n, offset())
			outA, out := m.Buffer(4*outN, offset())
			for i := 0; i < n; i++ {
				v := complex(float32(r.Sym()), float32(r.Sym()))
				switch r.Intn(12) {
				case 0:
					v = 0
				case 1:
					v = complex(real(v), 0)
				case 2:
					v = complex(0, imag(v))
				}
				copy(in[8*i:], bc64(v))
			}
			in0 := string(in)
			args := append([]armemu.Arg{armemu.Ptr(fi)}, armemu.Slice(inA, n, n)...)
			if short {
				if _, err := m.Call("main."+name, append(args, armemu.Slice(outA, outN, outN)...), "i"); err != nil {
					if f := err.(*armemu.Fault); !f.Unsupported && !f.Panic {
						c.Fatalf("%s and room for %d: %v", what, outN, err)
					}
				}
				c.Label("output shorter than input")
				return
			}
			res, ok := armRun(c, m, what, name, append(args, armemu.Slice(outA, outN, outN)...), "i")
			if !ok {
				return
			}
			if int(int32(res[0].Int)) != n {
				c.Fatalf("%s reports %d samples", what, int32(res[0].Int))
			}
			for i := 0; i < n; i++ {
				v := complex128(rc64(in[8*i:]))
				prev := complex128(0)
				if len(hist) > 0 {
					prev = hist[len(hist)-1]
				}
				got, want := float64(rf32(out[4*i:])), 0.0
				if v != 0 && prev != 0 {
					want = cmplx.Phase(v * cmplx.Conj(prev))
				}
				if !(angleDist(got, want) <= 0.011 && math.Abs(got) <= math.Pi+0.011) || (v == 0 || prev == 0) && got != 0 {
					c.Fatalf("%s: output %d is %v instead of %v (sample %v after %v)", what, i, got, want, v, prev)
				}
				hist = append(hist, v)
			}
			if string(in) != in0 {
				c.Fatalf("%s changes its input", what)
			}
		case 1, 2:
			size := 8
			if which == 2 {
				size = 4
			}
			a, s := m.Buffer(size*n, offset())
			var want []complex128
			for i := 0; i < n; i++ {
				v := complex(float32(r.Range(-1000, 1000)), float32(r.Range(-1000, 1000)))
				copy(s[size*i:], bc64(v)[:size])
				if which == 1 {
					hist = append(hist, complex128(v))
					if len(hist) == fast {
						t := complex128(0)
						for _, h := range hist {
							t += h
						}
						want, hist = append(want, t), nil
					}
				} else {
					sum += float64(real(v))
					if idx += slow; idx >= fast {
						idx -= fast
						want, sum = append(want, complex(sum*float64(slow)/float64(fast), 0)), 0
					}
				}
			}
			cp := n + r.Intn(3)
			res, ok := armRun(c, m, what, name, append([]armemu.Arg{armemu.Ptr(fi)}, armemu.Slice(a, n, cp)...), "iii")
			if !ok {
				return
			}
			if int(res[1].Int) != len(want) {
				c.Fatalf("%s emits %d samples instead of %d", what, int(res[1].Int), len(want))
			}
			if len(want) > 0 && res[0].Int != a {
				c.Fatalf("%s returns a slice at %#x instead of %#x", what, res[0].Int, a)
			}
			if int(res[2].Int) > cp || int(res[2].Int) < len(want) {
				c.Fatalf("%s returns a slice of capacity %d, the argument has %d", what, res[2].Int, cp)
			}
			for i, w := range want {
				got := complex128(complex(rf32(s[size*i:]), 0))
				if size == 8 {
					got = complex128(rc64(s[size*i:]))
				}
				if !(cmplx.Abs(got-w) <= 1e-5*(1+cmplx.Abs(w))) {
					c.Fatalf("%s: output %d is %v instead of %v", what, i, got, w)
				}
			}
		case 3, 4:
			whole := n%4 == 0 || r.Intn(4) > 0
			if whole {
				n = n / 4 * 4
			}
			size := 8
			a, s := m.Buffer(size*n, offset())
			for i := 0; i < 2*n; i++ {
				if which == 3 {
					copy(s[4*i:], bf32(armFloat(r, r.Intn(3))))
				} else {
					le.PutUint32(s[4*i:], uint32(r.U64())>>uint(r.Intn(32)))
				}
			}
			s0 := append([]byte(nil), s...)
			cnt := n
			if which == 4 {
				cnt = 2 * n
			}
			cp := cnt + r.Intn(3)
			args := append([]armemu.Arg{armemu.Ptr(fi)}, armemu.Slice(a, cnt, cp)...)
			if !whole { // the last samples are not defined, and the portable code panics; other memory is to be left alone
				if _, err := m.Call("main."+name, args, "iii"); err != nil {
					if f := err.(*armemu.Fault); !f.Unsupported && !f.Panic {
						c.Fatalf("%s: %v", what, err)
					}
				}
				c.Label("no multiple of four samples")
				continue
			}
			res, ok := armRun(c, m, what, name, args, "iii")
			if !ok {
				return
			}
			if int(res[1].Int) != cnt || int(res[2].Int) != cp || cnt > 0 && res[0].Int != a {
				c.Fatalf("%s returns a slice at %#x of %d and %d elements instead of its argument (%#x, %d, %d)", what, res[0].Int, res[1].Int, res[2].Int, a, cnt, cp)
			}
			for i := 0; i < n; i++ {
				re, im := s0[8*i:8*i+4], s0[8*i+4:8*i+8]
				neg := func(b []byte) []byte {
					if which == 3 {
						return bf32(-rf32(b))
					}
					return le.AppendUint32(nil, -le.Uint32(b))
				}
				var want []byte
				switch i % 4 {
				case 0:
					want = append(append(want, re...), im...)
				case 1:
					want = append(append(want, neg(im)...), re...)
				case 2:
					want = append(append(want, neg(re)...), neg(im)...)
				default:
					want = append(append(want, im...), neg(re)...)
				}
				if string(want) != string(s[8*i:8*i+8]) {
					c.Fatalf("%s: sample %d: %x%x becomes %x instead of %x", what, i, re, im, s[8*i:8*i+8], want)
				}
			}
		}
	}
	c.Key(name, mode, fmt.Sprint(r.U64()), fast, slow, total)
	c.NonTrivial(total > 1)
}
