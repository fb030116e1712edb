package armemu

import (
	"math"
	"math/bits"
)

type cpu64 struct {
	x          [31]uint64
	sp, pc     uint64
	v          [32][2]uint64
	n, z, c, o bool
	called     bool // the last instruction was a call
}

func (m *Machine) call64(a uint64, args []Arg, results string) []Arg {
	c := &m.a64
	*c = cpu64{}
	sp := uint64(stackTop - 4096)
	c.sp, c.x[30], c.x[28], c.pc = sp, returnAddr, gBlock, a
	ni, nf := 0, 0
	for _, x := range args {
		switch x.Float {
		case 0:
			c.x[ni] = x.Int
			ni++
		case 4:
			c.v[nf][0] = uint64(math.Float32bits(float32(x.F)))
			nf++
		default:
			c.v[nf][0] = math.Float64bits(x.F)
			nf++
		}
	}
	m.run64()
	if c.sp != sp {
		m.fault("returns with the stack pointer off by %d", int64(c.sp-sp))
	}
	if c.x[28] != gBlock {
		m.fault("returns with the goroutine register changed")
	}
	var res []Arg
	ni, nf = 0, 0
	for _, k := range results {
		switch k {
		case 'i':
			res = append(res, Arg{Int: c.x[ni]})
			ni++
		case 'f':
			res = append(res, F32(math.Float32frombits(uint32(c.v[nf][0]))))
			nf++
		default:
			res = append(res, F64(math.Float64frombits(c.v[nf][0])))
			nf++
		}
	}
	return res
}

func (c *cpu64) r(i uint32) uint64 { // 31 is zero
	if i == 31 {
		return 0
	}
	return c.x[i]
}
func (c *cpu64) rsp(i uint32) uint64 {
	if i == 31 {
		return c.sp
	}
	return c.x[i]
}
func (c *cpu64) set(i uint32, v uint64, sf bool) {
	if !sf {
		v = uint64(uint32(v))
	}
	if i != 31 {
		c.x[i] = v
	}
}
func (c *cpu64) setsp(i uint32, v uint64, sf bool) {
	if !sf {
		v = uint64(uint32(v))
	}
	if i == 31 {
		c.sp = v
	} else {
		c.x[i] = v
	}
}

func (c *cpu64) cond(k uint32) bool {
	t := cpu32{n: c.n, z: c.z, c: c.c, v: c.o}
	return t.cond(k)
}

func (c *cpu64) addc(a, b uint64, ci, sf, set bool) uint64 {
	k := uint64(0)
	if ci {
		k = 1
	}
	if !sf {
		t := cpu32{}
		r := t.add(uint32(a), uint32(b), ci, true)
		if set {
			c.n, c.z, c.c, c.o = t.n, t.z, t.c, t.v
		}
		return uint64(r)
	}
	r, co := bits.Add64(a, b, k)
	if set {
		c.n, c.z, c.c = r>>63 != 0, r == 0, co != 0
		c.o = (a^r)&(b^r)>>63 != 0
	}
	return r
}

func bitmask(n, imms, immr uint32, sf bool) (uint64, bool) {
	l := 31 - bits.LeadingZeros32(n<<6|^imms&0x3f)
	if l < 1 {
		return 0, false
	}
	size := uint(1) << uint(l)
	lev := uint32(size - 1)
	s, r := uint(imms&lev), uint(immr&lev)
	if s == size-1 {
		return 0, false
	}
	w := uint64(1)<<(s+1) - 1
	mask := ^uint64(0)
	if size < 64 {
		mask = 1<<size - 1
	}
	w = (w>>r | w<<(size-r)) & mask
	for k := size; k < 64; k *= 2 {
		w |= w << k
	}
	if !sf {
		w = uint64(uint32(w))
	}
	return w, true
}

func shift64(v uint64, kind, n uint32, sf bool) uint64 {
	if !sf {
		x := uint32(v)
		switch kind {
		case 0:
			return uint64(x << n)
		case 1:
			return uint64(x >> n)
		case 2:
			return uint64(uint32(int32(x) >> n))
		}
		return uint64(bits.RotateLeft32(x, -int(n)))
	}
	switch kind {
	case 0:
		return v << n
	case 1:
		return v >> n
	case 2:
		return uint64(int64(v) >> n)
	}
	return bits.RotateLeft64(v, -int(n))
}

func extend(v uint64, opt uint32) uint64 {
	switch opt {
	case 0:
		return v & 0xff
	case 1:
		return v & 0xffff
	case 2:
		return v & 0xffffffff
	case 4:
		return uint64(int64(int8(v)))
	case 5:
		return uint64(int64(int16(v)))
	case 6:
		return uint64(int64(int32(v)))
	}
	return v
}

func sx(v uint32, bits uint) uint64 { return uint64(int64(uint64(v)<<(64-bits)) >> (64 - bits)) }

func (m *Machine) run64() {
	c := &m.a64
	for m.enter(c.pc) {
		pc := c.pc
		if m.im.fresh[pc] && c.called {
			for i := range c.x {
				if i != 18 && i != 28 && i != 29 && i != 30 {
					c.x[i] = 0x9b3f5ca7d1e68423 + uint64(i)*0x1020408102040811
				}
			}
			for i := range c.v {
				c.v[i] = [2]uint64{0x41f3a5c7c2b6d9e1 + uint64(i)*0x0010040100200501, 0x42e1b7c9c3a4d5f7}
			}
			c.n, c.z, c.c, c.o = true, false, true, true
		}
		c.called = false
		ins := m.fetch(pc)
		if ins>>16 == 0 {
			m.undefined(ins)
		}
		next := pc + 4
		if t, ok := m.exec64(ins); ok {
			next = t
		} else {
			m.sequential(next)
		}
		c.pc = next
	}
}

// exec64 executes one instruction; a branch taken returns its target.
func (m *Machine) exec64(ins uint32) (uint64, bool) {
	c := &m.a64
	sf := ins>>31 != 0
	rd, rn, rm := ins&31, ins>>5&31, ins>>16&31
	switch ins >> 25 & 15 {
	case 8, 9: // immediates
		switch ins >> 23 & 7 {
		case 0, 1: // ADR, ADRP
			imm := sx(ins>>5&0x7ffff<<2|ins>>29&3, 21)
			if sf {
				c.set(rd, c.pc&^4095+imm<<12, true)
			} else {
				c.set(rd, c.pc+imm, true)
			}
		case 2, 3:
			if ins>>23&7 == 3 {
				m.unsupported(ins)
			}
			imm := uint64(ins >> 10 & 0xfff)
			if ins>>22&1 != 0 {
				imm <<= 12
			}
			set := ins>>29&1 != 0
			var r uint64
			if ins>>30&1 != 0 {
				r = c.addc(c.rsp(rn), ^imm, true, sf, set)
			} else {
				r = c.addc(c.rsp(rn), imm, false, sf, set)
			}
			if set {
				c.set(rd, r, sf)
			} else {
				c.setsp(rd, r, sf)
			}
		case 4: // logical
			w, ok := bitmask(ins>>22&1, ins>>10&63, ins>>16&63, sf)
			if !ok {
				m.unsupported(ins)
			}
			c.logic(ins>>29&3, rd, c.r(rn), w, sf, true)
		case 5: // MOVN, MOVZ, MOVK
			sh := ins >> 21 & 3 * 16
			imm := uint64(ins>>5&0xffff) << sh
			switch ins >> 29 & 3 {
			case 0:
				c.set(rd, ^imm, sf)
			case 2:
				c.set(rd, imm, sf)
			case 3:
				c.set(rd, c.r(rd)&^(0xffff<<sh)|imm, sf)
			default:
				m.unsupported(ins)
			}
		case 6: // bit fields
			r, s := ins>>16&63, ins>>10&63
			w := uint32(32)
			if sf {
				w = 64
			}
			v := c.r(rn)
			var field, mask uint64
			if s >= r {
				n := s - r + 1
				mask = 1<<n - 1
				if n == 64 {
					mask = ^uint64(0)
				}
				field = v >> r & mask
			} else {
				mask = (1<<(s+1) - 1) << (w - r)
				field = v << (w - r) & mask
			}
			switch ins >> 29 & 3 {
			case 0: // SBFM
				top := uint32(0)
				if s >= r {
					top = s - r
				} else {
					top = w - r + s
				}
				c.set(rd, uint64(int64(field<<(63-top))>>(63-top)), sf)
			case 1:
				c.set(rd, c.r(rd)&^mask|field, sf)
			case 2:
				c.set(rd, field, sf)
			default:
				m.unsupported(ins)
			}
		case 7: // EXTR
			n := ins >> 10 & 63
			if sf {
				if n == 0 {
					c.set(rd, c.r(rm), true)
				} else {
					c.set(rd, c.r(rm)>>n|c.r(rn)<<(64-n), true)
				}
			} else {
				c.set(rd, uint64(uint32((c.r(rn)<<32|uint64(uint32(c.r(rm))))>>n)), false)
			}
		}
	case 10, 11: // branches
		switch {
		case ins>>26&31 == 5:
			if sf {
				c.x[30], c.called = c.pc+4, true
			}
			return c.pc + sx(ins&0x3ffffff, 26)<<2, true
		case ins>>24 == 0x54 && ins>>4&1 == 0:
			if c.cond(ins & 15) {
				return c.pc + sx(ins>>5&0x7ffff, 19)<<2, true
			}
		case ins>>25&0x3f == 0x1a: // CBZ, CBNZ
			v := c.r(rd)
			if !sf {
				v = uint64(uint32(v))
			}
			if (v == 0) == (ins>>24&1 == 0) {
				return c.pc + sx(ins>>5&0x7ffff, 19)<<2, true
			}
		case ins>>25&0x3f == 0x1b: // TBZ, TBNZ
			b := ins>>31<<5 | ins>>19&31
			if (c.r(rd)>>b&1 == 0) == (ins>>24&1 == 0) {
				return c.pc + sx(ins>>5&0x3fff, 14)<<2, true
			}
		case ins&0xff9ffc1f == 0xd61f0000: // BR, BLR, RET
			t := c.r(rn)
			if ins>>21&3 == 1 {
				c.x[30], c.called = c.pc+4, true
			}
			return t, true
		case ins&0xfffff01f == 0xd503201f, ins&0xfffff000 == 0xd5033000: // hints, barriers
		default:
			m.unsupported(ins)
		}
	case 4, 6, 12, 14:
		m.mem64(ins)
	case 5, 13:
		m.reg64(ins)
	case 7, 15:
		m.simd64(ins)
	default:
		m.unsupported(ins)
	}
	return 0, false
}

func (c *cpu64) logic(op, rd uint32, a, b uint64, sf, toSP bool) {
	var r uint64
	switch op {
	case 0, 3:
		r = a & b
	case 1:
		r = a | b
	case 2:
		r = a ^ b
	}
	if !sf {
		r = uint64(uint32(r))
	}
	if op == 3 {
		c.z, c.c, c.o = r == 0, false, false
		c.n = r>>63 != 0
		if !sf {
			c.n = r>>31 != 0
		}
		c.set(rd, r, sf)
	} else if toSP {
		c.setsp(rd, r, sf)
	} else {
		c.set(rd, r, sf)
	}
}

func (m *Machine) loadV(i uint32, a uint64, n int) {
	c := &m.a64
	c.v[i] = [2]uint64{}
	if n == 16 {
		m.mem(a, 16, false)
		c.v[i] = [2]uint64{m.load(a, 8), m.load(a+8, 8)}
		return
	}
	c.v[i][0] = m.load(a, n)
}

func (m *Machine) storeV(i uint32, a uint64, n int) {
	c := &m.a64
	if n == 16 {
		m.mem(a, 16, true)
		m.store(a, 8, c.v[i][0])
		m.store(a+8, 8, c.v[i][1])
		return
	}
	m.store(a, n, c.v[i][0])
}

func (m *Machine) mem64(ins uint32) {
	c := &m.a64
	rt, rn, rm := ins&31, ins>>5&31, ins>>16&31
	vec := ins>>26&1 != 0
	switch {
	case ins>>27&7 == 5: // pairs
		opc := ins >> 30
		var n int
		switch {
		case vec:
			n = 4 << opc
		case opc == 2:
			n = 8
		case opc == 0, opc == 1:
			n = 4
		default:
			m.unsupported(ins)
		}
		off := sx(ins>>15&0x7f, 7) * uint64(n)
		base := c.rsp(rn)
		a := base
		mode := ins >> 23 & 3
		if mode != 1 {
			a += off
		}
		t2 := ins >> 10 & 31
		ld := ins>>22&1 != 0
		for i, t := range []uint32{rt, t2} {
			at := a + uint64(i*n)
			switch {
			case vec && ld:
				m.loadV(t, at, n)
			case vec:
				m.storeV(t, at, n)
			case ld && opc == 1:
				c.set(t, uint64(int64(int32(m.load(at, 4)))), true)
			case ld:
				c.set(t, m.load(at, n), true)
			default:
				m.store(at, n, c.r(t))
			}
		}
		if mode == 1 || mode == 3 {
			c.setsp(rn, base+off, true)
		}
	case ins>>27&7 == 3: // literal
		a := c.pc + sx(ins>>5&0x7ffff, 19)<<2
		switch opc := ins >> 30; {
		case vec:
			m.loadV(rt, a, 4<<opc)
		case opc == 0:
			c.set(rt, m.load(a, 4), true)
		case opc == 1:
			c.set(rt, m.load(a, 8), true)
		case opc == 2:
			c.set(rt, uint64(int64(int32(m.load(a, 4)))), true)
		}
	case ins>>27&7 == 7:
		size, opc := ins>>30, ins>>22&3
		scale := size
		if vec && opc&2 != 0 {
			scale = 4
		}
		n := 1 << scale
		base := c.rsp(rn)
		a := base
		if ins>>24&1 != 0 {
			a += uint64(ins>>10&0xfff) << scale
		} else if ins>>21&1 != 0 {
			if ins>>10&3 != 2 {
				m.unsupported(ins) // atomics
			}
			x := extend(c.r(rm), ins>>13&7)
			if ins>>12&1 != 0 {
				x <<= scale
			}
			a += x
		} else {
			off := sx(ins>>12&0x1ff, 9)
			switch ins >> 10 & 3 {
			case 0:
				a += off
			case 1:
				c.setsp(rn, base+off, true)
			case 3:
				a += off
				c.setsp(rn, a, true)
			default:
				m.unsupported(ins)
			}
		}
		if vec {
			if opc&1 != 0 {
				m.loadV(rt, a, n)
			} else {
				m.storeV(rt, a, n)
			}
			return
		}
		switch opc {
		case 0:
			m.store(a, n, c.r(rt))
		case 1:
			c.set(rt, m.load(a, n), true)
		default:
			if size == 3 {
				return // PRFM
			}
			v := extend(m.load(a, n), 4+size)
			c.set(rt, v, opc == 2)
		}
	default:
		m.unsupported(ins)
	}
}

func (m *Machine) reg64(ins uint32) {
	c := &m.a64
	sf := ins>>31 != 0
	rd, rn, rm, ra := ins&31, ins>>5&31, ins>>16&31, ins>>10&31
	switch {
	case ins>>24&31 == 10: // logical shifted
		if !sf && ra > 31 {
			m.unsupported(ins)
		}
		b := shift64(c.r(rm), ins>>22&3, ins>>10&63, sf)
		if ins>>21&1 != 0 {
			b = ^b
		}
		c.logic(ins>>29&3, rd, c.r(rn), b, sf, false)
	case ins>>24&31 == 11: // add, subtract
		set := ins>>29&1 != 0
		var a, b uint64
		if ins>>21&1 != 0 {
			a = c.rsp(rn)
			b = extend(c.r(rm), ins>>13&7) << (ins >> 10 & 7)
		} else {
			a = c.r(rn)
			b = shift64(c.r(rm), ins>>22&3, ins>>10&63, sf)
		}
		var r uint64
		if ins>>30&1 != 0 {
			r = c.addc(a, ^b, true, sf, set)
		} else {
			r = c.addc(a, b, false, sf, set)
		}
		if set || ins>>21&1 == 0 {
			c.set(rd, r, sf)
		} else {
			c.setsp(rd, r, sf)
		}
	case ins>>21&0xff == 0xd0 && ins>>10&63 == 0: // ADC, SBC
		b := c.r(rm)
		if ins>>30&1 != 0 {
			b = ^b
		}
		c.set(rd, c.addc(c.r(rn), b, c.c, sf, ins>>29&1 != 0), sf)
	case ins>>21&0xff == 0xd2 && ins>>29&1 != 0 && ins>>10&1 == 0: // CCMP, CCMN
		if !c.cond(ins >> 12 & 15) {
			c.n, c.z, c.c, c.o = ins>>3&1 != 0, ins>>2&1 != 0, ins>>1&1 != 0, ins&1 != 0
			return
		}
		b := c.r(rm)
		if ins>>11&1 != 0 {
			b = uint64(rm)
		}
		if ins>>30&1 != 0 {
			c.addc(c.r(rn), ^b, true, sf, true)
		} else {
			c.addc(c.r(rn), b, false, sf, true)
		}
	case ins>>21&0xff == 0xd4: // conditional select
		if c.cond(ins >> 12 & 15) {
			c.set(rd, c.r(rn), sf)
			return
		}
		b := c.r(rm)
		switch ins>>30&1<<1 | ins>>10&1 {
		case 1:
			b++
		case 2:
			b = ^b
		case 3:
			b = -b
		}
		c.set(rd, b, sf)
	case ins>>21&0xff == 0xd6 && ins>>30&1 != 0: // one source
		v := c.r(rn)
		switch ins >> 10 & 0x3f {
		case 0:
			if sf {
				v = bits.Reverse64(v)
			} else {
				v = uint64(bits.Reverse32(uint32(v)))
			}
		case 1:
			v = v>>8&0x00ff00ff00ff00ff | v<<8&0xff00ff00ff00ff00
		case 2:
			if sf {
				v = uint64(bits.ReverseBytes32(uint32(v))) | uint64(bits.ReverseBytes32(uint32(v>>32)))<<32
			} else {
				v = uint64(bits.ReverseBytes32(uint32(v)))
			}
		case 3:
			v = bits.ReverseBytes64(v)
		case 4:
			if sf {
				v = uint64(bits.LeadingZeros64(v))
			} else {
				v = uint64(bits.LeadingZeros32(uint32(v)))
			}
		default:
			m.unsupported(ins)
		}
		c.set(rd, v, sf)
	case ins>>21&0xff == 0xd6: // two sources
		a, b := c.r(rn), c.r(rm)
		w := uint64(31)
		if sf {
			w = 63
		} else {
			a, b = uint64(uint32(a)), uint64(uint32(b))
		}
		switch op := ins >> 10 & 63; op {
		case 2, 3:
			r := uint64(0)
			switch {
			case b == 0:
			case op == 2:
				r = a / b
			case sf:
				if b == ^uint64(0) {
					r = -a
				} else {
					r = uint64(int64(a) / int64(b))
				}
			default:
				r = uint64(int64(int32(a)) / int64(int32(b)))
			}
			c.set(rd, r, sf)
		case 8, 9, 10, 11:
			c.set(rd, shift64(a, op-8, uint32(b&w), sf), sf)
		default:
			m.unsupported(ins)
		}
	case ins>>24&31 == 27: // three sources
		a, b := c.r(rn), c.r(rm)
		neg := ins>>15&1 != 0
		var p uint64
		switch ins >> 21 & 7 {
		case 0:
			p = a * b
		case 1:
			p = uint64(int64(int32(a)) * int64(int32(b)))
		case 5:
			p = uint64(uint32(a)) * uint64(uint32(b))
		case 2:
			h, _ := bits.Mul64(a, b)
			if int64(a) < 0 {
				h -= b
			}
			if int64(b) < 0 {
				h -= a
			}
			c.set(rd, h, true)
			return
		case 6:
			h, _ := bits.Mul64(a, b)
			c.set(rd, h, true)
			return
		default:
			m.unsupported(ins)
		}
		if neg {
			p = -p
		}
		c.set(rd, c.r(ra)+p, sf)
	default:
		m.unsupported(ins)
	}
}

func (c *cpu64) f32(i uint32) float32 { return math.Float32frombits(uint32(c.v[i][0])) }
func (c *cpu64) f64(i uint32) float64 { return math.Float64frombits(c.v[i][0]) }
func (c *cpu64) setF32(i uint32, v float32) {
	c.v[i] = [2]uint64{uint64(math.Float32bits(v)), 0}
}
func (c *cpu64) setF64(i uint32, v float64) { c.v[i] = [2]uint64{math.Float64bits(v), 0} }

func (v lanes) get(i int) float32 { return math.Float32frombits(uint32(v[i/2] >> (32 * uint(i&1)))) }
func (v *lanes) set(i int, f float32) {
	sh := 32 * uint(i&1)
	v[i/2] = v[i/2]&^(0xffffffff<<sh) | uint64(math.Float32bits(f))<<sh
}

type lanes [2]uint64

func maxmin64(a, b float64, min bool) float64 {
	switch {
	case a != a || b != b:
		return math.NaN()
	case min:
		return math.Min(a, b)
	}
	return math.Max(a, b)
}

func roundMode(v float64, mode uint32) float64 {
	switch mode {
	case 0:
		return math.RoundToEven(v)
	case 1:
		return math.Ceil(v)
	case 2:
		return math.Floor(v)
	case 4:
		return math.Round(v)
	}
	return math.Trunc(v)
}

func toInt(v float64, unsigned, sf bool) uint64 {
	switch {
	case v != v:
		return 0
	case unsigned && sf:
		if v <= 0 {
			return 0
		} else if v >= 1<<64 {
			return math.MaxUint64
		}
		return uint64(v)
	case unsigned:
		return uint64(clamp(v, 0, math.MaxUint32))
	case sf:
		if v >= 1<<63 {
			return math.MaxInt64
		} else if v < -1<<63 {
			return 1 << 63
		}
		return uint64(int64(v))
	}
	return uint64(uint32(int32(clamp(v, math.MinInt32, math.MaxInt32))))
}

func (m *Machine) simd64(ins uint32) {
	c := &m.a64
	rd, rn, rm, ra := ins&31, ins>>5&31, ins>>16&31, ins>>10&31
	if ins>>28&1 == 1 && ins>>30&1 == 0 { // scalar floating point
		double := ins>>22&3 == 1
		if ins>>22&3 > 1 {
			m.unsupported(ins)
		}
		if ins>>24&15 == 15 && ins>>29 == 0 { // FMADD and others
			neg, sub := ins>>21&1 != 0, ins>>15&1 != 0
			if double {
				a, n := c.f64(ra), c.f64(rn)
				if neg != sub { // FMSUB and FNMADD negate the product
					n = math.Float64frombits(math.Float64bits(n) ^ 1<<63)
				}
				if neg {
					a = math.Float64frombits(math.Float64bits(a) ^ 1<<63)
				}
				c.setF64(rd, math.FMA(n, c.f64(rm), a))
				return
			}
			a, n := c.f32(ra), c.f32(rn)
			if neg != sub {
				n = math.Float32frombits(math.Float32bits(n) ^ 1<<31)
			}
			if neg {
				a = math.Float32frombits(math.Float32bits(a) ^ 1<<31)
			}
			c.setF32(rd, fma32(n, c.f32(rm), a))
			return
		}
		if ins>>24&15 != 14 || ins>>29&1 != 0 {
			m.simdOther(ins)
			return
		}
		if ins>>21&1 == 0 {
			m.unsupported(ins) // fixed point
		}
		sf := ins>>31 != 0
		switch {
		case ins>>10&63 == 0: // integer conversions
			mode, op := ins>>19&3, ins>>16&7
			switch {
			case op == 2 || op == 3:
				v := c.r(rn)
				var d float64
				var s float32
				switch {
				case op == 2 && sf:
					d, s = float64(int64(v)), float32(int64(v))
				case op == 2:
					d, s = float64(int32(v)), float32(int32(v))
				case sf:
					d, s = float64(v), float32(v)
				default:
					d, s = float64(uint32(v)), float32(uint32(v))
				}
				if double {
					c.setF64(rd, d)
				} else {
					c.setF32(rd, s)
				}
			case op == 6:
				if sf {
					c.set(rd, c.v[rn][0], true)
				} else {
					c.set(rd, uint64(uint32(c.v[rn][0])), true)
				}
			case op == 7:
				v := c.r(rn)
				if !sf {
					v = uint64(uint32(v))
				}
				c.v[rd] = [2]uint64{v, 0}
			default:
				v := 0.0
				if double {
					v = c.f64(rn)
				} else {
					v = float64(c.f32(rn))
				}
				if op >= 4 {
					mode = 4
				}
				c.set(rd, toInt(roundMode(v, mode), op&1 != 0, sf), sf)
			}
		case ins>>10&31 == 16: // one source
			op := ins >> 15 & 63
			switch op {
			case 0, 1, 2:
				b := c.v[rn][0]
				sign := uint64(1) << 31
				if double {
					sign = 1 << 63
				} else {
					b = uint64(uint32(b))
				}
				if op == 1 {
					b &^= sign
				} else if op == 2 {
					b ^= sign
				}
				c.v[rd] = [2]uint64{b, 0}
			case 3:
				if double {
					c.setF64(rd, math.Sqrt(c.f64(rn)))
				} else {
					c.setF32(rd, float32(math.Sqrt(float64(c.f32(rn)))))
				}
			case 4:
				c.setF32(rd, float32(c.f64(rn)))
			case 5:
				c.setF64(rd, float64(c.f32(rn)))
			case 8, 9, 10, 11, 12, 14, 15:
				mode := op - 8
				if mode > 4 {
					mode = 0
				}
				if double {
					c.setF64(rd, roundMode(c.f64(rn), mode))
				} else {
					c.setF32(rd, float32(roundMode(float64(c.f32(rn)), mode)))
				}
			default:
				m.unsupported(ins)
			}
		case ins>>10&15 == 8: // compare
			var a, b float64
			if double {
				a, b = c.f64(rn), c.f64(rm)
			} else {
				a, b = float64(c.f32(rn)), float64(c.f32(rm))
			}
			if ins>>3&1 != 0 {
				b = 0
			}
			c.fcmp(a, b)
		case ins>>10&7 == 4: // immediate
			if double {
				c.v[rd] = [2]uint64{vfpImm(ins>>13&0xff, true), 0}
			} else {
				c.v[rd] = [2]uint64{vfpImm(ins>>13&0xff, false), 0}
			}
		case ins>>10&3 == 1: // FCCMP
			if !c.cond(ins >> 12 & 15) {
				c.n, c.z, c.c, c.o = ins>>3&1 != 0, ins>>2&1 != 0, ins>>1&1 != 0, ins&1 != 0
			} else if double {
				c.fcmp(c.f64(rn), c.f64(rm))
			} else {
				c.fcmp(float64(c.f32(rn)), float64(c.f32(rm)))
			}
		case ins>>10&3 == 3: // FCSEL
			s := rm
			if c.cond(ins >> 12 & 15) {
				s = rn
			}
			if double {
				c.v[rd] = [2]uint64{c.v[s][0], 0}
			} else {
				c.v[rd] = [2]uint64{uint64(uint32(c.v[s][0])), 0}
			}
		case ins>>10&3 == 2: // two sources
			op := ins >> 12 & 15
			if double {
				a, b := c.f64(rn), c.f64(rm)
				var r float64
				switch op {
				case 0:
					r = a * b
				case 1:
					r = a / b
				case 2:
					r = a + b
				case 3:
					r = a - b
				case 4, 5:
					r = maxmin64(a, b, op == 5)
				case 8:
					r = math.Float64frombits(math.Float64bits(a*b) ^ 1<<63)
				default:
					m.unsupported(ins)
				}
				c.setF64(rd, r)
				return
			}
			a, b := c.f32(rn), c.f32(rm)
			var r float32
			switch op {
			case 0:
				r = a * b
			case 1:
				r = a / b
			case 2:
				r = a + b
			case 3:
				r = a - b
			case 4, 5:
				r = maxmin32(a, b, op == 5)
			case 8:
				r = math.Float32frombits(math.Float32bits(a*b) ^ 1<<31)
			default:
				m.unsupported(ins)
			}
			c.setF32(rd, r)
		default:
			m.unsupported(ins)
		}
		return
	}
	m.simdOther(ins)
}

func (c *cpu64) fcmp(a, b float64) {
	switch {
	case a != a || b != b:
		c.n, c.z, c.c, c.o = false, false, true, true
	case a == b:
		c.n, c.z, c.c, c.o = false, true, true, false
	case a < b:
		c.n, c.z, c.c, c.o = true, false, false, false
	default:
		c.n, c.z, c.c, c.o = false, false, true, false
	}
}

func (m *Machine) simdOther(ins uint32) {
	c := &m.a64
	rd, rn, rm := ins&31, ins>>5&31, ins>>16&31
	full := ins>>30&1 != 0
	n, k := lanes(c.v[rn]), lanes(c.v[rm])
	count := 2
	if full {
		count = 4
	}
	var r lanes
	switch {
	case ins&0xbfe0fc00 == 0x0e000c00: // DUP (general)
		v := c.r(rn)
		switch imm := ins >> 16 & 31; {
		case imm&1 != 0:
			v = v & 0xff * 0x0101010101010101
		case imm&3 == 2:
			v = v & 0xffff * 0x0001000100010001
		case imm&7 == 4:
			v = v & 0xffffffff * 0x0000000100000001
		case imm&15 != 8:
			m.unsupported(ins)
		}
		r[0] = v
		if full {
			r[1] = v
		}
	case ins&0xbf20fc00 == 0x2e208400 || ins&0xbf20fc00 == 0x0e208400: // SUB, ADD (vector)
		sub := ins>>29&1 != 0
		w := uint(8) << (ins >> 22 & 3)
		for h := 0; h < 2 && (h == 0 || full); h++ {
			for i := uint(0); i < 64; i += w {
				mask := uint64(1)<<w - 1
				if w == 64 {
					mask = ^uint64(0)
				}
				x, y := n[h]>>i&mask, k[h]>>i&mask
				if sub {
					y = -y
				}
				r[h] |= (x + y) & mask << i
			}
		}
	case ins&0x9f80fc00 == 0x0f00a400: // SXTL, UXTL (shift by zero)
		immh := ins >> 19 & 15
		if ins>>16&7 != 0 || immh != 1 && immh != 2 && immh != 4 {
			m.unsupported(ins)
		}
		w := uint(immh * 8)
		src := n[0]
		if full {
			src = n[1]
		}
		for i := uint(0); i < 64/w; i++ {
			x := src >> (w * i) & (1<<w - 1)
			if ins>>29&1 == 0 {
				x = uint64(int64(x<<(64-w))>>(64-w)) & (1<<(2*w) - 1)
			}
			at := 2 * w * i
			r[at/64] |= x << (at % 64)
		}
	case ins&0x9ffffc00 == 0x0e21d800: // SCVTF, UCVTF of 32-bit lanes
		for i := 0; i < count; i++ {
			b := math.Float32bits(n.get(i))
			if ins>>29&1 != 0 {
				r.set(i, float32(b))
			} else {
				r.set(i, float32(int32(b)))
			}
		}
	case ins&0xbfc0f400 == 0x0f809000: // FMUL by element
		e := int(ins>>11&1<<1 | ins>>21&1)
		s := lanes(c.v[ins>>16&31]).get(e)
		for i := 0; i < count; i++ {
			r.set(i, n.get(i)*s)
		}
	case ins&0x9f60fc00 == 0x0e20f400 && ins>>29&1 == 0: // FMAX, FMIN
		for i := 0; i < count; i++ {
			r.set(i, maxmin32(n.get(i), k.get(i), ins>>23&1 != 0))
		}
	case ins&0xbf60fc00 == 0x0e20d400: // FADD, FSUB
		for i := 0; i < count; i++ {
			if ins>>23&1 != 0 {
				r.set(i, n.get(i)-k.get(i))
			} else {
				r.set(i, n.get(i)+k.get(i))
			}
		}
	case ins&0xbfe0fc00 == 0x2e20dc00: // FMUL
		for i := 0; i < count; i++ {
			r.set(i, n.get(i)*k.get(i))
		}
	case ins&0xff7ffc00 == 0x6e30f800: // FMAXV, FMINV
		v := n.get(0)
		for i := 1; i < 4; i++ {
			v = maxmin32(v, n.get(i), ins>>23&1 != 0)
		}
		r.set(0, v)
	case ins&0x9ff80c00 == 0x0f000400: // MOVI of zero and other byte masks
		cmode, imm := ins>>12&15, uint64(ins>>16&7<<5|ins>>5&31)
		switch {
		case cmode == 14 && ins>>29&1 == 1:
			for i := uint(0); i < 8; i++ {
				if imm>>i&1 != 0 {
					r[0] |= 0xff << (8 * i)
				}
			}
			if full {
				r[1] = r[0]
			}
		case imm == 0 && ins>>29&1 == 0:
		default:
			m.unsupported(ins)
		}
	case ins&0xbfe0fc00 == 0x0ea01c00: // ORR (MOV)
		r[0] = n[0] | k[0]
		if full {
			r[1] = n[1] | k[1]
		}
	default:
		m.unsupported(ins)
	}
	c.v[rd] = [2]uint64(r)
}
