package armemu

import (
	"math"
	"math/bits"
)

type cpu32 struct {
	r          [16]uint32
	d          [32]uint64
	n, z, c, v bool
	fpscr      uint32
	called     bool // the last instruction was a call
}

func (m *Machine) call32(a uint64, args []Arg, results string) []Arg {
	c := &m.a32
	*c = cpu32{}
	sp := uint32(stackTop - 4096)
	c.r[13], c.r[14], c.r[10], c.r[15] = sp, returnAddr, gBlock, uint32(a)
	p := uint64(sp) + 4
	align := func(n uint64) { p = (p - 4 - uint64(sp) + n - 1) / n * n; p += 4 + uint64(sp) }
	for _, x := range args {
		switch x.Float {
		case 0:
			m.store(p, 4, x.Int)
			p += 4
		case 4:
			m.store(p, 4, uint64(math.Float32bits(float32(x.F))))
			p += 4
		default:
			align(4)
			m.store(p, 8, math.Float64bits(x.F))
			p += 8
		}
	}
	m.run32()
	if c.r[13] != sp {
		m.fault("returns with the stack pointer off by %d", int32(c.r[13]-sp))
	}
	if c.r[10] != gBlock {
		m.fault("returns with the goroutine register changed")
	}
	if c.fpscr&(7<<16|3<<20) != 0 {
		m.fault("returns in vector mode")
	}
	if c.fpscr&0x07f79f00 != 0 {
		m.fault("returns with the floating-point mode changed (FPSCR %#x)", c.fpscr)
	}
	var res []Arg
	for _, k := range results {
		switch k {
		case 'i':
			res = append(res, Arg{Int: m.load(p, 4)})
			p += 4
		case 'f':
			res = append(res, F32(math.Float32frombits(uint32(m.load(p, 4)))))
			p += 4
		default:
			res = append(res, F64(math.Float64frombits(m.load(p, 8))))
			p += 8
		}
	}
	return res
}

func (c *cpu32) cond(k uint32) bool {
	var r bool
	switch k >> 1 {
	case 0:
		r = c.z
	case 1:
		r = c.c
	case 2:
		r = c.n
	case 3:
		r = c.v
	case 4:
		r = c.c && !c.z
	case 5:
		r = c.n == c.v
	case 6:
		r = c.n == c.v && !c.z
	default:
		return true
	}
	return r != (k&1 != 0)
}

func (c *cpu32) s(i uint32) uint32 { return uint32(c.d[i>>1] >> (32 * (i & 1))) }
func (c *cpu32) setS(i, v uint32) {
	sh := 32 * (i & 1)
	c.d[i>>1] = c.d[i>>1]&^(0xffffffff<<sh) | uint64(v)<<sh
}
func (c *cpu32) f(i uint32) float32       { return math.Float32frombits(c.s(i)) }
func (c *cpu32) setF(i uint32, v float32) { c.setS(i, math.Float32bits(v)) }
func (c *cpu32) g(i uint32) float64       { return math.Float64frombits(c.d[i]) }

// reg reads a register as an operand (the program counter reads as the instruction's address plus 8).
func (c *cpu32) reg(i uint32) uint32 {
	if i == 15 {
		return c.r[15] + 8
	}
	return c.r[i]
}

func (c *cpu32) shift(v, kind, n uint32, imm bool) (uint32, bool) {
	cf := c.c
	if imm && n == 0 {
		switch kind {
		case 0:
			return v, cf
		case 3: // RRX
			r := v >> 1
			if cf {
				r |= 1 << 31
			}
			return r, v&1 != 0
		}
		n = 32
	}
	if n == 0 {
		return v, cf
	}
	switch kind {
	case 0:
		if n > 32 {
			return 0, false
		}
		cf = v>>(32-n)&1 != 0
		return uint32(uint64(v) << n), cf
	case 1:
		if n > 32 {
			return 0, false
		}
		return uint32(uint64(v) >> n), uint64(v)>>(n-1)&1 != 0
	case 2:
		if n > 32 {
			n = 32
		}
		return uint32(int64(int32(v)) >> n), int64(int32(v))>>(n-1)&1 != 0
	}
	r := bits.RotateLeft32(v, -int(n&31))
	return r, r>>31 != 0
}

func (c *cpu32) add(a, b uint32, ci bool, set bool) uint32 {
	k := uint64(0)
	if ci {
		k = 1
	}
	u := uint64(a) + uint64(b) + k
	s := int64(int32(a)) + int64(int32(b)) + int64(k)
	r := uint32(u)
	if set {
		c.n, c.z, c.c, c.v = r>>31 != 0, r == 0, u>>32 != 0, s != int64(int32(r))
	}
	return r
}

func (m *Machine) run32() {
	c := &m.a32
	for m.enter(uint64(c.r[15])) {
		pc := c.r[15]
		if m.im.fresh[uint64(pc)] && c.called {
			for i := range c.r[:13] {
				if i != 10 {
					c.r[i] = 0x9b3f5ca7 + uint32(i)*0x10204081
				}
			}
			for i := range c.d {
				c.d[i] = 0x41f3a5c7c2b6d9e1 + uint64(i)*0x0010040100200501
			}
			c.n, c.z, c.c, c.v = true, false, true, true
		}
		c.called = false
		ins := m.fetch(uint64(pc))
		k := ins >> 28
		if k == 15 {
			m.uncond32(ins)
		} else if c.cond(k) {
			m.exec32(ins)
		}
		if c.r[15] == pc {
			c.r[15] = pc + 4
			m.sequential(uint64(pc) + 4)
		} else {
			c.r[15] &^= 1 // set by the instruction (a branch to itself would be caught by the step limit only)
		}
	}
}

func (c *cpu32) branch(a uint32) { c.r[15] = a }

func (m *Machine) exec32(ins uint32) {
	c := &m.a32
	rn, rd, rm, rs := ins>>16&15, ins>>12&15, ins&15, ins>>8&15
	switch ins >> 25 & 7 {
	case 0:
		if ins&0x90 == 0x90 {
			if ins>>5&3 == 0 {
				m.mul32(ins)
			} else {
				m.halfword32(ins)
			}
			return
		}
		if ins>>23&3 == 2 && ins>>20&1 == 0 {
			switch {
			case ins&0x0ffffff0 == 0x012fff10:
				c.branch(c.reg(rm))
			case ins&0x0ffffff0 == 0x012fff30:
				t := c.reg(rm)
				c.r[14] = c.r[15] + 4
				c.called = true
				c.branch(t)
			case ins&0x0fff0ff0 == 0x016f0f10:
				c.r[rd] = uint32(bits.LeadingZeros32(c.reg(rm)))
			case ins&0x0ff00090 == 0x01600080: // SMULxy
				h := func(v uint32, top uint32) int32 {
					if top != 0 {
						return int32(v) >> 16
					}
					return int32(int16(v))
				}
				c.r[rn] = uint32(h(c.r[rm], ins>>5&1) * h(c.r[rs], ins>>6&1))
			default:
				m.unsupported(ins)
			}
			return
		}
		var op uint32
		var cf bool
		if ins&0x10 != 0 {
			op, cf = c.shift(c.reg(rm), ins>>5&3, c.r[rs]&0xff, false)
		} else {
			op, cf = c.shift(c.reg(rm), ins>>5&3, ins>>7&31, true)
		}
		m.data32(ins, op, cf)
	case 1:
		switch ins >> 20 & 0xff {
		case 0x30:
			c.r[rd] = rn<<12 | ins&0xfff
			return
		case 0x34:
			c.r[rd] = c.r[rd]&0xffff | (rn<<12|ins&0xfff)<<16
			return
		case 0x32:
			if ins&0xfffff == 0xf000 { // NOP
				return
			}
			m.unsupported(ins)
		}
		rot := int(ins >> 8 & 15 * 2)
		op := bits.RotateLeft32(ins&0xff, -rot)
		cf := c.c
		if rot != 0 {
			cf = op>>31 != 0
		}
		m.data32(ins, op, cf)
	case 2, 3:
		var off uint32
		if ins>>25&1 == 0 {
			off = ins & 0xfff
		} else {
			if ins&0x10 != 0 {
				m.media32(ins)
				return
			}
			off, _ = c.shift(c.reg(rm), ins>>5&3, ins>>7&31, true)
		}
		if ins>>23&1 == 0 {
			off = -off
		}
		base := c.reg(rn)
		a := base
		if ins>>24&1 != 0 {
			a += off
		}
		n := 4
		if ins>>22&1 != 0 {
			n = 1
		}
		if ins>>20&1 != 0 {
			v := uint32(m.load(uint64(a), n))
			if ins>>24&1 == 0 || ins>>21&1 != 0 {
				c.r[rn] = base + off
			}
			if rd == 15 {
				c.branch(v)
			} else {
				c.r[rd] = v
			}
			return
		}
		m.store(uint64(a), n, uint64(c.reg(rd)))
		if ins>>24&1 == 0 || ins>>21&1 != 0 {
			c.r[rn] = base + off
		}
	case 4:
		list := ins & 0xffff
		n := uint32(bits.OnesCount32(list)) * 4
		base := c.r[rn]
		a := base
		if ins>>23&1 == 0 {
			a -= n
		}
		end := base + n
		if ins>>23&1 == 0 {
			end = base - n
		}
		if ins>>24&1 == ins>>23&1 { // IB or DA
			a += 4
		}
		if ins>>22&1 != 0 {
			m.unsupported(ins)
		}
		if base&3 != 0 {
			m.fault("transfers registers to or from %#x, which is not word-aligned", base)
		}
		ld := ins>>20&1 != 0
		to := uint32(0)
		for i := uint32(0); i < 16; i++ {
			if list>>i&1 == 0 {
				continue
			}
			if ld {
				v := uint32(m.load(uint64(a), 4))
				if i == 15 {
					to = v
				} else {
					c.r[i] = v
				}
			} else {
				m.store(uint64(a), 4, uint64(c.reg(i)))
			}
			a += 4
		}
		if ins>>21&1 != 0 {
			c.r[rn] = end
		}
		if ld && list>>15 != 0 {
			c.branch(to)
		}
	case 5:
		t := c.r[15] + 8 + uint32(int32(ins<<8)>>6)
		if ins>>24&1 != 0 {
			c.r[14] = c.r[15] + 4
			c.called = true
		}
		if t == c.r[15] {
			m.fault("branches to itself")
		}
		c.branch(t)
	default:
		if ins>>8&15 != 10 && ins>>8&15 != 11 || ins>>24&15 == 15 {
			m.unsupported(ins)
		}
		m.vfp32(ins)
	}
}

func (m *Machine) data32(ins, op uint32, cf bool) {
	c := &m.a32
	rn, rd := ins>>16&15, ins>>12&15
	set := ins>>20&1 != 0
	a := c.reg(rn)
	var r uint32
	write := true
	logic := true
	k := ins >> 21 & 15
	switch k {
	case 0, 8:
		r = a & op
	case 1, 9:
		r = a ^ op
	case 2, 10:
		r, logic = c.add(a, ^op, true, set), false
	case 3:
		r, logic = c.add(^a, op, true, set), false
	case 4, 11:
		r, logic = c.add(a, op, false, set), false
	case 5:
		r, logic = c.add(a, op, c.c, set), false
	case 6:
		r, logic = c.add(a, ^op, c.c, set), false
	case 7:
		r, logic = c.add(^a, op, c.c, set), false
	case 12:
		r = a | op
	case 13:
		r = op
	case 14:
		r = a &^ op
	case 15:
		r = ^op
	}
	if k >= 8 && k <= 11 {
		write = false
	}
	if logic && set {
		c.n, c.z, c.c = r>>31 != 0, r == 0, cf
	}
	if write {
		if rd == 15 {
			c.branch(r)
		} else {
			c.r[rd] = r
		}
	}
}

func (m *Machine) mul32(ins uint32) {
	c := &m.a32
	rd, ra, rs, rm := ins>>16&15, ins>>12&15, ins>>8&15, ins&15
	flags := func(r uint32) {
		if ins>>20&1 != 0 {
			c.n, c.z = r>>31 != 0, r == 0
		}
	}
	switch ins >> 21 & 0x7f {
	case 0:
		c.r[rd] = c.r[rm] * c.r[rs]
		flags(c.r[rd])
	case 1:
		c.r[rd] = c.r[rm]*c.r[rs] + c.r[ra]
		flags(c.r[rd])
	case 3:
		c.r[rd] = c.r[ra] - c.r[rm]*c.r[rs]
	case 4, 5, 6, 7:
		var v uint64
		if ins>>22&1 != 0 {
			v = uint64(int64(int32(c.r[rm])) * int64(int32(c.r[rs])))
		} else {
			v = uint64(c.r[rm]) * uint64(c.r[rs])
		}
		if ins>>21&1 != 0 {
			v += uint64(c.r[rd])<<32 | uint64(c.r[ra])
		}
		c.r[rd], c.r[ra] = uint32(v>>32), uint32(v)
	default:
		m.unsupported(ins)
	}
}

func (m *Machine) halfword32(ins uint32) {
	c := &m.a32
	rn, rd := ins>>16&15, ins>>12&15
	var off uint32
	if ins>>22&1 != 0 {
		off = ins>>4&0xf0 | ins&15
	} else {
		off = c.r[ins&15]
	}
	if ins>>23&1 == 0 {
		off = -off
	}
	base := c.reg(rn)
	a := uint64(base)
	if ins>>24&1 != 0 {
		a = uint64(base + off)
	}
	switch k := ins >> 5 & 3; {
	case ins>>20&1 != 0 && k == 1:
		c.r[rd] = uint32(m.load(a, 2))
	case ins>>20&1 != 0 && k == 2:
		c.r[rd] = uint32(int32(int8(m.load(a, 1))))
	case ins>>20&1 != 0 && k == 3:
		c.r[rd] = uint32(int32(int16(m.load(a, 2))))
	case k == 1:
		m.store(a, 2, uint64(c.r[rd]))
	case k == 2:
		c.r[rd], c.r[rd+1] = uint32(m.load(a, 4)), uint32(m.load(a+4, 4))
	default:
		m.store(a, 4, uint64(c.r[rd]))
		m.store(a+4, 4, uint64(c.r[rd+1]))
	}
	if ins>>24&1 == 0 || ins>>21&1 != 0 {
		c.r[rn] = base + off
	}
}

func (m *Machine) media32(ins uint32) {
	c := &m.a32
	rn, rd, rm := ins>>16&15, ins>>12&15, ins&15
	rot := bits.RotateLeft32(c.r[rm], -int(ins>>10&3*8))
	acc := uint32(0)
	if rn != 15 {
		acc = c.r[rn]
	}
	lsb := ins >> 7 & 31
	width := ins>>16&31 + 1
	switch {
	case ins&0x0ff003f0 == 0x06a00070:
		c.r[rd] = acc + uint32(int32(int8(rot)))
	case ins&0x0ff003f0 == 0x06b00070:
		c.r[rd] = acc + uint32(int32(int16(rot)))
	case ins&0x0ff003f0 == 0x06e00070:
		c.r[rd] = acc + rot&0xff
	case ins&0x0ff003f0 == 0x06f00070:
		c.r[rd] = acc + rot&0xffff
	case ins&0x0ff00ff0 == 0x06500ff0: // USUB8
		r := uint32(0)
		for i := 0; i < 32; i += 8 {
			r |= (c.r[rn]>>i - c.r[rm]>>i) & 0xff << i
		}
		c.r[rd] = r
	case ins&0x0fff0ff0 == 0x06bf0f30:
		c.r[rd] = bits.ReverseBytes32(c.r[rm])
	case ins&0x0fff0ff0 == 0x06bf0fb0: // REV16
		v := c.r[rm]
		c.r[rd] = v>>8&0x00ff00ff | v<<8&0xff00ff00
	case ins&0x0fff0ff0 == 0x06ff0f30:
		c.r[rd] = bits.Reverse32(c.r[rm])
	case ins&0x0fe00070 == 0x07a00050: // SBFX
		c.r[rd] = uint32(int32(c.r[rm]<<(32-lsb-width)) >> (32 - width))
	case ins&0x0fe00070 == 0x07e00050: // UBFX
		c.r[rd] = c.r[rm] << (32 - lsb - width) >> (32 - width)
	case ins&0x0fe00070 == 0x07c00010: // BFI, BFC
		msb := ins >> 16 & 31
		mask := uint32(1<<(msb-lsb+1)-1) << lsb
		v := uint32(0)
		if rm != 15 {
			v = c.r[rm] << lsb
		}
		c.r[rd] = c.r[rd]&^mask | v&mask
	case ins&0x0ff0f0f0 == 0x0710f010: // SDIV
		r := uint32(0)
		if d := int32(c.r[ins>>8&15]); d != 0 {
			r = uint32(int64(int32(c.r[rm])) / int64(d))
		}
		c.r[rn] = r
	case ins&0x0ff0f0f0 == 0x0730f010: // UDIV
		r := uint32(0)
		if d := c.r[ins>>8&15]; d != 0 {
			r = c.r[rm] / d
		}
		c.r[rn] = r
	default:
		m.unsupported(ins)
	}
}

func vfpImm(i uint32, double bool) uint64 {
	sign, b := uint64(i>>7&1), uint64(i>>6&1)
	if double {
		e := (1-b)<<10 | b*0xff<<2 | uint64(i>>4&3)
		return sign<<63 | e<<52 | uint64(i&15)<<48
	}
	e := (1-b)<<7 | b*0x1f<<2 | uint64(i>>4&3)
	return sign<<31 | e<<23 | uint64(i&15)<<19
}

// vfp32 executes a floating-point instruction.
func (m *Machine) vfp32(ins uint32) {
	c := &m.a32
	double := ins>>8&1 != 0
	rn, rt := ins>>16&15, ins>>12&15
	sd, sn, sm := ins>>12&15<<1|ins>>22&1, ins>>16&15<<1|ins>>7&1, ins&15<<1|ins>>5&1
	dd, dn, dm := ins>>12&15|ins>>22&1<<4, ins>>16&15|ins>>7&1<<4, ins&15|ins>>5&1<<4
	if ins>>24&15 != 14 {
		if ins>>21&0x7f == 0x62 { // two core registers
			if double {
				if ins>>20&1 != 0 {
					c.r[rt], c.r[rn] = uint32(c.d[dm]), uint32(c.d[dm]>>32)
				} else {
					c.d[dm] = uint64(c.r[rt]) | uint64(c.r[rn])<<32
				}
			} else if ins>>20&1 != 0 {
				c.r[rt], c.r[rn] = c.s(sm), c.s(sm+1)
			} else {
				c.setS(sm, c.r[rt])
				c.setS(sm+1, c.r[rn])
			}
			return
		}
		imm := ins & 0xff << 2
		base := c.reg(rn)
		p, u, w, l := ins>>24&1, ins>>23&1, ins>>21&1, ins>>20&1
		if base&3 != 0 {
			m.fault("transfers floating-point registers to or from %#x, which is not word-aligned", base)
		}
		if p == 1 && w == 0 { // VLDR, VSTR
			a := uint64(base + imm)
			if u == 0 {
				a = uint64(base - imm)
			}
			if double {
				if l != 0 {
					c.d[dd] = m.load(a, 8)
				} else {
					m.store(a, 8, c.d[dd])
				}
			} else if l != 0 {
				c.setS(sd, uint32(m.load(a, 4)))
			} else {
				m.store(a, 4, uint64(c.s(sd)))
			}
			return
		}
		a := base
		if u == 0 {
			a -= imm
		}
		for i := uint32(0); i < ins&0xff; i++ {
			if double {
				if i&1 == 0 {
					if dd+i/2 > 31 {
						m.unsupported(ins)
					}
					if l != 0 {
						c.d[dd+i/2] = m.load(uint64(a+i*4), 8)
					} else {
						m.store(uint64(a+i*4), 8, c.d[dd+i/2])
					}
				}
				continue
			}
			if sd+i > 31 {
				m.unsupported(ins)
			}
			if l != 0 {
				c.setS(sd+i, uint32(m.load(uint64(a+i*4), 4)))
			} else {
				m.store(uint64(a+i*4), 4, uint64(c.s(sd+i)))
			}
		}
		if w != 0 {
			if u == 0 {
				c.r[rn] = base - imm
			} else {
				c.r[rn] = base + imm
			}
		}
		return
	}
	if ins>>4&1 != 0 { // transfers
		l := ins>>20&1 != 0
		switch {
		case !double && ins>>21&7 == 0:
			if l {
				c.r[rt] = c.s(sn)
			} else {
				c.setS(sn, c.r[rt])
			}
		case !double && ins>>21&7 == 7 && rn == 1:
			switch {
			case !l:
				c.fpscr = c.r[rt]
			case rt == 15:
				c.n, c.z, c.c, c.v = c.fpscr>>31 != 0, c.fpscr>>30&1 != 0, c.fpscr>>29&1 != 0, c.fpscr>>28&1 != 0
			default:
				c.r[rt] = c.fpscr
			}
		case double && ins>>23&1 != 0 && !l && ins&0xf == 0 && ins>>6&1 == 0: // VDUP
			v := uint64(c.r[rt])
			switch ins>>22&1<<1 | ins>>5&1 {
			case 0:
				v |= v << 32
			case 1:
				v &= 0xffff
				v |= v << 16
				v |= v << 32
			case 2:
				v &= 0xff
				v |= v << 8
				v |= v << 16
				v |= v << 32
			}
			c.d[dn] = v
			if ins>>21&1 != 0 {
				c.d[dn+1] = v
			}
		case double && ins>>22&3 == 0 && ins>>5&3 == 0 && ins>>23&1 == 0: // VMOV D[x]
			h := ins >> 21 & 1
			if l {
				c.r[rt] = uint32(c.d[dn] >> (32 * h))
			} else {
				c.d[dn] = c.d[dn]&^(0xffffffff<<(32*h)) | uint64(c.r[rt])<<(32*h)
			}
		default:
			m.unsupported(ins)
		}
		return
	}
	// arithmetic
	op := ins>>23&1<<2 | ins>>20&3
	alt := ins>>6&1 != 0
	if op != 7 {
		if double {
			if c.fpscr>>16&7 != 0 {
				m.unsupported(ins)
			}
			c.d[dd] = math.Float64bits(arith64(op, alt, c.g(dd), c.g(dn), c.g(dm)))
			return
		}
		m.vector32(ins, sd, sn, sm, func(d, n, k float32) float32 { return arith32(op, alt, d, n, k) })
		return
	}
	x := rn
	if !alt { // VMOV immediate
		i := rn<<4 | ins&15
		if double {
			c.d[dd] = vfpImm(i, true)
		} else if c.fpscr>>16&7 != 0 && sd >= 8 {
			m.unsupported(ins)
		} else {
			c.setS(sd, uint32(vfpImm(i, false)))
		}
		return
	}
	hi := ins>>7&1 != 0
	switch {
	case x == 0 || x == 1:
		if !double {
			var f func(v float32) float32
			switch {
			case x == 0 && !hi:
				f = func(v float32) float32 { return v }
			case x == 0:
				f = func(v float32) float32 { return math.Float32frombits(math.Float32bits(v) &^ (1 << 31)) }
			case !hi:
				f = func(v float32) float32 { return math.Float32frombits(math.Float32bits(v) ^ 1<<31) }
			default:
				f = func(v float32) float32 { return float32(math.Sqrt(float64(v))) }
			}
			m.vector32(ins, sd, sd, sm, func(_, _, k float32) float32 { return f(k) })
			return
		}
		switch {
		case x == 0 && !hi:
			c.d[dd] = c.d[dm]
		case x == 0:
			c.d[dd] = c.d[dm] &^ (1 << 63)
		case !hi:
			c.d[dd] = c.d[dm] ^ 1<<63
		default:
			c.d[dd] = math.Float64bits(math.Sqrt(c.g(dm)))
		}
	case x == 4 || x == 5:
		var a, b float64
		if double {
			a = c.g(dd)
			if x == 4 {
				b = c.g(dm)
			}
		} else {
			a = float64(c.f(sd))
			if x == 4 {
				b = float64(c.f(sm))
			}
		}
		f := uint32(0)
		switch {
		case a != a || b != b:
			f = 3
		case a == b:
			f = 6
		case a < b:
			f = 8
		default:
			f = 2
		}
		c.fpscr = c.fpscr&^(15<<28) | f<<28
	case x == 7 && hi:
		if double {
			c.setF(sd, float32(c.g(dm)))
		} else {
			c.d[dd] = math.Float64bits(float64(c.f(sm)))
		}
	case x == 8:
		v := float64(c.s(sm))
		if hi {
			v = float64(int32(c.s(sm)))
		}
		if double {
			c.d[dd] = math.Float64bits(v)
		} else if hi {
			c.setF(sd, float32(int32(c.s(sm))))
		} else {
			c.setF(sd, float32(c.s(sm)))
		}
	case x == 12 || x == 13:
		v := 0.0
		if double {
			v = c.g(dm)
		} else {
			v = float64(c.f(sm))
		}
		if hi {
			v = math.Trunc(v)
		} else {
			v = math.RoundToEven(v)
		}
		if x == 12 {
			c.setS(sd, uint32(clamp(v, 0, math.MaxUint32)))
		} else {
			c.setS(sd, uint32(int32(clamp(v, math.MinInt32, math.MaxInt32))))
		}
	default:
		m.unsupported(ins)
	}
}

func clamp(v, lo, hi float64) float64 {
	switch {
	case v != v:
		return 0
	case v < lo:
		return lo
	case v > hi:
		return hi
	}
	return v
}

func fma32(a, b, c float32) float32 { // exact product, sum rounded once (to odd in double, then to single)
	p := float64(a) * float64(b)
	s := p + float64(c)
	if s != s || math.IsInf(s, 0) {
		return float32(s)
	}
	bb := s - p
	e := (p - (s - bb)) + (float64(c) - bb)
	if e != 0 {
		u := math.Float64bits(s)
		if u&1 == 0 {
			if (e > 0) == (s > 0) {
				u++
			} else {
				u--
			}
			s = math.Float64frombits(u)
		}
	}
	return float32(s)
}

func arith32(op uint32, alt bool, d, n, k float32) float32 {
	neg := func(v float32) float32 { return math.Float32frombits(math.Float32bits(v) ^ 1<<31) }
	p := float32(n * k)
	switch op {
	case 0:
		if alt {
			p = neg(p)
		}
		return d + p
	case 1:
		if alt {
			p = neg(p)
		}
		return neg(d) + p
	case 2:
		if alt {
			return neg(p)
		}
		return p
	case 3:
		if alt {
			return n - k
		}
		return n + k
	case 4:
		return n / k
	case 5:
		if alt {
			return fma32(neg(n), k, neg(d))
		}
		return fma32(n, k, neg(d))
	}
	if alt {
		n = neg(n)
	}
	return fma32(n, k, d)
}

func arith64(op uint32, alt bool, d, n, k float64) float64 {
	neg := func(v float64) float64 { return math.Float64frombits(math.Float64bits(v) ^ 1<<63) }
	p := float64(n * k)
	switch op {
	case 0:
		if alt {
			p = neg(p)
		}
		return d + p
	case 1:
		if alt {
			p = neg(p)
		}
		return neg(d) + p
	case 2:
		if alt {
			return neg(p)
		}
		return p
	case 3:
		if alt {
			return n - k
		}
		return n + k
	case 4:
		return n / k
	case 5:
		if alt {
			return math.FMA(neg(n), k, neg(d))
		}
		return math.FMA(n, k, neg(d))
	}
	if alt {
		n = neg(n)
	}
	return math.FMA(n, k, d)
}

// vector32 applies a single-precision operation under the vector length and stride in force.
func (m *Machine) vector32(ins, sd, sn, sm uint32, f func(d, n, k float32) float32) {
	c := &m.a32
	count := c.fpscr>>16&7 + 1
	stride := uint32(1)
	switch c.fpscr >> 20 & 3 {
	case 3:
		stride = 2
	case 1, 2:
		m.fault("uses a reserved vector stride (FPSCR %#x)", c.fpscr)
	}
	if count == 1 || sd < 8 {
		c.setF(sd, f(c.f(sd), c.f(sn), c.f(sm)))
		return
	}
	if count*stride > 8 {
		m.fault("uses a vector of %d registers with stride %d", count, stride)
	}
	step := func(r uint32) uint32 { return r&^7 | (r+stride)&7 }
	for i := uint32(0); i < count; i++ {
		c.setF(sd, f(c.f(sd), c.f(sn), c.f(sm)))
		sd, sn = step(sd), step(sn)
		if sm >= 8 {
			sm = step(sm)
		}
	}
}

func ftz(v float32) float32 {
	if b := math.Float32bits(v); b&0x7f800000 == 0 {
		return math.Float32frombits(b & (1 << 31))
	}
	return v
}

func maxmin32(a, b float32, min bool) float32 {
	switch {
	case a != a || b != b:
		return float32(math.NaN())
	case a == 0 && b == 0:
		if math.Signbit(float64(a)) == min {
			return a
		}
		return b
	case (a < b) == min:
		return a
	}
	return b
}

// uncond32 executes the instructions without a condition: NEON, preloads.
func (m *Machine) uncond32(ins uint32) {
	c := &m.a32
	if c.fpscr&(7<<16|3<<20) != 0 && ins>>25&7 == 1 {
		m.fault("uses NEON in vector mode")
	}
	dd, dn, dm := ins>>12&15|ins>>22&1<<4, ins>>16&15|ins>>7&1<<4, ins&15|ins>>5&1<<4
	q := ins>>6&1 != 0
	f := func(r uint32) (float32, float32) {
		return math.Float32frombits(uint32(c.d[r])), math.Float32frombits(uint32(c.d[r] >> 32))
	}
	pair := func(a, b float32) uint64 { return uint64(math.Float32bits(a)) | uint64(math.Float32bits(b))<<32 }
	three := func(g func(a, b float32) float32) {
		for i := uint32(0); i == 0 || q && i == 1; i++ {
			a0, a1 := f(dn + i)
			b0, b1 := f(dm + i)
			c.d[dd+i] = pair(ftz(g(ftz(a0), ftz(b0))), ftz(g(ftz(a1), ftz(b1))))
		}
	}
	odd := func(regs ...uint32) { // a quadword register is a pair of registers
		for _, r := range regs {
			if r&1 != 0 {
				m.undefined(ins)
			}
		}
	}
	if q && ins>>25 == 0x79 && ins>>23&1 == 0 {
		odd(dd, dn, dm)
	}
	switch {
	case ins&0xfd70f000 == 0xf550f000 || ins&0xfd70f010 == 0xf750f000: // PLD
	case ins&0xffffff0f == 0xf57ff00f&0xffffff0f: // barriers
	case ins&0xff900f10 == 0xf2000f00 && ins>>20&1 == 0: // VMAX, VMIN
		min := ins>>21&1 != 0
		three(func(a, b float32) float32 { return maxmin32(a, b, min) })
	case ins&0xff900f50 == 0xf3000f00 && ins>>20&1 == 0: // VPMAX, VPMIN
		min := ins>>21&1 != 0
		a0, a1 := f(dn)
		b0, b1 := f(dm)
		c.d[dd] = pair(maxmin32(ftz(a0), ftz(a1), min), maxmin32(ftz(b0), ftz(b1), min))
	case ins&0xffb00f10 == 0xf2000d00: // VADD.F32
		three(func(a, b float32) float32 { return a + b })
	case ins&0xffb00f10 == 0xf2200d00: // VSUB.F32
		three(func(a, b float32) float32 { return a - b })
	case ins&0xffb00f10 == 0xf3000d10: // VMUL.F32
		three(func(a, b float32) float32 { return a * b })
	case ins&0xfeb00f50 == 0xf2a00940: // VMUL by scalar
		q := ins>>24&1 != 0
		s := c.d[ins&15] >> (32 * (ins >> 5 & 1))
		k := ftz(math.Float32frombits(uint32(s)))
		for i := uint32(0); i == 0 || q && i == 1; i++ {
			a0, a1 := f(dn + i)
			c.d[dd+i] = pair(ftz(ftz(a0)*k), ftz(ftz(a1)*k))
		}
	case ins&0xfeb00d50 == 0xf2800000: // VADDL, VSUBL of bytes
		odd(dd)
		u := ins>>24&1 != 0
		sub := ins>>9&1 != 0
		a, b := c.d[dn], c.d[dm]
		for h := uint32(0); h < 2; h++ {
			r := uint64(0)
			for i := uint(0); i < 4; i++ {
				x, y := int32(int8(a>>(8*i+32*uint(h)))), int32(int8(b>>(8*i+32*uint(h))))
				if u {
					x, y = x&0xff, y&0xff
				}
				if sub {
					y = -y
				}
				r |= uint64(uint16(x+y)) << (16 * i)
			}
			c.d[dd+h] = r
		}
	case ins&0xfeb80fd0 == 0xf2880a10 || ins&0xfeb80fd0 == 0xf2900a10 || ins&0xfeb80fd0 == 0xf2a00a10: // VMOVL
		if ins>>16&7 != 0 {
			m.unsupported(ins)
		}
		odd(dd)
		w := uint(ins >> 19 & 7 * 8) // source width
		u := ins>>24&1 != 0
		src := c.d[dm]
		for h := uint32(0); h < 2; h++ {
			r := uint64(0)
			for i := uint(0); i < 32/w; i++ {
				x := src >> (w*i + 32*uint(h)) & (1<<w - 1)
				if !u {
					x = uint64(int64(x<<(64-w))>>(64-w)) & (1<<(2*w) - 1)
				}
				r |= x << (2 * w * i)
			}
			c.d[dd+h] = r
		}
	case ins&0xffbf0f90 == 0xf3bb0600 && ins>>6&1 != 0 && (dd|dm)&1 != 0:
		m.undefined(ins)
	case ins&0xffbf0f10 == 0xf3bb0600: // VCVT.F32.S32/U32
		for i := uint32(0); i == 0 || q && i == 1; i++ {
			lo, hi := uint32(c.d[dm+i]), uint32(c.d[dm+i]>>32)
			if ins>>7&1 != 0 {
				c.d[dd+i] = pair(float32(lo), float32(hi))
			} else {
				c.d[dd+i] = pair(float32(int32(lo)), float32(int32(hi)))
			}
		}
	case ins&0xff900000 == 0xf4000000: // VLD1, VST1 multiple
		n := uint32(0)
		switch ins >> 8 & 15 {
		case 7:
			n = 1
		case 10:
			n = 2
		case 6:
			n = 3
		case 2:
			n = 4
		default:
			m.unsupported(ins)
		}
		rn, rm := ins>>16&15, ins&15
		a := uint64(c.r[rn])
		if al := ins >> 4 & 3; al != 0 && a&(4<<al-1) != 0 {
			m.fault("accesses %#x, which is not aligned as the instruction requires", a)
		}
		if dd+n > 32 {
			m.unsupported(ins)
		}
		for i := uint32(0); i < n; i++ {
			if ins>>21&1 != 0 {
				c.d[dd+i] = m.load(a+uint64(8*i), 8)
			} else {
				m.store(a+uint64(8*i), 8, c.d[dd+i])
			}
		}
		switch rm {
		case 15:
		case 13:
			c.r[rn] += 8 * n
		default:
			c.r[rn] += c.r[rm]
		}
	default:
		m.unsupported(ins)
	}
}

func b32(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}
