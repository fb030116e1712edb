// Package armemu executes functions of a Go program linked for ARM or ARM64, one call at a time, in
// a memory in which only the ranges handed to it are accessible.
package armemu

import (
	"debug/elf"
	"fmt"
	"sort"
	"strings"
)

// Fault ends a call.
type Fault struct {
	Msg         string
	Panic       bool // the program panics
	Unsupported bool // the emulator does not know the instruction: nothing can be said about the call
}

func (f *Fault) Error() string { return f.Msg }

type region struct {
	base  uint64
	data  []byte
	write bool
}

type Image struct {
	Arm64   bool
	regions []*region
	syms    map[string]uint64
	funcs   []sym
	starts  map[uint64]bool // where functions begin
	fresh   map[uint64]bool // functions that can rely on nothing but their arguments
}

type sym struct {
	at, end uint64
	name    string
}

// Package is the prefix of the functions under test.
const Package = "github.com/samuel/go-dsp/dsp."

// Load reads a statically linked executable.
func Load(path string) (*Image, error) {
	f, err := elf.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	im := &Image{Arm64: f.Machine == elf.EM_AARCH64, syms: map[string]uint64{}, starts: map[uint64]bool{}, fresh: map[uint64]bool{}}
	if !im.Arm64 && f.Machine != elf.EM_ARM {
		return nil, fmt.Errorf("machine %v", f.Machine)
	}
	for _, p := range f.Progs {
		if p.Type != elf.PT_LOAD {
			continue
		}
		b := make([]byte, p.Memsz)
		if _, err := p.ReadAt(b[:p.Filesz], 0); err != nil {
			return nil, err
		}
		im.regions = append(im.regions, &region{p.Vaddr, b, p.Flags&elf.PF_W != 0})
	}
	ss, err := f.Symbols()
	if err != nil {
		return nil, err
	}
	for _, s := range ss {
		im.syms[s.Name] = s.Value
		if elf.ST_TYPE(s.Info) == elf.STT_FUNC {
			im.funcs = append(im.funcs, sym{s.Value, s.Value + s.Size, s.Name})
			im.starts[s.Value] = true
			// arguments are on the stack: all functions of ARM, those of assembly code on ARM64
			if strings.HasPrefix(s.Name, Package) && (!im.Arm64 || strings.HasSuffix(s.Name, ".abi0")) {
				im.fresh[s.Value] = true
			}
		}
	}
	sort.Slice(im.funcs, func(i, j int) bool { return im.funcs[i].at < im.funcs[j].at })
	return im, nil
}

// Has reports whether the program has the symbol.
func (im *Image) Has(name string) bool { _, ok := im.syms[name]; return ok }

func (im *Image) where(pc uint64) string {
	i := sort.Search(len(im.funcs), func(i int) bool { return im.funcs[i].at > pc })
	if i > 0 && pc < im.funcs[i-1].end {
		return fmt.Sprintf("%s+%#x", im.funcs[i-1].name, pc-im.funcs[i-1].at)
	}
	return fmt.Sprintf("%#x", pc)
}

const (
	stackTop   = 0x60000000
	stackSize  = 1 << 16
	gBlock     = 0x61000000
	bufBase    = 0x62000000
	returnAddr = 0x7ffffff0
)

// Machine is one execution context: private copies of the writable data, a stack and the buffers of a case.
type Machine struct {
	im     *Image
	text   *region
	fixed  []*region
	bufs   []*region
	last   *region
	next   uint64
	guards map[uint64]string // entry points that end the call
	Steps  int
	Limit  int

	a32 cpu32
	a64 cpu64
}

func (im *Image) New() *Machine {
	m := &Machine{im: im, Limit: 50 << 20, guards: map[uint64]string{}}
	for _, r := range im.regions {
		c := &region{r.base, r.data, r.write}
		if r.write {
			c.data = append([]byte(nil), r.data...)
		}
		m.fixed = append(m.fixed, c)
	}
	m.fixed = append(m.fixed, &region{stackTop - stackSize, make([]byte, stackSize), true}, &region{gBlock, make([]byte, 1024), true})
	for n, a := range im.syms {
		for _, p := range []string{"runtime.panic", "runtime.gopanic", "runtime.goPanic", "runtime.morestack", "runtime.throw", "runtime.fatal",
			"runtime.sigpanic", "runtime.newobject", "runtime.mallocgc", "runtime.growslice", "runtime.makeslice", "runtime.gcWriteBarrier", "runtime.convT"} {
			if strings.HasPrefix(n, p) {
				m.guards[a] = n
			}
		}
	}
	for i := range m.fixed[len(m.fixed)-2].data { // the stack holds what was there before
		m.fixed[len(m.fixed)-2].data[i] = byte(0xa5 + i*7)
	}
	m.Reset()
	return m
}

// Reset forgets the buffers.
func (m *Machine) Reset() {
	m.bufs, m.next, m.last = nil, bufBase, nil
}

// Buffer makes n bytes accessible at an address that is offset modulo 64, far from every other range.
func (m *Machine) Buffer(n, offset int) (uint64, []byte) {
	r := &region{m.next + uint64(offset&63), make([]byte, n), true}
	m.next += (uint64(n)+63)&^63 + 4096
	m.bufs = append(m.bufs, r)
	return r.base, r.data
}

func (m *Machine) fault(format string, args ...interface{}) {
	panic(&Fault{Msg: fmt.Sprintf(format, args...) + " in " + m.im.where(m.pc())})
}

// undefined reports an instruction that has no meaning on any processor.
func (m *Machine) undefined(ins uint32) {
	m.fault("executes the undefined instruction %08x", ins)
}

// sequential checks the step from one instruction to the next in memory.
func (m *Machine) sequential(next uint64) {
	if m.im.starts[next] {
		m.fault("runs beyond its end into %s: the code", m.im.where(next))
	}
}

func (m *Machine) unsupported(ins uint32) {
	panic(&Fault{Msg: fmt.Sprintf("instruction %08x in %s", ins, m.im.where(m.pc())), Unsupported: true})
}

func (m *Machine) pc() uint64 {
	if m.im.Arm64 {
		return m.a64.pc
	}
	return uint64(m.a32.r[15])
}

func (m *Machine) mem(a uint64, n int, write bool) []byte {
	if r := m.last; r != nil && a >= r.base && a-r.base+uint64(n) <= uint64(len(r.data)) && (r.write || !write) {
		return r.data[a-r.base:]
	}
	for _, rs := range [][]*region{m.bufs, m.fixed} {
		for _, r := range rs {
			if a >= r.base && a-r.base+uint64(n) <= uint64(len(r.data)) {
				if write && !r.write {
					m.fault("writes %d bytes to read-only memory at %#x", n, a)
				}
				m.last = r
				return r.data[a-r.base:]
			}
		}
	}
	verb := "reads"
	if write {
		verb = "writes"
	}
	near := ""
	for i, r := range m.bufs {
		if a+uint64(n) > r.base-2048 && a < r.base+uint64(len(r.data))+2048 {
			near = fmt.Sprintf(" (offset %d of operand %d of %d bytes)", int64(a-r.base), i, len(r.data))
		}
	}
	m.fault("%s %d bytes at %#x%s", verb, n, a, near)
	return nil
}

func (m *Machine) fetch(a uint64) uint32 {
	if t := m.text; t != nil && a >= t.base && a-t.base+4 <= uint64(len(t.data)) {
		b := t.data[a-t.base:]
		return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
	}
	for _, r := range m.fixed {
		if !r.write && a >= r.base && a-r.base+4 <= uint64(len(r.data)) {
			m.text = r
			return m.fetch(a)
		}
	}
	m.fault("jumps to %#x", a)
	return 0
}

func (m *Machine) load(a uint64, n int) uint64 {
	b := m.mem(a, n, false)
	v := uint64(0)
	for i := n - 1; i >= 0; i-- {
		v = v<<8 | uint64(b[i])
	}
	return v
}

func (m *Machine) store(a uint64, n int, v uint64) {
	b := m.mem(a, n, true)
	for i := 0; i < n; i++ {
		b[i] = byte(v)
		v >>= 8
	}
}

// SetByte sets a byte-sized variable of the program; it reports whether the variable exists.
func (m *Machine) SetByte(name string, v byte) bool {
	a, ok := m.im.syms[name]
	if !ok {
		return false
	}
	m.last = nil
	m.store(a, 1, uint64(v))
	return true
}

func (m *Machine) catch(err *error) {
	if x := recover(); x != nil {
		f, ok := x.(*Fault)
		if !ok {
			panic(x)
		}
		*err = f
	}
}

func (m *Machine) enter(pc uint64) bool {
	if n, ok := m.guards[pc]; ok {
		f := &Fault{Msg: "calls " + n, Panic: strings.Contains(strings.ToLower(n), "panic")}
		for _, p := range []string{"runtime.newobject", "runtime.mallocgc", "runtime.growslice", "runtime.makeslice", "runtime.gcWriteBarrier", "runtime.convT", "runtime.morestack"} {
			if strings.HasPrefix(n, p) {
				f.Unsupported = true
			}
		}
		panic(f)
	}
	m.Steps++
	if m.Steps > m.Limit {
		m.fault("does not return within %d instructions", m.Limit)
	}
	return pc != returnAddr
}

// Arg is an argument or result of a call: an int or pointer, or a float.
type Arg struct {
	Int   uint64
	F     float64
	Float int // size of a floating-point value, or 0
}

func Int(v int) Arg                  { return Arg{Int: uint64(v)} }
func Ptr(a uint64) Arg               { return Arg{Int: a} }
func F32(v float32) Arg              { return Arg{F: float64(v), Float: 4} }
func F64(v float64) Arg              { return Arg{F: v, Float: 8} }
func Slice(a uint64, n, c int) []Arg { return []Arg{Ptr(a), Int(n), Int(c)} }

// Call runs the function; results gives the kinds of the results in order: 'i' word, 'f' float32, 'd' float64.
func (m *Machine) Call(name string, args []Arg, results string) (res []Arg, err error) {
	defer m.catch(&err)
	a, ok := m.im.syms[name]
	if !ok {
		return nil, &Fault{Msg: "no symbol " + name, Unsupported: true}
	}
	m.Steps = 0
	if m.im.Arm64 {
		return m.call64(a, args, results), nil
	}
	return m.call32(a, args, results), nil
}
