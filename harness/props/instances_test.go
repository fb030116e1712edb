package props

import (
	"fmt"
	"sync"
	"testing"

	"github.com/samuel/go-dsp/dsp/ax25"
	"pgregory.net/rapid"
	"verif/harness/pbt"
)

// ax25Kind is the AX.25 decoder as a processor: the frames are its output.
var ax25Kind = procKind{"AX25", func(c *pbt.Case) (func() proc, func(), func() bool, string) {
	return func() proc {
		d := ax25.NewDecoder()
		pos := 0
		return proc{wrong: new(string), final: noFinal, feed: func(b []complex128, _ int) (out []complex128) {
			for _, x := range b {
				pos++
				if f := d.Feed(int(real(x))); f != nil {
					h := uint64(14695981039346656037)
					for _, ch := range []byte(describe(f)) {
						h = (h ^ uint64(ch)) * 1099511628211
					}
					out = append(out, complex(float64(pos), float64(h>>12)))
				}
			}
			return
		}}
	}, nothing, alwaysOK, ""
}, false}

// member is one instance among several, with its input and the result it gives alone.
type member struct {
	kind, descr  string
	mk           func() proc
	p            proc
	in           []complex128
	cuts         []int
	want, wantF  []complex128
	got          []complex128
	pos, cut, vr int
}

// party draws several instances, yet to be built with mk; groups of them are built from the same arguments.
func party(c *pbt.Case, most int) (ms []*member, scribble func(), intact func() string) {
	kinds := append(append([]procKind(nil), procKinds...), ax25Kind)
	var scribbles []func()
	var intacts []func() bool
	var names []string
	n := rapid.IntRange(2, most).Draw(c.T, "instances")
	for len(ms) < n {
		k := rapid.SampledFrom(kinds).Draw(c.T, "kind")
		mk, s, in, descr := k.draw(c)
		scribbles, intacts, names = append(scribbles, s), append(intacts, in), append(names, k.name)
		for g := rapid.IntRange(1, 3).Draw(c.T, "from the same arguments"); g > 0 && len(ms) < n; g-- {
			m := &member{kind: k.name, descr: descr, mk: mk}
			length := pbt.Longer(c, rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 300)).Draw(c.T, "samples"), 1<<13, "stream")
			if k.name == "AX25" {
				for _, b := range drawStream(c, pbt.NewRng(c.T, "bits"), true) {
					m.in = append(m.in, complex(float64(b), 0))
				}
			} else {
				m.in = pbt.C128s(c.T, length, "stream")
			}
			m.cuts = pbt.Cuts(c.T, len(m.in), "calls")
			m.vr = rapid.IntRange(0, 7).Draw(c.T, "entry points")
			ms = append(ms, m)
			c.Key(k.name, descr, m.in, m.cuts)
			c.Label(k.name)
			c.LabelIf(g > 1, "built from the same arguments")
		}
	}
	return ms, func() {
			for _, s := range scribbles {
				s()
			}
		}, func() string {
			for i, f := range intacts {
				if !f() {
					return names[i]
				}
			}
			return ""
		}
}

// alone determines what the member gives on its own.
func (m *member) alone() {
	a := *m
	a.got, a.pos, a.cut = nil, 0, 0
	a.p = a.mk()
	for a.step() {
	}
	m.want, m.wantF = a.got, a.p.final()
}

// step makes the next call; false when there is none.
func (m *member) step() bool {
	if m.cut >= len(m.cuts) {
		return false
	}
	n := m.cuts[m.cut]
	m.got = append(m.got, m.p.feed(m.in[m.pos:m.pos+n], m.vr+m.cut)...)
	m.pos += n
	m.cut++
	return true
}

func (m *member) problem() string {
	if *m.p.wrong != "" {
		return *m.p.wrong
	}
	if i := equalOut(m.got, m.want); i >= 0 {
		return fmt.Sprintf("%s (%s): output %d is %v, alone it is %v", m.kind, m.descr, i, at(m.got, i), at(m.want, i))
	}
	f := m.p.final()
	if i := equalOut(f, m.wantF); i >= 0 {
		return fmt.Sprintf("%s (%s): final result %d is %v, alone it is %v", m.kind, m.descr, i, at(f, i), at(m.wantF, i))
	}
	return ""
}

func TestC27(t *testing.T) {
	t.Run("interleaved", func(t *testing.T) {
		pbt.Prop(t, "C27/interleaved", 1, func(c *pbt.Case) {
			ms, scribble, intact := party(c, 5)
			for _, m := range ms {
				m.alone()
			}
			for _, m := range ms {
				m.p = m.mk()
			}
			if k := intact(); k != "" {
				c.Fatalf("the constructor or a call of %s changed its arguments", k)
			}
			r := pbt.NewRng(c.T, "schedule")
			change := rapid.Bool().Draw(c.T, "arguments overwritten after construction")
			changed := !change
			if change && r.Bool() {
				scribble()
				changed = true
			}
			var names []string
			for _, m := range ms {
				names = append(names, m.kind)
			}
			live, calls := len(ms), 0
			for live > 0 {
				i := r.Intn(len(ms))
				if !ms[i].step() {
					live = 0
					for _, m := range ms {
						if m.cut < len(m.cuts) {
							live++
						}
					}
					continue
				}
				if r.Intn(8) == 0 { // look at an intermediate result
					ms[r.Intn(len(ms))].p.final()
				}
				calls++
				if !changed && calls > 5 {
					if k := intact(); k != "" {
						c.Fatalf("a call of %s changed its constructor's arguments", k)
					}
					scribble()
					changed = true
				}
			}
			c.NonTrivial(calls > len(ms))
			c.LabelIf(change, "arguments overwritten")
			c.Samplef("%v in %d interleaved calls, arguments overwritten: %v", names, calls, change)
			for _, m := range ms {
				if p := m.problem(); p != "" {
					c.Fatalf("interleaved with %v (arguments overwritten: %v): %s", names, change, p)
				}
			}
			if !change {
				if k := intact(); k != "" {
					c.Fatalf("a call of %s changed its constructor's arguments", k)
				}
			}
		})
	})
	t.Run("parallel", func(t *testing.T) {
		pbt.Prop(t, "C27/parallel", 0.5, func(c *pbt.Case) {
			ms, _, intact := party(c, 6)
			before := rapid.Bool().Draw(c.T, "alone before, not after")
			alone := func() {
				for _, m := range ms {
					m.alone()
				}
			}
			if before {
				alone()
			}
			var wg sync.WaitGroup
			start := make(chan struct{})
			panics := make([]any, len(ms))
			for i, m := range ms {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					panics[i] = pbt.Catch(func() {
						m.p = m.mk()
						for m.step() {
						}
					})
				}()
			}
			close(start)
			wg.Wait()
			c.NonTrivial(true)
			c.Label("parallel")
			if !before { // the first of their kind may have been built in parallel
				alone()
			}
			for i, m := range ms {
				if panics[i] != nil {
					c.Fatalf("%s (%s) panics: %v", m.kind, m.descr, panics[i])
				}
				if p := m.problem(); p != "" {
					c.Fatalf("in parallel with others: %s", p)
				}
			}
			if k := intact(); k != "" {
				c.Fatalf("%s changed its arguments", k)
			}
		})
	})
}
