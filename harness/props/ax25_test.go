package props

import (
	"bytes"
	"fmt"
	"reflect"
	"sync"
	"testing"

	"github.com/samuel/go-dsp/dsp/ax25"
	"pgregory.net/rapid"
	"verif/harness/pbt"
)

// fcs is the frame check sequence (CRC of HDLC), computed bit by bit.
func fcs(b []byte) uint16 {
	crc := uint16(0xffff)
	for _, x := range b {
		for i := 0; i < 8; i++ {
			bit := uint16(x>>i) & 1
			if (crc^bit)&1 != 0 {
				crc = crc>>1 ^ 0x8408
			} else {
				crc >>= 1
			}
		}
	}
	return ^crc
}

func withFCS(b []byte) []byte {
	f := fcs(b)
	return append(append([]byte(nil), b...), byte(f), byte(f>>8))
}

// octetBits are the bits in order of transmission, without stuffing.
func octetBits(b []byte) []byte {
	out := make([]byte, 0, 8*len(b))
	for _, x := range b {
		for i := 0; i < 8; i++ {
			out = append(out, x>>i&1)
		}
	}
	return out
}

func stuff(bits []byte) []byte {
	out := make([]byte, 0, len(bits)+len(bits)/5)
	ones := 0
	for _, b := range bits {
		out = append(out, b)
		ones++
		if b == 0 {
			ones = 0
		}
		if ones == 5 {
			out = append(out, 0)
			ones = 0
		}
	}
	return out
}

var flag = []byte{0, 1, 1, 1, 1, 1, 1, 0}

func isFlag(b []byte) bool { return bytes.Equal(b, flag) }

// delivery is what the reference says about one closing flag.
type delivery struct {
	octets []byte // with FCS
	unsure bool   // five ones directly before the flag, whose zero may then be a stuffed one: not produced by a transmitter
}

// deframe is the reference: it looks for flags in the whole stream and judges what lies between them.
// The result is indexed by the position of the last bit of the closing flag.
func deframe(stream []byte) map[int]delivery {
	out := map[int]delivery{}
	start := -1 // first bit after the last flag
	for i := 7; i < len(stream); i++ {
		if !isFlag(stream[i-7 : i+1]) {
			continue
		}
		if start >= 0 && i-7 > start {
			seg := stream[start : i-7]
			unsure := len(seg) >= 5 && bytes.Equal(seg[len(seg)-5:], []byte{1, 1, 1, 1, 1})
			if unsure {
				out[i] = delivery{unsure: true}
			}
			if o, ok := destuff(seg); ok {
				min := 17
				if len(o) > 1 && o[1]&1 != 0 {
					min = 10
				}
				if len(o) >= min && len(o) <= 512 && fcs(o[:len(o)-2]) == uint16(o[len(o)-2])|uint16(o[len(o)-1])<<8 {
					out[i] = delivery{o, unsure}
				}
			}
		}
		start = i + 1
	}
	return out
}

// destuff returns the octets of a segment; not ok if it contains an abort or is not aligned.
func destuff(seg []byte) ([]byte, bool) {
	var bits []byte
	ones := 0
	for _, b := range seg {
		if b == 1 {
			ones++
			if ones >= 7 {
				return nil, false
			}
			bits = append(bits, 1)
			continue
		}
		if ones != 5 {
			bits = append(bits, 0)
		}
		ones = 0
	}
	if len(bits)%8 != 0 {
		return nil, false
	}
	o := make([]byte, len(bits)/8)
	for i, b := range bits {
		o[i/8] |= b << (i % 8)
	}
	return o, true
}

// refParse decodes the octets (without FCS) of a frame with a well-formed header.
func refParse(o []byte) (f ax25.Frame, ok bool) {
	addr := func(b []byte) (a ax25.Address, good bool) {
		var call []byte
		pad := false
		for _, x := range b[:6] {
			ch := x >> 1
			alnum := ch >= '0' && ch <= '9' || ch >= 'A' && ch <= 'Z'
			if x&1 != 0 || !alnum && ch != ' ' || pad && ch != ' ' {
				return a, false
			}
			if ch == ' ' {
				pad = true
			} else {
				call = append(call, ch)
			}
		}
		return ax25.Address{Callsign: string(call), SSID: int(b[6]>>1) & 15}, len(call) > 0
	}
	if o[1]&1 != 0 {
		var call []byte
		v := uint64(0)
		for _, x := range o[2:7] {
			v = v<<8 | uint64(x)
		}
		for i := 0; i < 6; i++ {
			ch := byte(v>>(34-6*i)) & 63
			if ch != 0 {
				call = append(call, ch+' ')
			}
		}
		if len(call) == 0 {
			return f, false
		}
		f.Destination = ax25.Address{Callsign: string(call), SSID: int(o[6] & 15)}
		f.Command = o[1]&2 != 0
		o = o[7:]
	} else {
		var ok1, ok2 bool
		f.Destination, ok1 = addr(o[:7])
		f.Source, ok2 = addr(o[7:14])
		if !ok1 || !ok2 || o[6]&1 != 0 {
			return f, false
		}
		f.V1 = o[6]>>7 == o[13]>>7
		f.Command = !f.V1 && o[6]>>7 == 1
		more := o[13]&1 == 0
		o = o[14:]
		for more {
			if len(o) < 8 {
				return f, false
			}
			a, good := addr(o[:7])
			if !good {
				return f, false
			}
			f.Repeaters = append(f.Repeaters, a)
			more = o[6]&1 == 0
			o = o[7:]
		}
	}
	ctl := o[0]
	o = o[1:]
	f.PollFinal = ctl>>4&1 == 1
	info := false
	switch {
	case ctl&1 == 0:
		f.Type, f.SendSeq, f.RecvSeq = ax25.IFrame, int(ctl>>1&7), int(ctl>>5)
		info = true
	case ctl&3 == 1:
		f.Type, f.RecvSeq, f.SupervisoryType = ax25.SFrame, int(ctl>>5), ax25.SupervisoryType(ctl&15)
	default:
		f.Type, f.UnnumberedType = ax25.UFrame, ax25.UnnumberedType(ctl&^0x10)
		info = ctl&^0x10 == 3
	}
	if info {
		if len(o) == 0 {
			return f, true // no protocol identifier: nothing more to compare
		}
		f.PID, f.Info = ax25.PID(o[0]), o[1:]
	}
	return f, true
}

// frameDiff compares what the property names.
func frameDiff(got *ax25.Frame, want ax25.Frame) string {
	if len(got.Repeaters) == 0 && len(want.Repeaters) == 0 {
		want.Repeaters = got.Repeaters
	}
	if len(got.Info) == 0 && len(want.Info) == 0 {
		want.Info = got.Info
	}
	g, w := reflect.ValueOf(*got), reflect.ValueOf(want)
	for i := 0; i < g.NumField(); i++ {
		if !reflect.DeepEqual(g.Field(i).Interface(), w.Field(i).Interface()) {
			return fmt.Sprintf("%s is %v instead of %v", g.Type().Field(i).Name, g.Field(i).Interface(), w.Field(i).Interface())
		}
	}
	return ""
}

const callChars = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

func drawAddr(r *pbt.Rng) ax25.Address {
	n := r.Range(1, 6)
	b := make([]byte, n)
	for i := range b {
		b[i] = callChars[r.Intn(len(callChars))]
	}
	return ax25.Address{Callsign: string(b), SSID: r.Intn(16)}
}

func encAddr(a ax25.Address, top, reserved byte, last bool) []byte {
	b := make([]byte, 7)
	for i := 0; i < 6; i++ {
		b[i] = ' ' << 1
		if i < len(a.Callsign) {
			b[i] = a.Callsign[i] << 1
		}
	}
	b[6] = top<<7 | reserved<<5 | byte(a.SSID)<<1
	if last {
		b[6] |= 1
	}
	return b
}

var (
	uTypes = []ax25.UnnumberedType{ax25.SABME, ax25.SABM, ax25.DISC, ax25.DM, ax25.UA, ax25.FRMR, ax25.UI, ax25.XID, ax25.TEST}
	uCodes = []byte{0x6f, 0x2f, 0x43, 0x0f, 0x63, 0x87, 0x03, 0xaf, 0xe3}
	uNames = []string{"SABME", "SABM", "DISC", "DM", "UA", "FRMR", "UI", "XID", "TEST"}
	sTypes = []ax25.SupervisoryType{ax25.RR, ax25.RNR, ax25.REJ, ax25.SREJ}
	sCodes = []byte{1, 5, 9, 13}
	sNames = []string{"RR", "RNR", "REJ", "SREJ"}
	pids   = []ax25.PID{ax25.ISO8208CCITTX25PLP, ax25.CompressedTCPIP, ax25.UncompressedTCPIP, ax25.SegmentationFragment, ax25.TEXNETDatagramProtocol,
		ax25.LinkQualityProtocol, ax25.AppleTalk, ax25.AppletalkARP, ax25.ARPAInternetProtocol, ax25.ARPAAddressResolution, ax25.FlexNet, ax25.NETROM, ax25.NoLayer3Protocol}
	pidCodes = []byte{1, 6, 7, 8, 0xc3, 0xc4, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xf0}
	pidNames = []string{"ISO 8208/CCITT X.25 PLP", "Compressed TCP/IP. RFC 1144", "Uncompressed TCP/IP", "Segmentation fragment", "TEXNET datagram protocol",
		"Link Quality Protocol", "Appletalk", "Appletalk ARP", "ARPA Internet Protocol", "ARPA Address Resolution", "FlexNet", "NET/ROM", "No Layer 3 Protocol Implemented"}
)

// drawFrame makes a well-formed frame: the octets (without FCS), the fields and the names of its types.
func drawFrame(r *pbt.Rng, maxInfo int) (o []byte, f ax25.Frame, names []string) {
	if r.Intn(5) == 0 { // FlexNet-compressed header
		f.Destination = drawAddr(r)
		f.Command = r.Bool()
		h := make([]byte, 7)
		h[0] = byte(r.U64())
		h[1] = byte(r.U64())&^3 | 1
		if f.Command {
			h[1] |= 2
		}
		v := uint64(0)
		for i := 0; i < 6; i++ {
			v <<= 6
			if i < len(f.Destination.Callsign) {
				v |= uint64(f.Destination.Callsign[i] - ' ')
			}
		}
		v = v<<4 | uint64(f.Destination.SSID)
		for i := 6; i >= 2; i-- {
			h[i] = byte(v)
			v >>= 8
		}
		o = h
	} else {
		f.Destination, f.Source = drawAddr(r), drawAddr(r)
		n := 0
		if r.Bool() {
			n = r.Range(1, 8)
		}
		d, s := byte(r.Intn(2)), byte(r.Intn(2))
		f.V1 = d == s
		f.Command = d == 1 && s == 0
		o = append(encAddr(f.Destination, d, byte(r.Intn(4)), false), encAddr(f.Source, s, byte(r.Intn(4)), n == 0)...)
		for i := 0; i < n; i++ {
			a := drawAddr(r)
			f.Repeaters = append(f.Repeaters, a)
			o = append(o, encAddr(a, byte(r.Intn(2)), byte(r.Intn(4)), i == n-1)...)
		}
	}
	pf := byte(r.Intn(2))
	f.PollFinal = pf == 1
	hasInfo := false
	switch r.Intn(4) {
	case 0, 1:
		f.Type, f.SendSeq, f.RecvSeq = ax25.IFrame, r.Intn(8), r.Intn(8)
		o = append(o, byte(f.RecvSeq)<<5|pf<<4|byte(f.SendSeq)<<1)
		hasInfo = true
		names = append(names, "I")
	case 2:
		i := r.Intn(len(sTypes))
		f.Type, f.RecvSeq, f.SupervisoryType = ax25.SFrame, r.Intn(8), sTypes[i]
		o = append(o, byte(f.RecvSeq)<<5|pf<<4|sCodes[i])
		names = append(names, "S", sNames[i])
	default:
		i := r.Intn(len(uTypes))
		if r.Bool() {
			i = 6
		}
		f.Type, f.UnnumberedType = ax25.UFrame, uTypes[i]
		o = append(o, uCodes[i]|pf<<4)
		hasInfo = i == 6
		names = append(names, "U", uNames[i])
		if r.Intn(6) == 0 { // a type without a name
			i = 0
			code := uCodes[0]
			for bytes.IndexByte(uCodes, code) >= 0 {
				code = byte(r.U64())&^0x10 | 3
			}
			f.UnnumberedType = ax25.UnnumberedType(code)
			o[len(o)-1] = code | pf<<4
			names[1] = fmt.Sprintf("%02x", code)
			hasInfo = false
		}
		if i == 5 || i == 7 || i == 8 { // FRMR, XID and TEST carry data that is not decoded
			for n := r.Intn(5); n > 0; n-- {
				o = append(o, byte(r.U64()))
			}
		}
	}
	if hasInfo {
		i := r.Intn(len(pids))
		f.PID = pids[i]
		name, code := pidNames[i], pidCodes[i]
		if r.Intn(6) == 0 { // a protocol without a name
			for bytes.IndexByte(pidCodes, code) >= 0 {
				code = byte(r.U64())
			}
			f.PID, name = ax25.PID(code), fmt.Sprintf("%02x", code)
		}
		names = append(names, name)
		o = append(o, code)
		n := r.Intn(20)
		if r.Intn(3) == 0 {
			n = r.Intn(maxInfo)
		}
		kind := r.Intn(3)
		for ; n > 0 && len(o) < 510; n-- {
			b := byte(r.U64())
			if kind == 0 { // many stuffed bits
				b |= byte(r.U64()) | byte(r.U64())
			} else if kind == 1 && r.Bool() {
				b = []byte{0x7e, 0xff, 0x7f, 0xfe, 0x3e, 0xf8, 0x1f, 0}[r.Intn(8)]
			}
			f.Info = append(f.Info, b)
			o = append(o, b)
		}
	}
	return
}

type gotFrame struct {
	at int
	f  *ax25.Frame
}

func feedBits(d *ax25.AX25, bits []byte) (out []gotFrame) {
	for i, b := range bits {
		if f := d.Feed(int(b)); f != nil {
			out = append(out, gotFrame{i, f})
		}
	}
	return
}

// drawStream composes a bit stream of frames, damaged frames, noise and aborts.
func drawStream(c *pbt.Case, r *pbt.Rng, first bool) []byte {
	s := []byte{}
	if first {
		s = append(s, 0) // a decoder has seen no bit yet: do not let a flag begin before the stream
	}
	noise := func(n, p int) {
		for ; n > 0; n-- {
			b := byte(0)
			if r.Intn(10) < p {
				b = 1
			}
			s = append(s, b)
		}
	}
	flags := func(most int) {
		for n := r.Range(1, most); n > 0; n-- {
			f := flag
			if len(s) > 0 && s[len(s)-1] == 0 && len(s) > 8 && r.Intn(3) == 0 {
				// shares its first zero with what comes before it
				f = flag[1:]
				c.Label("flag with a shared zero")
			}
			s = append(s, f...)
		}
	}
	var last []byte
	n := r.Range(1, 8)
	if r.Intn(2000) == 0 {
		n += 1<<r.Range(5, 9) + r.Range(0, 9)
		c.Label("hundreds of frames")
	}
	for ; n > 0; n-- {
		kind := r.Intn(16)
		if r.Intn(400) == 0 { // a long time between frames
			long := r.Range(100, 3000)
			if r.Intn(4) == 0 {
				long = 1<<r.Range(12, 16) + r.Range(-2, 20)
			}
			switch r.Intn(5) {
			case 0:
				flags(1)
				for ; long > 0; long-- {
					s = append(s, flag...)
				}
			case 1: // with shared zeros
				flags(1)
				for ; long > 0; long-- {
					s = append(s, flag[1:]...)
				}
			case 2:
				noise(long, 10)
			case 3:
				noise(long, 0)
			default:
				noise(long, r.Range(2, 9))
			}
			c.Label("long pause")
		}
		switch kind {
		case 0:
			noise(r.Intn(60), r.Range(2, 9))
		case 1:
			noise(r.Range(7, 20), 10)
			c.Label("abort")
		case 2:
			flags(4)
		default:
			var o []byte
			switch r.Intn(4) {
			case 0: // arbitrary octets with a valid check sequence, around the minimal lengths
				o = make([]byte, r.Range(0, 24))
				for i := range o {
					o[i] = byte(r.U64())
				}
				if len(o) > 1 && r.Intn(3) == 0 {
					o[1] |= 1
				}
				c.Label("arbitrary octets")
			case 1:
				if r.Intn(4) == 0 { // around the maximal length
					o, _, _ = drawFrame(r, 20)
					for want := r.Range(505, 514); len(o) < want; {
						o = append(o, byte(r.U64()))
					}
					c.Label("around 512 octets")
					break
				}
				fallthrough
			default:
				o, _, _ = drawFrame(r, 60)
			}
			o = withFCS(o)
			if r.Intn(8) == 0 && last != nil {
				o = last
			}
			last = o
			bits := octetBits(o)
			switch kind {
			case 3: // damaged octet
				i := r.Intn(len(bits))
				bits[i] ^= 1
				c.Label("damaged frame")
			case 4: // not a whole number of octets
				if r.Bool() {
					bits = bits[:len(bits)-r.Range(1, 7)]
				} else {
					for i := r.Range(1, 7); i > 0; i-- {
						bits = append(bits, byte(r.Intn(2)))
					}
				}
				c.Label("fragment of an octet")
			}
			bits = stuff(bits)
			switch kind {
			case 5: // aborted in the middle
				i := r.Intn(len(bits))
				bits = append(append(append([]byte(nil), bits[:i]...), 1, 1, 1, 1, 1, 1, 1, 1)[:i+r.Range(7, 8)], bits[i:]...)
				c.Label("abort inside a frame")
			case 6: // bit errors on the line
				for k := r.Range(1, 3); k > 0; k-- {
					bits[r.Intn(len(bits))] ^= 1
				}
				c.Label("line errors")
			case 7: // lost or inserted bit
				i := r.Intn(len(bits))
				if r.Bool() {
					bits = append(append([]byte(nil), bits[:i]...), bits[i+1:]...)
				} else {
					bits = append(append(append([]byte(nil), bits[:i]...), byte(r.Intn(2))), bits[i:]...)
				}
				c.Label("bit lost or inserted")
			}
			if kind != 8 {
				flags(2)
			}
			s = append(s, bits...)
			if kind != 9 {
				flags(2)
			}
		}
	}
	if r.Bool() {
		flags(1)
	}
	return s
}

func bitString(b []byte) string {
	out := make([]byte, len(b))
	for i, x := range b {
		out[i] = '0' + x
	}
	return string(out)
}

func TestC20(t *testing.T) {
	pbt.Prop(t, "C20", 1, func(c *pbt.Case) {
		var s []byte
		var r *pbt.Rng
		switch rapid.IntRange(0, 9).Draw(c.T, "stream kind") {
		case 0: // short and explicit, so that it shrinks
			s = append([]byte{0}, rapid.SliceOfN(rapid.ByteRange(0, 1), 0, 60).Draw(c.T, "bits")...)
		case 1: // one minimal frame drawn octet by octet
			s = append([]byte{0}, flag...)
			o := rapid.SliceOfN(rapid.Byte(), 6, 18).Draw(c.T, "octets")
			s = append(append(s, stuff(octetBits(withFCS(o)))...), flag...)
		default:
			r = pbt.NewRng(c.T, "stream")
			s = drawStream(c, r, true)
		}
		want := deframe(s)
		c.Key(s)
		n := 0
		d := ax25.NewDecoder()
		seen := map[int]bool{}
		for _, g := range feedBits(d, s) {
			seen[g.at] = true
			w, ok := want[g.at]
			if !ok {
				c.Fatalf("frame %+v invented at bit %d of %s", *g.f, g.at, bitString(s))
			}
			if w.unsure {
				c.Label("unstuffed ones before a flag")
				continue
			}
			if f, ok := refParse(w.octets[:len(w.octets)-2]); ok {
				n++
				if diff := frameDiff(g.f, f); diff != "" {
					c.Fatalf("frame at bit %d (octets %x): %s", g.at, w.octets, diff)
				}
			}
		}
		for i, w := range want {
			if w.unsure {
				delete(want, i)
				continue
			}
			if !seen[i] {
				c.Fatalf("the frame ending at bit %d (%d octets %x) is not delivered in %s", i, len(w.octets), w.octets, bitString(s))
			}
			c.LabelIf(len(w.octets) == 512, "frame of 512 octets")
			c.LabelIf(len(w.octets) < 17, "frame of 10 to 16 octets")
			c.LabelIf(len(w.octets) == 17, "frame of 17 octets")
		}
		c.NonTrivial(len(s) > 16)
		c.LabelIf(len(want) > 0, "delivers frames")
		c.LabelIf(len(want) > 1, "delivers several frames")
		c.LabelIf(n > 0, "fields compared")
		c.Samplef("%d bits with %d frames: %s", len(s), len(want), bitString(s))
	})
}

func TestC21(t *testing.T) {
	pbt.Prop(t, "C21", 2, func(c *pbt.Case) {
		r := pbt.NewRng(c.T, "frames")
		d := ax25.NewDecoder()
		for i := 0; i < 8; i++ {
			d.Feed(int(flag[i]))
		}
		for n := rapid.IntRange(1, 4).Draw(c.T, "frames"); n > 0; n-- {
			o, f, names := drawFrame(r, 300)
			c.Key(o)
			c.NonTrivial(true)
			c.Label("type " + names[0])
			c.LabelIf(f.Source.Callsign == "", "FlexNet header")
			c.LabelIf(len(f.Repeaters) > 0, "repeaters")
			c.LabelIf(len(f.Info) > 0, "information field")
			c.Samplef("octets %x: %+v", o, f)
			got := feedBits(d, append(stuff(octetBits(withFCS(o))), flag...))
			if len(got) != 1 {
				c.Fatalf("octets %x (with FCS %x): %d frames delivered", o, withFCS(o), len(got))
			}
			g := got[0].f
			if diff := frameDiff(g, f); diff != "" {
				c.Fatalf("octets %x: %s", o, diff)
			}
			has := []string{g.Type.String()}
			switch f.Type {
			case ax25.SFrame:
				has = append(has, g.SupervisoryType.String())
			case ax25.UFrame:
				has = append(has, g.UnnumberedType.String())
			}
			if len(names) > len(has) {
				has = append(has, g.PID.String())
			}
			for i, name := range names {
				if has[i] != name {
					c.Fatalf("octets %x: type prints %q instead of %q", o, has[i], name)
				}
			}
			for _, a := range append([]ax25.Address{g.Destination, g.Source}, g.Repeaters...) {
				if a.Callsign == "" { // a FlexNet header has no source
					continue
				}
				if want := fmt.Sprintf("%s-%d", a.Callsign, a.SSID); a.String() != want {
					c.Fatalf("address prints %q instead of %q", a, want)
				}
			}
		}
	})
}

func describe(f *ax25.Frame) string { return fmt.Sprintf("%+v %x", *f, f.Info) }

func TestC22(t *testing.T) {
	t.Run("history", func(t *testing.T) {
		pbt.Prop(t, "C22/history", 1, func(c *pbt.Case) {
			r := pbt.NewRng(c.T, "streams")
			before := drawStream(c, r, false)
			if r.Intn(4) == 0 {
				before = before[:r.Intn(len(before)+1)]
			}
			after := append(append([]byte(nil), flag...), drawStream(c, r, true)[1:]...)
			if r.Intn(3) == 0 { // directly a frame
				o, _, _ := drawFrame(r, 40)
				after = append(append(append([]byte(nil), flag...), stuff(octetBits(withFCS(o)))...), append(append([]byte(nil), flag...), after...)...)
			}
			old, fresh := ax25.NewDecoder(), ax25.NewDecoder()
			hist := feedBits(old, before)
			descr := make([]string, 0, len(hist))
			for _, g := range hist {
				descr = append(descr, describe(g.f))
			}
			c.Key(before, after)
			frames := 0
			for i, b := range after {
				g, w := old.Feed(int(b)), fresh.Feed(int(b))
				if i < len(flag) {
					if g != nil {
						hist, descr = append(hist, gotFrame{i, g}), append(descr, describe(g))
					}
					continue
				}
				if (g == nil) != (w == nil) || g != nil && describe(g) != describe(w) {
					show := func(f *ax25.Frame) string {
						if f == nil {
							return "nothing"
						}
						return describe(f)
					}
					c.Fatalf("bit %d after a flag: %s with history %s, %s without, stream %s", i, show(g), bitString(before), show(w), bitString(after))
				}
				if g != nil {
					frames++
					hist, descr = append(hist, gotFrame{i, g}), append(descr, describe(g))
				}
			}
			for i, g := range hist {
				if describe(g.f) != descr[i] {
					c.Fatalf("frame %s became %s later", descr[i], describe(g.f))
				}
			}
			c.NonTrivial(frames > 0 && len(before) > 0)
			c.LabelIf(len(hist) > 1, "several frames kept")
			c.LabelIf(frames > 0, "frames after the flag")
			c.Samplef("%d bits of history, then %d bits with %d frames", len(before), len(after), frames)
		})
	})
	t.Run("immutable", func(t *testing.T) {
		pbt.Prop(t, "C22/immutable", 1, func(c *pbt.Case) {
			r := pbt.NewRng(c.T, "frames")
			n := rapid.IntRange(2, 12).Draw(c.T, "frames")
			decoders := []*ax25.AX25{ax25.NewDecoder(), ax25.NewDecoder()}
			streams := make([][]byte, 2)
			wants := make([][]ax25.Frame, 2)
			for k := range streams {
				streams[k] = append(streams[k], flag...)
				for i := 0; i < n; i++ {
					o, f, _ := drawFrame(r, 40)
					wants[k] = append(wants[k], f)
					streams[k] = append(append(streams[k], stuff(octetBits(withFCS(o)))...), flag...)
				}
				c.Key(streams[k])
			}
			scribble := rapid.Bool().Draw(c.T, "caller writes to its frames")
			got := make([][]*ax25.Frame, 2)
			// interleave the two decoders bit by bit
			pos := [2]int{}
			for pos[0] < len(streams[0]) || pos[1] < len(streams[1]) {
				k := r.Intn(2)
				for run := r.Range(1, 9); run > 0 && pos[k] < len(streams[k]); run-- {
					if f := decoders[k].Feed(int(streams[k][pos[k]])); f != nil {
						got[k] = append(got[k], f)
						if scribble && len(got[k])%2 == 0 {
							// a caller owns what it was given
							for i := range f.Info {
								f.Info[i] ^= 0x55
							}
							_ = append(f.Info, 1, 2, 3)
							for i := range f.Repeaters {
								f.Repeaters[i].SSID = 99
							}
						}
					}
					pos[k]++
				}
			}
			c.NonTrivial(true)
			c.LabelIf(scribble, "caller writes to its frames")
			c.Label("interleaved decoders")
			c.Samplef("two decoders with %d frames each, interleaved", n)
			for k := range got {
				if len(got[k]) != n {
					c.Fatalf("decoder %d delivers %d of %d frames", k, len(got[k]), n)
				}
				for i, f := range got[k] {
					if scribble && i%2 == 1 {
						continue
					}
					if diff := frameDiff(f, wants[k][i]); diff != "" {
						c.Fatalf("decoder %d, frame %d of %d, after all have been received: %s", k, i, n, diff)
					}
				}
			}
		})
	})
	t.Run("parallel", func(t *testing.T) {
		pbt.Prop(t, "C22/parallel", 0.05, func(c *pbt.Case) {
			r := pbt.NewRng(c.T, "frames")
			n := rapid.IntRange(2, 5).Draw(c.T, "decoders")
			streams, want := make([][]byte, n), make([]string, n)
			run := func(s []byte) string {
				out := ""
				for _, g := range feedBits(ax25.NewDecoder(), s) {
					out += fmt.Sprint(g.at, describe(g.f), ";")
				}
				return out
			}
			for i := range streams {
				streams[i] = drawStream(c, r, true)
				c.Key(streams[i])
				want[i] = run(streams[i])
			}
			got := make([]string, n)
			var wg sync.WaitGroup
			for i := range streams {
				wg.Add(1)
				go func() {
					defer wg.Done()
					got[i] = run(streams[i])
				}()
			}
			wg.Wait()
			c.NonTrivial(true)
			c.Label("parallel decoders")
			for i := range got {
				if got[i] != want[i] {
					c.Fatalf("decoder %d of %d in parallel: %s instead of %s", i, n, got[i], want[i])
				}
			}
		})
	})
}

func TestC29(t *testing.T) {
	pbt.Prop(t, "C29", 2, func(c *pbt.Case) {
		r := pbt.NewRng(c.T, "frame")
		maxInfo := rapid.SampledFrom([]int{1, 20, 480}).Draw(c.T, "size")
		o, _, _ := drawFrame(r, maxInfo)
		o = withFCS(o)
		d := ax25.NewDecoder()
		for _, b := range flag {
			d.Feed(int(b))
		}
		frame := append(stuff(octetBits(o)), flag...)
		c.Key(o)
		if got := feedBits(d, frame); len(got) != 1 {
			c.Fatalf("octets %x: not delivered", o)
		}
		for k := 0; k < 8; k++ {
			bits := octetBits(o)
			n := len(bits)
			var flips []int
			switch rapid.IntRange(0, 2).Draw(c.T, "error kind") {
			case 0:
				w := rapid.IntRange(1, 16).Draw(c.T, "burst")
				start := rapid.IntRange(0, n-w).Draw(c.T, "start")
				pat := rapid.Uint16().Draw(c.T, "pattern") | 1
				for i := 0; i < w; i++ {
					if pat>>i&1 == 1 {
						flips = append(flips, start+i)
					}
				}
				c.Label("burst")
			case 1:
				i := rapid.IntRange(0, n-1).Draw(c.T, "first")
				j := rapid.IntRange(0, n-2).Draw(c.T, "second")
				if j >= i {
					j++
				}
				flips = []int{i, j}
				c.Label("two bits")
			default:
				set := map[int]bool{}
				want := 2*rapid.IntRange(0, 6).Draw(c.T, "half") + 1
				for len(set) < want {
					set[r.Intn(n)] = true
				}
				for i := 0; i < n; i++ {
					if set[i] {
						flips = append(flips, i)
					}
				}
				c.Label("odd number of bits")
			}
			for _, i := range flips {
				bits[i] ^= 1
			}
			c.Key(flips)
			c.NonTrivial(true)
			c.Samplef("octets %x with bits %v flipped", o, flips)
			if got := feedBits(d, append(stuff(bits), flag...)); len(got) != 0 {
				c.Fatalf("octets %x with bits %v flipped: delivered as %+v", o, flips, *got[0].f)
			}
		}
		if got := feedBits(d, frame); len(got) != 1 {
			c.Fatalf("octets %x: not delivered after damaged copies", o)
		}
	})
}
