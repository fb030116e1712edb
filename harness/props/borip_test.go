package props

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"net"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/samuel/go-dsp/borip"
	"pgregory.net/rapid"
	"verif/harness/pbt"
)

// netError is an error of a connection with what net.Error tells of it.
type netError struct {
	msg                string
	timeout, temporary bool
}

func (e *netError) Error() string   { return e.msg }
func (e *netError) Timeout() bool   { return e.timeout }
func (e *netError) Temporary() bool { return e.temporary }

// connError draws an error that receiving from a connection can give.
func connError(r *pbt.Rng) error {
	var err error
	switch r.Intn(5) {
	case 0:
		return fmt.Errorf("receive failure %d", r.Intn(1000))
	case 1:
		err = &netError{fmt.Sprintf("network failure %d", r.Intn(1000)), r.Bool(), r.Bool()}
	case 2:
		err = os.NewSyscallError("recvfrom", []syscall.Errno{syscall.ECONNREFUSED, syscall.EINTR, syscall.EAGAIN, syscall.ECONNRESET, syscall.ENETUNREACH, syscall.EMSGSIZE}[r.Intn(6)])
	case 3:
		err = os.ErrDeadlineExceeded
	case 4:
		err = net.ErrClosed
	}
	if r.Bool() {
		err = &net.OpError{Op: "read", Net: "udp", Err: err}
	}
	return err
}

// fakePackets is a packet connection that delivers a script of datagrams and errors.
type fakePackets struct {
	net.PacketConn
	script []datagram
	pos    int
}

type datagram struct {
	data []byte
	err  error
}

func (f *fakePackets) ReadFrom(b []byte) (int, net.Addr, error) {
	if f.pos >= len(f.script) {
		return 0, nil, io.EOF
	}
	d := f.script[f.pos]
	f.pos++
	if d.err != nil {
		return 0, nil, d.err
	}
	return copy(b, d.data), &net.UDPAddr{}, nil
}

func TestC23(t *testing.T) {
	pbt.Prop(t, "C23", 1, func(c *pbt.Case) {
		headers := rapid.Bool().Draw(c.T, "header mode")
		r := pbt.NewRng(c.T, "datagrams")
		f := &fakePackets{}
		type exp struct {
			v  complex128
			dg int
		}
		var queue []exp
		short, fails := 0, 0
		descr := fmt.Sprintf("headers %v, datagrams (the last ones) of", headers)
		count := rapid.IntRange(1, 10).Draw(c.T, "datagrams")
		many := count > 3 && r.Intn(300) == 0
		if many {
			count += 1<<r.Range(6, 10) + r.Range(0, 2)
			if r.Intn(10) == 0 {
				count = 1<<16 + r.Range(0, 9)
			}
		}
		c.LabelIf(many, "many datagrams")
		// a sender's sequence numbers: counting, repeated, jumping back or ahead, or anything
		style := r.Intn(4)
		idx := uint16(r.U64())
		var prev []byte
		for i := count; i > 0; i-- {
			n, kind := 0, r.Intn(9)
			if many && i > 10 && kind > 0 && (kind > 1 || r.Intn(20) > 0) {
				kind = 9 // a small one
			}
			switch kind {
			case 0:
				n = r.Intn(9)
			case 1:
				f.script = append(f.script, datagram{err: connError(r)})
				fails++
				if i <= 20 {
					descr += " (error)"
				}
				continue
			case 2:
				n = r.Range(60000, 65507)
			case 3:
				n = r.Intn(2000)
			default:
				n = 4 * r.Intn(40)
				if kind == 9 {
					n = 4 * r.Intn(5)
				}
				if headers {
					n += 4
				}
			}
			d := make([]byte, n)
			fill := r.Intn(6)
			for j := range d {
				switch fill {
				case 0:
				case 1:
					d[j] = []byte{0, 0xff, 0x80, 0x7f}[r.Intn(4)]
				default:
					d[j] = byte(r.U64())
				}
			}
			if headers && n >= 4 && style > 0 {
				switch {
				case style == 1 || r.Intn(4) > 0:
					idx++
				case style == 2:
					idx += uint16(r.Range(-3, 3))
				}
				d[0], d[1], d[2], d[3] = []byte{0, 0, 0, 0x10, 0x30, 0x08}[r.Intn(6)], 0, byte(idx), byte(idx>>8)
				if r.Intn(30) == 0 {
					idx = uint16(r.Range(-2, 2))
				}
			}
			if prev != nil && r.Intn(20) == 0 { // sent twice
				d = append([]byte(nil), prev...)
				n = len(d)
				c.Label("datagram repeated")
			}
			prev = d
			if i <= 20 {
				descr += fmt.Sprintf(" %d", n)
			}
			c.Key(d)
			body := d
			if headers {
				if n < 4 {
					short++
					body = nil
				} else {
					body = d[4:]
				}
			}
			for j := 0; j+4 <= len(body); j += 4 {
				re := int16(uint16(body[j]) | uint16(body[j+1])<<8)
				im := int16(uint16(body[j+2]) | uint16(body[j+3])<<8)
				queue = append(queue, exp{complex(float64(re), float64(im)), len(f.script)})
			}
			f.script = append(f.script, datagram{data: d})
		}
		rd := borip.NewPacketReader(f, headers)
		pos, gotShort, gotFails, calls := 0, 0, 0, 0
		maxRead := rapid.SampledFrom([]int{1, 3, 50, 1000, 20000}).Draw(c.T, "largest read")
		left := 0
		for {
			n := r.Intn(maxRead + 1)
			// the rest of a large datagram at once
			if maxRead < 1000 && calls > 300 {
				n = 70000
				if many && calls < 300+40*count {
					n = r.Intn(100)
				}
			}
			buf := make([]complex128, n, n+r.Intn(3))
			calls++
			if calls > 2000+50*count {
				c.Fatalf("%s: no end after %d calls", descr, calls)
			}
			var m int
			var err error
			before := f.pos
			if p := pbt.Catch(func() { m, err = rd.ReadSamples(buf) }); p != nil {
				c.Fatalf("%s: reading %d samples panics: %v", descr, n, p)
			}
			if m < 0 || m > n {
				c.Fatalf("%s: a read of %d samples returns %d", descr, n, m)
			}
			for i := 0; i < m; i++ {
				if pos >= len(queue) {
					c.Fatalf("%s: more samples than were received: %v", descr, buf[i])
				}
				if buf[i] != queue[pos].v {
					c.Fatalf("%s: sample %d of %d is %v instead of %v", descr, pos, len(queue), buf[i], queue[pos].v)
				}
				pos++
			}
			if m > 0 {
				left++
			}
			if m > 0 && headers {
				d := f.script[queue[pos-1].dg].data
				want := borip.PacketHeader{Flags: d[0], Notification: d[1], Idx: uint16(d[2]) | uint16(d[3])<<8}
				if rd.Header() != want {
					c.Fatalf("%s: header %+v with samples of the datagram with header %+v", descr, rd.Header(), want)
				}
			}
			if err == nil {
				if m == 0 && n > 0 && f.pos == before {
					c.Fatalf("%s: a read of %d samples returns nothing without receiving", descr, n)
				}
				continue
			}
			if m == 0 && f.pos > before && f.script[f.pos-1].err != nil {
				if !errors.Is(err, f.script[f.pos-1].err) {
					c.Fatalf("%s: error %v instead of the connection's %v", descr, err, f.script[f.pos-1].err)
				}
				gotFails++
				continue
			}
			if m == 0 && f.pos > before && headers && len(f.script[f.pos-1].data) < 4 {
				gotShort++
				continue
			}
			if errors.Is(err, io.EOF) && f.pos == len(f.script) {
				break
			}
			c.Fatalf("%s: error %v after %d of %d datagrams", descr, err, f.pos, len(f.script))
		}
		if pos != len(queue) {
			c.Fatalf("%s: %d of %d samples delivered", descr, pos, len(queue))
		}
		if gotShort != short || gotFails != fails {
			c.Fatalf("%s: %d of %d short datagrams and %d of %d errors reported", descr, gotShort, short, gotFails, fails)
		}
		c.NonTrivial(len(queue) > 1)
		c.LabelIf(headers, "header mode")
		c.LabelIf(short > 0, "short datagram")
		c.LabelIf(fails > 0, "connection error")
		c.LabelIf(left > len(f.script), "datagram read in pieces")
		c.Samplef("%s, %d samples in %d reads", descr, len(queue), calls)
	})
}

// patience bounds every wait for the peer; nothing that works takes anywhere near as long.
const patience = 60 * time.Second

// serve accepts one connection and runs fn on it; the result of fn arrives on the channel.
func serve(ln net.Listener, fn func(conn *net.TCPConn, rd *bufio.Reader) error) (result chan error, ended func()) {
	ch := make(chan error, 1)
	conns := make(chan *net.TCPConn, 1)
	// ended says that the client is done with the connection: what is still to come is on its way
	ended = func() {
		select {
		case tc := <-conns:
			tc.SetDeadline(time.Now().Add(pbt.Patience(10 * time.Second)))
		case <-time.After(patience):
		}
	}
	go func() {
		conn, err := ln.Accept()
		if err != nil {
			ch <- err
			return
		}
		defer conn.Close()
		tc := conn.(*net.TCPConn)
		tc.SetDeadline(time.Now().Add(patience))
		conns <- tc
		ch <- fn(tc, bufio.NewReader(tc))
	}()
	return ch, ended
}

func listen(t *testing.T) net.Listener {
	log.SetOutput(io.Discard)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal("VERIF-ERROR cannot listen on the loopback interface: ", err)
	}
	return ln
}

// call is one client call with what is expected of it.
type call struct {
	name  string
	do    func(b *borip.BorIP) (result []any, err error)
	line  string  // expected command line, if it has no number
	word  string  // expected command word
	num   float64 // expected number
	isNum bool
	reply string
	ok    bool  // the reply is a success
	want  []any // expected results on success
	errs  []string
}

func drawFloat(r *pbt.Rng) float64 {
	switch r.Intn(7) {
	case 0:
		return float64(r.U64() % 3000000000)
	case 1:
		return float64(r.Range(-100, 100))
	case 2:
		return math.Round(r.F()*1e10) / 100
	case 3:
		return r.F() * math.Pow(10, float64(r.Range(-8, 20)))
	case 4:
		return -r.F() * math.Pow(10, float64(r.Range(-8, 12)))
	case 5:
		return []float64{0, 0.1, 1e6 + 0.5, 100.7e6, 1 << 53, 1<<53 + 2, 2.4e9, 123456789.123456789, 1e21, 5e-324, math.MaxFloat64, 0.30000000000000004}[r.Intn(12)]
	}
	for {
		if v := math.Float64frombits(r.U64()); v == v && !math.IsInf(v, 0) {
			return v
		}
	}
}

func drawWord(r *pbt.Rng, spaces bool) string {
	const chars = "abcXYZ0129.:-_/()!="
	n := r.Range(1, 12)
	b := make([]byte, n)
	for i := range b {
		b[i] = chars[r.Intn(len(chars))]
	}
	s := string(b)
	if spaces && r.Bool() {
		s += []string{" ", " ", " ", "  ", "\t", " - ", "   "}[r.Intn(7)] + drawWord(r, true)
	}
	return s
}

func num(r *pbt.Rng, v float64) string {
	if r.Bool() {
		return strconv.FormatFloat(v, 'g', -1, 64)
	}
	return strconv.FormatFloat(v, 'f', -1, 64)
}

type clientModel struct {
	device  *borip.Device
	running bool
	unsure  bool // the device was released while running
}

// drawCall draws a call and the reply a server gives to it.
func drawCall(r *pbt.Rng) call {
	var cl call
	fail := r.Intn(4) == 0
	setter := func(word, okArgs string) {
		cl.word = word
		if fail {
			kind := []string{"FAIL", "DEVICE", "RANGE", "-", "OKAY", "ok", "KO"}[r.Intn(7)]
			cl.reply = word + " " + kind
			cl.errs = []string{kind}
			if r.Bool() {
				m := strings.Join(strings.Fields(drawWord(r, true)), " ")
				cl.reply += " " + m
				cl.errs = append(cl.errs, m)
			}
			return
		}
		cl.ok = true
		cl.reply = word + " OK"
		if okArgs != "" {
			cl.reply += " " + okArgs
		}
	}
	number := func(do func(b *borip.BorIP, v float64) ([]any, error)) {
		cl.num, cl.isNum = drawFloat(r), true
		cl.do = func(b *borip.BorIP) ([]any, error) { return do(b, cl.num) }
	}
	query := func(word, value string) {
		cl.word, cl.line = word, word
		cl.reply, cl.ok = word+" "+value, true
	}
	extra := func() string {
		if r.Intn(3) == 0 {
			return " " + drawWord(r, true)
		}
		return ""
	}
	switch cl.name = []string{"SetFrequency", "Frequency", "SetAntenna", "Antenna", "SetRate", "Rate", "SetGain", "Gain", "SetDestination", "Destination",
		"SetHeaderEnabled", "HeaderEnabled", "Go", "Stop", "SelectDevice", "SelectDevice", "Release"}[r.Intn(17)]; cl.name {
	case "SetFrequency":
		number(func(b *borip.BorIP, v float64) ([]any, error) {
			a1, a2, a3, a4, err := b.SetFrequency(v)
			return []any{a1, a2, a3, a4}, err
		})
		vals := []float64{drawFloat(r), drawFloat(r), drawFloat(r), drawFloat(r)}
		n := 4 // the values may be missing, or only the first ones given
		if r.Intn(3) == 0 {
			n = r.Intn(4)
		}
		args := ""
		for i := range vals {
			if i < n {
				args += " " + num(r, vals[i])
			} else {
				vals[i] = 0
			}
		}
		setter("FREQ", strings.TrimSpace(args))
		cl.want = []any{vals[0], vals[1], vals[2], vals[3]}
	case "Frequency", "Rate", "Gain":
		v := drawFloat(r)
		word := map[string]string{"Frequency": "FREQ", "Rate": "RATE", "Gain": "GAIN"}[cl.name]
		cl.do = func(b *borip.BorIP) ([]any, error) {
			var v float64
			var err error
			switch word {
			case "FREQ":
				v, err = b.Frequency()
			case "RATE":
				v, err = b.Rate()
			default:
				v, err = b.Gain()
			}
			return []any{v}, err
		}
		query(word, num(r, v))
		cl.want = []any{v}
		if fail {
			cl.ok = false
			cl.reply = word + " DEVICE"
			if r.Bool() {
				cl.reply = word
			}
		}
	case "SetAntenna":
		a := drawWord(r, false)
		cl.line = "ANTENNA " + a
		cl.do = func(b *borip.BorIP) ([]any, error) { return nil, b.SetAntenna(a) }
		setter("ANTENNA", "")
	case "Antenna":
		a := drawWord(r, true)
		cl.do = func(b *borip.BorIP) ([]any, error) { v, err := b.Antenna(); return []any{v}, err }
		query("ANTENNA", a)
		cl.want = []any{a}
	case "SetRate":
		number(func(b *borip.BorIP, v float64) ([]any, error) { x, err := b.SetRate(v); return []any{x}, err })
		v := drawFloat(r)
		setter("RATE", num(r, v)+extra())
		cl.want = []any{v}
	case "SetGain":
		number(func(b *borip.BorIP, v float64) ([]any, error) { return nil, b.SetGain(v) })
		setter("GAIN", strings.TrimSpace(extra()))
	case "SetDestination":
		a, got := drawWord(r, false), drawWord(r, false)
		cl.line = "DEST " + a
		cl.do = func(b *borip.BorIP) ([]any, error) { v, err := b.SetDestination(a); return []any{v}, err }
		setter("DEST", got)
		cl.want = []any{got}
	case "Destination":
		a := drawWord(r, false)
		cl.do = func(b *borip.BorIP) ([]any, error) { v, err := b.Destination(); return []any{v}, err }
		query("DEST", a)
		cl.want = []any{a}
	case "SetHeaderEnabled":
		on := r.Bool()
		cl.line = "HEADER " + map[bool]string{true: "ON", false: "OFF"}[on]
		cl.do = func(b *borip.BorIP) ([]any, error) { return nil, b.SetHeaderEnabled(on) }
		setter("HEADER", "")
	case "HeaderEnabled":
		on := r.Bool()
		cl.do = func(b *borip.BorIP) ([]any, error) { v, err := b.HeaderEnabled(); return []any{v}, err }
		query("HEADER", map[bool]string{true: "ON", false: "OFF"}[on])
		cl.want = []any{on}
	case "Go", "Stop":
		goes := cl.name == "Go"
		cl.line = strings.ToUpper(cl.name)
		cl.do = func(b *borip.BorIP) ([]any, error) {
			if goes {
				return nil, b.Go()
			}
			return nil, b.Stop()
		}
		setter(cl.line, "")
	case "SelectDevice":
		hint := drawWord(r, true)
		cl.line, cl.word = "DEVICE "+hint, "DEVICE"
		d := &borip.Device{
			Name: drawWord(r, true), MinGain: drawFloat(r), MaxGain: drawFloat(r), GainStep: drawFloat(r), FPGAFreq: drawFloat(r),
			SamplesPerPacket: r.Range(0, 100000),
		}
		if d.Name[0] == '-' {
			d.Name = "x" + d.Name
		}
		for n := r.Range(1, 3); n > 0; n-- {
			d.ValidAntennas = append(d.ValidAntennas, drawWord(r, false))
		}
		st := strings.Join([]string{d.Name, num(r, d.MinGain), num(r, d.MaxGain), num(r, d.GainStep), num(r, d.FPGAFreq), strconv.Itoa(d.SamplesPerPacket), strings.Join(d.ValidAntennas, ",")}, "|")
		if r.Intn(3) != 0 {
			d.Serial = drawWord(r, true)
			st += "|" + d.Serial
		}
		cl.reply, cl.ok, cl.want = "DEVICE "+st, true, []any{d}
		if fail {
			m := strings.Join(strings.Fields(drawWord(r, true)), " ")
			cl.reply, cl.ok, cl.errs = "DEVICE - "+m, false, []string{m}
		}
		cl.do = func(b *borip.BorIP) ([]any, error) { v, err := b.SelectDevice(hint); return []any{v}, err }
	case "Release":
		cl.line, cl.word = "DEVICE !", "DEVICE"
		cl.reply, cl.ok, cl.want = "DEVICE -", true, []any{(*borip.Device)(nil)}
		cl.do = func(b *borip.BorIP) ([]any, error) { v, err := b.SelectDevice("!"); return []any{v}, err }
	}
	return cl
}

func showResults(v []any) string {
	var out []string
	for _, x := range v {
		if d, ok := x.(*borip.Device); ok && d != nil {
			out = append(out, fmt.Sprintf("%+v", *d))
			continue
		}
		out = append(out, fmt.Sprint(x))
	}
	return strings.Join(out, ", ")
}

func TestC24(t *testing.T) {
	ln := listen(t)
	defer ln.Close()
	pbt.Prop(t, "C24", 1, func(c *pbt.Case) {
		r := pbt.NewRng(c.T, "calls")
		calls := make([]call, rapid.IntRange(0, 14).Draw(c.T, "number of calls"))
		for i := range calls {
			calls[i] = drawCall(r)
		}
		defer debug.SetGCPercent(debug.SetGCPercent(-1)) // as in C25
		hello := []string{"DEVICE -\n", "DEVICE -\r\n", "DEVICE dev|1|2|3|4|5|a|b\n"}[r.Intn(3)]
		eol := []string{"\n", "\r\n"}[r.Intn(2)]
		closeFails := r.Intn(3) == 0
		pieces := r.Bool()
		replies := make(chan string, len(calls)+1)
		lines := make(chan string, len(calls)+8)
		extraLines := 0
		done, ended := serve(ln, func(conn *net.TCPConn, rd *bufio.Reader) error {
			send := func(s string) error {
				if pieces && len(s) > 3 {
					conn.Write([]byte(s[:len(s)/2]))
					s = s[len(s)/2:]
				}
				_, err := conn.Write([]byte(s))
				return err
			}
			if err := send(hello); err != nil {
				return err
			}
			for {
				line, err := rd.ReadString('\n')
				if err == io.EOF {
					if line != "" {
						return fmt.Errorf("unterminated command line %q", line)
					}
					conn.SetLinger(0)
					close(lines)
					return nil
				}
				if err != nil {
					return err
				}
				if rd.Buffered() > 0 {
					extraLines++
				}
				lines <- line
				if err := send(<-replies + eol); err != nil {
					return err
				}
			}
		})
		fatal := func(format string, args ...any) {
			c.Fatalf(format, args...)
		}
		fail := func(err error) {
			if err != nil {
				fatal("the server sees: %v", err)
			}
		}
		b, err := borip.Dial(ln.Addr().String())
		if err != nil {
			fatal("Dial: %v", err)
		}
		closed := false
		defer func() {
			if !closed { // a failure: let the server end
				close(replies)
				b.Close()
				ended()
				<-done
			}
		}()
		m := clientModel{}
		descr := ""
		failures := 0
		for i, cl := range calls {
			descr += fmt.Sprintf(" %s (%s)", cl.name, cl.reply)
			c.Key(cl.name, cl.reply, cl.line, cl.num)
			replies <- cl.reply
			var got []any
			var err error
			if p := pbt.Catch(func() { got, err = cl.do(b) }); p != nil {
				fatal("call %d %s with reply %q panics: %v", i, cl.name, cl.reply, p)
			}
			var line string
			select {
			case line = <-lines:
			case e := <-done:
				done <- e
				fail(e)
				fatal("call %d %s sends no command", i, cl.name)
			default:
				fatal("call %d %s returned (%v) without sending a command line", i, cl.name, err)
			}
			if len(lines) > 0 {
				fatal("call %d %s sends more than one line: %q, %q", i, cl.name, line, <-lines)
			}
			if strings.Count(line, "\n") != 1 || !strings.HasSuffix(line, "\n") {
				fatal("call %d %s sends %q", i, cl.name, line)
			}
			text := strings.TrimSuffix(strings.TrimSuffix(line, "\n"), "\r")
			if cl.isNum {
				f := strings.Split(text, " ")
				v := math.NaN()
				if len(f) == 2 {
					v, _ = strconv.ParseFloat(f[1], 64)
				}
				if len(f) != 2 || f[0] != cl.word || v != cl.num {
					fatal("call %d %s(%v) sends %q", i, cl.name, cl.num, line)
				}
			} else if text != cl.line {
				fatal("call %d %s sends %q instead of %q", i, cl.name, text, cl.line)
			}
			if cl.ok {
				if err != nil {
					fatal("call %d %s with reply %q: error %v", i, cl.name, cl.reply, err)
				}
				if showResults(got) != showResults(cl.want) {
					fatal("call %d %s with reply %q returns %s instead of %s", i, cl.name, cl.reply, showResults(got), showResults(cl.want))
				}
				switch cl.name {
				case "Go":
					m.running, m.unsure = true, false
				case "Stop":
					m.running, m.unsure = false, false
				case "SelectDevice":
					m.device = cl.want[0].(*borip.Device)
				case "Release":
					m.device = nil
					m.unsure = m.unsure || m.running
				}
			} else {
				failures++
				if err == nil {
					fatal("call %d %s with reply %q succeeds", i, cl.name, cl.reply)
				}
				for _, w := range cl.errs {
					if !strings.Contains(err.Error(), w) {
						fatal("call %d %s with reply %q: error %q", i, cl.name, cl.reply, err)
					}
				}
			}
			if showResults([]any{b.Device()}) != showResults([]any{m.device}) {
				fatal("after call %d %s with reply %q: device %s instead of %s", i, cl.name, cl.reply, showResults([]any{b.Device()}), showResults([]any{m.device}))
			}
		}
		go func() {
			for _, ok := range []bool{!closeFails, !closeFails, true, true} {
				s := "X OK"
				if !ok {
					s = "X FAIL nothing"
				}
				select {
				case replies <- s:
				case <-time.After(patience):
				}
			}
		}()
		if p := pbt.Catch(b.Close); p != nil {
			fatal("Close panics: %v", p)
		}
		closed = true
		ended()
		fail(<-done)
		var at []string
		for l := range lines {
			at = append(at, strings.TrimSpace(l))
		}
		var want []string
		if m.running {
			want = append(want, "STOP")
		}
		if m.device != nil {
			want = append(want, "DEVICE !")
		}
		if m.unsure && len(at) == len(want)-1 && at != nil {
			want = want[1:]
		}
		if m.unsure && len(at) == 0 && len(want) == 1 && want[0] == "STOP" {
			want = nil
		}
		if strings.Join(at, ";") != strings.Join(want, ";") {
			fatal("Close sends %q instead of %q after%s", at, want, descr)
		}
		if extraLines > 0 {
			fatal("several command lines were sent before the reply to the first")
		}
		c.NonTrivial(len(calls) > 0)
		c.LabelIf(failures > 0, "error replies")
		c.LabelIf(m.running, "closed while running")
		c.LabelIf(m.device != nil, "closed with a device")
		for _, cl := range calls {
			c.Label(cl.name)
		}
		c.Samplef("%d calls:%s; close sends %v", len(calls), descr, at)
	})
}

// drawReply draws what a server of any kind sends for one command.
func drawReply(r *pbt.Rng, valid string) string {
	garbage := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			switch r.Intn(4) {
			case 0:
				b[i] = " |\n\r-!\t\x00"[r.Intn(8)]
			case 1:
				b[i] = byte(r.U64())
			default:
				b[i] = "DEVICEOKFREQ0123456789."[r.Intn(23)]
			}
		}
		return string(b)
	}
	switch r.Intn(10) {
	case 9: // one value is not a number
		b := []byte(valid)
		var at []int
		for i, x := range b {
			if x >= '0' && x <= '9' && i > 4 {
				at = append(at, i)
			}
		}
		if len(at) > 0 {
			b[at[r.Intn(len(at))]] = "x-.,:"[r.Intn(5)]
		}
		return string(b) + "\n"
	case 0:
		return garbage(r.Intn(40))
	case 1:
		return garbage(r.Intn(40)) + "\n"
	case 2:
		return valid // never terminated
	case 3:
		return valid[:r.Intn(len(valid)+1)] + "\n"
	case 4: // damage one character
		b := []byte(valid)
		if len(b) > 0 {
			b[r.Intn(len(b))] = garbage(1)[0]
		}
		return string(b) + "\n"
	case 5: // drop or repeat a field
		sep := []string{" ", "|"}[r.Intn(2)]
		p := strings.Split(valid, sep)
		i := r.Intn(len(p))
		if r.Bool() {
			p = append(p[:i:i], p[i+1:]...)
		} else {
			p = append(p[:i+1:i+1], p[i:]...)
		}
		return strings.Join(p, sep) + "\n"
	case 6:
		if r.Intn(10) == 0 {
			return strings.Repeat(garbage(97), 800) + "\n"
		}
		return []string{"\n", " \n", "DEVICE \n", "DEVICE\n", "X OK\n", "X OK \n", "OK\n", " OK\n", "FREQ OK\n", "RATE OK\n", "DEST OK\n", "DEVICE -\n", "DEVICE - \n", "DEVICE |\n", "DEVICE |||||||\n", "DEVICE ||||||\n", "HEADER O\n", "X FAIL OK\n", "FREQ  OK\n", "X  OK\n"}[r.Intn(20)]
	case 7:
		return valid + "\n" + garbage(r.Intn(10)) + "\n"
	}
	return valid + "\n"
}

// sameNumber reports whether a field of a reply is a number, and this one.
func sameNumber(s string, v float64) bool {
	x, err := strconv.ParseFloat(strings.TrimSpace(s), 64)
	return err == nil && (x == v || x != x && v != v)
}

func TestC25(t *testing.T) {
	ln := listen(t)
	defer ln.Close()
	pbt.Prop(t, "C25", 1, func(c *pbt.Case) {
		// a connection left open must not be closed by the garbage collector
		defer debug.SetGCPercent(debug.SetGCPercent(-1))
		r := pbt.NewRng(c.T, "server")
		hello := "DEVICE -\n"
		if r.Intn(4) == 0 {
			hello = drawReply(r, "DEVICE -")
		}
		calls := make([]call, rapid.IntRange(0, 12).Draw(c.T, "number of calls"))
		replies := make([]string, len(calls))
		for i := range calls {
			calls[i] = drawCall(r)
			replies[i] = drawReply(r, calls[i].reply)
			c.Key(calls[i].name, replies[i])
		}
		c.Key(hello)
		abort := r.Intn(4) == 0 // reset the connection instead of closing it
		var sent bytes.Buffer
		early := ""
		var clientEnd error
		done, ended := serve(ln, func(conn *net.TCPConn, rd *bufio.Reader) error {
			answered := 0
			send := func(s string) bool { // false when nothing more can be sent
				sent.WriteString(s)
				if _, err := conn.Write([]byte(s)); err != nil {
					return false
				}
				return bytes.Count(sent.Bytes(), []byte("\n")) > answered
			}
			ok := send(hello)
			for i := 0; ok && i < len(replies); i++ {
				if _, err := rd.ReadString('\n'); err != nil {
					// closed by the client
					clientEnd = err
					return nil
				}
				answered++
				// lines sent too early answer later commands
				ok = send(replies[i])
			}
			if abort {
				conn.SetLinger(0)
				return nil
			}
			// no more replies: the client must end the connection
			conn.CloseWrite()
			for {
				line, err := rd.ReadString('\n')
				if err != nil {
					clientEnd = err
					early = line
					conn.SetLinger(0)
					return nil
				}
			}
		})
		type outcome struct {
			res []any
			err error
		}
		var outs []outcome
		var b *borip.BorIP
		var derr error
		if p := pbt.Catch(func() { b, derr = borip.Dial(ln.Addr().String()) }); p != nil {
			c.Fatalf("Dial with hello %q panics: %v", hello, p)
		}
		if (b == nil) == (derr == nil) {
			c.Fatalf("Dial with hello %q returns %v, %v", hello, b, derr)
		}
		if derr == nil {
			for i, cl := range calls {
				var o outcome
				if p := pbt.Catch(func() { o.res, o.err = cl.do(b) }); p != nil {
					c.Fatalf("call %d %s with reply %q panics: %v", i, cl.name, replies[i], p)
				}
				outs = append(outs, o)
			}
			if p := pbt.Catch(b.Close); p != nil {
				c.Fatalf("Close panics: %v", p)
			}
		}
		ended()
		if err := <-done; err != nil {
			c.Fatalf("server: %v", err)
		}
		if ne, ok := clientEnd.(net.Error); ok && ne.Timeout() {
			c.Fatalf("hello %q, replies %q: the client leaves the connection open", hello, replies)
		}
		_ = early
		lines := strings.SplitAfter(sent.String(), "\n")
		complete := func(i int) bool { return i < len(lines) && strings.HasSuffix(lines[i], "\n") }
		if derr == nil && !complete(0) {
			c.Fatalf("Dial succeeds without a complete hello: %q", hello)
		}
		if derr != nil && complete(0) && !abort {
			c.Fatalf("Dial with hello %q fails: %v", hello, derr)
		}
		success := 0
		for i, o := range outs {
			if o.err != nil {
				continue
			}
			success++
			cl := calls[i]
			if !complete(i + 1) {
				c.Fatalf("call %d %s succeeds with %s although its reply is not complete; the server sent %q", i, cl.name, showResults(o.res), sent.String())
			}
			line := strings.TrimSpace(lines[i+1])
			switch cl.name {
			case "SetFrequency", "SetAntenna", "SetRate", "SetGain", "SetDestination", "SetHeaderEnabled", "Go", "Stop":
				if f := strings.Split(line, " "); len(f) < 2 || f[1] != "OK" {
					c.Fatalf("call %d %s succeeds with reply %q", i, cl.name, line)
				}
			case "SelectDevice":
				d := o.res[0].(*borip.Device)
				if !strings.HasPrefix(line, "DEVICE ") || d == nil && line != "DEVICE -" {
					c.Fatalf("call %d SelectDevice returns %s with reply %q", i, showResults(o.res), line)
				}
				if d == nil {
					break
				}
				p := strings.Split(strings.TrimPrefix(line, "DEVICE "), "|")
				good := len(p) >= 7 && d.Name == p[0] && sameNumber(p[1], d.MinGain) && sameNumber(p[2], d.MaxGain) && sameNumber(p[3], d.GainStep) &&
					sameNumber(p[4], d.FPGAFreq) && sameNumber(p[5], float64(d.SamplesPerPacket)) && strings.Join(d.ValidAntennas, ",") == p[6]
				if !good {
					c.Fatalf("call %d SelectDevice returns %s with reply %q", i, showResults(o.res), line)
				}
			}
			switch cl.name {
			case "SetRate":
				if f := strings.Split(line, " "); len(f) < 3 || !sameNumber(f[2], o.res[0].(float64)) {
					c.Fatalf("call %d SetRate returns %s with reply %q", i, showResults(o.res), line)
				}
			case "Frequency", "Rate", "Gain":
				_, after, _ := strings.Cut(line, " ")
				if v := o.res[0].(float64); !sameNumber(after, v) && (len(line) < 6 || !sameNumber(line[5:], v)) {
					c.Fatalf("call %d %s returns %v with reply %q", i, cl.name, v, line)
				}
			}
		}
		c.NonTrivial(derr != nil || len(calls) > 0)
		c.LabelIf(derr != nil, "failed dial")
		c.LabelIf(success > 0, "some calls succeed")
		c.LabelIf(success < len(outs), "some calls fail")
		c.LabelIf(abort, "connection reset")
		c.Samplef("hello %q, %d calls, server sends %q", hello, len(calls), sent.String())
	})
}
