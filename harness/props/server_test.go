package props

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/samuel/go-dsp/borip"
	"pgregory.net/rapid"
	"verif/harness/pbt"
)

const (
	serverPort  = 28888
	srvPatience = 10 * time.Second
)

// simDev is a simulated receiver.
type simDev struct {
	name           string
	center, rate   int64
	gain           int64
	gains          []int64
	step           int64 // frequencies and rates are multiples
	xtal           int64
	brokenOpen     bool
	handle         int // 0: closed
	stream         *simStream
	pending        *simStream // stream to be connected
	opened, closed int
}

// simStream is a running ReadAsync.
type simStream struct {
	dev   *simDev
	conn  net.Conn
	ready chan struct{}
	ended bool
	busy  bool   // the callback runs, or has ended the stream
	seq   int    // packets sent
	dest  string // where they go
}

// rig runs one server process and plays the receivers.
type rig struct {
	c       *pbt.Case
	dir     string
	ln      net.Listener
	cmd     *exec.Cmd
	exited  chan error
	log     lockedBuffer
	lock    *os.File
	baseFds int

	mu      sync.Mutex
	devs    []*simDev
	handles map[int]*simDev
	next    int
	failing map[string]bool // receiver calls that fail at present
	faults  []string
	calls   int
}

type lockedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuffer) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (l *lockedBuffer) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

func (g *rig) fault(format string, a ...any) {
	g.faults = append(g.faults, fmt.Sprintf(format, a...))
}

// fatalf fails the case; what the server logged last is part of the message.
func (g *rig) fatalf(format string, a ...any) {
	s := g.log.String()
	if i := strings.Index(s, "DATA RACE"); i >= 0 {
		s = s[max(0, i-30):min(len(s), i+2500)]
	} else if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:min(len(s), i+1500)]
	} else if len(s) > 1200 {
		s = s[len(s)-1200:]
	}
	g.c.Fatalf("%s\nserver log: %s", fmt.Sprintf(format, a...), s)
}

func quantize(v, step int64) int64 { return v / step * step }

// answer plays the receivers; it is called with g.mu held.
func (g *rig) answer(op string, dev int, arg, arg2 int64) (v []int64, s string, fail string) {
	g.calls++
	switch op {
	case "GetDeviceCount":
		return []int64{int64(len(g.devs))}, "", ""
	case "GetDeviceName":
		if arg < 0 || int(arg) >= len(g.devs) {
			g.fault("GetDeviceName(%d) with %d receivers", arg, len(g.devs))
			return nil, "", "no such device"
		}
		return nil, g.devs[arg].name, ""
	case "Open":
		if arg < 0 || int(arg) >= len(g.devs) {
			g.fault("Open(%d) with %d receivers", arg, len(g.devs))
			return nil, "", "no such device"
		}
		d := g.devs[arg]
		if d.handle != 0 {
			g.fault("receiver %q is opened while it is open", d.name)
			return nil, "", "busy"
		}
		if d.brokenOpen {
			return nil, "", "simulated open failure"
		}
		g.next++
		d.handle = g.next
		d.opened++
		g.handles[g.next] = d
		return []int64{int64(g.next)}, "", ""
	}
	d := g.handles[dev]
	if d == nil || d.handle != dev {
		g.fault("%s on a receiver that has been closed", op)
		return nil, "", "closed"
	}
	if op == "Close" {
		d.handle = 0
		d.closed++
		delete(g.handles, dev)
		return nil, "", ""
	}
	if g.failing[op] {
		return nil, "", "simulated failure"
	}
	switch op {
	case "ResetBuffer", "SetAGCMode":
	case "SetCenterFreq":
		d.center = quantize(arg, d.step)
	case "SetSampleRate":
		d.rate = quantize(arg, d.step)
	case "SetTunerGain":
		d.gain = arg
	case "GetCenterFreq":
		return []int64{d.center}, "", ""
	case "GetSampleRate":
		return []int64{d.rate}, "", ""
	case "GetTunerGain":
		return []int64{d.gain}, "", ""
	case "GetTunerGains":
		return d.gains, "", ""
	case "GetXtalFreq":
		return []int64{28800000, d.xtal}, "", ""
	case "ReadAsync":
		if arg < 1 || arg2 < 1 {
			g.fault("ReadAsync with %d buffers of %d bytes", arg, arg2)
		}
		if d.stream != nil && !d.stream.ended && !d.stream.busy {
			g.fault("a stream is started on receiver %q while one is running", d.name)
			return nil, "", "busy"
		}
		d.stream = &simStream{dev: d, ready: make(chan struct{})}
		d.pending = d.stream
	default:
		return nil, "", "unknown call " + op
	}
	return nil, "", ""
}

func (g *rig) serve(conn net.Conn) {
	br := bufio.NewReader(conn)
	first, err := br.Peek(1)
	if err != nil {
		conn.Close()
		return
	}
	if first[0] != '{' { // a stream
		g.mu.Lock()
		d := g.handles[int(first[0])]
		if d != nil && d.pending != nil {
			d.pending.conn = conn
			close(d.pending.ready)
			d.pending = nil
		}
		g.mu.Unlock()
		return
	}
	dec, enc := json.NewDecoder(br), json.NewEncoder(conn)
	for {
		var q struct {
			Op        string
			Dev       int
			Arg, Arg2 int64
		}
		if dec.Decode(&q) != nil {
			conn.Close()
			return
		}
		g.mu.Lock()
		v, s, fail := g.answer(q.Op, q.Dev, q.Arg, q.Arg2)
		g.mu.Unlock()
		enc.Encode(map[string]any{"V": v, "S": s, "Err": fail})
	}
}

var serverLock *os.File

// newRig draws the receivers and starts the server.
func newRig(c *pbt.Case, dir string, healthy bool) *rig {
	g := &rig{c: c, handles: map[int]*simDev{}, exited: make(chan error, 1), failing: map[string]bool{}}
	n := rapid.SampledFrom([]int{1, 1, 2, 3, 0}).Draw(c.T, "receivers")
	for i := 0; i < n; i++ {
		d := &simDev{
			name:   []string{"Generic RTL2832U OEM", "ezcap USB 2.0 DVB-T/DAB/FM dongle", "R820T"}[i],
			step:   rapid.SampledFrom([]int64{1, 100, 7}).Draw(c.T, "tuning step"),
			gain:   int64(rapid.IntRange(-50, 500).Draw(c.T, "initial gain")),
			center: 100000000, rate: 2048000,
			xtal:       int64(rapid.SampledFrom([]int{28800000, 28800123, 0}).Draw(c.T, "tuner clock")),
			brokenOpen: rapid.IntRange(0, 7).Draw(c.T, "cannot be opened") == 7,
		}
		for k, v := rapid.SampledFrom([]int{5, 29, 2, 1, 0}).Draw(c.T, "gain settings"), int64(-99); k > 0; k-- {
			d.gains = append(d.gains, v)
			v += int64(rapid.IntRange(1, 60).Draw(c.T, "gain step"))
		}
		if i == 1 && rapid.IntRange(0, 5).Draw(c.T, "nameless") == 5 {
			d.name = ""
		}
		if healthy {
			d.brokenOpen = false
			if d.name == "" {
				d.name = "second"
			}
		}
		g.devs = append(g.devs, d)
	}
	// one server at a time: its port is fixed
	if serverLock == nil {
		f, err := os.OpenFile(filepath.Join(os.TempDir(), "verif-boripserver.lock"), os.O_CREATE|os.O_RDWR, 0o600)
		if err != nil {
			c.Fatalf("VERIF-ERROR %v", err)
		}
		serverLock = f
	}
	if err := syscall.Flock(int(serverLock.Fd()), syscall.LOCK_EX); err != nil {
		c.Fatalf("VERIF-ERROR %v", err)
	}
	g.lock = serverLock
	pbt.Restart() // waiting for the lock is not part of the case
	sock := filepath.Join(dir, "rtl")
	os.Remove(sock)
	ln, err := net.Listen("unix", sock)
	if err != nil {
		g.stop()
		c.Fatalf("VERIF-ERROR %v", err)
	}
	g.ln = ln
	go func() {
		for {
			conn, err := ln.Accept()
			if err != nil {
				return
			}
			go g.serve(conn)
		}
	}()
	g.cmd = exec.Command(serverProgram())
	g.cmd.Env = append(os.Environ(), "RTLSIM="+sock, "GOMAXPROCS=4", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	g.cmd.Dir = dir
	g.cmd.Stderr = &g.log
	g.cmd.Stdout = &g.log
	if err := g.cmd.Start(); err != nil {
		g.stop()
		c.Fatalf("VERIF-ERROR %v", err)
	}
	go func() { g.exited <- g.cmd.Wait() }()
	return g
}

func serverProgram() string {
	if os.Getenv("VERIF_CONFIG") == "race" {
		if p := os.Getenv("VERIF_BORIPSERVER_RACE"); p != "" {
			return p
		}
	}
	return os.Getenv("VERIF_BORIPSERVER")
}

// stop ends the server, whatever state it is in, and lets the next case go on.
func (g *rig) stop() {
	if g.cmd != nil && g.cmd.Process != nil {
		g.cmd.Process.Kill()
		select {
		case <-g.exited:
		case <-time.After(srvPatience):
		}
		g.cmd = nil
	}
	if g.ln != nil {
		g.ln.Close()
	}
	if g.lock != nil {
		syscall.Flock(int(g.lock.Fd()), syscall.LOCK_UN)
		g.lock = nil
	}
}

// dial connects to the server from a loopback address.
func (g *rig) dial(from string) net.Conn {
	d := net.Dialer{LocalAddr: &net.TCPAddr{IP: net.ParseIP(from)}, Timeout: srvPatience}
	end := time.Now().Add(srvPatience)
	for {
		conn, err := d.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", serverPort))
		if err == nil {
			return conn
		}
		select {
		case e := <-g.exited:
			g.exited <- e
			if strings.Contains(g.log.String(), "address already in use") {
				g.c.Fatalf("VERIF-ERROR port %d is taken", serverPort)
			}
			g.fatalf("the server ended (%v) and accepts no connections", e)
		default:
		}
		if time.Now().After(end) {
			g.fatalf("the server accepts no connections: %v", err)
		}
		time.Sleep(time.Millisecond)
	}
}

// sockets counts the server's open sockets.
func (g *rig) sockets() int {
	fds, _ := filepath.Glob(fmt.Sprintf("/proc/%d/fd/*", g.cmd.Process.Pid))
	n := 0
	for _, f := range fds {
		if l, err := os.Readlink(f); err == nil && strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return n
}

// check reports what the receivers noticed and a server that has died.
func (g *rig) check(when string) {
	g.mu.Lock()
	f := append([]string{}, g.faults...)
	g.mu.Unlock()
	if len(f) > 0 {
		g.fatalf("%s: %s", when, f[0])
	}
	select {
	case e := <-g.exited:
		g.exited <- e
		g.fatalf("%s: the server has ended: %v", when, e)
	default:
	}
}

// eventually waits for a condition.
func (g *rig) eventually(what string, cond func() bool) {
	end := time.Now().Add(pbt.Patience(srvPatience))
	for !cond() {
		if time.Now().After(end) {
			g.check(what)
			g.fatalf("%s: not so after %v", what, pbt.Patience(srvPatience))
		}
		time.Sleep(200 * time.Microsecond)
	}
}

// finish checks that nothing is left and that the server ends in order.
func (g *rig) finish() {
	g.eventually("all receivers are released once the clients are gone", func() bool {
		g.mu.Lock()
		defer g.mu.Unlock()
		return len(g.handles) == 0
	})
	g.check("at the end")
	if g.baseFds > 0 {
		g.eventually("the sockets of connections and streams are closed once they are over", func() bool { return g.sockets() <= g.baseFds })
	}
	g.cmd.Process.Signal(os.Interrupt)
	select {
	case e := <-g.exited:
		g.exited <- e
		// early in its life the server does not handle the signal itself
		if x, ok := e.(*exec.ExitError); ok && x.Sys().(syscall.WaitStatus).Signal() == syscall.SIGINT {
			e = nil
		}
		if e != nil {
			g.fatalf("the server ended with %v", e)
		}
	case <-time.After(pbt.Patience(srvPatience)):
		g.fatalf("the server does not end on SIGINT")
	}
	if s := g.log.String(); strings.Contains(s, "DATA RACE") {
		g.fatalf("data race in the server")
	}
}

// feed gives the server a buffer of samples and reports whether it ends the stream.
func (g *rig) feed(s *simStream, b []byte) bool {
	m := binary.LittleEndian.AppendUint32(nil, uint32(len(b)))
	s.conn.SetDeadline(time.Now().Add(pbt.Patience(srvPatience)))
	if _, err := s.conn.Write(append(m, b...)); err != nil {
		g.check("delivering a buffer")
		g.fatalf("delivering a buffer: %v", err)
	}
	var r [1]byte
	if _, err := io.ReadFull(s.conn, r[:]); err != nil {
		g.check("delivering a buffer")
		g.fatalf("the server does not take a buffer: %v", err)
	}
	return r[0] == 1
}

// end lets the receiver stop: by itself, or as the last word on a stream ended by the server.
func (g *rig) end(s *simStream, nilToo bool) {
	g.mu.Lock()
	s.ended = true
	g.mu.Unlock()
	s.conn.SetDeadline(time.Now().Add(pbt.Patience(srvPatience)))
	if nilToo {
		s.conn.Write([]byte{0xff, 0xff, 0xff, 0xff})
		var r [1]byte
		if _, err := io.ReadFull(s.conn, r[:]); err != nil {
			g.check("when the receiver stops")
			g.fatalf("the server does not notice that the receiver stops: %v", err)
		}
	} else {
		s.conn.Write([]byte{0xfe, 0xff, 0xff, 0xff})
	}
	s.conn.Close()
}

// srvClient is one connection and what the server should know about it.
type srvClient struct {
	g      *rig
	name   string
	from   string
	conn   net.Conn
	rd     *bufio.Reader
	crlf   bool
	dev    *simDev
	stream *simStream
	dest   string
}

func (k *srvClient) send(line string) {
	nl := "\n"
	if k.crlf {
		nl = "\r\n"
	}
	k.conn.SetDeadline(time.Now().Add(pbt.Patience(srvPatience)))
	if _, err := io.WriteString(k.conn, line+nl); err != nil {
		k.g.check(fmt.Sprintf("sending %q", line))
		k.g.fatalf("sending %q: %v", line, err)
	}
}

func (k *srvClient) reply(to string) []string {
	k.conn.SetDeadline(time.Now().Add(pbt.Patience(srvPatience)))
	l, err := k.rd.ReadString('\n')
	if err != nil {
		k.g.check(fmt.Sprintf("%s: after %q", k.name, to))
		k.g.fatalf("%s: no reply to %q: %v (got %q)", k.name, to, err, l)
	}
	k.g.check(fmt.Sprintf("%s: after %q", k.name, to))
	l = strings.TrimSuffix(strings.TrimSuffix(l, "\n"), "\r")
	f := strings.Split(l, " ")
	if len(f) < 2 || f[0] != strings.ToUpper(strings.Split(strings.TrimSpace(to), " ")[0]) {
		k.g.fatalf("%s: %q is answered by %q", k.name, to, l)
	}
	return f
}

// pump gives the stream buffers until the server ends it, starting after a while.
func (k *srvClient) pump(after time.Duration, nilToo bool, udp *udpSink) chan struct{} {
	s, done := k.stream, make(chan struct{})
	k.stream = nil
	if s == nil {
		close(done)
		return done
	}
	go func() {
		defer close(done)
		time.Sleep(after)
		limit := time.Now().Add(pbt.Patience(srvPatience))
		m := []byte{4, 0, 0, 0, 1, 2, 3, 4}
		for {
			s.conn.SetDeadline(limit)
			k.g.setBusy(s, true)
			if _, err := s.conn.Write(m); err != nil {
				break
			}
			var r [1]byte
			if _, err := io.ReadFull(s.conn, r[:]); err != nil {
				break
			}
			if r[0] == 1 {
				k.g.end(s, nilToo)
				return
			}
			k.g.setBusy(s, false)
			udp.extra(1)
			time.Sleep(500 * time.Microsecond)
		}
		k.g.mu.Lock()
		k.g.fault("the stream of %s does not end", k.name)
		k.g.mu.Unlock()
	}()
	return done
}

// sendTogether sends lines in one segment, or in pieces cut anywhere.
func (k *srvClient) sendTogether(lines []string, r *pbt.Rng) {
	nl := "\n"
	if k.crlf {
		nl = "\r\n"
	}
	b := []byte(strings.Join(lines, nl) + nl)
	k.conn.SetDeadline(time.Now().Add(pbt.Patience(srvPatience)))
	for len(b) > 0 {
		n := len(b)
		if r.Intn(3) == 0 {
			n = 1 + r.Intn(n)
		}
		if _, err := k.conn.Write(b[:n]); err != nil {
			k.g.check(fmt.Sprintf("sending %q", lines))
			k.g.fatalf("sending %q: %v", lines, err)
		}
		if b = b[n:]; len(b) > 0 {
			time.Sleep(time.Millisecond)
		}
	}
}

// anyFrequency and anyRate are mostly what receivers support, at times anything they could.
func anyFrequency(c *pbt.Case, r *pbt.Rng) int64 {
	if r.Intn(4) == 0 {
		return int64(r.U64() >> (32 + uint(r.Intn(32))))
	}
	return int64(rapid.IntRange(24000000, 1766000000).Draw(c.T, "frequency"))
}

func anyRate(c *pbt.Case, r *pbt.Rng) int64 {
	if r.Intn(4) == 0 {
		return int64(r.U64() >> (32 + uint(r.Intn(32))))
	}
	return int64(rapid.IntRange(225001, 3200000).Draw(c.T, "rate"))
}

// udpSink receives the packets of streams.
type udpSink struct {
	conn *net.UDPConn
	addr string
	ch   chan []byte
	mu   sync.Mutex
	late int // packets that may follow because a stream was being stopped
}

func newSink(addr string) (*udpSink, error) {
	a, err := net.ResolveUDPAddr("udp", addr)
	if err != nil {
		return nil, err
	}
	conn, err := net.ListenUDP("udp", a)
	if err != nil {
		return nil, err
	}
	conn.SetReadBuffer(1 << 20)
	u := &udpSink{conn: conn, addr: conn.LocalAddr().String(), ch: make(chan []byte, 1<<12)}
	go func() {
		buf := make([]byte, 1<<16)
		for {
			n, _, err := conn.ReadFrom(buf)
			if err != nil {
				close(u.ch)
				return
			}
			u.ch <- append([]byte{}, buf[:n]...)
		}
	}()
	return u, nil
}

func (u *udpSink) extra(n int) {
	if u != nil {
		u.mu.Lock()
		u.late += n
		u.mu.Unlock()
	}
}

// drain takes the packets of the buffers delivered while a stream was being stopped.
func (u *udpSink) drain(g *rig, when string) {
	u.mu.Lock()
	n := u.late
	u.late = 0
	u.mu.Unlock()
	for ; n > 0; n-- {
		select {
		case <-u.ch:
		case <-time.After(pbt.Patience(srvPatience)):
			g.fatalf("%s: a buffer was taken but no packet was sent", when)
		}
	}
}

func (u *udpSink) quiet(g *rig, when string) {
	u.drain(g, when)
	select {
	case p := <-u.ch:
		g.fatalf("%s: unexpected packet of %d bytes (% x...) at %s", when, len(p), p[:min(len(p), 8)], u.addr)
	default:
	}
}

// packets checks the packets that one buffer gives.
func (g *rig) packets(s *simStream, u *udpSink, buf []byte) {
	var got []byte
	for len(got) < 2*len(buf) {
		var p []byte
		select {
		case p = <-u.ch:
		case <-time.After(pbt.Patience(srvPatience)):
			g.check("streaming")
			g.fatalf("buffer of %d bytes: only %d bytes of samples arrive at %s, %d packets before", len(buf), len(got), u.addr, s.seq)
		}
		if len(p) < 4 {
			g.fatalf("packet %d of the stream has %d bytes", s.seq, len(p))
		}
		flags := byte(0)
		if s.seq == 0 {
			flags = 0x10
		}
		if p[0] != flags || p[1] != 0 || binary.LittleEndian.Uint16(p[2:]) != uint16(s.seq) {
			g.fatalf("packet %d of the stream has the header % x", s.seq, p[:4])
		}
		if len(p)-4 > 4096*4 {
			g.fatalf("packet %d of the stream carries %d bytes, more than the %d samples announced", s.seq, len(p)-4, 4096)
		}
		s.seq++
		got = append(got, p[4:]...)
	}
	for i, b := range got {
		if i/2 >= len(buf) || b != buf[i/2]^0x80 {
			g.fatalf("buffer of %d bytes: byte %d of its samples is %#x", len(buf), i, b)
		}
	}
}

func closeTo(s string, v float64) bool {
	x, err := strconv.ParseFloat(s, 64)
	return err == nil && x-v <= 1e-6 && v-x <= 1e-6
}

var receiverCalls = []string{"ResetBuffer", "SetAGCMode", "SetCenterFreq", "SetSampleRate", "SetTunerGain", "GetCenterFreq", "GetSampleRate", "GetTunerGain", "GetTunerGains", "GetXtalFreq"}

// The settings of a receiver.
func (g *rig) center(d *simDev) int64 { g.mu.Lock(); defer g.mu.Unlock(); return d.center }
func (g *rig) rate(d *simDev) int64   { g.mu.Lock(); defer g.mu.Unlock(); return d.rate }
func (g *rig) gain(d *simDev) int64   { g.mu.Lock(); defer g.mu.Unlock(); return d.gain }
func (g *rig) open(d *simDev) bool    { g.mu.Lock(); defer g.mu.Unlock(); return d.handle != 0 }

func (d *simDev) String() string {
	return fmt.Sprintf("%q, gains %v, tuner clock %d, tuning steps of %d", d.name, d.gains, d.xtal, d.step)
}

func (g *rig) setBusy(s *simStream, b bool) { g.mu.Lock(); defer g.mu.Unlock(); s.busy = b }

// fails reports whether a receiver call fails at present.
func (g *rig) fails(op string) bool {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.failing[op]
}

func (g *rig) setFailing(ops ...string) {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.failing = map[string]bool{}
	for _, o := range ops {
		g.failing[o] = true
	}
}

// free counts the receivers that a client could get.
func (g *rig) free(releasing *simDev) int {
	g.mu.Lock()
	defer g.mu.Unlock()
	n := 0
	for _, d := range g.devs {
		if d.name != "" && !d.brokenOpen && (d.handle == 0 || d == releasing) {
			n++
		}
	}
	return n
}

// stopDelay draws how long a receiver takes until it delivers a buffer after its stream is to end.
func stopDelay(c *pbt.Case, streaming bool) time.Duration {
	ms := rapid.SampledFrom([]int{0, 0, 0, 2, 10}).Draw(c.T, "delay ms")
	if !streaming {
		return time.Duration(ms) * time.Millisecond
	}
	if r := pbt.NewRng(c.T, "slow receiver"); r.Intn(90) == 0 {
		ms = []int{150, 300, 600, 1500}[r.Intn(4)]
		c.Label("a receiver is slow to end its stream")
	}
	return time.Duration(ms) * time.Millisecond
}

// An address no socket can be connected to, as it is link-local and lacks a zone.
const unreachable = "[fe80::1]:5000"

func TestC28(t *testing.T) {
	if serverProgram() == "" {
		t.Skip("VERIF_BORIPSERVER not set")
	}
	dir := t.TempDir()
	pbt.Prop(t, "C28", 1, func(c *pbt.Case) {
		g := newRig(c, dir, false)
		defer g.stop()
		clients := []*srvClient{{g: g, name: "client 1", from: "127.0.0.1"}, {g: g, name: "client 2", from: "127.0.0.2"}}
		sinks := map[string]*udpSink{}
		defer func() {
			for _, u := range sinks {
				u.conn.Close()
			}
		}()
		var other []string
		for _, a := range []string{"127.0.0.1:28888", "127.0.0.2:28888", "127.0.0.1:0", "127.0.0.1:0"} {
			u, err := newSink(a)
			if err != nil {
				c.Fatalf("VERIF-ERROR %v", err)
			}
			sinks[u.addr] = u
			if strings.HasSuffix(a, ":0") {
				other = append(other, u.addr)
			}
		}
		g.dial("127.0.0.3").Close()
		g.eventually("the first connection is over", func() bool { n := g.sockets(); g.baseFds = n; return n == 2 || n == 3 })
		r := pbt.NewRng(c.T, "samples")
		history := ""
		streams, stops, cut, failures := 0, 0, 0, 0
		// settle waits for the end of a stream that is being stopped
		settle := func(k *srvClient, done chan struct{}, s *simStream) {
			select {
			case <-done:
			case <-time.After(2 * pbt.Patience(srvPatience)):
				g.fatalf("%s: the stream does not end", k.name)
			}
			if s != nil {
				sinks[s.dest].drain(g, k.name+": stopping")
			}
			g.check(k.name + ": stopping")
		}
		hangUp := func(k *srvClient) {
			s, d := k.stream, k.dev
			history += " " + k.name + " hangs up;"
			var sink *udpSink
			if s != nil {
				sink = sinks[s.dest]
				cut++
			}
			done := k.pump(stopDelay(c, s != nil), rapid.Bool().Draw(c.T, "nil after"), sink)
			if r.Intn(3) == 0 {
				k.conn.(*net.TCPConn).SetLinger(0) // a reset
			}
			k.conn.Close()
			k.conn = nil
			settle(k, done, s)
			if d != nil {
				g.eventually(k.name+" has hung up: its receiver is released", func() bool {
					g.mu.Lock()
					defer g.mu.Unlock()
					return d.handle == 0
				})
			}
			k.dev, k.stream = nil, nil
		}
		steps := rapid.IntRange(1, 30).Draw(c.T, "steps")
		for i := 0; i < steps; i++ {
			k := clients[0]
			if rapid.IntRange(0, 3).Draw(c.T, "client") == 3 {
				k = clients[1]
			}
			if k.conn == nil {
				k.conn = g.dial(k.from)
				k.rd = bufio.NewReader(k.conn)
				k.crlf = rapid.Bool().Draw(c.T, "crlf")
				k.dest = fmt.Sprintf("%s:%d", k.from, serverPort)
				if f := k.reply("DEVICE"); len(f) != 2 || f[1] != "-" {
					g.fatalf("%s is greeted with %q", k.name, f)
				}
				history += " " + k.name + " connects;"
			}
			if rapid.IntRange(0, 5).Draw(c.T, "failure") == 5 {
				op := rapid.SampledFrom(receiverCalls).Draw(c.T, "failing call")
				g.setFailing(op)
				failures++
				history += " (" + op + " fails)"
			} else {
				g.setFailing()
			}
			cmd := rapid.SampledFrom([]string{"DEVICE", "DEVICE", "GO", "GO", "STOP", "buffer", "buffer", "buffer", "FREQ", "RATE", "GAIN", "ANTENNA", "DEST", "!", "other", "hang up", "unplugged", "FREQ?", "RATE?", "GAIN?", "DEST?", "together", "blank", "race", "visits"}).Draw(c.T, "command")
			if k.dev == nil && rapid.IntRange(0, 2).Draw(c.T, "wants a receiver") > 0 {
				cmd = "DEVICE"
			} else if k.dev != nil && k.stream == nil && rapid.IntRange(0, 3).Draw(c.T, "wants samples") == 0 {
				cmd = "GO"
			}
			history += " " + cmd + ";"
			spell := func(s string) string {
				if rapid.IntRange(0, 3).Draw(c.T, "lower case") == 0 {
					return strings.ToLower(s)
				}
				return s
			}
			// more appends words that no command looks at
			more := func(line string) string {
				if r.Intn(6) == 0 {
					line += " " + []string{"x", "1", "-", "!", "ON 2", "a b c d e f g h i", strings.Repeat("y ", 60) + "z"}[r.Intn(7)]
				}
				return line
			}
			bad := func(f []string, what string, oks ...string) {
				for _, o := range oks {
					if f[1] == o {
						return
					}
				}
				g.fatalf("%s: %s is answered by %q (history:%s)", k.name, what, strings.Join(f, " "), history)
			}
			set := func(name string, v int64, get func() int64) {
				arg := strconv.FormatInt(v, 10)
				form := rapid.IntRange(0, 4).Draw(c.T, "form")
				switch form {
				case 0:
					arg += ".000000"
				case 1:
					arg = rapid.SampledFrom([]string{"abc", "", "1.2.3", "12x", "--5"}).Draw(c.T, "malformed")
				}
				line := spell(name) + " " + arg
				if arg == "" {
					// a query: the line is trimmed
					line = spell(name) + " ?"
				}
				line = more(line)
				k.send(line)
				f := k.reply(line)
				if k.dev == nil {
					bad(f, line, "DEVICE")
					return
				}
				sop := map[string]string{"FREQ": "SetCenterFreq", "RATE": "SetSampleRate", "GAIN": "SetTunerGain"}[name]
				gop := "G" + sop[1:]
				if form == 1 || g.fails(sop) || g.fails(gop) {
					bad(f, line, "FAIL")
					return
				}
				bad(f, line, "OK")
				g.mu.Lock()
				now := get()
				g.mu.Unlock()
				want := v
				if name != "GAIN" {
					want = quantize(v, k.dev.step)
				}
				if now != want {
					g.fatalf("%s: after %q the receiver is set to %d", k.name, line, now)
				}
				if name == "FREQ" {
					if len(f) < 4 || !closeTo(f[2], float64(v)) || !closeTo(f[3], float64(now)) {
						g.fatalf("%s: %s is answered by %q; the receiver is set to %d", k.name, line, strings.Join(f, " "), now)
					}
				} else if len(f) != 3 || !closeTo(f[2], float64(now)) {
					g.fatalf("%s: %s is answered by %q; the receiver is set to %d", k.name, line, strings.Join(f, " "), now)
				}
			}
			query := func(name string, get func() int64, line string, f []string) {
				if k.dev == nil {
					bad(f, line, "DEVICE")
					return
				}
				if g.fails("Get" + map[string]string{"FREQ": "CenterFreq", "RATE": "SampleRate", "GAIN": "TunerGain"}[name]) {
					bad(f, line, "-")
					return
				}
				g.mu.Lock()
				now := get()
				g.mu.Unlock()
				if len(f) != 2 || !closeTo(f[1], float64(now)) {
					g.fatalf("%s: %s is answered by %q; the receiver is set to %d", k.name, line, strings.Join(f, " "), now)
				}
			}
			freq := func() int64 { return k.dev.center }
			rate := func() int64 { return k.dev.rate }
			gain := func() int64 { return k.dev.gain }
			delay := stopDelay(c, k.stream != nil && (cmd == "STOP" || cmd == "DEVICE" || cmd == "!"))
			nilToo := rapid.Bool().Draw(c.T, "nil after")
			sinkOf := func(s *simStream) *udpSink {
				if s == nil {
					return nil
				}
				return sinks[s.dest]
			}
			goCommand := func() {
				before := (*simStream)(nil)
				g.mu.Lock()
				if k.dev != nil {
					before = k.dev.stream
				}
				g.mu.Unlock()
				k.send(more(spell("GO")))
				f := k.reply("GO")
				switch {
				case k.dev == nil:
					bad(f, "GO without a receiver", "DEVICE")
				case k.stream != nil:
					bad(f, "GO while streaming", "RUNNING")
				case g.fails("ResetBuffer") || k.dest == unreachable:
					bad(f, "GO that cannot work", "FAIL")
				default:
					bad(f, "GO", "OK")
					g.mu.Lock()
					s := k.dev.stream
					started := s != nil && s != before && !s.ended
					g.mu.Unlock()
					if !started {
						g.fatalf("%s: GO is answered OK but no stream is started", k.name)
					}
					select {
					case <-s.ready:
					case <-time.After(pbt.Patience(srvPatience)):
						g.fatalf("%s: the stream does not start", k.name)
					}
					s.dest = k.dest
					k.stream = s
					streams++
				}
			}
			switch cmd {
			case "DEVICE":
				line := spell(rapid.SampledFrom([]string{"DEVICE", "DEVICE -"}).Draw(c.T, "form"))
				if line = more(line); strings.Contains(line, " ") && !strings.HasPrefix(strings.ToUpper(line), "DEVICE -") {
					line = "DEVICE -" + line[len("DEVICE"):]
				}
				opened := map[*simDev]int{}
				g.mu.Lock()
				for _, d := range g.devs {
					opened[d] = d.opened
				}
				g.mu.Unlock()
				free := g.free(k.dev)
				s := k.stream
				done := k.pump(delay, nilToo, sinkOf(s))
				k.send(line)
				f := k.reply(line)
				settle(k, done, s)
				k.dev, k.stream = nil, nil
				if free == 0 {
					bad(f, line, "-")
					break
				}
				g.mu.Lock()
				var now []*simDev
				for _, d := range g.devs {
					if d.opened > opened[d] && d.handle != 0 {
						now = append(now, d)
					}
				}
				g.mu.Unlock()
				p := strings.Split(strings.Join(f[1:], " "), "|")
				if len(now) != 1 || len(p) < 7 || p[0] != now[0].name {
					g.fatalf("%s: with %d receivers available %q is answered by %q, %d opened", k.name, free, line, strings.Join(f, " "), len(now))
				}
				k.dev = now[0]
				n := len(k.dev.gains)
				okGain := g.fails("GetTunerGains") || n == 0 || closeTo(p[1], float64(k.dev.gains[0])) && closeTo(p[2], float64(k.dev.gains[n-1])) && (n == 1 || closeTo(p[3], float64(k.dev.gains[1]-k.dev.gains[0])))
				if !okGain || p[5] != "4096" || !g.fails("GetXtalFreq") && !closeTo(p[4], float64(k.dev.xtal)) {
					g.fatalf("%s: %q is answered by %q for a receiver with gains %v and tuner clock %d", k.name, line, strings.Join(f, " "), k.dev.gains, k.dev.xtal)
				}
			case "race": // both clients want a receiver at once
				x := clients[0]
				if x == k {
					x = clients[1]
				}
				if x.conn == nil || k.stream != nil || x.stream != nil {
					break
				}
				free, opened := g.free(nil), map[*simDev]int{}
				g.mu.Lock()
				for _, d := range g.devs {
					opened[d] = d.opened
				}
				g.mu.Unlock()
				had := 0
				for _, y := range []*srvClient{k, x} {
					if y.dev != nil {
						had++
					}
					y.dev = nil
				}
				lines := [2]string{"DEVICE", "DEVICE"}
				if rapid.IntRange(0, 3).Draw(c.T, "release") == 0 {
					lines[1] = "DEVICE !"
				}
				k.send(lines[0])
				x.send(lines[1])
				got := 0
				for i, y := range []*srvClient{k, x} {
					f := y.reply(lines[i])
					if f[1] == "-" {
						continue
					}
					got++
					if i == 1 && lines[1] == "DEVICE !" {
						bad(f, lines[1], "-")
					}
					p := strings.Split(strings.Join(f[1:], " "), "|")
					g.mu.Lock()
					for _, d := range g.devs {
						if d.opened > opened[d] && d.handle != 0 && d.name == p[0] {
							y.dev = d
						}
					}
					g.mu.Unlock()
					if y.dev == nil {
						g.fatalf("%s: DEVICE is answered by %q, which has not been opened", y.name, strings.Join(f, " "))
					}
				}
				if k.dev != nil && k.dev == x.dev {
					g.fatalf("both clients are given receiver %q", k.dev.name)
				}
				// at least what was free before is found, at most what both can release besides
				wanted := 2
				if lines[1] == "DEVICE !" {
					wanted = 1
				}
				if got < min(free, wanted) || got > min(free+had, wanted) {
					g.fatalf("both clients ask for a receiver, %d free and %d held by them: %d are given", free, had, got)
				}
				c.Label("both clients at once")
			case "!":
				s, d := k.stream, k.dev
				done := k.pump(delay, nilToo, sinkOf(s))
				k.send(more(spell("DEVICE") + " !"))
				f := k.reply("DEVICE !")
				settle(k, done, s)
				k.dev, k.stream = nil, nil
				if len(f) != 2 || f[1] != "-" {
					bad(f, "DEVICE !")
				}
				if d != nil {
					g.eventually("DEVICE ! releases the receiver", func() bool { g.mu.Lock(); defer g.mu.Unlock(); return d.handle == 0 })
				}
			case "other":
				line := rapid.SampledFrom([]string{"DEVICE rtl", "DEVICE 0", "HEADER ON", "HELLO", "XYZZY 1 2 3", "GOO", "freqs 12", "-"}).Draw(c.T, "line")
				k.send(line)
				f := k.reply(line)
				if strings.HasPrefix(line, "DEVICE") {
					bad(f, line, "-")
				} else {
					bad(f, line, "UNKNOWN")
				}
			case "blank":
				k.send(rapid.SampledFrom([]string{"", " ", "\t", "  "}).Draw(c.T, "line"))
			case "GO":
				goCommand()
			case "STOP":
				s := k.stream
				done := k.pump(delay, nilToo, sinkOf(s))
				k.send(more(spell("STOP")))
				f := k.reply("STOP")
				if s != nil {
					bad(f, "STOP while streaming", "OK")
					stops++
				} else {
					bad(f, "STOP without a stream", "STOPPED")
				}
				switch again := rapid.IntRange(0, 3).Draw(c.T, "again"); {
				case s == nil:
				case again < 2:
					k.send("STOP")
					bad(k.reply("STOP"), "a second STOP", "STOPPED")
				case again == 2: // the next stream at once
					goCommand()
					c.LabelIf(k.stream != nil, "started again at once")
				}
				settle(k, done, s)
			case "unplugged":
				if k.stream != nil {
					g.end(k.stream, true)
					k.stream = nil
				}
			case "buffer":
				if k.stream == nil {
					break
				}
				for m := rapid.IntRange(1, 4).Draw(c.T, "buffers"); m > 0; m-- {
					n := rapid.SampledFrom([]int{32768, 2, 8192, 8194, 8190, 16384, 100, 20000}).Draw(c.T, "bytes")
					b := make([]byte, n)
					for j := range b {
						b[j] = byte(r.U64())
					}
					if g.feed(k.stream, b) {
						g.fatalf("%s: the server ends a stream nobody stopped (history:%s)", k.name, history)
					}
					g.packets(k.stream, sinks[k.stream.dest], b)
				}
				long := 0
				switch n := r.Intn(300); {
				case n == 150:
					// beyond the range of the sequence numbers
					long = 66000
					c.Label("sequence numbers wrap")
				case n > 270:
					long = 300
				}
				if long > 0 {
					for k.stream.seq < long {
						b := []byte{byte(r.U64()), byte(r.U64())}
						g.feed(k.stream, b)
						g.packets(k.stream, sinks[k.stream.dest], b)
					}
				}
			case "FREQ":
				set("FREQ", anyFrequency(c, r), freq)
			case "RATE":
				set("RATE", anyRate(c, r), rate)
			case "GAIN":
				set("GAIN", int64(rapid.IntRange(-100, 500).Draw(c.T, "gain")), gain)
			case "FREQ?":
				k.send(spell("FREQ"))
				query("FREQ", freq, "FREQ", k.reply("FREQ"))
			case "RATE?":
				k.send(spell("RATE"))
				query("RATE", rate, "RATE", k.reply("RATE"))
			case "GAIN?":
				k.send(spell("GAIN"))
				query("GAIN", gain, "GAIN", k.reply("GAIN"))
			case "together": // several commands in one segment, or cut anywhere
				var lines []string
				for n := 2 + r.Intn(5); n > 0; n-- {
					lines = append(lines, more([]string{"RATE", "FREQ", "GAIN", "DEST", "ANTENNA default", "HELLO", "", "DEVICE rtl"}[r.Intn(8)]))
				}
				for j, l := range lines {
					if f := strings.Fields(l); len(f) > 1 && (f[0] == "RATE" || f[0] == "FREQ" || f[0] == "GAIN" || f[0] == "DEST") {
						lines[j] = "XYZZY " + l
					} else if len(f) > 0 && f[0] == "HELLO" {
						lines[j] = strings.Repeat("w ", r.Intn(50)) + "HELLO"
					}
				}
				k.sendTogether(lines, r)
				for _, l := range lines {
					f := strings.Fields(l)
					if len(f) == 0 {
						continue
					}
					switch a := k.reply(f[0]); f[0] {
					case "RATE":
						query("RATE", rate, "RATE", a)
					case "FREQ":
						query("FREQ", freq, "FREQ", a)
					case "GAIN":
						query("GAIN", gain, "GAIN", a)
					case "DEST":
						if a[1] != k.dest {
							g.fatalf("%s: the destination is %s, DEST is answered by %q", k.name, k.dest, strings.Join(a, " "))
						}
					case "ANTENNA":
						if k.dev == nil {
							bad(a, l, "DEVICE")
						} else {
							bad(a, l, "OK")
						}
					case "DEVICE":
						bad(a, l, "-")
					default:
						bad(a, l, "UNKNOWN")
					}
				}
			case "visits": // connections that come and go
				before := g.sockets()
				n := 1 + r.Intn(3)
				if r.Intn(12) == 0 {
					n = 40 + r.Intn(80)
					c.Label("many connections")
				}
				for ; n > 0; n-- {
					v := g.dial("127.0.0.3").(*net.TCPConn)
					greeted := r.Intn(3) > 0
					if greeted {
						v.SetDeadline(time.Now().Add(pbt.Patience(srvPatience)))
						if l, err := bufio.NewReader(v).ReadString('\n'); err != nil || !strings.HasPrefix(l, "DEVICE -") {
							g.check("a visitor")
							g.fatalf("a visitor is greeted with %q, %v", l, err)
						}
					}
					if r.Intn(2) == 0 {
						// a command cut short
						io.WriteString(v, []string{"FRE", "HELLO\n", "GO\nSTOP\n", "\n"}[r.Intn(4)])
					}
					if r.Intn(2) == 0 {
						v.SetLinger(0) // a reset
					}
					v.Close()
				}
				g.eventually("the visitors are gone", func() bool {
					return g.sockets() <= before
				})
			case "ANTENNA":
				line := more(spell(rapid.SampledFrom([]string{"ANTENNA", "ANTENNA default"}).Draw(c.T, "form")))
				k.send(line)
				f := k.reply(line)
				switch {
				case k.dev == nil:
					bad(f, line, "DEVICE")
				case strings.Contains(line, " "):
					bad(f, line, "OK")
				case len(f) != 2 || f[1] != "default":
					bad(f, line)
				}
			case "DEST?":
				k.send(spell("DEST"))
				if f := k.reply("DEST"); f[1] != k.dest {
					g.fatalf("%s: the destination is %s, DEST is answered by %q", k.name, k.dest, strings.Join(f, " "))
				}
			case "DEST":
				if k.stream != nil {
					break
				}
				if rapid.IntRange(0, 3).Draw(c.T, "malformed") == 0 {
					line := "DEST " + rapid.SampledFrom([]string{"127.0.0.1", "127.0.0.1:99999", "nonsense", "1.2.3.4:x"}).Draw(c.T, "address")
					k.send(line)
					bad(k.reply(line), line, "FAIL")
					break
				}
				a := other[rapid.IntRange(0, len(other)-1).Draw(c.T, "address")]
				if rapid.IntRange(0, 7).Draw(c.T, "unreachable") == 7 {
					a = unreachable
				}
				if clients[0].stream != nil && clients[0].stream.dest == a || clients[1].stream != nil && clients[1].stream.dest == a {
					break
				}
				k.send(more("DEST " + a))
				f := k.reply("DEST")
				bad(f, "DEST "+a, "OK")
				if len(f) != 3 || f[2] != a {
					g.fatalf("%s: DEST %s is answered by %q", k.name, a, strings.Join(f, " "))
				}
				k.dest = a
			case "hang up":
				hangUp(k)
			}
			g.check(fmt.Sprintf("%s: %s", k.name, cmd))
			// the other client must not take the destination of a running stream
			for _, x := range clients {
				if x != k && x.conn != nil && x.stream == nil && x.dest == k.dest && k.stream != nil && x.dev != nil {
					hangUp(x)
				}
			}
		}
		g.setFailing()
		for _, k := range clients {
			if k.conn != nil {
				hangUp(k)
			}
		}
		for _, u := range sinks {
			u.quiet(g, "at the end")
		}
		g.finish()
		c.Key(history, g.calls)
		c.NonTrivial(streams > 0)
		c.LabelIf(streams > 0, "streams")
		c.LabelIf(streams > 1, "several streams")
		c.LabelIf(stops > 0, "stopped")
		c.LabelIf(cut > 0, "hung up while streaming")
		c.LabelIf(failures > 0, "receiver failures")
		c.LabelIf(clients[1].crlf, "crlf")
		c.Samplef("%d receivers:%s", len(g.devs), history)
	})
}

// TestC31 uses the server through the client of the same repository.
func TestC31(t *testing.T) {
	if serverProgram() == "" {
		t.Skip("VERIF_BORIPSERVER not set")
	}
	dir := t.TempDir()
	pbt.Prop(t, "C31", 1, func(c *pbt.Case) {
		g := newRig(c, dir, true)
		defer g.stop()
		g.dial("127.0.0.3").Close()
		r := pbt.NewRng(c.T, "samples")
		history := ""
		streams := 0
		for conns := rapid.IntRange(1, 3).Draw(c.T, "connections"); conns > 0; conns-- {
			bor, err := borip.Dial(fmt.Sprintf("127.0.0.1:%d", serverPort))
			if err != nil {
				g.fatalf("Dial: %v", err)
			}
			pc, err := net.ListenPacket("udp", "127.0.0.1:0")
			if err != nil {
				c.Fatalf("VERIF-ERROR %v", err)
			}
			defer pc.Close()
			rd := borip.NewPacketReader(pc, true)
			var dev *simDev
			var stream *simStream
			set := false // the destination
			okOrFatal := func(what string, err error) {
				g.check(what)
				if err != nil {
					g.fatalf("%s: %v (history:%s)", what, err, history)
				}
			}
			stopping := func(f func()) {
				s := stream
				stream = nil
				if s == nil {
					f()
					return
				}
				done := make(chan struct{})
				go func() {
					defer close(done)
					for limit := time.Now().Add(pbt.Patience(srvPatience)); time.Now().Before(limit); {
						s.conn.SetDeadline(limit)
						s.conn.Write([]byte{2, 0, 0, 0, 1, 2})
						var b [1]byte
						if _, err := io.ReadFull(s.conn, b[:]); err != nil {
							break
						}
						if b[0] == 1 {
							g.end(s, false)
							return
						}
						time.Sleep(time.Millisecond)
					}
					g.mu.Lock()
					g.fault("the stream does not end")
					g.mu.Unlock()
				}()
				f()
				<-done
				// packets of buffers taken before the stream ended
				pc.SetReadDeadline(time.Now().Add(2 * time.Millisecond))
				for b := make([]byte, 1<<16); ; {
					if _, _, err := pc.ReadFrom(b); err != nil {
						break
					}
				}
				pc.SetReadDeadline(time.Time{})
			}
			for steps := rapid.IntRange(1, 14).Draw(c.T, "steps"); steps > 0; steps-- {
				cmd := rapid.SampledFrom([]string{"device", "frequency", "rate", "gain", "antenna", "destination", "go", "samples", "samples", "stop", "release"}).Draw(c.T, "call")
				if dev == nil && rapid.IntRange(0, 4).Draw(c.T, "wants a receiver") > 0 {
					cmd = "device"
				}
				history += " " + cmd
				if dev == nil && cmd != "device" && cmd != "destination" && cmd != "release" {
					var err error
					switch cmd {
					case "frequency":
						_, err = bor.Frequency()
					case "rate":
						_, err = bor.SetRate(1e6)
					case "gain":
						_, err = bor.Gain()
					case "antenna":
						err = bor.SetAntenna("default")
					case "go":
						err = bor.Go()
					default:
						continue
					}
					g.check(cmd)
					if err == nil {
						g.fatalf("%s without a receiver succeeds", cmd)
					}
					continue
				}
				switch cmd {
				case "device":
					var info *borip.Device
					var err error
					stopping(func() { info, err = bor.SelectDevice("-") })
					g.check(cmd)
					dev = nil
					if len(g.devs) == 0 {
						if err == nil {
							g.fatalf("SelectDevice succeeds without receivers: %+v", info)
						}
						continue
					}
					okOrFatal("SelectDevice", err)
					g.mu.Lock()
					for _, d := range g.devs {
						if d.handle != 0 {
							dev = d
						}
					}
					g.mu.Unlock()
					if dev == nil || info == nil || info.Name != dev.name || info.SamplesPerPacket < 1 || info.FPGAFreq != float64(dev.xtal) {
						g.fatalf("SelectDevice describes the receiver as %+v, it is %v", info, dev)
					}
					if n := len(dev.gains); n > 1 && (info.MinGain != float64(dev.gains[0]) || info.MaxGain != float64(dev.gains[n-1])) {
						g.fatalf("SelectDevice reports gains %v to %v, the receiver has %v", info.MinGain, info.MaxGain, dev.gains)
					}
					if ant, err := bor.Antenna(); err != nil || len(info.ValidAntennas) != 1 || ant != info.ValidAntennas[0] {
						g.fatalf("Antenna() = %q, %v with antennas %q", ant, err, info.ValidAntennas)
					}
				case "frequency":
					v := anyFrequency(c, r)
					target, actual, _, _, err := bor.SetFrequency(float64(v))
					okOrFatal("SetFrequency", err)
					got, err := bor.Frequency()
					okOrFatal("Frequency", err)
					if want := float64(quantize(v, dev.step)); float64(g.center(dev)) != want || target != float64(v) || actual != want || got != want {
						g.fatalf("SetFrequency(%d) on a receiver with steps of %d: target %v, actual %v, then Frequency() %v; the receiver is at %d", v, dev.step, target, actual, got, g.center(dev))
					}
				case "rate":
					v := anyRate(c, r)
					actual, err := bor.SetRate(float64(v))
					okOrFatal("SetRate", err)
					got, err := bor.Rate()
					okOrFatal("Rate", err)
					if want := float64(quantize(v, dev.step)); float64(g.rate(dev)) != want || actual != want || got != want {
						g.fatalf("SetRate(%d) on a receiver with steps of %d: %v, then Rate() %v; the receiver is at %d", v, dev.step, actual, got, g.rate(dev))
					}
				case "gain":
					v := int64(rapid.IntRange(-100, 500).Draw(c.T, "gain"))
					okOrFatal("SetGain", bor.SetGain(float64(v)))
					got, err := bor.Gain()
					okOrFatal("Gain", err)
					if g.gain(dev) != v || got != float64(v) {
						g.fatalf("SetGain(%d): then Gain() %v; the receiver is at %d", v, got, g.gain(dev))
					}
				case "antenna":
					okOrFatal("SetAntenna", bor.SetAntenna("default"))
				case "destination":
					if stream != nil {
						break
					}
					if !set {
						got, err := bor.Destination()
						okOrFatal("Destination", err)
						if want := fmt.Sprintf("127.0.0.1:%d", serverPort); got != want {
							g.fatalf("Destination() = %q to begin with, the client is at %s", got, want)
						}
						set = true
					}
					a := pc.LocalAddr().String()
					got, err := bor.SetDestination(a)
					okOrFatal("SetDestination", err)
					now, err := bor.Destination()
					okOrFatal("Destination", err)
					if got != a || now != a {
						g.fatalf("SetDestination(%q) = %q, then Destination() = %q", a, got, now)
					}
				case "go":
					if stream != nil {
						if err := bor.Go(); err == nil {
							g.fatalf("Go while streaming succeeds")
						}
						break
					}
					_, err := bor.SetDestination(pc.LocalAddr().String())
					okOrFatal("SetDestination", err)
					set = true
					okOrFatal("Go", bor.Go())
					g.mu.Lock()
					s := dev.stream
					started := s != nil && !s.ended
					g.mu.Unlock()
					if !started {
						g.fatalf("Go succeeds without a stream")
					}
					select {
					case <-s.ready:
					case <-time.After(pbt.Patience(srvPatience)):
						g.fatalf("the stream does not start")
					}
					stream = s
					streams++
				case "samples":
					if stream == nil {
						break
					}
					n := rapid.SampledFrom([]int{32768, 2, 8192, 8194, 100}).Draw(c.T, "bytes")
					b := make([]byte, n)
					for j := range b {
						b[j] = byte(r.U64())
					}
					if g.feed(stream, b) {
						g.fatalf("the server ends a stream nobody stopped")
					}
					z := make([]complex128, rapid.SampledFrom([]int{1000, 4096, 10000}).Draw(c.T, "samples"))
					pc.SetReadDeadline(time.Now().Add(pbt.Patience(srvPatience)))
					for pos := 0; pos < n/2; {
						m, err := rd.ReadSamples(z[:min(len(z), n/2-pos)])
						okOrFatal("ReadSamples", err)
						if h := rd.Header(); int(h.Idx) != (stream.seq+pos/4096)&0xffff || (h.Flags == borip.FlagStreamStart) != (stream.seq+pos/4096 == 0) {
							g.fatalf("header %+v at sample %d of the buffer after packet %d", h, pos, stream.seq)
						}
						for j, x := range z[:m] {
							w := func(b byte) float64 { return float64(int16(uint16(b^0x80) * 0x101)) }
							if want := complex(w(b[2*(pos+j)]), w(b[2*(pos+j)+1])); x != want {
								g.fatalf("sample %d of a buffer of %d is read as %v instead of %v", pos+j, n/2, x, want)
							}
						}
						pos += m
					}
					stream.seq += (n/2 + 4095) / 4096
					long := 0
					switch n := r.Intn(150); {
					case n == 70:
						// beyond the range of the sequence numbers
						long = 66000
						c.Label("sequence numbers wrap")
					case n == 71:
						long = 33000
					case n > 130:
						long = 300
					}
					for stream.seq < long {
						b := []byte{byte(r.U64()), byte(r.U64())}
						g.feed(stream, b)
						pc.SetReadDeadline(time.Now().Add(pbt.Patience(srvPatience)))
						m, err := rd.ReadSamples(z[:1+r.Intn(3)])
						if err != nil || m != 1 {
							okOrFatal("ReadSamples", err)
							g.fatalf("ReadSamples returns %d samples for a packet of one", m)
						}
						w := func(b byte) float64 { return float64(int16(uint16(b^0x80) * 0x101)) }
						if h := rd.Header(); int(h.Idx) != stream.seq&0xffff || h.Flags != 0 || z[0] != complex(w(b[0]), w(b[1])) {
							g.fatalf("packet %d of a stream, bytes %v: header %+v, sample %v", stream.seq, b, h, z[0])
						}
						stream.seq++
					}
				case "stop":
					if stream == nil {
						break
					}
					var err error
					stopping(func() { err = bor.Stop() })
					okOrFatal("Stop", err)
				case "release":
					var err error
					stopping(func() { _, err = bor.SelectDevice("!") })
					okOrFatal("SelectDevice(!)", err)
					if dev != nil && g.open(dev) {
						g.fatalf("SelectDevice(!) leaves the receiver open")
					}
					dev = nil
				}
				g.check(cmd)
			}
			stopping(func() { bor.Close() })
			history += " close;"
			g.eventually("Close releases the receiver", func() bool { g.mu.Lock(); defer g.mu.Unlock(); return len(g.handles) == 0 })
		}
		g.finish()
		c.Key(history, g.calls)
		c.NonTrivial(streams > 0 || g.calls > 6)
		c.LabelIf(streams > 0, "streams")
		c.Samplef("%d receivers:%s", len(g.devs), history)
	})
}
