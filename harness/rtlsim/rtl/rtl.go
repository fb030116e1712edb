// Package rtl stands in for the rtl-sdr binding: every call goes to the test that runs the program,
// over the unix socket named by $RTLSIM, and the test decides what the receivers do.
package rtl

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"io"
	"log"
	"net"
	"os"
	"sync"
)

// Call is a request of the program, Answer the reply of the test.
type Call struct {
	Op   string
	Dev  int // handle of an open receiver
	Arg  int64
	Arg2 int64
}

type Answer struct {
	Err string
	V   []int64
	S   string
}

var (
	mu  sync.Mutex
	ctl net.Conn
	enc *json.Encoder
	dec *json.Decoder
)

func dial() net.Conn {
	c, err := net.Dial("unix", os.Getenv("RTLSIM"))
	if err != nil {
		log.Fatalf("RTLSIM: %v", err)
	}
	return c
}

func call(op string, dev int, args ...int64) (Answer, error) {
	mu.Lock()
	defer mu.Unlock()
	if ctl == nil {
		ctl = dial()
		enc, dec = json.NewEncoder(ctl), json.NewDecoder(ctl)
	}
	r := Call{Op: op, Dev: dev}
	if len(args) > 0 {
		r.Arg = args[0]
	}
	if len(args) > 1 {
		r.Arg2 = args[1]
	}
	var a Answer
	if err := enc.Encode(r); err != nil {
		log.Fatalf("RTLSIM: %v", err)
	}
	if err := dec.Decode(&a); err != nil {
		log.Fatalf("RTLSIM: %v", err)
	}
	if a.Err != "" {
		return a, errors.New(a.Err)
	}
	return a, nil
}

func one(op string, dev int) (int64, error) {
	a, err := call(op, dev)
	if err != nil || len(a.V) == 0 {
		return 0, err
	}
	return a.V[0], nil
}

func set(op string, dev int, v int64) error {
	_, err := call(op, dev, v)
	return err
}

func GetDeviceCount() int {
	n, _ := one("GetDeviceCount", 0)
	return int(n)
}

func GetDeviceName(i int) string {
	a, _ := call("GetDeviceName", 0, int64(i))
	return a.S
}

// Device is an open receiver.
type Device struct {
	h  int
	wg sync.WaitGroup // running streams
}

func Open(i int) (*Device, error) {
	a, err := call("Open", 0, int64(i))
	if err != nil {
		return nil, err
	}
	return &Device{h: int(a.V[0])}, nil
}

// Close waits for the end of a running stream, as librtlsdr does, but does not ask for it.
func (d *Device) Close() error {
	d.wg.Wait()
	_, err := call("Close", d.h)
	return err
}

func (d *Device) ResetBuffer() error         { _, err := call("ResetBuffer", d.h); return err }
func (d *Device) SetCenterFreq(f uint) error { return set("SetCenterFreq", d.h, int64(f)) }
func (d *Device) SetSampleRate(r uint) error { return set("SetSampleRate", d.h, int64(r)) }
func (d *Device) SetTunerGain(g int) error   { return set("SetTunerGain", d.h, int64(g)) }
func (d *Device) GetCenterFreq() (uint, error) {
	v, err := one("GetCenterFreq", d.h)
	return uint(v), err
}
func (d *Device) GetSampleRate() (int, error) {
	v, err := one("GetSampleRate", d.h)
	return int(v), err
}
func (d *Device) GetTunerGain() (int, error) { v, err := one("GetTunerGain", d.h); return int(v), err }

// The server uses none of these at present.
func (d *Device) SetFreqCorrection(ppm int) error           { return nil }
func (d *Device) GetFreqCorrection() int                    { return 0 }
func (d *Device) SetTunerIfGain(stage, gain int) error      { return nil }
func (d *Device) SetTunerGainMode(manual bool) error        { return nil }
func (d *Device) SetTestMode(on bool) error                 { return nil }
func (d *Device) SetDirectSampling(on bool) error           { return nil }
func (d *Device) SetOffsetTuning(on bool) error             { return nil }
func (d *Device) SetXtalFreq(rtlFreq, tunerFreq uint) error { return nil }

// ReadAsyncUsingSync is the same here.
func (d *Device) ReadAsyncUsingSync(nBuffers, bufferSize int, cb func([]byte) bool) error {
	return d.ReadAsync(nBuffers, bufferSize, cb)
}

func (d *Device) SetAGCMode(on bool) error {
	v := int64(0)
	if on {
		v = 1
	}
	return set("SetAGCMode", d.h, v)
}

func (d *Device) GetTunerGains() ([]int, error) {
	a, err := call("GetTunerGains", d.h)
	if err != nil {
		return nil, err
	}
	g := make([]int, len(a.V))
	for i, v := range a.V {
		g[i] = int(v)
	}
	return g, nil
}

func (d *Device) GetXtalFreq() (rtlFreq, tunerFreq uint, err error) {
	a, err := call("GetXtalFreq", d.h)
	if err != nil {
		return 0, 0, err
	}
	return uint(a.V[0]), uint(a.V[1]), nil
}

// ReadAsync calls cb from another goroutine with every buffer, until cb returns true or, with nil,
// when the receiver stops by itself.
func (d *Device) ReadAsync(nBuffers, bufferSize int, cb func([]byte) bool) error {
	if _, err := call("ReadAsync", d.h, int64(nBuffers), int64(bufferSize)); err != nil {
		return err
	}
	c := dial()
	if _, err := c.Write([]byte{byte(d.h)}); err != nil {
		log.Fatalf("RTLSIM: %v", err)
	}
	d.wg.Add(1)
	go func() {
		defer d.wg.Done()
		defer c.Close()
		var buf []byte
		for {
			var h [4]byte
			if _, err := io.ReadFull(c, h[:]); err != nil {
				return
			}
			// length, 0xffffffff: the receiver is gone, 0xfffffffe: it has stopped as asked
			switch n := binary.LittleEndian.Uint32(h[:]); n {
			case 0xffffffff:
				cb(nil)
				c.Write([]byte{2})
				return
			case 0xfffffffe:
				return
			default:
				if cap(buf) < int(n) {
					buf = make([]byte, n)
				}
				b := buf[:n]
				if _, err := io.ReadFull(c, b); err != nil {
					return
				}
				r := byte(0)
				if cb(b) {
					r = 1
				}
				// the buffer is used again
				for i := range b {
					b[i] = 0xee
				}
				c.Write([]byte{r})
			}
		}
	}()
	return nil
}
