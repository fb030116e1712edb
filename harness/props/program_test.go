package props

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/pbt"
)

const keypad = "123A456B789C*0#D"

var (
	rowHz = []float64{697, 770, 852, 941}
	colHz = []float64{1209, 1336, 1477, 1633}
)

// TestC30 runs the DTMF file decoder on synthesised calls.
func TestC30(t *testing.T) {
	prog := os.Getenv("VERIF_DTMF_FILE")
	if prog == "" {
		t.Skip("VERIF_DTMF_FILE not set")
	}
	dir := t.TempDir()
	pbt.Prop(t, "C30", 1, func(c *pbt.Case) {
		const rate = 8000
		var pcm []byte
		add := func(v float64) {
			s := int16(math.Round(v * 32767))
			pcm = append(pcm, byte(s), byte(uint16(s)>>8))
		}
		silence := func(n int) {
			for ; n > 0; n-- {
				add(0)
			}
		}
		want := ""
		n := rapid.IntRange(0, 8).Draw(c.T, "digits")
		silence(rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 3000)).Draw(c.T, "leading silence"))
		again := false
		for i := 0; i < n; i++ {
			key := rapid.IntRange(0, 15).Draw(c.T, "key")
			if i > 0 && rapid.IntRange(0, 2).Draw(c.T, "again") == 0 {
				key = bytes.IndexByte([]byte(keypad), want[i-1])
				again = true
			}
			want += keypad[key : key+1]
			if i > 0 {
				silence(rapid.OneOf(rapid.Just(960), rapid.IntRange(960, 4000)).Draw(c.T, "gap"))
			}
			level := math.Pow(10, rapid.Float64Range(-1.8, -0.5).Draw(c.T, "level"))
			twist := rapid.Float64Range(-3, 3).Draw(c.T, "twist dB")
			p1, p2 := rapid.Float64Range(0, 6.3).Draw(c.T, "phase 1"), rapid.Float64Range(0, 6.3).Draw(c.T, "phase 2")
			a1, a2 := level*math.Pow(10, twist/40), level*math.Pow(10, -twist/40)
			for j, m := 0, rapid.OneOf(rapid.Just(960), rapid.IntRange(960, 6000)).Draw(c.T, "duration"); j < m; j++ {
				tm := 2 * math.Pi * float64(j) / rate
				add(a1*math.Sin(rowHz[key/4]*tm+p1) + a2*math.Sin(colHz[key%4]*tm+p2))
			}
		}
		silence(rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 2000)).Draw(c.T, "trailing silence"))
		way := rapid.SampledFrom([]string{"file", "pipe", "pipe -", "redirected", "file", "pipe", "slow pipe"}).Draw(c.T, "input")
		// Writes of whole windows, small enough to be atomic, are read a window
		// at a time whatever the timing.  Other writes (known finding
		// short-reads) are not.
		piece := rapid.SampledFrom([]int{102, 1020, 4080}).Draw(c.T, "pipe writes")
		short := way == "slow pipe"
		if short {
			piece = rapid.SampledFrom([]int{1 << 20, 1000, 333, 100, 7}).Draw(c.T, "uneven writes")
		}
		c.Key(pcm, way, piece)
		c.NonTrivial(n > 0)
		c.Label("input by " + way)
		c.LabelIf(again, "key repeated")
		c.Samplef("dialling %q, %d bytes by %s", want, len(pcm), way)
		cmd := exec.Command(prog)
		switch way {
		case "file", "redirected":
			name := filepath.Join(dir, "call.raw")
			if err := os.WriteFile(name, pcm, 0o600); err != nil {
				c.Fatalf("VERIF-ERROR %v", err)
			}
			if way == "file" {
				cmd.Args = append(cmd.Args, name)
				break
			}
			fi, err := os.Open(name)
			if err != nil {
				c.Fatalf("VERIF-ERROR %v", err)
			}
			defer fi.Close()
			cmd.Stdin = fi
		case "slow pipe":
			// arrives in a few pieces with pauses, as from another program
			cmd.Stdin = &pieces{pcm, max(piece, len(pcm)/rapid.IntRange(1, 12).Draw(c.T, "pieces")+1), 2 * time.Millisecond}
		default:
			if way == "pipe -" {
				cmd.Args = append(cmd.Args, "-")
			}
			cmd.Stdin = &pieces{pcm, piece, 0}
		}
		var errs bytes.Buffer
		cmd.Stderr = &errs
		out, err := cmd.Output()
		if err != nil {
			c.Fatalf("dialling %q by %s: %v %s", want, way, err, errs.Bytes())
		}
		if short {
			c.LabelIf(string(out) != want+"\n", "known finding short-reads")
			return
		}
		if string(out) != want+"\n" {
			c.Fatalf("dialling %q by %s prints %q", want, fmt.Sprintf("%s in writes of %d", way, piece), out)
		}
	})
}

// pieces delivers its bytes a few at a time, so that a pipe is written in pieces.
type pieces struct {
	b     []byte
	n     int
	pause time.Duration
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(p.b) == 0 {
		return 0, io.EOF
	}
	time.Sleep(p.pause)
	n := copy(b[:min(p.n, len(b))], p.b)
	p.b = p.b[n:]
	return n, nil
}
