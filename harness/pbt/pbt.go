// Package pbt wraps pgregory.net/rapid: it counts what the generators produced (for the evidence
// files), offers the generators shared by the properties, and guard-page buffers.
package pbt

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Case is one generated case of a property.
type Case struct {
	*rapid.T
	h          uint64
	nontrivial bool
	labels     []string
	sample     string
}

type propStats struct {
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	hashes      map[uint64]struct{}
}

var (
	mu       sync.Mutex
	stats    = map[string]*propStats{}
	baseSeed uint64
	// digests of outputs, in order (compared between CPU modes by the driver)
	digests []uint64
)

// Prop runs one property under rapid with weight times $VERIF_CHECKS cases.  fn draws its input from c, calls c.Key with everything that
// identifies the case, c.NonTrivial when the case satisfies the stated rule, and fails through c.
func Prop(t *testing.T, name string, weight float64, fn func(c *Case)) {
	t.Helper()
	n := int(float64(EnvInt("VERIF_CHECKS", 100)) * weight)
	if n < 1 {
		n = 1
	}
	if err := flag.Set("rapid.checks", strconv.Itoa(n)); err != nil {
		t.Fatal(err)
	}
	// a seed of its own for every property of the process, derived from the one given
	if f := flag.Lookup("rapid.seed"); f != nil && baseSeed == 0 {
		baseSeed, _ = strconv.ParseUint(f.Value.String(), 10, 64)
	}
	nh := fnv.New64a()
	fmt.Fprint(nh, baseSeed, name)
	if err := flag.Set("rapid.seed", strconv.FormatUint(nh.Sum64()>>2|1, 10)); err != nil {
		t.Fatal(err)
	}
	st := &propStats{Labels: map[string]int{}, hashes: map[uint64]struct{}{}}
	mu.Lock()
	stats[name] = st
	mu.Unlock()
	failed := false
	watch.Do(startWatchdog)
	rapid.Check(t, func(rt *rapid.T) {
		Restart()
		defer caseStart.Store(0)
		began := time.Now()
		caseName.Store(&name)
		defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
		c := &Case{T: rt, h: 14695981039346656037}
		ok := false
		defer func() {
			if !ok {
				// failing or discarded (or the search is over and rapid is shrinking)
				failed = failed || rt.Failed()
				if rt.Failed() {
					failing.Store(true)
				}
				if rt.Failed() && time.Since(began) > slow {
					fmt.Println("VERIF-SLOW a case that fails took", time.Since(began).Round(time.Second))
				}
				return
			}
			if failed || rt.Failed() {
				failed = true
				return
			}
			st.Evaluations++
			for _, l := range c.labels {
				st.Labels[l]++
			}
			if c.nontrivial {
				st.NonTrivial++
				if len(st.hashes) < 1<<20 {
					st.hashes[c.h] = struct{}{}
				}
				n := st.NonTrivial
				if c.sample != "" && len(st.Samples) < 6 && (n == 1 || n == 7 || n == 50 || n == 300 || n == 1000 || n == 4000) {
					st.Samples = append(st.Samples, c.sample)
				}
			}
		}()
		fn(c)
		ok = true
	})
}

var (
	processStart = time.Now()

	watch     sync.Once
	caseStart atomic.Int64 // since processStart (monotonic)
	caseName  atomic.Pointer[string]
)

// failing is set once a case has failed.
var failing atomic.Bool

// Patience is how long to wait for something that has to come: d, or less while a failure is
// being shrunk (what comes out of that is confirmed by a process that has its patience again).
func Patience(d time.Duration) time.Duration {
	if failing.Load() {
		return min(d, 2*time.Second)
	}
	return d
}

// slow is less than any time limit inside a case: a failure after less time is not one of a limit.
const slow = 8 * time.Second

// startWatchdog ends the process when a single case, which normally takes well below a second,
// takes minutes: the driver runs it again before it believes that something hangs.
func startWatchdog() {
	limit := time.Duration(EnvInt("VERIF_HANG_S", 90)) * time.Second
	go func() {
		for {
			time.Sleep(time.Second)
			if s := caseStart.Load(); s != 0 && int64(time.Since(processStart))-s > int64(limit) {
				fmt.Printf("VERIF-HANG a case of %s did not end\n", *caseName.Load())
				buf := make([]byte, 1<<16)
				os.Stdout.Write(buf[:runtime.Stack(buf, true)])
				os.Exit(3)
			}
		}
	}()
}

// Restart starts the time of the current case again.
func Restart() { caseStart.Store(int64(time.Since(processStart))) }

func (c *Case) mix(b []byte) {
	h := c.h
	for _, x := range b {
		h ^= uint64(x)
		h *= 1099511628211
	}
	c.h = h
}

// Key mixes values that identify the case into its hash.
func (c *Case) Key(args ...any) {
	for _, a := range args {
		switch v := a.(type) {
		case []byte:
			c.mix(v)
		case string:
			c.mix([]byte(v))
		case int:
			c.u64(uint64(v))
		case uint64:
			c.u64(v)
		case float64:
			c.u64(math.Float64bits(v))
		case float32:
			c.u64(uint64(math.Float32bits(v)))
		case []float32:
			for _, x := range v {
				c.u64(uint64(math.Float32bits(x)))
			}
		case []float64:
			for _, x := range v {
				c.u64(math.Float64bits(x))
			}
		case []complex64:
			for _, x := range v {
				c.u64(uint64(math.Float32bits(real(x)))<<32 | uint64(math.Float32bits(imag(x))))
			}
		case []complex128:
			for _, x := range v {
				c.u64(math.Float64bits(real(x)))
				c.u64(math.Float64bits(imag(x)))
			}
		case []int:
			for _, x := range v {
				c.u64(uint64(x))
			}
		default:
			c.mix([]byte(fmt.Sprint(v)))
		}
	}
}

func (c *Case) u64(v uint64) {
	h := c.h
	for i := 0; i < 8; i++ {
		h ^= v & 0xff
		h *= 1099511628211
		v >>= 8
	}
	c.h = h
}

// NonTrivial marks the case as non-trivial if cond holds.
func (c *Case) NonTrivial(cond bool) {
	if cond {
		c.nontrivial = true
	}
}

// Label counts a class of cases.
func (c *Case) Label(l string) { c.labels = append(c.labels, l) }

// LabelIf counts a class of cases.
func (c *Case) LabelIf(cond bool, l string) {
	if cond {
		c.labels = append(c.labels, l)
	}
}

// Samplef describes the case for the evidence file.
func (c *Case) Samplef(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	c.sample = s
}

// Digest records the hash of some output; the sequences of digests of runs with the same seed in
// different CPU modes are compared by the driver.
func Digest(b []byte) {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h ^= uint64(x)
		h *= 1099511628211
	}
	mu.Lock()
	digests = append(digests, h)
	mu.Unlock()
}

// Main runs the tests and writes the statistics to $VERIF_STATS.
func Main(m *testing.M) {
	code := m.Run()
	if path := os.Getenv("VERIF_STATS"); path != "" {
		mu.Lock()
		out := map[string]any{"props": stats}
		b, err := json.Marshal(out)
		if err == nil {
			err = os.WriteFile(path, b, 0o644)
		}
		if err == nil {
			var hb []byte
			for name, st := range stats {
				nh := fnv.New64a()
				nh.Write([]byte(name))
				base := nh.Sum64()
				for h := range st.hashes {
					hb = binary.LittleEndian.AppendUint64(hb, h^base)
				}
			}
			err = os.WriteFile(path+".hashes", hb, 0o644)
		}
		if err == nil && len(digests) > 0 {
			var db []byte
			for _, d := range digests {
				db = binary.LittleEndian.AppendUint64(db, d)
			}
			err = os.WriteFile(path+".digests", db, 0o644)
		}
		mu.Unlock()
		if err != nil {
			fmt.Println("VERIF-ERROR writing statistics:", err)
			if code == 0 {
				code = 2
			}
		}
	}
	os.Exit(code)
}

// Thorough reports whether the thorough tier is running.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// EnvInt reads an integer from the environment.
func EnvInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// Catch runs fn and returns the recovered panic value, nil if there was none.
func Catch(fn func()) (p any) {
	defer func() {
		p = recover()
	}()
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	fn()
	return nil
}
