package cpu

import "syscall"

// Added by the verification overlay only: nothing in the repository calls Initialize, so its SIMD
// paths are selected here, per process.  VERIF_CPU unset: not initialised (as in production).
func init() {
	if v, ok := syscall.Getenv("VERIF_CPU"); ok {
		Initialize(v)
	}
}
