package main

import (
	"os"
	"runtime/pprof"
)

// startProf writes a CPU profile when VH_PROF is set (for tuning the harness).
func startProf() func() {
	p := os.Getenv("VH_PROF")
	if p == "" {
		return func() {}
	}
	f, err := os.Create(p)
	if err != nil {
		return func() {}
	}
	_ = pprof.StartCPUProfile(f)
	return func() { pprof.StopCPUProfile(); f.Close() }
}
