package main

import (
	"os"
	"runtime/pprof"
)

func startProf() func() {
	p := os.Getenv("VGO_PROF")
	if p == "" {
		return func() {}
	}
	f, _ := os.Create(p)
	pprof.StartCPUProfile(f)
	return pprof.StopCPUProfile
}
