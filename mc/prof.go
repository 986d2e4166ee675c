package main

import (
	"os"
	"runtime/pprof"
)

func startProfile() func() {
	if *fProf == "" {
		return func() {}
	}
	f, err := os.Create(*fProf)
	if err != nil {
		return func() {}
	}
	pprof.StartCPUProfile(f)
	return func() { pprof.StopCPUProfile(); f.Close() }
}
