//go:build verifmaps

package main

import (
	"runtime"
	"sync"
)

const mapsOwned = true

func mapDefault(x int)     { runtime.VerifMapDefault(uint64(x)) }
func mapArm(sched []uint8) { runtime.VerifMapArm(sched) }
func mapDisarm() int       { return runtime.VerifMapDisarm() }

func poolFresh(on bool) { sync.VerifPoolFresh = on }
