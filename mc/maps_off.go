//go:build !verifmaps

package main

const mapsOwned = false

func mapDefault(x int)     {}
func mapArm(sched []uint8) {}
func mapDisarm() int       { return 0 }

func poolFresh(on bool) {}
