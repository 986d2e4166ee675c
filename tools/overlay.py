#!/usr/bin/env python3
"""Generates a `go build -overlay` file that makes map iteration of the Go
runtime deterministic and schedulable (see DESIGN.md, "Owning map order").

usage: overlay.py GOROOT OUTDIR  -> OUTDIR/overlay.json
Exits 1 (and writes nothing) if the runtime sources do not look as expected;
the checks then run with the ordinary random map order."""
import json, os, sys

goroot, out = os.path.realpath(sys.argv[1]), sys.argv[2]
src = os.path.join(goroot, "src")

def load(p):
    with open(os.path.join(src, p)) as f:
        return f.read()

def sub(s, old, new, at_least=1):
    n = s.count(old)
    if n < at_least:
        sys.exit("overlay: pattern not found: %r" % old)
    return s.replace(old, new)

files = {}

p = "internal/runtime/maps/table.go"
s = load(p)
s = sub(s, "it.entryOffset = rand()", "it.entryOffset = verifMapOffset()")
s = sub(s, "it.dirOffset = rand()", "it.dirOffset = 0")
s += """
// Added by /verif/tools/overlay.py
var VerifDefault uint64
var VerifArmed bool
var VerifSched [256]uint8
var VerifCount int

func verifMapOffset() uint64 {
	if !VerifArmed {
		return VerifDefault
	}
	i := VerifCount
	VerifCount++
	if i < len(VerifSched) {
		return uint64(VerifSched[i])
	}
	return VerifDefault
}
"""
files[p] = s

p = "internal/runtime/maps/map.go"
files[p] = sub(load(p), "uintptr(rand())", "uintptr(0x5bd1e995)")

p = "internal/runtime/maps/runtime_alg.go"
s = load(p)
s = sub(s, "hashkey[i] = uintptr(bootstrapRand())", "hashkey[i] = uintptr(0x9E3779B97F4A7C15 * uint64(i+1))")
s = sub(s, "key[i] = bootstrapRand()", "key[i] = 0x9E3779B97F4A7C15 * uint64(i+1)")
files[p] = s

p = "runtime/rand.go"
s = load(p)
s = sub(s, "import (\n", "import (\n\t\"internal/runtime/maps\"\n")
s = sub(s, "func rand() uint64 {\n", "func rand() uint64 {\n\tif verifFixedRand {\n\t\treturn 0x9E3779B97F4A7C15\n\t}\n")
s += """
// Added by /verif/tools/overlay.py
const verifFixedRand = true

func VerifMapDefault(x uint64) { maps.VerifDefault = x }

func VerifMapArm(s []uint8) {
	for i := range maps.VerifSched {
		if i < len(s) {
			maps.VerifSched[i] = s[i]
		} else {
			maps.VerifSched[i] = uint8(maps.VerifDefault)
		}
	}
	maps.VerifCount = 0
	maps.VerifArmed = true
}

func VerifMapDisarm() int {
	maps.VerifArmed = false
	return maps.VerifCount
}
"""
files[p] = s

# sync.Pool that hands out new objects on demand: the pools inside of fmt and
# encoding/json otherwise order the goroutines that use them, which hides
# conflicting accesses from the race detector (C26).
p = "sync/pool.go"
s = load(p)
s = sub(s, "func (p *Pool) Put(x any) {\n", "func (p *Pool) Put(x any) {\n\tif VerifPoolFresh {\n\t\treturn\n\t}\n")
s = sub(s, "func (p *Pool) Get() any {\n", "func (p *Pool) Get() any {\n\tif VerifPoolFresh {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}\n")
s += """
// Added by /verif/tools/overlay.py
var VerifPoolFresh bool
"""
files[p] = s

os.makedirs(out, exist_ok=True)
repl = {}
for p, s in files.items():
    dst = os.path.join(out, p.replace("/", "_") + ".x")
    with open(dst, "w") as f:
        f.write(s)
    repl[os.path.join(src, p)] = os.path.abspath(dst)
with open(os.path.join(out, "overlay.json"), "w") as f:
    json.dump({"Replace": repl}, f)
