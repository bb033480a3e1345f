#!/usr/bin/env python3
"""Generates a go build overlay which puts the nondeterminism of the Go
standard library (randomness incl. map iteration order, clocks, file system
calls) behind hooks that the simulator controls.  Nothing in /repo is patched.

usage: gen.py GOROOT OUTDIR   -> writes OUTDIR/overlay.json and patched files
"""
import json, os, re, sys

goroot, out = sys.argv[1], sys.argv[2]
os.makedirs(out, exist_ok=True)
repl = {}


def patch(rel, *subs, append=""):
    path = os.path.join(goroot, "src", rel)
    src = open(path).read()
    for old, new, count in subs:
        if src.count(old) < 1:
            sys.exit(f"overlay: pattern {old!r} not found in {rel}")
        if count and src.count(old) != count:
            sys.exit(f"overlay: pattern {old!r} occurs {src.count(old)} times in {rel}, expected {count}")
        src = src.replace(old, new)
    src += append
    dst = os.path.join(out, rel.replace("/", "__"))
    open(dst, "w").write(src)
    repl[path] = dst


# 1. randomness: runtime.rand feeds map seeds, map iteration offsets, math/rand
patch("runtime/rand.go",
      ("\tmp.cheaprand = uint32(rand())\n\tmp.cheaprand64 = rand()",
       "\tmp.cheaprand = uint32(simRealRand())\n\tmp.cheaprand64 = simRealRand()", 1),
      ("func rand() uint64 {\n",
       """func rand() uint64 {
	if simRandOn {
		simRandCalls++
		simRandState += 0x9e3779b97f4a7c15
		z := simRandState
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
	return simRealRand()
}

//go:nosplit
func simRealRand() uint64 {
""", 1),
      append="""
var (
	simRandOn    bool
	simRandState uint64
	simRandCalls uint64
)

// SimRandSeed switches the simulated randomness on with the given seed.
func SimRandSeed(seed uint64) { simRandState = seed; simRandOn = true }

// SimRandOff switches the simulated randomness off.
func SimRandOff() { simRandOn = false }

// SimRandCalls returns the number of draws from the simulated randomness.
func SimRandCalls() uint64 { return simRandCalls }
""")
# 2. process-wide hash keys become constants
patch("internal/runtime/maps/runtime_alg.go",
      ("hashkey[i] = uintptr(bootstrapRand())", "hashkey[i] = uintptr(0x9e3779b97f4a7c15 * uint64(i+1))", 1),
      ("key[i] = bootstrapRand()", "key[i] = 0xd1342543de82ef95 * uint64(i+3)", 1))
# 3. clocks
patch("time/time.go",
      ("\tsec, nsec, mono := runtimeNow()\n", "\tsec, nsec, mono := simRuntimeNow()\n", 1),
      ("runtimeNano()-startNano", "simRuntimeNano()-startNano", 0),
      append="""
// SimNow, if set, replaces the wall clock and the monotonic clock (relative to
// SimMonoBase).
var SimNow func() (sec int64, nsec int32, mono int64)

func simRuntimeNow() (sec int64, nsec int32, mono int64) {
	if SimNow != nil {
		return SimNow()
	}
	return runtimeNow()
}

func simRuntimeNano() int64 {
	if SimNow != nil {
		_, _, mono := SimNow()
		return mono
	}
	return runtimeNano()
}

// SimRealNow is the real clock, for the simulator's own bookkeeping.
func SimRealNow() int64 { return runtimeNano() }
""")
# 4. file system calls
patch("syscall/syscall_unix.go",
      ("func Read(fd int, p []byte) (n int, err error) {\n",
       """// SimRead and SimWrite, if set, may take over a read or write system call.
var SimRead, SimWrite func(fd int, p []byte) (n int, err error, handled bool)

// SimRealRead and SimRealWrite are the unhooked calls.
func SimRealRead(fd int, p []byte) (n int, err error) { return read(fd, p) }
func SimRealWrite(fd int, p []byte) (n int, err error) { return write(fd, p) }

func Read(fd int, p []byte) (n int, err error) {
	if SimRead != nil {
		if n, err, ok := SimRead(fd, p); ok {
			return n, err
		}
	}
""", 1),
      ("func Write(fd int, p []byte) (n int, err error) {\n",
       """func Write(fd int, p []byte) (n int, err error) {
	if SimWrite != nil {
		if n, err, ok := SimWrite(fd, p); ok {
			return n, err
		}
	}
""", 1))
patch("internal/poll/hook_unix.go",
      ("var CloseFunc func(int) error = syscall.Close",
       "var CloseFunc func(int) error = func(fd int) error {\n\tif SimClose != nil {\n\t\treturn SimClose(fd)\n\t}\n\treturn syscall.Close(fd)\n}", 1),
      append="""
// SimClose, if set, replaces the close system call.
var SimClose func(fd int) error
""")
patch("os/file_open_unix.go",
      ("\tfd, err := syscall.Open(path, flag, perm)\n",
       """	if SimOpen != nil {
		if fd, err, ok := SimOpen(path, flag, perm); ok {
			return fd, poll.SysFile{}, err
		}
	}
	fd, err := syscall.Open(path, flag, perm)
""", 1),
      append="""
// SimOpen, if set, may take over an open system call.
var SimOpen func(path string, flag int, perm uint32) (fd int, err error, handled bool)

// SimSetClose installs the replacement of the close system call.
func SimSetClose(c func(fd int) error) { poll.SimClose = c }
""")
json.dump({"Replace": repl}, open(os.path.join(out, "overlay.json"), "w"), indent=1)
