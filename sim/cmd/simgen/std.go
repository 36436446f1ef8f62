package main

// The seams in the standard library. Everything is inert until the simulator
// turns it on, apart from the fake clock, which is the one the Go playground
// uses (build tag faketime).

var stdPatches = []patch{
	{"runtime/proc.go", []edit{
		// no background thread that preempts goroutines and steals processors
		{`const haveSysmon = GOARCH != "wasm"`, `const haveSysmon = false`},
		{"\tif !haveSysmon && next {", "\tif false && next {"},
		// the simulator picks the goroutine which runs next
		{"func runqget(pp *p) (gp *g, inheritTime bool) {\n", "func runqget(pp *p) (gp *g, inheritTime bool) {\n\tif simOn {\n\t\treturn simRunqget(pp), false\n\t}\n"},
		// nothing can run: jump to the next timer
		{"\t// Spinning Ms: steal work from other Ps.\n\t//\n", "\tif simOn && simAdvance(pp) {\n\t\tgoto top\n\t}\n\n\t// Spinning Ms: steal work from other Ps.\n\t//\n"},
	}},
	{"runtime/rand.go", []edit{
		{"\tif len(startupRand) >= 16 &&\n", "\tif simFixedSeed {\n\t\tfor i := range seed {\n\t\t\tseed[i] = byte(i*7 + 1)\n\t\t}\n\t} else if len(startupRand) >= 16 &&\n"},
		{"func rand() uint64 {\n", "func rand() uint64 {\n\tif simOn {\n\t\treturn simNext(&simRandState)\n\t}\n"},
		{"func cheaprand() uint32 {\n", "func cheaprand() uint32 {\n\tif simOn {\n\t\treturn uint32(simNext(&simCheapState))\n\t}\n"},
		{"func cheaprandu64() uint64 {\n", "func cheaprandu64() uint64 {\n\tif simOn {\n\t\treturn simNext(&simCheapState)\n\t}\n"},
	}},
	{"runtime/malloc.go", []edit{
		{"func mallocgcLarge(size uintptr, typ *_type, needzero bool) (unsafe.Pointer, uintptr) {\n", "func mallocgcLarge(size uintptr, typ *_type, needzero bool) (unsafe.Pointer, uintptr) {\n\tif simOn {\n\t\tsimMaxAlloc = max(simMaxAlloc, uint64(size))\n\t\tsimSpinBytes += uint64(size)\n\t}\n"},
	}},
	{"runtime/select.go", []edit{
		{"j := cheaprandn(uint32(norder + 1))", "j := simSelectn(uint32(norder + 1))"},
	}},
	{"crypto/internal/sysrand/rand.go", []edit{
		{"func Read(b []byte) {\n", "func Read(b []byte) {\n\tif runtime.SimRead(b) {\n\t\treturn\n\t}\n"},
		{"import (\n\t\"os\"\n", "import (\n\t\"os\"\n\t\"runtime\"\n"},
	}},
	{"net/dial.go", []edit{
		{"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n\tctx, cancel := d.dialCtx(ctx)\n\tdefer cancel()\n",
			"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n\tctx, cancel := d.dialCtx(ctx)\n\tdefer cancel()\n\tif SimDial != nil {\n\t\treturn SimDial(ctx, network, address)\n\t}\n"},
		{"func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n",
			"func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n\tif SimListen != nil {\n\t\treturn SimListen(ctx, network, address)\n\t}\n"},
		{"func (lc *ListenConfig) ListenPacket(ctx context.Context, network, address string) (PacketConn, error) {\n",
			"func (lc *ListenConfig) ListenPacket(ctx context.Context, network, address string) (PacketConn, error) {\n\tif SimListenPacket != nil {\n\t\treturn SimListenPacket(ctx, network, address)\n\t}\n"},
	}},
	{"os/proc.go", []edit{
		{"func Exit(code int) {\n", "func Exit(code int) {\n\tif SimExit != nil {\n\t\tSimExit(code)\n\t}\n"},
	}},
	{"os/signal/signal.go", []edit{
		{"func Notify(c chan<- os.Signal, sig ...os.Signal) {\n", "func Notify(c chan<- os.Signal, sig ...os.Signal) {\n\tif SimNotify != nil {\n\t\tSimNotify(c, sig)\n\t\treturn\n\t}\n"},
		{"func Stop(c chan<- os.Signal) {\n", "func Stop(c chan<- os.Signal) {\n\tif SimNotify != nil {\n\t\tSimNotify(c, nil)\n\t\treturn\n\t}\n"},
	}},
	{"syscall/zsyscall_linux_amd64.go", []edit{
		{"func openat(dirfd int,", "func openat_(dirfd int,"},
		{"func pwrite(fd int,", "func pwrite_(fd int,"},
		{"func write(fd int,", "func write_(fd int,"},
		{"func Close(fd int) ", "func close_(fd int) "},
		{"func Mkdirat(dirfd int,", "func mkdirat_(dirfd int,"},
		{"func unlinkat(dirfd int,", "func unlinkat_(dirfd int,"},
		{"func Renameat(olddirfd int,", "func renameat_(olddirfd int,"},
		{"func linkat(olddirfd int,", "func linkat_(olddirfd int,"},
		{"func symlinkat(oldpath string,", "func symlinkat_(oldpath string,"},
		{"func Ftruncate(fd int,", "func ftruncate_(fd int,"},
		{"func Truncate(path string,", "func truncate_(path string,"},
		{"func Fsync(fd int) ", "func fsync_(fd int) "},
		{"func Fdatasync(fd int) ", "func fdatasync_(fd int) "},
		{"func Fallocate(fd int,", "func fallocate_(fd int,"},
	}},
}

var stdFiles = map[string]string{
	"net/zsim.go": `package net

import "context"

var (
	SimDial         func(ctx context.Context, network, address string) (Conn, error)
	SimListen       func(ctx context.Context, network, address string) (Listener, error)
	SimListenPacket func(ctx context.Context, network, address string) (PacketConn, error)
)
`,
	"os/zsim.go": `package os

var SimExit func(code int)
`,
	"os/signal/zsim.go": `package signal

import "os"

// SimNotify is called with a nil list of signals for Stop.
var SimNotify func(c chan<- os.Signal, sig []os.Signal)
`,
	"syscall/zsim.go": `package syscall

// SimCall describes a file system call.
type SimCall struct {
	Op          string
	Dirfd, Fd   int
	Path, Path2 string
	Flags       int
	Off         int64
	Data        []byte
}

// SimBefore is asked before a call is made. If handled is true the call is not
// made and n and err are its result; if limit is not negative a write is made
// with only that many bytes.
var SimBefore func(c *SimCall) (handled bool, n, limit int, err error)

// SimAfter is told the result of a call which was made.
var SimAfter func(c *SimCall, n int, err error)

func simCall(c *SimCall, do func(data []byte) (int, error)) (int, error) {
	if SimBefore == nil {
		return do(c.Data)
	}
	handled, n, limit, err := SimBefore(c)
	if handled {
		return n, err
	}
	data := c.Data
	if limit >= 0 && limit < len(data) {
		data = data[:limit]
	}
	n, err = do(data)
	SimAfter(c, n, err)
	return n, err
}

func simCall0(c *SimCall, do func() error) error {
	_, err := simCall(c, func([]byte) (int, error) { return 0, do() })
	return err
}

func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {
	if SimBefore == nil {
		return openat_(dirfd, path, flags, mode)
	}
	return simCall(&SimCall{Op: "open", Dirfd: dirfd, Path: path, Flags: flags}, func([]byte) (int, error) { return openat_(dirfd, path, flags, mode) })
}

func pwrite(fd int, p []byte, offset int64) (n int, err error) {
	if SimBefore == nil {
		return pwrite_(fd, p, offset)
	}
	return simCall(&SimCall{Op: "pwrite", Fd: fd, Off: offset, Data: p}, func(d []byte) (int, error) { return pwrite_(fd, d, offset) })
}

func write(fd int, p []byte) (n int, err error) {
	if SimBefore == nil {
		return write_(fd, p)
	}
	return simCall(&SimCall{Op: "write", Fd: fd, Data: p}, func(d []byte) (int, error) { return write_(fd, d) })
}

func Close(fd int) (err error) {
	if SimBefore == nil {
		return close_(fd)
	}
	return simCall0(&SimCall{Op: "close", Fd: fd}, func() error { return close_(fd) })
}

func Mkdirat(dirfd int, path string, mode uint32) (err error) {
	if SimBefore == nil {
		return mkdirat_(dirfd, path, mode)
	}
	return simCall0(&SimCall{Op: "mkdir", Dirfd: dirfd, Path: path}, func() error { return mkdirat_(dirfd, path, mode) })
}

func unlinkat(dirfd int, path string, flags int) (err error) {
	if SimBefore == nil {
		return unlinkat_(dirfd, path, flags)
	}
	return simCall0(&SimCall{Op: "unlink", Dirfd: dirfd, Path: path}, func() error { return unlinkat_(dirfd, path, flags) })
}

func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {
	if SimBefore == nil {
		return renameat_(olddirfd, oldpath, newdirfd, newpath)
	}
	return simCall0(&SimCall{Op: "rename", Dirfd: olddirfd, Path: oldpath, Path2: newpath}, func() error { return renameat_(olddirfd, oldpath, newdirfd, newpath) })
}

func linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flags int) (err error) {
	if SimBefore == nil {
		return linkat_(olddirfd, oldpath, newdirfd, newpath, flags)
	}
	return simCall0(&SimCall{Op: "link", Dirfd: olddirfd, Path: oldpath, Path2: newpath}, func() error { return linkat_(olddirfd, oldpath, newdirfd, newpath, flags) })
}

func symlinkat(oldpath string, newdirfd int, newpath string) (err error) {
	if SimBefore == nil {
		return symlinkat_(oldpath, newdirfd, newpath)
	}
	return simCall0(&SimCall{Op: "symlink", Dirfd: newdirfd, Path: newpath, Path2: oldpath}, func() error { return symlinkat_(oldpath, newdirfd, newpath) })
}

func Ftruncate(fd int, length int64) (err error) {
	if SimBefore == nil {
		return ftruncate_(fd, length)
	}
	return simCall0(&SimCall{Op: "ftruncate", Fd: fd, Off: length}, func() error { return ftruncate_(fd, length) })
}

func Truncate(path string, length int64) (err error) {
	if SimBefore == nil {
		return truncate_(path, length)
	}
	return simCall0(&SimCall{Op: "truncate", Dirfd: _AT_FDCWD, Path: path, Off: length}, func() error { return truncate_(path, length) })
}

func Fsync(fd int) (err error) {
	if SimBefore == nil {
		return fsync_(fd)
	}
	return simCall0(&SimCall{Op: "fsync", Fd: fd}, func() error { return fsync_(fd) })
}

func Fdatasync(fd int) (err error) {
	if SimBefore == nil {
		return fdatasync_(fd)
	}
	return simCall0(&SimCall{Op: "fsync", Fd: fd}, func() error { return fdatasync_(fd) })
}

func Fallocate(fd int, mode uint32, off int64, len int64) (err error) {
	if SimBefore == nil {
		return fallocate_(fd, mode, off, len)
	}
	return simCall0(&SimCall{Op: "fallocate", Fd: fd, Off: off + len}, func() error { return fallocate_(fd, mode, off, len) })
}
`,
	"runtime/zsim.go": `package runtime

import "internal/runtime/atomic"

const simFixedSeed = true

// State of the simulation. All of it is used by one thread only: there is one
// processor, no preemption and no background thread.
var (
	simOn         bool
	simSchedState uint64 // decisions of the scheduler
	simRandState  uint64 // random numbers of the program
	simCheapState uint64 // random numbers of the runtime

	simMode   int    // 0: uniform choice, 1: random priorities changed now and then
	simEpoch  uint64 // salt of the priorities
	simChange uint32 // one in simChange decisions changes the priorities
	simMean   uint32 // mean number of scheduling points between two yields, 0: never
	simSkip   uint32

	simHash      uint64
	simDecisions uint64
	simChoices   uint64
	simPoints    uint64
	simYields    uint64
	simAdvances  uint64
	simSpin      uint64 // scheduling points since the clock last moved
	simSpinLimit uint64
	simMaxAlloc  uint64
	simSpinBytes uint64 // allocated in big objects since the clock last moved
)

//go:nosplit
func simNext(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// SimStart turns the simulation on.
func SimStart(seed uint64, mode int, meanYield, change uint32, spinLimit uint64) {
	simSchedState = seed
	simRandState = seed ^ 0x5555555555555555
	simCheapState = seed ^ 0x3333333333333333
	simMode = mode
	simMean = meanYield
	simChange = change
	simEpoch = simNext(&simSchedState)
	simSpinLimit = spinLimit
	simNewSkip()
	simOn = true
}

// SimStop turns the simulation off.
func SimStop() { simOn = false }

// SimClockBack restarts the counting of scheduling points at one time.
func SimStats() (hash, decisions, choices, points, yields, advances uint64) {
	return simHash, simDecisions, simChoices, simPoints, simYields, simAdvances
}

// SimMaxAlloc returns the size of the biggest object allocated so far.
func SimMaxAlloc() uint64 { return simMaxAlloc }

// SimNow returns the simulated time.
func SimNow() int64 { return faketime }

// SimRead fills b with random bytes of the simulation.
func SimRead(b []byte) bool {
	if !simOn {
		return false
	}
	for i := range b {
		b[i] = byte(simNext(&simRandState))
	}
	return true
}

func simNewSkip() {
	if simMean == 0 {
		simSkip = 1 << 31
		return
	}
	simSkip = uint32(simNext(&simSchedState)>>33) % (2*simMean + 1)
}

// SimYield is a scheduling point.
func SimYield() {
	if !simOn {
		return
	}
	simPoints++
	simSpin++
	if simSkip > 0 {
		simSkip--
		return
	}
	if simSpin > simSpinLimit || simSpinBytes > 16<<30 {
		throw("sim: no progress of time")
	}
	simNewSkip()
	simYields++
	goyield()
}

//go:nosplit
func simSelectn(n uint32) uint32 {
	if simOn {
		return uint32((uint64(uint32(simNext(&simSchedState))) * uint64(n)) >> 32)
	}
	return cheaprandn(n)
}

func simPriority(gp *g) uint64 {
	s := simEpoch ^ uint64(gp.goid)*0x9e3779b97f4a7c15
	return simNext(&s)
}

// simRunqget takes one of the runnable goroutines.
func simRunqget(pp *p) *g {
	// make goroutines which did not fit into the queue of the processor visible
	h := atomic.LoadAcq(&pp.runqhead)
	t := pp.runqtail
	n := t - h
	next := pp.runnext
	total := n
	if next != 0 {
		total++
	}
	if total == 0 {
		return nil
	}
	simDecisions++
	var pick uint32
	if total > 1 {
		simChoices++
		r := simNext(&simSchedState)
		if simMode == 1 {
			if simChange != 0 && uint32(r>>32)%simChange == 0 {
				simEpoch = simNext(&simSchedState)
			}
			var best uint64
			for i := uint32(0); i < total; i++ {
				gp := next.ptr()
				if i < n {
					gp = pp.runq[(h+i)%uint32(len(pp.runq))].ptr()
				}
				if q := simPriority(gp); i == 0 || q > best {
					best, pick = q, i
				}
			}
		} else {
			pick = uint32((r >> 32) * uint64(total) >> 32)
		}
	}
	var gp *g
	if pick == n {
		gp = next.ptr()
		pp.runnext = 0
	} else {
		gp = pp.runq[(h+pick)%uint32(len(pp.runq))].ptr()
		for i := pick; i > 0; i-- {
			pp.runq[(h+i)%uint32(len(pp.runq))] = pp.runq[(h+i-1)%uint32(len(pp.runq))]
		}
		atomic.StoreRel(&pp.runqhead, h+1)
	}
	simHash = (simHash ^ uint64(gp.goid)) * 0x100000001b3
	simHash ^= simHash >> 29
	return gp
}

// simAdvance moves the clock to the next timer. It returns false if there is
// none.
func simAdvance(pp *p) bool {
	if !sched.runq.empty() || sched.gcwaiting.Load() || gcBlackenEnabled != 0 {
		return false
	}
	w := pp.timers.wakeTime()
	if w == 0 || w == maxWhen {
		return false
	}
	if w > faketime {
		faketime = w
		simAdvances++
		simSpin = 0
		simSpinBytes = 0
	}
	return true
}
`,
}
