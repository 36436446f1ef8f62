package main

import (
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"verifsim/scn"
)

// fsim watches and disturbs the file system calls of the client.
type fsim struct {
	slow  int64 // time spent in slow writes
	host  bool  // the harness itself uses the file system
	files map[string]*fileSpec
	open  map[int]*openFile
	ops   int // effects so far
	crash *scn.Crash

	// bytes of the content which are on disk
	good    [][]bool
	left    []int   // bytes of each piece which are not
	pieceAt []int64 // when a piece was complete, 0: not yet
	written int     // bytes in complete pieces
	doneAt  int64

	pwrites, opens int
	// undo log of effects which are not durable
	pending []effect
	denied  int
	off     bool
}

type fileSpec struct {
	path  string
	start int // offset in the content
	len   int
}

type openFile struct {
	path   string
	spec   *fileSpec
	write  bool
	append bool
	pos    int64
	full   bool // the next write fails
}

// effect is something a crash can undo.
type effect struct {
	kind string // create, mkdir, write, trunc
	path string
	off  int64
	old  []byte // content before, for write and trunc
	size int64  // size before
	new  []byte
}

func newFS() *fsim {
	f := &fsim{files: map[string]*fileSpec{}, open: map[int]*openFile{}}
	at := 0
	for _, l := range w.s.Torrent.Layout() {
		p := filepath.Join(append([]string{w.out}, l.Path...)...)
		f.files[p] = &fileSpec{p, at, l.Len}
		at += l.Len
	}
	n := 0
	if w.s.Torrent.PieceLen > 0 {
		n = w.s.Torrent.Pieces()
	}
	f.pieceAt = make([]int64, n)
	f.left = make([]int, n)
	f.good = make([][]bool, n)
	for i := range f.left {
		f.left[i] = w.s.Torrent.PieceSize(i)
	}
	if w.phase < len(w.s.Crashes) {
		f.crash = &w.s.Crashes[w.phase]
	}
	return f
}

func (f *fsim) complete() bool {
	for _, a := range f.pieceAt {
		if a == 0 {
			return false
		}
	}
	return true
}

func (f *fsim) inside(p string) bool {
	return p == w.out || strings.HasPrefix(p, w.out+"/")
}

func abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = w.dir + "/" + p
	}
	return filepath.Clean(p)
}

func rel(p string) string {
	if r, err := filepath.Rel(w.dir, p); err == nil && !strings.HasPrefix(r, "..") {
		return r
	}
	return p
}

// permitted tells if the modes of files and directories let their owner do the
// call: the simulator may run as root, whom they do not stop.
func (f *fsim) permitted(c *syscall.SimCall, path string) bool {
	if c.Fd != 0 && c.Op != "open" && c.Path == "" || !f.inside(path) {
		return true
	}
	host := f.host
	f.host = true
	defer func() { f.host = host }()
	var st syscall.Stat_t
	for d := w.out; d != path; {
		if syscall.Lstat(d, &st) == nil && st.Mode&syscall.S_IFMT == syscall.S_IFDIR {
			need := uint32(0o100)
			if d == filepath.Dir(path) && (c.Op != "open" && c.Op != "truncate" || c.Flags&syscall.O_CREAT != 0 && syscall.Access(path, 0) != nil) {
				need = 0o300
			}
			if st.Mode&need != need {
				return false
			}
		}
		next, _, _ := strings.Cut(path[len(d)+1:], "/")
		d += "/" + next
	}
	if (c.Op == "open" || c.Op == "truncate") && syscall.Lstat(path, &st) == nil && st.Mode&syscall.S_IFMT == syscall.S_IFREG {
		need := uint32(0o200)
		if c.Op == "open" && c.Flags&syscall.O_ACCMODE == syscall.O_RDWR {
			need = 0o600
		} else if c.Op == "open" && c.Flags&syscall.O_ACCMODE == syscall.O_RDONLY && c.Flags&syscall.O_TRUNC == 0 {
			need = 0o400
		}
		return st.Mode&need == need
	}
	return true
}

const writeFlags = syscall.O_WRONLY | syscall.O_RDWR | syscall.O_CREAT | syscall.O_TRUNC | syscall.O_APPEND

func (f *fsim) before(c *syscall.SimCall) (handled bool, n, limit int, err error) {
	if f.host || f.off {
		return false, 0, -1, nil
	}
	var path string
	effectful := true
	switch c.Op {
	case "open":
		if c.Flags&writeFlags == 0 {
			return false, 0, -1, nil
		}
		path = abs(c.Path)
		if path == "/dev/tty" {
			return true, -1, 0, syscall.ENXIO // there is no terminal
		}
	case "mkdir", "unlink", "rename", "link", "symlink", "truncate":
		path = abs(c.Path)
	default:
		o := f.open[c.Fd]
		if o == nil || !o.write {
			return false, 0, -1, nil // not a file of the client
		}
		path = o.path
		effectful = c.Op != "close" && c.Op != "fsync"
	}

	// containment: nothing outside the output directory is touched, not even
	// to see what happens
	outside := !f.inside(path) || (path == w.out && c.Op != "mkdir" && c.Op != "open")
	if c.Path2 != "" && c.Op != "symlink" && !f.inside(abs(c.Path2)) {
		outside, path = true, abs(c.Path2)
	}
	if outside {
		f.denied++
		violate("C15", "outside", "%s of %s, which is not in the output directory", c.Op, rel(path))
		return true, -1, 0, syscall.EPERM
	}
	if w.quiet {
		violate("C04", "write-after-return", "%s of %s after the download had returned", c.Op, rel(path))
	}
	if !effectful {
		return false, 0, -1, nil
	}

	if !f.permitted(c, path) || c.Op == "rename" && !f.permitted(c, abs(c.Path2)) {
		ev("fs %s %s is not permitted", c.Op, rel(path))
		reached("not-permitted")
		return true, -1, 0, syscall.EACCES
	}

	f.ops++
	if f.crash != nil && f.ops > f.crash.Op {
		f.die()
	}
	limit = -1
	switch c.Op {
	case "open":
		k := f.opens
		f.opens++
		if fl := diskFault("open", k); fl != nil {
			fault("disk.open." + fl.Kind)
			return true, -1, 0, errnoOf(fl.Kind)
		}
		f.beforeOpen(c, path)
	case "pwrite", "write":
		if o := f.open[c.Fd]; c.Op == "write" {
			o.where(c.Fd)
		}
		k := f.pwrites
		f.pwrites++
		if o := f.open[c.Fd]; o.full {
			o.full = false
			return true, 0, 0, syscall.ENOSPC
		}
		if fl := diskFault("write", k); fl != nil {
			fault("disk.write." + fl.Kind)
			if fl.Kind == "slow" {
				sleepMs(fl.Dur)
				f.slow += fl.Dur * ms
				break
			}
			if fl.Kind == "short" || fl.Kind == "torn" || fl.Kind == "full" {
				// part of it gets through: the caller may go on with the rest
				// (short), which then fails (full), or hears of it at once
				limit = len(c.Data) * int(fl.Arg%100) / 100
				f.open[c.Fd].full = fl.Kind == "full" && limit > 0
				if limit == 0 || fl.Kind == "torn" {
					f.applyWrite(c, limit)
					return true, limit, 0, syscall.ENOSPC
				}
				break
			}
			return true, 0, 0, errnoOf(fl.Kind)
		}
	case "mkdir":
		if fl := diskFault("mkdir", 0); fl != nil {
			fault("disk.mkdir." + fl.Kind)
			return true, -1, 0, errnoOf(fl.Kind)
		}
	case "ftruncate", "truncate":
		f.saveOld(effect{kind: "trunc", path: path})
	}
	if c.Op == "pwrite" || c.Op == "write" {
		d := c.Data
		if limit >= 0 {
			d = d[:limit]
		}
		f.saveWrite(f.open[c.Fd], c, d)
	}
	return false, 0, limit, nil
}

func errnoOf(kind string) error {
	switch kind {
	case "enospc":
		return syscall.ENOSPC
	case "eacces":
		return syscall.EACCES
	case "emfile":
		return syscall.EMFILE
	case "edquot":
		return syscall.EDQUOT
	}
	return syscall.EIO
}

func diskFault(on string, n int) *scn.Fault {
	for i := range w.s.Disk {
		if w.s.Disk[i].Hits(on, n) {
			return &w.s.Disk[i]
		}
	}
	return nil
}

// applyWrite does part of a write which then fails.
func (f *fsim) applyWrite(c *syscall.SimCall, n int) {
	if n == 0 {
		return
	}
	o := f.open[c.Fd]
	off := c.Off
	if c.Op == "write" {
		off = o.pos
	}
	f.saveWrite(o, c, c.Data[:n])
	f.host = true
	syscall.Pwrite(c.Fd, c.Data[:n], off)
	f.host = false
	if c.Op == "write" && !o.append {
		syscall.Seek(c.Fd, int64(n), io.SeekCurrent)
	}
	f.check(o, off, c.Data[:n])
}

// where finds out where the file is written to next.
func (o *openFile) where(fd int) {
	from := io.SeekCurrent
	if o.append {
		from = io.SeekEnd
	}
	if at, err := syscall.Seek(fd, 0, from); err == nil {
		o.pos = at
	}
}

func (f *fsim) after(c *syscall.SimCall, n int, err error) {
	if f.host || f.off {
		return
	}
	switch c.Op {
	case "open":
		if err != nil || c.Flags&writeFlags == 0 {
			return
		}
		p := abs(c.Path)
		o := &openFile{path: p, spec: f.files[p], write: true, append: c.Flags&syscall.O_APPEND != 0}
		f.open[n] = o
		ev("fs open %s %x", rel(p), c.Flags)
		if o.spec == nil && w.s.Kind == "swarm" {
			count("other_files")
		}
		if c.Flags&syscall.O_TRUNC != 0 && o.spec != nil {
			f.lost(o.spec, 0, o.spec.len)
		}
	case "close":
		if o := f.open[c.Fd]; o != nil {
			ev("fs close %s", rel(o.path))
			delete(f.open, c.Fd)
		}
	case "pwrite", "write":
		o := f.open[c.Fd]
		if o == nil || err != nil || n <= 0 {
			return
		}
		off := c.Off
		if c.Op == "write" {
			off = o.pos
		}
		f.check(o, off, c.Data[:n])
	case "fsync":
		if o := f.open[c.Fd]; o != nil && err == nil {
			ev("fs fsync %s", rel(o.path))
			f.durable(o.path)
		}
	case "mkdir":
		if err == nil {
			ev("fs mkdir %s", rel(abs(c.Path)))
			f.pending = append(f.pending, effect{kind: "mkdir", path: abs(c.Path)})
		}
	case "unlink":
		if err == nil {
			p := abs(c.Path)
			ev("fs unlink %s", rel(p))
			count("unlink")
			if s := f.files[p]; s != nil {
				f.lost(s, 0, s.len)
			}
		}
	case "rename":
		if err == nil {
			ev("fs rename %s %s", rel(abs(c.Path)), rel(abs(c.Path2)))
			count("rename")
		}
	case "ftruncate":
		if o := f.open[c.Fd]; o != nil && err == nil && o.spec != nil {
			ev("fs truncate %s %d", rel(o.path), c.Off)
			if c.Off > int64(o.spec.len) {
				violate("C01", "beyond-end", "file %s is extended to %d bytes, it has %d", rel(o.path), c.Off, o.spec.len)
			}
			if c.Off < int64(o.spec.len) {
				f.lost(o.spec, int(c.Off), o.spec.len)
			}
		}
	}
}

// check compares written bytes with the content.
func (f *fsim) check(o *openFile, off int64, d []byte) {
	ev("fs write %s %d %d %s", rel(o.path), off, len(d), hex8(d))
	count("writes")
	if o.spec == nil || w.s.Kind != "swarm" {
		return
	}
	if off < 0 || off+int64(len(d)) > int64(o.spec.len) {
		violate("C01", "beyond-end", "write of %d bytes at %d of %s, which has %d bytes", len(d), off, rel(o.path), o.spec.len)
		return
	}
	at := o.spec.start + int(off)
	for i, b := range d {
		if c := w.s.Torrent.Byte(w.data, at+i); c != b {
			violate("C01", "wrong-byte", "byte %d of %s is written as %#x, the content is %#x", off+int64(i), rel(o.path), b, c)
			return
		}
	}
	if at >= 1<<32 {
		reached("write-beyond-4g")
	}
	l := w.s.Torrent.PieceLen
	for i := at; i < at+len(d); i++ {
		p := i / l
		if f.good[p] == nil {
			f.good[p] = make([]bool, w.s.Torrent.PieceSize(p))
		}
		if !f.good[p][i%l] {
			f.good[p][i%l] = true
			f.gain(i)
		}
	}
}

func (f *fsim) gain(pos int) {
	p := pos / w.s.Torrent.PieceLen
	f.left[p]--
	if f.left[p] == 0 {
		f.pieceAt[p] = max(now(), 1)
		f.written += w.s.Torrent.PieceSize(p)
		ev("piece %d complete", p)
		if f.complete() {
			f.doneAt = now()
		}
	}
}

func (f *fsim) lost(s *fileSpec, from, to int) {
	l := w.s.Torrent.PieceLen
	for i := s.start + from; i < s.start+to; i++ {
		p := i / l
		if f.good[p] == nil {
			i = (p+1)*l - 1
			continue
		}
		if f.good[p][i%l] {
			f.good[p][i%l] = false
			if f.left[p] == 0 {
				f.pieceAt[p] = 0
				f.written -= w.s.Torrent.PieceSize(p)
			}
			f.left[p]++
		}
	}
}

func (f *fsim) beforeOpen(c *syscall.SimCall, path string) {
	if len(w.s.Crashes) == 0 {
		return
	}
	f.host = true
	defer func() { f.host = false }()
	if _, err := os.Lstat(path); err != nil {
		f.pending = append(f.pending, effect{kind: "create", path: path})
		return
	}
	if c.Flags&syscall.O_TRUNC != 0 {
		f.saveOld(effect{kind: "trunc", path: path})
	}
}

func (f *fsim) saveOld(e effect) {
	if len(w.s.Crashes) == 0 {
		return
	}
	h := f.host
	f.host = true
	e.old, _ = os.ReadFile(e.path)
	f.host = h
	f.pending = append(f.pending, e)
}

func (f *fsim) saveWrite(o *openFile, c *syscall.SimCall, d []byte) {
	if len(w.s.Crashes) == 0 || o == nil {
		return
	}
	off := c.Off
	if c.Op == "write" {
		off = o.pos
	}
	e := effect{kind: "write", path: o.path, off: off, new: append([]byte(nil), d...)}
	first := true
	for _, p := range f.pending {
		first = first && p.path != o.path
	}
	if first {
		h := f.host
		f.host = true
		e.old, _ = os.ReadFile(o.path)
		f.host = h
	}
	f.pending = append(f.pending, e)
}

func (f *fsim) durable(path string) {
	keep := f.pending[:0]
	for _, e := range f.pending {
		if e.path != path || e.kind == "mkdir" {
			keep = append(keep, e)
		}
	}
	f.pending = keep
}

// die is a crash of the machine: of the effects which were not made durable
// some are lost, some are torn. The process ends here.
func (f *fsim) die() {
	f.host = true
	fault("crash")
	r := scn.NewRand(f.crash.Seed)
	type img struct {
		data   []byte
		exists bool
	}
	// what every file looked like before the first pending effect
	files := map[string]*img{}
	var order []string
	gone := map[string]bool{}
	for _, e := range f.pending {
		if e.kind == "mkdir" || files[e.path] != nil {
			continue
		}
		order = append(order, e.path)
		im := &img{exists: true}
		if e.kind == "create" {
			im.exists = false
		} else {
			im.data = append([]byte(nil), e.old...)
		}
		files[e.path] = im
	}
	for _, e := range f.pending {
		im := files[e.path]
		lose := r.N(100) < f.crash.Loss
		switch e.kind {
		case "mkdir":
			if lose && r.P(20) {
				gone[e.path] = true
			}
		case "create":
			im.exists = !(lose && r.P(30))
			if !im.exists {
				fault("crash.lost-create")
			}
		case "trunc":
			if lose {
				fault("crash.lost-truncate")
			} else {
				im.data = nil
			}
		case "write":
			d := e.new
			if lose {
				if r.P(50) {
					fault("crash.lost-write")
					// the size may have changed all the same
					if r.P(50) && int(e.off)+len(d) > len(im.data) {
						im.data = append(im.data, make([]byte, int(e.off)+len(d)-len(im.data))...)
					}
					continue
				}
				fault("crash.torn-write")
				d = d[:r.N(len(d)+1)]
			}
			if n := int(e.off) + len(d); n > len(im.data) {
				im.data = append(im.data, make([]byte, n-len(im.data))...)
			}
			copy(im.data[e.off:], d)
		}
	}
	for _, p := range order {
		mode := os.FileMode(0o644)
		if fi, err := os.Lstat(p); err == nil {
			mode = fi.Mode().Perm()
		}
		os.Remove(p)
		if files[p].exists {
			os.MkdirAll(filepath.Dir(p), 0o755)
			os.WriteFile(p, files[p].data, 0o644)
			os.Chmod(p, mode)
		}
	}
	var dirs []string
	for p := range gone {
		dirs = append(dirs, p)
	}
	sort.Strings(dirs)
	for _, p := range dirs {
		if f.inside(p) && p != w.out {
			fault("crash.lost-mkdir")
			os.RemoveAll(p)
		}
	}
	finish(true)
}

// tree compares the output directory with the torrent. extra files are
// reported unless they were left over from before.
func (f *fsim) tree() string {
	f.host = true
	defer func() { f.host = false }()
	var paths []string
	for p := range f.files {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		s := f.files[p]
		st, err := os.Lstat(p)
		if err != nil {
			return "file " + rel(p) + " does not exist"
		}
		if !st.Mode().IsRegular() {
			return rel(p) + " is not a file"
		}
		if w.s.Torrent.Period > 0 {
			if st.Size() != int64(s.len) {
				return "file " + rel(p) + " has " + itoa(int(st.Size())) + " bytes instead of " + itoa(s.len)
			}
			if !f.complete() {
				return "not everything was written to " + rel(p)
			}
			continue
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err.Error()
		}
		if len(b) != s.len {
			return "file " + rel(p) + " has " + itoa(len(b)) + " bytes instead of " + itoa(s.len)
		}
		for i := range b {
			if b[i] != w.data[s.start+i] {
				return "file " + rel(p) + " differs at byte " + itoa(i)
			}
		}
	}
	return ""
}
