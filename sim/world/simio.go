package world

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"time"

	"verif.local/sim/core"
	"verif.local/sim/seam"
)

var errInjected = errors.New("injected i/o error")

// ---- reading ----

// delivery is how a simulated stream hands out its bytes.
type delivery struct {
	mode      int // 0 as much as asked, 1 byte by byte, 2 random chunks, 3 fixed chunk, 4 fragments around a boundary
	chunk     int
	seed      *core.Sub
	zeroReads bool // legal empty reads in between
	eofData   bool // io.EOF together with the last bytes
	// faults
	errAt   int // offset at which the stream fails (-1: never)
	errData bool
	err     error
	after   int // what follows the failure: 0 the same error, 1 the rest of the data, 2 io.EOF
	stall   int // offset at which the stream only returns empty reads (-1: never)
}

func plainDelivery() delivery { return delivery{errAt: -1, stall: -1} }

func drawDelivery(r *core.R, size int) delivery {
	d := plainDelivery()
	d.mode = r.Pick(2, 2, 3, 2, 2)
	switch d.mode {
	case 2:
		d.chunk = 1 + r.Small(2000)
		d.seed = r.Sub()
	case 3:
		d.chunk = 1 + r.Small(5000)
	case 4:
		d.chunk = r.N(size + 1)
		if r.Bool(1, 2) {
			d.chunk = r.N(20)
		}
	}
	d.zeroReads = r.Bool(1, 3)
	d.eofData = r.Bool(1, 3)
	if d.seed == nil {
		d.seed = r.Sub()
	}
	return d
}

func (d delivery) String() string {
	s := []string{"whole", "bytewise", "random chunks", "fixed chunks", "split at"}[d.mode] + fmt.Sprintf(" %d", d.chunk)
	if d.zeroReads {
		s += " +empty reads"
	}
	if d.eofData {
		s += " +eof with data"
	}
	if d.errAt >= 0 {
		s += fmt.Sprintf(" +error at %d (with data: %v, %v, then %s)", d.errAt, d.errData, d.err, []string{"the same", "the rest", "eof"}[d.after])
	}
	if d.stall >= 0 {
		s += fmt.Sprintf(" +stall at %d", d.stall)
	}
	return s
}

// simReader is a simulated stream.
type simReader struct {
	r         *core.R
	data      []byte
	d         delivery
	pos       int
	zeros     int
	calls     int
	failed    bool // the injected error was delivered
	stalled   bool
	stalls    int
	afterFail int
	sawEOF    bool
	kinds     map[string]bool
}

func newReader(r *core.R, data []byte, d delivery) *simReader {
	return &simReader{r: r, data: data, d: d, kinds: map[string]bool{}}
}

func (s *simReader) note(kind string) {
	if !s.kinds[kind] {
		s.kinds[kind] = true
		s.r.Fault(kind)
	}
}

func (s *simReader) fail(kind string) {
	s.failed = true
	s.note(kind)
	if s.d.after != 0 {
		s.note("read error that goes away")
	}
}

func (s *simReader) Read(p []byte) (int, error) {
	s.calls++
	seam.AddSteps(20)
	s.r.Yield()
	if s.calls > 2_000_000+8*len(s.data) {
		panic(seam.HangError{Steps: uint64(s.calls)})
	}
	if s.d.stall >= 0 && s.pos >= s.d.stall {
		s.stalled = true
		if s.stalls++; s.stalls > 50_000 {
			panic(seam.HangError{Steps: uint64(s.calls)})
		}
		s.note("stalled reader")
		return 0, nil
	}
	limit := len(s.data)
	if s.d.errAt >= 0 && s.d.errAt < limit {
		limit = s.d.errAt
	}
	if s.d.stall >= 0 && s.d.stall < limit {
		limit = s.d.stall
	}
	if s.failed {
		s.afterFail++
		switch {
		case s.d.after == 0 || s.afterFail > 100000:
			return 0, s.d.err
		case s.d.after == 2:
			return 0, io.EOF
		}
		limit = len(s.data)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if s.pos >= limit {
		if s.d.errAt >= 0 && s.pos >= s.d.errAt && !s.failed {
			s.fail("read error")
			return 0, s.d.err
		}
		s.sawEOF = true
		return 0, io.EOF
	}
	if s.d.zeroReads && s.zeros < 3 && s.d.seed.N(3) == 0 {
		s.zeros++
		s.note("empty read")
		return 0, nil
	}
	s.zeros = 0
	n := len(p)
	switch s.d.mode {
	case 1:
		n = 1
	case 2:
		n = 1 + s.d.seed.N(s.d.chunk)
	case 3:
		n = s.d.chunk
	case 4:
		if s.pos < s.d.chunk {
			n = s.d.chunk - s.pos
		}
	}
	if n < len(p) && n < limit-s.pos {
		s.note("short read")
	}
	n = min(n, len(p), limit-s.pos)
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.pos == limit {
		if s.d.errAt >= 0 && s.pos >= s.d.errAt && s.d.errData && !s.failed {
			s.fail("read error with data")
			return n, s.d.err
		}
		if s.d.eofData && s.pos == len(s.data) && s.d.errAt < 0 && s.d.stall < 0 {
			s.sawEOF = true
			s.note("eof with data")
			return n, io.EOF
		}
	}
	return n, nil
}

// ---- writing ----

type crashSignal struct{}

// simWriter accepts bytes until its plan makes it fail.
type simWriter struct {
	r      *core.R
	buf    []byte
	calls  int
	failAt int // -1 never; byte offset
	failNo int // -1 never; write call number
	mode   int // 0 error after partial write, 1 error and nothing written, 2 short write without error, 3 crash, 4 error after complete write
	failed bool
	err    error
	once   bool // only fails once, later writes succeed
}

func newWriter(r *core.R) *simWriter { return &simWriter{r: r, failAt: -1, failNo: -1} }

func (s *simWriter) Write(p []byte) (int, error) {
	s.calls++
	seam.AddSteps(20)
	s.r.Yield()
	if s.failed && !s.once {
		return 0, s.err
	}
	hit := !s.failed && (s.failNo >= 0 && s.calls-1 == s.failNo || s.failAt >= 0 && len(s.buf)+len(p) > s.failAt)
	if !hit {
		s.buf = append(s.buf, p...)
		return len(p), nil
	}
	s.failed = true
	n := 0
	if s.failAt >= 0 {
		n = max(0, s.failAt-len(s.buf))
	} else if len(p) > 1 {
		n = len(p) / 2
	}
	switch s.mode {
	case 0:
		s.r.Fault("write error after partial write")
	case 1:
		n = 0
		s.r.Fault("write error")
	case 2:
		s.r.Fault("short write")
		s.buf = append(s.buf, p[:n]...)
		if n == len(p) {
			s.r.Harnessf("short write wasn't short")
		}
		return n, nil
	case 3:
		s.buf = append(s.buf, p[:n]...)
		s.r.Fault("crash during write")
		panic(crashSignal{})
	case 4:
		n = len(p)
		s.r.Fault("write error after complete write")
	}
	s.buf = append(s.buf, p[:n]...)
	return n, s.err
}

// crashes runs f; it returns true if f was interrupted by a simulated crash.
func crashes(f func()) (crashed bool) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(crashSignal); ok {
				crashed = true
				return
			}
			panic(p)
		}
	}()
	f()
	return false
}

// ---- disk ----

const sectorSize = 64 // small, so that small files span many sectors

type diskFile struct {
	durable  []byte
	volatile []byte
	dirty    bool
}

// simDisk keeps files with volatile and durable contents.
type simDisk struct {
	r     *core.R
	files map[string]*diskFile
	names []string
}

func newDisk(r *core.R) *simDisk { return &simDisk{r: r, files: map[string]*diskFile{}} }

func (d *simDisk) put(name string, volatile []byte, synced bool) {
	f := d.files[name]
	if f == nil {
		f = &diskFile{}
		d.files[name] = f
		d.names = append(d.names, name)
	}
	f.volatile = volatile
	f.dirty = true
	if synced {
		f.durable, f.dirty = append([]byte(nil), volatile...), false
	}
}

// crash loses what wasn't synced, sector by sector.
func (d *simDisk) crash() {
	d.r.Fault("crash")
	for _, name := range d.names {
		f := d.files[name]
		if !f.dirty {
			continue
		}
		old, cur := f.durable, f.volatile
		var got []byte
		switch d.r.Pick(2, 2, 3, 1) {
		case 0: // nothing reached the disk
			got = append([]byte(nil), old...)
			d.r.Fault("lost writes")
		case 1: // a prefix did
			n := d.r.N(len(cur) + 1)
			got = append([]byte(nil), cur[:n]...)
			if len(old) > n && d.r.Bool(1, 2) {
				got = append(got, old[n:]...)
			}
			d.r.Fault("torn write")
		case 2: // any subset of the sectors did
			s := d.r.Sub()
			got = make([]byte, len(cur))
			for i := 0; i < len(cur); i += sectorSize {
				end := min(i+sectorSize, len(cur))
				switch s.N(4) {
				case 0:
					if i < len(old) {
						copy(got[i:end], old[i:])
					}
				case 1: // zeros
				default:
					copy(got[i:end], cur[i:end])
				}
			}
			d.r.Fault("reordered or lost sectors")
		case 3:
			got = append([]byte(nil), cur...)
		}
		f.durable, f.volatile, f.dirty = got, append([]byte(nil), got...), false
	}
}

// ---- file system ----

type fsPlan struct {
	openErr, statErr, closeErr, sizeLies bool
	statSize                             int64
	d                                    delivery
}

type simFS struct {
	r      *core.R
	data   map[string][]byte
	plan   fsPlan
	opened []*simFile
	kinds  map[string]int
}

type simFile struct {
	fs     *simFS
	rd     *simReader
	size   int64
	closed int
	misuse string

	statFailed bool
}

func (f *simFS) Open(name string) (fs.File, error) {
	f.r.Yield()
	if f.plan.openErr {
		f.r.Fault("open error")
		return nil, &fs.PathError{Op: "open", Path: name, Err: errInjected}
	}
	data, ok := f.data[name]
	if !ok {
		f.r.Fault("missing file")
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	size := int64(len(data))
	if f.plan.sizeLies {
		size = f.plan.statSize
	}
	file := &simFile{fs: f, rd: newReader(f.r, data, f.plan.d), size: size}
	f.opened = append(f.opened, file)
	return file, nil
}

func (f *simFile) Stat() (fs.FileInfo, error) {
	f.fs.r.Yield()
	if f.closed > 0 {
		f.misuse = "Stat after Close"
	}
	if f.fs.plan.statErr {
		f.fs.r.Fault("stat error")
		f.statFailed = true
		return nil, errInjected
	}
	return fileInfo{f.size}, nil
}
func (f *simFile) Read(p []byte) (int, error) {
	if f.closed > 0 {
		f.misuse = "Read after Close"
		return 0, fs.ErrClosed
	}
	return f.rd.Read(p)
}
func (f *simFile) Close() error {
	f.fs.r.Yield()
	f.closed++
	if f.fs.plan.closeErr {
		f.fs.r.Fault("close error")
		return errInjected
	}
	return nil
}

type fileInfo struct{ size int64 }

func (i fileInfo) Name() string       { return "font.ggfnt" }
func (i fileInfo) Size() int64        { return i.size }
func (i fileInfo) Mode() fs.FileMode  { return 0o644 }
func (i fileInfo) ModTime() time.Time { return time.Time{} }
func (i fileInfo) IsDir() bool        { return false }
func (i fileInfo) Sys() any           { return nil }
