package world

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"

	"verif.local/sim/core"
	"verif.local/sim/seam"
)

// drawAuthor makes an author with contents of all kinds that can be exported.
func drawAuthor(r *core.R, glyphs, steps int) (*author, *Spec) {
	a := newAuthor(r)
	a.fill(1 + r.Small(glyphs))
	for n := r.Small(steps); n > 0; n-- {
		a.step(r.N(numEdits))
		if a.dead() {
			break
		}
	}
	s := a.repair()
	if s == nil { // can't be exported anymore
		r.Probe("contents that can't be exported")
		a = newAuthor(r)
		a.fill(2)
		s = a.repair()
	}
	return a, s
}

// drawFile makes a valid font file.
func drawFile(r *core.R) ([]byte, *Spec) {
	if r.Bool(1, 3) {
		a, s := drawAuthor(r, 12, 30)
		v := a.save("export")
		return v.data, s
	}
	s := genSpec(r)
	return wrap(fontSig, s.Encode(), r.N(10)), s
}

// drawEdition makes a builder and an edition data file for it.
func drawEdition(r *core.R, mayFail bool) (*author, *editionSpec, []byte) {
	a, _ := drawAuthor(r, 12, 16)
	ed := a.genEdition(mayFail)
	return a, ed, wrap(editionSig, ed.Encode(), r.N(10))
}

// ---- damage ----

// corrupt damages file bytes like storage does; stale is an older version of the file.
func corrupt(r *core.R, file, stale []byte) []byte {
	d := append([]byte(nil), file...)
	for n := 1 + r.Small(3); n > 0; n-- {
		sector := func() (int, int) {
			i := r.N(len(d)/sectorSize+1) * sectorSize
			return min(i, len(d)), min(i+sectorSize, len(d))
		}
		if len(d) == 0 {
			return d
		}
		switch r.N(14) {
		case 0:
			r.Fault("flipped bits")
			for k := 1 + r.Small(8); k > 0; k-- {
				d[r.N(len(d))] ^= 1 << r.N(8)
			}
		case 1:
			r.Fault("zeroed sector")
			i, j := sector()
			clear(d[i:j])
		case 2:
			r.Fault("stale sector")
			i, j := sector()
			if i < len(stale) {
				copy(d[i:j], stale[i:])
			}
		case 3:
			r.Fault("misdirected write")
			i, j := sector()
			k, _ := sector()
			copy(d[k:], append([]byte(nil), d[i:j]...))
		case 4:
			r.Fault("duplicated sector")
			i, j := sector()
			d = append(d[:j:j], d[i:]...)
		case 5:
			r.Fault("lost sector")
			i, j := sector()
			d = append(d[:i:i], d[j:]...)
		case 6:
			r.Fault("torn file")
			d = d[:r.N(len(d))]
		case 7:
			r.Fault("trailing garbage")
			tail := make([]byte, 1+r.Small(2000))
			if r.Bool(1, 2) {
				s := r.Sub()
				for i := range tail {
					tail[i] = byte(s.N(256))
				}
			}
			d = append(d, tail...)
		case 8:
			r.Fault("trailing copy")
			switch r.N(3) {
			case 0:
				d = append(d, file...)
			case 1:
				d = append(d, file[min(6, len(file)):]...)
			case 2:
				d = append(d, wrap("", bytes.Repeat([]byte{byte(r.N(256))}, r.Small(40)), 1+r.N(9))...)
			}
		case 9:
			r.Fault("overwritten byte")
			i := r.N(len(d))
			if r.Bool(1, 2) {
				i = r.N(min(24, len(d)))
			} else if r.Bool(1, 2) {
				i = len(d) - 1 - r.N(min(12, len(d)))
			}
			d[i] = byte(r.N(256))
		case 10:
			r.Fault("lost byte")
			i := r.N(len(d))
			d = append(d[:i:i], d[i+1:]...)
		case 11:
			r.Fault("inserted byte")
			i := r.N(len(d) + 1)
			d = append(d[:i:i], append([]byte{byte(r.N(256))}, d[i:]...)...)
		case 12:
			r.Fault("stale tail")
			if i := r.N(len(d)); i < len(stale) {
				d = append(d[:i:i], stale[i:]...)
			}
		case 13:
			r.Fault("swapped bytes")
			i, j := r.N(len(d)), r.N(len(d))
			d[i], d[j] = d[j], d[i]
		}
	}
	return d
}

// corruptPayload damages the uncompressed data, for files with a valid checksum.
func corruptPayload(r *core.R, p []byte) []byte {
	d := append([]byte(nil), p...)
	r.Fault("damaged payload with valid checksum")
	for n := 1 + r.Small(6); n > 0; n-- {
		if len(d) == 0 {
			return d
		}
		i := r.N(len(d))
		switch r.N(9) {
		case 0:
			d[i] ^= 1 << r.N(8)
		case 1:
			d[i] = []byte{0, 1, 2, 0x7F, 0x80, 0xFE, 0xFF}[r.N(7)]
		case 2:
			d[i] = byte(r.N(256))
		case 3:
			if i+2 <= len(d) {
				binary.LittleEndian.PutUint16(d[i:], uint16([]int{0, 1, 255, 256, 0x7FFF, 0x8000, 0xFFFF, r.N(65536)}[r.N(8)]))
			}
		case 4:
			if i+4 <= len(d) {
				binary.LittleEndian.PutUint32(d[i:], uint32(r.U64()))
			}
		case 5:
			d = d[:i]
		case 6:
			k := 1 + r.Small(16)
			d = append(d[:i:i], d[min(i+k, len(d)):]...)
		case 7:
			k := 1 + r.Small(16)
			d = append(d[:i:i], append(bytes.Repeat([]byte{byte(r.N(256))}, k), d[i:]...)...)
		case 8:
			j := r.N(len(d))
			k := 1 + r.Small(40)
			copy(d[j:], append([]byte(nil), d[i:min(i+k, len(d))]...))
		}
	}
	return d
}

// ---- C01: delivery ----

// outcome describes the result of parsing a font.
func outcome(r *core.R, font *ggfnt.Font, err error, p *probeSet) string {
	if err != nil {
		return "refused"
	}
	s := "accepted\n"
	if p != nil {
		s += dump(font, p)
	}
	return s + string(exportBytes(r, font, "loaded font"))
}

func parsePlain(data []byte) (*ggfnt.Font, error) { return ggfnt.Parse(bytes.NewReader(data)) }

func runDelivery(r *core.R) {
	parallel := r.N(3) == 2
	n := 1 + r.Small(4)
	if parallel {
		n = 2 + r.N(2)
	}
	if r.N(3) == 2 { // edition data
		a, ed, file := drawEdition(r, r.Bool(1, 3))
		if r.N(4) == 3 {
			file = corrupt(r, file, nil)
			ed = nil
		}
		result := func(b *builder.Font, err error) string {
			var buf bytes.Buffer
			if e := b.Export(&buf); e != nil {
				r.Failf("valid contents not exported", "after loading edition data: %v", e)
			}
			return fmt.Sprintf("refused: %v\n", err != nil) + buf.String()
		}
		want := result(a.b, a.b.ParseEditionData(bytes.NewReader(file)))
		if ed != nil && (want[:13] == "refused: true") != (ed.invalid != "") {
			r.Failf("valid edition data refused", "or the other way around (%q): %.20q", ed.invalid, want)
		}
		builders := make([]*builder.Font, n)
		ds := make([]delivery, n)
		for i := range ds {
			builders[i] = a.b
			if parallel {
				builders[i] = a.replicate()
			}
			ds[i] = drawDelivery(r, len(file))
		}
		errs := make([]error, n)
		load := func(i int) func() {
			return func() { errs[i] = builders[i].ParseEditionData(newReader(r, file, ds[i])) }
		}
		check := func(i int) {
			if got := result(builders[i], errs[i]); got != want {
				r.Failf("outcome depends on delivery", "edition data delivered %v (%.14q, %v) vs at once (%.14q)", ds[i], got, errs[i], want)
			}
		}
		if parallel {
			var fs []func()
			for i := range ds {
				fs = append(fs, load(i))
			}
			r.Parallel(fs...)
			r.Probe("concurrent loads")
			for i := range ds {
				check(i)
			}
		} else {
			for i := range ds {
				load(i)()
				check(i)
			}
		}
		r.Probe("edition data")
		r.Nontrivial()
		return
	}
	file, s := drawFile(r)
	probes := s.probes(r, 3)
	switch r.N(6) {
	case 4:
		file = corrupt(r, file, nil)
		probes = nil
	case 5:
		if p, ok := unwrap(file); ok {
			file = wrap(fontSig, corruptPayload(r, p), r.N(10))
			probes = nil
		}
	}
	ref, err := parsePlain(file)
	want := outcome(r, ref, err, probes)
	if probes != nil && err != nil {
		r.Failf("stored font refused", "%v", err)
	}
	if err != nil {
		r.Probe("refused file")
	}
	ds := make([]delivery, n)
	for i := range ds {
		ds[i] = drawDelivery(r, len(file))
	}
	fonts, errs := make([]*ggfnt.Font, n), make([]error, n)
	stored := make([]bool, n)
	for i := range stored {
		stored[i] = r.N(3) == 2
	}
	load := func(i int) func() {
		if stored[i] {
			r.Probe("loaded from a file system")
			return func() {
				fonts[i], errs[i] = ggfnt.ParseFromFS(&simFS{r: r, data: map[string][]byte{"f": file}, plan: fsPlan{d: ds[i]}}, "f")
			}
		}
		return func() { fonts[i], errs[i] = ggfnt.Parse(newReader(r, file, ds[i])) }
	}
	if parallel {
		var fs []func()
		for i := range ds {
			fs = append(fs, load(i))
		}
		r.Parallel(fs...)
		r.Probe("concurrent loads")
	} else {
		for i := range ds {
			load(i)()
		}
	}
	for i := range ds {
		if got := outcome(r, fonts[i], errs[i], probes); got != want {
			r.Failf("outcome depends on delivery", "font delivered %v (%v): %s", ds[i], errs[i], firstDiff(got, want))
		}
	}
	r.Nontrivial()
}

// ---- C02: failures and truncation ----

var readErrors = []error{errInjected, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrClosedPipe, os.ErrDeadlineExceeded, os.ErrClosed, errors.New("EOF")}

// drawFailure adds a failure to the delivery of a file.
func drawFailure(r *core.R, d *delivery, size int) (truncateAt int) {
	at := r.N(size + 1)
	switch r.N(4) {
	case 1:
		at = r.N(min(24, size+1))
	case 2:
		at = size - r.N(min(14, size+1))
	}
	switch r.Pick(3, 4, 1) {
	case 0:
		if at < size {
			r.Fault("truncated stream")
			return at
		}
		fallthrough
	case 1:
		d.errAt, d.errData = at, r.Bool(1, 2)
		d.err = readErrors[r.N(len(readErrors))]
		d.after = r.Pick(3, 2, 1)
	case 2:
		d.stall = at
	}
	return size
}

func runReadFaults(r *core.R) {
	edition := r.N(3) == 2
	var file []byte
	var s *Spec
	var a *author
	if edition {
		a, _, file = drawEdition(r, false)
	} else {
		file, s = drawFile(r)
	}
	for n := 1 + r.Small(6); n > 0; n-- {
		r.Op(func() {
			d := drawDelivery(r, len(file))
			cut := drawFailure(r, &d, len(file))
			rd := newReader(r, file[:cut], d)
			var err error
			load := func() {
				if edition {
					err = a.b.ParseEditionData(rd)
				} else {
					_, err = ggfnt.Parse(rd)
				}
			}
			if !edition && r.N(4) == 3 { // another thread loads the same file at the same time
				d2 := drawDelivery(r, len(file))
				var font *ggfnt.Font
				var err2 error
				r.Parallel(load, func() { font, err2 = ggfnt.Parse(newReader(r, file, d2)) })
				if err2 != nil {
					r.Failf("stored font refused", "while another thread's stream fails: %v", err2)
				}
				compare(r, font, s, secHeader|secMetrics, "font loaded while another thread's stream fails")
				r.Probe("concurrent load")
			} else {
				load()
			}
			r.Logf("delivery %v, cut at %d of %d: %v", d, cut, len(file), err != nil)
			if err == nil {
				r.Failf("failed read not reported", "%d byte file loaded although its stream was delivered %v, cut at %d (failed: %v, stalled: %v, delivered %d bytes)", len(file), d, cut, rd.failed, rd.stalled, rd.pos)
			}
			if rd.calls > 4*len(file)+20000 || rd.afterFail > 10000 {
				r.Failf("failed reader called on and on", "%d calls (%d after its failure)", rd.calls, rd.afterFail)
			}
			if rd.failed || rd.stalled || cut < len(file) {
				r.Nontrivial()
			}
		})
		// failures are not sticky
		if r.N(3) == 2 {
			if edition {
				if err := a.b.ParseEditionData(newReader(r, file, drawDelivery(r, len(file)))); err != nil {
					r.Failf("valid edition data refused", "after failed loads: %v", err)
				}
			} else {
				font := reload(r, file, "after failed loads")
				compare(r, font, s, secHeader|secMetrics|secKerning, "font loaded after failed loads")
			}
		}
	}
}

// ---- C03: damage ----

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func runDamage(r *core.R) {
	var file, stale []byte
	var s *Spec
	if r.N(3) == 2 {
		a, _ := drawAuthor(r, 12, 30)
		old := a.save("old version")
		for n := 1 + r.Small(6); n > 0; n-- {
			a.step(r.N(numEdits))
		}
		if a.dead() || a.repair() == nil {
			file, stale, s = old.data, nil, old.spec
		} else if v := a.save("new version"); v != nil {
			file, stale, s = v.data, old.data, v.spec
		}
	}
	if file == nil {
		file, s = drawFile(r)
		if r.Bool(1, 2) {
			stale, _ = drawFile(r)
		}
	}
	orig, err := parsePlain(file)
	if err != nil {
		r.Failf("stored font refused", "%v", err)
	}
	probes := s.probes(r, 3)
	want := ""
	payload, _ := unwrap(file)
	for n := 1 + r.Small(12); n > 0; n-- {
		r.Op(func() {
			inside := r.Bool(1, 2)
			var bad, data []byte
			must := ""
			if inside {
				switch r.N(6) {
				case 4: // data that's cut short is never a font
					r.Fault("payload cut short with valid checksum")
					data, must = payload[:len(payload)-1-r.N(min(60, len(payload)))], "incomplete"
					if r.Bool(1, 2) {
						data = payload[:r.N(len(payload))]
					}
				case 5: // nor is data that continues beyond its end
					r.Fault("payload continued beyond its end with valid checksum")
					data, must = append(payload[:len(payload):len(payload)], make([]byte, 1+r.Small(2000))...), "continued"
					if r.Bool(1, 2) {
						sub := r.Sub()
						for i := len(payload); i < len(data); i++ {
							data[i] = byte(sub.N(256))
						}
					}
				default:
					data = corruptPayload(r, payload)
				}
				bad = wrap(fontSig, data, r.N(10))
			} else {
				bad = corrupt(r, file, stale)
			}
			before := allocated()
			var font *ggfnt.Font
			var err error
			d := drawDelivery(r, len(bad))
			if r.N(6) == 5 {
				font, err = ggfnt.ParseFromFS(&simFS{r: r, data: map[string][]byte{"f": bad}, plan: fsPlan{d: d}}, "f")
			} else {
				font, err = ggfnt.Parse(newReader(r, bad, d))
			}
			if used := allocated() - before; used > 256<<20 {
				r.Failf("excessive memory", "parsing a damaged file of %d bytes allocated %d bytes", len(bad), used)
			}
			r.Logf("damaged (payload: %v): %d bytes, accepted: %v", inside, len(bad), err == nil)
			if err == nil && font == nil {
				r.Failf("neither font nor error", "parsing a damaged file gave no font and no error")
			}
			r.Nontrivial()
			if err != nil {
				return
			}
			if must != "" {
				r.Failf("damaged file accepted", "a file with %s data (%d instead of %d bytes) was loaded as a font", must, len(data), len(payload))
			}
			if inside {
				r.Probe("accepted payload")
				if got, ok := unwrap(exportBytes(r, font, "damaged")); !ok || !bytes.Equal(got, data) {
					r.Failf("damaged file misread", "the font exported after loading differs from what was stored: %s", payloadDiff(bad, exportBytes(r, font, "damaged")))
				}
				return
			}
			if bytes.Equal(bad, file) || stale != nil && bytes.Equal(bad, stale) {
				return
			}
			r.Probe("harmless damage")
			if want == "" {
				want = outcome(r, orig, nil, probes)
			}
			if got := outcome(r, font, nil, probes); got != want {
				if old, err := parsePlain(stale); err == nil && outcome(r, old, nil, probes) == got {
					r.Probe("entirely stale file")
					return
				}
				r.Failf("damaged file misread", "damaged file was loaded as a different font: %s", firstDiff(got, want))
			}
		})
	}
}

// ---- C04: size limits ----

const sizeLimit = 32 << 20

// padGzip inserts empty deflate blocks, so that the file grows to the given size
// without changing its contents.
func padGzip(r *core.R, file []byte, size int) []byte {
	const header = 10 // no optional fields in files made by wrap
	extra := size - len(file)
	out := make([]byte, 0, size)
	out = append(out, file[:6+header]...)
	if rest := extra % 5; rest > 0 { // file name
		out[6+3] |= 8
		for i := 1; i < rest; i++ {
			out = append(out, 'n')
		}
		out = append(out, 0)
	}
	n := extra / 5
	start := len(out)
	if n > 0 {
		out = append(out, 0, 0, 0, 0xFF, 0xFF)
		for len(out)-start < n*5 {
			out = append(out, out[start:min(len(out), start+n*5-(len(out)-start))]...)
		}
	}
	out = append(out, file[16:]...)
	if len(out) != size {
		r.Harnessf("padded file has wrong size: %d, expected %d", len(out), size)
	}
	return out
}

// endless delivers a prefix and then repeats a unit forever.
type endless struct {
	r              *core.R
	prefix, unit   []byte
	pos            int
	chunk          int
	empty          bool
	calls, inOrder int
}

func (e *endless) Read(p []byte) (int, error) {
	e.calls++
	seam.AddSteps(20)
	if e.pos > sizeLimit+(4<<20) {
		e.r.Failf("unbounded input consumed", "%d bytes were consumed from an endless stream", e.pos)
	}
	if e.calls > 1_000_000 {
		panic(seam.HangError{Steps: uint64(e.calls)})
	}
	if e.empty && e.calls%3 == 0 {
		return 0, nil
	}
	n := min(len(p), e.chunk)
	for i := 0; i < n; {
		var c int
		if e.pos < len(e.prefix) {
			c = copy(p[i:n], e.prefix[e.pos:])
		} else {
			c = copy(p[i:n], e.unit[(e.pos-len(e.prefix))%len(e.unit):])
		}
		i += c
		e.pos += c
	}
	return n, nil
}

// bigSpec is a font with lots of kerning, for huge payloads.
func bigPayload(size int) []byte {
	const n = 4096
	var d []byte
	s := Spec{ID: 0x0123_4567_89AB_CDEF, Name: "big", Ascent: 9, Descent: 5, Upper: 9, Mid: 5, Maps: map[rune]mapSpec{}}
	s.Glyphs = make([]glyphSpec, n)
	base := len(s.Encode())
	pairs := (size - base) / 5
	s.About = string(bytes.Repeat([]byte("x"), (size-base)-pairs*5))
	if pairs > n*n {
		pairs = n * n
	}
	d = s.Encode()
	d = d[:len(d)-6]
	d = u24(d, pairs)
	out := make([]byte, 0, max(size, len(d)+pairs*5+3))
	out = append(out, d...)
	for i := 0; i < pairs; i++ {
		out = u16(u16(out, i/n), i%n)
	}
	for i := 0; i < pairs; i++ {
		out = append(out, 7)
	}
	out = u24(out, 0)
	return out
}

var bigFiles = map[int][]byte{}

// bigFile gives a font file with an uncompressed size (the result must not be changed).
func bigFile(size int) []byte {
	if bigFiles[size] == nil {
		clear(bigFiles)
		bigFiles[size] = wrap(fontSig, bigPayload(size), gzip.BestSpeed)
	}
	return bigFiles[size]
}

func bigDelivery(r *core.R, size int) delivery {
	d := plainDelivery()
	switch r.N(3) {
	case 1:
		d.mode, d.chunk = 3, 4096+r.Small(100000)
	case 2:
		d.mode, d.chunk = 2, 8000+r.Small(100000)
	}
	d.seed = r.Sub()
	d.zeroReads, d.eofData = r.Bool(1, 2), r.Bool(1, 2)
	return d
}

func runLimits(r *core.R) {
	before := allocated()
	check := func(what string) {
		if used := allocated() - before; used > 640<<20 {
			r.Failf("excessive memory", "%s: loading allocated %d bytes", what, used)
		}
		before = allocated()
	}
	parse := func(rd io.Reader, data []byte, d delivery) (font *ggfnt.Font, err error) {
		if data != nil && r.Bool(1, 4) {
			fs := &simFS{r: r, data: map[string][]byte{"f": data}, plan: fsPlan{d: d}}
			if r.Bool(1, 3) { // the file grew after asking for its size
				fs.plan.sizeLies, fs.plan.statSize = true, int64(r.Small(sizeLimit))
				r.Fault("file grows while loading")
			}
			return ggfnt.ParseFromFS(fs, "f")
		}
		if rd == nil {
			rd = newReader(r, data, d)
		}
		return ggfnt.Parse(rd)
	}
	kind := r.Pick(3, 3, 3, 1, 2, 2)
	big := kind == 0 || kind == 1
	edition := kind != 1 && kind != 3 && r.N(4) == 3
	var file []byte
	var s *Spec
	var a *author
	if edition {
		a, _, file = drawEdition(r, false)
	} else {
		s = genSpec(r)
		file = wrap(fontSig, s.Encode(), 1+r.N(9))
	}
	load := func(rd io.Reader, data []byte, d delivery) (*ggfnt.Font, error) {
		if !edition {
			before = allocated()
			return parse(rd, data, d)
		}
		if rd == nil {
			rd = newReader(r, data, d)
		}
		before = allocated()
		return nil, a.b.ParseEditionData(rd)
	}
	around := func() int {
		switch r.N(6) {
		case 0:
			return sizeLimit
		case 1:
			return sizeLimit + 1
		case 2:
			return sizeLimit - 1 - r.Small(3000)
		case 3:
			return sizeLimit + 1 + r.Small(3000)
		case 4:
			return sizeLimit + 1 + r.Small(8<<20)
		}
		return sizeLimit - r.Small(30<<20)
	}
	r.Nontrivial()
	if big && r.N(4) == 3 { // keeps most runs cheap
		size := around()
		over := size > sizeLimit
		if kind == 0 { // compressed size
			what := fmt.Sprintf("file of %d bytes", size)
			data := padGzip(r, file, size)
			font, err := load(nil, data, bigDelivery(r, size))
			check(what)
			r.Logf("%s, edition %v: %v", what, edition, err)
			if over && err == nil {
				r.Failf("oversized file accepted", "%s was loaded", what)
			}
			if !over && err != nil {
				r.Failf("file refused because of its size", "%s: %v", what, err)
			}
			if !over && !edition {
				compare(r, font, s, secHeader|secMetrics|secKerning|secColors, what)
			}
			r.Probe("file size around the limit")
			return
		}
		what := fmt.Sprintf("font with %d bytes of data", size)
		data := bigFile(size)
		_, err := load(nil, data, bigDelivery(r, len(data)))
		check(what)
		r.Logf("%s: %v", what, err)
		if over && err == nil {
			r.Failf("oversized data accepted", "%s was loaded", what)
		}
		if !over && err != nil {
			r.Failf("font refused because of its size", "%s: %v", what, err)
		}
		r.Probe("data size around the limit")
		return
	}
	e := &endless{r: r, chunk: 2000 + r.Small(60000), empty: r.Bool(1, 3)}
	what := ""
	switch kind {
	case 0, 2: // endless streams
		sig := file[:6]
		head := file[6:16]
		switch r.N(7) {
		case 0:
			what = "endless zeros"
			e.unit = []byte{0}
		case 1:
			what = "endless zeros after the signature"
			e.prefix, e.unit = sig, []byte{0}
		case 2:
			what = "endless empty blocks"
			e.prefix, e.unit = append(append([]byte(nil), sig...), head...), []byte{0, 0, 0, 0xFF, 0xFF}
			r.Probe("endless stream up to the limit")
		case 3:
			what = "endless empty gzip members after the file"
			e.prefix, e.unit = file, wrap("", nil, 1)
			r.Probe("endless stream up to the limit")
		case 4:
			what = "endless file name in the gzip header"
			e.prefix, e.unit = append(append([]byte(nil), sig...), 0x1f, 0x8b, 8, 8, 0, 0, 0, 0, 0, 0), []byte{'n'}
		case 5:
			what = "endless data blocks"
			block := append([]byte{0, 0xE8, 0x03, 0x17, 0xFC}, bytes.Repeat([]byte{byte(r.N(256))}, 1000)...)
			e.prefix, e.unit = append(append([]byte(nil), sig...), head...), block
		case 6:
			what = "endless repetition of the file"
			e.unit = file
		}
	case 1:
		what = "decompression bomb in the kerning section"
		d := bigDelivery(r, 0)
		data := bigFile(80 << 20)
		_, err := load(nil, data, d)
		check(what)
		if err == nil {
			r.Failf("oversized data accepted", "%s was loaded", what)
		}
		r.Fault("decompression bomb")
		r.Probe("data size around the limit")
		return
	case 3:
		what = "endless data blocks in the kerning section"
		p := bigPayload(1 << 20)
		p[len(p)-4], p[len(p)-3] = 7, 7
		s := Spec{ID: 0x0123_4567_89AB_CDEF, Name: "big", Ascent: 9, Descent: 5, Upper: 9, Mid: 5, Maps: map[rune]mapSpec{}, Glyphs: make([]glyphSpec, 4096)}
		p = s.Encode()
		p = u24(p[:len(p)-6], 4096*4095)
		e.prefix = append(append([]byte(fontSig), file[6:16]...), 0, byte(len(p)), byte(len(p)>>8), ^byte(len(p)), ^byte(len(p)>>8))
		e.prefix = append(e.prefix, p...)
		e.unit = append([]byte{0, 0xE8, 0x03, 0x17, 0xFC}, make([]byte, 1000)...)
		r.Probe("endless stream up to the limit")
	case 4: // stream that stops making progress
		d := drawDelivery(r, len(file))
		d.stall = r.N(len(file) + 1)
		_, err := load(nil, file, d)
		check("stalled stream")
		if err == nil {
			r.Failf("stalled stream accepted", "a stream that stalls at byte %d of %d was loaded", d.stall, len(file))
		}
		return
	case 5: // bombs that don't look like fonts
		what = "decompression bomb"
		size := 1 << (10 + r.N(18))
		data := wrap(string(file[:6]), bytes.Repeat([]byte{byte(r.N(256))}, size), gzip.BestSpeed)
		if r.Bool(1, 2) {
			data = append(append([]byte(nil), file...), wrap("", make([]byte, size), gzip.BestSpeed)...)
			what = "valid file with a decompression bomb after it"
		}
		_, err := load(nil, data, bigDelivery(r, len(data)))
		check(what)
		if err == nil {
			r.Failf("oversized data accepted", "%s of %d bytes was loaded", what, size)
		}
		r.Fault("decompression bomb")
		return
	}
	_, err := load(e, nil, delivery{})
	check(what)
	r.Fault("endless stream")
	r.Logf("%s: %d bytes consumed, %v", what, e.pos, err != nil)
	if err == nil {
		r.Failf("endless stream accepted", "%s was loaded", what)
	}
}

// ---- C05: files ----

func openFDs() int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(es)
}

func runFiles(r *core.R) {
	if r.N(10) == 9 {
		runRealFiles(r)
		return
	}
	file, s := drawFile(r)
	loads := 1 + r.Small(4)
	var jobs []func()
	for i := 0; i < loads; i++ {
		data := file
		valid := true
		switch r.N(8) {
		case 5:
			data = corrupt(r, file, nil)
			valid = false
		case 6:
			if p, ok := unwrap(file); ok {
				data = wrap(fontSig, corruptPayload(r, p), 1+r.N(9))
				valid = false
			}
		case 7:
			data = data[:r.N(len(data))]
			valid = false
		}
		f := &simFS{r: r, data: map[string][]byte{"fonts/font.ggfnt": data}, plan: fsPlan{d: drawDelivery(r, len(data))}}
		name := "fonts/font.ggfnt"
		sizeFault := false
		if r.Bool(2, 3) {
			switch r.N(7) {
			case 0:
				f.plan.openErr = true
			case 1:
				f.plan.statErr = true
			case 2:
				f.plan.closeErr = true
			case 3:
				name = "fonts/other.ggfnt"
			case 4:
				f.plan.sizeLies, f.plan.statSize = true, int64(r.Small(1<<20))
				if r.Bool(1, 2) {
					f.plan.statSize = sizeLimit + 1 + int64(r.Small(1<<30))
					sizeFault = true
				}
				r.Fault("wrong file size reported")
			case 5:
				f.plan.d.errAt, f.plan.d.errData, f.plan.d.err = r.N(len(data)+1), r.Bool(1, 2), readErrors[r.N(len(readErrors))]
				f.plan.d.after = r.Pick(3, 2, 1)
				if r.Bool(1, 4) {
					f.plan.closeErr = true
				}
			case 6:
				f.plan.d.stall = r.N(len(data) + 1)
			}
		}
		jobs = append(jobs, func() {
			font, err := ggfnt.ParseFromFS(f, name)
			r.Logf("load: %v", err != nil)
			failed := f.plan.openErr || f.plan.closeErr && len(f.opened) > 0 || name != "fonts/font.ggfnt"
			for _, o := range f.opened {
				if o.closed != 1 {
					r.Failf("file not closed exactly once", "opened file was closed %d times (plan %+v, error %v)", o.closed, f.plan, err)
				}
				if o.misuse != "" {
					r.Failf("closed file used", "%s", o.misuse)
				}
				failed = failed || o.rd.failed || o.rd.stalled || o.statFailed
				if err == nil && o.rd.pos != len(data) {
					r.Failf("success without reading the file", "only %d of %d bytes were read", o.rd.pos, len(data))
				}
			}
			if err == nil && font == nil {
				r.Failf("neither font nor error", "plan %+v", f.plan)
			}
			if failed && err == nil {
				r.Failf("failure not reported", "font loaded although the file system failed (plan %+v)", f.plan)
			}
			if err == nil && !valid {
				ref, err := parsePlain(data)
				if err != nil {
					r.Failf("invalid file accepted", "a file that Parse refuses was accepted: %v", err)
				}
				if string(exportBytes(r, ref, "font")) != string(exportBytes(r, font, "font")) {
					r.Failf("file loaded differently", "loading the file and parsing its bytes give different fonts")
				}
			}
			if valid && !failed && !sizeFault {
				if err != nil {
					r.Failf("valid file refused", "%v (plan %+v)", err, f.plan)
				}
				compare(r, font, s, secHeader|secMetrics|secColors|secKerning, "font loaded from a file")
			}
			r.Nontrivial()
		})
	}
	if loads > 1 && r.Bool(1, 2) {
		r.Parallel(jobs...)
		r.Probe("concurrent loads")
		return
	}
	for _, j := range jobs {
		j()
	}
}

func runRealFiles(r *core.R) {
	dir := os.Getenv("GGSIM_SCRATCH")
	if dir == "" {
		r.Probe("no scratch folder")
		return
	}
	dir, err := os.MkdirTemp(dir, "files")
	if err != nil {
		r.Harnessf("%v", err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "font.ggfnt")
	file, s := drawFile(r)
	data, valid := file, true
	switch r.N(6) {
	case 2:
		data, valid = corrupt(r, file, nil), false
	case 3:
		data, valid = file[:r.N(len(file))], false
	case 4:
		data = padGzip(r, wrap(fontSig, s.Encode(), 1), sizeLimit+r.N(2))
		valid = len(data) <= sizeLimit
	}
	if err := os.WriteFile(path, data, 0o600); err != nil {
		r.Harnessf("%v", err)
	}
	target := path
	switch r.N(8) {
	case 6:
		target, valid = path+".missing", false
		r.Fault("missing file")
	case 7:
		target, valid = dir, false
	}
	fromFS := r.Bool(1, 2)
	plan := &seam.FilePlan{}
	seam.FileFaults = func(name string) *seam.FilePlan { return plan }
	if !fromFS {
		if r.Bool(1, 2) {
			plan.Chunk = 1 + r.Small(3000)
			if len(data) > 1<<20 {
				plan.Chunk += 1000
			}
		}
		switch r.N(8) {
		case 4:
			plan.OpenErr = errInjected
		case 5:
			plan.ReadErr, plan.ReadErrAt = errInjected, int64(r.N(len(data)+1))
			if len(data) > 2<<20 { // (a file around the limits)
				plan.ReadErrAt = int64(len(data) - r.N(20))
			}
			plan.ReadErrData = r.Bool(1, 2)
		case 6:
			plan.CloseErr = errInjected
		case 7:
			plan.StatErr = errInjected
		}
	}
	before := openFDs()
	var font *ggfnt.Font
	if fromFS {
		rel, _ := filepath.Rel(dir, target)
		font, err = ggfnt.ParseFromFS(os.DirFS(dir), rel)
	} else {
		font, err = ggfnt.ParseFromPath(target)
	}
	if after := openFDs(); after != before {
		r.Failf("open handle left behind", "%d open handles before loading a file, %d after it (error: %v)", before, after, err)
	}
	if plan.Opened {
		r.Probe("real file with simulated faults")
		if plan.Closes != 1 {
			r.Failf("file not closed exactly once", "a file opened by path was closed %d times (error: %v)", plan.Closes, err)
		}
		if plan.UseAfterClose > 0 {
			r.Failf("file used after close", "a file opened by path was read after closing it")
		}
		if plan.Failed {
			r.Fault("read error")
		}
		if plan.CloseErr != nil {
			r.Fault("close error")
		}
		if (plan.Failed || plan.CloseErr != nil) && err == nil {
			r.Failf("failure not reported", "a file opened by path was loaded despite of a failure (reading failed: %v, closing failed: %v)", plan.Failed, plan.CloseErr != nil)
		}
		if plan.StatFailed {
			r.Fault("stat error")
		}
		if plan.Failed || plan.CloseErr != nil || plan.StatFailed {
			valid = false
		}
	} else if plan.OpenErr != nil && err != nil {
		r.Fault("open error")
		valid = false
	}
	r.Logf("real file: %v", err != nil)
	r.Probe("real file")
	r.Nontrivial()
	if valid {
		if err != nil {
			r.Failf("valid file refused", "real file: %v", err)
		}
		compare(r, font, s, secHeader|secMetrics|secKerning, "font loaded from a real file")
	} else if err == nil {
		if target != path || font == nil {
			r.Failf("failure not reported", "loading %s succeeded", filepath.Base(target))
		}
		ref, err := parsePlain(data)
		if err != nil {
			r.Failf("invalid file accepted", "a file that Parse refuses was accepted: %v", err)
		}
		if string(exportBytes(r, ref, "font")) != string(exportBytes(r, font, "font")) {
			r.Failf("file loaded differently", "loading the file and parsing its bytes give different fonts")
		}
	}
}

// ---- C06: write failures ----

func runWriteFaults(r *core.R) {
	var a *author
	var s *Spec
	var font *ggfnt.Font
	if r.Bool(1, 2) {
		a, s = drawAuthor(r, 12, 30)
	} else {
		var file []byte
		file, s = drawFile(r)
		font = reload(r, file, "font")
	}
	probes := s.probes(r, 3)
	export := func(w io.Writer) error {
		if a != nil {
			return a.b.Export(w)
		}
		return font.Export(w)
	}
	state := func() string {
		if a != nil {
			return a.observe()
		}
		return dump(font, probes)
	}
	var healthy bytes.Buffer
	if err := export(&healthy); err != nil {
		r.Failf("export to healthy writer failed", "%v", err)
	}
	want := healthy.Bytes()
	before := state()
	for n := 1 + r.Small(6); n > 0; n-- {
		r.Op(func() {
			w := newWriter(r)
			w.mode = r.N(5)
			w.once = r.Bool(1, 3)
			w.err = []error{errInjected, io.ErrShortWrite, io.EOF, io.ErrUnexpectedEOF, errors.New("no space left on device"), os.ErrClosed}[r.N(6)]
			if r.Bool(1, 2) {
				w.failAt = r.N(len(want))
				if r.Bool(1, 3) {
					w.failAt = len(want) - 1 - r.N(min(10, len(want)))
				}
			} else {
				w.failNo = r.N(8)
			}
			var err error
			crashed := false
			job := func() { crashed = crashes(func() { err = export(w) }) }
			if a == nil && r.N(4) == 3 { // another thread exports the same font
				w2 := newWriter(r)
				var err2 error
				r.Parallel(job, func() { err2 = font.Export(w2) })
				if err2 != nil || !bytes.Equal(w2.buf, want) {
					r.Failf("healthy export disturbed", "%v", err2)
				}
				r.Probe("concurrent export")
			} else {
				job()
			}
			r.Logf("export with failure at %d/%d mode %d: failed %v, crashed %v, error %v", w.failAt, w.failNo, w.mode, w.failed, crashed, err != nil)
			if w.failed && !crashed && err == nil {
				r.Failf("failed write not reported", "export reported success, but the writer failed (mode %d, offset %d, call %d, %d of %d bytes accepted)", w.mode, w.failAt, w.failNo, len(w.buf), len(want))
			}
			if !w.failed && err != nil {
				r.Failf("export to healthy writer failed", "%v", err)
			}
			if err == nil && !crashed && !bytes.Equal(w.buf, want) {
				r.Failf("incomplete file exported", "export reported success, but wrote %d instead of %d bytes", len(w.buf), len(want))
			}
			if w.failed {
				r.Nontrivial()
			}
		})
		if r.N(3) == 2 {
			if got := state(); got != before {
				r.Failf("export changes contents", "after failed exports: %s", firstDiff(got, before))
			}
			var buf bytes.Buffer
			if err := export(&buf); err != nil {
				r.Failf("export to healthy writer failed", "after failed exports: %v", err)
			}
			if !bytes.Equal(buf.Bytes(), want) {
				r.Failf("export changes contents", "the same contents are exported differently after failed exports")
			}
		}
	}
	if got := state(); got != before {
		r.Failf("export changes contents", "after failed exports: %s", firstDiff(got, before))
	}
	if a != nil {
		a.check("after failed exports")
	}
	w := newWriter(r)
	if err := export(w); err != nil {
		r.Failf("export to healthy writer failed", "after failed exports: %v", err)
	}
	compare(r, reload(r, w.buf, "font exported after failed exports"), s, secAll, "font exported after failed exports")
}

func init() {
	parse := []string{"Parse", "ParseFromFS", "ParseEditionData", "ParsingBuffer", "compress/gzip (not instrumented)"}
	stub := []string{"readers (simulated streams)", "clock, entropy source and map iteration order while making the files"}
	core.Register(&core.World{ID: "C01", QuickRuns: 30000, Run: runDelivery,
		Rule:      "one seeded file (font or edition data; valid or damaged) loaded with up to four simulated deliveries, one after another or on concurrent threads, and compared with delivery at once; every run is non-trivial",
		Faults:    []string{"short read", "empty read", "eof with data", "flipped bits", "damaged payload with valid checksum"},
		MustProbe: []string{"concurrent loads", "edition data", "refused file"},
		Real:      parse, Stub: stub, Measure: "distinct traces",
		Assumptions: []string{"a legal reader gives at most a few empty reads in a row"},
	})
	core.Register(&core.World{ID: "C02", QuickRuns: 60000, Run: runReadFaults,
		Rule:      "one seeded valid file loaded several times through streams that fail, end or stall at a chosen byte, mixed with healthy loads; non-trivial if a failure was delivered",
		Faults:    []string{"read error", "read error with data", "read error that goes away", "truncated stream", "stalled reader", "short read", "empty read", "eof with data"},
		MustProbe: []string{"concurrent load"},
		Real:      parse, Stub: stub, Measure: "distinct traces",
	})
	core.Register(&core.World{ID: "C03", QuickRuns: 30000, Run: runDamage,
		Rule:      "one seeded font file damaged up to thirteen times in different ways (file bytes, or data with a recomputed checksum) and loaded; every run is non-trivial",
		Faults:    []string{"flipped bits", "zeroed sector", "stale sector", "misdirected write", "duplicated sector", "lost sector", "torn file", "trailing garbage", "trailing copy", "overwritten byte", "lost byte", "inserted byte", "stale tail", "swapped bytes", "damaged payload with valid checksum", "payload cut short with valid checksum", "payload continued beyond its end with valid checksum"},
		MustProbe: []string{"harmless damage", "accepted payload"},
		Real:      parse, Stub: append([]string{"storage (simulated sector faults)"}, stub...), Measure: "distinct traces",
		Assumptions: []string{"no drawn damage collides with the gzip checksum"},
	})
	core.Register(&core.World{ID: "C04", QuickRuns: 1600, Chunk: 10, Run: runLimits, StepBudget: 1_000_000_000,
		Rule:      "one seeded stream with a size around the limits, without end, without progress, or with a decompression bomb; every run is non-trivial",
		Faults:    []string{"endless stream", "decompression bomb", "stalled reader", "short read", "empty read", "file grows while loading"},
		MustProbe: []string{"file size around the limit", "data size around the limit", "endless stream up to the limit"},
		Real:      parse, Stub: stub, Measure: "distinct traces",
		Assumptions: []string{"640 MiB of total allocations count as bounded memory for a 32 MiB limit"},
	})
	core.Register(&core.World{ID: "C05", QuickRuns: 40000, Run: runFiles,
		Rule:      "one seeded font file loaded several times from simulated file systems with failures at any step (one after another or concurrently), or from real files in a scratch folder; every run is non-trivial",
		Faults:    []string{"open error", "missing file", "stat error", "close error", "wrong file size reported", "read error", "read error with data", "stalled reader", "torn file"},
		MustProbe: []string{"concurrent loads", "real file"},
		Real:      append([]string{"ParseFromPath and os files (in one tenth of the runs)"}, parse...), Stub: append([]string{"file systems"}, stub...), Measure: "distinct traces",
	})
	core.Register(&core.World{ID: "C06", QuickRuns: 30000, Run: runWriteFaults,
		Rule:      "one seeded font or builder exported several times to writers that fail, write less or crash at a chosen byte or call, mixed with healthy exports; non-trivial if a failure was delivered",
		Faults:    []string{"write error", "write error after partial write", "write error after complete write", "short write", "crash during write"},
		MustProbe: []string{"concurrent export"},
		Real:      []string{"Font.Export", "builder.Export", "Parse", "compress/gzip (not instrumented)"}, Stub: append([]string{"writers"}, stub...), Measure: "distinct traces",
	})
}
