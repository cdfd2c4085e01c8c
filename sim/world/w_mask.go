package world

import (
	"bytes"
	"fmt"
	"image"
	"slices"

	"github.com/tinne26/ggfnt/mask"

	"verif.local/sim/core"
)

// ---- C21: the glyph mask codec ----

// Raster operations as the specification defines them.
const (
	opValue = 1 << iota // uint8
	opHorz              // nzint8
	opVert              // nzint8
	opRow               // next row
	opDiag              // diagonal mode
	opDrawH             // nzuint8
	opDrawV             // nzuint8, or ascending diagonal
	opOnePixel
)

// fill is what a single operation draws.
type fill struct {
	x, y, w, h int
	diag, asc  bool
	value      uint8
}

func (f fill) each(fn func(x, y int)) {
	switch {
	case f.diag:
		for i := 0; i < f.w; i++ {
			if f.asc {
				fn(f.x+i, f.y+f.w-1-i)
			} else {
				fn(f.x+i, f.y+i)
			}
		}
	default:
		for y := f.y; y < f.y+f.h; y++ {
			for x := f.x; x < f.x+f.w; x++ {
				fn(x, y)
			}
		}
	}
}

// refFills decodes raster operations; doubtful if they're against the
// specification in a way that isn't necessarily noticed.
func refFills(ops []byte) (fills []fill, doubtful, ok bool) {
	x, y, value := 0, 0, uint8(255)
	i := 0
	next := func() (v int) {
		if i >= len(ops) {
			ok = false
			return 0
		}
		v = int(ops[i])
		i++
		return v
	}
	move := func() int {
		v := next()
		if v < 128 {
			return v + 1
		}
		return v - 256
	}
	ok = true
	for ok && i < len(ops) {
		c := next()
		if c&opValue != 0 {
			value = uint8(next())
			doubtful = doubtful || value == 0
		}
		if c&opHorz != 0 {
			x += move()
		}
		if c&opVert != 0 {
			y += move()
		}
		if c&opRow != 0 {
			if c&opVert != 0 {
				return nil, doubtful, false
			}
			y++
		}
		if c&opDiag != 0 {
			if c&opOnePixel != 0 || c&opDrawH == 0 {
				return nil, doubtful, false
			}
			n := next() + 1
			fills = append(fills, fill{x: x, y: y, w: n, h: n, diag: true, asc: c&opDrawV != 0, value: value})
			x += n
			continue
		}
		w, h := 0, 0
		if c&opDrawH != 0 {
			w, h = next()+1, 1
		}
		if c&opDrawV != 0 {
			w, h = max(w, 1), next()+1
		}
		if c&opOnePixel != 0 {
			if w > 0 {
				return nil, doubtful, false
			}
			w, h = 1, 1
		}
		if w > 0 {
			fills = append(fills, fill{x: x, y: y, w: w, h: h, value: value})
			x += w
		}
	}
	return fills, doubtful, ok
}

const maxRefArea = 1 << 21

// refPaint draws; nil for nothing drawn or (big) too much to draw.
func refPaint(fills []fill) (m *image.Alpha, big bool) {
	var rect image.Rectangle
	work := 0
	for _, f := range fills {
		rect = rect.Union(image.Rect(f.x, f.y, f.x+f.w, f.y+f.h))
		work += f.w * f.h
	}
	if rect.Empty() {
		return nil, false
	}
	if rect.Dx()*rect.Dy() > maxRefArea || work > maxRefArea {
		return nil, true
	}
	m = image.NewAlpha(rect)
	for _, f := range fills {
		f.each(func(x, y int) { m.Pix[(y-rect.Min.Y)*m.Stride+x-rect.Min.X] = f.value })
	}
	return m, false
}

// encodeMask writes a mask like another producer could: any order, shapes
// that overlap, needless moves and value changes.
func encodeMask(sub *core.Sub, m *image.Alpha) []byte {
	w, h := m.Rect.Dx(), m.Rect.Dy()
	at := func(x, y int) uint8 { return m.Pix[y*m.Stride+x] }
	covered := make([]bool, w*h)
	var todo [][2]int
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			if at(x, y) != 0 {
				todo = append(todo, [2]int{x, y})
			}
		}
	}
	if sub.N(2) == 0 && len(todo) < 3000 {
		for i := range todo {
			j := i + sub.N(len(todo)-i)
			todo[i], todo[j] = todo[j], todo[i]
		}
	}
	onlyRows := sub.N(3) == 0
	// the last operation first: what it covers may be drawn before with any value
	var fills []fill
	for _, p := range todo {
		x, y := p[0], p[1]
		if covered[y*w+x] {
			continue
		}
		v := at(x, y)
		can := func(x, y int) bool {
			return x >= 0 && y >= 0 && x < w && y < h && (at(x, y) == v || covered[y*w+x])
		}
		f := fill{x: x, y: y, w: 1, h: 1, value: v}
		shape := sub.N(6)
		if onlyRows {
			shape = 0
		}
		limit := 256
		if sub.N(4) == 0 {
			limit = 1 + sub.N(8)
		}
		switch shape {
		case 0, 1, 2: // row, column, area
			for shape != 1 && f.w < limit && can(x+f.w, y) {
				f.w++
			}
			for shape != 0 && f.h < limit {
				fits := true
				for i := 0; i < f.w; i++ {
					fits = fits && can(x+i, y+f.h)
				}
				if !fits {
					break
				}
				f.h++
			}
		case 3, 4:
			f.diag, f.asc = true, shape == 4
			dy := 1
			if f.asc {
				dy = -1
			}
			for f.w < limit && can(x+f.w, y+dy*f.w) {
				f.w++
			}
			f.h = f.w
			if f.asc {
				f.y -= f.w - 1
			}
		}
		f.each(func(x, y int) { covered[y*w+x] = true })
		f.x, f.y = f.x+m.Rect.Min.X, f.y+m.Rect.Min.Y
		fills = append(fills, f)
	}
	slices.Reverse(fills)
	var out []byte
	nz := func(v int) byte {
		if v > 0 {
			return byte(v - 1)
		}
		return byte(v)
	}
	x, y, value := 0, 0, uint8(255)
	for _, f := range fills {
		if sub.N(16) == 0 { // needless move
			dx, dy := sub.N(256)-128, sub.N(256)-128
			if dx != 0 && dy != 0 {
				out = append(out, opHorz|opVert, nz(dx), nz(dy))
				x, y = x+dx, y+dy
			}
		}
		for max(f.x-x, x-f.x, f.y-y, y-f.y) > 128 {
			dx, dy := max(-128, min(128, f.x-x)), max(-128, min(128, f.y-y))
			c, args := byte(0), []byte(nil)
			if dx != 0 {
				c, args = c|opHorz, append(args, nz(dx))
			}
			if dy != 0 {
				c, args = c|opVert, append(args, nz(dy))
			}
			out = append(append(out, c), args...)
			x, y = x+dx, y+dy
		}
		c, args := byte(0), []byte(nil)
		if f.value != value || sub.N(16) == 0 {
			c, args, value = c|opValue, append(args, f.value), f.value
		}
		if dx := f.x - x; dx != 0 {
			c, args = c|opHorz, append(args, nz(dx))
		}
		switch dy := f.y - y; {
		case dy == 1 && sub.N(4) != 0:
			c |= opRow
		case dy != 0:
			c, args = c|opVert, append(args, nz(dy))
		}
		x, y = f.x+f.w, f.y
		switch {
		case f.diag:
			c, args = c|opDiag|opDrawH, append(args, byte(f.w-1))
			if f.asc {
				c |= opDrawV
			}
		case f.w == 1 && f.h == 1 && sub.N(4) != 0:
			c |= opOnePixel
		default:
			both := sub.N(4) == 0
			if f.w > 1 || f.h == 1 || both {
				c, args = c|opDrawH, append(args, byte(f.w-1))
			}
			if f.h > 1 || both {
				c, args = c|opDrawV, append(args, byte(f.h-1))
			}
		}
		out = append(append(out, c), args...)
	}
	return out
}

// encodedBy gives what another producer writes for a mask.
func encodedBy(m *image.Alpha) []byte {
	seed := uint64(len(m.Pix))
	for i, v := range m.Pix {
		if v != 0 {
			seed = core.Hash(seed, uint64(i), uint64(v))
		}
	}
	return encodeMask(core.NewSub(seed), m)
}

// drawnPart cuts a mask to what is drawn on it; nil if nothing is.
func drawnPart(m *image.Alpha) *image.Alpha {
	rect := drawnRect(m)
	if rect.Empty() {
		return nil
	}
	out := image.NewAlpha(rect)
	for y := rect.Min.Y; y < rect.Max.Y; y++ {
		copy(out.Pix[out.PixOffset(rect.Min.X, y):][:rect.Dx()], m.Pix[m.PixOffset(rect.Min.X, y):])
	}
	return out
}

func sameMask(a, b *image.Alpha) bool {
	if a == nil || b == nil {
		return (a == nil || a.Rect.Empty()) && (b == nil || b.Rect.Empty())
	}
	if a.Rect != b.Rect {
		return false
	}
	for y := 0; y < a.Rect.Dy(); y++ {
		if !bytes.Equal(a.Pix[y*a.Stride:][:a.Rect.Dx()], b.Pix[y*b.Stride:][:a.Rect.Dx()]) {
			return false
		}
	}
	return true
}

// checkOps rasterizes operations and compares with the specification.
func checkOps(r *core.R, what string, ops []byte, want *image.Alpha, exact bool) {
	fills, doubtful, ok := refFills(ops)
	ref, big := refPaint(fills)
	if big {
		r.Probe("too big to draw")
		return
	}
	if exact {
		if !ok || doubtful {
			r.Failf("invalid operations", "%s: the operations for a mask aren't valid: %x", what, ops)
		}
		if !sameMask(ref, want) {
			r.Failf("lossy encoding", "%s: the operations don't draw the mask: %s (%x)", what, maskDiff(ref, want), ops)
		}
	}
	kept := slices.Clone(ops)
	got, err := mask.Rasterize(ops)
	if !bytes.Equal(kept, ops) {
		r.Failf("argument modified", "%s: Rasterize modified the operations", what)
	}
	switch {
	case !ok && err == nil:
		r.Failf("invalid operations accepted", "%s: %x", what, ops)
	case ok && !doubtful && err != nil:
		r.Failf("valid operations refused", "%s: %v (%x)", what, err, ops)
	case ok && !doubtful && !sameMask(got, ref):
		r.Failf("wrong mask", "%s: %s (%x)", what, maskDiff(got, ref), ops)
	case err == nil && got != nil && !doubtful && (len(got.Pix) < got.Stride*(got.Rect.Dy()-1)+got.Rect.Dx() || got.Rect.Empty()):
		r.Failf("wrong mask", "%s: malformed image", what)
	}
	if got != nil { // the renderer may draw on it
		for i := range got.Pix {
			got.Pix[i] = ^got.Pix[i]
		}
	}
}

// segment is an encoded mask within a thread's data.
type segment struct {
	from, to int
	img      *image.Alpha
}

// codecThread has an encoder that's reused for everything.
type codecThread struct {
	enc  mask.Encoder
	data []byte
	segs []segment
}

func (t *codecThread) encode(r *core.R, name string, img *image.Alpha) {
	sheet := img.Pix
	kept := slices.Clone(sheet)
	before := slices.Clone(t.data)
	out := t.enc.AppendRasterOps(t.data, img)
	if !bytes.Equal(kept, sheet) {
		r.Failf("argument modified", "%s: the encoder modified the mask", name)
	}
	if len(out) < len(before) || !bytes.Equal(out[:len(before)], before) {
		r.Failf("argument modified", "%s: the encoder modified earlier data", name)
	}
	t.segs = append(t.segs, segment{len(before), len(out), img})
	t.data = out
	s := t.segs[len(t.segs)-1]
	checkOps(r, name, out[s.from:s.to:s.to], drawnPart(img), true)
}

func drawCodecMask(r *core.R) *image.Alpha {
	minX, minY, maxX, maxY := -4, -24, 28, 8
	switch r.N(8) {
	case 5:
		minX, minY = r.N(600)-300, r.N(600)-300
		maxX, maxY = minX+1+r.Small(40), minY+1+r.Small(40)
	case 6:
		minX, minY, maxX, maxY = -10, -60, 100, 40
	case 7:
		if r.N(6) == 5 {
			minX, minY, maxX, maxY = -400, -300, 700, 300
		}
	}
	img := genMask(r, minX, minY, maxX, maxY)
	if r.N(8) == 7 { // a line or area around the limits of a single operation
		w, h := 1, 1
		n := 120 + r.N(300)
		if r.N(12) == 11 { // more than two operations
			n = 480 + r.N(320)
		}
		switch r.N(3) {
		case 0:
			w, h = n, 1+r.Small(3)
		case 1:
			w, h = 1+r.Small(3), n
		case 2:
			w, h = n, n
		}
		x, y := r.Small(400)-200, r.Small(400)-200
		line := image.NewAlpha(image.Rect(x, y, x+w, y+h))
		v := uint8(1 + r.N(255))
		kind := r.N(3)
		for i := range line.Pix {
			px, py := i%w, i/w
			if w != h || kind == 0 || kind == 1 && px == py || kind == 2 && px+py == w-1 {
				line.Pix[i] = v
			}
		}
		img = line
		r.Probe("beyond the limits of a single operation")
	}
	if len(img.Pix) > 0 && r.N(6) == 5 {
		img = subImage(img, r.N(3), r.N(3), r.N(3), r.N(3))
		r.Probe("part of a bigger image")
	}
	if r.N(40) == 39 {
		img = image.NewAlpha(image.Rectangle{})
	}
	return img
}

func runMasks(r *core.R) {
	threads := make([]*codecThread, 1+r.Pick(3, 2, 1))
	for i := range threads {
		threads[i] = &codecThread{data: make([]byte, r.Small(20), 20+r.Small(4000))}
	}
	var imgs []*image.Alpha
	for n := 1 + r.Small(6); n > 0; n-- {
		r.Op(func() { imgs = append(imgs, drawCodecMask(r)) })
	}
	kept := make([]*image.Alpha, len(imgs))
	for i := range imgs {
		kept[i] = cloneMask(imgs[i])
	}
	encoded := 0
	action := func(t *codecThread, name string) func() {
		switch r.Pick(6, 2, 2, 3, 3, 1) {
		case 0: // encode
			k := r.N(len(imgs))
			if !drawnRect(imgs[k]).Empty() && len(t.segs) > 0 {
				encoded++
			}
			return func() { t.encode(r, fmt.Sprintf("%s, mask %d", name, k), imgs[k]) }
		case 1: // what another producer wrote
			k := r.N(len(imgs))
			ops := encodeMask(r.Sub(), imgs[k])
			r.Probe("operations of another producer")
			return func() { checkOps(r, name+", of another producer", ops, drawnPart(imgs[k]), true) }
		case 2: // the renderer draws some stored mask
			k := r.N(64)
			return func() {
				if len(t.segs) > 0 {
					s := t.segs[k%len(t.segs)]
					checkOps(r, name+", again", t.data[s.from:s.to:s.to], drawnPart(s.img), true)
				}
			}
		case 3: // the storage damages the masks; the offsets stay
			if len(t.segs) == 0 || len(t.data) == 0 {
				break
			}
			var bad []byte
			if r.Bool(1, 2) {
				bad = corrupt(r, t.data, threads[r.N(len(threads))].data)
			} else {
				bad = corruptPayload(r, t.data)
			}
			segs := slices.Clone(t.segs)
			return func() {
				for i, s := range segs {
					if to := min(s.to, len(bad)); s.from < to {
						checkOps(r, fmt.Sprintf("%s, damaged mask %d", name, i), bad[s.from:to:to], nil, false)
					}
				}
			}
		case 4: // operations that end or start anywhere
			var ops []byte
			if len(t.segs) > 0 && r.Bool(2, 3) {
				s := t.segs[r.N(len(t.segs))]
				ops = slices.Clone(t.data[s.from:s.to])
			} else {
				ops = encodeMask(r.Sub(), imgs[r.N(len(imgs))])
			}
			ops = ops[:min(len(ops), 60+r.N(600))]
			if len(ops) > 0 {
				if r.Bool(1, 2) {
					r.Fault("operations cut short")
					ops = ops[:r.N(len(ops))]
				} else {
					r.Fault("operations starting anywhere")
					ops = ops[r.N(len(ops)):]
				}
			}
			return func() { checkOps(r, name+", cut", ops, nil, false) }
		case 5: // anything at all
			sub := r.Sub()
			ops := make([]byte, r.Small(120))
			for i := range ops {
				ops[i] = byte(sub.N(256))
				if sub.N(2) == 0 {
					ops[i] &= 0x0F | byte(1<<(4+sub.N(4)))
				}
			}
			r.Fault("arbitrary operations")
			return func() { checkOps(r, name+", arbitrary", ops, nil, false) }
		}
		return func() {}
	}
	for n := 1 + r.Small(10); n > 0; n-- {
		r.Op(func() {
			var fs []func()
			for i, t := range threads {
				var todo []func()
				for k := 1 + r.Small(3); k > 0; k-- {
					todo = append(todo, action(t, fmt.Sprintf("thread %d", i)))
				}
				fs = append(fs, func() {
					for _, f := range todo {
						f()
					}
				})
			}
			if len(fs) > 1 && r.Bool(2, 3) {
				r.Parallel(fs...)
			} else {
				for _, f := range fs {
					f()
				}
			}
			if r.N(12) == 11 { // a new encoder
				*threads[r.N(len(threads))] = codecThread{}
			}
			k := r.N(len(imgs))
			if rect, want := mask.ComputeRect(imgs[k]), drawnRect(imgs[k]); rect != want && !(rect.Empty() && want.Empty()) {
				r.Failf("wrong bounds", "mask %d has %v, ComputeRect gives %v", k, want, rect)
			}
		})
	}
	for i, t := range threads { // whatever happened since, all is as it was encoded
		for k, s := range t.segs {
			checkOps(r, fmt.Sprintf("thread %d, mask %d, at the end", i, k), t.data[s.from:s.to:s.to], drawnPart(s.img), true)
		}
		r.Mix(t.data)
	}
	for i := range imgs {
		if !bytes.Equal(kept[i].Pix, imgs[i].Pix) {
			r.Failf("argument modified", "mask %d was modified", i)
		}
	}
	if encoded > 0 {
		r.Nontrivial()
	}
}

func init() {
	core.Register(&core.World{ID: "C21", QuickRuns: 30000, Run: runMasks,
		Rule:        "one seeded history of encoding masks with one to three reused encoders, alone and on concurrent threads that share masks, and of rasterizing what they, another producer, damaged storage or chance provide; non-trivial if a mask that isn't empty is encoded with an encoder that was used before",
		Faults:      []string{"flipped bits", "torn file", "stale sector", "damaged payload with valid checksum", "operations cut short", "operations starting anywhere", "arbitrary operations"},
		MustProbe:   []string{"operations of another producer", "beyond the limits of a single operation", "part of a bigger image", "huge mask"},
		Real:        []string{"mask.Encoder", "mask.Rasterize", "mask.ComputeRect"},
		Stub:        []string{"storage of the encoded masks (in memory, with damage)"},
		Measure:     "distinct traces",
		Assumptions: []string{"an encoder is used by one thread at a time", "masks that aren't modified while they are used", "operations that would draw more than 2 million pixels aren't drawn"},
	})
}
