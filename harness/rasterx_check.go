package main

import (
	"fmt"
	"image"
	"image/color"
	"math"
	"math/rand"

	"github.com/srwiley/rasterx"
	"golang.org/x/image/math/fixed"

	svg "github.com/lafriks/go-svg"
	rx "github.com/lafriks/go-svg/renderer/rasterx"
)

// rxPaint is one Draw of a rasterx scanner.
type rxPaint struct {
	what    string
	subs    [][]fixed.Point26_6
	nonzero bool
	col     interface{}
}

// rxScanner records what is drawn.
type rxScanner struct {
	subs     [][]fixed.Point26_6
	nonzero  bool
	col      interface{}
	min, max fixed.Point26_6
	clip     image.Rectangle
	paints   []rxPaint
	points   int
}

func (s *rxScanner) add(p fixed.Point26_6) {
	s.points++
	if p.X < s.min.X {
		s.min.X = p.X
	}
	if p.Y < s.min.Y {
		s.min.Y = p.Y
	}
	if p.X > s.max.X {
		s.max.X = p.X
	}
	if p.Y > s.max.Y {
		s.max.Y = p.Y
	}
	s.subs[len(s.subs)-1] = append(s.subs[len(s.subs)-1], p)
}

func (s *rxScanner) Start(a fixed.Point26_6) {
	s.subs = append(s.subs, nil)
	s.add(a)
}

func (s *rxScanner) Line(b fixed.Point26_6) {
	if len(s.subs) == 0 {
		s.subs = append(s.subs, nil)
	}
	s.add(b)
}

func (s *rxScanner) Draw() {
	p := rxPaint{nonzero: s.nonzero, col: s.col}
	for _, sub := range s.subs {
		p.subs = append(p.subs, sub[:len(sub):len(sub)])
	}
	s.paints = append(s.paints, p)
}

func (s *rxScanner) GetPathExtent() fixed.Rectangle26_6 {
	return fixed.Rectangle26_6{Min: s.min, Max: s.max}
}
func (s *rxScanner) SetBounds(w, h int)           {}
func (s *rxScanner) SetColor(c interface{})       { s.col = c }
func (s *rxScanner) SetWinding(nonzero bool)      { s.nonzero = nonzero }
func (s *rxScanner) SetClip(rect image.Rectangle) { s.clip = rect }
func (s *rxScanner) Clear() {
	const big = fixed.Int26_6(math.MaxInt32)
	s.subs = nil
	s.min, s.max = fixed.Point26_6{X: big, Y: big}, fixed.Point26_6{X: -big, Y: -big}
}

func newRxScanner() *rxScanner {
	s := &rxScanner{}
	s.Clear()
	return s
}

// rxColour is the paint for the path in the scanner.
func rxColour(p svg.Pattern, opacity float64, m mat, ext fixed.Rectangle26_6) interface{} {
	switch c := p.(type) {
	case svg.PlainColor:
		return color.NRGBA{c.R, c.G, c.B, uint8(opacity * 255)}
	case svg.Gradient:
		g := &rasterx.Gradient{
			Matrix: rasterx.Matrix2D{A: c.Matrix.A, B: c.Matrix.B, C: c.Matrix.C, D: c.Matrix.D, E: c.Matrix.E, F: c.Matrix.F},
		}
		g.Bounds = c.Bounds
		switch c.Units {
		case svg.ObjectBoundingBox:
			g.Units = rasterx.ObjectBoundingBox
			g.Bounds.X, g.Bounds.Y = float64(ext.Min.X)/64, float64(ext.Min.Y)/64
			g.Bounds.W, g.Bounds.H = float64(ext.Max.X)/64-g.Bounds.X, float64(ext.Max.Y)/64-g.Bounds.Y
		default:
			g.Units = rasterx.UserSpaceOnUse
		}
		switch c.Spread {
		case svg.PadSpread:
			g.Spread = rasterx.PadSpread
		case svg.ReflectSpread:
			g.Spread = rasterx.ReflectSpread
		case svg.RepeatSpread:
			g.Spread = rasterx.RepeatSpread
		}
		switch d := c.Direction.(type) {
		case svg.Linear:
			copy(g.Points[:], d[:])
		case svg.Radial:
			copy(g.Points[:], d[:5])
			g.IsRadial = true
		}
		for _, s := range c.Stops {
			g.Stops = append(g.Stops, rasterx.GradStop{StopColor: s.StopColor, Offset: s.Offset, Opacity: s.Opacity})
		}
		return g.GetColorFunctionUS(opacity, rasterx.Matrix2D{A: m[0], B: m[1], C: m[2], D: m[3], E: m[4], F: m[5]})
	}
	return nil
}

func rxCap(c svg.CapMode) rasterx.CapFunc {
	switch c {
	case svg.SquareCap:
		return rasterx.SquareCap
	case svg.RoundCap:
		return rasterx.RoundCap
	case svg.CubicCap:
		return rasterx.CubicCap
	case svg.QuadraticCap:
		return rasterx.QuadraticCap
	}
	return rasterx.ButtCap
}

func rxAdd(a rasterx.Adder, p svg.Path, m mat, j jitter) {
	var cur fixed.Point26_6
	for _, op := range p {
		k, ps := rawPoints(op)
		for i := range ps {
			ps[i] = j.pt(m, ps[i])
		}
		switch k {
		case 'M':
			a.Stop(false)
			a.Start(ps[0])
		case 'L':
			a.Line(ps[0])
		case 'Q':
			if _, fill := a.(*rasterx.Filler); !fill && (ps[0] == cur || ps[0] == ps[1]) {
				a.Line(ps[1])
			} else {
				a.QuadBezier(ps[0], ps[1])
			}
		case 'C':
			a.CubeBezier(ps[0], ps[1], ps[2])
		case 'Z':
			a.Stop(true)
		}
		if len(ps) > 0 {
			cur = ps[len(ps)-1]
		}
	}
	a.Stop(false)
}

// rxExpected draws the paths. Strokes share a rasterizer, which uses the last
// direction of the path before for a path that begins without one; everything
// else is set for every path.
func rxExpected(s *svg.Svg, o *drawOptions, used bool, j jitter) []rxPaint {
	var out []rxPaint
	sc := newRxScanner()
	d := rasterx.NewDasher(100, 100, sc)
	if used {
		rxUse(d)
	}
	target := o.target(s.ViewBox)
	for i := range s.SvgPaths {
		p := &s.SvgPaths[i]
		st := &p.Style
		m := target.mul(matOf(st.Transform))
		if st.FillerColor != nil {
			sc := newRxScanner()
			f := rasterx.NewFiller(100, 100, sc)
			sc.Clear()
			rxAdd(f, p.Path, m, j)
			out = append(out, rxPaint{fmt.Sprintf("path %d, fill", i), sc.subs, st.UseNonZeroWinding, rxColour(st.FillerColor, st.FillOpacity*o.opacity, m, sc.GetPathExtent())})
		}
		if st.LinerColor != nil {
			sc.Clear()
			lead := st.Join.LeadLineCap
			if lead == svg.NilCap {
				lead = st.Join.TrailLineCap
			}
			var gap rasterx.GapFunc
			switch st.Join.LineGap {
			case svg.RoundGap:
				gap = rasterx.RoundGap
			case svg.CubicGap:
				gap = rasterx.CubicGap
			case svg.QuadraticGap:
				gap = rasterx.QuadraticGap
			default:
				gap = rasterx.FlatGap
			}
			var join rasterx.JoinMode
			switch st.Join.LineJoin {
			case svg.Arc:
				join = rasterx.Arc
			case svg.ArcClip:
				join = rasterx.ArcClip
			case svg.Miter:
				join = rasterx.Miter
			case svg.MiterClip:
				join = rasterx.MiterClip
			case svg.Round:
				join = rasterx.Round
			default:
				join = rasterx.Bevel
			}
			dash, off := scaledDash(st.Dash, j.scale(m.lineScale()))
			d.SetStroke(j.width(fixed.Int26_6(st.LineWidth*64*m.lineScale())), st.Join.MiterLimit, rxCap(lead), rxCap(st.Join.TrailLineCap), gap, join, dash, off)
			rxAdd(d, p.Path, m, j)
			out = append(out, rxPaint{fmt.Sprintf("path %d, stroke", i), sc.subs, true, rxColour(st.LinerColor, st.LineOpacity*o.opacity, m, sc.GetPathExtent())})
		}
	}
	return out
}

func (p *rxPaint) size() (n int) {
	for _, s := range p.subs {
		n += len(s)
	}
	return
}

func (p *rxPaint) alpha() int {
	if c, ok := p.col.(color.Color); ok {
		return int(toNRGBA(c).A)
	}
	return 255
}

// rxVisible leaves out paints that nobody can see.
func rxVisible(ps []rxPaint, alpha int) []rxPaint {
	var out []rxPaint
	for _, p := range ps {
		if p.size() > 1 && p.alpha() >= alpha {
			out = append(out, p)
		}
	}
	return out
}

// open counts subpaths that do not end where they start.
func (p *rxPaint) open() int {
	n := 0
	for _, s := range p.subs {
		if d := s[0].Sub(s[len(s)-1]); d.X < -2 || d.X > 2 || d.Y < -2 || d.Y > 2 {
			n++
		}
	}
	return n
}

func sameSubs(a, b [][]fixed.Point26_6) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if a[i][j] != b[i][j] {
				return false
			}
		}
	}
	return true
}

func (p *rxPaint) outline() *outline {
	o := &outline{}
	for _, s := range p.subs {
		for i := range s {
			o.closed = append(o.closed, segment{a: fpt(s[i]), b: fpt(s[(i+1)%len(s)])})
		}
	}
	return o
}

// sameShape compares what two outlines cover, up to small differences of
// their points.
func sameShape(a, b *rxPaint, r *rand.Rand) string {
	oa, ob := a.outline(), b.outline()
	lo, hi := pt{1e9, 1e9}, pt{-1e9, -1e9}
	for _, o := range []*outline{oa, ob} {
		for _, s := range o.closed {
			lo.x, lo.y = math.Min(lo.x, s.a.x), math.Min(lo.y, s.a.y)
			hi.x, hi.y = math.Max(hi.x, s.a.x), math.Max(hi.y, s.a.y)
		}
	}
	bad, n, edge := 0, 0, 0
	var where pt
	const samples = 600
	for i := 0; i < samples; i++ {
		p := pt{lo.x + r.Float64()*(hi.x-lo.x), lo.y + r.Float64()*(hi.y-lo.y)}
		x := oa.fillAt(p, a.nonzero, 0.1)
		y := ob.fillAt(p, b.nonzero, 0.1)
		if x < 0 || y < 0 {
			edge++
			continue
		}
		n++
		if x != y {
			bad++
			where = p
		}
	}
	if bad > 2+n/50 {
		return fmt.Sprintf("another shape: differs in %d of %d points, e.g. %v", bad, n, where)
	}
	// thin shapes: the points must be near each other's edges
	bad, n = 0, 0
	for k := 0; k < 200; k++ {
		for _, c := range [][2]*outline{{oa, ob}, {ob, oa}} {
			if len(c[0].closed) == 0 {
				return "another shape: nothing drawn"
			}
			q := c[0].closed[r.Intn(len(c[0].closed))]
			f := r.Float64()
			p := pt{q.a.x + f*(q.b.x-q.a.x), q.a.y + f*(q.b.y-q.a.y)}
			best := math.Inf(1)
			for _, s := range c[1].closed {
				if d, _, _ := segDist(s, p); d < best {
					best = d
				}
			}
			n++
			if best > 0.3 {
				bad++
			}
		}
	}
	if bad > 2+n/20 {
		return fmt.Sprintf("another shape: %d of %d points of the outlines differ", bad, n)
	}
	return ""
}

func rxCompare(e, g *rxPaint, r *rand.Rand) (string, bool) {
	exact := sameSubs(e.subs, g.subs)
	if e.nonzero != g.nonzero {
		return fmt.Sprintf("winding rule nonzero=%v, expected %v", g.nonzero, e.nonzero), exact
	}
	if !exact {
		if d := sameShape(e, g, r); d != "" {
			return d, exact
		}
	}
	ef, ok1 := e.col.(rasterx.ColorFunc)
	gf, ok2 := g.col.(rasterx.ColorFunc)
	if !ok1 && !ok2 {
		ec, _ := e.col.(color.Color)
		gc, _ := g.col.(color.Color)
		if gc == nil || !sameNRGBA(toNRGBA(ec), toNRGBA(gc), 1) {
			return fmt.Sprintf("colour %v, expected %v", g.col, e.col), exact
		}
		return "", exact
	}
	at := func(f rasterx.ColorFunc, c interface{}, x, y int) color.NRGBA {
		if f != nil {
			return toNRGBA(f(x, y))
		}
		col, _ := c.(color.Color)
		return toNRGBA(col)
	}
	bad := 0
	var msg string
	for i := 0; i < 24; i++ {
		x, y := r.Intn(140)-20, r.Intn(140)-20
		if len(e.subs) > 0 && i%2 == 0 {
			s := e.subs[r.Intn(len(e.subs))]
			p := s[r.Intn(len(s))]
			x, y = int(p.X>>6)+r.Intn(11)-5, int(p.Y>>6)+r.Intn(11)-5
		}
		a, b := at(ef, e.col, x, y), at(gf, g.col, x, y)
		if !sameNRGBA(a, b, 3) {
			bad++
			msg = fmt.Sprintf("gradient is %v at %d,%d, expected %v", b, x, y, a)
		}
	}
	if bad > 1 {
		return msg, exact
	}
	return "", exact
}

// rxUse draws something else.
func rxUse(d *rasterx.Dasher) {
	d.SetStroke(77*64, 9*64, rasterx.RoundCap, rasterx.SquareCap, rasterx.RoundGap, rasterx.ArcClip, []float64{3, 4, 5}, 1)
	d.Start(fixed.Point26_6{X: 64000, Y: 64000})
	d.Line(fixed.Point26_6{X: 64000, Y: 65000})
	d.Stop(false)
	d.Draw()
}

func rxCheck(t *T, s *svg.Svg, o *drawOptions, r *rand.Rand) {
	sc := newRxScanner()
	d := rasterx.NewDasher(100, 100, sc)
	sc.Clear()
	used := r.Intn(3) == 0
	if used {
		sc.SetWinding(r.Intn(2) == 0)
		sc.SetColor(color.NRGBA{1, 2, 3, 255})
		rxUse(d)
		sc.paints = nil
	}
	e := rxExpected(s, o, used, 0)
	rx.Draw(d, s, o.list...)
	if sc.clip != (image.Rectangle{}) {
		t.Failf("rasterx: a clip %v is set", sc.clip)
	}
	a, b := rxVisible(e, 1), rxVisible(sc.paints, 1)
	faint := func(ps []rxPaint) func(int) bool {
		return func(i int) bool { return ps[i].alpha() <= 4 }
	}
	some := false
	for _, ps := range [][]rxPaint{a, b} {
		for i := range ps {
			some = some || ps[i].alpha() <= 4
		}
	}
	if some {
		same := func(i, k int) bool { d, _ := rxCompare(&a[i], &b[k], r); return d == "" }
		if pairs, ok := align(len(a), len(b), same, faint(a), faint(b)); ok {
			var x, y []rxPaint
			for _, p := range pairs {
				x, y = append(x, a[p[0]]), append(y, b[p[1]])
			}
			a, b = x, y
		}
	}
	for i := range a {
		if i >= len(b) {
			t.Failf("rasterx: %d paints, expected %d; missing %s", len(b), len(a), a[i].what)
		}
		msg, exact := rxCompare(&a[i], &b[i], r)
		if msg == "" && a[i].open() == 0 && b[i].open() > 0 {
			msg = "the outline is left open, for which scanners paint beyond it"
		}
		if msg != "" && !exact {
			// does another rounding of the points make such a difference?
			for j := jitter(1); j <= 24; j++ {
				for _, v := range rxExpected(s, o, used, j) {
					if v.what != a[i].what {
						continue
					}
					if v.open() > 0 && a[i].open() == 0 {
						msg = ""
					} else if m, _ := rxCompare(&a[i], &v, r); m != "" {
						msg = ""
					}
				}
				if msg == "" {
					t.Count("paints that depend on rounding, left open", 1)
					return
				}
			}
		}
		if msg != "" {
			t.Failf("rasterx: paint %d (%s): %s", i, a[i].what, msg)
		}
		t.Count("paints compared", 1)
		if !exact {
			t.Count("paints equal up to rounding", 1)
		}
		if _, ok := a[i].col.(rasterx.ColorFunc); ok {
			t.Count("gradients compared", 1)
		}
		t.Count("outline points compared", a[i].size())
	}
	if len(b) != len(a) {
		t.Failf("rasterx: %d paints, expected %d", len(b), len(a))
	}
}

func init() {
	register(&Check{
		ID: "C20", Quick: 150000, Deep: 1500000,
		Rule: "generated documents with all shapes, styles, gradients, groups, definitions and masks, and the repository's test images, drawn with random options through a real rasterx Dasher into a recording Scanner, compared with the outlines, winding rules and colours that a separate Dasher gives for every path of the drawing; nontrivial: at least one path",
		Run: func(t *T, k int, r *rand.Rand) {
			var s *svg.Svg
			var src string
			if k < len(seedFiles)*4 {
				src = string(seedFiles[k%len(seedFiles)].data)
				s, _ = parseString(src, svg.IgnoreErrorMode)
			} else {
				s, src = drawing(t, r, true, r.Intn(4) == 0)
			}
			o := randOptions(r, 100)
			in := o.input(src)
			t.Input(in)
			if s == nil || !ordinary(s, o.target(s.ViewBox), 50000) {
				t.Count("left open", 1)
				return
			}
			rxCheck(t, s, o, r)
			if len(s.SvgPaths) > 0 {
				t.Eval(clip(in, 3000))
			} else {
				t.Eval("")
			}
		},
	})
}
