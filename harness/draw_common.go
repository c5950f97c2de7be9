package main

import (
	"fmt"
	"image/color"
	"math"
	"math/rand"
	"strings"

	"golang.org/x/image/math/fixed"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
)

// drawOptions are options for the renderers and what they mean.
type drawOptions struct {
	list    []renderer.RenderOption
	rect    *[4]float64
	opacity float64
	text    string
}

func (o *drawOptions) addTarget(x, y, w, h float64) {
	o.list = append(o.list, renderer.Target(x, y, w, h))
	o.rect = &[4]float64{x, y, w, h}
	o.text += fmt.Sprintf(" Target(%v,%v,%v,%v)", x, y, w, h)
}

func (o *drawOptions) addOpacity(f float64) {
	o.list = append(o.list, renderer.Opacity(f))
	o.opacity = f
	o.text += fmt.Sprintf(" Opacity(%v)", f)
}

func randOptions(r *rand.Rand, size float64) *drawOptions {
	o := &drawOptions{opacity: 1}
	n := []int{0, 1, 1, 1, 2, 2, 3, 4}[r.Intn(8)]
	for i := 0; i < n; i++ {
		if r.Intn(3) == 0 {
			o.addOpacity([]float64{0.5, 1, 0, r.Float64(), r.Float64()}[r.Intn(5)])
			continue
		}
		switch r.Intn(4) {
		case 0:
			o.addTarget(0, 0, size, size)
		case 1:
			o.addTarget(0, 0, 1+r.Float64()*size*1.5, 1+r.Float64()*size*1.5)
		default:
			o.addTarget((r.Float64()-0.3)*size, (r.Float64()-0.3)*size, 1+r.Float64()*size, 1+r.Float64()*size)
		}
	}
	return o
}

// target is the map from user units to the device.
func (o *drawOptions) target(b svg.Bounds) mat {
	if o.rect == nil {
		return ident
	}
	sx, sy := 1.0, 1.0
	if b.W != 0 {
		sx = o.rect[2] / b.W
	}
	if b.H != 0 {
		sy = o.rect[3] / b.H
	}
	return mat{1, 0, 0, 1, o.rect[0], o.rect[1]}.mul(mat{sx, 0, 0, sy, 0, 0}).mul(mat{1, 0, 0, 1, -b.X, -b.Y})
}

// fixedPt is where a point of a path goes, in the resolution of the renderers.
func (m mat) fixedPt(p fixed.Point26_6) fixed.Point26_6 {
	return fixed.Point26_6{
		X: fixed.Int26_6((float64(p.X)*m[0] + float64(p.Y)*m[2]) + m[4]*64),
		Y: fixed.Int26_6((float64(p.X)*m[1] + float64(p.Y)*m[3]) + m[5]*64),
	}
}

// jitter stands for another rounding of the points: equal points stay equal.
type jitter uint64

func (j jitter) pt(m mat, p fixed.Point26_6) fixed.Point26_6 {
	q := m.fixedPt(p)
	if j != 0 {
		h := uint64(j)*0x9e3779b97f4a7c15 ^ uint64(uint32(p.X))<<32 ^ uint64(uint32(p.Y))
		h = (h ^ h>>30) * 0xbf58476d1ce4e5b9
		h = (h ^ h>>27) * 0x94d049bb133111eb
		h ^= h >> 31
		q.X += fixed.Int26_6(h%3) - 1
		q.Y += fixed.Int26_6(h/3%3) - 1
	}
	return q
}

// width is another rounding of a line width.
func (j jitter) width(w fixed.Int26_6) fixed.Int26_6 {
	if j != 0 && w > 8 {
		w += fixed.Int26_6(j%3) - 1
	}
	return w
}

// scale is another rounding of what lines are scaled by.
func (j jitter) scale(f float64) float64 {
	if j != 0 {
		f *= 1 + 1e-10*(float64(j/3%3)-1)
	}
	return f
}

func rawPoints(op svg.Operation) (byte, []fixed.Point26_6) {
	switch o := op.(type) {
	case svg.OpMoveTo:
		return 'M', []fixed.Point26_6{fixed.Point26_6(o)}
	case svg.OpLineTo:
		return 'L', []fixed.Point26_6{fixed.Point26_6(o)}
	case svg.OpQuadTo:
		return 'Q', o[:]
	case svg.OpCubicTo:
		return 'C', o[:]
	}
	return 'Z', nil
}

// ordinary tells whether all paths stay at a size the renderers can handle
// exactly: no overflow of coordinates, not millions of dashes.
func ordinary(s *svg.Svg, m mat, limit float64) bool {
	ok := func(ps []svg.SvgPath) bool {
		for i := range ps {
			p := &ps[i]
			t := m.mul(matOf(p.Style.Transform))
			length := 0.0
			var last pt
			for _, v := range append(t[:], p.Style.LineWidth*t.lineScale()) {
				if !(math.Abs(v) < limit) {
					return false
				}
			}
			for _, op := range p.Path {
				_, ps := opPoints(op)
				for _, q := range ps {
					x, y := t.apply(q.x, q.y)
					if !(math.Abs(x) < limit && math.Abs(y) < limit) {
						return false
					}
					length += math.Hypot(x-last.x, y-last.y)
					last = pt{x, y}
				}
			}
			if p.Style.LinerColor != nil && len(p.Style.Dash.Dash) > 0 {
				sum := 0.0
				for _, d := range p.Style.Dash.Dash {
					sum += d
				}
				sum *= t.lineScale() / float64(len(p.Style.Dash.Dash))
				if !(2*length/sum < 20000) || !(math.Abs(p.Style.Dash.DashOffset*t.lineScale()/sum) < 20000) {
					return false
				}
			}
		}
		return true
	}
	if !ok(s.SvgPaths) {
		return false
	}
	for _, k := range s.SvgMasks {
		if k != nil && !ok(k.SvgPaths) {
			return false
		}
	}
	return true
}

// drawing makes a document to draw and parses it.
func drawing(t *T, r *rand.Rand, gradients, masks bool) (*svg.Svg, string) {
	g := rich(r)
	g.budget = 1 + r.Intn(12)
	g.span = []float64{20, 60, 100, 100, 400}[r.Intn(5)]
	g.pStyle, g.pTitle, g.pText = 0.65, 0, 0
	g.pGrad, g.pGradUse = 0.15, 0.45
	if !gradients {
		g.pGrad, g.pGradUse = 0, 0
	}
	if masks {
		g.pMask, g.pMasked = 0.12, 0.3
		if r.Intn(2) == 0 {
			g.masks = append(g.masks, "unknown")
		}
	} else {
		g.pMask, g.pMasked = 0, 0
	}
	root := g.doc()
	if r.Intn(250) == 0 {
		root = bigDoc(r, "shapes", "path", "points", "dashes", "transforms", "depth", "chain")
	}
	src := root.plain()
	s, err := parseString(src, svg.IgnoreErrorMode)
	if err != nil || s == nil {
		return nil, src
	}
	return s, src
}

func (o *drawOptions) input(src string) string {
	return "options:" + o.text + "\n" + src
}

func scaledDash(d svg.DashOptions, s float64) ([]float64, float64) {
	var out []float64
	if s > 0 {
		for _, v := range d.Dash {
			out = append(out, v*s)
		}
	}
	return out, d.DashOffset * s
}

// solid gives the colour a paint has without regard to opacity: the first of
// a gradient, black if it has none.
func solid(p svg.Pattern) color.NRGBA {
	switch c := p.(type) {
	case svg.PlainColor:
		return c.NRGBA
	case svg.Gradient:
		for _, s := range c.Stops {
			if s.StopColor != nil {
				r, g, b, a := s.StopColor.RGBA()
				return color.NRGBA{uint8(r >> 8), uint8(g >> 8), uint8(b >> 8), uint8(a >> 8)}
			}
		}
	}
	return color.NRGBA{0, 0, 0, 255}
}

func toNRGBA(c color.Color) color.NRGBA {
	if c == nil {
		return color.NRGBA{}
	}
	return color.NRGBAModel.Convert(c).(color.NRGBA)
}

func closeByte(a, b uint8, tol int) bool {
	d := int(a) - int(b)
	return d <= tol && d >= -tol
}

// ---- a picture of its own: which points are painted with what ----

type segment struct{ a, b pt }

type outline struct {
	segs   []segment // as drawn
	closed []segment // with every subpath closed
	lone   []pt      // subpaths without segments
}

func flatten(p svg.Path, m mat) *outline {
	o := &outline{}
	var sub []pt
	end := func() {
		if len(sub) == 1 {
			o.lone = append(o.lone, sub[0])
		}
		for i := 1; i < len(sub); i++ {
			s := segment{a: sub[i-1], b: sub[i]}
			o.closed = append(o.closed, s)
			o.segs = append(o.segs, s)
		}
		if len(sub) > 1 {
			o.closed = append(o.closed, segment{a: sub[len(sub)-1], b: sub[0]})
		}
		sub = nil
	}
	var start pt
	for _, op := range p {
		k, ps := opPoints(op)
		for i := range ps {
			ps[i].x, ps[i].y = m.apply(ps[i].x, ps[i].y)
		}
		switch k {
		case 'M':
			end()
			start = ps[0]
			sub = []pt{start}
		case 'Z':
			if len(sub) > 0 {
				sub = append(sub, start)
			}
			end()
		default:
			if len(sub) == 0 {
				sub = []pt{start}
			}
			if k == 'L' {
				sub = append(sub, ps[0])
				break
			}
			from := sub[len(sub)-1]
			size := 0.0
			last := from
			for _, q := range ps {
				size += math.Hypot(q.x-last.x, q.y-last.y)
				last = q
			}
			n := 8 + int(math.Min(size/3, 500))
			for i := 1; i <= n; i++ {
				sub = append(sub, bezier(from, ps, float64(i)/float64(n)))
			}
		}
	}
	end()
	return o
}

func segDist(s segment, p pt) (d, foot, length float64) {
	dx, dy := s.b.x-s.a.x, s.b.y-s.a.y
	length = math.Hypot(dx, dy)
	if length == 0 {
		return math.Hypot(p.x-s.a.x, p.y-s.a.y), 0, 0
	}
	foot = ((p.x-s.a.x)*dx + (p.y-s.a.y)*dy) / length
	if foot < 0 {
		return math.Hypot(p.x-s.a.x, p.y-s.a.y), foot, length
	}
	if foot > length {
		return math.Hypot(p.x-s.b.x, p.y-s.b.y), foot, length
	}
	return math.Abs((p.x-s.a.x)*dy-(p.y-s.a.y)*dx) / length, foot, length
}

// fillAt tells whether a point is inside: 1, outside: 0, too close to tell: -1.
func (o *outline) fillAt(p pt, nonzero bool, margin float64) int {
	w := 0
	for _, s := range o.closed {
		if d, _, _ := segDist(s, p); d < margin {
			return -1
		}
		if (s.a.y <= p.y) != (s.b.y <= p.y) {
			x := s.a.x + (p.y-s.a.y)/(s.b.y-s.a.y)*(s.b.x-s.a.x)
			if x > p.x {
				if s.b.y > s.a.y {
					w++
				} else {
					w--
				}
			}
		}
	}
	if nonzero && w != 0 || !nonzero && w&1 != 0 {
		return 1
	}
	return 0
}

// strokeAt tells whether a point is on the stroke. reach is how far corners
// and ends may go beyond half of the width, as a factor.
func (o *outline) strokeAt(p pt, width float64, dashed bool, reach, margin float64) int {
	h := width / 2
	res := 0
	for _, s := range o.segs {
		d, foot, length := segDist(s, p)
		if d < h*reach+margin+0.5 {
			res = -1
		}
		if dashed || d > 0.9*h-margin {
			continue
		}
		// ends and joins are drawn in different ways
		lo, hi := h+margin, length-h-margin
		if foot >= lo && foot <= hi {
			return 1
		}
	}
	for _, q := range o.lone {
		if math.Hypot(q.x-p.x, q.y-p.y) < h*reach+margin+0.5 {
			res = -1
		}
	}
	return res
}

type rgba struct{ r, g, b, a float64 } // premultiplied, 0 to 1

func (c rgba) over(n color.NRGBA, a float64) rgba {
	return rgba{
		float64(n.R)/255*a + c.r*(1-a),
		float64(n.G)/255*a + c.g*(1-a),
		float64(n.B)/255*a + c.b*(1-a),
		a + c.a*(1-a),
	}
}

// sampler paints single points.
type sampler struct {
	s       *svg.Svg
	masks   bool // masks limit what is painted
	reach   float64
	outline map[string]*outline
}

func newSampler(s *svg.Svg, masks bool) *sampler {
	return &sampler{s: s, masks: masks, reach: 1.45, outline: map[string]*outline{}}
}

// paint paints the paths over c at a point. ok is false when the point is too
// close to an edge to tell.
func (sm *sampler) paint(paths []svg.SvgPath, key string, c rgba, p pt, m mat, opacity float64, in []string) (rgba, bool) {
	for i := range paths {
		st := &paths[i].Style
		t := m.mul(matOf(st.Transform))
		key := fmt.Sprintf("%s/%d", key, i)
		o := sm.outline[key]
		if o == nil {
			o = flatten(paths[i].Path, t)
			sm.outline[key] = o
		}
		cover := 1.0
		if sm.masks {
			ok := true
		masks:
			for _, id := range st.Masks {
				k, found := sm.s.SvgMasks[id]
				if !found {
					continue
				}
				for _, x := range in {
					if x == k.ID {
						continue masks
					}
				}
				a, sure := sm.paint(k.SvgPaths, key+"/"+id, rgba{}, p, t, 1, append(append([]string{}, in...), k.ID))
				if !sure {
					ok = false
					continue
				}
				cover *= a.a
			}
			if !ok && cover > 0 {
				// not known how much is seen
				f, st1 := 0, 0
				if st.FillerColor != nil {
					f = o.fillAt(p, st.UseNonZeroWinding, 1)
				}
				if st.LinerColor != nil {
					st1 = o.strokeAt(p, st.LineWidth*t.lineScale(), true, sm.reach, 1)
				}
				if f != 0 || st1 != 0 {
					return c, false
				}
				continue
			}
		}
		if st.FillerColor != nil {
			col := solid(st.FillerColor)
			a := st.FillOpacity * opacity * cover
			if a > 0.002 {
				switch o.fillAt(p, st.UseNonZeroWinding, 1) {
				case -1:
					return c, false
				case 1:
					if _, plain := st.FillerColor.(svg.PlainColor); !plain {
						return c, false
					}
					c = c.over(col, a)
				}
			}
		}
		if st.LinerColor != nil {
			col := solid(st.LinerColor)
			a := st.LineOpacity * opacity * cover
			if a > 0.002 {
				switch o.strokeAt(p, st.LineWidth*t.lineScale(), len(st.Dash.Dash) > 0, sm.reach, 1) {
				case -1:
					return c, false
				case 1:
					if _, plain := st.LinerColor.(svg.PlainColor); !plain {
						return c, false
					}
					c = c.over(col, a)
				}
			}
		}
	}
	return c, true
}

func describe(p *svg.SvgPath) string {
	return clip(strings.TrimSpace(dump(p)), 1500)
}

func sameNRGBA(a, b color.NRGBA, tol int) bool {
	return closeByte(a.R, b.R, tol) && closeByte(a.G, b.G, tol) && closeByte(a.B, b.B, tol) && closeByte(a.A, b.A, tol)
}

// align pairs the elements of two lists, leaving out faint ones, which
// another rounding makes visible or not.
func align(n, m int, same func(i, k int) bool, faintA, faintB func(i int) bool) ([][2]int, bool) {
	bad := map[[2]int]bool{}
	var pairs [][2]int
	var from func(i, k int) bool
	from = func(i, k int) bool {
		if i == n && k == m {
			return true
		}
		if bad[[2]int{i, k}] {
			return false
		}
		if i < n && k < m && same(i, k) {
			pairs = append(pairs, [2]int{i, k})
			if from(i+1, k+1) {
				return true
			}
			pairs = pairs[:len(pairs)-1]
		}
		if i < n && faintA(i) && from(i+1, k) || k < m && faintB(k) && from(i, k+1) {
			return true
		}
		bad[[2]int{i, k}] = true
		return false
	}
	ok := from(0, 0)
	return pairs, ok
}
