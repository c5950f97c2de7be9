package main

import (
	"fmt"
	"image"
	"image/color"
	"math"
	"math/rand"

	"github.com/fogleman/gg"

	svg "github.com/lafriks/go-svg"
	ggr "github.com/lafriks/go-svg/renderer/gg"
)

// ggDraw draws the paths over an image, each with a context of its own.
func ggDraw(im *image.RGBA, s *svg.Svg, paths []svg.SvgPath, m mat, opacity float64, in []string, j jitter) {
	for i := range paths {
		st := &paths[i].Style
		if st.FillerColor == nil && st.LinerColor == nil {
			continue
		}
		t := m.mul(matOf(st.Transform))
		var mask *image.Alpha
	masks:
		for _, id := range st.Masks {
			k, ok := s.SvgMasks[id]
			if !ok {
				continue
			}
			for _, x := range in {
				if x == k.ID {
					continue masks
				}
			}
			layer := image.NewRGBA(image.Rect(0, 0, im.Rect.Dx(), im.Rect.Dy()))
			ggDraw(layer, s, k.SvgPaths, t, 1, append(append([]string{}, in...), k.ID), j)
			next := image.NewAlpha(layer.Rect)
			for n := range next.Pix {
				a := uint(layer.Pix[4*n+3])
				if mask != nil {
					a = a * uint(mask.Pix[n]) / 255
				}
				next.Pix[n] = uint8(a)
			}
			mask = next
		}
		gc := gg.NewContextForRGBA(im)
		if mask != nil {
			gc.SetMask(mask)
		}
		for _, op := range paths[i].Path {
			k, ps := rawPoints(op)
			var q []pt
			for _, p := range ps {
				q = append(q, fpt(j.pt(t, p)))
			}
			switch k {
			case 'M':
				gc.NewSubPath()
				gc.MoveTo(q[0].x, q[0].y)
			case 'L':
				gc.LineTo(q[0].x, q[0].y)
			case 'Q':
				gc.QuadraticTo(q[0].x, q[0].y, q[1].x, q[1].y)
			case 'C':
				gc.CubicTo(q[0].x, q[0].y, q[1].x, q[1].y, q[2].x, q[2].y)
			case 'Z':
				gc.ClosePath()
			}
		}
		if st.FillerColor != nil {
			if !st.UseNonZeroWinding {
				gc.SetFillRuleEvenOdd()
			}
			if g, ok := st.FillerColor.(svg.Gradient); ok {
				gc.SetFillStyle(ggGradient(g, st.FillOpacity*opacity))
			} else {
				c := solid(st.FillerColor)
				c.A = uint8(uint32(float64(c.A)*257*(st.FillOpacity*opacity)) >> 8)
				gc.SetFillStyle(gg.NewSolidPattern(c))
			}
			gc.FillPreserve()
		}
		if st.LinerColor != nil {
			c := solid(st.LinerColor)
			c.A = uint8(uint32(float64(c.A)*257*(st.LineOpacity*opacity)) >> 8)
			gc.SetStrokeStyle(gg.NewSolidPattern(c))
			gc.SetLineWidth(st.LineWidth * t.lineScale())
			dash, off := scaledDash(st.Dash, j.scale(t.lineScale()))
			gc.SetDash(dash...)
			gc.SetDashOffset(off)
			switch st.Join.TrailLineCap {
			case svg.RoundCap:
				gc.SetLineCapRound()
			case svg.SquareCap:
				gc.SetLineCapSquare()
			default:
				gc.SetLineCapButt()
			}
			if st.Join.LineJoin == svg.Round {
				gc.SetLineJoinRound()
			} else {
				gc.SetLineJoinBevel()
			}
			gc.StrokePreserve()
		}
	}
}

func background(r *rand.Rand, w, h int) *image.RGBA {
	im := image.NewRGBA(image.Rect(0, 0, w, h))
	var c color.RGBA
	switch r.Intn(4) {
	case 0: // transparent
		return im
	case 1:
		c = color.RGBA{255, 255, 255, 255}
	case 2:
		c = color.RGBA{uint8(r.Intn(256)), uint8(r.Intn(256)), uint8(r.Intn(256)), 255}
	case 3:
		a := r.Intn(256)
		c = color.RGBA{uint8(r.Intn(a + 1)), uint8(r.Intn(a + 1)), uint8(r.Intn(a + 1)), uint8(a)}
	}
	for i := 0; i < len(im.Pix); i += 4 {
		im.Pix[i], im.Pix[i+1], im.Pix[i+2], im.Pix[i+3] = c.R, c.G, c.B, c.A
	}
	return im
}

func copyImage(im *image.RGBA) *image.RGBA {
	c := *im
	c.Pix = append([]uint8{}, im.Pix...)
	return &c
}

// samePicture compares two pictures up to the colour of single pixels at
// edges.
func samePicture(e, g *image.RGBA, tol, many int) string {
	n, small := 0, 0
	var where string
	for i := range e.Pix {
		d := int(e.Pix[i]) - int(g.Pix[i])
		if d < 0 {
			d = -d
		}
		if d > 3 {
			small++
		}
		if d > tol {
			n++
			j := i / 4 * 4
			where = fmt.Sprintf("%v at %d,%d, expected %v", g.Pix[j:j+4], (i/4)%e.Rect.Dx(), i/4/e.Rect.Dx(), e.Pix[j:j+4])
		}
	}
	if n > many {
		return fmt.Sprintf("%d pixels differ, e.g. %s", n, where)
	}
	if small > len(e.Pix)/4 {
		return fmt.Sprintf("%d pixels differ", small)
	}
	return ""
}

// callerDraws is what the program draws afterwards.
func callerDraws(gc *gg.Context, w, h float64, fresh bool) {
	gc.SetColor(color.RGBA{10, 200, 30, 255})
	gc.SetFillRuleWinding()
	gc.DrawRectangle(w/4, h/4, w/2, h/3)
	gc.Fill()
	gc.SetLineWidth(3)
	gc.SetDash()
	gc.SetLineCapButt()
	gc.SetLineJoinBevel()
	gc.SetColor(color.NRGBA{200, 20, 130, 128})
	gc.LineTo(w/5, h/8)
	gc.LineTo(w*0.9, h*0.95)
	gc.Stroke()
}

func ggCheck(t *T, s *svg.Svg, o *drawOptions, r *rand.Rand) {
	w, h := 16+r.Intn(80), 16+r.Intn(80)
	bg := background(r, w, h)
	want, got := copyImage(bg), copyImage(bg)
	target := o.target(s.ViewBox)
	ggDraw(want, s, s.SvgPaths, target, o.opacity, nil, 0)

	gc := gg.NewContextForRGBA(got)
	if r.Intn(2) == 0 { // used before
		gc.SetFillStyle(gg.NewSolidPattern(color.NRGBA{9, 8, 7, 200}))
		gc.SetStrokeStyle(gg.NewSolidPattern(color.NRGBA{99, 8, 7, 200}))
		gc.SetLineWidth(13)
		gc.SetDash(3, 4, 5)
		gc.SetDashOffset(2)
		gc.SetFillRule(gg.FillRule(r.Intn(2)))
		gc.SetLineCapRound()
		gc.SetLineJoinRound()
		if len(s.SvgPaths) > 0 && r.Intn(2) == 0 {
			gc.MoveTo(0, 0)
			gc.LineTo(float64(w), 0)
			gc.LineTo(float64(w), float64(h))
		}
	}
	if err := ggr.Draw(gc, s, o.list...); err != nil {
		t.Failf("gg: %v", err)
	}
	exact := string(want.Pix) == string(got.Pix)
	if !exact {
		if d := samePicture(want, got, 40, 4+len(want.Pix)/2000); d != "" {
			for j := jitter(1); j <= 24; j++ {
				other := copyImage(bg)
				ggDraw(other, s, s.SvgPaths, target, o.opacity, nil, j)
				if samePicture(want, other, 30, 3+len(want.Pix)/3000) != "" {
					t.Count("pictures that depend on rounding, left open", 1)
					return
				}
			}
			t.Failf("gg: %s", d)
		}
		t.Count("pictures equal up to rounding", 1)
	}
	t.Count("pictures compared", 1)

	// what is seen at single points
	sm := newSampler(s, true)
	changed, bad, compared, msg := 0, 0, 0, ""
	for i := 0; i < 40; i++ {
		x, y := 2+r.Intn(w-4), 2+r.Intn(h-4)
		j := got.PixOffset(x, y)
		b := bg.Pix[j : j+4]
		c, ok := sm.paint(s.SvgPaths, "", rgba{float64(b[0]) / 255, float64(b[1]) / 255, float64(b[2]) / 255, float64(b[3]) / 255}, pt{float64(x) + 0.5, float64(y) + 0.5}, target, o.opacity, nil)
		if !ok {
			t.Count("points left open", 1)
			continue
		}
		e := [4]float64{c.r, c.g, c.b, c.a}
		tol := 3.0 + 2*float64(len(s.SvgPaths))
		if tol > 12 {
			tol = 12
		}
		for n := range e {
			if d := e[n]*255 - float64(got.Pix[j+n]); d > tol || d < -tol {
				// gg strokes sharp bends a little differently
				msg = fmt.Sprintf("gg: pixel %d,%d is %v, expected %.0f %.0f %.0f %.0f", x, y, got.Pix[j:j+4], c.r*255, c.g*255, c.b*255, c.a*255)
				bad++
				break
			}
		}
		compared++
		if string(b) != string(got.Pix[j:j+4]) {
			changed++
		}
	}
	if bad > 2 && bad > compared/20 {
		t.Failf("%s (and %d other points of %d)", msg, bad-1, compared)
	}
	t.Count("points compared", compared)
	t.Count("points differing", bad)
	t.Count("painted points compared", changed)

	// nothing is left in the context
	after := copyImage(got)
	callerDraws(gc, float64(w), float64(h), false)
	callerDraws(gg.NewContextForRGBA(after), float64(w), float64(h), true)
	if string(after.Pix) != string(got.Pix) {
		t.Failf("gg: what the caller draws afterwards is affected: %s", samePicture(after, got, 0, 0))
	}
}

func init() {
	register(&Check{
		ID: "C21", Quick: 72000, Deep: 800000,
		Rule: "generated documents with all shapes, styles, groups, definitions and masks, and the repository's test images, drawn with random options into gg contexts, compared with pictures drawn with a separate context for every path and mask, at random points with the colour calculated from the drawing, and with what the caller draws afterwards; nontrivial: at least one path",
		Run: func(t *T, k int, r *rand.Rand) {
			var s *svg.Svg
			var src string
			if k < len(seedFiles)*4 {
				src = string(seedFiles[k%len(seedFiles)].data)
				s, _ = parseString(src, svg.IgnoreErrorMode)
			} else {
				s, src = drawing(t, r, false, r.Intn(2) == 0)
			}
			o := randOptions(r, 70)
			if k%8 == 7 {
				var root *Node
				root, o = gradientDoc(r)
				src = root.plain()
				s, _ = parseString(src, svg.IgnoreErrorMode)
			}
			if k%8 == 3 {
				src = maskDoc(r).plain()
				s, _ = parseString(src, svg.IgnoreErrorMode)
				if r.Intn(2) == 0 {
					o = &drawOptions{opacity: 1}
				}
			}
			in := o.input(src)
			t.Input(in)
			if s == nil || !ordinary(s, o.target(s.ViewBox), 20000) || openGradient(s, o.target(s.ViewBox)) || maskWork(s) > 300 {
				t.Count("left open", 1)
				return
			}
			t.Count("masked paths", maskWork(s)-len(s.SvgPaths))
			ggCheck(t, s, o, r)
			if len(s.SvgPaths) > 0 {
				t.Eval(clip(in, 3000))
			} else {
				t.Eval("")
			}
		},
	})
}

// openGradient tells whether a fill is a gradient for which it is left open
// how gg paints it: only those that need no transformation are decided.
func openGradient(s *svg.Svg, m mat) bool {
	has := func(ps []svg.SvgPath, mask bool) bool {
		for _, p := range ps {
			g, ok := p.Style.FillerColor.(svg.Gradient)
			if !ok {
				continue
			}
			if mask || g.Units != svg.UserSpaceOnUse || g.Spread != svg.PadSpread || matOf(g.Matrix) != ident || m.mul(matOf(p.Style.Transform)) != ident || len(g.Stops) < 2 {
				return true
			}
			last := 0.0
			for _, st := range g.Stops {
				if st.Offset < last || st.Offset > 1 || st.StopColor == nil {
					return true
				}
				last = st.Offset
			}
			if d, ok := g.Direction.(svg.Radial); ok && math.Hypot(d[0]-d[2], d[1]-d[3])+d[5] > d[4]*0.95 {
				return true
			}
		}
		return false
	}
	for _, k := range s.SvgMasks {
		if has(k.SvgPaths, true) {
			return true
		}
	}
	return has(s.SvgPaths, false)
}

// ggGradient runs from the first point or circle to the second.
func ggGradient(g svg.Gradient, opacity float64) gg.Gradient {
	var out gg.Gradient
	switch d := g.Direction.(type) {
	case svg.Linear:
		out = gg.NewLinearGradient(d[0], d[1], d[2], d[3])
	case svg.Radial: // from the focus to the circle
		out = gg.NewRadialGradient(d[2], d[3], d[5], d[0], d[1], d[4])
	}
	for _, st := range g.Stops {
		c := toNRGBA(st.StopColor)
		c.A = uint8(math.Floor(float64(c.A)*st.Opacity*opacity + 1e-9))
		out.AddColorStop(st.Offset, c)
	}
	return out
}

// gradientDoc has shapes filled with gradients in the space of the picture,
// and stroked with any.
func gradientDoc(r *rand.Rand) (*Node, *drawOptions) {
	g := newGen(r)
	g.units, g.pTrans, g.pStyle, g.span = 0, 0, 0.2, 60
	f := func(a, b float64) string { return fmt.Sprintf("%.2f", a+r.Float64()*(b-a)) }
	root := doc()
	if r.Intn(2) == 0 {
		root.set("opacity", f(0.3, 1))
	}
	for i := 0; i < 3; i++ {
		n := el("linearGradient", "x1", f(0, 60), "y1", f(0, 60), "x2", f(0, 60), "y2", f(0, 60))
		if r.Intn(2) == 0 {
			n = el("radialGradient", "cx", f(20, 40), "cy", f(20, 40), "r", f(15, 40))
			if r.Intn(2) == 0 {
				n.set("fx", f(25, 35)).set("fy", f(25, 35))
			}
			if r.Intn(3) == 0 {
				n.set("fr", f(0, 5))
			}
		}
		n.set("id", fmt.Sprint("g", i)).set("gradientUnits", "userSpaceOnUse")
		o := 0.0
		for k := 2 + r.Intn(4); k > 0; k-- {
			s := el("stop", "offset", fmt.Sprintf("%.3f", o), "stop-color", g.colour())
			if r.Intn(3) == 0 {
				s.set("stop-opacity", f(0, 1))
			}
			n.add(s)
			o += r.Float64() * (1 - o)
		}
		root.add(n)
	}
	for i := 1 + r.Intn(5); i > 0; i-- {
		s := g.style(g.shape())
		if r.Intn(3) > 0 {
			s.set("fill", fmt.Sprintf("url(#g%d)", r.Intn(3)))
		}
		if r.Intn(3) == 0 {
			s.set("stroke", fmt.Sprintf("url(#g%d)", r.Intn(3))).set("stroke-width", f(0.5, 6))
		}
		root.add(s)
	}
	o := &drawOptions{opacity: 1}
	if r.Intn(2) == 0 {
		o.addOpacity(r.Float64())
	}
	return root, o
}

// maskDoc makes a document whose shapes are limited by several masks.
func maskDoc(r *rand.Rand) *Node {
	g := newGen(r)
	g.units, g.pTrans, g.pStyle, g.span = 0, 0.1, 0.4, 60
	root := doc()
	ids := []string{"m0", "m1", "m2", "m3", "unknown"}[r.Intn(3):]
	some := func(e *Node, p float64) *Node {
		if r.Float64() < p {
			e.set("mask", "url(#"+ids[r.Intn(len(ids))]+")")
		}
		return e
	}
	f := func(a, b float64) string { return fmt.Sprintf("%.2f", a+r.Float64()*(b-a)) }
	n := 4
	chain := r.Intn(3) == 0 // every mask is masked by the one before it
	if chain {
		n += r.Intn(5)
		ids = append(ids, fmt.Sprint("m", n-1), fmt.Sprint("m", n-1), fmt.Sprint("m", n-1))
	}
	for i := 0; i < n; i++ {
		m := el("mask", "id", fmt.Sprint("m", i))
		if chain {
			s := el("rect", "x", f(0, 15), "y", f(0, 15), "width", f(30, 60), "height", f(30, 60), "fill-opacity", f(0.6, 1))
			if i > 0 {
				s.set("mask", fmt.Sprint("url(#m", i-1, ")"))
			}
			root.add(m.add(s))
			continue
		}
		if r.Intn(3) > 0 {
			m.add(some(el("rect", "x", f(0, 25), "y", f(0, 25), "width", f(20, 60), "height", f(20, 60), "fill-opacity", f(0.2, 1)), 0.2))
		}
		for k := r.Intn(3); k > 0; k-- {
			m.add(some(g.style(g.shape()), 0.2))
		}
		root.add(m)
	}
	for i := 1 + r.Intn(4); i > 0; i-- {
		e := g.style(g.shape())
		if r.Intn(2) == 0 {
			e = el("rect", "x", f(0, 20), "y", f(0, 20), "width", f(20, 60), "height", f(20, 60), "fill", g.colour())
		}
		e = some(e, 0.7)
		for k := r.Intn(4); k > 0; k-- {
			e = some(el("g").add(e), 0.8)
		}
		root.add(e)
	}
	return root
}

// maskWork counts the paths that are drawn with all masks, up to a limit.
func maskWork(s *svg.Svg) int {
	n := 0
	var count func(ps []svg.SvgPath, in []string)
	count = func(ps []svg.SvgPath, in []string) {
		for _, p := range ps {
			n++
			if n > 10000 {
				return
			}
		masks:
			for _, id := range p.Style.Masks {
				if k, ok := s.SvgMasks[id]; ok {
					for _, x := range in {
						if x == k.ID {
							continue masks
						}
					}
					n++
					count(k.SvgPaths, append(append([]string{}, in...), k.ID))
				}
			}
		}
	}
	count(s.SvgPaths, nil)
	return n
}
