package main

import (
	"fmt"
	"image"
	"math"
	"math/rand"

	"github.com/fogleman/gg"
	"github.com/llgcode/draw2d/draw2dbase"
	"github.com/llgcode/draw2d/draw2dimg"
	"github.com/srwiley/rasterx"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
	d2 "github.com/lafriks/go-svg/renderer/draw2d"
	ggr "github.com/lafriks/go-svg/renderer/gg"
	rx "github.com/lafriks/go-svg/renderer/rasterx"
)

// wideOptions are options of any size.
func wideOptions(r *rand.Rand) *drawOptions {
	o := &drawOptions{opacity: 1}
	val := func() float64 {
		switch r.Intn(5) {
		case 0:
			return 0
		case 1:
			return float64(r.Intn(2000) - 1000)
		case 2:
			return r.NormFloat64() * 1e4
		}
		return r.NormFloat64() * 100
	}
	size := func() float64 {
		switch r.Intn(8) {
		case 2:
			return 0
		case 3:
			return -1 - r.Float64()*300
		case 0:
			return float64(1 + r.Intn(4000))
		case 1:
			return math.Exp(r.NormFloat64() * 4)
		}
		return 1 + r.Float64()*300
	}
	for i := r.Intn(6); i > 0; i-- {
		if r.Intn(3) == 0 {
			o.addOpacity([]float64{0, 1, 0.5, r.Float64()}[r.Intn(4)])
		} else {
			o.addTarget(val(), val(), size(), size())
		}
	}
	return o
}

// optionsCheck looks at the options themselves.
func optionsCheck(t *T, s *svg.Svg, o *drawOptions) {
	before := dump(s)
	got := renderer.Options(s, o.list...)
	if got == nil {
		t.Failf("no options")
	}
	if dump(s) != before {
		t.Failf("options change the drawing: %s", firstDiff(before, dump(s)))
	}
	if math.Abs(got.Opacity-o.opacity) > 1e-12 {
		t.Failf("opacity %v, expected %v", got.Opacity, o.opacity)
	}
	m := matOf(got.Target)
	b := s.ViewBox
	if o.rect == nil {
		if m != ident {
			t.Failf("target %v without a target", m)
		}
		return
	}
	x, y, w, h := o.rect[0], o.rect[1], o.rect[2], o.rect[3]
	if b.W == 0 {
		w = b.W
	}
	if b.H == 0 {
		h = b.H
	}
	eps := 1e-9 * (1 + math.Abs(x) + math.Abs(y) + math.Abs(w) + math.Abs(h) + math.Abs(b.X*m[0]) + math.Abs(b.Y*m[3]))
	for _, c := range [][4]float64{{0, 0, 0, 0}, {1, 0, 1, 0}, {0, 1, 0, 1}, {1, 1, 1, 1}, {0.25, 0.75, 0.25, 0.75}} {
		gx, gy := m.apply(b.X+c[0]*b.W, b.Y+c[1]*b.H)
		ex, ey := x+c[2]*w, y+c[3]*h
		if !(math.Abs(gx-ex) <= eps && math.Abs(gy-ey) <= eps) {
			t.Failf("the point %v,%v of the view box %v goes to %v,%v, expected %v,%v", c[0], c[1], b, gx, gy, ex, ey)
		}
	}
	if b.W == 0 && math.Abs(m[0]-1) > 1e-9 || b.H == 0 && math.Abs(m[3]-1) > 1e-9 || m[1] != 0 || m[2] != 0 {
		t.Failf("view box %v is scaled by %v", b, m)
	}
	t.Count("corners mapped", 5)
}

// flatDoc is a drawing of solid shapes around a view box.
func flatDoc(r *rand.Rand) (*Node, [4]float64) {
	g := newGen(r)
	g.units, g.noDash, g.noEmpty = 0, true, true
	g.pStyle = 0
	scale := math.Exp(r.NormFloat64())
	w, h := (20+r.Float64()*200)*scale, (20+r.Float64()*200)*scale
	x, y := 0.0, 0.0
	if r.Intn(2) == 0 {
		x, y = r.NormFloat64()*100*scale, r.NormFloat64()*100*scale
	}
	root := el("svg", "viewBox", fmt.Sprintf("%.6f %.6f %.6f %.6f", x, y, w, h))
	switch r.Intn(6) {
	case 0:
		root.set("viewBox", fmt.Sprintf("%.6f %.6f 0 %.6f", x, y, h))
		w = 0
	case 1:
		root.set("viewBox", fmt.Sprintf("%.6f %.6f %.6f 0", x, y, w))
		h = 0
	case 2:
		root.Attrs = nil
		x, y, w, h = 0, 0, 0, 0
	case 3:
		root = el("svg", "width", fmt.Sprintf("%.6f", w), "height", fmt.Sprintf("%.6f", h))
		x, y = 0, 0
	}
	ww, hh := w, h
	if w == 0 {
		ww = 60
	}
	if h == 0 {
		hh = 60
	}
	at := func() (float64, float64) {
		return x + (r.Float64()*1.2-0.1)*ww, y + (r.Float64()*1.2-0.1)*hh
	}
	parent := root
	for i := 1 + r.Intn(4); i > 0; i-- {
		if r.Intn(3) == 0 {
			grp := el("g")
			if r.Intn(2) == 0 {
				grp.set("transform", []string{"rotate(30)", "scale(0.7 1.2)", fmt.Sprintf("translate(%.3f %.3f)", ww/5, -hh/7), "matrix(0.8 0.3 -0.2 0.9 5 3)", "skewX(15)"}[r.Intn(5)])
			}
			parent.add(grp)
			parent = grp
		}
		var e *Node
		x1, y1 := at()
		switch r.Intn(4) {
		case 0:
			e = el("rect", "x", fmt.Sprintf("%.4f", x1), "y", fmt.Sprintf("%.4f", y1), "width", fmt.Sprintf("%.4f", ww*r.Float64()), "height", fmt.Sprintf("%.4f", hh*r.Float64()))
		case 1:
			e = el("ellipse", "cx", fmt.Sprintf("%.4f", x1), "cy", fmt.Sprintf("%.4f", y1), "rx", fmt.Sprintf("%.4f", ww*r.Float64()/2), "ry", fmt.Sprintf("%.4f", hh*r.Float64()/2))
		case 2:
			p := ""
			for n := 3 + r.Intn(4); n > 0; n-- {
				a, b := at()
				p += fmt.Sprintf("%.4f,%.4f ", a, b)
			}
			e = el("polygon", "points", p)
		default:
			p := fmt.Sprintf("M%.4f %.4f", x1, y1)
			for n := 2 + r.Intn(4); n > 0; n-- {
				a, b := at()
				c, d := at()
				p += []string{fmt.Sprintf("L%.4f %.4f", a, b), fmt.Sprintf("Q%.4f %.4f %.4f %.4f", a, b, c, d)}[r.Intn(2)]
			}
			e = el("path", "d", p+"Z")
		}
		e.set("fill", fmt.Sprintf("#%02x%02x%02x", r.Intn(256), r.Intn(256), r.Intn(256)))
		if r.Intn(3) == 0 {
			e.set("opacity", fmt.Sprintf("%.2f", r.Float64()))
		}
		parent.add(e)
	}
	return root, [4]float64{x, y, w, h}
}

func targetCheck(t *T, r *rand.Rand) {
	root, vb := flatDoc(r)
	src := root.plain()
	s, err := parseString(src, svg.StrictErrorMode)
	o := randOptions(r, 80)
	t.Input(o.input(src))
	if err != nil {
		t.Failf("not parsed: %v", err)
	}
	for i, v := range []float64{s.ViewBox.X, s.ViewBox.Y, s.ViewBox.W, s.ViewBox.H} {
		if math.Abs(v-vb[i]) > 1e-5 {
			t.Count("left open", 1) // not what is decided here
			return
		}
	}
	if !ordinary(s, o.target(s.ViewBox), 20000) {
		t.Count("left open", 1)
		return
	}
	before := dump(s)
	optionsCheck(t, s, o)
	w, h := 70+r.Intn(40), 70+r.Intn(40)
	bg := background(r, w, h)
	pics := map[string]*image.RGBA{}
	{
		im := copyImage(bg)
		if err := ggr.Draw(gg.NewContextForRGBA(im), s, o.list...); err != nil {
			t.Failf("gg: %v", err)
		}
		pics["gg"] = im
	}
	{
		im := copyImage(bg)
		d2.Draw(draw2dimg.NewGraphicContext(im), s, o.list...)
		pics["draw2d"] = im
	}
	{
		im := copyImage(bg)
		rx.Draw(rasterx.NewDasher(w, h, rasterx.NewScannerGV(w, h, im, im.Bounds())), s, o.list...)
		pics["rasterx"] = im
	}
	if dump(s) != before {
		t.Failf("drawing changes the drawing: %s", firstDiff(before, dump(s)))
	}
	sm := newSampler(s, false)
	target := o.target(s.ViewBox)
	bad := map[string]int{}
	msg := map[string]string{}
	compared := 0
	// with very long curves and lines the rasterizers are not exact
	pixels := 60
	if !ordinary(s, target, 2500) {
		pixels = 0
	}
	for i := 0; i < pixels; i++ {
		x, y := 2+r.Intn(w-4), 2+r.Intn(h-4)
		j := bg.PixOffset(x, y)
		b := bg.Pix[j : j+4]
		c, ok := sm.paint(s.SvgPaths, "", rgba{float64(b[0]) / 255, float64(b[1]) / 255, float64(b[2]) / 255, float64(b[3]) / 255}, pt{float64(x) + 0.5, float64(y) + 0.5}, target, o.opacity, nil)
		if !ok {
			continue
		}
		compared++
		e := [4]float64{c.r, c.g, c.b, c.a}
		for name, im := range pics {
			for n := range e {
				if d := e[n]*255 - float64(im.Pix[j+n]); d > 9 || d < -9 {
					bad[name]++
					msg[name] = fmt.Sprintf("%s: pixel %d,%d is %v, expected %.0f %.0f %.0f %.0f", name, x, y, im.Pix[j:j+4], c.r*255, c.g*255, c.b*255, c.a*255)
					break
				}
			}
		}
	}
	t.Count("points compared", compared*3)
	for _, name := range []string{"gg", "draw2d", "rasterx"} {
		t.Count("points differing", bad[name])
		if bad[name] > 2 {
			t.Failf("%s (and %d other points of %d)", msg[name], bad[name]-1, compared)
		}
	}

	// the points the renderers get
	rec := &d2Recorder{StackGraphicContext: draw2dbase.NewStackGraphicContext()}
	d2.Draw(rec, s, o.list...)
	sc := newRxScanner()
	rx.Draw(rasterx.NewDasher(w, h, sc), s, o.list...)
	if len(rec.paints) == len(s.SvgPaths) && len(sc.paints) == len(s.SvgPaths) {
		for i := range s.SvgPaths {
			m := target.mul(matOf(s.SvgPaths[i].Style.Transform))
			k := 0
			for n, op := range s.SvgPaths[i].Path {
				kind, ps := opPoints(op)
				if kind == 'Z' || n >= len(rec.paints[i].ops) {
					continue
				}
				q := ps[len(ps)-1]
				ex, ey := m.apply(q.x, q.y)
				g := rec.paints[i].ops[n]
				if len(g.p) == 0 || !nearDev(g.p[len(g.p)-1].x, ex) || !nearDev(g.p[len(g.p)-1].y, ey) {
					t.Failf("draw2d: operation %d of path %d ends in %v, expected %v,%v", n, i, g.p, ex, ey)
				}
				found := false
				for ; len(sc.paints[i].subs) > 0 && k < len(sc.paints[i].subs[0]) && !found; k++ {
					p := fpt(sc.paints[i].subs[0][k])
					found = math.Abs(p.x-ex) < 0.1 && math.Abs(p.y-ey) < 0.1
				}
				if !found {
					t.Failf("rasterx: path %d does not reach %v,%v", i, ex, ey)
				}
				k--
				t.Count("points of paths compared", 2)
			}
		}
	}
	t.Eval(clip(o.input(src), 3000))
}

func init() {
	register(&Check{
		ID: "C18", Quick: 160000, Deep: 1200000,
		Rule: "options in random number and order over drawings with view boxes of all kinds (also without width or height), looked at directly, and drawings of solid shapes drawn with all three renderers, compared at random points with the colour calculated from the drawing and the target rectangle; nontrivial: distinct document and options",
		Run: func(t *T, k int, r *rand.Rand) {
			if k%3 == 0 {
				s := &svg.Svg{ViewBox: svg.Bounds{X: r.NormFloat64() * 100, Y: r.NormFloat64() * 100, W: r.Float64() * 300, H: r.Float64() * 300}}
				for _, f := range []*float64{&s.ViewBox.X, &s.ViewBox.Y, &s.ViewBox.W, &s.ViewBox.H} {
					if r.Intn(5) == 0 {
						*f = 0
					}
				}
				o := wideOptions(r)
				in := o.input(fmt.Sprint(s.ViewBox))
				t.Input(in)
				optionsCheck(t, s, o)
				t.Eval(in)
				return
			}
			targetCheck(t, r)
		},
	})
}
