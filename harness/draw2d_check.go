package main

import (
	"fmt"
	"image"
	"image/color"
	"math"
	"math/rand"

	"github.com/llgcode/draw2d"
	"github.com/llgcode/draw2d/draw2dbase"

	svg "github.com/lafriks/go-svg"
	d2 "github.com/lafriks/go-svg/renderer/draw2d"
)

// d2Paint is one paint of a draw2d context.
type d2Paint struct {
	kind  byte // F fill, S stroke, ! anything else
	ops   []d2Op
	col   color.NRGBA
	rule  draw2d.FillRule
	width float64
	cap   draw2d.LineCap
	join  draw2d.LineJoin
	dash  []float64
	off   float64
	what  string
}

type d2Op struct {
	k byte
	p []pt
}

// d2Recorder is a draw2d context that records what is painted.
type d2Recorder struct {
	*draw2dbase.StackGraphicContext
	paints []d2Paint
}

func (c *d2Recorder) other(what string)            { c.paints = append(c.paints, d2Paint{kind: '!', what: what}) }
func (c *d2Recorder) DrawImage(image.Image)        { c.other("DrawImage") }
func (c *d2Recorder) Clear()                       { c.other("Clear") }
func (c *d2Recorder) ClearRect(x1, y1, x2, y2 int) { c.other("ClearRect") }
func (c *d2Recorder) SetDPI(dpi int)               {}
func (c *d2Recorder) GetDPI() int                  { return 72 }
func (c *d2Recorder) GetStringBounds(s string) (left, top, right, bottom float64) {
	return
}
func (c *d2Recorder) CreateStringPath(text string, x, y float64) float64 {
	c.other("string")
	return 0
}
func (c *d2Recorder) FillString(text string) float64                   { c.other("string"); return 0 }
func (c *d2Recorder) FillStringAt(text string, x, y float64) float64   { c.other("string"); return 0 }
func (c *d2Recorder) StrokeString(text string) float64                 { c.other("string"); return 0 }
func (c *d2Recorder) StrokeStringAt(text string, x, y float64) float64 { c.other("string"); return 0 }

func (c *d2Recorder) ops(paths []*draw2d.Path) []d2Op {
	var out []d2Op
	for _, p := range append(paths, c.Current.Path) {
		j := 0
		for _, cmp := range p.Components {
			k, n := byte('?'), 0
			switch cmp {
			case draw2d.MoveToCmp:
				k, n = 'M', 1
			case draw2d.LineToCmp:
				k, n = 'L', 1
			case draw2d.QuadCurveToCmp:
				k, n = 'Q', 2
			case draw2d.CubicCurveToCmp:
				k, n = 'C', 3
			case draw2d.ArcToCmp:
				k, n = 'A', 3
			case draw2d.CloseCmp:
				k = 'Z'
			}
			op := d2Op{k: k}
			for i := 0; i < n; i++ {
				x, y := c.Current.Tr.TransformPoint(p.Points[j], p.Points[j+1])
				op.p = append(op.p, pt{x, y})
				j += 2
			}
			out = append(out, op)
		}
	}
	return out
}

func (c *d2Recorder) record(kind byte, ops []d2Op) {
	cur := c.Current
	p := d2Paint{kind: kind, ops: ops}
	if kind == 'F' {
		p.col, p.rule = toNRGBA(cur.FillColor), cur.FillRule
	} else {
		p.col, p.width, p.cap, p.join, p.off = toNRGBA(cur.StrokeColor), cur.LineWidth, cur.Cap, cur.Join, cur.DashOffset
		p.dash = append([]float64{}, cur.Dash...)
	}
	c.paints = append(c.paints, p)
}

// numbers watches the points draw2d's dasher computes.
type numbers struct{ bad bool }

func (n *numbers) MoveTo(x, y float64) { n.bad = n.bad || math.IsNaN(x+y) }
func (n *numbers) LineTo(x, y float64) { n.bad = n.bad || math.IsNaN(x+y) }
func (n *numbers) LineJoin()           {}
func (n *numbers) Close()              {}
func (n *numbers) End()                {}

// dashes lets draw2d compute the dashes of the stroke, without painting.
func (c *d2Recorder) dashes(paths []*draw2d.Path) {
	cur := c.Current
	if len(cur.Dash) == 0 {
		return
	}
	n := &numbers{}
	for _, p := range append(paths, cur.Path) {
		draw2dbase.Flatten(p, draw2dbase.NewDashConverter(cur.Dash, cur.DashOffset, n), cur.Tr.GetScale())
	}
	if n.bad {
		panic("draw2d divides zero by zero to draw dashes, with the given dashes and path")
	}
}

func (c *d2Recorder) Fill(paths ...*draw2d.Path) {
	c.record('F', c.ops(paths))
	c.Current.Path.Clear()
}

func (c *d2Recorder) Stroke(paths ...*draw2d.Path) {
	c.dashes(paths)
	c.record('S', c.ops(paths))
	c.Current.Path.Clear()
}

func (c *d2Recorder) FillStroke(paths ...*draw2d.Path) {
	c.dashes(paths)
	ops := c.ops(paths)
	c.record('F', ops)
	c.record('S', ops)
	c.Current.Path.Clear()
}

func d2Expected(s *svg.Svg, o *drawOptions) []d2Paint {
	var out []d2Paint
	target := o.target(s.ViewBox)
	for i := range s.SvgPaths {
		st := &s.SvgPaths[i].Style
		m := target.mul(matOf(st.Transform))
		var ops []d2Op
		for _, op := range s.SvgPaths[i].Path {
			k, ps := opPoints(op)
			for i := range ps {
				ps[i].x, ps[i].y = m.apply(ps[i].x, ps[i].y)
			}
			ops = append(ops, d2Op{k, ps})
		}
		what := fmt.Sprintf("path %d", i)
		if st.FillerColor != nil {
			p := d2Paint{kind: 'F', ops: ops, what: what}
			p.col = solid(st.FillerColor)
			p.col.A = uint8(float64(p.col.A) * st.FillOpacity * o.opacity)
			p.rule = draw2d.FillRuleEvenOdd
			if st.UseNonZeroWinding {
				p.rule = draw2d.FillRuleWinding
			}
			out = append(out, p)
		}
		if st.LinerColor != nil {
			p := d2Paint{kind: 'S', ops: ops, what: what}
			p.col = solid(st.LinerColor)
			p.col.A = uint8(float64(p.col.A) * st.LineOpacity * o.opacity)
			p.width = st.LineWidth * m.lineScale()
			p.dash, p.off = scaledDash(st.Dash, m.lineScale())
			switch st.Join.TrailLineCap {
			case svg.RoundCap:
				p.cap = draw2d.RoundCap
			case svg.SquareCap:
				p.cap = draw2d.SquareCap
			default:
				p.cap = draw2d.ButtCap
			}
			switch st.Join.LineJoin {
			case svg.Round:
				p.join = draw2d.RoundJoin
			case svg.Bevel:
				p.join = draw2d.BevelJoin
			default:
				p.join = draw2d.MiterJoin
			}
			out = append(out, p)
		}
	}
	return out
}

// visible leaves out paints that nobody can see.
func visible(ps []d2Paint, alpha uint8) []d2Paint {
	var out []d2Paint
	for _, p := range ps {
		if p.kind != '!' && (len(p.ops) == 0 || p.col.A < alpha) {
			continue
		}
		var ops []d2Op
		for i, op := range p.ops {
			if op.k == 'M' && i+1 < len(p.ops) && p.ops[i+1].k == 'M' {
				continue
			}
			ops = append(ops, op)
		}
		p.ops = ops
		out = append(out, p)
	}
	return out
}

func nearDev(a, b float64) bool { return math.Abs(a-b) <= 1.0/48+1e-9*math.Abs(b) }
func nearRel(a, b float64) bool { return math.Abs(a-b) <= 1e-6+1e-6*math.Abs(b) }

// samePhase compares offsets into a dash pattern of the given length.
func samePhase(a, b, sum float64) bool {
	if nearRel(a, b) {
		return true
	}
	d := math.Remainder(a-b, sum)
	return math.Abs(d) <= 1e-6+1e-6*(math.Abs(a)+math.Abs(b)+sum)
}

func d2Compare(e, g d2Paint) string {
	if e.kind != g.kind {
		return fmt.Sprintf("%c %s instead of %c", g.kind, g.what, e.kind)
	}
	if len(e.ops) != len(g.ops) {
		return fmt.Sprintf("%d operations, expected %d", len(g.ops), len(e.ops))
	}
	for i, x := range e.ops {
		y := g.ops[i]
		if x.k != y.k {
			return fmt.Sprintf("operation %d is %c, expected %c", i, y.k, x.k)
		}
		for n := range x.p {
			if !nearDev(y.p[n].x, x.p[n].x) || !nearDev(y.p[n].y, x.p[n].y) {
				return fmt.Sprintf("operation %d is %c%v, expected %v", i, y.k, y.p, x.p)
			}
		}
	}
	if !sameNRGBA(e.col, g.col, 1) {
		return fmt.Sprintf("colour %v, expected %v", g.col, e.col)
	}
	if e.kind == 'F' {
		if e.rule != g.rule {
			return fmt.Sprintf("fill rule %v, expected %v", g.rule, e.rule)
		}
		return ""
	}
	if !nearRel(g.width, e.width) || g.cap != e.cap || g.join != e.join {
		return fmt.Sprintf("stroke %v %v %v, expected %v %v %v", g.width, g.cap, g.join, e.width, e.cap, e.join)
	}
	if len(e.dash) != len(g.dash) {
		return fmt.Sprintf("dashes %v, expected %v", g.dash, e.dash)
	}
	sum := 0.0
	for _, v := range e.dash {
		sum += v
	}
	for i := range e.dash {
		if !nearRel(g.dash[i], e.dash[i]) && math.Abs(g.dash[i]-e.dash[i]) > 1e-7*sum {
			return fmt.Sprintf("dashes %v, expected %v", g.dash, e.dash)
		}
	}
	if len(e.dash) > 0 && !samePhase(g.off, e.off, sum) {
		return fmt.Sprintf("dash offset %v, expected %v", g.off, e.off)
	}
	return ""
}

func d2Check(t *T, s *svg.Svg, o *drawOptions, r *rand.Rand) {
	rec := &d2Recorder{StackGraphicContext: draw2dbase.NewStackGraphicContext()}
	dirty := r.Intn(3) == 0
	if dirty { // the context was used before
		rec.SetFillColor(color.NRGBA{1, 2, 3, 4})
		rec.SetStrokeColor(color.NRGBA{5, 6, 7, 8})
		rec.SetLineWidth(77)
		rec.SetLineDash([]float64{9, 9}, 3)
		rec.SetFillRule(draw2d.FillRule(r.Intn(2)))
		if len(s.SvgPaths) > 0 && r.Intn(2) == 0 {
			rec.MoveTo(1000, 1000)
			rec.LineTo(1001, 1001)
		} else {
			dirty = false
		}
	}
	tr := rec.GetMatrixTransform()
	e := d2Expected(s, o)
	d2.Draw(rec, s, o.list...)
	if rec.Current.Previous != nil || rec.GetMatrixTransform() != tr {
		t.Failf("draw2d: the context is left with another matrix or saved states")
	}
	if !dirty && !rec.IsEmpty() {
		t.Failf("draw2d: a path is left behind in the context: %v", rec.GetPath())
	}
	a, b := visible(e, 1), visible(rec.paints, 1)
	faint := func(ps []d2Paint) func(int) bool {
		return func(i int) bool { return ps[i].kind != '!' && ps[i].col.A <= 4 }
	}
	if pairs, ok := align(len(a), len(b), func(i, k int) bool { return d2Compare(a[i], b[k]) == "" }, faint(a), faint(b)); ok {
		var x, y []d2Paint
		for _, p := range pairs {
			x, y = append(x, a[p[0]]), append(y, b[p[1]])
		}
		a, b = x, y
	}
	for i := range a {
		if i >= len(b) {
			t.Failf("draw2d: %d paints, expected %d; missing %s %c", len(b), len(a), a[i].what, a[i].kind)
		}
		if d := d2Compare(a[i], b[i]); d != "" {
			t.Failf("draw2d: paint %d (%s, %c): %s", i, a[i].what, a[i].kind, d)
		}
		t.Count("paints compared", 1)
		if len(a[i].dash) > 0 {
			t.Count("dashed strokes", 1)
		}
	}
	if len(b) != len(a) {
		t.Failf("draw2d: %d paints, expected %d: %+v", len(b), len(a), b[len(a)])
	}
}

func init() {
	register(&Check{
		ID: "C19", Quick: 300000, Deep: 2000000,
		Rule: "generated documents with all shapes, styles, gradients, groups, definitions and masks, and the repository's test images, drawn with random options into a draw2d context that records every paint with its path and settings, compared with what the drawing says; nontrivial: at least one paint",
		Run: func(t *T, k int, r *rand.Rand) {
			var s *svg.Svg
			var src string
			if k < len(seedFiles)*4 {
				src = string(seedFiles[k%len(seedFiles)].data)
				s, _ = parseString(src, svg.IgnoreErrorMode)
			} else {
				s, src = drawing(t, r, true, r.Intn(4) == 0)
				if r.Intn(25) == 0 {
					src = dashDoc(r)
					s, _ = parseString(src, svg.IgnoreErrorMode)
				}
			}
			o := randOptions(r, 100)
			in := o.input(src)
			t.Input(in)
			if s == nil || !ordinary(s, o.target(s.ViewBox), 1e6) {
				t.Count("left open", 1)
				return
			}
			if r.Intn(6) == 0 {
				dropColours(s, r)
			}
			d2Check(t, s, o, r)
			if len(s.SvgPaths) > 0 {
				t.Eval(clip(in, 3000))
			} else {
				t.Eval("")
			}
		},
	})
}

// dropColours takes the colour of some stops, which programs may do.
func dropColours(s *svg.Svg, r *rand.Rand) {
	for i := range s.SvgPaths {
		st := &s.SvgPaths[i].Style
		for _, p := range []*svg.Pattern{&st.FillerColor, &st.LinerColor} {
			if g, ok := (*p).(svg.Gradient); ok {
				g.Stops = append([]svg.GradStop{}, g.Stops...)
				for n := 0; n < len(g.Stops) && r.Intn(3) > 0; n++ {
					g.Stops[n].StopColor = nil
				}
				*p = g
			}
		}
	}
}
