package main

import (
	"fmt"
	"image/color"
	"math"
	"strings"

	"golang.org/x/image/math/fixed"

	svg "github.com/lafriks/go-svg"
)

// facet selects what of a drawing a property is about.
type facet int

const (
	fGeom facet = 1 << iota
	fTransform
	fFill
	fStroke
	fOpacity
	fLine // width, caps, join, miter limit, gap, fill rule
	fDash
	fMaskList
	fMasks
	fMeta
	fTitles

	fStyle = fFill | fStroke | fOpacity | fLine | fDash
	fAll   = fGeom | fTransform | fStyle | fMaskList | fMasks | fMeta | fTitles
)

// compareDoc tells how got differs from what is expected; "" if it does not.
func compareDoc(e *mDoc, got *svg.Svg, f facet) string {
	if got == nil {
		return "no drawing"
	}
	if f&fMeta != 0 {
		b := e.viewBox
		if g := got.ViewBox; !near(g.X, b.X) || !near(g.Y, b.Y) || !near(g.W, b.W) || !near(g.H, b.H) {
			return fmt.Sprintf("view box %v, expected %v", g, b)
		}
		if got.Width != e.width || got.Height != e.height {
			return fmt.Sprintf("size %q %q, expected %q %q", got.Width, got.Height, e.width, e.height)
		}
	}
	if f&fTitles != 0 {
		if !sameStrings(got.Titles, e.titles) {
			return fmt.Sprintf("titles %q, expected %q", got.Titles, e.titles)
		}
		if !sameStrings(got.Descriptions, e.descs) {
			return fmt.Sprintf("descriptions %q, expected %q", got.Descriptions, e.descs)
		}
	}
	if s := comparePaths(e.paths, got.SvgPaths, f); s != "" {
		return s
	}
	if f&fMasks != 0 {
		for id, k := range e.masks {
			g := got.SvgMasks[id]
			if g == nil {
				return fmt.Sprintf("mask %q is missing", id)
			}
			if g.ID != id {
				return fmt.Sprintf("mask %q has the id %q", id, g.ID)
			}
			if !near(g.X, k.x) || !near(g.Y, k.y) || !near(g.W, k.w) || !near(g.H, k.h) {
				return fmt.Sprintf("mask %q is at %g %g %g %g, expected %g %g %g %g", id, g.X, g.Y, g.W, g.H, k.x, k.y, k.w, k.h)
			}
			if s := comparePaths(k.paths, g.SvgPaths, f|fGeom); s != "" {
				return fmt.Sprintf("mask %q: %s", id, s)
			}
		}
		for id := range got.SvgMasks {
			if e.masks[id] == nil && id != "" {
				return fmt.Sprintf("unexpected mask %q", id)
			}
		}
	}
	return ""
}

func comparePaths(e []mPath, got []svg.SvgPath, f facet) string {
	if len(e) != len(got) {
		return fmt.Sprintf("%d paths, expected %d", len(got), len(e))
	}
	for i := range e {
		if f&fGeom != 0 {
			if s := compareOps(e[i].ops, got[i].Path); s != "" {
				return fmt.Sprintf("path %d (%s): %s", i, clip(got[i].Path.ToSVGPath(), 600), s)
			}
		}
		if s := compareStyle(&e[i].style, &got[i].Style, f); s != "" {
			return fmt.Sprintf("path %d (%s): %s", i, clip(got[i].Path.ToSVGPath(), 300), s)
		}
	}
	return ""
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func near(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*(1+math.Abs(a)+math.Abs(b)) || math.IsNaN(a) && math.IsNaN(b)
}

func nearMat(got svg.Matrix2D, e, ea mat) bool {
	g := matOf(got)
	lin := 1e-9 * (1e-6 + math.Max(math.Max(ea[0], ea[1]), math.Max(ea[2], ea[3])))
	tr := 1e-9 * (1 + math.Max(ea[4], ea[5]))
	for i := range g {
		tol := lin
		if i >= 4 {
			tol = tr
		}
		if !(math.Abs(g[i]-e[i]) <= tol) {
			return false
		}
	}
	return true
}

func compareStyle(e *mStyle, g *svg.PathStyle, f facet) string {
	if f&fTransform != 0 && !nearMat(g.Transform, e.t, e.ta) {
		return fmt.Sprintf("transform %v, expected %v", g.Transform, e.t)
	}
	if f&fFill != 0 {
		if s := comparePaint(e.fill, g.FillerColor); s != "" {
			return "fill: " + s
		}
	}
	if f&fStroke != 0 {
		if s := comparePaint(e.line, g.LinerColor); s != "" {
			return "stroke: " + s
		}
	}
	if f&fOpacity != 0 {
		if !e.fillOpAny && !near(g.FillOpacity, e.fillOp) {
			return fmt.Sprintf("fill opacity %g, expected %g", g.FillOpacity, e.fillOp)
		}
		if !e.lineOpAny && !near(g.LineOpacity, e.lineOp) {
			return fmt.Sprintf("stroke opacity %g, expected %g", g.LineOpacity, e.lineOp)
		}
	}
	if f&fLine != 0 {
		switch {
		case !near(g.LineWidth, e.width):
			return fmt.Sprintf("line width %g, expected %g", g.LineWidth, e.width)
		case g.UseNonZeroWinding != e.nonZero:
			return fmt.Sprintf("nonzero winding %v, expected %v", g.UseNonZeroWinding, e.nonZero)
		case math.Abs(float64(g.Join.MiterLimit)/64-e.miter) > 1.0/64+1e-9:
			return fmt.Sprintf("miter limit %g, expected %g", float64(g.Join.MiterLimit)/64, e.miter)
		case g.Join.LineJoin != e.join:
			return fmt.Sprintf("join %v, expected %v", g.Join.LineJoin, e.join)
		case g.Join.TrailLineCap != e.cap:
			return fmt.Sprintf("cap %v, expected %v", g.Join.TrailLineCap, e.cap)
		case g.Join.LeadLineCap != e.lead:
			return fmt.Sprintf("lead cap %v, expected %v", g.Join.LeadLineCap, e.lead)
		case g.Join.LineGap != e.gap:
			return fmt.Sprintf("gap %v, expected %v", g.Join.LineGap, e.gap)
		}
	}
	if f&fDash != 0 {
		ok := len(g.Dash.Dash) == len(e.dash)
		for i := 0; ok && i < len(e.dash); i++ {
			ok = near(g.Dash.Dash[i], e.dash[i])
		}
		if !ok {
			return fmt.Sprintf("dashes %v, expected %v", g.Dash.Dash, e.dash)
		}
		if !near(g.Dash.DashOffset, e.dashOff) {
			return fmt.Sprintf("dash offset %g, expected %g", g.Dash.DashOffset, e.dashOff)
		}
	}
	if f&fMaskList != 0 && !sameStrings(g.Masks, e.masks) {
		return fmt.Sprintf("masks %q, expected %q", g.Masks, e.masks)
	}
	return ""
}

func sameColor(a color.Color, b color.NRGBA) bool {
	if a == nil {
		return false
	}
	r, g, bl, al := a.RGBA()
	r2, g2, b2, a2 := b.RGBA()
	return r == r2 && g == g2 && bl == b2 && al == a2
}

func comparePaint(e mPaint, g svg.Pattern) string {
	switch e.kind {
	case pAny:
	case pNone:
		if g != nil {
			return fmt.Sprintf("%v, expected none", g)
		}
	case pColor:
		c, ok := g.(svg.PlainColor)
		if !ok || c.NRGBA != e.c {
			return fmt.Sprintf("%v, expected %v", g, e.c)
		}
	case pGrad:
		c, ok := g.(svg.Gradient)
		if !ok {
			return fmt.Sprintf("%v, expected a gradient", g)
		}
		return compareGrad(e.g, &c)
	}
	return ""
}

func compareGrad(e *mGrad, g *svg.Gradient) string {
	var dir []float64
	want := e.dir[:4]
	switch d := g.Direction.(type) {
	case svg.Linear:
		if e.radial {
			return "linear gradient, expected radial"
		}
		dir = d[:]
	case svg.Radial:
		if !e.radial {
			return "radial gradient, expected linear"
		}
		dir = d[:]
		want = e.dir[:6]
	default:
		return fmt.Sprintf("gradient of type %T", g.Direction)
	}
	for i := range dir {
		if !near(dir[i], want[i]) {
			return fmt.Sprintf("gradient along %v, expected %v", dir, want)
		}
	}
	units := svg.ObjectBoundingBox
	if e.user {
		units = svg.UserSpaceOnUse
	}
	if g.Units != units {
		return fmt.Sprintf("gradient units %v, expected %v", g.Units, units)
	}
	for i, v := range [4]float64{e.box.X, e.box.Y, e.box.W, e.box.H} {
		if b := [4]float64{g.Bounds.X, g.Bounds.Y, g.Bounds.W, g.Bounds.H}; !near(b[i], v) {
			return fmt.Sprintf("gradient bounds %v, expected %v", b, e.box)
		}
	}
	if g.Spread != e.spread {
		return fmt.Sprintf("gradient spread %v, expected %v", g.Spread, e.spread)
	}
	if !nearMat(g.Matrix, e.m, e.ma) {
		return fmt.Sprintf("gradient transform %v, expected %v", g.Matrix, e.m)
	}
	if len(g.Stops) != len(e.stops) {
		return fmt.Sprintf("%d stops, expected %d", len(g.Stops), len(e.stops))
	}
	for i, s := range e.stops {
		h := g.Stops[i]
		if s.c == nil {
			if h.StopColor != nil {
				return fmt.Sprintf("colour %v of stop %d, expected none", h.StopColor, i)
			}
		} else if !sameColor(h.StopColor, *s.c) {
			return fmt.Sprintf("colour %v of stop %d, expected %v", h.StopColor, i, *s.c)
		}
		if !near(h.Offset, s.offset) {
			return fmt.Sprintf("offset %g of stop %d, expected %g", h.Offset, i, s.offset)
		}
		if !near(h.Opacity, s.opacity) {
			return fmt.Sprintf("opacity %g of stop %d, expected %g", h.Opacity, i, s.opacity)
		}
	}
	return ""
}

type pt struct{ x, y float64 }

func fpt(p fixed.Point26_6) pt { return pt{float64(p.X) / 64, float64(p.Y) / 64} }

// opPoints gives the kind and points of an operation.
func opPoints(op svg.Operation) (byte, []pt) {
	switch o := op.(type) {
	case svg.OpMoveTo:
		return 'M', []pt{fpt(fixed.Point26_6(o))}
	case svg.OpLineTo:
		return 'L', []pt{fpt(fixed.Point26_6(o))}
	case svg.OpQuadTo:
		return 'Q', []pt{fpt(o[0]), fpt(o[1])}
	case svg.OpCubicTo:
		return 'C', []pt{fpt(o[0]), fpt(o[1]), fpt(o[2])}
	case svg.OpClose:
		return 'Z', nil
	}
	return '?', nil
}

func nearPt(p pt, x, y float64) bool {
	return math.Abs(p.x-x) <= 1.0/64+1e-7+1e-12*math.Abs(x) && math.Abs(p.y-y) <= 1.0/64+1e-7+1e-12*math.Abs(y)
}

// compareOps compares a path with what is expected.
func compareOps(e []mOp, got svg.Path) string {
	return compareOpsFrom(e, got, 0, 0, pt{}, map[[2]int]bool{})
}

// compareOpsFrom compares from operation i of the path with j of the
// expected, at cur.
func compareOpsFrom(e []mOp, got svg.Path, i, j int, cur pt, failed map[[2]int]bool) string {
	for ; j < len(e); j++ {
		x := e[j]
		switch x.k {
		case 'A':
			ends, s := matchArc(x.p, cur, got[i:])
			if s != "" {
				return fmt.Sprintf("operation %d, arc %v: %s", i, x.p, s)
			}
			// several operations may end near enough to the end of the arc
			for len(ends) > 1 {
				_, ps := opPoints(got[i+ends[0]-1])
				if at := [2]int{i + ends[0], j + 1}; !failed[at] {
					if compareOpsFrom(e, got, i+ends[0], j+1, ps[len(ps)-1], failed) == "" {
						return ""
					}
					failed[at] = true
				}
				ends = ends[1:]
			}
			i += ends[0]
			_, ps := opPoints(got[i-1])
			cur = ps[len(ps)-1]
			continue
		case 'E', 'R':
			n, s := matchClosed(x, got[i:])
			if s != "" {
				return s
			}
			i += n
			continue
		}
		if i >= len(got) {
			return fmt.Sprintf("ends after %d operations, %c%v is missing", i, x.k, x.p)
		}
		k, ps := opPoints(got[i])
		if k != x.k {
			// a rectangle may also draw its last side before it is closed
			return fmt.Sprintf("operation %d is %v, expected %c%v (%d)", i, got[i], x.k, x.p, j)
		}
		for n, p := range ps {
			if !nearPt(p, x.p[2*n], x.p[2*n+1]) {
				return fmt.Sprintf("operation %d is %v, expected %c%v", i, got[i], x.k, x.p)
			}
		}
		if len(ps) > 0 {
			cur = ps[len(ps)-1]
		}
		i++
	}
	if i != len(got) {
		return fmt.Sprintf("%d operations, expected the first %d", len(got), i)
	}
	return ""
}

func bezier(from pt, ps []pt, t float64) pt {
	q := append([]pt{from}, ps...)
	for n := len(q) - 1; n > 0; n-- {
		for i := 0; i < n; i++ {
			q[i] = pt{q[i].x + (q[i+1].x-q[i].x)*t, q[i].y + (q[i+1].y-q[i].y)*t}
		}
	}
	return q[0]
}

// arcCenter solves the end point parametrisation of arcs.
func arcCenter(rx, ry, phi float64, large, sweep bool, x1, y1, x2, y2 float64) (cx, cy, a, b, th1, dth float64) {
	sin, cos := math.Sincos(phi)
	dx, dy := (x1-x2)/2, (y1-y2)/2
	xp, yp := cos*dx+sin*dy, -sin*dx+cos*dy
	l := xp*xp/(rx*rx) + yp*yp/(ry*ry)
	if l > 1 {
		rx *= math.Sqrt(l)
		ry *= math.Sqrt(l)
	}
	q := math.Sqrt(math.Max(0, (rx*rx*ry*ry-rx*rx*yp*yp-ry*ry*xp*xp)/(rx*rx*yp*yp+ry*ry*xp*xp)))
	if large == sweep {
		q = -q
	}
	cxp, cyp := q*rx*yp/ry, -q*ry*xp/rx
	cx, cy = cos*cxp-sin*cyp+(x1+x2)/2, sin*cxp+cos*cyp+(y1+y2)/2
	th1 = math.Atan2((yp-cyp)/ry, (xp-cxp)/rx)
	th2 := math.Atan2((-yp-cyp)/ry, (-xp-cxp)/rx)
	dth = th2 - th1
	if sweep && dth < 0 {
		dth += 2 * math.Pi
	} else if !sweep && dth > 0 {
		dth -= 2 * math.Pi
	}
	return cx, cy, rx, ry, th1, dth
}

// ellipseDist is the distance of a point from the ellipse with radii a, b
// around the origin (D. Eberly, Distance from a Point to an Ellipse).
func ellipseDist(a, b, x, y float64) float64 {
	x, y = math.Abs(x), math.Abs(y)
	if a < b {
		a, b, x, y = b, a, y, x
	}
	if y == 0 {
		if n, d := a*x, a*a-b*b; n < d {
			c := n / d
			return math.Hypot(a*c-x, b*math.Sqrt(1-c*c))
		}
		return math.Abs(x - a)
	}
	if x == 0 {
		return math.Abs(y - b)
	}
	z0, z1 := x/a, y/b
	r := (a / b) * (a / b)
	n0 := r * z0
	s0, s1 := z1-1, 0.0
	if g := z0*z0 + z1*z1 - 1; g >= 0 {
		s1 = math.Hypot(n0, z1) - 1
	}
	s := 0.0
	for i := 0; i < 200; i++ {
		s = (s0 + s1) / 2
		if s == s0 || s == s1 {
			break
		}
		p, q := n0/(s+r), z1/(s+1)
		if g := p*p + q*q - 1; g > 0 {
			s0 = s
		} else if g < 0 {
			s1 = s
		} else {
			break
		}
	}
	return math.Hypot(r*x/(s+r)-x, y/(s+1)-y)
}

// matchArc compares an elliptical arc with the next operations, and gives the
// numbers of operations that may be it.
func matchArc(p []float64, cur pt, got svg.Path) (ends []int, msg string) {
	defer func() {
		if len(ends) > 0 {
			msg = ""
		}
	}()
	phi := p[2] * math.Pi / 180
	cx, cy, rx, ry, _, dth := arcCenter(p[0], p[1], phi, p[3] != 0, p[4] != 0, p[5], p[6], p[7], p[8])
	sin, cos := math.Sincos(phi)
	local := func(q pt) (float64, float64) {
		dx, dy := q.x-cx, q.y-cy
		return (cos*dx + sin*dy) / rx, (-sin*dx + cos*dy) / ry
	}
	rmin, rmax := math.Min(rx, ry), math.Max(rx, ry)
	tol := 2.0/64 + 5e-4*rmax
	angTol := 0.02 + 3.0/64/rmin
	angled := angTol < 0.6
	prevU, prevV := local(pt{p[5], p[6]})
	sum, back := 0.0, 0.0
	for i := 0; i < len(got); i++ {
		k, ps := opPoints(got[i])
		if k != 'C' && k != 'Q' && k != 'L' {
			return ends, fmt.Sprintf("followed %.4f of %.4f radians, then %v", sum, dth, got[i])
		}
		for s := 1; s <= 12; s++ {
			q := bezier(cur, ps, float64(s)/12)
			u, v := local(q)
			if d := ellipseDist(rx, ry, u*rx, v*ry); d > tol {
				return ends, fmt.Sprintf("%v leaves the ellipse centred %.4f,%.4f with radii %.4f %.4f by %.4f at %.4f,%.4f", got[i], cx, cy, rx, ry, d, q.x, q.y)
			}
			da := math.Atan2(prevU*v-prevV*u, prevU*u+prevV*v)
			sum += da
			if da*dth < 0 {
				back += math.Abs(da)
			}
			prevU, prevV = u, v
		}
		cur = ps[len(ps)-1]
		if nearPt(cur, p[7], p[8]) {
			if !angled || math.Abs(sum-dth) <= angTol {
				if angled && back > angTol {
					return ends, fmt.Sprintf("runs back and forth (%.4f radians)", back)
				}
				if ends = append(ends, i+1); len(ends) == 40 {
					return ends, ""
				}
			}
		}
		if angled && math.Abs(sum) > math.Abs(dth)+angTol {
			return ends, fmt.Sprintf("follows %.4f radians, expected %.4f", sum, dth)
		}
	}
	return ends, fmt.Sprintf("ends after %.4f of %.4f radians", sum, dth)
}

// matchClosed compares an ellipse or rounded rectangle with the next subpath.
func matchClosed(x mOp, got svg.Path) (int, string) {
	var cx, cy, a, b, rx, ry, tol float64 // centre, half size, corner radii
	p := x.p
	if x.k == 'E' {
		cx, cy, a, b, rx, ry = p[0], p[1], p[2], p[3], p[2], p[3]
		tol = 2.0/64 + 5e-4*math.Max(rx, ry)
	} else {
		a, b, rx, ry = p[2]/2, p[3]/2, p[4], p[5]
		cx, cy = p[0]+a, p[1]+b
		tol = (1+ry/rx)*3/64 + 0.004*math.Max(rx, ry)
	}
	dist := func(q pt) float64 {
		u, v := math.Abs(q.x-cx), math.Abs(q.y-cy)
		if u >= a-rx && v >= b-ry {
			return ellipseDist(rx, ry, u-(a-rx), v-(b-ry))
		}
		if u <= a-rx && v <= b-ry {
			return math.Min(a-u, b-v)
		}
		if u > a-rx {
			return math.Abs(u - a)
		}
		return math.Abs(v - b)
	}
	if len(got) == 0 {
		return 0, "is missing"
	}
	k, ps := opPoints(got[0])
	if k != 'M' {
		return 0, fmt.Sprintf("starts with %v", got[0])
	}
	start := ps[0]
	cur := start
	if d := dist(cur); d > tol {
		return 0, fmt.Sprintf("starts %.4f off the outline %c%v", d, x.k, x.p)
	}
	sum, total := 0.0, 0.0
	i := 1
	for ; i < len(got); i++ {
		k, ps := opPoints(got[i])
		if k == 'Z' {
			break
		}
		if k == 'M' {
			return 0, "is not closed"
		}
		prev := cur
		for s := 1; s <= 12; s++ {
			q := bezier(cur, ps, float64(s)/12)
			if d := dist(q); d > tol {
				return 0, fmt.Sprintf("%v is %.4f off the outline %c%v", got[i], d, x.k, x.p)
			}
			pu, pv, u, v := (prev.x-cx)/a, (prev.y-cy)/b, (q.x-cx)/a, (q.y-cy)/b
			da := math.Atan2(pu*v-pv*u, pu*u+pv*v)
			sum += da
			total += math.Abs(da)
			prev = q
		}
		cur = ps[len(ps)-1]
	}
	if i >= len(got) {
		return 0, "is not closed"
	}
	for s := 1; s <= 12; s++ {
		if d := dist(bezier(cur, []pt{start}, float64(s)/12)); d > tol {
			return 0, fmt.Sprintf("is %.4f off the outline %c%v where it is closed", d, x.k, x.p)
		}
	}
	pu, pv, u, v := (cur.x-cx)/a, (cur.y-cy)/b, (start.x-cx)/a, (start.y-cy)/b
	da := math.Atan2(pu*v-pv*u, pu*u+pv*v)
	if x.k == 'E' && math.Hypot((cur.x-start.x), (cur.y-start.y)) > tol {
		return 0, "does not return to its start"
	}
	sum += da
	total += math.Abs(da)
	small := math.Min(a, b)
	angTol := 0.05 + 4.0/64/small
	if angTol < 1 && math.Abs(math.Abs(sum)-2*math.Pi) > angTol {
		return 0, fmt.Sprintf("runs %.4f radians around its centre", sum)
	}
	if angTol < 1 && total > 2*math.Pi+8*angTol {
		return 0, fmt.Sprintf("runs back and forth (%.4f radians in total)", total)
	}
	return i + 1, ""
}

// pathKey is a short description of the shape of a document for counting
// distinct cases.
func docKey(n *Node) string {
	var b strings.Builder
	n.walk(func(x *Node) {
		b.WriteString(x.Name)
		for _, a := range x.Attrs {
			b.WriteString(" " + a.K)
		}
		b.WriteByte('/')
	})
	return b.String()
}
