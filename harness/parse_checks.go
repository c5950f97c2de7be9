package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"

	svg "github.com/lafriks/go-svg"
)

func parseString(s string, mode svg.ErrorMode) (*svg.Svg, error) {
	return svg.Parse(strings.NewReader(s), mode)
}

var modeNames = map[svg.ErrorMode]string{svg.IgnoreErrorMode: "ignore", svg.WarnErrorMode: "warn", svg.StrictErrorMode: "strict"}

// judge parses a document and compares it with the reference semantics.
func judge(t *T, root *Node, f facet, r *rand.Rand) {
	src := root.plain()
	if r != nil {
		src = root.vary(r)
	}
	judgeText(t, root, src, f, r)
}

func judgeText(t *T, root *Node, src string, f facet, r *rand.Rand) {
	t.Input(src)
	modes := []svg.ErrorMode{svg.IgnoreErrorMode}
	if r != nil && r.Intn(3) == 0 {
		modes = append(modes, svg.StrictErrorMode)
	}
	for _, mode := range modes {
		e, v, why := evaluate(root, mode)
		if v == vUnspec {
			t.Count("left open", 1)
			continue
		}
		got, err := parseString(src, mode)
		if v == vFail {
			if err == nil {
				t.Failf("%s mode: no error, expected one: %s", modeNames[mode], why)
			}
			t.Count("errors expected", 1)
			t.Eval("error: " + why)
			continue
		}
		if err != nil {
			t.Failf("%s mode: unexpected error: %v", modeNames[mode], err)
		}
		if s := compareDoc(e, got, f); s != "" {
			t.Failf("%s mode: %s", modeNames[mode], s)
		}
		n := len(e.paths)
		t.Count("shapes compared", n)
		nops := 0
		for _, p := range e.paths {
			nops += len(p.ops)
		}
		for _, k := range e.masks {
			n += len(k.paths)
			t.Count("masks compared", 1)
		}
		t.Count("operations compared", nops)
		if n > 0 || f&(fMeta|fTitles) != 0 {
			t.Eval(src)
		} else {
			t.Eval("")
		}
	}
}

func doc(attrs ...string) *Node {
	n := el("svg", "xmlns", "http://www.w3.org/2000/svg", "viewBox", "0 0 200 100")
	for i := 0; i+1 < len(attrs); i += 2 {
		n.set(attrs[i], attrs[i+1])
	}
	return n
}

const pathLetters = "MmLlHhVvCcSsQqTtZz"

// pathTriples is every sequence of three commands after a first segment.
func pathTriples(k int) (string, bool) {
	n := len(pathLetters)
	if k >= n*n*n {
		return "", false
	}
	var b strings.Builder
	b.WriteString("M 10,20 c 3,4 8,-2 11,5 ")
	x := 1.0
	for i := 0; i < 3; i++ {
		c := pathLetters[k%n]
		k /= n
		b.WriteByte(c)
		reps := 1 + i%2
		for j := 0; j < reps*params[c&^0x20]; j++ {
			x = math.Mod(x*7+3.25, 37)
			fmt.Fprintf(&b, " %g", x-11)
		}
	}
	return b.String(), true
}

func init() {
	register(&Check{
		ID: "C05", Quick: 200000, Deep: 1500000,
		Rule: "every sequence of three path commands (absolute and relative), then random path data in random notation (1 to several hundred commands, repeated parameters, all separators and number notations), several paths and other shapes per document, some with a wrong number of parameters; nontrivial: at least one path was compared operation by operation with an independent interpreter of SVG's grammar",
		Run: func(t *T, k int, r *rand.Rand) {
			if d, ok := pathTriples(k); ok {
				judge(t, doc().add(el("path", "d", d)), fGeom, nil)
				return
			}
			if k%200 == 189 {
				judge(t, bigDoc(r, "path", "points", "shapes"), fGeom, r)
				return
			}
			g := newGen(r)
			n := doc()
			if k%20 == 13 {
				g.extreme = true
			}
			if k%500 == 7 {
				g.span = 20000
			}
			for i := 1 + g.tail(1, 30); i > 0; i-- {
				letters := "LHVCSQTZM"
				switch r.Intn(8) {
				case 0:
					letters = "CS"
				case 1:
					letters = "QT"
				case 2:
					letters = "MZL"
				case 3:
					letters = "STQCZ"
				case 4:
					letters = "ALCZT"
				case 5:
					letters = "HVZ"
				}
				d := g.path(g.tail(6, 600), letters)
				if r.Intn(12) == 0 {
					g.pBad = 1
					x := g.shape()
					for x.Name != "path" {
						x = g.shape()
					}
					d, _ = x.get("d")
					g.pBad = 0
				}
				p := el("path", "d", d)
				switch r.Intn(12) {
				case 0:
					p = g.shape()
				case 1:
					p.set("transform", "translate(5)")
				case 2:
					p = el("g").add(p)
				}
				n.add(p)
			}
			judge(t, n, fGeom, r)
		},
	})

	register(&Check{
		ID: "C06", Quick: 300000, Deep: 1500000,
		Rule: "a grid of radii, rotations, flags and end points (absolute and relative, single and repeated), then random path data made mostly of arcs; nontrivial: at least one arc was followed along the ellipse an independent solution of the end point parametrisation gives",
		Run: func(t *T, k int, r *rand.Rand) {
			radii := []float64{0, 1, 7, 25, 40, -12, 300}
			rots := []float64{0, 30, 90, -45, 135, 200, 360}
			ends := [][2]float64{{10, 0}, {0, 14}, {-20, 20}, {50, 30}, {-3, -8}, {80, 0}, {0, 0}, {1, 1}}
			kk := k
			next := func(n int) int { v := kk % n; kk /= n; return v }
			rx, ry, rot, flags, end, form := radii[next(7)], radii[next(7)], rots[next(7)], next(4), ends[next(8)], next(4)
			if kk == 0 {
				d := ""
				arc := func(x, y float64) string {
					return fmt.Sprintf("%g,%g %g %d %d %g,%g", rx, ry, rot, flags&1, flags>>1, x, y)
				}
				switch form {
				case 0:
					d = "M 10 20 A " + arc(10+end[0], 20+end[1]) + " l 1 1"
				case 1:
					d = "M 10 20 a " + arc(end[0], end[1]) + " l 1 1"
				case 2:
					d = "m 10 20 5 5 a " + arc(end[0], end[1]) + " " + arc(end[1], -end[0]) + " " + arc(-5, 3) + " t 4 4 z"
				case 3:
					d = "M 10 20 A " + arc(10+end[0], 20+end[1]) + " " + arc(7, -9) + " S 1 2 3 4 Z A " + arc(30, 40)
				}
				judge(t, doc().add(el("path", "d", d)), fGeom, nil)
				return
			}
			g := newGen(r)
			n := doc()
			for i := 1 + g.tail(1, 10); i > 0; i-- {
				n.add(el("path", "d", g.path(1+g.tail(3, 100), g.pick("A", "A", "AL", "AZM", "AAAACSQTHVLZ", "AM"))))
			}
			judge(t, n, fGeom, r)
		},
	})

	register(&Check{
		ID: "C07", Quick: 300000, Deep: 1500000,
		Rule: "random documents of basic shapes with any attributes missing, zero or in any notation, corner radii over and under half the size, long and short point lists, odd coordinate counts, in groups and after paths; nontrivial: at least one outline was compared",
		Run: func(t *T, k int, r *rand.Rand) {
			if k%400 == 389 {
				judge(t, bigDoc(r, "points", "shapes"), fGeom, r)
				return
			}
			g := newGen(r)
			g.pStyle, g.pTrans = 0.05, 0
			if k%20 == 0 {
				g.pBad = 0.3
				g.units = 0
			}
			if k%50 == 3 {
				g.span = 2000
			}
			n := doc()
			for i := 1 + g.tail(2, 60); i > 0; i-- {
				s := g.shape()
				for s.Name == "path" && r.Intn(4) != 0 {
					s = g.shape()
				}
				if r.Intn(6) == 0 {
					s = el("g").add(s, g.poly())
				}
				n.add(s)
			}
			judge(t, n, fGeom, r)
		},
	})

	type lengthSlot struct {
		make func(v string) *Node
		f    facet
	}
	slots := []lengthSlot{}
	for _, s := range []string{"rect x y width height rx ry", "circle cx cy r", "ellipse cx cy rx ry", "line x1 y1 x2 y2"} {
		w := strings.Fields(s)
		for _, a := range w[1:] {
			a := a
			slots = append(slots, lengthSlot{func(v string) *Node {
				n := el(w[0])
				for _, b := range w[1:] {
					if b == "rx" || b == "ry" {
						if w[0] == "rect" && a != "rx" && a != "ry" {
							continue
						}
						n.set(b, "3")
					} else {
						n.set(b, "17.5")
					}
				}
				return doc().add(n.set(a, v))
			}, fGeom})
		}
	}
	for _, a := range []string{"stroke-width", "stroke-dashoffset", "stroke-dasharray"} {
		for _, where := range []string{"shape", "group", "style", "root"} {
			a, where := a, where
			slots = append(slots, lengthSlot{func(v string) *Node {
				s := el("rect", "width", "5", "height", "5")
				d := doc()
				switch where {
				case "shape":
					d.add(s.set(a, v))
				case "group":
					d.add(el("g", a, v).add(s))
				case "style":
					d.add(s.set("style", "fill:red;"+a+":"+v))
				case "root":
					d.set(a, v).add(s)
				}
				return d
			}, fLine | fDash})
		}
	}
	for _, a := range []string{"x", "y"} {
		a := a
		slots = append(slots, lengthSlot{func(v string) *Node {
			return doc().add(el("defs").add(el("rect", "id", "a", "width", "5", "height", "5")), el("use", "href", "#a", a, v))
		}, fTransform | fGeom})
	}
	for _, a := range []string{"x", "y", "width", "height"} {
		a := a
		slots = append(slots, lengthSlot{func(v string) *Node {
			return doc().add(el("mask", "id", "m", a, v).add(el("rect", "width", "5", "height", "5")))
		}, fMasks})
	}
	units := []string{"", "px", "in", "cm", "mm", "Q", "pt", "pc", "%"}
	values := []string{"1", "2.5", "-3", "0", "1e1", "+4", ".5", "12.75"}
	spaces := [][2]string{{"", ""}, {" ", ""}, {"", " "}, {" ", " "}, {"\n\t", "\n"}}
	badLengths := []string{"", "abc", "px", "%", "1em", "10 20", "1.2.3", "--5", "5furlong", "1px2", "ten", "1,5x", "12pxx", "-", ".", "3ex", "10vw", "1 0px", "5px px2", "#5", "1..5", "nan", "NaN", "inf", "-inf", "+Inf", "Infinity", "infin", "nan%", "0x10", "0X1p2px", "1_0"}
	register(&Check{
		ID: "C08", Quick: 300000, Deep: 1500000,
		Rule: "every length attribute with every unit, several values and white space around, and with values that are no lengths; then random documents with several view boxes where most lengths have units; nontrivial: a length was resolved and compared, or an invalid one rejected",
		Run: func(t *T, k int, r *rand.Rand) {
			kk := k
			next := func(n int) int { v := kk % n; kk /= n; return v }
			s := slots[next(len(slots))]
			u, v, sp, mid := units[next(len(units))], values[next(len(values))], spaces[next(len(spaces))], next(2)
			if kk == 0 {
				if mid == 1 {
					v += " "
				}
				judge(t, s.make(sp[0]+v+u+sp[1]), s.f, nil)
				return
			}
			kk--
			if kk == 0 {
				kk = k
				s := slots[next(len(slots))]
				judge(t, s.make(badLengths[next(len(badLengths))]), s.f, nil)
				return
			}
			g := newGen(r)
			if k%10 == 7 {
				g.extreme = true
			}
			g.units = 0.8
			g.pUse, g.pDefs, g.pMask, g.pMasked = 0.1, 0.1, 0.1, 0.1
			g.pStyle = 0.4
			if r.Intn(10) == 0 {
				g.pBad = 0.2
			}
			judge(t, g.doc(), fGeom|fTransform|fLine|fDash|fMasks, r)
		},
	})

	register(&Check{
		ID: "C09", Quick: 300000, Deep: 1500000,
		Rule: "every property set as attribute, in a style attribute or both, on any subset of three nested levels, followed by a sibling; then random trees (some wide, some hundreds of levels deep) with settings on groups, shapes, definitions, gradients and masks; nontrivial: at least one shape's resolved style was compared",
		Run: func(t *T, k int, r *rand.Rand) {
			if k%200 == 189 {
				judge(t, bigDoc(r, "shapes", "decls", "depth", "dashes", "attrs", "defs", "chain"), fStyle, r)
				return
			}
			g := newGen(r)
			g.units = 0
			if k%3 == 0 {
				// one property on any of three levels
				key := styleKeys[r.Intn(len(styleKeys))]
				setOne := func(n *Node) *Node {
					if r.Intn(2) == 0 {
						n.set(key, g.styleValue(key))
					}
					if r.Intn(3) == 0 {
						n.set("style", g.sp()+key+g.sp()+":"+g.styleValue(key))
					}
					return n
				}
				shape := func() *Node { return el("line", "x2", "5", "y2", g.num(g.val())) }
				inner := setOne(el("g")).add(setOne(shape()), shape(), setOne(shape()))
				outer := setOne(el("g")).add(shape(), inner, shape(), el("g").add(shape()))
				judge(t, setOne(doc()).add(outer, shape(), setOne(el("rect", "width", "3", "height", "4")), shape()), fStyle, r)
				return
			}
			g.pStyle = 0.55
			switch k % 9 {
			case 1:
				g.pGrad, g.pGradUse, g.pDefs = 0.1, 0.3, 0.1
			case 2:
				g.pDefs, g.pUse = 0.15, 0.2
			case 4:
				g.pMask, g.pMasked, g.pDefs, g.pUse = 0.15, 0.2, 0.1, 0.1
			case 5:
				g.units = 0.3
				g.pBad = 0.05
			case 7:
				g.pOdd = 0.1
			}
			var n *Node
			if k%200 == 4 { // deep
				n = doc()
				cur := n
				for i := g.tail(100, 1200) + 20; i > 0; i-- {
					x := el("g")
					if r.Intn(8) == 0 {
						g.style(x)
					}
					cur.add(x)
					if r.Intn(8) == 0 {
						cur.add(el("line", "x2", "3"))
					}
					cur = x
				}
				cur.add(g.style(g.shape()))
				n.add(g.shape())
			} else {
				n = g.doc()
			}
			judge(t, n, fStyle, r)
		},
	})

	funcs := []string{"translate", "scale", "rotate", "skewX", "skewY", "matrix"}
	register(&Check{
		ID: "C10", Quick: 240000, Deep: 1500000,
		Rule: "every transform function with zero to eight values alone and after another one, every pair of functions, then random trees with transform lists on the root, groups, shapes and uses, and malformed lists; nontrivial: at least one shape's matrix was compared with the product computed independently",
		Run: func(t *T, k int, r *rand.Rand) {
			if k%200 == 189 {
				judge(t, bigDoc(r, "transforms", "chain", "depth", "transforms"), fTransform|fMasks, r)
				return
			}
			g := newGen(r)
			s := el("line", "x2", "5")
			if k < 6*9*4 {
				var fs []float64
				for i := 0; i < k/6%9; i++ {
					fs = append(fs, []float64{7, 3.5, -2, 1.25, 10, 0.5, 9, 1}[i])
				}
				f := funcs[k%6] + "(" + strings.Trim(strings.Join(strings.Fields(fmt.Sprint(fs)), ","), "[]") + ")"
				switch k / 54 {
				case 1:
					f = "rotate(20) " + f
				case 2:
					f += ",scale(2,3)"
				case 3:
					judge(t, doc("transform", f).add(el("g", "transform", "translate(5 6)").add(s), s.clone()), fTransform, nil)
					return
				}
				judge(t, doc().add(s.set("transform", f), el("line", "x2", "6")), fTransform, nil)
				return
			}
			g.pTrans = 0.6
			g.pStyle = 0.05
			if r.Intn(4) == 0 {
				g.pUse, g.pDefs = 0.15, 0.15
			}
			if r.Intn(6) == 0 {
				g.pMask, g.pMasked = 0.1, 0.1
			}
			if r.Intn(6) == 0 {
				g.pGrad, g.pGradUse = 0.1, 0.1
			}
			if r.Intn(10) == 0 {
				g.pBad = 0.05
			}
			if k%300 == 299 {
				g.pGroup = 0.9
				g.budget = 300
			}
			judge(t, g.doc(), fTransform|fMasks, r)
		},
	})

	register(&Check{
		ID: "C12", Quick: 600000, Deep: 1500000,
		Rule: "every colour name in several letter cases, all three-digit and many six-digit hex colours, integer and percentage rgb() including out of range values, none, and values that are no colours, as fill, stroke or stop colour, as attribute or in a style attribute, alone and after other colours; nontrivial: a colour was compared or an invalid one rejected",
		Run: func(t *T, k int, r *rand.Rand) {
			g := newGen(r)
			c := ""
			kk := k / 6
			switch {
			case kk < 4*len(colourNames):
				c = colourNames[kk/4]
				switch kk % 4 {
				case 1:
					c = strings.ToUpper(c)
				case 2:
					c = strings.ToUpper(c[:1]) + c[1:]
				case 3:
					c = g.mixCase(c)
				}
			case kk < 4*len(colourNames)+4096:
				c = fmt.Sprintf("#%03x", kk-4*len(colourNames))
				if r.Intn(2) == 0 {
					c = g.mixCase(c)
				}
			default:
				if r.Intn(4) == 0 {
					g.pBad = 3
				}
				c = g.colour()
				if g.bad > 0 && r.Intn(3) == 0 {
					// some more values that are no colours
					b := make([]byte, 1+r.Intn(9))
					for i := range b {
						b[i] = "0123456789abcdefgxyzABCGX#-+."[r.Intn(29)]
					}
					c = "#" + string(b)
				}
				g.pBad = 0
			}
			n := doc()
			if r.Intn(3) == 0 {
				n.add(g.style(g.shape()))
				n.set("fill", g.colour()).set("stroke", g.colour())
			}
			s := el("rect", "width", "5", "height", "6")
			switch k % 6 {
			case 0:
				n.add(s.set("fill", c))
			case 1:
				n.add(s.set("stroke", c))
			case 2:
				n.add(s.set("style", "fill:"+g.sp()+c))
			case 3:
				n.add(el("g", "style", "stroke :"+c).add(s))
			case 4, 5:
				st := el("stop", "offset", "0", "stop-color", c)
				if k%6 == 5 {
					st = el("stop", "style", "stop-color:"+c)
				}
				n.add(el("linearGradient", "id", "g").add(st), s.set("fill", "url(#g)"))
			}
			if r.Intn(3) == 0 {
				n.add(g.style(g.shape()), el("line", "x2", "4", "fill", g.colour()))
			}
			judge(t, n, fFill|fStroke, r)
		},
	})

	register(&Check{
		ID: "C13", Quick: 150000, Deep: 1500000,
		Rule: "random documents with gradients inside and outside of defs (any attributes missing, both units, percentages, transforms, spreads, up to dozens of stops with attributes and style) used as fill and stroke by many shapes and groups, also replaced by id; every gradient found is also given random path extents; nontrivial: at least one gradient was compared",
		Run: func(t *T, k int, r *rand.Rand) {
			if k%200 == 189 {
				judge(t, bigDoc(r, "stops", "grads", "ids"), fFill|fStroke, r)
				return
			}
			g := newGen(r)
			g.pGrad, g.pGradUse, g.pStyle, g.pDefs, g.pGroup = 0.3, 0.7, 0.5, 0.2, 0.2
			g.units = 0
			if r.Intn(8) == 0 {
				g.pUse = 0.2
			}
			if r.Intn(8) == 0 {
				g.pBad = 0.05
			}
			if r.Intn(8) == 0 {
				g.pTrans = 0.3
			}
			n := g.root()
			for i := 1 + r.Intn(3); i > 0; i-- {
				x := g.gradient()
				if r.Intn(2) == 0 {
					x = el("defs").add(x)
				}
				n.add(x)
			}
			for i := 1 + r.Intn(3); i > 0; i-- {
				s := el("rect", "width", "5", "height", "6")
				s.set(g.pick("fill", "stroke"), "url(#"+g.grads[r.Intn(len(g.grads))]+")")
				n.add(g.style(s))
			}
			n.add(g.content(1+g.tail(4, 30), false)...)
			judge(t, n, fFill|fStroke, r)
			extents(t, n, r)
		},
	})
}

// extents applies path extents to the gradients of a document.
func extents(t *T, root *Node, r *rand.Rand) {
	got, err := parseString(root.plain(), svg.IgnoreErrorMode)
	if err != nil || got == nil {
		return
	}
	for i := range got.SvgPaths {
		st := &got.SvgPaths[i].Style
		for _, p := range []svg.Pattern{st.FillerColor, st.LinerColor} {
			g, ok := p.(svg.Gradient)
			if !ok {
				continue
			}
			before := dump(g)
			old := g.Bounds
			ext := fixedRect(r)
			m := g.ApplyPathExtent(ext)
			b := svg.Bounds{X: float64(ext.Min.X) / 64, Y: float64(ext.Min.Y) / 64, W: float64(ext.Max.X-ext.Min.X) / 64, H: float64(ext.Max.Y-ext.Min.Y) / 64}
			if g.Units == svg.UserSpaceOnUse {
				b = old
				if m != g.Matrix {
					t.Failf("path extent %v: matrix %v for user space units, expected the gradient's %v", ext, m, g.Matrix)
				}
			}
			if g.Units == svg.ObjectBoundingBox {
				// a point of the gradient goes through its matrix and then into the box
				for j := 0; j < 3; j++ {
					x, y := r.Float64()*2-0.5, r.Float64()*2-0.5
					ux, uy := g.Matrix.A*x+g.Matrix.C*y+g.Matrix.E, g.Matrix.B*x+g.Matrix.D*y+g.Matrix.F
					ux, uy = b.X+ux*b.W, b.Y+uy*b.H
					vx, vy := m.A*x+m.C*y+m.E, m.B*x+m.D*y+m.F
					if e := 1e-6 * (1 + math.Abs(ux) + math.Abs(uy) + b.W + b.H); !(math.Abs(ux-vx) < e && math.Abs(uy-vy) < e) {
						t.Failf("path extent %v, gradient matrix %v: the matrix %v takes %v,%v to %v,%v, expected %v,%v", ext, g.Matrix, m, x, y, vx, vy, ux, uy)
					}
				}
			}
			if !near(g.Bounds.X, b.X) || !near(g.Bounds.Y, b.Y) || !near(g.Bounds.W, b.W) || !near(g.Bounds.H, b.H) {
				t.Failf("path extent %v gives bounds %v, expected %v", ext, g.Bounds, b)
			}
			g.Bounds = old
			if s := dump(g); s != before {
				t.Failf("path extent changes the gradient\n%s\ninto\n%s", before, s)
			}
			t.Count("extents applied", 1)
		}
	}
}

var _ = strconv.Itoa
