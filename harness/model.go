package main

import (
	"fmt"
	"image/color"
	"math"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/image/colornames"

	svg "github.com/lafriks/go-svg"
)

// This file is the reference semantics of the SVG subset, written from the SVG
// specification and the documentation, working on whole trees instead of a
// token stream. Where neither settles what has to happen, it says so
// (unspecified), and no monitor judges such a document.

type verdict int

const (
	vOK     verdict = iota
	vFail           // parsing must return an error
	vUnspec         // not decided by the properties
)

type stopEval struct {
	v   verdict
	why string
}

func mustFail(format string, a ...interface{}) { panic(stopEval{vFail, fmt.Sprintf(format, a...)}) }
func unspec(format string, a ...interface{})   { panic(stopEval{vUnspec, fmt.Sprintf(format, a...)}) }

// mat is an affine map: x' = a x + c y + e, y' = b x + d y + f.
type mat [6]float64

var ident = mat{1, 0, 0, 1, 0, 0}

func (m mat) mul(n mat) mat {
	return mat{
		m[0]*n[0] + m[2]*n[1], m[1]*n[0] + m[3]*n[1],
		m[0]*n[2] + m[2]*n[3], m[1]*n[2] + m[3]*n[3],
		m[0]*n[4] + m[2]*n[5] + m[4], m[1]*n[4] + m[3]*n[5] + m[5],
	}
}

func (m mat) apply(x, y float64) (float64, float64) {
	return m[0]*x + m[2]*y + m[4], m[1]*x + m[3]*y + m[5]
}

func (m mat) abs() mat {
	for i := range m {
		m[i] = math.Abs(m[i])
	}
	m[0], m[3] = math.Max(m[0], 1e-3), math.Max(m[3], 1e-3)
	return m
}

func (m mat) lineScale() float64 { return (math.Hypot(m[0], m[1]) + math.Hypot(m[2], m[3])) / 2 }

func matOf(m svg.Matrix2D) mat { return mat{m.A, m.B, m.C, m.D, m.E, m.F} }
func (m mat) svg() svg.Matrix2D {
	return svg.Matrix2D{A: m[0], B: m[1], C: m[2], D: m[3], E: m[4], F: m[5]}
}

type paintKind int

const (
	pNone paintKind = iota
	pColor
	pGrad
	pAny // unspecified
)

type mPaint struct {
	kind paintKind
	c    color.NRGBA
	g    *mGrad
}

type mStop struct {
	c       *color.NRGBA
	offset  float64
	opacity float64
}

type mGrad struct {
	box    svg.Bounds
	radial bool
	dir    [6]float64
	user   bool
	spread svg.SpreadMethod
	m, ma  mat
	stops  []mStop
}

type mStyle struct {
	fillOp, lineOp       float64
	fillOpSet, lineOpSet bool
	fillOpAny, lineOpAny bool // unspecified
	width                float64
	nonZero              bool
	miter                float64
	join                 svg.JoinMode
	cap, lead            svg.CapMode
	gap                  svg.GapMode
	dash                 []float64
	dashAny              bool
	dashOff              float64
	fill, line           mPaint
	masks                []string
	t, ta                mat // transform, and the size of what was added up to it
}

func defaultMStyle() mStyle {
	d := svg.DefaultStyle
	return mStyle{
		fillOp: 1, lineOp: 1, width: d.LineWidth, nonZero: true,
		miter: float64(d.Join.MiterLimit) / 64, join: svg.Bevel, cap: svg.ButtCap, lead: d.Join.LeadLineCap, gap: d.Join.LineGap,
		fill: mPaint{kind: pColor, c: color.NRGBA{0, 0, 0, 255}}, t: ident, ta: ident,
	}
}

// mOp is an operation of the expected path. A is an elliptical arc, E a whole
// ellipse and R a rounded rectangle; these stand for any number of curves.
type mOp struct {
	k byte
	p []float64
}

type mPath struct {
	ops   []mOp
	style mStyle
}

type mMask struct {
	id         string
	x, y, w, h float64
	paths      []mPath
}

type mDoc struct {
	viewBox       svg.Bounds
	viewBoxAny    bool
	width, height string
	titles, descs []string
	paths         []mPath
	masks         map[string]*mMask
	logs          []string // what warn mode has to mention, in order
}

type model struct {
	mode    svg.ErrorMode
	doc     *mDoc
	seenSvg bool
	defs    map[string]*Node
	grads   map[string]*mGrad
	mask    *mMask
	uses    []string
	allIDs  map[string]int // definitions anywhere in the document
	steps   int
	wide    bool // no limits for numbers
}

// evaluate gives what parsing the tree has to result in.
func evaluate(root *Node, mode svg.ErrorMode) (doc *mDoc, v verdict, why string) {
	m := &model{mode: mode, doc: &mDoc{masks: map[string]*mMask{}}, defs: map[string]*Node{}, grads: map[string]*mGrad{}, allIDs: map[string]int{}}
	defer func() {
		if r := recover(); r != nil {
			s, ok := r.(stopEval)
			if !ok {
				panic(r)
			}
			doc, v, why = m.doc, s.v, s.why
		}
	}()
	root.walk(func(n *Node) {
		if id, ok := n.get("id"); ok {
			m.allIDs[id]++
		}
	})
	m.element(root, defaultMStyle(), place{})
	return m.doc, vOK, ""
}

type place struct {
	defs bool // inside defs, and not inside of a mask or gradient in it
	mask bool
	grad *mGrad
	used bool
}

// localName is a name without its prefix.
func localName(s string) string { return s[strings.LastIndex(s, ":")+1:] }

func (m *model) unsupported(what string) {
	if m.mode == svg.StrictErrorMode {
		mustFail("unsupported %s", what)
	}
	m.doc.logs = append(m.doc.logs, what)
}

var supported = map[string]bool{"svg": true, "g": true, "line": true, "stop": true, "rect": true, "circle": true, "ellipse": true,
	"polyline": true, "polygon": true, "path": true, "desc": true, "defs": true, "title": true, "linearGradient": true,
	"radialGradient": true, "mask": true, "use": true}

// containers are unsupported elements whose content counts all the same
var containers = map[string]bool{"a": true, "switch": true, "foo": true, "GROUP": true}

func (n *Node) onlyText() bool {
	for _, k := range n.Kids {
		if k.Name != "" {
			return false
		}
	}
	return true
}

func (m *model) element(n *Node, parent mStyle, pl place) {
	if n.Name == "" {
		return
	}
	if m.steps++; m.steps > 200000 {
		unspec("too large")
	}
	if n.Name == "svg" && !m.seenSvg && !pl.defs {
		m.seenSvg = true
		m.viewBox(n)
	}
	st := m.style(n, parent)
	kids := func(pl place) {
		for _, k := range n.Kids {
			m.element(k, st, pl)
		}
	}
	if pl.defs && n.Name != "linearGradient" && n.Name != "radialGradient" && n.Name != "mask" {
		kids(pl)
		if id, ok := n.get("id"); ok && id != "" {
			m.defs[id] = n
		}
		return
	}
	if pl.grad != nil && supported[n.Name] && n.Name != "stop" && n.Name != "title" && n.Name != "desc" {
		unspec("%s in gradient", n.Name)
	}
	var ops []mOp
	switch n.Name {
	case "svg", "g":
		kids(pl)
		return
	case "defs":
		pl.defs = true
		kids(pl)
		return
	case "title", "desc":
		if pl.defs || pl.used {
			return
		}
		var b strings.Builder
		var inner []string
		for _, k := range n.Kids {
			k.walk(func(x *Node) {
				if x.Name == "" {
					b.WriteString(x.Text)
				} else if (x.Name == "title" || x.Name == "desc") && x.Name != n.Name && x.onlyText() {
					t := ""
					for _, y := range x.Kids {
						t += y.Text
					}
					inner = append(inner, t)
				} else if supported[x.Name] {
					unspec("%s in %s", x.Name, n.Name)
				} else {
					m.unsupported(localName(x.Name))
				}
			})
		}
		if n.Name == "title" {
			m.doc.titles = append(m.doc.titles, b.String())
			m.doc.descs = append(m.doc.descs, inner...)
		} else {
			m.doc.descs = append(m.doc.descs, b.String())
			m.doc.titles = append(m.doc.titles, inner...)
		}
		return
	case "linearGradient", "radialGradient":
		g := m.gradient(n)
		if id, ok := n.get("id"); ok {
			m.grads[id] = g
		}
		pl.grad = g
		pl.defs = false
		kids(pl)
		return
	case "stop":
		if pl.grad != nil {
			m.stop(n, pl.grad)
		}
		kids(pl)
		return
	case "mask":
		if pl.mask {
			unspec("mask in mask")
		}
		k := &mMask{}
		if id, ok := n.get("id"); ok {
			k.id = id
			if id == "" {
				mustFail("empty id of mask")
			}
		}
		k.x = m.lengthAttr(n, "x", 'w')
		k.y = m.lengthAttr(n, "y", 'h')
		k.w = m.lengthAttr(n, "width", 'w')
		k.h = m.lengthAttr(n, "height", 'h')
		st.t, st.ta = ident, ident
		st.masks = st.masks[len(parent.masks):]
		m.mask = k
		if k.id != "" {
			m.doc.masks[k.id] = k
		}
		pl.defs = false
		pl.mask = true
		kids(pl)
		m.mask = nil
		return
	case "use":
		m.use(n, st, pl)
		for _, k := range n.Kids {
			if k.Name != "" && k.Name != "title" && k.Name != "desc" {
				unspec("%s in use", k.Name)
			}
		}
		kids(pl)
		return
	case "rect":
		ops = m.rect(n)
	case "circle", "ellipse":
		ops = m.ellipse(n)
	case "line":
		x1, y1 := m.lengthAttr(n, "x1", 'w'), m.lengthAttr(n, "y1", 'h')
		x2, y2 := m.lengthAttr(n, "x2", 'w'), m.lengthAttr(n, "y2", 'h')
		ops = []mOp{{'M', []float64{x1, y1}}, {'L', []float64{x2, y2}}}
	case "polyline", "polygon":
		ops = m.poly(n)
	case "path":
		if d, ok := n.get("d"); ok {
			ops = m.path(d)
		}
	default:
		m.unsupported(localName(n.Name))
		if containers[n.Name] {
			kids(pl)
			return
		}
		for _, k := range n.Kids {
			if k.Name != "" {
				unspec("content of %s", n.Name)
			}
		}
		return
	}
	if len(ops) > 0 {
		p := mPath{ops: ops, style: st}
		if pl.mask {
			m.mask.paths = append(m.mask.paths, p)
		} else {
			m.doc.paths = append(m.doc.paths, p)
		}
	}
	kids(pl)
}

func (m *model) viewBox(n *Node) {
	var w, h float64
	var wOK, hOK bool
	if v, ok := n.get("viewBox"); ok {
		ns, ok := numberList(v)
		if !ok {
			unspec("viewBox %q", v)
		}
		if len(ns) != 4 {
			mustFail("viewBox with %d numbers", len(ns))
		}
		m.doc.viewBox = svg.Bounds{X: ns[0], Y: ns[1], W: ns[2], H: ns[3]}
	}
	size := func(k string) (float64, bool) {
		v, ok := n.get(k)
		if !ok {
			return 0, true
		}
		f, unit := m.number(v)
		if unit == "%" {
			return 0, false
		}
		return f, true
	}
	m.doc.width, _ = n.get("width")
	m.doc.height, _ = n.get("height")
	w, wOK = size("width")
	h, hOK = size("height")
	if m.doc.viewBox.W == 0 {
		if !wOK {
			unspec("width in percent without viewBox")
		}
		m.doc.viewBox.W = w
	}
	if m.doc.viewBox.H == 0 {
		if !hOK {
			unspec("height in percent without viewBox")
		}
		m.doc.viewBox.H = h
	}
}

var lengthRE = regexp.MustCompile(`^\s*([+-]?(?:[0-9]+(?:\.[0-9]+)?|\.[0-9]+)(?:[eE][+-]?[0-9]+)?)\s*(px|in|cm|mm|Q|pt|pc|%|)\s*$`)

var perUnit = map[string]float64{"": 1, "px": 1, "in": 96, "cm": 96 / 2.54, "mm": 96 / 25.4, "Q": 96 / 101.6, "pt": 96.0 / 72, "pc": 16, "%": 1}

func (m *model) lengthParts(s string) (float64, string) {
	g := lengthRE.FindStringSubmatch(s)
	if g == nil {
		t := strings.TrimSpace(s)
		for _, u := range []string{"px", "in", "cm", "mm", "Q", "pt", "pc", "%"} {
			t = strings.TrimSpace(strings.TrimSuffix(t, u))
		}
		if _, err := strconv.ParseFloat(t, 64); err == nil && strings.Trim(t, "0123456789+-.eE") == "" {
			unspec("length %q", s)
		}
		mustFail("length %q", s)
	}
	f, err := strconv.ParseFloat(g[1], 64)
	if err != nil {
		unspec("length %q", s)
	}
	return f * perUnit[g[2]], g[2]
}

// length resolves a length; ref is w, h or d for what percentages refer to.
func (m *model) length(s string, ref byte) float64 {
	f, unit := m.lengthParts(s)
	if unit == "%" {
		b := m.doc.viewBox
		switch ref {
		case 'w':
			return f / 100 * b.W
		case 'h':
			return f / 100 * b.H
		default:
			return f / 100 * math.Sqrt((b.W*b.W+b.H*b.H)/2)
		}
	}
	return f
}

func (m *model) lengthAttr(n *Node, k string, ref byte) float64 {
	if v, ok := n.get(k); ok {
		f := m.length(v, ref)
		if !m.wide && math.Abs(f) > 1e7 {
			unspec("length out of range")
		}
		return f
	}
	return 0
}

func (m *model) rect(n *Node) []mOp {
	x, y := m.lengthAttr(n, "x", 'w'), m.lengthAttr(n, "y", 'h')
	w, h := m.lengthAttr(n, "width", 'w'), m.lengthAttr(n, "height", 'h')
	rx, ry := m.lengthAttr(n, "rx", 'w'), m.lengthAttr(n, "ry", 'h')
	if w == 0 || h == 0 {
		return nil
	}
	if w < 0 || h < 0 || rx < 0 || ry < 0 {
		unspec("negative size")
	}
	if _, ok := n.get("rx"); !ok {
		rx = ry
	}
	if _, ok := n.get("ry"); !ok {
		ry = rx
	}
	if rx == 0 || ry == 0 {
		return []mOp{{'M', []float64{x, y}}, {'L', []float64{x + w, y}}, {'L', []float64{x + w, y + h}}, {'L', []float64{x, y + h}}, {'Z', nil}}
	}
	if math.Min(ry, h/2)/math.Min(rx, w/2) > 5 {
		unspec("corners much higher than wide") // drawn coarsely
	}
	return []mOp{{'R', []float64{x, y, w, h, math.Min(rx, w/2), math.Min(ry, h/2)}}}
}

func (m *model) ellipse(n *Node) []mOp {
	cx, cy := m.lengthAttr(n, "cx", 'w'), m.lengthAttr(n, "cy", 'h')
	var rx, ry float64
	if n.Name == "circle" {
		_, a := n.get("rx")
		_, b := n.get("ry")
		if a || b {
			unspec("circle with rx")
		}
		rx = m.lengthAttr(n, "r", 'd')
		ry = rx
	} else {
		if _, a := n.get("r"); a {
			unspec("ellipse with r")
		}
		rx, ry = m.lengthAttr(n, "rx", 'w'), m.lengthAttr(n, "ry", 'h')
	}
	if rx == 0 || ry == 0 {
		return nil
	}
	if rx < 0 || ry < 0 {
		unspec("negative radius")
	}
	return []mOp{{'E', []float64{cx, cy, rx, ry}}}
}

func (m *model) poly(n *Node) []mOp {
	v, ok := n.get("points")
	if !ok {
		return nil
	}
	ns, ok := numberList(v)
	if !ok {
		unspec("points %q", v)
	}
	if len(ns)%2 != 0 {
		mustFail("odd number of coordinates")
	}
	if len(ns) < 4 {
		return nil
	}
	var ops []mOp
	for i := 0; i < len(ns); i += 2 {
		k := byte('L')
		if i == 0 {
			k = 'M'
		}
		ops = append(ops, mOp{k, []float64{ns[i], ns[i+1]}})
	}
	if n.Name == "polygon" {
		ops = append(ops, mOp{'Z', nil})
	}
	return ops
}

var (
	numRE = regexp.MustCompile(`^[+-]?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:[eE][+-]?[0-9]+)?`)
	sepRE = regexp.MustCompile(`^[ \t\r\n]*,?[ \t\r\n]*`)
)

// scanNumber reads the number at the start of s. odd tells that there is
// something the grammar allows and the properties leave open.
func scanNumber(s string) (f float64, rest string, ok, odd bool) {
	t := numRE.FindString(s)
	if t == "" {
		return 0, s, false, false
	}
	f, err := strconv.ParseFloat(t, 64)
	if err != nil || math.Abs(f) > 1e8 {
		return 0, s, false, true
	}
	return f, s[len(t):], true, false
}

// numberList reads numbers separated by white space and commas; ok is false
// for anything else.
func numberList(s string) ([]float64, bool) {
	var out []float64
	s = strings.Trim(s, " \t\r\n")
	for s != "" {
		f, rest, ok, odd := scanNumber(s)
		if !ok || odd {
			return nil, false
		}
		out = append(out, f)
		t := rest[len(sepRE.FindString(rest)):]
		if t == "" && strings.Contains(rest, ",") {
			return nil, false
		}
		s = t
	}
	return out, true
}

var params = map[byte]int{'M': 2, 'L': 2, 'H': 1, 'V': 1, 'C': 6, 'S': 4, 'Q': 4, 'T': 2, 'A': 7, 'Z': 0}

func isCommandLetter(c byte) bool {
	return (c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') && c != 'e' && c != 'E'
}

// path interprets path data.
func (m *model) path(d string) []mOp {
	var ops []mOp
	var cx, cy, sx, sy float64 // current and start point
	var qx, qy float64         // last control point
	last := byte(0)            // upper case of the last command
	closed, started := false, false
	s := strings.Trim(d, " \t\r\n")
	for s != "" {
		c := s[0]
		if !isCommandLetter(c) {
			unspec("path data %q", clip(s, 20))
		}
		s = s[1:]
		var ns []float64
		up := c &^ 0x20
		rel := c != up
		np, known := params[up]
		for {
			t := s[len(sepRE.FindString(s)):]
			if strings.Contains(s[:len(s)-len(t)], ",") && len(ns) == 0 {
				unspec("comma after command")
			}
			if t == "" || isCommandLetter(t[0]) {
				if strings.Contains(s[:len(s)-len(t)], ",") {
					unspec("comma before command")
				}
				s = t
				break
			}
			if up == 'A' && known && (len(ns)%7 == 3 || len(ns)%7 == 4) {
				if t[0] != '0' && t[0] != '1' {
					unspec("arc flags")
				}
				ns = append(ns, float64(t[0]-'0'))
				s = t[1:]
				continue
			}
			f, rest, ok, odd := scanNumber(t)
			if !ok || odd {
				unspec("path data %q", clip(t, 20))
			}
			ns = append(ns, f)
			s = rest
		}
		if !known {
			m.unsupported(string(c))
			if last == 'C' || last == 'S' || last == 'Q' || last == 'T' {
				last = 'X'
			}
			continue
		}
		if !started && up != 'M' {
			unspec("path without move")
		}
		if up == 'Z' {
			if len(ns) != 0 {
				mustFail("parameters of close")
			}
		} else if len(ns) == 0 || len(ns)%np != 0 {
			mustFail("%d parameters of %c", len(ns), c)
		}
		if closed && up != 'M' && up != 'Z' {
			ops = append(ops, mOp{'M', []float64{sx, sy}})
			closed = false
		}
		if up == 'Z' {
			if closed {
				continue // closing again changes nothing
			}
			ops = append(ops, mOp{'Z', nil})
			cx, cy = sx, sy
			closed = true
			last = 'Z'
			continue
		}
		for i := 0; i < len(ns); i += np {
			p := append([]float64(nil), ns[i:i+np]...)
			if rel {
				switch up {
				case 'H':
					p[0] += cx
				case 'V':
					p[0] += cy
				case 'A':
					p[5] += cx
					p[6] += cy
				default:
					for j := 0; j < np; j += 2 {
						p[j] += cx
						p[j+1] += cy
					}
				}
			}
			switch up {
			case 'M':
				if i == 0 {
					ops = append(ops, mOp{'M', p})
					sx, sy = p[0], p[1]
					started, closed = true, false
				} else {
					ops = append(ops, mOp{'L', p})
				}
				cx, cy = p[0], p[1]
			case 'L':
				ops = append(ops, mOp{'L', p})
				cx, cy = p[0], p[1]
			case 'H':
				cx = p[0]
				ops = append(ops, mOp{'L', []float64{cx, cy}})
			case 'V':
				cy = p[0]
				ops = append(ops, mOp{'L', []float64{cx, cy}})
			case 'C':
				ops = append(ops, mOp{'C', p})
				qx, qy, cx, cy = p[2], p[3], p[4], p[5]
			case 'S':
				x, y := cx, cy
				if last == 'C' || last == 'S' {
					x, y = 2*cx-qx, 2*cy-qy
				} else if last == 'X' {
					unspec("smooth after unknown command")
				}
				ops = append(ops, mOp{'C', []float64{x, y, p[0], p[1], p[2], p[3]}})
				qx, qy, cx, cy = p[0], p[1], p[2], p[3]
			case 'Q':
				ops = append(ops, mOp{'Q', p})
				qx, qy, cx, cy = p[0], p[1], p[2], p[3]
			case 'T':
				x, y := cx, cy
				if last == 'Q' || last == 'T' {
					x, y = 2*cx-qx, 2*cy-qy
				} else if last == 'X' {
					unspec("smooth after unknown command")
				}
				ops = append(ops, mOp{'Q', []float64{x, y, p[0], p[1]}})
				qx, qy, cx, cy = x, y, p[0], p[1]
			case 'A':
				if p[5] != cx || p[6] != cy {
					if p[0] == 0 || p[1] == 0 {
						ops = append(ops, mOp{'L', []float64{p[5], p[6]}})
					} else {
						if math.Hypot(p[5]-cx, p[6]-cy) < 1e-6*math.Max(math.Abs(p[0]), math.Abs(p[1])) {
							unspec("arc to almost the current point")
						}
						if x, y, a, b, _, _ := arcCenter(math.Abs(p[0]), math.Abs(p[1]), p[2]*math.Pi/180, p[3] != 0, p[4] != 0, cx, cy, p[5], p[6]); !(math.Abs(x)+math.Abs(y)+a+b < 1e7) {
							unspec("arc out of range")
						} else if math.Min(a, b) < 0.1 {
							unspec("arc too small") // not much more than the resolution
						}
						ops = append(ops, mOp{'A', []float64{math.Abs(p[0]), math.Abs(p[1]), p[2], p[3], p[4], cx, cy, p[5], p[6]}})
					}
				}
				cx, cy = p[5], p[6]
			}
			last = up
			if !m.wide && (math.Abs(cx) > 1e7 || math.Abs(cy) > 1e7 || strings.IndexByte("CSQT", up) >= 0 && (math.Abs(qx) > 1e7 || math.Abs(qy) > 1e7)) {
				unspec("coordinates out of range")
			}
		}
	}
	return ops
}

var (
	hexRE  = regexp.MustCompile(`^#([0-9a-fA-F]{3}|[0-9a-fA-F]{6})$`)
	rgbRE  = regexp.MustCompile(`^rgb\(\s*([+-]?[0-9]+)\s*,\s*([+-]?[0-9]+)\s*,\s*([+-]?[0-9]+)\s*\)$`)
	rgbpRE = regexp.MustCompile(`^rgb\(\s*([+-]?[0-9]+)%\s*,\s*([+-]?[0-9]+)%\s*,\s*([+-]?[0-9]+)%\s*\)$`)
)

// colour gives the colour of a string, nil for none.
func parseColour(s string) *color.NRGBA {
	if c, ok := colornames.Map[strings.ToLower(s)]; ok {
		return &color.NRGBA{c.R, c.G, c.B, 255}
	}
	clampC := func(f float64) uint8 { return uint8(math.Max(0, math.Min(255, f))) }
	if strings.ToLower(s) == "none" {
		return nil
	}
	if g := hexRE.FindStringSubmatch(s); g != nil {
		h := g[1]
		if len(h) == 3 {
			h = string([]byte{h[0], h[0], h[1], h[1], h[2], h[2]})
		}
		n, _ := strconv.ParseUint(h, 16, 32)
		return &color.NRGBA{uint8(n >> 16), uint8(n >> 8), uint8(n), 255}
	}
	for i, re := range []*regexp.Regexp{rgbRE, rgbpRE} {
		if g := re.FindStringSubmatch(s); g != nil {
			var c [3]uint8
			for j := range c {
				n, _ := strconv.ParseFloat(g[j+1], 64)
				if i == 1 {
					n = math.Floor(n * 255 / 100)
				}
				c[j] = clampC(n)
			}
			return &color.NRGBA{c[0], c[1], c[2], 255}
		}
	}
	l := strings.ToLower(s)
	switch {
	case badRGB.MatchString(s), innerSpace.MatchString(s):
		mustFail("colour %q", s)
	case strings.Contains(s, "("), l == "inherit", l == "currentcolor", l == "transparent", l == "context-fill", l == "context-stroke",
		strings.HasPrefix(l, "url"), len(s) > 0 && strings.TrimSpace(s) != s, strings.Contains(s, " "), strings.Contains(s, "/"),
		strings.HasPrefix(s, "#") && (len(s) == 5 || len(s) == 9) && hexDigits.MatchString(s[1:]): // CSS 4 with alpha
		unspec("colour %q", s)
	}
	mustFail("colour %q", s)
	return nil
}

var (
	hexDigits = regexp.MustCompile(`^[0-9a-fA-F]+$`)
	// letters and digits with white space between, but no paint with a fallback
	innerSpace = regexp.MustCompile(`^#?[0-9a-zA-Z]+ [0-9a-zA-Z]+$`)
	// rgb() with a wrong number of components, or components that are empty or words
	badRGB = regexp.MustCompile(`^rgb\(\s*\)$|^rgb\(\s*[0-9]+\s*(,\s*[0-9]+\s*){0,1}\)$|^rgb\(\s*[0-9]+\s*(,\s*[0-9]+\s*){3,}\)$|^rgb\([^,)]*,\s*,[^,)]*\)$|^rgb\(\s*,[^,)]*,[^,)]*\)$|^rgb\([^,)]*,[^,)]*,\s*\)$|^rgb\([a-z]+,[a-z]+,[a-z]+\)$|^rgb\(\s*%|,\s*%\s*[,)]`)
	urlRE  = regexp.MustCompile(`^url\(\s*#([^()'"\s]+)\s*\)$`)
)

func (m *model) paint(v string, old mPaint) mPaint {
	if g := urlRE.FindStringSubmatch(v); g != nil {
		gr := m.grads[g[1]]
		if gr == nil {
			return mPaint{kind: pAny}
		}
		// stops without colour take the paint being replaced
		def := color.NRGBA{0, 0, 0, 255}
		switch old.kind {
		case pColor:
			def = old.c
		case pGrad:
			for _, s := range old.g.stops {
				if s.c != nil {
					def = *s.c
					break
				}
			}
		case pAny:
			return mPaint{kind: pAny}
		}
		cp := *gr
		cp.stops = append([]mStop(nil), gr.stops...)
		for i := range cp.stops {
			if cp.stops[i].c == nil {
				d := def
				cp.stops[i].c = &d
			}
		}
		return mPaint{kind: pGrad, g: &cp}
	}
	if strings.HasPrefix(strings.ToLower(v), "url") {
		return mPaint{kind: pAny}
	}
	if c := parseColour(v); c != nil {
		return mPaint{kind: pColor, c: *c}
	}
	return mPaint{}
}

var (
	capWords  = map[string]svg.CapMode{"butt": svg.ButtCap, "round": svg.RoundCap, "square": svg.SquareCap, "cubic": svg.CubicCap, "quadratic": svg.QuadraticCap}
	joinWords = map[string]svg.JoinMode{"miter": svg.Miter, "miter-clip": svg.MiterClip, "arc-clip": svg.ArcClip, "round": svg.Round, "arc": svg.Arc, "bevel": svg.Bevel}
	gapWords  = map[string]svg.GapMode{"flat": svg.FlatGap, "round": svg.RoundGap, "cubic": svg.CubicGap, "quadratic": svg.QuadraticGap}
)

// declarations lists the style settings of an element, later ones winning.
func declarations(n *Node) [][2]string {
	var out, st [][2]string
	for _, a := range n.Attrs {
		if a.K == "style" {
			for _, d := range strings.Split(a.V, ";") {
				i := strings.Index(d, ":")
				if i < 0 {
					continue
				}
				st = append(st, [2]string{strings.ToLower(strings.TrimSpace(d[:i])), strings.TrimSpace(d[i+1:])})
			}
			continue
		}
		out = append(out, [2]string{a.K, strings.TrimSpace(a.V)})
	}
	return append(out, st...)
}

// number is what is not a length: nothing is said about invalid ones.
func (m *model) number(s string) (f float64, unit string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(stopEval); ok {
				panic(stopEval{vUnspec, e.why})
			}
			panic(r)
		}
	}()
	return m.lengthParts(s)
}

func (m *model) opacity(s string) float64 {
	if strings.HasSuffix(strings.TrimSpace(s), "%") {
		s = strings.TrimSpace(s)
		f, unit := m.number(s[:len(s)-1])
		if unit != "" {
			unspec("opacity %q", s)
		}
		return math.Max(0, math.Min(1, f/100))
	}
	f, unit := m.number(s)
	if unit != "" {
		unspec("opacity %q", s)
	}
	return math.Max(0, math.Min(1, f))
}

func (m *model) style(n *Node, parent mStyle) mStyle {
	st := parent
	seen := map[string]bool{}
	for _, d := range declarations(n) {
		k, v := d[0], d[1]
		switch k {
		case "fill":
			st.fill = m.paint(v, st.fill)
		case "stroke":
			st.line = m.paint(v, st.line)
		case "fill-rule":
			switch v {
			case "evenodd":
				st.nonZero = false
			case "nonzero":
				st.nonZero = true
			default:
				m.unsupported(v)
			}
		case "stroke-linecap":
			if c, ok := capWords[v]; ok {
				st.cap = c
			} else {
				m.unsupported(v)
			}
		case "stroke-leadlinecap":
			if c, ok := capWords[v]; ok {
				st.lead = c
			} else {
				m.unsupported(v)
			}
		case "stroke-linejoin":
			if c, ok := joinWords[v]; ok {
				st.join = c
			} else {
				m.unsupported(v)
			}
		case "stroke-linegap":
			if c, ok := gapWords[v]; ok {
				st.gap = c
			} else {
				m.unsupported(v)
			}
		case "stroke-miterlimit":
			f, unit := m.number(v)
			if unit != "" {
				unspec("miter limit %q", v)
			}
			st.miter = f
		case "stroke-width":
			st.width = m.length(v, 'd')
		case "stroke-dashoffset":
			st.dashOff = m.length(v, 'd')
		case "stroke-dasharray":
			st.dash = m.dashes(v)
		case "opacity":
			f := m.opacity(v)
			if seen[k] {
				st.fillOpAny, st.lineOpAny = true, true
			}
			st.fillOp *= f
			st.lineOp *= f
		case "fill-opacity":
			st.fillOp *= m.opacity(v)
			if st.fillOpSet { // replaces or multiplies?
				st.fillOpAny = true
			}
			st.fillOpSet = true
		case "stroke-opacity":
			st.lineOp *= m.opacity(v)
			if st.lineOpSet {
				st.lineOpAny = true
			}
			st.lineOpSet = true
		case "transform":
			t, ta := parseTransform(v)
			st.t, st.ta = parent.t.mul(t), parent.ta.mul(ta)
		case "mask":
			if v == "" {
				unspec("empty mask")
			}
			if v == "none" {
				break
			}
			g := urlRE.FindStringSubmatch(v)
			if g == nil || strings.Contains(v, " ") {
				unspec("mask %q", v)
			}
			if seen[k] {
				unspec("two masks")
			}
			st.masks = append(st.masks[:len(st.masks):len(st.masks)], g[1])
		}
		seen[k] = true
	}
	return st
}

func (m *model) dashes(v string) []float64 {
	if v == "none" {
		return nil
	}
	f := strings.FieldsFunc(v, func(r rune) bool { return strings.ContainsRune(" \t\r\n,", r) })
	var out []float64
	var sum float64
	for _, s := range f {
		d := m.length(s, 'd')
		if d < 0 {
			return nil
		}
		sum += d
		out = append(out, d)
	}
	if sum == 0 {
		return nil
	}
	if len(out)%2 == 1 {
		out = append(out, out...)
	}
	return out
}

var funcRE = regexp.MustCompile(`^([a-zA-Z]+)[ \t\r\n]*\(([^()]*)\)`)

func parseTransform(v string) (t, ta mat) {
	t, ta = ident, ident
	s := strings.Trim(v, " \t\r\n")
	for s != "" {
		g := funcRE.FindStringSubmatch(s)
		if g == nil {
			if strings.Count(s, "(") != strings.Count(s, ")") || strings.HasPrefix(s, ",") {
				unspec("transform %q", v)
			}
			mustFail("transform %q", v)
		}
		ns, ok := numberList(g[2])
		if !ok {
			unspec("transform %q", v)
		}
		var f mat
		n := len(ns)
		switch {
		case g[1] == "translate" && n == 1:
			f = mat{1, 0, 0, 1, ns[0], 0}
		case g[1] == "translate" && n == 2:
			f = mat{1, 0, 0, 1, ns[0], ns[1]}
		case g[1] == "scale" && n == 1:
			f = mat{ns[0], 0, 0, ns[0], 0, 0}
		case g[1] == "scale" && n == 2:
			f = mat{ns[0], 0, 0, ns[1], 0, 0}
		case g[1] == "rotate" && (n == 1 || n == 3):
			sin, cos := math.Sincos(ns[0] * math.Pi / 180)
			f = mat{cos, sin, -sin, cos, 0, 0}
			if n == 3 {
				f = mat{1, 0, 0, 1, ns[1], ns[2]}.mul(f).mul(mat{1, 0, 0, 1, -ns[1], -ns[2]})
			}
		case g[1] == "skewX" && n == 1:
			f = mat{1, 0, math.Tan(ns[0] * math.Pi / 180), 1, 0, 0}
		case g[1] == "skewY" && n == 1:
			f = mat{1, math.Tan(ns[0] * math.Pi / 180), 0, 1, 0, 0}
		case g[1] == "matrix" && n == 6:
			copy(f[:], ns)
		default:
			switch strings.ToLower(g[1]) {
			case "translate", "scale", "rotate", "skewx", "skewy", "matrix":
				if strings.ToLower(g[1]) == g[1] || g[1] == "skewX" || g[1] == "skewY" {
					if g[1] != "skewx" && g[1] != "skewy" {
						mustFail("transform %q", g[0])
					}
				}
				unspec("transform %q", g[0])
			}
			mustFail("transform %q", g[0])
		}
		t = t.mul(f)
		ta = ta.mul(f.abs())
		for _, x := range ta {
			if !(x < 1e12) {
				unspec("transform out of range")
			}
		}
		s = s[len(g[0]):]
		sep := sepRE.FindString(s)
		if len(sep) == len(s) && strings.Contains(sep, ",") {
			unspec("transform %q", v)
		}
		s = s[len(sep):]
	}
	return t, ta
}

func (m *model) gradient(n *Node) *mGrad {
	g := &mGrad{radial: n.Name == "radialGradient", m: ident, ma: ident, box: m.doc.viewBox}
	if v, ok := n.get("gradientUnits"); ok {
		switch strings.TrimSpace(v) {
		case "userSpaceOnUse":
			g.user = true
		case "objectBoundingBox":
		default:
			unspec("gradientUnits %q", v)
		}
	}
	if v, ok := n.get("spreadMethod"); ok {
		switch strings.TrimSpace(v) {
		case "pad":
		case "reflect":
			g.spread = svg.ReflectSpread
		case "repeat":
			g.spread = svg.RepeatSpread
		default:
			unspec("spreadMethod %q", v)
		}
	}
	if v, ok := n.get("gradientTransform"); ok {
		g.m, g.ma = parseTransform(v)
	}
	if _, ok := n.get("href"); ok {
		unspec("gradient with href")
	}
	names, refs, defs := []string{"x1", "y1", "x2", "y2"}, "whwh", []string{"0%", "0%", "100%", "0%"}
	if g.radial {
		names, refs, defs = []string{"cx", "cy", "fx", "fy", "r", "fr"}, "whwhdd", []string{"50%", "50%", "", "", "50%", "0%"}
	}
	for i, k := range names {
		v, ok := n.get(k)
		if !ok {
			if v = defs[i]; v == "" { // the focus is the centre
				g.dir[i] = g.dir[i-2]
				continue
			}
		}
		f, unit := m.number(v)
		if unit == "%" {
			if g.user {
				f = m.length(v, refs[i])
			} else {
				f /= 100
			}
		}
		g.dir[i] = f
	}
	return g
}

func (m *model) stop(n *Node, g *mGrad) {
	s := mStop{opacity: 1}
	var offset, col, op string
	for _, a := range n.Attrs {
		switch a.K {
		case "offset":
			offset = a.V
		case "stop-color":
			col = a.V
		case "stop-opacity":
			op = a.V
		}
		if a.V == "" && a.K == "stop-color" {
			mustFail("empty %s", a.K)
		}
		if a.V == "" && (a.K == "offset" || a.K == "stop-opacity") {
			unspec("empty %s", a.K)
		}
	}
	for _, a := range n.Attrs {
		if a.K != "style" {
			continue
		}
		for _, d := range strings.Split(a.V, ";") {
			if i := strings.Index(d, ":"); i >= 0 {
				if k := strings.ToLower(strings.TrimSpace(d[:i])); strings.TrimSpace(d[i+1:]) == "" && (k == "stop-color" || k == "stop-opacity") {
					if k == "stop-color" {
						mustFail("empty %s", k)
					}
					unspec("empty %s", k)
				}
				switch strings.ToLower(strings.TrimSpace(d[:i])) {
				case "stop-color":
					if col != "" {
						parseColour(col)
					}
					col = strings.TrimSpace(d[i+1:])
				case "stop-opacity":
					op = strings.TrimSpace(d[i+1:])
				}
			}
		}
	}
	if offset != "" {
		o := strings.TrimSpace(offset)
		d := 1.0
		if strings.HasSuffix(o, "%") {
			o, d = o[:len(o)-1], 100
		}
		f, unit := m.number(o)
		if unit != "" {
			unspec("offset %q", offset)
		}
		s.offset = f / d
	}
	if col != "" {
		s.c = parseColour(col)
	}
	if a, ok := n.get("stop-opacity"); ok {
		m.opacity(a)
	}
	if op != "" {
		s.opacity = m.opacity(op)
	}
	g.stops = append(g.stops, s)
}

func (m *model) use(n *Node, st mStyle, pl place) {
	x, y := m.lengthAttr(n, "x", 'w'), m.lengthAttr(n, "y", 'h')
	href := ""
	for _, a := range n.Attrs {
		if a.K == "href" || a.K == "xlink:href" {
			if href != "" {
				unspec("two references")
			}
			href = a.V
		}
	}
	if !strings.HasPrefix(href, "#") {
		mustFail("use of %q", href)
	}
	def := m.defs[href[1:]]
	for _, u := range m.uses {
		if u == href {
			mustFail("circular use of %q", href)
		}
	}
	if def == nil {
		if m.allIDs[href[1:]] > 0 {
			unspec("use of %q, which is not a definition or defined later", href)
		}
		mustFail("use of unknown %q", href)
	}
	m.uses = append(m.uses, href)
	st.t = st.t.mul(mat{1, 0, 0, 1, x, y})
	st.ta = st.ta.mul(mat{1, 0, 0, 1, math.Abs(x), math.Abs(y)})
	pl.used = true
	m.used(def, st, pl)
	m.uses = m.uses[:len(m.uses)-1]
}

// used draws a definition.
func (m *model) used(n *Node, parent mStyle, pl place) {
	switch n.Name {
	case "defs", "title", "desc", "linearGradient", "radialGradient", "mask", "":
		if n.Name == "defs" || n.Name == "title" || n.Name == "desc" {
			m.style(n, parent)
		}
		return
	case "g", "svg", "a", "switch", "foo", "GROUP":
		if m.steps++; m.steps > 200000 {
			unspec("too large")
		}
		st := m.style(n, parent)
		if containers[n.Name] {
			m.unsupported(localName(n.Name))
		}
		for _, k := range n.Kids {
			m.used(k, st, pl)
		}
		return
	}
	c := &Node{Name: n.Name, Attrs: n.Attrs}
	if !supported[n.Name] {
		c = n
	} else {
		for _, k := range n.Kids {
			if k.Name != "" && k.Name != "title" && k.Name != "desc" {
				unspec("%s in %s", k.Name, n.Name)
			}
		}
	}
	m.element(c, parent, pl)
}
