package main

import (
	"math/rand"
	"strconv"
	"strings"
)

// badNumbers are numbers that are cut short or run together.
var badNumbers = []string{"1e", "2E", "3e+", "4.5e-", "-", ".", "-.", "--5", "2e3e4", "-e5"}

// badList writes a list of n numbers with one that is malformed, in place of a
// number or besides them.
func (g *gen) badList(n int) string {
	var ts []string
	for i := 0; i < n; i++ {
		ts = append(ts, strconv.FormatFloat(g.val(), 'g', -1, 64))
	}
	b := badNumbers[g.r.Intn(len(badNumbers))]
	if g.r.Intn(8) == 0 {
		b = g.digits() + g.pick("e", "E", "e+", "e-", "e5e", "ee5")
	}
	i := g.r.Intn(n + 1)
	if g.r.Intn(2) == 0 && i < n {
		ts[i] = b
	} else {
		ts = append(ts[:i], append([]string{b}, ts[i:]...)...)
	}
	return strings.Join(ts, g.pick(" ", ",", ", ", "\n"))
}

// digits writes a number, maybe a long one.
func (g *gen) digits() string {
	var b strings.Builder
	b.WriteString(g.pick("", "-"))
	for i := g.tail(8, 40); i >= 0; i-- {
		b.WriteByte(byte('0' + g.r.Intn(10)))
	}
	if g.r.Intn(2) == 0 {
		b.WriteByte('.')
		for i := g.tail(4, 40); i >= 0; i-- {
			b.WriteByte(byte('0' + g.r.Intn(10)))
		}
	}
	return b.String()
}

func (g *gen) badPath() string {
	var b strings.Builder
	b.WriteString("M1 2")
	part := func(bad bool) {
		c := g.pick("M", "L", "H", "V", "C", "S", "Q", "T", "A")
		n := params[c[0]]
		if g.r.Intn(3) == 0 {
			n *= 1 + g.r.Intn(3)
		}
		if g.r.Intn(2) == 0 {
			c = strings.ToLower(c)
		}
		b.WriteString(c)
		if bad {
			b.WriteString(g.badList(n))
			return
		}
		for i := 0; i < n; i++ {
			b.WriteString(" 1")
		}
	}
	for i := g.r.Intn(4) + g.tail(1, 40); i > 0; i-- {
		part(false)
	}
	part(true)
	for i := g.r.Intn(3) + g.tail(1, 40); i > 0; i-- {
		part(false)
	}
	return b.String()
}

func (g *gen) badTransform() string {
	if g.r.Intn(3) == 0 {
		p := g.pBad
		g.pBad = 1
		defer func() { g.pBad = p }()
		return g.transform()
	}
	f := g.pick("translate", "scale", "rotate", "skewX", "skewY", "matrix")
	n := map[string]int{"translate": 1 + g.r.Intn(2), "scale": 1 + g.r.Intn(2), "rotate": 1 + 2*g.r.Intn(2), "skewX": 1, "skewY": 1, "matrix": 6}[f]
	s := f + "(" + g.badList(n) + ")"
	if g.r.Intn(8) == 0 {
		return g.pick(",scale(2)", " , rotate(3)", "scale(2),,rotate(3)", "scale(2)rotate", "scale", "scale(2", "(2)", "scale 2", "scale((2)", "scale()", "translate( )", "none(1)", "translateX(2)", "scale(2);rotate(3)", "scale(2) rotate 3")
	}
	switch g.r.Intn(4) {
	case 0:
		return s + g.pick(" ", ",", "") + "scale(2)"
	case 1:
		return "rotate(3)" + g.pick(" ", ",", "") + s
	}
	return s
}

// badValue gives a malformed value of an attribute.
func (g *gen) badValue(k string) string {
	p := g.pBad
	defer func() { g.pBad = p }()
	switch k {
	case "d":
		return g.badPath()
	case "points":
		return g.badList(2 * (1 + g.r.Intn(4)))
	case "viewBox":
		if g.r.Intn(2) == 0 {
			return g.pick("", "1", "1 2", "1 2 3", "1 2 3 4 5", "none", "0,0,1,")
		}
		return g.badList(4)
	case "transform", "gradientTransform":
		return g.badTransform()
	case "opacity", "fill-opacity", "stroke-opacity", "stop-opacity":
		return g.pick("abc", "0.5.5", "%", "half", "1 2", "--1", "1e", "0,5", ".", "5 % 5", "x%", "1e%", "nan", "inf", "-Infinity", "NaN%", "0x1")
	case "offset":
		return g.pick("abc", "0.5.5", "%", "half", "1 2", "--1", "1e", "0,5", ".", "x%", "nan", "inf", "Inf%", "0x1")
	case "mask":
		return g.pick("foo", "#m", "url(m)", "url(#m", "url()", "m", "mask1", "url(m#m)", "Url #m", "uri(#m)", "src(#m)", "mask(#m)", "#m)", "m)", ")", "nonesuch", "none none", "none url(#m", "inone")
	case "fill", "stroke", "stop-color":
		g.pBad = 3
		for {
			if s := g.colour(); s != "" {
				return s
			}
		}
	case "stroke-dasharray":
		b := ""
		for strings.TrimSpace(b) == "" || strings.ContainsAny(b, ", ") {
			b = g.badLength()
		}
		return g.pick(b, "1 "+b, b+",2", "1,"+b+" 3", "1 2 3 4 5 6 "+b, "none 2", "3 none", "1,none,2")
	case "href":
		return g.pick("def1", "nothing", "#nothing-of-that-name", "x#def1", "http://example.com/x.svg")
	}
	return g.badLength()
}

var badStyle = []string{"fill", "stroke", "stroke-width", "stroke-miterlimit", "stroke-dasharray", "stroke-dashoffset", "opacity", "fill-opacity", "stroke-opacity", "mask"}

var badAttrs = map[string][]string{
	"path": {"d", "d", "d", "d"}, "polyline": {"points", "points"}, "polygon": {"points", "points"},
	"rect": {"x", "y", "width", "height", "rx", "ry"}, "circle": {"cx", "cy", "r"}, "ellipse": {"cx", "cy", "rx", "ry"}, "line": {"x1", "y1", "x2", "y2"},
	"use": {"x", "y", "href"}, "mask": {"x", "y", "width", "height"}, "svg": {"viewBox", "viewBox", "width", "height"},
	"linearGradient": {"x1", "y1", "x2", "y2", "gradientTransform"}, "radialGradient": {"cx", "cy", "r", "fx", "fy", "fr", "gradientTransform"},
	"stop": {"offset", "stop-color", "stop-opacity"}, "g": nil,
}

// spoil makes one value of an element malformed.
func (g *gen) spoil(n *Node) string {
	ks := badAttrs[n.Name]
	var k string
	if len(ks) == 0 || g.r.Intn(3) == 0 {
		if k = "transform"; g.r.Intn(3) > 0 {
			k = badStyle[g.r.Intn(len(badStyle))]
		}
	} else {
		k = ks[g.r.Intn(len(ks))]
	}
	v := g.badValue(k)
	inStyle := false
	for _, s := range append(badStyle, "stop-color", "stop-opacity") {
		inStyle = inStyle || s == k
	}
	drop := func(name string) {
		for i := range n.Attrs {
			if n.Attrs[i].K == name {
				n.Attrs = append(n.Attrs[:i], n.Attrs[i+1:]...)
				return
			}
		}
	}
	drop("style") // nothing there takes precedence
	if k == "href" {
		drop("xlink:href")
	}
	if inStyle && !strings.ContainsAny(v, ";:") && g.r.Intn(3) == 0 {
		drop(k)
		n.set("style", g.sp()+k+g.sp()+":"+g.sp()+v+g.pick("", ";"))
	} else {
		n.set(k, v)
	}
	return n.Name + " " + k
}

// spoilXML makes XML malformed.
func spoilXML(r *rand.Rand, s string) (string, string) {
	at := func(sub string) int {
		n := strings.Count(s, sub)
		if n == 0 {
			return -1
		}
		i := 0
		for k := r.Intn(n); ; k-- {
			j := strings.Index(s[i:], sub)
			if k == 0 {
				return i + j
			}
			i += j + len(sub)
		}
	}
	cut := func(sub, by string) string {
		i := at(sub)
		if i < 0 {
			return s
		}
		return s[:i] + by + s[i+len(sub):]
	}
	old := s
	var what string
	switch r.Intn(11) {
	case 9:
		name := []string{"br", "img", "hr", "input", "link", "meta", "area", "base", "col", "frame", "param", "basefont", "isindex", "p", "li", "BR"}[r.Intn(16)]
		what, s = "element that is not closed", cut("/>", "/><"+name+">")
	case 10:
		name := []string{"nbsp", "eacute", "copy", "euro", "Auml", "hellip", "mdash", "times", "alpha"}[r.Intn(9)]
		what, s = "entity of HTML", cut("/>", "/>&"+name+";")
		if r.Intn(2) == 0 {
			s = old
			what, s = "entity of HTML in an attribute", cut("=\"", "=\"&"+name+";")
		}
	case 0:
		what, s = "end tag of another element", cut("</g>", "</h>")
	case 1:
		what, s = "missing end tag", cut("</g>", "")
	case 2:
		what, s = "element that is not closed", cut("/>", ">")
	case 3:
		what, s = "unknown entity", cut("/>", "/>&unknown;")
	case 4:
		what, s = "unknown entity in an attribute", cut("=\"", "=\"&unknown;")
	case 5:
		what, s = "value without quotes", cut("=\"0 0 100 50\"", "=00100")
	case 6:
		what, s = "end tag too many", cut("<g", "</x><g")
	case 7:
		what, s = "comment that does not end", cut("/>", "/><!-- ")
	case 8:
		what, s = "< in an attribute", cut("=\"", "=\"<")
	}
	if s == old {
		return "", s
	}
	return "XML (" + what + ")", s
}

func init() {
	register(&Check{
		ID: "C23", Quick: 300000, Deep: 2000000,
		Rule: "generated documents that parse, with one value of one element made malformed: numbers cut short in path data, point lists, view boxes and transform lists, in place of a number or besides enough of them; bad transform functions, lengths, fractions, colours and references, as attributes or style declarations; in the image, groups, used definitions, masks, gradients, stops and the root; or with XML that is not well-formed; nontrivial: the document parsed before and was compared in all modes",
		Run: func(t *T, k int, r *rand.Rand) {
			g := newGen(r)
			g.budget = 2 + r.Intn(6)
			g.pStyle, g.pTrans, g.pTitle = 0.2, 0.1, 0.05
			if r.Intn(3) == 0 {
				g.pGrad, g.pMask, g.pMasked, g.pDefs, g.pUse = 0.1, 0.1, 0.1, 0.1, 0.1
			}
			root := el("svg", "xmlns", "http://www.w3.org/2000/svg", "xmlns:xlink", "http://www.w3.org/1999/xlink", "viewBox", "0 0 100 50")
			root.add(g.content(r.Intn(4)+g.tail(1, 30), false)...)
			root.add(el("defs").add(el("g", "id", "def1").add(el("rect", "width", "3", "height", "4"))))
			var target *Node
			wrap := func(n *Node) *Node {
				for i := r.Intn(3) + g.tail(1, 12)/2; i > 0; i-- {
					n = g.style(el("g")).add(n)
				}
				return n
			}
			switch k % 8 {
			case 0, 1:
				target = g.style(g.shape())
				root.add(wrap(target))
			case 2:
				target = el("g").add(g.shape())
				root.add(wrap(target))
			case 3:
				target = g.style(g.shape())
				d := el("g", "id", "zzz").add(wrap(target))
				if r.Intn(3) == 0 {
					d = target.set("id", "zzz")
				}
				u := el("use", "href", "#zzz")
				defs := el("defs").add(d)
				for i := g.tail(1, 8); i > 0; i-- {
					id := "zzz" + strconv.Itoa(i)
					defs.add(el("g", "id", id).add(u))
					u = el("use", "href", "#"+id)
				}
				root.add(defs, wrap(u))
			case 4:
				target = g.style(g.shape())
				m := el("mask", "id", "zzz")
				for i := g.tail(1, 12); i > 0; i-- {
					m.add(g.shape())
				}
				root.add(m.add(wrap(target)))
			case 5:
				target = el(g.pick("linearGradient", "radialGradient"), "id", "zzz")
				s := el("stop", "offset", "0.5", "stop-color", "red")
				for i := r.Intn(3) + g.tail(1, 20); i > 0; i-- {
					target.add(el("stop", "offset", "0.25", "stop-color", "blue"))
				}
				target.add(s)
				for i := r.Intn(3); i > 0; i-- {
					target.add(el("stop", "stop-color", "#123", "stop-opacity", "0.5"))
				}
				x := target
				if r.Intn(2) == 0 {
					target = s
				}
				if r.Intn(2) == 0 {
					x = el("defs").add(x)
				}
				root.add(x, el("rect", "width", "1", "height", "1", "fill", "url(#zzz)"))
			case 6:
				target = el("use", "href", "#def1", "x", "5")
				root.add(wrap(target))
			case 7:
				if target = root; r.Intn(2) == 0 {
					target = el("mask", "id", "m5").add(g.shape())
					if x := target; r.Intn(2) == 0 {
						root.add(el("defs").add(x))
					} else {
						root.add(x)
					}
				}
			}
			root.add(g.content(r.Intn(3), false)...)
			for _, mode := range allModes {
				if _, err := parseString(root.plain(), mode); err != nil {
					t.Count("left open", 1)
					return
				}
			}
			var what, src string
			if r.Intn(8) == 0 {
				src = root.plain()
				if what, src = spoilXML(r, src); what == "" {
					t.Count("left open", 1)
					return
				}
			} else {
				what = g.spoil(target)
				src = root.plain()
			}
			t.Input(src)
			for _, mode := range allModes {
				if _, err := parseString(src, mode); err == nil {
					t.Failf("%s mode: no error, although the %s is malformed", modeNames[mode], what)
				}
			}
			if i := strings.Index(what, " "); i > 0 && what[:3] != "XML" {
				what = what[i+1:]
			}
			t.Count(what, 1)
			t.Eval(clip(src, 3000))
		},
	})
}
