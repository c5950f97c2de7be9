package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
)

// rich sets the knobs for documents that use everything.
func rich(r *rand.Rand) *gen {
	g := newGen(r)
	g.budget = 4 + r.Intn(20)
	g.pStyle, g.pTrans, g.pGroup = 0.4, 0.15, 0.2
	g.pDefs, g.pUse, g.pMask, g.pMasked = 0.08, 0.12, 0.06, 0.1
	g.pGrad, g.pGradUse, g.pTitle, g.pText = 0.08, 0.3, 0.05, 0.05
	return g
}

var hostileValues = []string{"", " ", "0", "-1", "1e999", "-1e999", "NaN", "nan", "Inf", "-inf", "+Inf", "infinity", "1e308", "-1e308", "1e-999", "9223372036854775807", "2147483648",
	"33554432", "-33554433", "0x1p10", "1_000", "e", "E", "ee", "e5", "1e", "1e+", "+", "-", ".", "..", "1.2.3.4", "--1", "+-1", "%", "%%", "5%", "-5%", "px", "1px", "1e5px",
	"url(", "url()", "url(#", "url(#)", "url(#g", "#", "##", "#a", "none", "inherit", ")", "(", "()", "rotate", "rotate(", "rotate()", "matrix(1 2 3", "scale(1)(2)", ")(", "translate(1 2))", "rotate(1 2 3))(",
	"M", "Z", "z", "zz", "MZ", "M0", "M0,0", "M0,0L", "A", "M0 0A", "M0 0A1 1 0 1 1 5 5", "M0 0a0 0 0 0 0 0 0", "L5 5", "M0 0 L1e999 1", "MNaN,1", "T1 1", "S1 1 2 2", "m z m z", "M 1 1 Z L 2 2 Z", "M\x00", "é", "M é 1",
	"M0 0A1e200 1e-200 0 0 0 1 1", "M0 0 A 1e300 1e300 0 1 1 1e300 1", "M0 0 A nan nan nan 1 1 nan nan",
	"rgb", "rgb(", "rgb()", "rgb(1", "rgb(1,2,3", "rgb(%%%)", "rgb(1,2,3,4,5)", "rgb(,,)", "#fff", "#ffff", "#\u00e9\u00e9", "#\u65e5\u672c\u8a9e", "#-1-1-1", "\u212a", "\ufffd",
	"0,0", "1,2,3", "1 2 3 4 5", "1,,2", ",", ",,", "0 0 0 0", "0 0 -5 -5", "1e999 0 0 0", "stroke", ":", ";", "a:b:c", ":::;;;:", "fill:", ":red", "fill", "fill:;stroke:;", "fill:url(#a;b)", "\u0000", "\ufeff", "\u2028",
	"butt", "round", "evenodd", "userSpaceOnUse", "objectBoundingBox", "reflect", "1,2,0x", "1e1e1", "1e-", "-e-", "++", "5-5", "5+5", "5-", "5e+5-5e-5", ".5.5.5", "-.5-.5", "1.e5"}

var hostileNames = []string{"svg", "g", "defs", "use", "mask", "path", "rect", "circle", "ellipse", "line", "polyline", "polygon", "stop", "linearGradient", "radialGradient", "title", "desc", "foo", "text", "style", "symbol"}

var hostileAttrs = []string{"id", "href", "xlink:href", "d", "points", "x", "y", "width", "height", "rx", "ry", "cx", "cy", "r", "fx", "fy", "fr", "x1", "y1", "x2", "y2", "viewBox", "fill", "stroke", "style", "transform", "mask",
	"stroke-dasharray", "stroke-dashoffset", "stroke-width", "stroke-miterlimit", "opacity", "fill-opacity", "stroke-opacity", "fill-rule", "stroke-linecap", "stroke-linejoin", "stroke-linegap", "stroke-leadlinecap",
	"gradientUnits", "gradientTransform", "spreadMethod", "offset", "stop-color", "stop-opacity"}

// mutateTree changes a tree in place, without regard to meaning.
func mutateTree(root *Node, r *rand.Rand) {
	var all []*Node
	root.walk(func(n *Node) {
		if n.Name != "" {
			all = append(all, n)
		}
	})
	for i := 1 + r.Intn(4); i > 0; i-- {
		n := all[r.Intn(len(all))]
		switch r.Intn(9) {
		case 0, 1, 2:
			if len(n.Attrs) > 0 {
				n.Attrs[r.Intn(len(n.Attrs))].V = hostileValues[r.Intn(len(hostileValues))]
			}
		case 3, 4:
			n.set(hostileAttrs[r.Intn(len(hostileAttrs))], hostileValues[r.Intn(len(hostileValues))])
		case 5:
			n.Name = hostileNames[r.Intn(len(hostileNames))]
		case 6: // another place
			m := all[r.Intn(len(all))]
			if m != n && m.size() < 200 && len(all) < 5000 {
				n.Kids = append(n.Kids, m.clone())
			}
		case 7:
			if len(n.Kids) > 0 {
				j := r.Intn(len(n.Kids))
				n.Kids = append(n.Kids[:j:j], n.Kids[j+1:]...)
			}
		case 8: // a use of any id
			var ids []string
			root.walk(func(x *Node) {
				if id, ok := x.get("id"); ok {
					ids = append(ids, id)
				}
			})
			if len(ids) > 0 {
				id := ids[r.Intn(len(ids))]
				switch r.Intn(3) {
				case 0:
					n.Kids = append(n.Kids, el("use", "href", "#"+id))
				case 1:
					n.set("mask", "url(#"+id+")")
				default:
					n.set("fill", "url(#"+id+")")
				}
			}
		}
	}
}

var tokens = []string{"<", ">", "/>", "</", "<svg>", "</svg>", "<g>", "</g>", "<defs>", "</defs>", "<mask>", "</mask>", "<use href='#a'/>", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "&", "&lt;", "&#0;", "&#x10ffff;", "&foo;", "\"", "'", "=",
	"<path d='", "<title>", "</title>", "<stop/>", "<!DOCTYPE svg>", "<?xml version=\"1.0\" encoding=\"x\"?>", "\x00", "\xff", "\xc3", "\xed\xa0\x80", "id='a'", " id=\"\"", "e", "-", ".", "1e9", "#", "%", ";", ":", "(", ")", ","}

// mutateBytes changes the text of a document.
func mutateBytes(b []byte, r *rand.Rand) []byte {
	b = append([]byte(nil), b...)
	for i := 1 + r.Intn(5); i > 0 && len(b) > 0; i-- {
		p := r.Intn(len(b))
		switch r.Intn(8) {
		case 0:
			b[p] ^= 1 << uint(r.Intn(8))
		case 1:
			b[p] = byte(r.Intn(256))
		case 2:
			q := p + 1 + r.Intn(20)
			if q > len(b) {
				q = len(b)
			}
			b = append(b[:p:p], b[q:]...)
		case 3:
			b = b[:p]
		case 4, 5:
			b = append(b[:p:p], append([]byte(tokens[r.Intn(len(tokens))]), b[p:]...)...)
		case 6:
			q := p + 1 + r.Intn(60)
			if q > len(b) {
				q = len(b)
			}
			x := append([]byte(nil), b[p:q]...)
			at := r.Intn(len(b))
			b = append(b[:at:at], append(x, b[at:]...)...)
		case 7:
			b = bytes.Replace(b, []byte{b[p]}, []byte(tokens[r.Intn(len(tokens))]), 1+r.Intn(3))
		}
		if len(b) > 1<<20 {
			b = b[:1<<20]
		}
	}
	return b
}

// cyclic makes definitions that refer to each other.
func cyclic(r *rand.Rand) string {
	n := 1 + r.Intn(5)
	var b strings.Builder
	id := func() string { return fmt.Sprintf("#d%d", r.Intn(n)) }
	b.WriteString("<svg>")
	for rounds := 1 + r.Intn(2); rounds > 0; rounds-- {
		b.WriteString("<defs>")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "<g id='d%d' mask='url(%s)'>", i, id())
			for j := r.Intn(3); j > 0; j-- {
				switch r.Intn(4) {
				case 0:
					b.WriteString("<rect width='1' height='2'/>")
				case 1:
					fmt.Fprintf(&b, "<g id='e%d'><use href='%s'/></g>", r.Intn(3), id())
				case 2:
					fmt.Fprintf(&b, "<use href='%s'/>", id())
				default:
					fmt.Fprintf(&b, "<use xlink:href='#e%d'/>", r.Intn(3))
				}
			}
			b.WriteString("</g>")
		}
		b.WriteString("</defs>")
	}
	fmt.Fprintf(&b, "<mask id='d0'><use href='%s'/><rect mask='url(#d0)' width='1' height='2'/></mask><use href='%s'/><use href='#e1'/></svg>", id(), id())
	return b.String()
}

// giant makes large documents of one kind.
func giant(k int, n int) string {
	var b strings.Builder
	rep := func(s string, n int) {
		for i := 0; i < n; i++ {
			b.WriteString(s)
		}
	}
	b.WriteString("<svg viewBox='0 0 100 100'>")
	switch k % 20 {
	case 0:
		rep("<g fill='red'>", n/4)
		rep("</g>", n/4)
	case 1:
		rep("<rect width='5' height='6' rx='1'/>", n/4)
	case 2:
		b.WriteString("<path d='M0 0")
		rep("L1,2 3,4", n)
		b.WriteString("'/>")
	case 3:
		b.WriteString("<path d='M0 0c")
		rep("1,2 3,4 5-6", n)
		b.WriteString("'/>")
	case 4:
		b.WriteString("<polygon points='")
		rep("1.5,2.5 ", n)
		b.WriteString("'/>")
	case 5:
		b.WriteString("<defs>")
		for i := 0; i < n/4; i++ {
			fmt.Fprintf(&b, "<g id='a%d'><rect width='1' height='1'/></g>", i)
		}
		b.WriteString("</defs><use href='#a7'/>")
	case 6:
		b.WriteString("<defs><rect id='a' width='1' height='1'/></defs>")
		rep("<use href='#a' x='5'/>", n/4)
	case 7:
		b.WriteString("<defs>")
		rep("<g>", n/4)
		b.WriteString("<rect id='a' width='1' height='1'/>")
		rep("</g>", n/4)
		b.WriteString("</defs><use href='#a'/>")
	case 8:
		b.WriteString("<linearGradient id='a'>")
		rep("<stop offset='.5' stop-color='red'/>", n/4)
		b.WriteString("</linearGradient><rect fill='url(#a)' width='1' height='1'/>")
	case 9:
		for i := 0; i < n/8; i++ {
			fmt.Fprintf(&b, "<mask id='m%d'><rect width='1' height='1'/></mask>", i)
		}
	case 10:
		b.WriteString("<rect width='1' height='1' transform='")
		rep("rotate(5) ", n)
		b.WriteString("'/>")
	case 11:
		b.WriteString("<rect width='1' height='1' stroke-dasharray='")
		rep("5 ", n)
		b.WriteString("'/>")
	case 12:
		b.WriteString("<rect width='1' height='1' style='")
		rep("fill:red;", n)
		b.WriteString("'/>")
	case 13:
		b.WriteString("<title>")
		rep("words &amp; <![CDATA[x]]> ", n/10)
		b.WriteString("</title>")
	case 14:
		b.WriteString("<path d='M0 0")
		rep("a5,6 30 0 1 7 8", n/4)
		b.WriteString("'/>")
	case 15: // a long chain of definitions
		b.WriteString("<defs><rect id='a0' width='1' height='1'/>")
		for i := 1; i < n/200; i++ {
			fmt.Fprintf(&b, "<use id='a%d' href='#a%d'/>", i, i-1)
		}
		fmt.Fprintf(&b, "</defs><use href='#a%d'/>", n/200-1)
	case 16:
		rep("<foo>", n/4)
		rep("</foo>", n/4)
	case 17:
		b.WriteString("<path d='" + strings.Repeat("Mz", n) + "'/>")
	case 18:
		b.WriteString("<path d='M" + strings.Repeat("1", n) + " 5'/><path d='M" + strings.Repeat(".1", n) + "'/>")
	case 19:
		rep("<g", 1)
		for i := 0; i < n/4; i++ {
			fmt.Fprintf(&b, " a%d='fill:red'", i)
		}
		b.WriteString("/>")
	}
	b.WriteString("</svg>")
	return b.String()
}
