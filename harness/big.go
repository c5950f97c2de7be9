package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
)

// A big document is ordinary but for one dimension, which is far beyond
// what documents usually need: limits that small documents never reach
// would show.
var bigDims = []string{"shapes", "stops", "grads", "defs", "defbody", "chain", "masks", "maskcount", "maskbody", "titles", "textlen", "textparts", "path", "transforms", "decls", "ids", "depth", "attrs", "dashes", "points"}

func bigDoc(r *rand.Rand, dims ...string) *Node {
	g := newGen(r)
	g.units, g.noEmpty = 0, true
	g.pStyle, g.pTrans = 0.2, 0
	if len(dims) == 0 {
		dims = bigDims
	}
	// from dozens to many hundreds
	many := func(max int) int {
		return int(20 * math.Pow(float64(max)/20, r.Float64()))
	}
	root := doc()
	if r.Intn(2) == 0 {
		g.style(root)
	}
	shape := func() *Node { return el("line", "x1", g.num(g.val()), "y2", g.num(g.val())) }
	some := func(n int) {
		for i := r.Intn(n); i > 0; i-- {
			root.add(g.style(g.shape()))
		}
	}
	some(3)
	switch dims[r.Intn(len(dims))] {
	case "shapes":
		to := root
		n := many(4000)
		each := 1 + r.Intn(2+n/10)
		for i := 0; i < n; i++ {
			if each > n/50+1 && i%each == 0 {
				to = g.style(el("g"))
				root.add(to)
			}
			if r.Intn(10) == 0 {
				to.add(g.style(g.shape()))
			} else {
				to.add(g.style(shape()))
			}
		}
	case "stops":
		x := g.gradient()
		for i := many(1500); i > 0; i-- {
			x.add(g.stop())
		}
		id, _ := x.get("id")
		root.add(x, shape().set("stroke", "url(#"+id+")"), shape().set("fill", "url(#"+id+")"))
	case "grads":
		d := el(g.pick("defs", "g"))
		for i := many(400); i > 0; i-- {
			d.add(g.gradient())
		}
		root.add(d)
		for i, n := 0, len(g.grads); i < n; i += 1 + r.Intn(4) {
			root.add(shape().set(g.pick("fill", "stroke"), "url(#"+g.grads[i]+")"))
		}
	case "defs":
		n := many(800)
		d := el("defs")
		root.add(d)
		for i := 0; i < n; i++ {
			g.uses = 0
			if r.Intn(100) == 0 {
				d = el("defs")
				root.add(d)
			}
			s := g.style(shape())
			if r.Intn(6) == 0 {
				s = g.style(el("g")).add(s, g.style(shape()))
			}
			d.add(s.set("id", fmt.Sprintf("def-%d", i)))
		}
		for i := 0; i < n; i += 1 + r.Intn(3) {
			root.add(g.style(el("use", "href", fmt.Sprintf("#def-%d", i), "x", g.num(g.val()))))
		}
	case "defbody":
		b := g.style(el("g", "id", "big"))
		root.add(el("defs").add(g.style(shape()).set("id", "before"), b, g.style(shape()).set("id", "after")))
		to := b
		for i := many(1500); i > 0; i-- {
			if r.Intn(9) == 0 {
				to = b
				if r.Intn(2) == 0 {
					to = g.style(el("g"))
					b.add(to)
				}
			}
			to.add(g.style(shape()))
		}
		b.add(g.style(shape()).set("id", "last"))
		for _, id := range []string{"big", "after", "last", "before", "big"} {
			root.add(g.style(el("use", "href", "#"+id, "y", g.num(g.val()))))
		}
	case "chain":
		n := many(300)
		d := el("defs", "stroke", "red")
		d.add(g.style(shape()).set("id", "c0"))
		for i := 1; i <= n; i++ {
			u := g.style(el("use", "xlink:href", fmt.Sprintf("#c%d", i-1), "x", g.num(float64(r.Intn(5)))))
			switch r.Intn(4) {
			case 0:
				u = el("g").add(u)
			case 1:
				u = g.style(el("g")).add(shape(), u)
			}
			d.add(u.set("id", fmt.Sprintf("c%d", i)))
		}
		root.add(d, el("use", "href", fmt.Sprintf("#c%d", n)), el("use", "href", fmt.Sprintf("#c%d", r.Intn(n+1)), "fill", "blue"))
	case "masks": // on one shape
		n := many(200)
		for i := 0; i < 1+n/2; i++ {
			root.add(el("mask", "id", fmt.Sprintf("m%d", i), "width", "5").add(g.style(shape())))
		}
		cur := shape().set("mask", "url(#m0)")
		for i := 0; i < n; i++ {
			x := el("g").add(cur)
			if r.Intn(5) > 0 {
				x.set("mask", fmt.Sprintf("url(#m%d)", r.Intn(n)))
			}
			if r.Intn(9) == 0 {
				x.add(shape())
			}
			cur = x
		}
		root.add(cur)
	case "maskcount":
		n := many(600)
		for i := 0; i < n; i++ {
			root.add(g.style(el("mask", "id", fmt.Sprintf("m%d", i), "x", g.num(g.val()), "height", "9").add(g.style(shape()))))
		}
		for i := 0; i < n; i += 1 + r.Intn(4) {
			root.add(shape().set("mask", fmt.Sprintf("url(#m%d)", i)))
		}
	case "maskbody":
		m := el("mask", "id", "m", "width", "20", "height", "30")
		for i := many(1500); i > 0; i-- {
			m.add(g.style(shape()))
		}
		root.add(m, shape().set("mask", "url(#m)"))
	case "titles":
		for i := many(800); i > 0; i-- {
			root.add(g.textElement())
			if r.Intn(8) == 0 {
				root.add(shape().add(g.textElement()))
			}
		}
	case "textlen":
		root.add(el("title").add(text("first")))
		x := el(g.pick("title", "desc"))
		var b strings.Builder
		for n := many(200000); b.Len() < n; {
			b.WriteString(g.words())
			if r.Intn(400) == 0 {
				b.WriteString(strings.Repeat("x", r.Intn(3000)))
			}
		}
		root.add(x.add(text(b.String())), el("desc").add(text("last")))
	case "textparts":
		x := el(g.pick("title", "desc"))
		for i := many(600); i > 0; i-- {
			x.add(text(g.words()))
			if r.Intn(3) == 0 {
				x.add(el(map[string]string{"title": "desc", "desc": "title"}[x.Name]).add(text(g.words())))
			}
		}
		root.add(x)
	case "path":
		root.add(el("path", "d", g.path(many(15000), g.pick("L", "LLHVCSQTZM", "CS", "QTZM", "HV", "LZM"))))
	case "points":
		fs := make([]float64, 2*many(15000))
		for i := range fs {
			fs[i] = g.val()
		}
		root.add(el(g.pick("polygon", "polyline"), "points", g.numbers(fs)))
	case "transforms":
		var b strings.Builder
		for i := many(500); i > 0; i-- {
			switch r.Intn(4) {
			case 0:
				fmt.Fprintf(&b, "rotate(%d)", r.Intn(360))
			case 1:
				fmt.Fprintf(&b, "scale(%g)", []float64{2, 0.5, -1, 1.25, 0.8}[r.Intn(5)])
			default:
				fmt.Fprintf(&b, "translate(%d %d)", r.Intn(20), r.Intn(20)-10)
			}
			b.WriteString(g.pick(" ", "", ",", "\n"))
		}
		v := strings.TrimRight(b.String(), ", \n")
		root.add(shape().set("transform", v), el("g", "transform", v).add(shape()))
	case "decls":
		var ds []string
		for i := many(400); i > 0; i-- {
			k := styleKeys[r.Intn(len(styleKeys))]
			switch {
			case r.Intn(2) == 0:
				ds = append(ds, fmt.Sprintf("-x-%d:%d", i, r.Intn(10)))
			case strings.Contains(k, "opacity"):
			default:
				ds = append(ds, k+":"+g.styleValue(k))
			}
		}
		ds = append(ds, "fill:"+g.colour(), "stroke-width:"+g.num(g.pos()))
		root.add(shape().set("style", strings.Join(ds, ";")), el("g", "style", strings.Join(ds, "; ")).add(shape()), shape())
	case "ids":
		id := strings.Repeat(g.pick("x", "long-", "ab.", "ü"), many(3000))
		var uses []*Node
		d := el("defs")
		for _, s := range []string{"1", "2", "", "x"} {
			d.add(g.style(shape()).set("id", "d"+id+s))
			root.add(el("linearGradient", "id", "g"+id+s, "x1", g.num(g.val())).add(g.stop()), el("mask", "id", "m"+id+s).add(g.style(shape())))
			uses = append(uses, el("use", "href", "#d"+id+s), shape().set("fill", "url(#g"+id+s+")"), shape().set("mask", "url(#m"+id+s+")"))
		}
		r.Shuffle(len(uses), func(i, j int) { uses[i], uses[j] = uses[j], uses[i] })
		root.add(d).add(uses...)
	case "depth":
		cur := root
		for i := many(2500); i > 0; i-- {
			x := el("g")
			if r.Intn(8) == 0 {
				g.style(x)
			}
			cur.add(x)
			if r.Intn(8) == 0 {
				cur.add(shape())
			}
			cur = x
		}
		cur.add(g.style(g.shape()))
	case "attrs":
		n := many(300)
		x := el("rect")
		for i := 0; i < n; i++ {
			x.set(fmt.Sprintf("data-%d", i), g.words())
			if i > 0 && n/i <= 4 && r.Intn(n) == 0 || i == n/2 {
				x.set("width", "5").set("stroke", g.colour())
			}
		}
		x.set("height", g.num(1+g.pos())).set("fill", g.colour())
		root.add(x)
	case "dashes":
		n := many(1000)
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "%d%s", 1+r.Intn(30), g.pick(" ", ",", ", "))
		}
		root.add(shape().set("stroke-dasharray", strings.TrimRight(b.String(), ", ")), shape())
	}
	some(3)
	if r.Intn(2) == 0 {
		root.add(shape())
	}
	return root
}
