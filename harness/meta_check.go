package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"

	svg "github.com/lafriks/go-svg"
)

// anyTree makes the tree of a document, not necessarily a sensible one.
func anyTree(r *rand.Rand, k int) *Node {
	var n *Node
	if k%250 == 177 {
		return bigDoc(r)
	}
	switch k % 4 {
	case 0:
		var err error
		f := seedFiles[r.Intn(len(seedFiles))]
		if n, err = readTree(f.data); err != nil || n.size() > 2000 {
			n = rich(r).doc()
		}
	default:
		g := rich(r)
		if r.Intn(3) == 0 {
			g.pOdd = 0.05
		}
		n = g.doc()
	}
	if k%3 == 2 {
		mutateTree(n, r)
	}
	return n
}

// closeTo reports the first difference of two values, numbers compared up to rounding.
func closeTo(a, b reflect.Value, where string) string {
	if a.IsValid() != b.IsValid() {
		return where + ": one is missing"
	}
	if !a.IsValid() {
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: %v and %v", where, a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return where + ": one is nil"
			}
			return ""
		}
		return closeTo(a.Elem(), b.Elem(), where)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if f := a.Type().Field(i); f.PkgPath == "" {
				if s := closeTo(a.Field(i), b.Field(i), where+"."+f.Name); s != "" {
					return s
				}
			}
		}
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d and %d", where, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if s := closeTo(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", where, i)); s != "" {
				return s
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d and %d", where, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			if s := closeTo(a.MapIndex(k), b.MapIndex(k), fmt.Sprintf("%s[%v]", where, k)); s != "" {
				return s
			}
		}
	case reflect.Float64:
		x, y := a.Float(), b.Float()
		if x != y && !(math.IsNaN(x) && math.IsNaN(y)) && !(math.Abs(x-y) <= 1e-9*math.Max(1, math.Abs(x))) {
			return fmt.Sprintf("%s: %v and %v", where, x, y)
		}
	default:
		if a.CanInterface() && a.Interface() != b.Interface() {
			return fmt.Sprintf("%s: %v and %v", where, a.Interface(), b.Interface())
		}
	}
	return ""
}

type notation struct {
	r       *rand.Rand
	prefix  string
	shuffle bool
}

func (x *notation) chars(s string, esc func(rune) string) string {
	var b strings.Builder
	for _, c := range s {
		p := x.r.Intn(20)
		switch {
		case c == 0xfffd:
			b.WriteRune(c)
		case p == 0:
			fmt.Fprintf(&b, "&#%d;", c)
		case p == 1:
			fmt.Fprintf(&b, "&#x%x;", c)
		default:
			b.WriteString(esc(c))
		}
	}
	return b.String()
}

func (x *notation) gap(b *strings.Builder, spaces bool) {
	switch p := x.r.Intn(20); {
	case p == 0 && spaces:
		b.WriteString([]string{"\n", "  ", "\t\n", "\r\n"}[x.r.Intn(4)])
	case p == 1:
		b.WriteString([]string{"<!-- <g> -->", "<!---->", "<!-- a\nb -->", "<!-- \"a long comment\" with <title>tags</title> & such, 'over 64 characters' of it -->"}[x.r.Intn(4)])
	case p == 2:
		b.WriteString("<?target some <data> ?>")
	case p == 3 && spaces:
		b.WriteString("<![CDATA[ ]]>")
	}
}

func (x *notation) write(b *strings.Builder, n *Node, inText bool) {
	r := x.r
	if n.Name == "" {
		s := n.Text
		for s != "" {
			part := s
			if r.Intn(3) == 0 {
				cs := []rune(s)
				part = string(cs[:1+r.Intn(len(cs))])
			}
			s = s[len(part):]
			if r.Intn(4) == 0 && !strings.Contains(part, "]") && !strings.Contains(part, "\r") {
				b.WriteString("<![CDATA[" + part + "]]>")
			} else {
				b.WriteString(x.chars(part, func(c rune) string {
					switch c {
					case '&':
						return "&amp;"
					case '<':
						return "&lt;"
					case '>':
						return "&gt;"
					case '\r':
						return "&#13;"
					case '"', '\'':
						return []string{string(c), map[rune]string{'"': "&quot;", '\'': "&apos;"}[c]}[r.Intn(2)]
					}
					return string(c)
				}))
			}
			x.gap(b, false)
		}
		return
	}
	name := n.Name
	if !strings.Contains(name, ":") {
		name = x.prefix + name
	}
	b.WriteString("<" + name)
	attrs := append([]Attr(nil), n.Attrs...)
	unique := map[string]bool{}
	for _, a := range attrs {
		unique[a.K[strings.Index(a.K, ":")+1:]] = true
	}
	if x.shuffle && len(unique) == len(attrs) && (n.Name != "circle" && n.Name != "ellipse" || !(unique["r"] && (unique["rx"] || unique["ry"]))) {
		r.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
	}
	for _, a := range attrs {
		q := '"'
		if r.Intn(3) == 0 {
			q = '\''
		}
		k := a.K
		if k == "href" && r.Intn(3) == 0 && !unique["xlink"] {
			k = "xlink:href"
		}
		b.WriteString([]string{" ", " ", " ", "\n", "\t ", "\r\n  "}[r.Intn(6)] + k + []string{"=", "=", "=", " = ", "\n="}[r.Intn(5)] + string(q) +
			x.chars(a.V, func(c rune) string {
				switch c {
				case '&':
					return "&amp;"
				case '<':
					return "&lt;"
				case '\n', '\t', '\r':
					return fmt.Sprintf("&#%d;", c)
				case q:
					return map[rune]string{'"': "&quot;", '\'': "&apos;"}[c]
				}
				return string(c)
			}) + string(q))
	}
	b.WriteString([]string{"", "", " ", "\n"}[r.Intn(4)])
	if len(n.Kids) == 0 && r.Intn(2) == 0 {
		b.WriteString("/>")
		return
	}
	b.WriteString(">")
	inText = inText || n.Name == "title" || n.Name == "desc"
	for _, k := range n.Kids {
		x.gap(b, !inText)
		x.write(b, k, inText)
	}
	x.gap(b, !inText)
	b.WriteString("</" + name + []string{">", ">", " >", "\n>"}[r.Intn(4)])
}

// renotate writes a tree in one of the ways XML allows.
func renotate(r *rand.Rand, n *Node, shuffle bool) string {
	x := &notation{r: r, shuffle: shuffle}
	if r.Intn(4) == 0 {
		x.prefix = []string{"svg:", "s:", "ns0:"}[r.Intn(3)]
		n = n.clone()
		n.set("xmlns:"+strings.TrimSuffix(x.prefix, ":"), "http://www.w3.org/2000/svg")
	}
	var b strings.Builder
	if r.Intn(3) == 0 {
		b.WriteString([]string{`<?xml version="1.0"?>`, `<?xml version="1.0" encoding="UTF-8"?>`, `<?xml version='1.0' encoding='utf-8' standalone="no"?>`}[r.Intn(3)])
	}
	x.gap(&b, true)
	if r.Intn(4) == 0 {
		b.WriteString([]string{`<!DOCTYPE svg>`, `<!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN" "http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd">`, "\n<!DOCTYPE svg [ <!ENTITY x \"<y>\"> ]>\n"}[r.Intn(3)])
	}
	x.write(&b, n, false)
	x.gap(&b, true)
	return b.String()
}

// defines tells whether an element holds something others can refer to.
func defines(n *Node) bool {
	d := false
	n.walk(func(n *Node) {
		switch n.Name {
		case "defs", "linearGradient", "radialGradient", "mask":
			d = true
		}
	})
	return d
}

// inert leaves out elements that draw and define nothing, and adds some.
func inert(t *T, root *Node, whole *svg.Svg, mode svg.ErrorMode, r *rand.Rand) {
	type at struct {
		n *Node
		i int
	}
	var out, in []at
	var look func(n *Node, defs bool)
	look = func(n *Node, defs bool) {
		defs = defs || n.Name == "defs"
		in = append(in, at{n, r.Intn(len(n.Kids) + 1)})
		for i, k := range n.Kids {
			if k.Name == "" {
				continue
			}
			_, id := k.get("id")
			if k.onlyText() && !id && (k.Name == "title" || k.Name == "desc" || k.Name == "g" || k.Name == "defs" && !defs) {
				out = append(out, at{n, i})
			}
			if k.Name != "title" && k.Name != "desc" {
				look(k, defs)
			}
		}
	}
	look(root, false)
	check := func(how string, p *Node) {
		src := root.plain()
		t.Input(src)
		s, err := parseString(src, mode)
		if err != nil {
			t.Failf("%s mode: an error with %s in <%s>: %v", modeNames[mode], how, p.Name, err)
			return
		}
		if a, b := dump(whole.SvgPaths), dump(s.SvgPaths); a != b {
			t.Failf("%s mode: with %s in <%s> the shapes differ (%d, %d): %s", modeNames[mode], how, p.Name, len(whole.SvgPaths), len(s.SvgPaths), firstDiff(a, b))
		}
		if a, b := dump(whole.SvgMasks), dump(s.SvgMasks); a != b {
			t.Failf("%s mode: with %s in <%s> the masks differ: %s", modeNames[mode], how, p.Name, firstDiff(a, b))
		}
		t.Count("documents with inert elements compared", 1)
	}
	if len(out) > 0 {
		x := out[r.Intn(len(out))]
		kids := x.n.Kids
		x.n.Kids = append(append([]*Node{}, kids[:x.i]...), kids[x.i+1:]...)
		check("a <"+kids[x.i].Name+"> left out", x.n)
		x.n.Kids = kids
	}
	for i := 0; i < 2; i++ {
		x := in[r.Intn(len(in))]
		e := []*Node{el("title").add(text("a <title>")), el("desc").add(text("text")), el("title"), el("desc", "fill", "red", "mask", "url(#mask1)"), el("g"), el("g"),
			el("g", "transform", "scale(3)", "opacity", "0.5", "fill", "blue"), el("g").add(el("title"))}[r.Intn(8)]
		if e.Name == "g" && (x.n.Name == "linearGradient" || x.n.Name == "radialGradient" || x.n.Name == "stop") {
			e = el("desc")
		}
		kids := x.n.Kids
		x.n.Kids = append(append(append([]*Node{}, kids[:x.i]...), e), kids[x.i:]...)
		check("another <"+e.Name+">", x.n)
		x.n.Kids = kids
	}
}

func init() {
	register(&Check{
		ID: "C24", Quick: 45000, Deep: 900000,
		Rule: "generated documents, test images and mutated ones, sensible or not, each written in several of the ways XML allows (quotes, white space, order of attributes, character references, CDATA, comments, processing instructions, declarations, doctype, prefixes, empty elements) and parsed in all modes; results are compared; nontrivial: the document has a shape, mask or text",
		Run: func(t *T, k int, r *rand.Rand) {
			n := anyTree(r, k)
			mode := allModes[r.Intn(3)]
			plain := n.plain()
			want, werr := parseString(plain, mode)
			for i := 0; i < 4; i++ {
				src := renotate(r, n, i >= 2)
				t.Input(plain + "\n=====\n" + src)
				got, err := parseString(src, mode)
				if (err != nil) != (werr != nil) {
					t.Failf("%s mode: %v in one notation and %v in another", modeNames[mode], werr, err)
					return
				}
				if err != nil {
					t.Count("errors in all notations", 1)
					t.Eval("")
					continue
				}
				if d := closeTo(reflect.ValueOf(want), reflect.ValueOf(got), "drawing"); d != "" {
					t.Failf("%s mode: two notations of a document differ at %s", modeNames[mode], d)
					return
				}
				t.Count("notations compared", 1)
				if len(want.SvgPaths) > 0 || len(want.SvgMasks) > 0 || len(want.Titles) > 0 || len(want.Descriptions) > 0 {
					t.Eval(clip(src, 3000))
				} else {
					t.Eval("")
				}
			}
		},
	})
	register(&Check{
		ID: "C25", Quick: 32000, Deep: 500000,
		Rule: "generated documents, test images and mutated ones, sensible or not, parsed as a whole and with each element below the root alone after the definitions before it; the parts are compared with the whole, which is also parsed with an element doubled, with everything in a group, with one element left out, and with titles, descriptions and empty groups added or left out anywhere; nontrivial: at least two elements contribute shapes",
		Run: func(t *T, k int, r *rand.Rand) {
			n := anyTree(r, k)
			n.Name = "svg"
			mode := allModes[r.Intn(3)]
			plain := n.plain()
			t.Input(plain)
			if len(n.Kids) > 60 {
				n.Kids = n.Kids[:60]
				plain = n.plain()
			}
			whole, werr := parseString(plain, mode)
			with := func(kids []*Node) (*svg.Svg, error) {
				x := &Node{Name: n.Name, Attrs: n.Attrs, Kids: kids}
				return parseString(x.plain(), mode)
			}
			var parts svg.Svg
			var defs []*Node
			var shapes [][]svg.SvgPath
			var perr error
			base, err := with(nil)
			if perr = err; perr == nil {
				for _, kid := range n.Kids {
					s, err := with(append(defs[:len(defs):len(defs)], kid))
					if err != nil {
						perr = err
						break
					}
					if len(s.SvgPaths) < len(base.SvgPaths) || len(s.Titles) < len(base.Titles) || len(s.Descriptions) < len(base.Descriptions) {
						t.Failf("%s mode: <%s> takes something away from what is before it", modeNames[mode], kid.Name)
						return
					}
					nb := len(base.SvgPaths)
					if a, b := dump(base.SvgPaths), dump(s.SvgPaths[:nb]); a != b {
						t.Failf("%s mode: <%s> changes shapes before it: %s", modeNames[mode], kid.Name, firstDiff(a, b))
						return
					}
					own := s.SvgPaths[nb:]
					shapes = append(shapes, own)
					parts.SvgPaths = append(parts.SvgPaths, own...)
					parts.Titles = append(parts.Titles, s.Titles[len(base.Titles):]...)
					parts.Descriptions = append(parts.Descriptions, s.Descriptions[len(base.Descriptions):]...)
					if kid.Name != "" && defines(kid) {
						defs = append(defs, kid)
						base = s
					}
				}
			}
			if (perr != nil) != (werr != nil) {
				t.Failf("%s mode: parsed as a whole: %v; element by element: %v", modeNames[mode], werr, perr)
				return
			}
			wrapped, gerr := with([]*Node{el("g").add(n.Kids...)})
			if (gerr != nil) != (werr != nil) {
				t.Failf("%s mode: %v, but in a group: %v", modeNames[mode], werr, gerr)
				return
			}
			if werr != nil {
				t.Count("errors", 1)
				t.Eval("")
				return
			}
			same := func(how string, paths []svg.SvgPath, masks map[string]*svg.SvgMask, titles, descs []string) {
				if a, b := dump(whole.SvgPaths), dump(paths); a != b {
					t.Failf("%s mode: %s the shapes differ (%d, %d): %s", modeNames[mode], how, len(whole.SvgPaths), len(paths), firstDiff(a, b))
				}
				if a, b := dump(whole.SvgMasks), dump(masks); a != b {
					t.Failf("%s mode: %s the masks differ: %s", modeNames[mode], how, firstDiff(a, b))
				}
				if a, b := dump(whole.Titles), dump(titles); a != b {
					t.Failf("%s mode: %s the titles differ: %s", modeNames[mode], how, firstDiff(a, b))
				}
				if a, b := dump(whole.Descriptions), dump(descs); a != b {
					t.Failf("%s mode: %s the descriptions differ: %s", modeNames[mode], how, firstDiff(a, b))
				}
			}
			same("element by element", parts.SvgPaths, base.SvgMasks, parts.Titles, parts.Descriptions)
			same("in a group", wrapped.SvgPaths, wrapped.SvgMasks, wrapped.Titles, wrapped.Descriptions)
			// one element twice, one left out
			var plainKids []int
			active := 0
			for i, kid := range n.Kids {
				if kid.Name != "" && !defines(kid) {
					plainKids = append(plainKids, i)
				}
				if len(shapes[i]) > 0 {
					active++
				}
			}
			if len(plainKids) > 0 {
				i, j := plainKids[r.Intn(len(plainKids))], plainKids[r.Intn(len(plainKids))]
				var kids []*Node
				var want []svg.SvgPath
				for x, kid := range n.Kids {
					if x == j && j != i {
						continue
					}
					kids = append(kids, kid)
					want = append(want, shapes[x]...)
					if x == i {
						kids = append(kids, kid)
						want = append(want, shapes[x]...)
					}
				}
				s, err := with(kids)
				if err != nil {
					t.Failf("%s mode: an error with element %d twice and %d left out: %v", modeNames[mode], i, j, err)
				} else if a, b := dump(want), dump(s.SvgPaths); a != b {
					t.Failf("%s mode: with element %d twice and %d left out the shapes differ (%d, %d): %s", modeNames[mode], i, j, len(want), len(s.SvgPaths), firstDiff(a, b))
				}
			}
			// elements that draw and define nothing, anywhere
			if len(plain) < 20000 {
				inert(t, n, whole, mode, r)
			}
			t.Count("elements compared", len(n.Kids))
			if active >= 2 {
				t.Eval(clip(plain, 3000))
			} else {
				t.Eval("")
			}
		},
	})
}
