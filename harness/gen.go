package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"

	"golang.org/x/image/colornames"
)

// gen makes documents. The knobs are probabilities.
type gen struct {
	r      *rand.Rand
	id     int
	grads  []string // ids defined so far
	defs   []string
	masks  []string
	budget int // elements left

	span      float64 // size of coordinates
	units     float64 // length with a unit
	pStyle    float64 // a style setting on an element
	pTrans    float64 // a transform on an element
	pGroup    float64 // an element is a group
	pDefs     float64
	pUse      float64
	pMask     float64 // mask element
	pMasked   float64 // mask attribute
	pGrad     float64 // gradient element
	pGradUse  float64 // paint is a gradient
	pTitle    float64
	pOdd      float64 // unsupported element or keyword
	pBad      float64 // malformed value
	pText     float64 // stray text
	noDash    bool
	noEmpty   bool // avoid percentages and other things that need a view box
	chain     bool // definitions mostly use the one before
	plainOpac bool
	largeBox  bool // view boxes of any size
	extreme   bool // numbers of any size in path data and lengths
	bad       int  // number of malformed values written
	depth     int
	uses      int
	inMask    bool
}

func newGen(r *rand.Rand) *gen {
	return &gen{r: r, budget: 12, span: 100, units: 0.1, pStyle: 0.3, pTrans: 0.1, pGroup: 0.25}
}

func (g *gen) ch(p float64) bool { return p > 0 && g.r.Float64() < p }

func (g *gen) pick(s ...string) string { return s[g.r.Intn(len(s))] }

// tail is a small number, rarely a large one.
func (g *gen) tail(mean, max int) int {
	n := int(g.r.ExpFloat64() * float64(mean))
	if g.r.Intn(60) == 0 {
		n *= 20
	}
	if n > max {
		n = max
	}
	return n
}

func (g *gen) newID(p string) string {
	g.id++
	switch g.r.Intn(13) {
	case 4:
		return fmt.Sprintf("%s:%d", p, g.id)
	case 0:
		return fmt.Sprintf("%s-%d", p, g.id)
	case 1:
		return fmt.Sprintf("%s_%d.x", p, g.id)
	case 2:
		return fmt.Sprintf("%s%d%s", p, g.id, strings.Repeat("z", g.r.Intn(40)))
	case 5: // differs from another only in its case
		if ids := map[string][]string{"grad": g.grads, "def": g.defs, "mask": g.masks}[p]; len(ids) > 0 {
			if id := ids[g.r.Intn(len(ids))]; strings.HasPrefix(id, p) {
				return strings.ToUpper(id[:1]) + id[1:]
			}
		}
	case 3:
		return fmt.Sprintf("Ünï%s%d", p, g.id)
	}
	return fmt.Sprintf("%s%d", p, g.id)
}

// val is a number of ordinary size.
func (g *gen) val() float64 {
	r := g.r
	switch r.Intn(10) {
	case 0:
		return 0
	case 1, 2, 3:
		return float64(r.Intn(int(g.span) + 1))
	case 4:
		return -float64(r.Intn(int(g.span) + 1))
	case 5:
		return math.Round(r.NormFloat64()*g.span*100) / 100
	case 6:
		return math.Round(r.Float64()*1000) / 1000
	case 7:
		return r.NormFloat64() * g.span / 4
	case 8:
		return float64(r.Intn(2000)) / 64
	default:
		return math.Round(r.Float64()*g.span*10) / 10
	}
}

// extremeVal is a number of any size that is still a coordinate.
func (g *gen) extremeVal() float64 {
	f := math.Pow(10, g.r.Float64()*20-13.2)
	if g.r.Intn(2) == 0 {
		f = -f
	}
	if math.Abs(f) > 1 && g.r.Intn(2) == 0 {
		f = math.Round(f)
	}
	return f
}

// num writes a number in one of the notations.
func (g *gen) num(f float64) string {
	r := g.r
	var s string
	switch r.Intn(14) {
	case 0:
		s = strconv.FormatFloat(f, 'e', -1, 64) // 1.5e+01
	case 1:
		s = strings.ToUpper(strconv.FormatFloat(f, 'e', -1, 64))
	case 2:
		s = strings.Replace(strconv.FormatFloat(f, 'e', -1, 64), "e+0", "e", 1)
	case 3:
		s = strconv.FormatFloat(f, 'f', 6, 64)
	case 4:
		s = strconv.FormatFloat(f, 'f', 0, 64)
	case 5:
		s = strconv.FormatFloat(f, 'f', 2, 64)
	default:
		s = strconv.FormatFloat(f, 'f', -1, 64)
	}
	if r.Intn(3) == 0 {
		if strings.HasPrefix(s, "0.") {
			s = s[1:]
		} else if strings.HasPrefix(s, "-0.") {
			s = "-" + s[2:]
		}
	}
	if r.Intn(20) == 0 && !strings.HasPrefix(s, "-") {
		s = "+" + s
	}
	if r.Intn(40) == 0 && s[0] >= '0' && s[0] <= '9' {
		s = "0" + s
	}
	return s
}

func (g *gen) ws() string {
	return g.pick(" ", " ", " ", "  ", "\n", "\t", "\r\n", " \n ")
}

// numbers joins numbers with all kinds of separators.
func (g *gen) numbers(fs []float64) string {
	return g.join(fs, nil)
}

func (g *gen) join(fs []float64, fixedText func(i int) string) string {
	var b strings.Builder
	prev := ""
	style := g.r.Intn(4)
	for i, f := range fs {
		s := ""
		if fixedText != nil {
			s = fixedText(i)
		}
		isFixed := s != ""
		if s == "" {
			s = g.num(f)
			if g.r.Intn(40) == 0 && !strings.ContainsAny(s, ".eE") {
				s += "."
			}
		}
		if i > 0 {
			sep := ""
			k := g.r.Intn(6)
			if style == 0 {
				k = 0
			}
			switch {
			case k == 0 || k == 1:
				sep = ","
			case k == 2:
				sep = g.ws()
			case k == 3:
				sep = g.pick(" , ", ", ", " ,", "\n,", ",\t")
			case fixedText != nil && fixedText(i-1) != "":
				sep = g.pick(" ", "") // flags need no separator
			case isFixed:
				sep = " "
			case s[0] == '-' || s[0] == '+':
				sep = ""
			case s[0] == '.' && strings.ContainsAny(prev, ".eE"):
				sep = ""
			default:
				sep = " "
			}
			b.WriteString(sep)
		}
		b.WriteString(s)
		prev = s
	}
	return b.String()
}

// pathCommands writes path data with n commands after the first move.
// letters are the commands used.
func (g *gen) path(n int, letters string) string {
	var b strings.Builder
	last := byte(0)
	put := func(c byte) {
		up := c &^ 0x20
		np := params[up]
		reps := 1
		if np > 0 && g.r.Intn(4) == 0 {
			reps += 1 + g.tail(1, 40)
			if g.r.Intn(500) == 0 {
				reps += g.r.Intn(3000) / np
			}
		}
		var fs []float64
		for i := 0; i < reps; i++ {
			if up == 'A' {
				fs = append(fs, g.arc()...)
			} else {
				for j := 0; j < np; j++ {
					f := g.val()
					if g.extreme && g.r.Intn(8) == 0 {
						f = g.extremeVal()
					}
					fs = append(fs, f)
				}
			}
		}
		if b.Len() > 0 && g.r.Intn(3) == 0 {
			b.WriteString(g.ws())
		}
		omit := (c == last && c != 'M' && c != 'm' || (last == 'M' && c == 'L') || (last == 'm' && c == 'l')) && np > 0 && g.r.Intn(3) == 0
		if omit {
			b.WriteString(g.pick(" ", ",", " , ", "\n"))
		} else {
			b.WriteByte(c)
			if g.r.Intn(3) == 0 {
				b.WriteString(g.ws())
			}
		}
		if up == 'A' {
			b.WriteString(g.join(fs, func(i int) string {
				if i%7 == 3 || i%7 == 4 {
					return strconv.Itoa(int(fs[i]))
				}
				return ""
			}))
		} else {
			b.WriteString(g.numbers(fs))
		}
		last = c
	}
	put(g.pick("M", "m")[0])
	for i := 0; i < n; i++ {
		c := letters[g.r.Intn(len(letters))]
		if g.r.Intn(2) == 0 {
			c |= 0x20
		}
		put(c)
	}
	if g.r.Intn(8) == 0 {
		return g.ws() + b.String() + g.ws()
	}
	return b.String()
}

func (g *gen) arc() []float64 {
	r := g.r
	rad := func() float64 {
		switch r.Intn(12) {
		case 0:
			return 0
		case 1:
			return -1 - math.Round(r.Float64()*g.span)
		case 2:
			return 1 + r.Float64()*3
		case 3:
			return 1 + r.Float64()*20*g.span
		case 4:
			return math.Pow(10, -3*r.Float64())
		}
		return 1 + math.Round(r.Float64()*g.span*10)/10
	}
	rx := rad()
	ry := rx
	if r.Intn(2) == 0 {
		ry = rad()
	}
	rot := 0.0
	if r.Intn(2) == 0 {
		rot = []float64{30, 45, 90, -90, 180, 360, 15.5, -200, 77, 720, 133.25}[r.Intn(11)]
		if r.Intn(3) == 0 {
			rot = math.Round(r.NormFloat64()*20000) / 100
		}
	}
	x, y := g.val(), g.val()
	if r.Intn(6) == 0 && (rx == 0 || math.Abs(rx) >= 1) { // exactly a half circle
		x, y = 2*rx, 0
	}
	return []float64{rx, ry, rot, float64(r.Intn(2)), float64(r.Intn(2)), x, y}
}

// length writes a length.
func (g *gen) length(f float64) string {
	if g.ch(g.pBad / 4) {
		return g.badLength()
	}
	if g.extreme && g.r.Intn(8) == 0 {
		f = math.Copysign(g.extremeVal(), f)
	}
	s := g.num(f)
	if g.ch(g.units) {
		u := g.pick("px", "in", "cm", "mm", "Q", "pt", "pc", "%", "%", "%")
		if u == "%" && math.Abs(f) > 1e4 {
			s = g.num(math.Mod(f, 1e4))
		}
		if u != "%" && u != "px" {
			f /= perUnit[u]
			if g.r.Intn(2) == 0 {
				f = math.Round(f*100) / 100
			}
			s = g.num(f)
		}
		if g.r.Intn(6) == 0 {
			s += " "
		}
		s += u
		if g.r.Intn(6) == 0 {
			s = g.pick(" ", "\t", "\n", "  ") + s
		}
		if g.r.Intn(6) == 0 {
			s += g.pick(" ", "\t", "\n", "  ")
		}
	}
	return s
}

func (g *gen) badLength() string {
	g.bad++
	if g.r.Intn(8) == 0 {
		return g.digits() + g.pick("e", "E", "e+", "e-", "e5e", "ee5", "-", "x", "..", "+1") + g.pick("", "", "px", "%", "mm")
	}
	return g.pick("", "abc", "px", "%", "1em", "10 20", "1.2.3", "--5", "5furlong", "1px2", "e5", "ten", "1,5", "0x1g", "12pxx", "5 %px cm", "-", "+", ".", "1e", "3ex", "10vw", "2rem", "45deg", "nan", "inf", "-Inf", "NaNpx", "infinity", "+inf%", "0x10", "0x1p4", "1_0")
}

func (g *gen) pos() float64 { return math.Abs(g.val()) }

func (g *gen) set(n *Node, k string, f float64) {
	if g.r.Intn(8) == 0 {
		return // missing
	}
	n.set(k, g.length(f))
}

// shape makes a basic shape.
func (g *gen) shape() *Node {
	switch g.r.Intn(8) {
	case 0, 1:
		n := el("rect")
		w, h := g.pos(), g.pos()
		g.set(n, "x", g.val())
		g.set(n, "y", g.val())
		g.set(n, "width", w)
		g.set(n, "height", h)
		if g.r.Intn(2) == 0 {
			rx := 1 + g.r.Float64()*g.span/3
			if g.r.Intn(3) == 0 {
				rx = math.Round(rx)
			}
			ry := rx * math.Pow(2, g.r.Float64()*4-2)
			switch g.r.Intn(4) {
			case 0:
				n.set("rx", g.num(rx))
			case 1:
				n.set("ry", g.num(ry))
			default:
				n.set("rx", g.num(rx)).set("ry", g.num(ry))
			}
			if g.ch(g.units) && g.ch(0.5) {
				n.set("rx", g.length(rx))
			}
			if g.r.Intn(12) == 0 {
				n.set(g.pick("rx", "ry"), g.pick("0", "0", "0.0", "0px"))
			}
		}
		return n
	case 2:
		n := el("circle")
		g.set(n, "cx", g.val())
		g.set(n, "cy", g.val())
		g.set(n, "r", g.pos())
		return n
	case 3:
		n := el("ellipse")
		g.set(n, "cx", g.val())
		g.set(n, "cy", g.val())
		g.set(n, "rx", g.pos())
		g.set(n, "ry", g.pos())
		return n
	case 4:
		n := el("line")
		g.set(n, "x1", g.val())
		g.set(n, "y1", g.val())
		g.set(n, "x2", g.val())
		g.set(n, "y2", g.val())
		return n
	case 5:
		return g.poly()
	default:
		d := g.path(g.tail(4, 200), "LLHVCSQTAZM")
		if g.ch(g.pOdd) {
			d += g.pick("B", "x10", "R1,2,3", "n", "P 5 5") + g.pick("", " L 3 3", "l1-1")
			for g.r.Intn(3) == 0 {
				d += g.pick("B", "B", "x10", "B 1", "n") + g.pick("", "", " H 3")
			}
		}
		if g.ch(g.pBad) {
			g.bad++
			d += g.pick("L5", "C 1 2 3", "Q1,2", "S 5", "T1", "A 1 2 3 4", "L", "H", "z5", "M 3", "c1,2,3,4,5", "V", "a1,1 0 0 1 5", "M", "L 1 2 3")
		}
		return el("path", "d", d)
	}
}

func (g *gen) poly() *Node {
	n := el(g.pick("polyline", "polygon"))
	if g.r.Intn(12) == 0 {
		return n
	}
	k := 2 * (g.tail(4, 300) + g.r.Intn(3))
	if g.r.Intn(800) == 0 {
		k += 2 * g.r.Intn(2000)
	}
	if g.ch(g.pBad) {
		k++
		g.bad++
	}
	fs := make([]float64, k)
	for i := range fs {
		fs[i] = g.val()
	}
	s := g.numbers(fs)
	if g.r.Intn(8) == 0 {
		s = g.ws() + s + g.ws()
	}
	return n.set("points", s)
}

var colourNames []string

func init() {
	colourNames = append(colourNames, colornames.Names...)
}

func (g *gen) mixCase(s string) string {
	switch g.r.Intn(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.Title(s) //nolint
	}
	b := []byte(s)
	for i := range b {
		if g.r.Intn(2) == 0 && b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

// colour writes a colour.
func (g *gen) colour() string {
	r := g.r
	if g.ch(g.pBad / 3) {
		g.bad++
		return g.pick("", "#", "#12", "#1234567", "#ggg", "#12345g", "#-12345", "#+1f2f3f", "rgb()", "rgb(1,2)", "rgb(1,2,3,4)", "rgb(,,)", "rgb(1,,3)",
			"rgb(%,1%,2%)", "nocolour", "reddish", "bluered", "rgb(a,b,c)", "#12 45", "12345", "no", "rgb", "#1", "#12345", "g", "rgb(1,2,)", "rgb(,2,3)", "#zzzzzz", "#xyz", "blackish", "light blue", "re d", "#f f f", "# fff", "# 123456", "#12 3456", "dark red", "0 0 0", "non e", "rgb(1,2,3))", "rgb(1,2,3)x", "rgb(+-5,2,3)", "rgb(--5,2,3)", "rgb(1 2 3)", "rgb(1.5.5,2,3)", "rgb(1%%,2%,3%)", "rgb(0x10,2,3)", "##123456", "#", "none none", "red blue",
			"#"+spoilHex(r, 6), "#"+spoilHex(r, 3), "#"+spoilHex(r, 6))
	}
	switch r.Intn(9) {
	case 0, 1:
		return colourNames[r.Intn(len(colourNames))]
	case 2:
		return g.mixCase(colourNames[r.Intn(len(colourNames))])
	case 3:
		return g.mixCase(fmt.Sprintf("#%06x", r.Intn(1<<24)))
	case 4:
		return fmt.Sprintf("#%06x", r.Intn(1<<24))
	case 5:
		return g.mixCase(fmt.Sprintf("#%03x", r.Intn(1<<12)))
	case 6, 7:
		c := func() string {
			n := r.Intn(256)
			switch r.Intn(10) {
			case 0:
				n = r.Intn(2000) - 500
				if r.Intn(4) == 0 {
					n = int(r.NormFloat64() * math.Pow(10, 3+r.Float64()*5))
				} else if r.Intn(8) == 0 {
					return hugeInt(r)
				}
			case 1:
				n = []int{0, 255, 256, -1, 1, 254, 127, 128}[r.Intn(8)]
			case 2:
				return fmt.Sprintf("%s%0*d", g.pick("", "", "+"), 1+r.Intn(5), n)
			}
			return strconv.Itoa(n)
		}
		return "rgb(" + g.sp() + c() + g.sp() + "," + g.sp() + c() + g.sp() + "," + g.sp() + c() + g.sp() + ")"
	default:
		c := func() string {
			n := r.Intn(101)
			if r.Intn(8) == 0 {
				n = r.Intn(400) - 100
				if r.Intn(4) == 0 {
					n = int(r.NormFloat64() * math.Pow(10, 3+r.Float64()*4))
				} else if r.Intn(8) == 0 {
					return hugeInt(r) + "%"
				}
			}
			if r.Intn(10) == 0 {
				return fmt.Sprintf("%s%0*d%%", g.pick("", "", "+"), 1+r.Intn(5), r.Intn(101))
			}
			return strconv.Itoa(n) + "%"
		}
		return "rgb(" + g.sp() + c() + g.sp() + "," + g.sp() + c() + g.sp() + "," + g.sp() + c() + g.sp() + ")"
	}
}

// hugeInt makes an integer of up to 30 digits.
func hugeInt(r *rand.Rand) string {
	b := []byte{"-123456789"[r.Intn(10)]}
	for n := 8 + r.Intn(22); n > 0; n-- {
		b = append(b, '1'+byte(r.Intn(9)))
	}
	return string(b)
}

// spoilHex makes digits one of which is not a hex digit.
func spoilHex(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "0123456789abcdefABCDEF"[r.Intn(22)]
	}
	b[r.Intn(n)] = "ghijklmnopqrstuvwxyzGHIJKLMNOPQRSTUVWXYZ+-._,;:*"[r.Intn(48)]
	return string(b)
}

func (g *gen) sp() string {
	if g.r.Intn(4) == 0 {
		return g.pick(" ", "  ", "\t")
	}
	return ""
}

func (g *gen) paint() string {
	if len(g.grads) > 0 && g.ch(g.pGradUse) {
		id := g.grads[g.r.Intn(len(g.grads))]
		if g.r.Intn(6) == 0 {
			return "url( #" + id + " )"
		}
		return "url(#" + id + ")"
	}
	if g.r.Intn(8) == 0 {
		return g.pick("none", "none", "none", "None", "NONE")
	}
	return g.colour()
}

func (g *gen) opacity() string {
	f := math.Round(g.r.Float64()*100) / 100
	switch g.r.Intn(8) {
	case 0:
		if g.r.Intn(4) == 0 {
			f = math.Round(g.r.NormFloat64()*math.Pow(10, g.r.Float64()*5)*100) / 100
			if g.r.Intn(2) == 0 {
				return g.num(f) + "%"
			}
			return g.num(f)
		}
		return g.pick("0", "1", "1.0", "0.0", "1.5", "-0.5", "2", "100%", "0%", "150%", "-20%")
	case 1, 2:
		return strconv.Itoa(g.r.Intn(101)) + "%"
	}
	if g.ch(g.pBad / 6) {
		g.bad++
		return g.pick("", "abc", "0.5.5", "%", "half")
	}
	return g.num(f)
}

var styleKeys = []string{"fill", "fill", "fill", "stroke", "stroke", "stroke", "fill-rule", "stroke-width", "stroke-width", "stroke-linecap",
	"stroke-leadlinecap", "stroke-linejoin", "stroke-linegap", "stroke-miterlimit", "stroke-dasharray", "stroke-dashoffset", "opacity", "fill-opacity", "stroke-opacity"}

func (g *gen) styleValue(k string) string {
	r := g.r
	odd := func(vals ...string) string {
		if g.ch(g.pOdd) {
			return g.pick("", "bogus", "inherited", "inherit", "initial", "none", "auto", "Round", "BUTT", "mitre", "x", "winding", "even-odd", "flatt", "unknown-keyword")
		}
		return g.pick(vals...)
	}
	switch k {
	case "fill", "stroke":
		return g.paint()
	case "fill-rule":
		return odd("evenodd", "nonzero")
	case "stroke-width":
		return g.length(g.pos() / 5)
	case "stroke-linecap", "stroke-leadlinecap":
		return odd("butt", "round", "square", "cubic", "quadratic")
	case "stroke-linejoin":
		return odd("miter", "miter-clip", "arc-clip", "round", "arc", "bevel")
	case "stroke-linegap":
		return odd("flat", "round", "cubic", "quadratic")
	case "stroke-miterlimit":
		if g.ch(g.pBad / 4) {
			return g.badLength()
		}
		if r.Intn(12) == 0 {
			return g.num(math.Round(math.Pow(10, r.Float64()*7)*100) / 100)
		}
		return g.num(1 + math.Round(r.Float64()*200)/10)
	case "stroke-dasharray":
		if g.noDash {
			return "none"
		}
		return g.dashes()
	case "stroke-dashoffset":
		return g.length(g.val() / 2)
	}
	return g.opacity()
}

func (g *gen) dashes() string {
	r := g.r
	switch r.Intn(10) {
	case 0:
		return "none"
	case 1:
		return g.pick("0", "0 0", "0,0,0", "5 -1", "-3", "-1,-2")
	}
	if g.ch(g.pBad / 4) {
		g.bad++
		return g.pick("none 5", "5 none", "1,2,none", "3 4x", "3,4 5 .", "1 2 3 4 5 6 7 8 9 px")
	}
	n := 1 + g.tail(2, 40)
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(g.pick(",", " ", ", ", " , ", "\n", "\t", "  "))
		}
		f := 0.5 + math.Round(r.Float64()*300)/10
		if r.Intn(8) == 0 {
			f = 0
		}
		if g.ch(g.units) {
			b.WriteString(strings.TrimSpace(strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(g.length(f), " ", ""), "\n", ""), "\t", "")))
		} else {
			b.WriteString(g.num(f))
		}
	}
	return b.String()
}

// style adds style settings to an element.
func (g *gen) style(n *Node) *Node {
	var decl []string
	for g.ch(g.pStyle) {
		k := styleKeys[g.r.Intn(len(styleKeys))]
		v := g.styleValue(k)
		if _, ok := n.get(k); !ok && g.r.Intn(3) != 0 {
			if g.r.Intn(10) == 0 && v != "" {
				v = g.pick(" ", "\n", "  ") + v + g.pick("", " ")
			}
			n.set(k, v)
			continue
		}
		if (k == "opacity" || strings.HasSuffix(k, "-opacity")) && strings.Contains(strings.Join(decl, ";"), k) {
			continue
		}
		if g.r.Intn(6) == 0 {
			k = g.mixCase(k)
		}
		decl = append(decl, g.sp()+k+g.sp()+":"+g.sp()+v)
	}
	if len(decl) > 0 {
		if g.r.Intn(8) == 0 {
			decl = append(decl, g.pick("", " ", "font-size:12px", "display:inline", "foo", "-x-y:1"))
			g.r.Shuffle(len(decl), func(i, j int) { decl[i], decl[j] = decl[j], decl[i] })
		}
		s := strings.Join(decl, g.pick(";", "; ", " ;", ";\n"))
		if g.r.Intn(3) == 0 {
			s += ";"
		}
		n.set("style", s)
	}
	if g.ch(g.pTrans) {
		n.set("transform", g.transform())
	}
	if g.ch(g.pTrans/12) && !n.has("style") {
		n.set("style", g.sp()+g.mixCase("transform")+g.sp()+":"+g.transform())
	}
	if len(g.masks) > 0 && g.ch(g.pMasked) {
		v := "url(#" + g.masks[g.r.Intn(len(g.masks))] + ")"
		if g.r.Intn(8) == 0 {
			v = "none"
		}
		if g.r.Intn(4) == 0 {
			if s, ok := n.get("style"); ok {
				n.set("style", s+";mask:"+v)
			} else {
				n.set("style", "mask:"+v)
			}
		} else {
			n.set("mask", v)
		}
	}
	return n
}

// transform writes a transform list.
func (g *gen) transform() string {
	n := 1
	for g.r.Intn(3) == 0 && n < 40 {
		n++
	}
	if g.ch(g.pBad) {
		g.bad++
		bad := g.pick("translate()", "translate(1,2,3)", "scale()", "scale(1 2 3)", "rotate(1,2)", "rotate()", "rotate(1,2,3,4)", "skewX(1,2)", "skewY()", "skewX()",
			"matrix(1,2,3)", "matrix(1,0,0,1,0)", "matrix(1,0,0,1,0,0,0)", "foo(1)", "translat(1)", "rotateX(5)", "scale", "spin(10)", "matrix3d(1)")
		if g.r.Intn(2) == 0 {
			return "translate(1) " + bad
		}
		return bad
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(g.pick(" ", ",", "", ", ", "\n", " , "))
		}
		f, args := g.transformFunc()
		b.WriteString(f)
		if g.r.Intn(8) == 0 {
			b.WriteString(" ")
		}
		b.WriteString("(" + g.sp() + g.numbers(args) + g.sp() + ")")
	}
	if g.r.Intn(10) == 0 {
		return " " + b.String() + " "
	}
	return b.String()
}

func (g *gen) transformFunc() (string, []float64) {
	r := g.r
	ang := func() float64 {
		switch r.Intn(4) {
		case 0:
			return []float64{0, 30, 45, 90, 180, 270, 360, -90, -45}[r.Intn(9)]
		}
		return math.Round(r.NormFloat64()*9000) / 100
	}
	sc := func() float64 {
		switch r.Intn(6) {
		case 0:
			return []float64{1, -1, 2, 0.5, -2, 3}[r.Intn(6)]
		case 1:
			return -(0.2 + r.Float64()*2)
		}
		return math.Round((0.2+r.Float64()*2.5)*1000) / 1000
	}
	switch r.Intn(9) {
	case 0:
		return "translate", []float64{g.val()}
	case 1, 2:
		return "translate", []float64{g.val(), g.val()}
	case 3:
		return "scale", []float64{sc()}
	case 4:
		return "scale", []float64{sc(), sc()}
	case 5:
		return "rotate", []float64{ang()}
	case 6:
		return "rotate", []float64{ang(), g.val(), g.val()}
	case 7:
		a := math.Round(r.NormFloat64()*2500) / 100
		a = math.Max(-70, math.Min(70, a))
		if r.Intn(3) == 0 {
			a += float64(r.Intn(5)-2) * 180
		}
		return g.pick("skewX", "skewY"), []float64{a}
	default:
		return "matrix", []float64{sc(), r.NormFloat64() / 2, r.NormFloat64() / 2, sc(), g.val(), g.val()}
	}
}

// gradient makes a gradient with stops.
func (g *gen) gradient() *Node {
	r := g.r
	id := g.newID("grad")
	if len(g.grads) > 0 && r.Intn(10) == 0 {
		id = g.grads[r.Intn(len(g.grads))] // replaces it
	}
	n := el("linearGradient", "id", id)
	names := []string{"x1", "y1", "x2", "y2"}
	if r.Intn(2) == 0 {
		n.Name = "radialGradient"
		names = []string{"cx", "cy", "fx", "fy", "r", "fr"}
	}
	user := r.Intn(2) == 0
	if user {
		n.set("gradientUnits", g.pick("userSpaceOnUse", "userSpaceOnUse", " userSpaceOnUse "))
	} else if r.Intn(3) == 0 {
		n.set("gradientUnits", "objectBoundingBox")
	}
	for _, k := range names {
		if r.Intn(3) == 0 {
			continue
		}
		f := r.Float64()
		if user {
			f = g.val()
			if k == "r" || k == "fr" {
				f = math.Abs(f) + 1
			}
		}
		s := g.num(math.Round(f*1000) / 1000)
		if r.Intn(3) == 0 {
			s = strconv.Itoa(r.Intn(140)-20) + "%"
			if (k == "r" || k == "fr") && s[0] == '-' {
				s = s[1:]
			}
		}
		if g.ch(g.pBad / 3) {
			s = g.badLength()
		}
		n.set(k, s)
	}
	if r.Intn(3) == 0 {
		n.set("spreadMethod", g.pick("pad", "reflect", "repeat"))
	}
	if r.Intn(3) == 0 {
		n.set("gradientTransform", g.transform())
	}
	if r.Intn(4) == 0 {
		g.plainStyle(n)
	}
	for i := g.tail(2, 60) + r.Intn(3); i > 0; i-- {
		n.add(g.stop())
	}
	if r.Intn(10) == 0 {
		n.add(el("title").add(text("in gradient")))
	}
	if g.ch(g.pOdd) {
		e := g.oddElement()
		if containers[e.Name] && r.Intn(2) == 0 {
			e.add(g.stop())
		}
		n.Kids = append(n.Kids, nil)
		i := r.Intn(len(n.Kids))
		copy(n.Kids[i+1:], n.Kids[i:])
		n.Kids[i] = e
	}
	g.grads = append(g.grads, id)
	return g.anyStyle(n)
}

func (g *gen) plainStyle(n *Node) {
	n.set(g.pick("fill", "stroke"), g.colour())
}

func (g *gen) stop() *Node {
	r := g.r
	n := el("stop")
	if r.Intn(8) != 0 {
		f := math.Round(r.Float64()*1000) / 1000
		if r.Intn(20) == 0 {
			f = math.Round(r.NormFloat64()*3000) / 1000
		}
		s := g.num(f)
		if r.Intn(2) == 0 {
			s = g.num(math.Round(f*100)) + "%"
		}
		if g.ch(g.pBad / 6) {
			g.bad++
			s = g.pick("", "abc", "%", "1 2")
		}
		n.set("offset", s)
	}
	col := func() string {
		if r.Intn(12) == 0 {
			return "none"
		}
		return g.colour()
	}
	if r.Intn(3) != 0 {
		n.set("stop-color", col())
	}
	if r.Intn(3) == 0 {
		n.set("stop-opacity", g.opacity())
	}
	if r.Intn(3) == 0 {
		var d []string
		if r.Intn(3) != 0 {
			d = append(d, g.sp()+g.pick("stop-color", "stop-color", "Stop-Color")+":"+g.sp()+col())
		}
		if r.Intn(3) == 0 {
			d = append(d, "stop-opacity"+g.sp()+":"+g.opacity())
		}
		if r.Intn(4) == 0 {
			d = append(d, g.pick("fill:red", "fill:red", "offset:0.37", "opacity:0.2", "stop:1", "color:red"))
			r.Shuffle(len(d), func(i, j int) { d[i], d[j] = d[j], d[i] })
		}
		if len(d) > 0 {
			n.set("style", strings.Join(d, ";"))
		}
	}
	return g.anyStyle(n)
}

// anyStyle sometimes sets styles on an element that does not draw.
func (g *gen) anyStyle(n *Node) *Node {
	if _, ok := n.get("style"); !ok && g.r.Intn(12) == 0 {
		g.style(n)
	}
	return n
}

func (g *gen) words() string {
	n := g.r.Intn(4)
	var b strings.Builder
	for i := 0; i <= n; i++ {
		b.WriteString(g.pick("a", "the", "<b>", "&", "\"q\"", "'", "größe", "日本", " ", "\n", "x  y", "]]", "title", "&amp;", "fill:red", "\U0001F600"))
		b.WriteString(g.pick(" ", "", " "))
	}
	return b.String()
}

// textElement is a title or desc.
func (g *gen) textElement() *Node {
	n := el(g.pick("title", "desc"))
	for i := g.r.Intn(4); i > 0; i-- {
		n.add(text(g.words()))
		if g.r.Intn(12) == 0 {
			n.add(el(map[string]string{"title": "desc", "desc": "title"}[n.Name]).add(text(g.words())))
		}
		if g.ch(g.pOdd) {
			n.add(el(g.pick("b", "p", "tspan", "foo", "a", "rdf")).add(text(g.words())))
		}
	}
	return g.anyStyle(n)
}

// unknownName is the name of some unsupported element, also of other namespaces.
func (g *gen) unknownName() string {
	s := g.pick("feBlend", "feGaussianBlur", "animateTransform", "animateMotion", "set", "tspan", "textPath", "view", "cursor", "font", "glyph", "foreignObject",
		"hatch", "meshgradient", "video", "cc:Work", "rdf:RDF", "sodipodi:namedview", "inkscape:grid", "mpath", "tref", "solidcolor", "paths", "rects", "gg", "G",
		"Path", "SVG", "Use", "Mask", "Defs", "Stop", "lineargradient", "linear-gradient", "Title", "DESC", "polyLine", "x")
	if g.r.Intn(3) == 0 {
		b := make([]byte, 1+g.r.Intn(9))
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[g.r.Intn(52)]
		}
		s = g.pick("", "", "x:") + string(b)
	}
	if supported[s] || supported[localName(s)] || containers[s] {
		return "unknown"
	}
	return s
}

// oddElement is an unsupported element.
func (g *gen) oddElement() *Node {
	n := el(g.pick("text", "image", "style", g.unknownName(), g.unknownName(), "filter", "symbol", "metadata", "clipPath", "foo", "Rect", "marker", "pattern", "script", "animate", "a", "switch", "GROUP", "lineargradient"))
	if g.r.Intn(2) == 0 {
		n.add(text(g.words()))
	}
	if g.r.Intn(3) == 0 {
		n.set("fill", g.colour())
	}
	if g.r.Intn(3) == 0 {
		n.set("d", "M 0 0 L 1 1")
	}
	return n
}

// defsElement makes a defs element.
func (g *gen) defsElement() *Node {
	n := el("defs")
	g.style(n)
	for i := 1 + g.tail(2, 20); i > 0; i-- {
		if g.ch(g.pGrad) {
			n.add(g.gradient())
			continue
		}
		if g.ch(g.pMask) && !g.inMask {
			n.add(g.mask())
			continue
		}
		n.add(g.definition())
	}
	return n
}

func (g *gen) definition() *Node {
	var n *Node
	id := ""
	if g.r.Intn(6) != 0 {
		id = g.newID("def")
		if len(g.defs) > 0 && g.r.Intn(8) == 0 {
			id = g.defs[g.r.Intn(len(g.defs))]
		}
	}
	if g.chain && len(g.defs) > 0 && g.uses < 16 && g.r.Intn(2) == 0 {
		n = g.use()
		if g.r.Intn(3) == 0 {
			n = el("g").add(g.style(g.shape()), n, g.style(g.shape()))
		}
	} else if g.r.Intn(2) == 0 && g.depth < 6 {
		n = el(g.pick("g", "g", "g", "svg"))
		if g.ch(g.pOdd) {
			n.Name = g.pick("a", "switch", "foo", "GROUP")
		}
		g.depth++
		for i := g.tail(2, 12); i >= 0; i-- {
			switch {
			case g.r.Intn(8) == 0:
				n.add(g.textElement())
			case g.ch(g.pGrad / 2):
				n.add(g.gradient())
			case g.ch(g.pMask/2) && !g.inMask:
				n.add(g.mask())
			case g.r.Intn(12) == 0 && g.depth < 5:
				n.add(g.style(el("defs")).add(g.definition()))
			case g.r.Intn(3) == 0 && g.depth < 5:
				n.add(g.definition())
			case g.uses < 6 && len(g.defs) > 0 && g.r.Intn(4) == 0:
				n.add(g.use())
			default:
				n.add(g.style(g.shape()))
			}
		}
		g.depth--
	} else if len(g.defs) > 0 && g.uses < 6 && g.r.Intn(5) == 0 {
		n = g.use()
	} else {
		n = g.shape()
		if g.r.Intn(6) == 0 {
			n.add(g.textElement())
		}
	}
	g.style(n)
	if id != "" {
		n.set("id", id)
		g.defs = append(g.defs, id)
	}
	return n
}

func (g *gen) use() *Node {
	n := el("use")
	g.uses++
	href := ""
	if len(g.defs) > 0 {
		href = "#" + g.defs[g.r.Intn(len(g.defs))]
		if g.chain && g.r.Intn(3) != 0 {
			href = "#" + g.defs[len(g.defs)-1]
		}
	}
	if href == "" || g.ch(g.pBad) {
		g.bad++
		switch g.r.Intn(9) {
		case 6, 7:
			if len(g.defs) > 0 {
				id := g.defs[0]
				href = g.pick("##"+id, "# "+id, "#"+id+"x", "x#"+id, "url(#"+id+")", "#"+strings.ToUpper(id), "#"+id[:len(id)-1], "."+id, "#"+id+"#", "#"+id+",", "#"+id+")")
			}
		case 8:
			href = g.pick("#svg", "#id", "x", "##", "#.", "http://a/#b")
		case 0:
			href = ""
		case 1:
			href = "#nothing"
		case 2:
			href = "#"
		case 3:
			href = "other.svg#x"
		case 4:
			if len(g.defs) > 0 {
				href = g.defs[0]
			}
		case 5:
			return g.style(n)
		}
	}
	n.set(g.pick("href", "xlink:href"), href)
	if g.r.Intn(3) != 0 {
		g.set(n, "x", g.val())
		g.set(n, "y", g.val())
	}
	if g.r.Intn(10) == 0 {
		n.add(g.textElement())
	}
	return g.style(n)
}

func (g *gen) mask() *Node {
	id := g.newID("mask")
	if len(g.masks) > 0 && g.r.Intn(10) == 0 {
		id = g.masks[g.r.Intn(len(g.masks))] // replaces it
	}
	n := el("mask", "id", id)
	if g.r.Intn(25) == 0 {
		n = el("mask") // cannot be used
	}
	g.set(n, "x", g.val())
	g.set(n, "y", g.val())
	g.set(n, "width", g.pos())
	g.set(n, "height", g.pos())
	old := g.masks
	g.style(n)
	if g.r.Intn(12) == 0 {
		g.masks = append(old[:len(old):len(old)], id) // refers to itself
	}
	g.inMask = true
	n.add(g.content(g.tail(2, 10), true)...)
	g.inMask = false
	g.masks = append(old, id)
	return n
}

// content makes n elements.
func (g *gen) content(n int, inMask bool) []*Node {
	var out []*Node
	for i := 0; i < n && g.budget > 0; i++ {
		g.budget--
		switch {
		case g.ch(g.pGroup) && g.depth < 400:
			e := el("g")
			if g.r.Intn(12) == 0 {
				e.Name = "svg"
				if g.r.Intn(2) == 0 {
					e.set("width", g.num(g.pos())).set("height", g.num(g.pos())).set("viewBox", "0 0 10 20")
				}
			}
			g.style(e)
			g.depth++
			e.add(g.content(1+g.tail(2, 12), inMask)...)
			g.depth--
			out = append(out, e)
		case g.ch(g.pDefs) && (!inMask || g.r.Intn(3) == 0):
			out = append(out, g.defsElement())
		case g.ch(g.pUse) && len(g.defs) > 0 && g.uses < 12:
			out = append(out, g.use())
		case g.ch(g.pMask) && !inMask:
			out = append(out, g.mask())
		case g.ch(g.pGrad):
			out = append(out, g.gradient())
		case g.ch(g.pTitle) && !inMask:
			out = append(out, g.textElement())
		case g.ch(g.pOdd):
			e := g.oddElement()
			if containers[e.Name] && g.depth < 20 {
				g.style(e)
				g.depth++
				e.add(g.content(g.tail(2, 8), inMask)...)
				g.depth--
			}
			out = append(out, e)
		case g.ch(g.pText):
			out = append(out, text(g.words()))
		default:
			e := g.style(g.shape())
			if g.ch(g.pTitle/4) && !inMask {
				e.add(g.textElement())
			}
			out = append(out, e)
		}
	}
	return out
}

// root makes the svg element with a view box.
func (g *gen) root() *Node {
	n := el("svg", "xmlns", "http://www.w3.org/2000/svg")
	if g.r.Intn(3) == 0 {
		n.set("xmlns:xlink", "http://www.w3.org/1999/xlink")
	}
	g.viewBox(n)
	g.style(n)
	return n
}

// boxSize is a size between a hundredth and a million.
func (g *gen) boxSize() float64 {
	f := math.Pow(10, g.r.Float64()*8-2)
	if g.r.Intn(2) == 0 && f > 1 {
		f = math.Round(f)
	}
	return f
}

func (g *gen) viewBox(n *Node) {
	r := g.r
	w, h := 1+math.Round(r.Float64()*300), 1+math.Round(r.Float64()*300)
	x, y := 0.0, 0.0
	if r.Intn(3) == 0 {
		x, y = g.val(), g.val()
	}
	if g.largeBox {
		w, h = g.boxSize(), g.boxSize()
	}
	size := func(f float64) string {
		s := g.num(f)
		if r.Intn(3) == 0 {
			s += g.pick("px", "mm", "pt", "in", "cm", "pc", "Q", " px")
		}
		return s
	}
	switch r.Intn(6) {
	case 0:
		n.set("width", size(w)).set("height", size(h))
	case 1:
		n.set("viewBox", g.numbers([]float64{x, y, w, h})).set("width", g.pick("100%", "50%", size(w))).set("height", g.pick("100%", size(h)))
	case 2:
		n.set("viewBox", g.numbers([]float64{x, y, w, h})).set("width", size(w))
	default:
		n.set("viewBox", g.numbers([]float64{x, y, w, h}))
	}
}

// doc makes a whole document.
func (g *gen) doc() *Node {
	n := g.root()
	if g.r.Intn(40) == 0 {
		g.budget *= 20
	}
	for g.budget > 0 {
		n.add(g.content(1+g.tail(4, 40), false)...)
		if g.r.Intn(3) == 0 {
			break
		}
	}
	return n
}
