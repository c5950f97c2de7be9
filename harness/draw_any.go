package main

import (
	"fmt"
	"image"
	"image/color"
	"math/rand"
	"strings"
	"sync"

	"github.com/fogleman/gg"
	"github.com/llgcode/draw2d/draw2dbase"
	"github.com/llgcode/draw2d/draw2dimg"
	"github.com/srwiley/rasterx"

	svg "github.com/lafriks/go-svg"
	d2 "github.com/lafriks/go-svg/renderer/draw2d"
	ggr "github.com/lafriks/go-svg/renderer/gg"
	rx "github.com/lafriks/go-svg/renderer/rasterx"
)

var rendererNames = []string{"gg", "draw2d", "rasterx", "draw2d calls", "rasterx calls"}

// picture draws with one of the renderers and describes the result.
func picture(s *svg.Svg, o *drawOptions, which, w, h int) string {
	im := image.NewRGBA(image.Rect(0, 0, w, h))
	switch which {
	case 0:
		if err := ggr.Draw(gg.NewContextForRGBA(im), s, o.list...); err != nil {
			return err.Error()
		}
	case 1:
		d2.Draw(draw2dimg.NewGraphicContext(im), s, o.list...)
	case 2:
		rx.Draw(rasterx.NewDasher(w, h, rasterx.NewScannerGV(w, h, im, im.Bounds())), s, o.list...)
	case 3:
		rec := &d2Recorder{StackGraphicContext: draw2dbase.NewStackGraphicContext()}
		d2.Draw(rec, s, o.list...)
		return fmt.Sprint(rec.paints)
	case 4:
		sc := newRxScanner()
		rx.Draw(rasterx.NewDasher(w, h, sc), s, o.list...)
		var b strings.Builder
		for _, p := range sc.paints {
			fmt.Fprint(&b, p.nonzero, p.subs)
			switch c := p.col.(type) {
			case color.Color:
				fmt.Fprint(&b, toNRGBA(c))
			case rasterx.ColorFunc:
				for i := 0; i < 20; i++ {
					fmt.Fprint(&b, toNRGBA(c(i*7-20, i*13-30)))
				}
			}
		}
		return b.String()
	}
	return string(im.Pix)
}

// drawAny draws with some renderer, for its effects on the drawing.
func drawAny(s *svg.Svg, r *rand.Rand) {
	o := randOptions(r, 40)
	if !ordinary(s, o.target(s.ViewBox), 20000) || maskWork(s) > 200 {
		return
	}
	picture(s, o, r.Intn(5), 40, 40)
}

func drawMany(t *T, s *svg.Svg, src string, r *rand.Rand) {
	w, h := 1+r.Intn(60), 1+r.Intn(60)
	if r.Intn(30) == 0 {
		w, h = r.Intn(2), r.Intn(2)
	}
	var opts []*drawOptions
	for i := 0; i < 3; i++ {
		o := randOptions(r, 60)
		if !ordinary(s, o.target(s.ViewBox), 50000) {
			t.Count("left open", 1)
			return
		}
		opts = append(opts, o)
	}
	in := src
	for _, o := range opts {
		in = "options:" + o.text + "\n" + in
	}
	t.Input(in)
	fresh, _ := parseString(src, svg.IgnoreErrorMode)
	before := dump(s)
	if fresh == nil || dump(fresh) != before {
		t.Count("left open", 1) // decided by C03
		return
	}
	type job struct {
		which int
		o     *drawOptions
		want  string
	}
	var jobs []job
	one := r.Intn(2) == 0
	for which := range rendererNames {
		o := opts[r.Intn(len(opts))]
		if one {
			o = opts[0]
		}
		// the picture of a drawing that was never drawn before
		virgin, _ := parseString(src, svg.IgnoreErrorMode)
		jobs = append(jobs, job{which, o, picture(virgin, o, which, w, h)})
	}
	// again and again, in any order
	for i := 2 + r.Intn(6); i > 0; i-- {
		j := jobs[r.Intn(len(jobs))]
		if got := picture(s, j.o, j.which, w, h); got != j.want {
			t.Failf("%s: the picture differs from the first one%s", rendererNames[j.which], pictureDiff(j.want, got))
		}
		t.Count("pictures repeated", 1)
	}
	if after := dump(s); after != before {
		t.Failf("drawing changes the drawing: %s", firstDiff(before, after))
	}
	// at the same time
	n := 3 + r.Intn(4)
	var wg sync.WaitGroup
	start := make(chan bool)
	fails := make([]string, n)
	for i := 0; i < n; i++ {
		j := jobs[r.Intn(len(jobs))]
		if r.Intn(3) == 0 {
			j = jobs[0]
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					fails[i] = fmt.Sprintf("%s: panic while drawing concurrently: %v", rendererNames[j.which], e)
				}
			}()
			<-start
			if got := picture(s, j.o, j.which, w, h); got != j.want {
				fails[i] = fmt.Sprintf("%s: the picture drawn concurrently differs%s", rendererNames[j.which], pictureDiff(j.want, got))
			}
		}(i)
	}
	close(start)
	wg.Wait()
	for _, f := range fails {
		if f != "" {
			t.Failf("%s", f)
		}
	}
	t.Count("pictures drawn concurrently", n)
	if after := dump(s); after != before {
		t.Failf("drawing concurrently changes the drawing: %s", firstDiff(before, after))
	}
	if len(s.SvgPaths) > 0 {
		t.Eval(clip(in, 3000))
	} else {
		t.Eval("")
	}
}

func pictureDiff(a, b string) string {
	if len(a) != len(b) || len(a)%4 != 0 || len(a) > 60000 {
		return ": " + firstDiff(clip(a, 20000), clip(b, 20000))
	}
	n := 0
	for i := 0; i < len(a); i += 4 {
		if a[i:i+4] != b[i:i+4] {
			n++
		}
	}
	return fmt.Sprintf(" in %d pixels", n)
}

// loneShapes are documents with one odd thing to draw.
var loneShapes = []string{
	`<svg viewBox="0 0 0 0"><rect width="5" height="5"/></svg>`,
	`<svg><rect width="5" height="5" stroke="red" stroke-dasharray="1 2"/></svg>`,
	`<svg viewBox="0 0 10 10"><linearGradient id="g"/><rect width="5" height="5" fill="url(#g)" stroke="url(#g)"/></svg>`,
	`<svg viewBox="0 0 10 10"><radialGradient id="g"/><rect width="5" height="5" fill="url(#g)" stroke="url(#g)"/></svg>`,
	`<svg viewBox="0 0 10 10"><radialGradient id="g"><stop offset="0"/><stop offset="1" stop-color="red"/></radialGradient><path d="M5 5" fill="url(#g)" stroke="url(#g)"/></svg>`,
	`<svg viewBox="0 0 10 10"><radialGradient id="g" r="0" fx="2"><stop offset="0"/><stop offset="1" stop-color="red"/></radialGradient><path d="M5 5h3" fill="url(#g)" stroke="url(#g)"/></svg>`,
	`<svg viewBox="0 0 10 10"><linearGradient id="g" x1="0" x2="0"><stop offset="1"/><stop offset="0" stop-color="red"/></linearGradient><path d="M5 5h3" fill="url(#g)" stroke="url(#g)"/></svg>`,
	`<svg viewBox="0 0 10 10"><linearGradient id="g" spreadMethod="reflect" gradientUnits="userSpaceOnUse" x1="3" x2="3"><stop offset="1"/><stop offset="1" stop-color="red"/></linearGradient><path d="M5 5h3v4z" fill="url(#g)" stroke="url(#g)"/></svg>`,
	`<svg viewBox="0 0 10 10"><linearGradient id="g" spreadMethod="repeat" gradientTransform="scale(0)"><stop offset="0.5"/><stop offset="0.5" stop-color="red"/><stop offset="0.2"/></linearGradient><path d="M5 5h3v4z" fill="url(#g)" stroke="url(#g)"/></svg>`,
	`<svg viewBox="0 0 10 10"><mask id="a"><rect width="4" height="4" mask="url(#b)"/></mask><mask id="b"><rect width="9" height="3" mask="url(#a)"/></mask><rect width="10" height="10" mask="url(#a)"/><rect width="3" height="10" mask="url(#b)"/></svg>`,
	`<svg viewBox="0 0 10 10"><mask id="a"><rect width="4" height="4" mask="url(#a)"/></mask><g mask="url(#a)"><g mask="url(#a)"><rect width="10" height="10" mask="url(#c)"/></g></g></svg>`,
	`<svg viewBox="0 0 10 10"><mask id="a"/><mask id="b" mask="url(#a)"/><rect width="10" height="10" mask="url(#b)"/></svg>`,
	`<svg viewBox="0 0 10 10" stroke="red" stroke-width="3"><path d=""/><path d="M1 1"/><path d="M1 1z"/><path d="M1 1M2 2M3 3"/><path d="M1 1L1 1"/><path d="M1 1Q1 1 1 1"/><path d="M1 1C1 1 1 1 1 1"/><path d="M1 1zM2 2z"/></svg>`,
	`<svg viewBox="0 0 10 10" stroke="red" stroke-linejoin="arc-clip" stroke-width="3"><path d="M1 1L1 1L5 5L1 1Z"/><path d="M1 1Q1 1 5 5"/><path d="M1 1Q5 5 5 5Z"/><path d="M1 1C1 1 2 2 2 2Z"/><path d="M1 1C1 1 1 1 2 2C2 2 2 2 2 2"/></svg>`,
	`<svg viewBox="0 0 10 10" stroke="red" stroke-linejoin="arc" stroke-linecap="square" stroke-width="3" stroke-dasharray="0.5 0"><path d="M1 1L1 1L5 5L1 1Z"/><path d="M1 1Q1 1 5 5"/><path d="M1 1Q5 5 5 5Z"/><path d="M1 1C1 1 2 2 2 2Z"/></svg>`,
	`<svg viewBox="0 0 10 10" stroke="red" stroke-dasharray="0 0"><rect width="5" height="5"/></svg>`,
	`<svg viewBox="0 0 10 10" stroke="red" stroke-dasharray="0 3" stroke-linecap="round"><rect width="5" height="5"/></svg>`,
	`<svg viewBox="0 0 10 10" stroke="red" stroke-dasharray="0 3"><path d="M1 1L1 1L5 5"/></svg>`,
	`<svg viewBox="0 0 10 10" stroke="red" stroke-dasharray="3 0 2 0" fill="none"><path d="M1 1L1 1H4L4 1V6L4 6L6 6z"/></svg>`,
	`<svg viewBox="0 0 10 10" stroke="red" stroke-dasharray="3 2" stroke-dashoffset="3" fill="none"><path d="M1 1L1 1H4L4 1V6z"/></svg>`,
	`<svg viewBox="0 0 10 10" stroke="red" stroke-dasharray="3 2 1" stroke-dashoffset="5" fill="none"><path d="M1 1L1 1"/></svg>`,
	`<svg viewBox="0 0 10 10" stroke="red" stroke-dasharray="0 1" fill="none"><path d="M2 2Q2 2 2 2"/><path d="M1 1C1 1 1 1 1 1"/><path d="M1 1z"/><path d="M3 3A1 1 0 0 0 3 3z"/></svg>`,
	`<svg viewBox="0 0 10 10" stroke="red" stroke-dasharray="2 2" fill="none"><path d="M1 1H3L3 1H5L5 1H7L7 1V5L7 5"/></svg>`,
	`<svg viewBox="0 0 10 10" stroke="red" stroke-dasharray="4" stroke-dashoffset="4" fill="none"><rect width="4" height="4"/><path d="M1 1H1V1L1 1z"/><polyline points="2 2 2 2 2 2"/><circle r="2"/></svg>`,
	`<svg viewBox="0 0 10 10"><path d="M0 3L0 2L2 1L1 2L1 2L2 0L2 0z" stroke="red" fill="none" stroke-dasharray="1 0" stroke-dashoffset="3"/></svg>`,
	`<svg viewBox="0 0 10 10"><path d="M0 0L2 0Q2 0 2 0L0 3z" stroke="red" fill="none" stroke-dasharray="1 1" stroke-dashoffset="-2"/></svg>`,
	`<svg viewBox="0 0 10 10" stroke="red" stroke-dasharray="0.001"><rect width="5" height="5"/></svg>`,
	`<svg viewBox="0 0 10 10" stroke="red" stroke-dasharray="-1 2"><rect width="5" height="5"/></svg>`,
	`<svg viewBox="0 0 10 10" stroke="red" stroke-dasharray="5 3" stroke-dashoffset="-7"><rect width="5" height="5" transform="scale(0)"/><rect width="5" height="5"/></svg>`,
	`<svg viewBox="0 0 10 10" stroke="red" stroke-width="0" stroke-miterlimit="0"><rect width="5" height="5"/></svg>`,
	`<svg viewBox="0 0 10 10" stroke="red" stroke-width="-4" stroke-miterlimit="-3"><rect width="5" height="5"/></svg>`,
	`<svg viewBox="0 0 10 10"><rect width="5" height="5" fill="none"/><rect width="5" height="5" fill="none" stroke="none"/></svg>`,
	`<svg viewBox="0 0 10 10"/>`,
}

// dashDoc makes lines without a length that meet the ends of dashes.
func dashDoc(r *rand.Rand) string {
	n := func() int { return r.Intn(4) }
	var b strings.Builder
	fmt.Fprintf(&b, `<svg viewBox="0 0 %d 10"><g fill="none" stroke="red" stroke-linejoin="%s" stroke-linecap="%s">`, 5+5*r.Intn(2), []string{"miter", "miter-clip", "arc", "arc-clip", "round", "bevel"}[r.Intn(6)], []string{"butt", "round", "square"}[r.Intn(3)])
	for i := 1 + r.Intn(3); i > 0; i-- {
		fmt.Fprintf(&b, `<path d="M%d %d`, n(), n())
		for j := 1 + r.Intn(6); j > 0; j-- {
			x, y := n(), n()
			fmt.Fprintf(&b, "L%d %d", x, y)
			switch r.Intn(6) {
			case 0, 1:
				fmt.Fprintf(&b, "L%d %d", x, y)
			case 2:
				fmt.Fprintf(&b, "Q%d %d %d %d", x, y, x, y)
			case 3:
				fmt.Fprintf(&b, "C%d %d %d %d %d %d", x, y, x, y, x, y)
			}
			switch r.Intn(6) {
			case 0:
				b.WriteByte('z')
			case 1:
				fmt.Fprintf(&b, "M%d %d", n(), n())
			case 2:
				fmt.Fprintf(&b, "zM%d %d", n(), n())
			}
		}
		fmt.Fprintf(&b, `" stroke-width="%d" stroke-dasharray="%d %d`, n(), n(), n())
		for j := r.Intn(3); j > 0; j-- {
			fmt.Fprintf(&b, " %d", n())
		}
		fmt.Fprintf(&b, `" stroke-dashoffset="%d"/>`, r.Intn(9)-2)
	}
	b.WriteString("</g></svg>")
	return b.String()
}

func init() {
	register(&Check{
		ID: "C22", Quick: 2400, Deep: 60000, Race: true,
		Rule: "documents with all features, gradients, masks and dashes, mutated documents, lines without a length at the ends of dashes, the repository's test images and a list of odd documents, drawn with all three renderers and recording contexts in random sequences and in several goroutines under the race detector, compared with pictures of drawings never drawn before and with snapshots of the whole drawing; nontrivial: at least one path",
		Run: func(t *T, k int, r *rand.Rand) {
			var src string
			switch {
			case k < len(loneShapes):
				src = loneShapes[k]
			case k < len(loneShapes)+len(seedFiles):
				src = string(seedFiles[k-len(loneShapes)].data)
			default:
				switch r.Intn(16) {
				case 0, 1, 2, 3:
					src = hostileDoc(r)
				case 4:
					src = dashDoc(r)
				default:
					_, src = drawing(t, r, true, r.Intn(2) == 0)
				}
			}
			t.Input(src)
			s, _ := parseString(src, svg.IgnoreErrorMode)
			if s == nil || maskWork(s) > 100 || len(s.SvgPaths) > 300 {
				t.Count("left open", 1)
				return
			}
			drawMany(t, s, src, r)
		},
	})
}
