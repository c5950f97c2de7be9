package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"sync"
	"syscall"

	"golang.org/x/image/math/fixed"
	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/htmlindex"

	svg "github.com/lafriks/go-svg"
)

var allModes = []svg.ErrorMode{svg.IgnoreErrorMode, svg.WarnErrorMode, svg.StrictErrorMode}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

// hostileDoc makes a document that may be anything.
func hostileDoc(r *rand.Rand) string {
	switch r.Intn(10) {
	case 0, 1, 2:
		g := rich(r)
		g.pBad, g.pOdd = 0.1, 0.1
		return g.doc().vary(r)
	case 3, 4:
		g := rich(r)
		n := g.doc()
		mutateTree(n, r)
		return n.vary(r)
	case 5, 6:
		g := rich(r)
		return string(mutateBytes([]byte(g.doc().vary(r)), r))
	case 7:
		f := seedFiles[r.Intn(len(seedFiles))]
		return string(mutateBytes(f.data, r))
	case 8:
		f := seedFiles[r.Intn(len(seedFiles))]
		n, err := readTree(f.data)
		if err != nil {
			return string(f.data)
		}
		mutateTree(n, r)
		return n.plain()
	default:
		if r.Intn(2) == 0 {
			return cyclic(r)
		}
		var b strings.Builder
		for i := r.Intn(30); i >= 0; i-- {
			b.WriteString(tokens[r.Intn(len(tokens))])
			if r.Intn(4) == 0 {
				b.WriteString(hostileValues[r.Intn(len(hostileValues))])
			}
		}
		return b.String()
	}
}

func init() {
	register(&Check{
		ID: "C01", Quick: 100000, Deep: 1500000,
		Rule: "generated documents with malformed values, documents and the repository's test images with mutated trees or bytes, self-referencing definitions, token soup, every hostile value in every attribute, and large documents of 20 kinds, each in all error modes, watched for panics, stack exhaustion, CPU time, memory and neither result nor error; nontrivial: the input contains an element",
		Run: func(t *T, k int, r *rand.Rand) {
			var src string
			switch {
			case k < 20:
				n := 40000
				if t.Tier == "thorough" {
					n = 400000
				}
				src = giant(k, n)
			case k < 20+len(hostileAttrs)*12:
				// every hostile value in every attribute
				a := hostileAttrs[(k-20)/12]
				var b strings.Builder
				_ = b
				for i, v := range hostileValues {
					if i%12 != (k-20)%12 {
						continue
					}
					for _, name := range hostileNames {
						n := el("svg", "viewBox", "0 0 10 10").add(
							el("linearGradient", "id", "g").add(el("stop", "offset", "0")),
							el("defs").add(el("g", "id", "a").add(el("rect", "width", "1", "height", "2"))),
							el(name, "d", "M0 0L1 1", "points", "1 1 2 2", "width", "5", "height", "6", "r", "3", "rx", "2", "ry", "1", "href", "#a").set(a, v).add(el("stop").set(a, v)),
							el("use", "href", "#a").set(a, v))
						c01(t, n.plain())
					}
				}
				return
			case k < 20+len(hostileAttrs)*12+len(growths):
				growth(t, growths[k-20-len(hostileAttrs)*12])
				return
			default:
				src = hostileDoc(r)
			}
			c01(t, src)
		},
	})
}

func c01(t *T, src string) {
	t.Input(src)
	for _, mode := range allModes {
		before := allocated()
		got, err := parseString(src, mode)
		after := allocated()
		if got == nil && err == nil {
			t.Failf("%s mode: neither a drawing nor an error", modeNames[mode])
		}
		if limit := uint64(200<<20) + uint64(len(src))*20000; after-before > limit {
			t.Failf("%s mode: %d bytes allocated for %d bytes of input", modeNames[mode], after-before, len(src))
		}
		if err != nil {
			t.Count("errors", 1)
			_ = err.Error()
		}
		if got != nil {
			t.Count("drawings", 1)
			for _, p := range got.SvgPaths {
				_ = p.Path.String()
			}
		}
	}
	if strings.Contains(src, "<") {
		t.Eval(clip(src, 3000))
	} else {
		t.Eval("")
	}
}

// outcome describes the result of a parse completely.
func outcome(s *svg.Svg, err error) string {
	e := ""
	if err != nil {
		e = "error"
	}
	return e + "\n" + dump(s)
}

// c02large delivers documents of several megabytes, counting what arrives.
func c02large(t *T, k int, r *rand.Rand) {
	size := []int{70 << 10, 300 << 10, 1100 << 10, 2200 << 10, 4500 << 10, 9000 << 10}[k%6]
	var b strings.Builder
	b.WriteString(`<svg viewBox="0 0 100 100">`)
	n := 0
	for b.Len() < size {
		switch r.Intn(40) {
		case 0:
			// one long token
			l := 1 + r.Intn(size/4)
			switch r.Intn(3) {
			case 0:
				b.WriteString("<!--" + strings.Repeat("x", l) + "-->")
			case 1:
				b.WriteString(`<g data-x="` + strings.Repeat("y ", l/2) + `"/>`)
			default:
				b.WriteString(strings.Repeat("\n", l))
			}
		default:
			n++
			fmt.Fprintf(&b, "<rect x=\"%d\" width=\"5\" height=\"7\" stroke-width=\"%d\"/>\n", n%100, n)
			if r.Intn(3) > 0 {
				b.WriteString("<!--" + strings.Repeat("z", r.Intn(1+size/200)) + "-->")
			}
		}
	}
	b.WriteString("</svg>")
	src := b.String()
	t.Input(fmt.Sprintf("(a document of %d bytes with %d rectangles) %s", len(src), n, clip(src, 500)))
	mode := allModes[r.Intn(3)]
	check := func(how string, s *svg.Svg, e error) {
		if e != nil {
			t.Failf("%s mode, %s: a document of %d bytes is rejected: %v", modeNames[mode], how, len(src), e)
			return
		}
		if len(s.SvgPaths) != n {
			t.Failf("%s mode, %s: a document of %d bytes has %d shapes, want %d", modeNames[mode], how, len(src), len(s.SvgPaths), n)
		} else {
			for i := range s.SvgPaths {
				if w := s.SvgPaths[i].Style.LineWidth; w != float64(i+1) {
					t.Failf("%s mode, %s: shape %d of a document of %d bytes has a line width of %v, want %v", modeNames[mode], how, i, len(src), w, i+1)
					break
				}
			}
		}
		t.Count("large deliveries", 1)
		t.Eval(fmt.Sprintf("%s:%d", how, len(src)))
	}
	s, e := svg.Parse(bytes.NewReader([]byte(src)), mode)
	check("buffer", s, e)
	for _, late := range []bool{true, false} {
		s, e = svg.Parse(&chunkReader{data: []byte(src), next: func() int { return 1 + r.Intn(9000) }, eofLate: late, end: io.EOF}, mode)
		check("chunks", s, e)
	}
	name := filepath.Join(scratch(), fmt.Sprintf("large-%d-%d.svg", os.Getpid(), k))
	fatal(os.WriteFile(name, []byte(src), 0o644))
	s, e = svg.ParseFile(name, mode)
	os.Remove(name)
	check("file", s, e)
	// the connection breaks after megabytes
	if _, e := svg.Parse(&chunkReader{data: []byte(src[:len(src)-1-r.Intn(len(src)/3)]), next: func() int { return 4096 }, eofLate: true, end: syscall.ECONNRESET}, mode); e == nil {
		t.Failf("%s mode: a read error in a document of %d bytes is not reported", modeNames[mode], len(src))
	}
	if _, e := parseString(src[:len(src)-1-r.Intn(len(src)/3)], mode); e == nil {
		t.Failf("%s mode: a document of %d bytes that is cut off is not reported", modeNames[mode], len(src))
	}
}

func scratch() string {
	if dir := os.Getenv("VERIF_TMP"); dir != "" {
		return dir
	}
	return os.TempDir()
}

type chunkReader struct {
	data    []byte
	next    func() int // size of the next chunk; 0 for an empty read
	eofLate bool       // end of file only after the last data
	end     error
	reads   int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	c.reads++
	if len(c.data) == 0 {
		return 0, c.end
	}
	n := c.next()
	if n > len(c.data) {
		n = len(c.data)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, c.data[:n])
	c.data = c.data[n:]
	if len(c.data) == 0 && !c.eofLate {
		return n, c.end
	}
	return n, nil
}

func openFiles() int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(es)
}

var charsets = []string{"iso-8859-1", "windows-1252", "iso-8859-2", "windows-1251", "koi8-r", "shift_jis", "euc-jp", "gbk", "gb18030", "big5", "euc-kr", "iso-8859-15", "windows-1250", "macintosh"}

func init() {
	errReads := []error{errors.New("the disk is on fire"), io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, os.ErrDeadlineExceeded, os.ErrClosed,
		context.Canceled, syscall.ECONNRESET, fmt.Errorf("read: %w", io.ErrUnexpectedEOF), &os.PathError{Op: "read", Path: "x", Err: syscall.EIO}}
	register(&Check{
		ID: "C02", Quick: 16000, Deep: 400000,
		Rule: "generated documents and test images delivered whole, in single bytes, random chunks, with empty reads, with data and end of file together, through files, and in other charsets; readers failing after any byte, documents cut at any byte of the root element, missing files, with the number of open descriptors watched; nontrivial: the document has at least one shape or the failure came after the first element",
		Run: func(t *T, k int, r *rand.Rand) {
			if k%1500 == 1 {
				c02large(t, k/1500, r)
				return
			}
			var src string
			if k%4 == 3 {
				src = string(seedFiles[r.Intn(len(seedFiles))].data)
			} else {
				g := rich(r)
				if k%16 == 5 {
					g.pBad = 0.1
				}
				if k%16 == 6 {
					g.pOdd = 0.1
				}
				src = g.doc().vary(r)
			}
			mode := allModes[r.Intn(3)]
			t.Input(src)
			got, err := parseString(src, mode)
			want := outcome(got, err)
			same := func(how string, s *svg.Svg, e error) {
				if o := outcome(s, e); o != want {
					t.Failf("%s mode, %s: %s", modeNames[mode], how, firstDiff(want, o))
				}
				t.Count("deliveries compared", 1)
				t.Eval(how + ":" + clip(src, 2000))
			}
			for _, late := range []bool{true, false} {
				mk := func(next func() int) *chunkReader {
					return &chunkReader{data: []byte(src), next: next, eofLate: late, end: io.EOF}
				}
				do := func(how string, c *chunkReader) {
					s, e := svg.Parse(c, mode)
					same(fmt.Sprintf("%s, end of file separate: %v", how, late), s, e)
				}
				do("all at once", mk(func() int { return 1 << 30 }))
				do("single bytes", mk(func() int { return 1 }))
				do("random chunks", mk(func() int { return 1 + r.Intn(1+r.Intn(200)) }))
				do("random chunks and empty reads", mk(func() int { return r.Intn(5) }))
			}
			if s, e := svg.Parse(struct{ io.Reader }{bytes.NewReader([]byte(src))}, mode); true {
				same("buffer", s, e)
			}

			// failing readers
			end := rootEnd(src)
			for i := 0; i < 6; i++ {
				n := r.Intn(len(src) + 1)
				switch i {
				case 0:
					n = len(src)
				case 1:
					n = end
				}
				for _, late := range []bool{true, false} {
					if n == 0 && !late {
						continue
					}
					errRead := errReads[r.Intn(len(errReads))]
					_, e := svg.Parse(&chunkReader{data: []byte(src[:n]), next: func() int { return 1 + r.Intn(64) }, eofLate: late, end: errRead}, mode)
					if e == nil {
						t.Failf("%s mode: the read error %q after %d of %d bytes is not reported", modeNames[mode], errRead, n, len(src))
					}
					t.Count("read failures", 1)
				}
			}
			// cut off documents
			if end > 0 && err == nil {
				cuts := 40
				for i := 0; i < cuts; i++ {
					n := r.Intn(end)
					if i < 6 {
						n = end - 1 - i
					}
					if n < 0 {
						continue
					}
					_, e := parseString(src[:n], mode)
					if e == nil {
						t.Input(src[:n])
						t.Failf("%s mode: a document cut off at byte %d of %d is not reported", modeNames[mode], n, len(src))
					}
					t.Count("cuts", 1)
				}
			}
			// files
			if k%8 == 0 {
				dir := scratch()
				name := filepath.Join(dir, fmt.Sprintf([]string{"doc-%d-%d.svg", "Doc %d-%d.SVG", "-d\u00e9 %d#%d ", "%d%%20%d.xml", ".%d;%d", "a\n%d\t%d"}[r.Intn(6)], os.Getpid(), k))
				fatal(os.WriteFile(name, []byte(src), 0o644))
				gc := debug.SetGCPercent(-1)
				n0 := openFiles()
				s, e := svg.ParseFile(name, mode)
				n1 := openFiles()
				_, e2 := svg.ParseFile(filepath.Join(dir, "missing", "x.svg"), mode)
				_, e3 := svg.ParseFile(dir, mode)
				fatal(os.WriteFile(name, []byte(src[:end*2/3]), 0o644))
				_, e4 := svg.ParseFile(name, mode)
				n2 := openFiles()
				debug.SetGCPercent(gc)
				os.Remove(name)
				same("file", s, e)
				if n1 != n0 {
					t.Failf("%d descriptors are open before parsing a file, %d after", n0, n1)
				}
				if e2 == nil || e3 == nil {
					t.Failf("a missing file (%v) or a directory (%v) is not reported", e2, e3)
				}
				if e4 == nil && end > 0 && err == nil {
					t.Failf("a file that is cut off is not reported")
				}
				if n2 != n0 {
					t.Failf("%d descriptors are open before failing to parse files, %d after", n0, n2)
				}
				t.Count("files", 4)
			}
			// charsets
			if k%4 == 1 {
				name := charsets[r.Intn(len(charsets))]
				enc, e := htmlindex.Get(name)
				fatal(e)
				text := "plain"
				for _, w := range []string{"größe é ñ", "łódź ű", "Привет мир", "日本語テキスト", "中文字符", "한국어", "½ £ ©", "漢字\\~"} {
					if b, err := enc.NewEncoder().String(w); err == nil {
						if d, err := enc.NewDecoder().String(b); err == nil && d == w && r.Intn(2) == 0 {
							text = w
						}
					}
				}
				g := newGen(r)
				body := el("svg", "viewBox", "0 0 10 10").add(el("title").add(textNode(text)), el("defs").add(el("rect", "id", strings.Fields(text)[0], "width", "5", "height", "6")),
					el("use", "href", "#"+strings.Fields(text)[0]), el("desc").add(textNode("x "+text+" y")), g.poly()).plain()
				bad := []string{"x-unknown", "utf-99", "nonesuch", "iso-8859-99"}[r.Intn(4)]
				if _, e := htmlindex.Get(bad); e != nil {
					s := `<?xml version="1.0" encoding="` + bad + `"?>` + body
					t.Input(s)
					if _, e := parseString(s, mode); e == nil {
						t.Failf("the unknown charset %s is not reported", bad)
					}
				}
				for _, label := range []string{name, strings.ToUpper(name)} {
					head := `<?xml version="1.0" encoding="` + label + `"?>` + "\n"
					raw, e := encoding.ReplaceUnsupported(enc.NewEncoder()).String(body)
					if e != nil {
						continue
					}
					if back, e := enc.NewDecoder().String(raw); e != nil || back != body {
						continue
					}
					t.Input(head + body)
					a, e1 := parseString(body, mode)
					b, e2 := parseString(head+raw, mode)
					if x, y := outcome(a, e1), outcome(b, e2); x != y {
						t.Failf("in %s: %s (%v)", label, firstDiff(x, y), e2)
					}
					t.Count("charsets compared", 1)
				}
			}
			for _, empty := range []string{"", " ", "\n\n", "<!-- x -->", "<?xml version='1.0'?>", "text", "<!DOCTYPE svg>", "<?pi?> <!-- --> "} {
				if _, e := parseString(empty, mode); e == nil {
					t.Input(empty)
					t.Failf("input without any element is not reported")
				}
			}
		},
	})
}

func textNode(s string) *Node { return text(s) }

// rootEnd is where the end tag of the root element ends, 0 if there is none.
func rootEnd(src string) int {
	i := strings.LastIndex(src, "</svg>")
	if i >= 0 {
		return i + len("</svg>")
	}
	i = strings.LastIndex(src, "</svg")
	if i >= 0 {
		return i + strings.Index(src[i:], ">") + 1
	}
	i = strings.Index(src, "<svg")
	if j := strings.LastIndex(src, "/>"); i >= 0 && j > i {
		return j + 2
	}
	return 0
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		from, to := i-60, i+120
		if from < 0 {
			from = 0
		}
		if to > len(s) {
			to = len(s)
		}
		return s[from:to]
	}
	return fmt.Sprintf("results differ: ...%s... is ...%s...", cut(a), cut(b))
}

// memory lists the memory that can be changed through a value.
type block struct {
	from, to uintptr
	what     string
}

func blocks(v reflect.Value, what string, out *[]block, depth int) {
	if depth > 30 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if n := v.Elem().Type().Size(); n > 0 {
			*out = append(*out, block{v.Pointer(), v.Pointer() + n, what})
		}
		blocks(v.Elem(), what, out, depth+1)
	case reflect.Interface:
		if !v.IsNil() {
			blocks(v.Elem(), what, out, depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath == "" {
				blocks(v.Field(i), what+"."+f.Name, out, depth+1)
			}
		}
	case reflect.Slice:
		if n := v.Type().Elem().Size() * uintptr(v.Cap()); n > 0 {
			*out = append(*out, block{v.Pointer(), v.Pointer() + n, what})
		}
		for i := 0; i < v.Len(); i++ {
			blocks(v.Index(i), what+"[]", out, depth+1)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		*out = append(*out, block{v.Pointer(), v.Pointer() + 1, what})
		for _, k := range v.MapKeys() {
			blocks(v.MapIndex(k), what+"{}", out, depth+1)
		}
	}
}

func shared(a, b interface{}) string {
	var x, y []block
	blocks(reflect.ValueOf(a), "drawing", &x, 0)
	blocks(reflect.ValueOf(b), "drawing", &y, 0)
	starts := map[uintptr]string{}
	for _, p := range x {
		starts[p.from] = p.what
	}
	for _, q := range y {
		if w, ok := starts[q.from]; ok {
			return w + " and " + q.what
		}
	}
	if len(x)*len(y) < 200000 {
		for _, p := range x {
			for _, q := range y {
				if p.from < q.to && q.from < p.to {
					return p.what + " and " + q.what
				}
			}
		}
	}
	return ""
}

// scramble changes everything that can be changed through a value.
func scramble(v reflect.Value, depth int) {
	if depth > 30 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			scramble(v.Elem(), depth+1)
		}
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		// what is boxed cannot be changed, but what it refers to can
		switch e.Kind() {
		case reflect.Struct:
			for i := 0; i < e.NumField(); i++ {
				if f := e.Field(i); e.Type().Field(i).PkgPath == "" && (f.Kind() == reflect.Slice || f.Kind() == reflect.Map || f.Kind() == reflect.Ptr) {
					scramble(f, depth+1)
				}
			}
		case reflect.Ptr, reflect.Slice, reflect.Map:
			scramble(e, depth+1)
		}
		if v.CanSet() {
			v.Set(reflect.Zero(v.Type()))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				scramble(v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i), depth+1)
		}
		if c := v.Cap(); c > v.Len() && v.CanSet() {
			w := v.Slice(0, c)
			for i := v.Len(); i < c; i++ {
				w.Index(i).Set(reflect.Zero(v.Type().Elem()))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i), depth+1)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			scramble(v.MapIndex(k), depth+1)
			v.SetMapIndex(k, reflect.Value{})
		}
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat(-12345.678)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(-77)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(77)
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("changed")
		}
	}
}

var (
	defaultStyleDump = dump(svg.DefaultStyle)
	identityDump     = dump(svg.Identity)
)

func checkGlobals(t *T, after string) {
	if s := dump(svg.DefaultStyle); s != defaultStyleDump {
		t.Failf("%s changed the default style: %s", after, firstDiff(defaultStyleDump, s))
	}
	if s := dump(svg.Identity); s != identityDump {
		t.Failf("%s changed the identity matrix: %s", after, s)
	}
}

func init() {
	register(&Check{
		ID: "C03", Quick: 2400, Deep: 60000, Race: true,
		Rule: "pools of generated documents (also failing ones) and test images parsed in random order, repeatedly and by up to 16 goroutines at once under the race detector, some drawn in between; each result is compared with the first, its memory with that of other results, and others again after everything reachable from one was overwritten; nontrivial: a pool with at least two different documents",
		Run: func(t *T, k int, r *rand.Rand) {
			n := 3 + r.Intn(6)
			docs := make([]string, n)
			modes := make([]svg.ErrorMode, n)
			want := make([]string, n)
			parsed := make([]*svg.Svg, n)
			for i := range docs {
				switch r.Intn(6) {
				case 0:
					docs[i] = string(seedFiles[r.Intn(len(seedFiles))].data)
					if len(docs[i]) > 20000 {
						docs[i] = cyclic(r)
					}
				case 1:
					docs[i] = hostileDoc(r)
					if len(docs[i]) > 20000 {
						docs[i] = docs[i][:20000]
					}
				default:
					g := rich(r)
					g.budget = 10
					if r.Intn(3) == 0 {
						g.pOdd = 0.1
					}
					docs[i] = g.doc().vary(r)
				}
				modes[i] = allModes[r.Intn(3)]
			}
			t.Input(strings.Join(docs, "\n=====\n"))
			one := func(i int) (*svg.Svg, string) {
				s, err := parseString(docs[i], modes[i])
				return s, outcome(s, err)
			}
			for i := range docs {
				parsed[i], want[i] = one(i)
			}
			checkGlobals(t, "parsing")
			// again, in another order
			again := make([]*svg.Svg, n)
			for _, i := range r.Perm(n) {
				if parsed[i] != nil && r.Intn(3) == 0 {
					drawAny(parsed[i], r)
				}
				s, o := one(i)
				again[i] = s
				if o != want[i] {
					t.Failf("document %d: parsing it again gives another result: %s", i, firstDiff(want[i], o))
				}
			}
			checkGlobals(t, "parsing and drawing")
			// concurrently
			var wg sync.WaitGroup
			bad := make([]string, 16)
			workers := 2 + r.Intn(7)
			start := make(chan bool)
			for w := 0; w < workers; w++ {
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					<-start
					for j := 0; j < n; j++ {
						i := (j*(w|1) + w) % n
						if _, o := one(i); o != want[i] {
							bad[w] = fmt.Sprintf("document %d: parsing it concurrently gives another result: %s", i, firstDiff(want[i], o))
						}
					}
				}(w)
			}
			close(start)
			wg.Wait()
			for _, s := range bad {
				if s != "" {
					t.Failf("%s", s)
				}
			}
			t.Count("concurrent parses", workers*n)
			// memory
			for i := range parsed {
				for j := range again {
					if parsed[i] == nil || again[j] == nil {
						continue
					}
					if s := shared(parsed[i], again[j]); s != "" {
						t.Failf("the results for documents %d and %d share memory: %s", i, j, s)
					}
					t.Count("pairs of results compared", 1)
				}
				if parsed[i] != nil {
					if s := shared(parsed[i], &svg.DefaultStyle); s != "" {
						t.Failf("the result for document %d and the default style share memory: %s", i, s)
					}
				}
			}
			for i := range parsed {
				if parsed[i] == nil {
					continue
				}
				scramble(reflect.ValueOf(parsed[i]), 0)
			}
			for i := range again {
				if again[i] == nil {
					continue
				}
				if o := dump(again[i]); !strings.HasSuffix(want[i], o) {
					t.Failf("document %d: changing other results changes this one: %s", i, firstDiff(want[i][len(want[i])-len(o):], o))
				}
				if _, o := one(i); o != want[i] {
					t.Failf("document %d: changing results changes later ones: %s", i, firstDiff(want[i], o))
				}
			}
			checkGlobals(t, "changing a result")
			t.Eval(strings.Join(docs, "\n"))
		},
	})
}

type logCapture struct {
	mu    sync.Mutex
	lines []string
}

func (l *logCapture) Write(p []byte) (int, error) {
	l.mu.Lock()
	l.lines = append(l.lines, string(p))
	l.mu.Unlock()
	return len(p), nil
}

func withLog(f func()) []string {
	l := &logCapture{}
	log.SetOutput(l)
	defer log.SetOutput(io.Discard)
	f()
	return l.lines
}

func init() {
	register(&Check{
		ID: "C04", Quick: 80000, Deep: 1000000,
		Rule: "generated documents with unsupported elements, path commands and keywords at random places (also in definitions, masks, style attributes), clean documents, and arbitrary hostile input, each in all three modes with the log captured; nontrivial: the document contains something unsupported, or strict mode accepted it",
		Run: func(t *T, k int, r *rand.Rand) {
			var src string
			var root *Node
			if k%4 == 3 {
				src = hostileDoc(r)
			} else {
				g := rich(r)
				if k%4 != 0 {
					g.pOdd = 0.03 + 0.2*r.Float64()
				}
				if k%40 == 5 {
					g.pBad = 0.03
				}
				root = g.doc()
				src = root.vary(r)
			}
			t.Input(src)
			var res [3]*svg.Svg
			var errs [3]error
			var logs [3][]string
			for i, mode := range allModes {
				logs[i] = withLog(func() { res[i], errs[i] = parseString(src, mode) })
			}
			if len(logs[0]) > 0 {
				t.Failf("ignore mode logs %q", logs[0])
			}
			ig, wa, st := outcome(res[0], errs[0]), outcome(res[1], errs[1]), outcome(res[2], errs[2])
			if ig != wa {
				t.Failf("ignore and warn mode: %s", firstDiff(ig, wa))
			}
			if errs[2] == nil {
				if st != ig {
					t.Failf("strict mode succeeds, but ignore mode: %s", firstDiff(st, ig))
				}
				if len(logs[1]) > 0 {
					t.Failf("strict mode succeeds, but warn mode logs %q", logs[1])
				}
				t.Count("strict successes", 1)
			}
			if len(logs[1]) > 0 && errs[2] == nil {
				t.Failf("warn mode logs, strict mode accepts")
			}
			if root == nil {
				if len(logs[1]) > 0 || errs[2] == nil {
					t.Eval(clip(src, 3000))
				} else {
					t.Eval("")
				}
				return
			}
			e, v, why := evaluate(root, svg.WarnErrorMode)
			_, sv, swhy := evaluate(root, svg.StrictErrorMode)
			if sv == vFail && errs[2] == nil {
				t.Failf("strict mode accepts %s", swhy)
			}
			if sv == vOK && errs[2] != nil {
				t.Failf("strict mode rejects a supported document: %v", errs[2])
			}
			switch v {
			case vUnspec:
				t.Count("left open", 1)
				return
			case vFail:
				if errs[1] == nil {
					t.Failf("warn mode: no error, expected one: %s", why)
				}
			case vOK:
				if errs[1] != nil {
					t.Failf("warn mode: unexpected error: %v", errs[1])
				}
				if s := compareDoc(e, res[1], fAll); s != "" {
					t.Failf("warn mode: %s", s)
				}
				if len(logs[1]) < len(e.logs) {
					t.Failf("warn mode logs %d times, expected %d: %q", len(logs[1]), len(e.logs), e.logs)
				}
				all := strings.Join(logs[1], "")
				for _, w := range e.logs {
					if !strings.Contains(all, w) {
						t.Failf("warn mode does not mention %q: %q", w, logs[1])
					}
				}
				if len(e.logs) == 0 && len(logs[1]) > 0 {
					t.Failf("warn mode logs %q although everything is supported", logs[1])
				}
				t.Count("unsupported things", len(e.logs))
			}
			t.Eval(src)
		},
	})
}

func randMat(r *rand.Rand) mat {
	var m mat
	for i := range m {
		switch r.Intn(8) {
		case 0:
			m[i] = 0
		case 1:
			m[i] = 1
		case 2:
			m[i] = -1
		case 3:
			m[i] = math.Round(r.NormFloat64()*100) / 10
		default:
			m[i] = r.NormFloat64() * 2
		}
	}
	if r.Intn(3) == 0 {
		m[4], m[5] = r.NormFloat64()*200, r.NormFloat64()*200
	}
	switch r.Intn(8) {
	case 0:
		return ident
	case 1:
		s, c := math.Sincos(r.NormFloat64() * 3)
		return mat{c, s, -s, c, m[4], m[5]}
	case 2:
		return mat{m[0], 0, 0, m[3], 0, 0}
	case 3: // small or large
		f := math.Pow(10, r.Float64()*9-6)
		for i := 0; i < 4; i++ {
			m[i] *= f
		}
		if r.Intn(2) == 0 {
			f = math.Pow(10, r.Float64()*4-2)
			m[0] *= f
			m[1] *= f
		}
	}
	return m
}

func init() {
	register(&Check{
		ID: "C11", Quick: 2000000, Deep: 8000000,
		Rule: "random matrices (identity, rotations, mirrors, singular and general ones), points, vectors, angles and path operations given to every exported matrix operation and compared with an independent implementation and the algebraic laws; nontrivial: the matrix is not the identity",
		Run: func(t *T, k int, r *rand.Rand) {
			a, b := randMat(r), randMat(r)
			x, y := r.NormFloat64()*100, r.NormFloat64()*100
			A, B := a.svg(), b.svg()
			t.Input(fmt.Sprintf("A=%v B=%v point=%v,%v", A, B, x, y))
			same := func(what string, got svg.Matrix2D, want, mag mat) {
				if !nearMat(got, want, mag) {
					t.Failf("%s is %v, expected %v", what, got, want)
				}
			}
			nearP := func(what string, gx, gy, wx, wy, mag float64) {
				if !(math.Abs(gx-wx) <= 1e-9*(1+mag)) || !(math.Abs(gy-wy) <= 1e-9*(1+mag)) {
					t.Failf("%s is %v,%v, expected %v,%v", what, gx, gy, wx, wy)
				}
			}
			aa, ba := a.abs(), b.abs()
			same("A*B", A.Mult(B), a.mul(b), aa.mul(ba))
			same("A*identity", A.Mult(svg.Identity), a, aa)
			same("identity*A", svg.Identity.Mult(A), a, aa)
			px, py := B.Transform(x, y)
			qx, qy := A.Transform(px, py)
			rx, ry := A.Mult(B).Transform(x, y)
			mx, my := aa.mul(ba).apply(math.Abs(x), math.Abs(y))
			nearP("(A*B)p", rx, ry, qx, qy, mx+my)
			wx, wy := a.apply(x, y)
			gx, gy := A.Transform(x, y)
			ax, ay := aa.apply(math.Abs(x), math.Abs(y))
			nearP("A p", gx, gy, wx, wy, ax+ay)
			vx, vy := A.TransformVector(x, y)
			nearP("A v", vx, vy, wx-a[4], wy-a[5], ax+ay)
			th := r.NormFloat64() * 2
			sin, cos := math.Sincos(th)
			one := mat{1, 1, 1, 1, 0, 0}
			same("translate", A.Translate(x, y), a.mul(mat{1, 0, 0, 1, x, y}), aa.mul(mat{1, 0, 0, 1, math.Abs(x), math.Abs(y)}))
			same("scale", A.Scale(x, y), a.mul(mat{x, 0, 0, y, 0, 0}), aa.mul(mat{math.Abs(x), 0, 0, math.Abs(y), 0, 0}))
			same("rotate", A.Rotate(th), a.mul(mat{cos, sin, -sin, cos, 0, 0}), aa.mul(one))
			if tan := math.Tan(th); math.Abs(tan) < 1e3 {
				same("skewX", A.SkewX(th), a.mul(mat{1, 0, tan, 1, 0, 0}), aa.mul(mat{1, 0, math.Abs(tan), 1, 0, 0}))
				same("skewY", A.SkewY(th), a.mul(mat{1, tan, 0, 1, 0, 0}), aa.mul(mat{1, math.Abs(tan), 0, 1, 0, 0}))
			}
			if A != a.svg() {
				t.Failf("an operation changed its matrix")
			}
			if det := a[0]*a[3] - a[1]*a[2]; math.Abs(det) > 1e-2*(math.Abs(a[0]*a[3])+math.Abs(a[1]*a[2])) {
				inv := A.Invert()
				ia := matOf(inv).abs()
				same("A*A^-1", A.Mult(inv), ident, aa.mul(ia))
				same("A^-1*A", inv.Mult(A), ident, ia.mul(aa))
				t.Count("inverses", 1)
			}
			fp := func() fixed.Point26_6 {
				return fixed.Point26_6{X: fixed.Int26_6(r.Intn(40000) - 20000), Y: fixed.Int26_6(r.Intn(40000) - 20000)}
			}
			check := func(what string, in, out fixed.Point26_6) {
				x, y := a.apply(float64(in.X)/64, float64(in.Y)/64)
				if math.Abs(x) > 3e7 || math.Abs(y) > 3e7 {
					return // out of range
				}
				if math.Abs(float64(out.X)/64-x) > 1.0/64+1e-6 || math.Abs(float64(out.Y)/64-y) > 1.0/64+1e-6 {
					t.Failf("%s: %v is transformed to %v, expected %v,%v", what, in, out, x, y)
				}
			}
			p, q, s := fp(), fp(), fp()
			check("TFixed", p, A.TFixed(p))
			check("MoveTo", p, A.MoveTo(svg.OpMoveTo(p)))
			check("LineTo", q, A.LineTo(svg.OpLineTo(q)))
			o1, o2 := A.QuadTo(svg.OpQuadTo{p, q})
			check("QuadTo", p, o1)
			check("QuadTo", q, o2)
			c1, c2, c3 := A.CubicTo(svg.OpCubicTo{p, q, s})
			check("CubicTo", p, c1)
			check("CubicTo", q, c2)
			check("CubicTo", s, c3)
			if g, w := A.LineWidthScale(), a.lineScale(); !near(g, w) {
				t.Failf("line width scale %v, expected %v", g, w)
			}
			if g, w := svg.Identity.Rotate(th).Mult(A).LineWidthScale(), A.LineWidthScale(); math.Abs(g-w) > 1e-9*(1+w) {
				t.Failf("rotation changes the line width scale from %v to %v", w, g)
			}
			if g, w := A.Scale(-1, 1).LineWidthScale(), A.LineWidthScale(); math.Abs(g-w) > 1e-9*(1+w) {
				t.Failf("mirroring changes the line width scale from %v to %v", w, g)
			}
			if a == ident {
				t.Eval("")
			} else {
				t.Eval(fmt.Sprint(a, b))
			}
		},
	})

	register(&Check{
		ID: "C14", Quick: 75000, Deep: 1200000,
		Rule: "generated documents whose defs hold shapes, groups, nested groups and nested uses (also re-defined ids, and invalid or circular references), compared with the reference semantics, and parsed a second time with every use replaced by a group holding its definition; nontrivial: at least one use was expanded",
		Run: func(t *T, k int, r *rand.Rand) {
			if k%200 == 189 {
				judge(t, bigDoc(r, "defs", "defbody", "chain", "ids"), fAll&^fMeta, r)
				return
			}
			if k%25 == 24 {
				src := cyclic(r)
				n, err := readTree([]byte(src))
				fatal(err)
				judgeText(t, n, src, fGeom, nil)
				return
			}
			g := newGen(r)
			g.budget = 6 + r.Intn(10)
			g.units = 0.05
			g.pStyle, g.pTrans = 0.35, 0.25
			g.pDefs, g.pUse = 0.15, 0.4
			switch r.Intn(8) {
			case 0:
				g.pGrad, g.pGradUse = 0.1, 0.3
			case 1:
				g.pMask, g.pMasked = 0.1, 0.2
			case 2:
				g.pBad = 0.05
			case 3:
				g.pTitle = 0.1
			case 4:
				g.pOdd = 0.05
			}
			n := g.root()
			if r.Intn(4) == 0 {
				// long chains of uses, masked on the way
				g.chain = true
				g.masks = append(g.masks, "m1", "m2", "m3")
				g.pMasked = 0.3
				n.add(g.defsElement())
			}
			n.add(g.defsElement(), g.use())
			n.add(g.content(3+g.tail(4, 20), false)...)
			judge(t, n, fAll&^fMeta, r)
			inlined(t, n, r)
		},
	})

	register(&Check{
		ID: "C15", Quick: 150000, Deep: 1200000,
		Rule: "generated documents with masks inside and outside of defs and inside styled, transformed and masked groups, holding shapes, groups and uses, applied by attribute or style on several levels; nontrivial: at least one mask or mask list was compared",
		Run: func(t *T, k int, r *rand.Rand) {
			if k%200 == 189 {
				judge(t, bigDoc(r, "masks", "maskcount", "maskbody", "ids"), fMaskList|fMasks|fGeom|fTransform|fFill|fStroke|fOpacity, r)
				return
			}
			g := newGen(r)
			g.budget = 6 + r.Intn(16)
			g.units = 0.1
			g.pStyle, g.pTrans = 0.2, 0.2
			g.pMask, g.pMasked = 0.25, 0.4
			if r.Intn(2) == 0 {
				g.pDefs, g.pUse = 0.15, 0.2
			}
			if r.Intn(6) == 0 {
				g.pTitle = 0.1
			}
			if r.Intn(6) == 0 {
				g.pGrad, g.pGradUse = 0.1, 0.2
			}
			g.masks = append(g.masks, "unknown")
			n := g.root()
			n.add(g.mask())
			n.add(g.content(3+g.tail(4, 30), false)...)
			judge(t, n, fMaskList|fMasks|fGeom|fTransform|fFill|fStroke|fOpacity, r)
		},
	})

	register(&Check{
		ID: "C16", Quick: 400000, Deep: 1200000,
		Rule: "generated documents with view boxes and sizes in any notation (missing, zero, percentages, wrong count), nested svg elements, titles and descriptions at every level (entities, CDATA, comments inside, empty), stray text, definitions with text; nontrivial: view box, size and texts were compared",
		Run: func(t *T, k int, r *rand.Rand) {
			if k%200 == 189 {
				judge(t, bigDoc(r, "titles", "textlen", "textparts"), fMeta|fTitles, r)
				return
			}
			g := newGen(r)
			g.budget = 4 + r.Intn(10)
			g.pTitle, g.pText, g.pStyle, g.pTrans = 0.35, 0.15, 0.1, 0.05
			if r.Intn(3) == 0 {
				g.pDefs, g.pUse = 0.15, 0.15
			}
			if r.Intn(4) == 0 {
				g.pGrad = 0.1
				g.pMask = 0.1
			}
			if r.Intn(4) == 0 {
				g.pOdd = 0.1
			}
			n := el("svg", "xmlns", "http://www.w3.org/2000/svg")
			fs := []float64{g.val(), g.val(), g.pos(), g.pos()}
			if g.largeBox = r.Intn(3) == 0; g.largeBox {
				fs[2], fs[3] = g.boxSize(), g.boxSize()
			}
			switch r.Intn(8) {
			case 0:
				g.viewBox(n)
			case 1:
				fs = fs[:r.Intn(5)]
				n.set("viewBox", g.numbers(fs))
			case 2:
				for i := r.Intn(3); i >= 0; i-- {
					fs = append(fs, g.val())
				}
				n.set("viewBox", g.numbers(fs))
			case 3:
				fs[2+r.Intn(2)] = 0
				n.set("viewBox", g.numbers(fs))
			case 4:
			case 5:
				fs[2+r.Intn(2)] *= math.Pow(10, float64(-1-r.Intn(6)))
				n.set("viewBox", g.numbers(fs))
			default:
				n.set("viewBox", g.numbers(fs))
			}
			for _, a := range []string{"width", "height"} {
				if r.Intn(2) == 0 {
					g.units = 0.5
					f := g.pos()
					if g.largeBox {
						f = g.boxSize()
					}
					n.set(a, g.length(f))
					g.units = 0.1
				}
			}
			n.add(g.content(2+g.tail(4, 20), false)...)
			var x *Node = n
			if r.Intn(12) == 0 {
				x = el("g").add(n, el("svg", "viewBox", "1 2 3 4", "width", "7"))
			}
			judge(t, x, fMeta|fTitles, r)
		},
	})

	register(&Check{
		ID: "C17", Quick: 200000, Deep: 1500000,
		Rule: "paths parsed from generated documents and test images, and paths built with the exported methods over the whole range of 26.6 coordinates: their text is taken apart token by token and parsed back, operation by operation; nontrivial: the path has at least two operations",
		Run: func(t *T, k int, r *rand.Rand) {
			var paths []svg.Path
			switch {
			case k%3 == 0:
				g := rich(r)
				s, _ := parseString(g.doc().plain(), svg.IgnoreErrorMode)
				if s != nil {
					for _, p := range s.SvgPaths {
						paths = append(paths, p.Path)
					}
				}
			case k%500 == 1:
				f := seedFiles[r.Intn(len(seedFiles))]
				s, _ := parseString(string(f.data), svg.IgnoreErrorMode)
				if s != nil {
					for _, p := range s.SvgPaths {
						paths = append(paths, p.Path)
					}
				}
			case k%6 == 2:
				buildAny(t, r)
			default:
				paths = append(paths, buildPath(t, r))
			}
			for _, p := range paths {
				roundTrip(t, p)
			}
		},
	})
}

func randPoint(r *rand.Rand) fixed.Point26_6 {
	c := func() fixed.Int26_6 {
		switch r.Intn(8) {
		case 0:
			return fixed.Int26_6(int32(r.Uint32()))
		case 1:
			return []fixed.Int26_6{math.MaxInt32, math.MinInt32, 0, 1, -1, 63, 64, -64, 1 << 24, 1<<24 + 1, -(1 << 24) - 1}[r.Intn(11)]
		case 2:
			return fixed.Int26_6(r.Intn(1<<29) - 1<<28)
		case 3:
			return fixed.Int26_6(r.Intn(129) - 64)
		}
		return fixed.Int26_6(r.Intn(64000) - 32000)
	}
	return fixed.Point26_6{X: c(), Y: c()}
}

// buildPath builds a path with the exported methods and checks each of them.
func buildPath(t *T, r *rand.Rand) svg.Path {
	var p svg.Path
	var want []svg.Operation
	t.Input("built path")
	n := 1 + r.Intn(12)
	if r.Intn(50) == 0 {
		n = 500
		if r.Intn(8) == 0 {
			n = 1000 + r.Intn(5000)
		}
	}
	open := false
	for i := 0; i < n; i++ {
		a, b, c := randPoint(r), randPoint(r), randPoint(r)
		op := r.Intn(6)
		if !open {
			op = 0
		}
		switch op {
		case 0:
			p.Start(a)
			want = append(want, svg.OpMoveTo(a))
			open = true
		case 1:
			p.Line(a)
			want = append(want, svg.OpLineTo(a))
		case 2:
			p.QuadBezier(a, b)
			want = append(want, svg.OpQuadTo{a, b})
		case 3:
			p.CubeBezier(a, b, c)
			want = append(want, svg.OpCubicTo{a, b, c})
		case 4:
			p.Stop(true)
			want = append(want, svg.OpClose{})
			open = false
		case 5:
			p.Stop(false)
		}
		if len(p) != len(want) {
			t.Failf("building: %d operations after %d were added", len(p), len(want))
		}
		j := 0
		if i < n-1 {
			j = max(0, len(want)-2)
		}
		for ; j < len(want); j++ {
			if p[j] != want[j] {
				t.Failf("building: operation %d is %v, expected %v", j, p[j], want[j])
			}
		}
	}
	if r.Intn(20) == 0 || n >= 500 {
		q := append(svg.Path(nil), p...)
		q.Clear()
		if len(q) != 0 || q.String() != "" {
			t.Failf("clearing leaves %v", q)
		}
		q.Start(randPoint(r))
		if len(q) != 1 {
			t.Failf("%d operations after clearing and adding one", len(q))
		}
	}
	return p
}

// buildAny builds a path in any order of operations.
func buildAny(t *T, r *rand.Rand) {
	var p svg.Path
	var want []svg.Operation
	text := "built:"
	for i := 1 + r.Intn(10); i > 0; i-- {
		a, b, c := randPoint(r), randPoint(r), randPoint(r)
		switch op := r.Intn(7); op {
		case 0:
			p.Start(a)
			want = append(want, svg.OpMoveTo(a))
			text += " move"
		case 1:
			p.Line(a)
			want = append(want, svg.OpLineTo(a))
			text += " line"
		case 2:
			p.QuadBezier(a, b)
			want = append(want, svg.OpQuadTo{a, b})
			text += " quad"
		case 3:
			p.CubeBezier(a, b, c)
			want = append(want, svg.OpCubicTo{a, b, c})
			text += " cubic"
		case 4, 5:
			p.Stop(true)
			want = append(want, svg.OpClose{})
			text += " close"
		case 6:
			p.Stop(false)
			text += " stop"
		}
		t.Input(text)
		if len(p) != len(want) {
			t.Failf("building: %d operations after %d were added", len(p), len(want))
		}
		for j := range want {
			if p[j] != want[j] {
				t.Failf("building: operation %d is %v, expected %v", j, p[j], want[j])
			}
		}
		if r.Intn(20) == 0 {
			p.Clear()
			want = nil
			text += " clear"
		}
	}
	t.Count("paths built in any order", 1)
	t.Eval(text)
}

func roundTrip(t *T, p svg.Path) {
	d := p.ToSVGPath()
	t.Input(d)
	if s := p.String(); s != d {
		t.Failf("the texts of the path differ: %s", firstDiff(d, s))
	}
	if s := fmt.Sprint(p); s != d {
		t.Failf("the printed text of the path differs: %s", firstDiff(d, s))
	}
	rest := d
	for i, op := range p {
		s := op.String()
		j := strings.Index(rest, s)
		if j < 0 || strings.Trim(rest[:j], " ,\n\t") != "" {
			t.Failf("operation %d has the text %q, the path %q there", i, s, clip(rest, 100))
		}
		rest = rest[j+len(s):]
		k, ps := opPoints(op)
		ops := (&model{mode: svg.StrictErrorMode}).safePath("M0 0" + s)
		if k == 'M' || k == 'Z' {
			if len(ops) != 2 || ops[1].k != k {
				t.Failf("the text %q of operation %d is not one operation", s, i)
			}
		} else if len(ops) != 2 || ops[1].k != k {
			t.Failf("the text %q of operation %d is not one operation", s, i)
		}
		for n, q := range ps {
			if math.Abs(ops[1].p[2*n]-q.x) > 1.0/32 || math.Abs(ops[1].p[2*n+1]-q.y) > 1.0/32 {
				t.Failf("the text %q of operation %d has other coordinates than %v", s, i, ps)
			}
		}
	}
	if strings.Trim(rest, " ,\n\t") != "" {
		t.Failf("the text of the path goes on with %q", clip(rest, 100))
	}
	got, err := parseString("<svg><path d='"+d+"'/></svg>", svg.StrictErrorMode)
	if err != nil {
		t.Failf("the text of the path does not parse: %v", err)
	}
	if len(p) == 0 {
		if len(got.SvgPaths) != 0 {
			t.Failf("an empty path parses to %v", got.SvgPaths)
		}
		t.Eval("")
		return
	}
	if len(got.SvgPaths) != 1 || len(got.SvgPaths[0].Path) != len(p) {
		t.Failf("the text of a path with %d operations parses to %d paths", len(p), len(got.SvgPaths))
	}
	for i := range p {
		k, a := opPoints(p[i])
		k2, b := opPoints(got.SvgPaths[0].Path[i])
		if k != k2 {
			t.Failf("operation %d: %v parses to %v", i, p[i], got.SvgPaths[0].Path[i])
		}
		for j := range a {
			if math.Abs(a[j].x-b[j].x) > 1.0/32 || math.Abs(a[j].y-b[j].y) > 1.0/32 {
				t.Failf("operation %d: %v parses to %v", i, p[i], got.SvgPaths[0].Path[i])
			}
		}
	}
	t.Count("operations compared", len(p))
	if len(p) > 1 {
		t.Eval(d)
	} else {
		t.Eval("")
	}
}

// safePath is path without the limits of the reference semantics.
func (m *model) safePath(d string) (ops []mOp) {
	m.doc = &mDoc{}
	m.wide = true
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopEval); !ok {
				panic(r)
			}
			ops = nil
		}
	}()
	return m.path(d)
}

// inlined parses a document with every use replaced by its definition.
func inlined(t *T, root *Node, r *rand.Rand) {
	e, v, _ := evaluate(root, svg.IgnoreErrorMode)
	if v != vOK || e == nil {
		return
	}
	in := &inliner{defs: map[string]*Node{}, m: &model{doc: &mDoc{viewBox: e.viewBox}}}
	n := in.copy(root, false)
	if in.fail || in.count == 0 {
		return
	}
	src, src2 := root.plain(), n.plain()
	t.Input(src + "\n<!-- written out -->\n" + src2)
	a, err := parseString(src, svg.IgnoreErrorMode)
	b, err2 := parseString(src2, svg.IgnoreErrorMode)
	if err != nil || err2 != nil {
		t.Failf("errors %v and, with uses written out, %v", err, err2)
	}
	if len(a.SvgPaths) != len(b.SvgPaths) {
		t.Failf("%d paths, %d with uses written out", len(a.SvgPaths), len(b.SvgPaths))
	}
	for i := range a.SvgPaths {
		p, q := a.SvgPaths[i], b.SvgPaths[i]
		if s, u := p.Path.String(), q.Path.String(); s != u {
			t.Failf("path %d: with uses written out, %s", i, firstDiff(s, u))
		}
		if !nearMat(p.Style.Transform, matOf(q.Style.Transform), e.paths[i].style.ta) {
			t.Failf("path %d: transform %v, with uses written out %v", i, p.Style.Transform, q.Style.Transform)
		}
		p.Style.Transform = q.Style.Transform
		if s, u := dump(p.Style), dump(q.Style); s != u {
			t.Failf("path %d: with uses written out, %s", i, firstDiff(s, u))
		}
	}
	t.Count("uses written out", in.count)
}

type inliner struct {
	defs  map[string]*Node
	m     *model
	count int
	fail  bool
	open  int
}

func (in *inliner) length(n *Node, k string, ref byte) (f float64) {
	defer func() {
		if recover() != nil {
			in.fail = true
		}
	}()
	return in.m.lengthAttr(n, k, ref)
}

func (in *inliner) copy(n *Node, inDefs bool) *Node {
	if n.Name == "" {
		return text(n.Text)
	}
	if in.open > 0 && (n.Name == "mask" || n.Name == "linearGradient" || n.Name == "radialGradient") {
		return el("g") // in effect where it is defined
	}
	if n.Name == "use" && !inDefs {
		href, ok := n.get("href")
		if !ok {
			href, _ = n.get("xlink:href")
		}
		d := in.defs[strings.TrimPrefix(href, "#")]
		if d == nil || in.open > 30 {
			in.fail = true
			return n.clone()
		}
		in.count++
		g := el("g")
		for _, a := range n.Attrs {
			switch a.K {
			case "x", "y", "href", "xlink:href", "id":
			default:
				g.set(a.K, a.V)
			}
		}
		x, y := in.length(n, "x", 'w'), in.length(n, "y", 'h')
		inner := el("g", "transform", fmt.Sprintf("translate(%v %v)", x, y))
		in.open++
		inner.add(in.copy(d, false))
		in.open--
		inner.walk(func(k *Node) {
			if k.Name == "title" || k.Name == "desc" || k.Name == "defs" {
				k.Name, k.Kids = "g", nil
			}
			if k.Name == "mask" || k.Name == "linearGradient" || k.Name == "radialGradient" || k.Name != "" && !supported[k.Name] {
				in.fail = true
			}
		})
		return g.add(inner)
	}
	c := &Node{Name: n.Name, Attrs: append([]Attr(nil), n.Attrs...)}
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, in.copy(k, inDefs || n.Name == "defs"))
	}
	if inDefs && n.Name != "" && in.open == 0 {
		if id, ok := n.get("id"); ok && id != "" {
			in.defs[id] = n
		}
	}
	return c
}
