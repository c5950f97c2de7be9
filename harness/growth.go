package main

import (
	"strconv"
	"strings"
	"syscall"
	"time"

	svg "github.com/lafriks/go-svg"
)

// growths are documents in which something is repeated, where @ counts, and
// what closes it.
var growths = [][4]string{
	{"<svg><title>", "x<!---->", "", "</title></svg>"},
	{"<svg><desc>", "x<![CDATA[y]]>", "", "</desc></svg>"},
	{"<svg><title>", "&lt;<?a b?>", "", "</title></svg>"},
	{"<svg><title>", "<b>x</b>", "", "</title></svg>"},
	{"<svg>", "<title>x</title>", "", "</svg>"},
	{"<svg>", "<g><desc>x</desc></g>", "", "</svg>"},
	{"<svg>", "<!-- x -->", "", "</svg>"},
	{"<svg><path d='M0 0", "L1 1", "", "'/></svg>"},
	{"<svg><path d='M0 0L", " 1 1", "", "'/></svg>"},
	{"<svg><path d='M0 0a", " 1 1 0 1 1 1 1", "", "'/></svg>"},
	{"<svg><path d='M0 0h", ".1.2.3", "", "'/></svg>"},
	{"<svg><path d='M0 0", "s1 1 2 2t1 1", "", "'/></svg>"},
	{"<svg><path d='", "M0 0v1z", "", "'/></svg>"},
	{"<svg><path d='M0 0", "w1", "", "'/></svg>"},
	{"<svg><path d='M0 0", "   ", "", "'/></svg>"},
	{"<svg><polyline points='", " 1 1", "", "'/></svg>"},
	{"<svg><polygon points='", " 1-1", "", "'/></svg>"},
	{"<svg>", "<path d='M0 0L1 1'/>", "", "</svg>"},
	{"<svg>", "<rect width='5' height='5' rx='1'/>", "", "</svg>"},
	{"<svg>", "<circle r='5'/>", "", "</svg>"},
	{"<svg>", "<polygon points='1 1 2 2'/>", "", "</svg>"},
	{"<svg><g stroke='red' stroke-dasharray='1 2' mask='url(#a)' transform='scale(2)'>", "<path d='M0 0L1 1'/>", "", "</g></svg>"},
	{"<svg><defs>", "<path id='a' d='M0 0L1 1'/>", "", "</defs></svg>"},
	{"<svg><defs>", "<path id='a@' d='M0 0L1 1'/>", "", "</defs></svg>"},
	{"<svg>", "<defs><path id='a@' d='M0 0L1 1'/></defs>", "", "</svg>"},
	{"<svg>", "<defs><path id='a@' d='M0 0L1 1'/></defs><use href='#a@'/>", "", "</svg>"},
	{"<svg><defs><g id='a'>", "<path id='b' d='M0 0L1 1'/>", "", "</g></defs><use href='#a'/></svg>"},
	{"<svg><defs><path id='a' d='M0 0L1 1'/></defs>", "<use href='#a' x='2'/>", "", "</svg>"},
	{"<svg><defs><g id='a0'/>", "<g id='b@'><rect width='1' height='1'/></g>", "", "</defs><use href='#a0'/></svg>"},
	{"<svg>", "<g>", "</g>", "</svg>"},
	{"<svg>", "<g style='fill:red;stroke:blue' transform='scale(1)' opacity='.9'>", "</g>", "</svg>"},
	{"<svg>", "<g mask='url(#a)'>", "</g>", "</svg>"},
	{"<svg>", "<g mask='url(#a@)'>", "</g>", "</svg>"},
	{"<svg>", "<g stroke-dasharray='1 2 3'>", "</g>", "</svg>"},
	{"<svg>", "<g><path d='M0 0L1 1'/>", "</g>", "</svg>"},
	{"<svg>", "<svg>", "</svg>", "</svg>"},
	{"<svg>", "<a>", "</a>", "</svg>"},
	{"<svg>", "<g>", "", ""},
	{"<svg><defs>", "<g id='a@'>", "</g>", "</defs></svg>"},
	{"<svg><defs>", "<g id='a'>", "</g>", "</defs><use href='#a'/></svg>"},
	{"<svg><defs>", "<g>", "</g>", "</defs></svg>"},
	{"<svg><defs>", "<defs>", "</defs>", "</defs></svg>"},
	{"<svg>", "<mask id='a@'><rect width='1' height='1'/></mask>", "", "</svg>"},
	{"<svg>", "<mask id='a'><rect width='1' height='1'/></mask>", "", "</svg>"},
	{"<svg><mask id='a'>", "<rect width='1' height='1'/>", "", "</mask></svg>"},
	{"<svg><defs><mask id='a'>", "<rect width='1' height='1'/>", "", "</mask></defs></svg>"},
	{"<svg><g style='", "fill:red;", "", "'/></svg>"},
	{"<svg><g style='", ";", "", "'/></svg>"},
	{"<svg><g style='", "mask:url(#a);", "", "'/></svg>"},
	{"<svg><g style='", "stroke-dasharray:1 2;opacity:.9;", "", "'><path d='M0 0L1 1'/></g></svg>"},
	{"<svg><g transform='", "scale(1)", "", "'/></svg>"},
	{"<svg><g transform='scale(1", " ", "", ")'/></svg>"},
	{"<svg><g stroke-dasharray='", "1 ", "", "'/></svg>"},
	{"<svg><g stroke-dasharray='", "1,", "", "3'><rect width='1' height='1'/></g></svg>"},
	{"<svg><linearGradient id='a'>", "<stop offset='1' style='stop-color:red'/>", "", "</linearGradient></svg>"},
	{"<svg><radialGradient id='a'>", "<stop offset='1'/>", "", "</radialGradient><rect width='1' height='1' fill='url(#a)'/></svg>"},
	{"<svg>", "<linearGradient id='a@'><stop offset='1'/></linearGradient>", "", "</svg>"},
	{"<svg><linearGradient id='a'><stop offset='1'/></linearGradient>", "<g fill='url(#a)'/>", "", "</svg>"},
	{"<svg>", "<linearGradient id='a@'><stop offset='1'/></linearGradient><rect width='1' height='1' fill='url(#a@)'/>", "", "</svg>"},
	{"<svg ", "a@='1' ", "", "/>"},
	{"<svg>", "<rect fill='rgb(1,2,3)' width='1mm' height='5%'/>", "", "</svg>"},
	{"<svg><rect fill='", " ", "", "red' width='1' height='1'/></svg>"},
	{"<svg><rect fill='rgb(1,2,3", " ", "", ")' width='1' height='1'/></svg>"},
	{"<svg width='5", " ", "", "'/>"},
	{"<svg><rect width='1", "0", "", "'/></svg>"},
	{"<svg><rect width='0.", "3", "", "px' height='2'/></svg>"},
}

func growthDoc(f [4]string, n int) string {
	var b strings.Builder
	b.WriteString(f[0])
	for i := 0; i < n; i++ {
		b.WriteString(strings.ReplaceAll(f[1], "@", strconv.Itoa(i)))
	}
	for i := 0; i < n && f[2] != ""; i++ {
		b.WriteString(f[2])
	}
	b.WriteString(f[3])
	return b.String()
}

func ownCPU() time.Duration {
	var u syscall.Rusage
	fatal(syscall.Getrusage(syscall.RUSAGE_SELF, &u))
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// growth watches how the memory and time taken grow with the document.
func growth(t *T, f [4]string) {
	cost := func(src string) (uint64, time.Duration) {
		t.Input(clip(src, 1000))
		m, c := allocated(), ownCPU()
		_, _ = parseString(src, svg.IgnoreErrorMode)
		return allocated() - m, ownCPU() - c
	}
	small, large := growthDoc(f, 3000), growthDoc(f, 12000)
	cost(small)
	m1, _ := cost(small)
	m2, _ := cost(large)
	if m2 > 9*m1+8<<20 {
		t.Failf("memory: %d bytes for a document of %d bytes and %d for one of %d", m1, len(small), m2, len(large))
	}
	small, large = growthDoc(f, 15000), growthDoc(f, 60000)
	for try := 0; ; try++ {
		_, c1 := cost(small)
		_, c2 := cost(large)
		if c2 <= 10*c1+1500*time.Millisecond {
			break
		}
		if try == 3 {
			t.Failf("time: %v for a document of %d bytes and %v for one of %d", c1, len(small), c2, len(large))
		}
	}
	t.Count("growth of memory and time", 1)
	t.Eval(clip(f[0]+f[1]+f[2]+f[3], 1000))
}
