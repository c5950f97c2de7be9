// Command mon runs the real go-svg code under generated workloads while
// monitors watch what can be observed of it. See ../DESIGN.md.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Check decides one property.
type Check struct {
	ID    string
	Rule  string                          // how cases are made and what counts as nontrivial
	Race  bool                            // needs the race detector build
	Quick int                             // number of cases of the quick tier
	Deep  int                             // number of cases of the thorough tier
	Run   func(t *T, k int, r *rand.Rand) // executes case k
	Init  func(t *T)                      // once per worker
	Done  func(t *T)                      // once per worker, after all cases
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// T is handed to the cases of a check.
type T struct {
	ID       string
	Tier     string
	Seed     int64
	K        int
	counts   map[string]int
	distinct map[uint64]bool
	samples  []string
	cur      []byte // shared with the parent: what is being executed
	input    string
}

const curSize = 8 << 20

type violation struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Seed     int64  `json:"seed"`
	Case     int    `json:"case"`
	Message  string `json:"message"`
	Input    string `json:"input"`
	Stack    string `json:"stack,omitempty"`
}

// Input records what the code under test is given next.
func (t *T) Input(s string) {
	t.input = s
	if t.cur == nil {
		return
	}
	n := len(s)
	if n > curSize-64 {
		n = curSize - 64
	}
	copy(t.cur[64:], s[:n])
	binary.LittleEndian.PutUint64(t.cur[8:], uint64(n))
	binary.LittleEndian.PutUint64(t.cur[0:], binary.LittleEndian.Uint64(t.cur[0:])+1)
}

// Count adds to a named statistic of the evidence.
func (t *T) Count(name string, n int) { t.counts[name] += n }

// Eval counts one evaluation of the oracle. key identifies the case; it is
// empty when the case is trivial.
func (t *T) Eval(key string) {
	t.counts["evaluations"]++
	if key == "" {
		return
	}
	h := fnv.New64a()
	io.WriteString(h, key)
	if len(t.distinct) < 400000 {
		t.distinct[h.Sum64()] = true
	}
	if len(t.samples) < 3 && len(key) < 2000 {
		t.samples = append(t.samples, key)
	}
}

// Failf reports that the property does not hold.
func (t *T) Failf(format string, args ...interface{}) {
	panic(&violation{Message: fmt.Sprintf(format, args...)})
}

func caseRand(id string, seed int64, k int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", id, seed, k)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

func (t *T) run(c *Check, f func()) (v *violation) {
	defer func() {
		if r := recover(); r != nil {
			var ok bool
			if v, ok = r.(*violation); !ok {
				v = &violation{Message: fmt.Sprintf("panic: %v", r), Stack: string(debug.Stack())}
			}
			v.Property, v.Tier, v.Seed, v.Case, v.Input = c.ID, t.Tier, t.Seed, t.K, t.input
		}
	}()
	f()
	return nil
}

func newT(id, tier string, seed int64) *T {
	return &T{ID: id, Tier: tier, Seed: seed, counts: map[string]int{}, distinct: map[uint64]bool{}}
}

type result struct {
	Violation *violation
	Counts    map[string]int
	Distinct  []uint64
	Samples   []string
}

func numCases(c *Check, tier string) int {
	n := c.Quick
	if tier == "thorough" {
		n = c.Deep
	}
	if s := os.Getenv("VERIF_CASES"); s != "" { // for development only
		n, _ = strconv.Atoi(s)
	}
	return n
}

func worker(c *Check, tier string, seed int64, shard, of int, curFile, outFile string) {
	debug.SetMaxStack(192 << 20)
	log.SetOutput(io.Discard)
	t := newT(c.ID, tier, seed)
	if curFile != "" {
		f, err := os.OpenFile(curFile, os.O_RDWR, 0)
		fatal(err)
		t.cur, err = syscall.Mmap(int(f.Fd()), 0, curSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		fatal(err)
	}
	var v *violation
	if c.Init != nil {
		v = t.run(c, func() { c.Init(t) })
	}
	n := numCases(c, tier)
	for k := shard; k < n && v == nil; k += of {
		t.K = k
		if t.cur != nil {
			binary.LittleEndian.PutUint64(t.cur[16:], uint64(k))
			binary.LittleEndian.PutUint64(t.cur[0:], binary.LittleEndian.Uint64(t.cur[0:])+1)
		}
		v = t.run(c, func() { c.Run(t, k, caseRand(c.ID, seed, k)) })
		t.counts["cases"]++
	}
	if v == nil && c.Done != nil {
		v = t.run(c, func() { c.Done(t) })
	}
	res := result{Violation: v, Counts: t.counts, Samples: t.samples}
	for h := range t.distinct {
		res.Distinct = append(res.Distinct, h)
	}
	b, _ := json.Marshal(res)
	fatal(os.WriteFile(outFile, b, 0o644))
	if v != nil {
		os.Exit(3)
	}
}

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "mon:", err)
		os.Exit(2)
	}
}

type tail struct {
	mu  sync.Mutex
	buf bytes.Buffer
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.buf.Len() < 20000 {
		t.buf.Write(p)
	}
	return len(p), nil
}

func cpuTime(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndex(s, ")")+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	return (u + k) / 100
}

func rssBytes(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

const (
	maxCaseCPU = 60.0    // CPU seconds one input may take before it counts as endless
	maxRSS     = 3 << 30 // bytes a worker may use before the input counts as exhausting memory
)

// check runs all shards of a check and decides.
func check(c *Check, tier string, seed int64, root, tmp string) int {
	start := time.Now()
	shards := 8
	if n := numCases(c, tier); n < shards {
		shards = n
	}
	self, err := os.Executable()
	fatal(err)
	type outcome struct {
		res          result
		v            *violation
		inconclusive string
	}
	outs := make([]outcome, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			o := &outs[i]
			curFile := filepath.Join(tmp, fmt.Sprintf("cur%d", i))
			outFile := filepath.Join(tmp, fmt.Sprintf("out%d", i))
			f, err := os.Create(curFile)
			fatal(err)
			fatal(f.Truncate(curSize))
			cur, err := syscall.Mmap(int(f.Fd()), 0, curSize, syscall.PROT_READ, syscall.MAP_SHARED)
			fatal(err)
			cmd := exec.Command(self, "worker", "-id", c.ID, "-tier", tier, "-seed", fmt.Sprint(seed),
				"-shard", fmt.Sprint(i), "-of", fmt.Sprint(shards), "-cur", curFile, "-out", outFile)
			var errOut tail
			cmd.Stderr = &errOut
			cmd.Stdout = &errOut
			gomax := runtime.NumCPU() / 8
			if c.Race {
				gomax = 4
			}
			if gomax < 1 {
				gomax = 1
			}
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", fmt.Sprintf("GOMAXPROCS=%d", gomax), "VERIF_TMP="+tmp)
			fatal(cmd.Start())
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			last, lastCPU := uint64(0), 0.0
			var killed string
			tick := time.NewTicker(250 * time.Millisecond)
			defer tick.Stop()
			var werr error
		wait:
			for {
				select {
				case werr = <-done:
					break wait
				case <-tick.C:
					n := binary.LittleEndian.Uint64(cur[0:])
					cpu := cpuTime(cmd.Process.Pid)
					if n != last {
						last, lastCPU = n, cpu
					} else if cpu-lastCPU > maxCaseCPU && killed == "" && n > 0 {
						killed = fmt.Sprintf("does not end: %.0f s of CPU time on one input", cpu-lastCPU)
						cmd.Process.Kill()
					}
					if rss := rssBytes(cmd.Process.Pid); rss > maxRSS && killed == "" {
						killed = fmt.Sprintf("exhausts memory: %d MB", rss>>20)
						cmd.Process.Kill()
					}
				}
			}
			if b, err := os.ReadFile(outFile); err == nil {
				json.Unmarshal(b, &o.res)
				o.v = o.res.Violation
			}
			if o.v == nil && (werr != nil || killed != "") {
				n := binary.LittleEndian.Uint64(cur[8:])
				v := &violation{Property: c.ID, Tier: tier, Seed: seed, Case: int(binary.LittleEndian.Uint64(cur[16:])),
					Input: string(cur[64 : 64+n]), Message: killed}
				errOut.mu.Lock()
				v.Stack = errOut.buf.String()
				errOut.mu.Unlock()
				if killed == "" {
					switch {
					case strings.Contains(v.Stack, "DATA RACE"):
						v.Message = "data race"
					case strings.Contains(v.Stack, "stack exceeds"):
						v.Message = "stack exhausted"
					case strings.Contains(v.Stack, "fatal error: "), strings.Contains(v.Stack, "panic: "):
						i := strings.Index(v.Stack, "fatal error: ")
						if i < 0 {
							i = strings.Index(v.Stack, "panic: ")
						}
						v.Message = "crash: " + strings.SplitN(v.Stack[i:], "\n", 2)[0]
					default:
						o.inconclusive = fmt.Sprintf("worker %d: %v: %s", i, werr, v.Stack)
					}
				}
				if o.inconclusive == "" {
					o.v = v
				}
			}
		}(i)
	}
	wg.Wait()

	counts := map[string]int{}
	distinct := map[uint64]bool{}
	var samples []string
	var v *violation
	nv := 0
	inconclusive := false
	for _, o := range outs {
		if o.inconclusive != "" {
			fmt.Fprintln(os.Stderr, "inconclusive:", o.inconclusive)
			inconclusive = true
		}
		if o.v != nil {
			nv++
			if v == nil || len(o.v.Input) < len(v.Input) {
				v = o.v
			}
		}
		for k, n := range o.res.Counts {
			counts[k] += n
		}
		for _, h := range o.res.Distinct {
			distinct[h] = true
		}
		if len(o.res.Samples) > 0 && len(samples) < 5 {
			samples = append(samples, o.res.Samples[0])
		}
	}
	evals := counts["evaluations"]
	cov := map[string]interface{}{
		"evaluations":         evals,
		"distinct_nontrivial": len(distinct),
		"rule":                c.Rule,
		"samples":             samples,
	}
	obs := map[string]int{}
	for k, n := range counts {
		if k != "evaluations" {
			obs[k] = n
		}
	}
	cov["observed"] = obs
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": nv,
		"assumptions": []string{"the monitors' reference semantics (see DESIGN.md)", "Go toolchain, runtime and standard library"},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	fatal(os.WriteFile(filepath.Join(root, "evidence", c.ID+".json"), append(b, '\n'), 0o644))
	if v != nil {
		dir := filepath.Join(root, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", c.ID, v.Seed, v.Case))
		b, _ := json.MarshalIndent(v, "", " ")
		fatal(os.WriteFile(path, append(b, '\n'), 0o644))
		fmt.Printf("%s: %s\n", c.ID, clip(v.Message, 2000))
		fmt.Printf("input: %s\n", clip(v.Input, 2000))
		if v.Stack != "" {
			fmt.Printf("%s\n", clip(v.Stack, 3000))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		return 1
	}
	if inconclusive {
		return 2
	}
	if evals == 0 || len(distinct) < 10 {
		fmt.Fprintf(os.Stderr, "inconclusive: only %d evaluations, %d distinct\n", evals, len(distinct))
		return 2
	}
	var keys []string
	for k := range obs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("%s held: %d evaluations, %d distinct nontrivial, %.1f s;", c.ID, evals, len(distinct), time.Since(start).Seconds())
	for _, k := range keys {
		fmt.Printf(" %s=%d", k, obs[k])
	}
	fmt.Println()
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func main() {
	if len(os.Args) < 2 {
		fatal(fmt.Errorf("usage: mon check|worker|replay ..."))
	}
	fs := flag.NewFlagSet("mon", flag.ExitOnError)
	id := fs.String("id", "", "property")
	tier := fs.String("tier", "quick", "quick or thorough")
	seed := fs.Int64("seed", 1, "seed")
	root := fs.String("root", "/verif", "where evidence is written")
	tmp := fs.String("tmp", "", "scratch directory")
	shard := fs.Int("shard", 0, "")
	of := fs.Int("of", 1, "")
	cur := fs.String("cur", "", "")
	out := fs.String("out", "", "")
	file := fs.String("file", "", "violation to replay")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "check", "worker":
		c := checks[*id]
		if c == nil {
			fatal(fmt.Errorf("unknown property %q", *id))
		}
		if os.Args[1] == "worker" {
			worker(c, *tier, *seed, *shard, *of, *cur, *out)
			return
		}
		os.Exit(check(c, *tier, *seed, *root, *tmp))
	case "replay":
		b, err := os.ReadFile(*file)
		fatal(err)
		var v violation
		fatal(json.Unmarshal(b, &v))
		c := checks[v.Property]
		t := newT(c.ID, v.Tier, v.Seed)
		t.K = v.Case
		log.SetOutput(io.Discard)
		debug.SetMaxStack(192 << 20)
		if c.Init != nil {
			c.Init(t)
		}
		if w := t.run(c, func() { c.Run(t, v.Case, caseRand(c.ID, v.Seed, v.Case)) }); w != nil {
			fmt.Printf("%s\ninput: %s\n%s\nVIOLATION property=%s replay=%s\n", w.Message, w.Input, w.Stack, c.ID, *file)
			os.Exit(1)
		}
		fmt.Println("not reproduced")
	default:
		fatal(fmt.Errorf("unknown command %q", os.Args[1]))
	}
}
