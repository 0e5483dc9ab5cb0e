package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Suite is a fixed list of cases; case i is determined by (seed, property, suite, i).
type Suite struct {
	Name     string
	Quick    int
	Thorough int
	Serial   bool // needs the process for itself (goroutine counts, cwd, lib goroutines that may crash)
	Fn       func(*Case)
}

type Prop struct {
	ID     string
	Level  string
	Rule   string
	Suites []Suite
	Floors map[string]int64 // minimum observed events: fewer is inconclusive
	Assume []string
}

var props = map[string]*Prop{}

// scales sets the length of a run: most cases are cheap
var scales = map[string]float64{
	"C01": 20, "C02": 40, "C03": 15, "C04": 12, "C05": 12, "C06": 6, "C07": 10, "C09": 5, "C10": 7, "C11": 5, "C12": 2, "C13": 10,
	"C14": 15, "C15": 4, "C16": 30, "C17": 3, "C18": 5, "C19": 3, "C20": 10, "C21": 8, "C22": 8, "C23": 40, "C24": 40, "C25": 20,
	"C26": 3, "C27": 15, "C28": 12, "C29": 5, "C30": 30, "C31": 4, "C32": 8, "C33": 8,
}

func scaleOf(id string) float64 {
	if v := scales[id]; v > 0 {
		return v
	}
	return 1
}

func register(p *Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	props[p.ID] = p
}

type Violation struct {
	Suite string `json:"suite"`
	Case  int    `json:"case"`
	Msg   string `json:"msg"`
	Stack string `json:"stack,omitempty"`
}

type Ctx struct {
	Prop     *Prop
	Seed     uint64
	Tier     string
	mu       sync.Mutex
	counts   map[string]int64
	distinct map[uint64]struct{}
	samples  []any
	viol     []Violation
	evals    int64
	done     int64
	curFile  string
	scratch  string
}

type failure struct{ msg string }

type Case struct {
	*Ctx
	Suite string
	I     int
	R     *rand.Rand
	sig   string
	huge  bool // the dataset is huge: few rounds only
	loc   map[string]int64
	smp   any
	held  []heldSlice
}

type heldSlice struct {
	what    string
	f, keep []float64
	i, ikep []int
}

// Hold remembers a result that belongs to the caller: nothing done later in the case may change it
func (c *Case) Hold(what string, f []float64) {
	if len(c.held) < 60 && len(f) < 3000 {
		c.held = append(c.held, heldSlice{what: what, f: f, keep: append([]float64(nil), f...)})
	}
}

func (c *Case) HoldI(what string, i []int) {
	if len(c.held) < 60 && len(i) < 3000 {
		c.held = append(c.held, heldSlice{what: what, i: i, ikep: append([]int(nil), i...)})
	}
}

func sameBits(a, b []float64) bool {
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
			return false
		}
	}
	return len(a) == len(b)
}

func (c *Case) judgeHeld() {
	for _, h := range c.held {
		c.Check(sameBits(h.f, h.keep) && fmt.Sprint(h.i) == fmt.Sprint(h.ikep), "%s: the result changed after it was returned, from %v%v to %v%v", h.what, h.keep, h.ikep, h.f, h.i)
	}
	if len(c.held) > 0 {
		c.Count("held_results", len(c.held))
	}
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

func (c *Case) Fail(f string, a ...any) { panic(failure{fmt.Sprintf(f, a...)}) }

// Check fails the case unless ok holds; every evaluated check is counted.
func (c *Case) Check(ok bool, f string, a ...any) {
	c.loc["oracle_checks"]++
	if !ok {
		c.Fail(f, a...)
	}
}
func (c *Case) Count(k string, n int) { c.loc[k] += int64(n) }

// Sig marks the case non-trivial, with a signature that distinguishes it from others.
func (c *Case) Sig(f string, a ...any) { c.sig += fmt.Sprintf(f, a...) + ";" }
func (c *Case) Sample(v any)           { c.smp = v }

func (x *Ctx) runCase(s *Suite, i int) {
	c := &Case{Ctx: x, Suite: s.Name, I: i, loc: map[string]int64{}}
	c.R = rand.New(rand.NewPCG(x.Seed*0x9e3779b97f4a7c15+1, hash64(fmt.Sprintf("%s/%s/%d", x.Prop.ID, s.Name, i))))
	if s.Serial && x.curFile != "" {
		os.WriteFile(x.curFile, []byte(fmt.Sprintf("%s %d", s.Name, i)), 0o644)
	}
	var v *Violation
	func() {
		defer func() {
			if r := recover(); r != nil {
				if f, ok := r.(failure); ok {
					v = &Violation{s.Name, i, f.msg, ""}
				} else {
					v = &Violation{s.Name, i, fmt.Sprintf("panic: %v", r), string(debug.Stack())}
				}
			}
		}()
		s.Fn(c)
		c.judgeHeld()
	}()
	atomic.AddInt64(&x.done, 1)
	x.mu.Lock()
	defer x.mu.Unlock()
	x.evals++
	for k, n := range c.loc {
		x.counts[k] += n
	}
	if c.sig != "" {
		x.distinct[hash64(s.Name+"|"+c.sig)] = struct{}{}
	}
	if c.smp != nil && (len(x.samples) < 6) && (i < 2 || len(x.samples) < 2) {
		x.samples = append(x.samples, map[string]any{"suite": s.Name, "case": i, "what": c.smp})
	}
	if v != nil {
		x.viol = append(x.viol, *v)
	}
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

func allStacks() string {
	b := make([]byte, 4<<20)
	return string(b[:runtime.Stack(b, true)])
}

// noProgress declares a violation only on evidence that does not depend on the speed of the machine: in
// a long window with no finished case, the process either consumed a large amount of CPU itself, or had nothing runnable.
func (x *Ctx) noProgress(fin func()) {
	const window = 100 * time.Second
	last, lastT, lastC := atomic.LoadInt64(&x.done), time.Now(), cpuSeconds()
	mem := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(500 * time.Millisecond)
		if metrics.Read(mem); mem[0].Value.Uint64() > 8<<30 {
			x.mu.Lock()
			cur, _ := os.ReadFile(x.curFile)
			x.viol = append(x.viol, Violation{"no-progress", 0, fmt.Sprintf("more than 8 GB of live memory (a run normally needs well below 1 GB): unbounded growth; serial case: %s", cur), allStacks()})
			x.mu.Unlock()
			fin()
		}
		d := atomic.LoadInt64(&x.done)
		if d != last {
			last, lastT, lastC = d, time.Now(), cpuSeconds()
			continue
		}
		if time.Since(lastT) < window {
			continue
		}
		used := cpuSeconds() - lastC
		st := allStacks()
		cur, _ := os.ReadFile(x.curFile)
		switch {
		case used > 60:
			x.mu.Lock()
			x.viol = append(x.viol, Violation{"no-progress", 0, fmt.Sprintf("no case finished while the process used %.0f CPU seconds (a case normally needs well below 5): non-termination; serial case: %s", used, cur), st})
			x.mu.Unlock()
			fin()
		case used < 5 && !strings.Contains(st, "[runnable") && blockedCase(st):
			x.mu.Lock()
			x.viol = append(x.viol, Violation{"no-progress", 0, fmt.Sprintf("workload goroutines are all blocked: deadlock; serial case: %s", cur), st})
			x.mu.Unlock()
			fin()
		}
	}
}

func blockedCase(st string) bool {
	for _, g := range strings.Split(st, "\n\n") {
		if strings.Contains(g, "runCase") && (strings.Contains(g, "[chan ") || strings.Contains(g, "[select") || strings.Contains(g, "[sync.") || strings.Contains(g, "[semacquire")) {
			return true
		}
	}
	return false
}

func main() {
	id := flag.String("prop", "", "property id")
	seed := flag.Uint64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "quick or thorough")
	only := flag.Int("case", -1, "run only this case")
	suite := flag.String("suite", "", "run only this suite")
	out := flag.String("out", "", "result file")
	cur := flag.String("cur", "", "file naming the current serial case")
	scale := flag.Float64("scale", 1, "multiply case counts")
	flag.Parse()
	p := props[*id]
	if p == nil {
		ids := []string{}
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println("properties:", ids)
		os.Exit(3)
	}
	log.SetOutput(io.Discard)
	realOut := os.Stdout
	if dn, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = dn // the library prints in verbose mode
	}
	scratch, err := os.MkdirTemp("", "booverif")
	if err != nil {
		panic(err)
	}
	x := &Ctx{Prop: p, Seed: *seed, Tier: *tier, counts: map[string]int64{}, distinct: map[uint64]struct{}{}, curFile: *cur, scratch: scratch}
	start := time.Now()
	var once sync.Once
	finish := func() {
		once.Do(func() {
			code := x.report(realOut, *out, time.Since(start).Seconds(), *only >= 0 || *suite != "" || *scale < 1)
			os.RemoveAll(scratch)
			os.Exit(code)
		})
		select {}
	}
	go x.noProgress(finish)
	for si := range p.Suites {
		s := &p.Suites[si]
		if *suite != "" && s.Name != *suite {
			continue
		}
		n := s.Quick
		if *tier == "thorough" {
			n = s.Thorough
		}
		n = int(float64(n) * *scale * scaleOf(p.ID))
		if *only >= 0 {
			x.runCase(s, *only)
			continue
		}
		if s.Serial {
			for i := 0; i < n && x.nviol() < 20; i++ {
				x.runCase(s, i)
			}
			continue
		}
		var next int64 = -1
		var wg sync.WaitGroup
		for w := 0; w < runtime.GOMAXPROCS(0); w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					i := int(atomic.AddInt64(&next, 1))
					if i >= n || x.nviol() > 20 {
						return
					}
					x.runCase(s, i)
				}
			}()
		}
		wg.Wait()
	}
	finish()
}

func (x *Ctx) nviol() int { x.mu.Lock(); defer x.mu.Unlock(); return len(x.viol) }

func (x *Ctx) report(w io.Writer, out string, wall float64, partial bool) int {
	x.mu.Lock()
	defer x.mu.Unlock()
	missing := []string{}
	if !partial && len(x.viol) == 0 {
		for k, n := range x.Prop.Floors {
			if x.counts[k] < n {
				missing = append(missing, fmt.Sprintf("%s: observed %d, need %d", k, x.counts[k], n))
			}
		}
	}
	sort.Slice(x.viol, func(i, j int) bool {
		if x.viol[i].Suite != x.viol[j].Suite {
			return x.viol[i].Suite < x.viol[j].Suite
		}
		return x.viol[i].Case < x.viol[j].Case
	})
	res := map[string]any{
		"property": x.Prop.ID, "seed": x.Seed, "tier": x.Tier, "level": x.Prop.Level, "rule": x.Prop.Rule,
		"evaluations": x.evals, "distinct_nontrivial": len(x.distinct), "observed": x.counts, "samples": x.samples,
		"violations": x.viol, "inconclusive": missing, "wall_s": wall, "assumptions": x.Prop.Assume,
	}
	b, _ := json.MarshalIndent(res, "", " ")
	if out != "" {
		os.MkdirAll(filepath.Dir(out), 0o755)
		os.WriteFile(out, b, 0o644)
	}
	fmt.Fprintf(w, "%s: %d cases, %d distinct non-trivial, observed %v, %d violations, %.1fs\n", x.Prop.ID, x.evals, len(x.distinct), x.counts, len(x.viol), wall)
	for i, v := range x.viol {
		if i < 4 {
			fmt.Fprintf(w, "  violated in suite %s case %d: %s\n%s\n", v.Suite, v.Case, v.Msg, firstLines(v.Stack, 14))
		}
	}
	if len(x.viol) > 0 {
		return 1
	}
	if len(missing) > 0 {
		fmt.Fprintln(w, "  inconclusive:", missing)
		return 3
	}
	return 0
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}
