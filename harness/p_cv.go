package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/rmera/boo"
	"github.com/rmera/boo/cv"
	"github.com/rmera/boo/utils"
)

// ---- C15: cross-validation ----

// simConst checks the recorded loss calls of one training on constant features against an independent simulation,
// and returns the label counts of the rows it was trained on.
func simConst(c *Case, ev []lossEv, pos *int, o *boo.Options, tot map[int]int, total int) (n int, colsum []int) {
	// the first K gradient calls belong to round 0 and show all labels
	var cols [][]float64
	K := -1
	F := []float64{}
	round := 0
	k := 0
	nextG := func() *lossEv {
		for *pos < len(ev) {
			e := &ev[*pos]
			*pos++
			if e.Kind == "grad" || e.Kind == "neg" {
				return e
			}
		}
		return nil
	}
	// pass 1: collect the columns of round 0
	save := *pos
	covered := 0
	for {
		e := nextG()
		if e == nil {
			c.Fail("training ended before every class was seen")
		}
		cols = append(cols, e.Y)
		s := 0
		for _, v := range e.Y {
			s += int(v)
		}
		colsum = append(colsum, s)
		covered += s
		n = len(e.Y)
		if covered >= n {
			break
		}
	}
	K = len(cols)
	*pos = save
	for i := 0; i < K; i++ {
		F = append(F, o.BaseScore)
	}
	for round = 0; round < o.Rounds; round++ {
		for k = 0; k < K; k++ {
			e := nextG()
			if e == nil {
				c.Fail("training stopped in round %d of %d", round, o.Rounds)
			}
			c.Check(eqF(e.Y, cols[k]), "round %d class %d: labels changed during training", round, k)
			p := softmaxRef(F)[k]
			for _, v := range e.P {
				c.Check(close2(v, p, 1e-9), "round %d class %d: probability %v during training, %v expected with learning rate %v, base score %v, lambda %v", round, k, v, p, o.LearningRate, o.BaseScore, o.Lambda)
			}
			g := float64(colsum[k]) - float64(n)*p
			if o.XGB {
				h := float64(n)
				F[k] += o.LearningRate * g / (h + o.Lambda)
			} else {
				h := float64(n) * p * (1 - p)
				if h > 0 {
					F[k] += o.LearningRate * g / h
				}
			}
		}
	}
	return
}

func c15const(c *Case) {
	R := c.R
	tot := 12 + R.IntN(25)
	nfold := pick(R, 2, 3, 4, 5, 0, -3, 8, tot/2+1, tot, 2*tot)
	K := 2 + R.IntN(3)
	names := labelNames(R, K)
	D := &utils.DataBunch{Keys: genKeys(2)}
	// the minority labels are few but present in any training set
	minority := tot / 6
	K = min(K, 1+minority)
	for i := 0; i < tot; i++ {
		D.Data = append(D.Data, []float64{1, 2})
		l := names[0]
		if i < minority {
			l = names[1+i%(K-1)]
		}
		D.Labels = append(D.Labels, l)
	}
	R.Shuffle(tot, func(a, b int) { D.Labels[a], D.Labels[b] = D.Labels[b], D.Labels[a] })
	total := map[int]int{}
	for _, l := range D.Labels {
		total[l]++
	}
	o := boo.DefaultXOptions()
	if R.IntN(3) == 0 {
		o = boo.DefaultGOptions()
	}
	o.SubSample, o.ColSubSample, o.EarlyStop, o.MinSample = 1, 1, 0, 1
	o.Rounds = 1 + R.IntN(6)
	o.LearningRate = pick(R, 0.1, 0.3, 0.2)
	o.Lambda = pick(R, 0.0, 1, 3)
	o.BaseScore = pick(R, 0, 0.5)
	o.Loss = &utils.MSELoss{}
	if o.XGB {
		o.Loss = &utils.SQErrLoss{}
	}
	rec := &recLoss{L: o.Loss}
	o.Loss = rec
	before := *o
	opts := &cv.Options{O: o}
	conc := R.IntN(2) == 0
	var acc float64
	var err error
	if conc {
		acc, err = runConc(c, D, nfold, opts)
	} else {
		acc, err = cv.MultiClassCrossValidation(D, nfold, opts)
	}
	c.Check(err == nil, "cross-validation failed: %v", err)
	c.Check(*o == before, "the options changed")
	n := nfold
	if n <= 0 {
		n = 5
	}
	if n > tot/2 {
		n = tot / 2
		c.Count("reduced_fold_number", 1)
	}
	pos := 0
	left := 0
	seen := make([]int, 0)
	sum := 0.0
	folds := 0
	for {
		// is there another training?
		more := false
		for q := pos; q < len(rec.Ev); q++ {
			if rec.Ev[q].Kind == "grad" || rec.Ev[q].Kind == "neg" {
				more = true
				break
			}
		}
		if !more {
			break
		}
		size, cs := simConst(c, rec.Ev, &pos, o, total, tot)
		folds++
		test := tot - size
		c.Check(test >= 2, "fold %d holds out %d samples", folds, test)
		left += test
		maj := slices.Max(cs)
		c.Check(size > 0 && maj*2 > size, "workload: no clear majority")
		sum += 100 * float64(total[names[0]]-maj) / float64(test)
		seen = append(seen, total[names[0]]-maj)
		c.Count("trainings", 1)
	}
	c.Check(folds == n, "%d models trained for %d folds", folds, n)
	c.Check(left == tot, "the folds held out %d samples of %d", left, tot)
	s := 0
	for _, v := range seen {
		s += v
	}
	c.Check(s == total[names[0]], "the folds held out %d samples of the main label, there are %d", s, total[names[0]])
	c.Check(close2(acc, sum/float64(n), 1e-9), "accuracy %v, mean of the folds %v (held-out samples of the main label per fold: %v of %d)", acc, sum/float64(n), seen, tot)
	c.Count("crossvalidations", 1)
	c.Sig("tot%d n%d K%d conc%v %v", tot, nfold, K, conc, seen)
	c.Sample(map[string]any{"samples": tot, "folds": n, "concurrent": conc, "accuracy": acc, "main_label_per_fold": seen})
}

// runConc runs the concurrent mode and judges what is delivered
func runConc(c *Case, D *utils.DataBunch, nfold int, opts *cv.Options) (float64, error) {
	opts.Conc = true
	opts.Acc, opts.Err, opts.Ochan = make(chan float64), make(chan error), make(chan *boo.Options)
	type ret struct {
		a float64
		e error
		p any
	}
	done := make(chan ret, 1)
	go func() {
		r := ret{}
		defer func() { r.p = recover(); done <- r }()
		r.a, r.e = cv.MultiClassCrossValidation(D, nfold, opts)
	}()
	var accs []float64
	var errs []error
	var os []*boo.Options
	var r ret
	for fin := false; !fin; {
		select {
		case a := <-opts.Acc:
			accs = append(accs, a)
		case e := <-opts.Err:
			errs = append(errs, e)
		case o := <-opts.Ochan:
			os = append(os, o)
		case r = <-done:
			fin = true
		}
	}
	c.Check(r.p == nil, "panic in concurrent mode: %v", r.p)
	c.Check(len(accs) == 1 && len(errs) == 1 && len(os) == 1, "concurrent mode delivered %d accuracies, %d errors and %d options", len(accs), len(errs), len(os))
	c.Check((errs[0] == nil) == (r.e == nil), "concurrent mode delivered the error %v, returned %v", errs[0], r.e)
	if r.e == nil {
		c.Check(close2(accs[0], r.a, 1e-12), "concurrent mode delivered the accuracy %v, returned %v", accs[0], r.a)
		if opts.O != nil {
			c.Check(os[0] != nil && *os[0] == *opts.O, "concurrent mode delivered the options %v, given %v", os[0], opts.O)
		}
	}
	c.Count("concurrent", 1)
	return r.a, r.e
}

func c15leak(c *Case) {
	R := c.R
	n := 8 + R.IntN(20)
	D := &utils.DataBunch{Keys: genKeys(2)}
	kind := R.IntN(3)
	if kind == 2 {
		n += 10
	}
	perm := R.Perm(n)
	for _, i := range perm {
		D.Data = append(D.Data, []float64{float64(i), float64(i * i)})
		switch kind {
		case 0: // every label once: a model that has not seen a sample can't know its label
			D.Labels = append(D.Labels, 100+i)
		case 1: // three far-apart clusters
			D.Data[len(D.Data)-1] = []float64{float64(i%3)*100 + R.Float64(), 7}
			D.Labels = append(D.Labels, i%3)
		default: // neighbours have different labels
			D.Labels = append(D.Labels, i%2)
		}
	}
	o := boo.DefaultXOptions()
	if R.IntN(3) == 0 {
		o = boo.DefaultGOptions()
	}
	o.SubSample, o.ColSubSample, o.MinChildWeight, o.Gamma, o.Lambda, o.MaxDepth, o.Rounds, o.EarlyStop = 1, 1, 1, 0, 0.01, 8, 10, 0
	opts := &cv.Options{O: o}
	nfold := pick(R, 2, 4, 0, 7, 50)
	if kind == 1 {
		if n < 20 {
			return
		}
		nfold = 5
	}
	var acc float64
	var err error
	if R.IntN(2) == 0 {
		acc, err = runConc(c, D, nfold, opts)
	} else {
		acc, err = cv.MultiClassCrossValidation(D, nfold, opts)
	}
	c.Check(err == nil, "cross-validation failed: %v", err)
	switch kind {
	case 0:
		c.Check(acc == 0, "accuracy %v although no label occurs twice: models were shown their test samples", acc)
		c.Count("unique_label_runs", 1)
	case 1:
		// each cluster has >= 6 samples; a training set may lose at most a fold (n/5+4 samples) of one
		if n/3 > n/5+n%5 {
			c.Check(acc == 100, "accuracy %v on clearly separated clusters", acc)
			c.Count("separable_runs", 1)
		}
	default:
		// the nearest training neighbours of a held-out sample have the other label, unless these are held out too
		c.Check(acc < 95, "accuracy %v on data where neighbours have different labels: models were shown their test samples", acc)
		c.Count("alternating_runs", 1)
	}
	c.Sig("kind%d n%d f%d acc%.2f", kind, n, nfold, acc)
}

func c15small(c *Case) {
	R := c.R
	n := R.IntN(4)
	D := &utils.DataBunch{Keys: genKeys(2)}
	for i := 0; i < n; i++ {
		D.Data = append(D.Data, []float64{float64(i), 1})
		D.Labels = append(D.Labels, i%2)
	}
	o := boo.DefaultXOptions()
	nf := pick(R, 0, 2, 5, 10)
	_, err := runConc(c, D, nf, &cv.Options{O: o})
	c.Check(err != nil, "%d samples, concurrent mode: no error", n)
	_, err = cv.MultiClassCrossValidation(D, nf, &cv.Options{O: o})
	c.Check(err != nil, "%d samples: no error", n)
	c.Count("too_small", 1)
	c.Sig("n%d f%d", n, nf)
	// just enough for fewer folds than asked for: both modes go on with those
	for i := n; i < 4+R.IntN(4); i++ {
		D.Data = append(D.Data, []float64{float64(i), 1})
		D.Labels = append(D.Labels, i%2)
	}
	nf = len(D.Data)/2 + 1 + R.IntN(9)
	for _, l := range D.Labels {
		if R.IntN(2) == 0 {
			D.Labels[0] = l
		}
	}
	_, err = runConc(c, D, nf, &cv.Options{O: o})
	c.Check(err == nil, "%d samples, %d folds asked for, concurrent mode: %v", len(D.Data), nf, err)
	_, err = cv.MultiClassCrossValidation(D, nf, &cv.Options{O: o})
	c.Check(err == nil, "%d samples, %d folds asked for: %v", len(D.Data), nf, err)
	c.Count("fewer_folds", 1)
}

// c15settings: data that any split separates perfectly, and a setting that keeps the models from splitting, or from
// growing trees at all
func c15settings(c *Case) {
	R := c.R
	nfold := pick(R, 2, 3, 4, 5, 6, 8)
	tot := nfold * (2 + R.IntN(5))
	if tot < 20 {
		tot *= 20/tot + 1
	}
	minor := max(2, tot/(4+R.IntN(4)))
	cols := 1 + R.IntN(3)
	kind := R.IntN(8)
	if kind == 6 {
		nfold = pick(R, 6, 8)
		tot = nfold * (4 + R.IntN(4))
		minor = tot / 3
	}
	if kind == 7 {
		nfold, tot, minor, cols = 8, 48, 10, 200
	}
	minor = min(minor, (tot-tot/nfold-1)/2) // the main label prevails in every training set
	D := &utils.DataBunch{Keys: genKeys(cols)}
	l0, l1 := 3, 1
	if R.IntN(2) == 0 {
		l0, l1 = 1, 3
	}
	at := R.IntN(cols)
	for _, i := range R.Perm(tot) {
		row := make([]float64, cols)
		l := l0
		if i < minor {
			row[at], l = 1, l1
		}
		if cols < 10 && R.IntN(2) == 0 {
			row[at] *= 1 + R.Float64()
		}
		D.Data = append(D.Data, row)
		D.Labels = append(D.Labels, l)
	}
	o := boo.DefaultXOptions()
	o.SubSample, o.ColSubSample, o.MinChildWeight, o.Gamma, o.Lambda, o.MaxDepth, o.EarlyStop, o.MinSample = 1, 1, 1, 0, 0.5, 2+R.IntN(4), 0, 1
	o.Rounds = 1 + R.IntN(4)
	want := 100 * float64(tot-minor) / float64(tot) // everything gets the main label
	name := ""
	switch kind {
	case 0:
		name = "Gamma"
		o.Gamma = pick(R, 50.0, 1e3, 1e9) * float64(tot)
	case 1:
		name = "MinChildWeight"
		o.MinChildWeight = float64(minor + 1 + R.IntN(5))
	case 2:
		name = "regular, MinChildWeight"
		o = boo.DefaultGOptions()
		o.EarlyStop, o.Rounds, o.MaxDepth, o.SubSample, o.ColSubSample = 0, 1, 3, 1, 1
		o.MinChildWeight = float64(minor + 1 + R.IntN(5))
	case 3:
		name = "MinSample"
		o.SubSample = pick(R, 0.5, 0.75, 0.99)
		o.MinSample = tot
		want = 0
	case 4:
		name = "SubSample"
		o.SubSample = 1e-12
		want = 0
	case 5:
		name = "Rounds"
		o.Rounds = 0
		want = 0
	case 6:
		// splits allowed: the same data is perfectly predicted
		name = "none"
		if minor <= tot/nfold+1 {
			return
		}
		want = 100
		o.MinChildWeight = 1
		if R.IntN(2) == 0 {
			o = boo.DefaultGOptions()
			o.EarlyStop, o.Rounds, o.MaxDepth, o.SubSample, o.ColSubSample, o.MinChildWeight = 0, 5, 3, 1, 1, 1
		}
	case 7:
		name = "ColSubSample"
		o.ColSubSample, o.Rounds = 0.02, 1
		want = -1
	}
	opts := &cv.Options{O: o}
	var acc float64
	var err error
	if R.IntN(2) == 0 {
		acc, err = runConc(c, D, nfold, opts)
	} else {
		acc, err = cv.MultiClassCrossValidation(D, nfold, opts)
	}
	c.Check(err == nil, "cross-validation failed: %v", err)
	if want >= 0 {
		c.Check(close2(acc, want, 1e-9), "%d-fold accuracy %v, %v expected: %d of %d samples have the other label, options %+v", nfold, acc, want, minor, tot, *o)
	} else {
		c.Check(acc < 100, "%d-fold accuracy %v although most trees can't see the informative one of %d columns, options %+v", nfold, acc, cols, *o)
	}
	c.Count("setting "+name, 1)
	c.Sig("%s %d %d %d %v", name, tot, minor, nfold, acc)
}

// ---- traces of the searches ----

type searchTrace struct {
	mu       sync.Mutex
	starts   []cv.TraceEvent
	ends     []cv.TraceEvent
	inflight int
	maxIn    int
	delay    func() time.Duration
}

var traces sync.Map // key: first feature name of the dataset
var traceOnce sync.Once

func startTrace(key string, delay func() time.Duration) *searchTrace {
	traceOnce.Do(func() {
		cv.Trace = func(e cv.TraceEvent) {
			if e.D == nil || len(e.D.Keys) == 0 {
				return
			}
			v, ok := traces.Load(e.D.Keys[0])
			if !ok {
				return
			}
			t := v.(*searchTrace)
			t.mu.Lock()
			var d time.Duration
			if t.delay != nil {
				d = t.delay()
			}
			if e.End {
				t.ends = append(t.ends, e)
				t.inflight--
			} else {
				t.starts = append(t.starts, e)
				t.inflight++
				t.maxIn = max(t.maxIn, t.inflight)
			}
			t.mu.Unlock()
			if d > 0 {
				time.Sleep(d)
			}
		}
	})
	t := &searchTrace{delay: delay}
	traces.Store(key, t)
	return t
}

func (c *Case) traceKey() string { return fmt.Sprintf("case-%s-%d", c.Suite, c.I) }

func (c *Case) jitter() func() time.Duration {
	m := pick(c.R, 0, 0, 50, 300)
	R := rand.New(rand.NewPCG(c.R.Uint64(), 1))
	if m == 0 {
		return nil
	}
	return func() time.Duration { return time.Duration(R.IntN(m)) * time.Microsecond } // called under the trace's lock
}

func cvData(c *Case, n int) *utils.DataBunch {
	R := c.R
	D := genBunch(R, n, 2+R.IntN(2), 2+R.IntN(2))
	D.Keys[0] = c.traceKey()
	return D
}

// exact binary steps, so that the grid points do not depend on how they are computed
func axisF(R interface{ IntN(int) int }, lo, step float64, maxn int) ([3]float64, []float64) {
	n := 1 + R.IntN(maxn)
	hi := lo + float64(n-1)*step
	if R.IntN(2) == 0 {
		hi += step / 2
	}
	v := make([]float64, n)
	for i := range v {
		v[i] = lo + float64(i)*step
	}
	return [3]float64{lo, hi, step}, v
}

func axisI(R interface{ IntN(int) int }, lo, step, maxn int) ([3]int, []int) {
	n := 1 + R.IntN(maxn)
	v := make([]int, n)
	for i := range v {
		v[i] = lo + i*step
	}
	hi := v[n-1]
	if step > 1 && R.IntN(2) == 0 {
		hi++
	}
	return [3]int{lo, hi, step}, v
}

type hyper struct {
	XGB                                bool
	ES, Rounds, Depth                  int
	LR, Gamma, Lambda, SS, CSS, Weight float64
}

// sameOpts compares the settings of two options values without using the library's own comparison
func sameOpts(a, b *boo.Options) bool {
	ac, bc := *a, *b
	if (ac.Loss == nil) != (bc.Loss == nil) || ac.Loss != nil && ac.Loss.Name() != bc.Loss.Name() {
		return false
	}
	ac.Loss, bc.Loss = nil, nil
	return ac == bc
}

func hyperOf(o *boo.Options) hyper {
	return hyper{o.XGB, o.EarlyStop, o.Rounds, o.MaxDepth, o.LearningRate, o.Gamma, o.Lambda, o.SubSample, o.ColSubSample, o.MinChildWeight}
}

func genGrid(c *Case) (*cv.GridOptions, []hyper) {
	R := c.R
	g := cv.DefaultXGridOptions()
	g.XGB = R.IntN(3) > 0
	g.EarlyStop = pick(R, 0, 1, 10)
	g.NCPUs = pick(R, -3, 0, 1, 1, 2, 3, 4, 5, 7, 16, 100)
	g.Verbose = R.IntN(4) == 0
	var lr, ga, la, ss, cs, mw []float64
	var ro, md []int
	// most axes are single points, a few are longer
	m := func() int { return pick(R, 1, 1, 1, 2, 3) }
	g.Rounds, ro = axisI(R, 1+R.IntN(2), 1+R.IntN(2), m())
	g.MaxDepth, md = axisI(R, 1+R.IntN(2), 1, m())
	g.LearningRate, lr = axisF(R, pick(R, 0.25, 0.25, 0.25, 1.0/4096, 3), pick(R, 0.25, 0.125, 0.0625), m())
	g.Gamma, ga = axisF(R, 0, pick(R, 0.5, 0.25, 1), m())
	g.Lambda, la = axisF(R, pick(R, 0.5, 0.5, 0, 1.0/1024), pick(R, 0.5, 0.75, 2), m())
	g.SubSample, ss = axisF(R, 0.5, pick(R, 0.25, 0.125), m())
	if R.IntN(5) == 0 { // few rows, or none
		g.SubSample, ss = axisF(R, pick(R, 0.03125, 0.125), 0.25, m())
	}
	if R.IntN(5) == 0 { // above 1 everything is used, as with 1
		g.SubSample, ss = axisF(R, 0.75, 0.25, 4)
	}
	g.ColSubSample, cs = axisF(R, 0.5, pick(R, 0.25, 0.125, 0.1875), m())
	g.MinChildWeight, mw = axisF(R, pick(R, 1, 1, 1, 0.5, 9), pick(R, 1, 0.5, 1.5, 2), m())
	var out []hyper
	for _, a := range ro {
		for _, b := range md {
			for _, l := range lr {
				for _, gm := range ga {
					for _, lm := range la {
						for _, s := range ss {
							for _, cc := range cs {
								for _, w := range mw {
									out = append(out, hyper{g.XGB, g.EarlyStop, a, b, l, gm, lm, s, cc, w})
								}
							}
						}
					}
				}
			}
		}
	}
	return g, out
}

// restDefault: whatever the search does not tune is as in the default options of the kind
func restDefault(c *Case, o *boo.Options, what string) {
	w := boo.DefaultGOptions()
	if o.XGB {
		w = boo.DefaultXOptions()
	}
	w.EarlyStop, w.Rounds, w.MaxDepth, w.LearningRate = o.EarlyStop, o.Rounds, o.MaxDepth, o.LearningRate
	w.Gamma, w.Lambda, w.SubSample, w.ColSubSample, w.MinChildWeight = o.Gamma, o.Lambda, o.SubSample, o.ColSubSample, o.MinChildWeight
	c.Check(sameOpts(w, o), "%s: a setting that is not searched over differs from its default: %+v, default %+v", what, *o, *w)
}

func sameTable(a, b *utils.DataBunch) bool {
	if len(a.Data) != len(b.Data) || !slices.Equal(a.Labels, b.Labels) {
		return false
	}
	for i := range a.Data {
		if !eqF(a.Data[i], b.Data[i]) {
			return false
		}
	}
	return true
}

func c16case(c *Case) {
	R := c.R
	g, want := genGrid(c)
	if len(want) > 120 {
		return
	}
	D := cvData(c, 6+R.IntN(10))
	nfold := pick(R, 2, 2, 3, 6, 7)
	if R.IntN(20) == 0 && len(want) <= 24 { // accuracies just below 100
		n := 210 + R.IntN(200)
		D.Data, D.Labels = genX(R, n, len(D.Data[0]), 0), make([]int, n)
		for i, r := range D.Data {
			if r[0] > 0.3 {
				D.Labels[i] = 1
			}
		}
		for i := R.IntN(3); i > 0; i-- {
			D.Labels[R.IntN(n)] ^= 1
		}
		c.Count("nearly_separable", 1)
	}
	t := startTrace(c.traceKey(), c.jitter())
	defer traces.Delete(c.traceKey())
	gcopy := *g
	best, accs, o, err := cv.Grid(D, nfold, g)
	c.Check(err == nil, "Grid: %v", err)
	c.Check(*g == gcopy, "search options changed")
	t.mu.Lock()
	defer t.mu.Unlock()
	left := map[hyper]int{}
	for _, h := range want {
		left[h]++
	}
	for _, e := range t.starts {
		h := hyperOf(e.O)
		c.Check(left[h] > 0, "evaluated %+v, which is not a (remaining) point of the grid", h)
		left[h]--
		restDefault(c, e.O, "Grid")
		c.Check(e.Nfold == nfold, "evaluated with %d folds, %d requested", e.Nfold, nfold)
		c.Check(sameTable(e.D, D), "evaluated on another dataset")
		c.Count("grid_points", 1)
	}
	for h, n := range left {
		c.Check(n == 0, "grid point %+v was not evaluated (NCPUs %d, %d points)", h, g.NCPUs, len(want))
	}
	c.Check(len(t.ends) == len(t.starts), "%d evaluations begun, %d finished", len(t.starts), len(t.ends))
	c.Check(t.maxIn <= max(g.NCPUs, 1), "%d simultaneous evaluations, NCPUs %d", t.maxIn, g.NCPUs)
	if t.maxIn > 1 {
		c.Count("parallel_runs", 1)
	}
	top := math.Inf(-1)
	var ta []float64
	for _, e := range t.ends {
		top = math.Max(top, e.Acc)
		ta = append(ta, e.Acc)
	}
	c.Check(best == top, "best accuracy %v returned, %v observed", best, top)
	c.Check(o != nil, "no options returned")
	ok := false
	for _, e := range t.ends {
		if e.Acc == best && sameOpts(e.O, o) {
			ok = true
		}
	}
	c.Check(ok, "the options returned (%v) did not obtain the accuracy %v", o, best)
	if best > 99 && best < 100 {
		c.Count("best_in_99_100", 1)
	}
	sort.Float64s(ta)
	as := slices.Clone(accs)
	sort.Float64s(as)
	c.Check(eqF(ta, as), "accuracies returned %v, observed %v", as, ta)
	if len(want)%max(g.NCPUs, 1) != 0 {
		c.Count("uneven_batches", 1)
	}
	c.Count("grids", 1)
	c.Sig("pts%d cpu%d f%d %+v", len(want), g.NCPUs, nfold, hyperOf(o))
	c.Sample(map[string]any{"points": len(want), "NCPUs": g.NCPUs, "max_in_flight": t.maxIn, "best": best, "options": o.String()})
}

// ---- gradient searches ----

func genSpace(c *Case) *cv.GridOptions {
	R := c.R
	g := cv.DefaultXGridOptions()
	g.XGB = R.IntN(4) > 0
	g.EarlyStop = pick(R, 0, 2, 10)
	rg := func(lo, w, st float64) [3]float64 {
		l := lo + w*R.Float64()*0.3
		return [3]float64{l, l + w*R.Float64()*0.7, st}
	}
	r0 := 1 + R.IntN(4)
	g.Rounds = [3]int{r0, r0 + R.IntN(8), 1 + R.IntN(4)}
	d0 := 2 + R.IntN(2)
	g.MaxDepth = [3]int{d0, d0 + R.IntN(2), 1}
	g.LearningRate = rg(pick(R, 0.05, 0.05, 0.05, 0.05, 0.8, 1.2), 0.6, 0.15)
	g.Gamma = rg(0, 0.6, 0.1)
	if R.IntN(3) == 0 {
		g.Gamma[0] = 0
	}
	if R.IntN(8) == 0 {
		g.Gamma = [3]float64{0, 0, 0.1}
	}
	g.Lambda = rg(0.2, 2, 0.5)
	if R.IntN(10) == 0 {
		g.Lambda = [3]float64{0, 0, 0.5}
	}
	g.SubSample = rg(0.5, 0.5, 0.1)
	g.ColSubSample = rg(0.5, 0.5, 0.1)
	g.MinChildWeight = [3]float64{1 + float64(R.IntN(2)), 2.5, 1}
	g.Step = pick(R, 0.01, 0.1, 0.5, 5)
	g.DeltaFraction = pick(R, 0.02, 0.05, 0.3)
	g.NSteps = R.IntN(6)
	g.Central = R.IntN(2) == 0
	g.NCPUs = pick(R, 0, 1, 4)
	g.Verbose = R.IntN(4) == 0
	return g
}

func inSpace(c *Case, o *boo.Options, g *cv.GridOptions, what string) {
	in := func(v float64, l [3]float64, n string) {
		c.Check(!math.IsNaN(v) && !math.IsInf(v, 0), "%s: %s = %v", what, n, v)
		tol := 1e-12 * (1 + math.Abs(l[0]) + math.Abs(l[1])) // midpoints are computed in floating point
		c.Check(v >= l[0]-tol && v <= l[1]+tol, "%s: %s = %v, outside [%v,%v]", what, n, v, l[0], l[1])
	}
	in(o.LearningRate, g.LearningRate, "LearningRate")
	in(o.Gamma, g.Gamma, "Gamma")
	in(o.Lambda, g.Lambda, "Lambda")
	in(o.SubSample, g.SubSample, "SubSample")
	in(o.ColSubSample, g.ColSubSample, "ColSubSample")
	in(o.MinChildWeight, g.MinChildWeight, "MinChildWeight")
	c.Check(o.Rounds >= g.Rounds[0] && o.Rounds <= g.Rounds[1], "%s: Rounds = %d, outside %v", what, o.Rounds, g.Rounds)
	c.Check(o.MaxDepth >= g.MaxDepth[0] && o.MaxDepth <= g.MaxDepth[1], "%s: MaxDepth = %d, outside %v", what, o.MaxDepth, g.MaxDepth)
}

func c17case(hybrid bool) func(*Case) {
	return func(c *Case) {
		R := c.R
		g := genSpace(c)
		n := 8 + R.IntN(16)
		if hybrid {
			g.Rounds[2] = max(g.Rounds[2], g.Rounds[1]-g.Rounds[0]) // few outer iterations
			g.Lambda[2] = max(0.3, (g.Lambda[1]-g.Lambda[0])*0.7)
			g.NSteps = min(g.NSteps, 3)
		}
		D := cvData(c, n)
		nfold := pick(R, 2, 3, 4, 6, 8)
		t := startTrace(c.traceKey(), c.jitter())
		defer traces.Delete(c.traceKey())
		gcopy := *g
		f := cv.GradientGrid
		if hybrid {
			f = cv.HybridGradientGrid
		}
		best, accs, o, err := f(D, nfold, g)
		c.Check(err == nil, "search failed: %v", err)
		c.Check(*g == gcopy, "search options changed")
		t.mu.Lock()
		defer t.mu.Unlock()
		c.Check(o != nil, "no options returned")
		c.Check(len(accs) > 0 && accs[len(accs)-1] == best, "accuracies %v do not end in the best one, %v", accs, best)
		for i := 1; i < len(accs); i++ {
			c.Check(accs[i] > accs[i-1], "accuracies %v are not strictly increasing", accs)
		}
		ok, near := false, ""
		top := -1.0
		for _, e := range t.ends {
			c.Check(e.Nfold == nfold, "evaluated with %d folds, %d requested", e.Nfold, nfold)
			c.Check(sameTable(e.D, D), "evaluated on another dataset")
			x := *e.O
			x.BaseScore = boo.DefaultXOptions().BaseScore // perturbed with the tunable ones
			if !x.XGB {
				x.BaseScore = boo.DefaultGOptions().BaseScore
			}
			restDefault(c, &x, "search")
			if e.Acc == best {
				if sameOpts(e.O, o) {
					ok = true
				} else if !e.Conc {
					near = e.O.String()
				}
			}
			if !e.Conc {
				top = math.Max(top, e.Acc)
			}
		}
		c.Check(ok, "the options returned (%v, base score %v) did not obtain the accuracy %v (it was obtained by %s)", o, o.BaseScore, best, near)
		if g.Central && top >= 0 {
			c.Check(best == top, "best accuracy %v returned, candidates reached %v", best, top)
		}
		c.Check(o.XGB == g.XGB && o.EarlyStop == g.EarlyStop, "the options returned have XGB %v, EarlyStop %d; requested %v, %d", o.XGB, o.EarlyStop, g.XGB, g.EarlyStop)
		inSpace(c, o, g, "options returned")
		c.Count("searches", 1)
		c.Count("evaluations_observed", len(t.ends))
		if len(accs) > 1 {
			c.Count("improving_searches", 1)
		}
		c.Sig("%s %v", o.String(), accs)
		c.Sample(map[string]any{"space": fmt.Sprintf("%+v", *g), "accuracies": accs, "options": o.String(), "evaluations": len(t.ends)})
	}
}

// ---- C18: termination, no leaks ----

// libGoroutines returns the stacks of goroutines inside the library
func libGoroutines() []string {
	var r []string
	for _, g := range strings.Split(allStacks(), "\n\n") {
		if strings.Contains(g, "github.com/rmera/boo") && !strings.Contains(g, "main.libGoroutines") {
			r = append(r, g)
		}
	}
	return r
}

func noLeaks(c *Case, what string) {
	// a goroutine that has delivered its results needs only to return; blocked ones never will
	var l []string
	for i := 0; i < 4000; i++ {
		l = libGoroutines()
		if len(l) == 0 {
			c.Count("quiescent", 1)
			return
		}
		time.Sleep(time.Duration(min(i, 10)) * time.Millisecond)
		if i > 40 {
			blocked := 0
			for _, g := range l {
				h := strings.SplitN(g, "\n", 2)[0]
				if strings.Contains(h, "[chan ") || strings.Contains(h, "[select") {
					blocked++
				}
			}
			if i > 300 && blocked == len(l) {
				break
			}
		}
	}
	c.Check(false, "%s: %d goroutines remain:\n%s", what, len(l), clip(strings.Join(l, "\n\n")))
}

func smallData(c *Case) *utils.DataBunch {
	R := c.R
	n := pick(R, 1, 2, 3, 3)
	if R.IntN(2) == 0 {
		n = 5 + R.IntN(12)
	}
	D := &utils.DataBunch{Keys: genKeys(2)}
	for i := 0; i < n; i++ {
		D.Data = append(D.Data, []float64{R.NormFloat64(), float64(i)})
		D.Labels = append(D.Labels, i%2)
	}
	D.Keys[0] = c.traceKey()
	return D
}

var params = []string{"Gamma", "Lambda", "SubSample", "ColSubSample", "LearningRate", "Rounds"}

func startOpts(c *Case, g *cv.GridOptions) *boo.Options {
	R := c.R
	o := boo.DefaultXOptions()
	if !g.XGB {
		o = boo.DefaultGOptions()
	}
	o.MinSample = pick(R, 1, 1, 2, 0)
	o.EarlyStop = g.EarlyStop
	f := func(l [3]float64) float64 {
		switch R.IntN(4) {
		case 0:
			return l[0]
		case 1:
			return l[1]
		}
		return math.Min(l[1], l[0]+R.Float64()*(l[1]-l[0]))
	}
	o.Gamma, o.Lambda, o.SubSample, o.ColSubSample, o.LearningRate = f(g.Gamma), f(g.Lambda), f(g.SubSample), f(g.ColSubSample), f(g.LearningRate)
	o.MinChildWeight = f(g.MinChildWeight)
	o.Rounds = g.Rounds[0] + R.IntN(g.Rounds[1]-g.Rounds[0]+1)
	o.MaxDepth = g.MaxDepth[0] + R.IntN(g.MaxDepth[1]-g.MaxDepth[0]+1)
	return o
}

// recvOne runs f, which sends on out, and returns the single value sent
func recvOne(c *Case, what string, f func(out chan *boo.Options)) *boo.Options {
	out := make(chan *boo.Options)
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f(out)
	}()
	var got []*boo.Options
	for {
		select {
		case o := <-out:
			got = append(got, o)
		case p := <-done:
			c.Check(p == nil, "%s: panic %v", what, p)
			c.Check(len(got) == 1, "%s: %d options values delivered", what, len(got))
			return got[0]
		}
	}
}

func c18case(c *Case) {
	R := c.R
	D := smallData(c)
	t := startTrace(c.traceKey(), c.jitter())
	defer traces.Delete(c.traceKey())
	nfold := pick(R, 0, 2, 3, 5)
	what := ""
	g := genSpace(c)
	switch R.IntN(7) {
	case 0, 1:
		what = "Grid"
		gg, _ := genGrid(c)
		gg.Rounds, gg.MinChildWeight = [3]int{1, 1, 1}, [3]float64{1, 1, 1}
		if R.IntN(4) == 0 {
			gg.SubSample = [3]float64{0.5, 0.75, 0.25}
		}
		_, _, _, err := cv.Grid(D, nfold, gg)
		c.Check((err != nil) == (len(D.Data) < 4), "Grid with %d samples: error %v", len(D.Data), err)
		if err != nil {
			c.Count("failed_searches", 1)
		}
		what = fmt.Sprintf("Grid with %d samples, NCPUs %d", len(D.Data), gg.NCPUs)
	case 2:
		what = "GradientGrid"
		g.MinChildWeight[1], g.MaxDepth[1] = g.MinChildWeight[0], g.MaxDepth[0]
		_, _, _, err := cv.GradientGrid(D, nfold, g)
		c.Check((err != nil) == (len(D.Data) < 4), "GradientGrid with %d samples: error %v", len(D.Data), err)
	case 3:
		what = "HybridGradientGrid"
		g.MinChildWeight[1], g.MaxDepth[1], g.Rounds[2] = g.MinChildWeight[0], g.MaxDepth[0], 10
		g.Lambda[2] = 3
		_, _, _, err := cv.HybridGradientGrid(D, nfold, g)
		c.Check((err != nil) == (len(D.Data) < 4), "HybridGradientGrid with %d samples: error %v", len(D.Data), err)
	case 4:
		o := startOpts(c, g)
		p := pick(R, params...)
		what = fmt.Sprintf("ParamaterGradStep %s central %v, %d samples, %+v", p, g.Central, len(D.Data), *o)
		recvOne(c, what, func(out chan *boo.Options) {
			cv.ParamaterGradStep(D, o, g, p, g.Step, g.DeltaFraction, 50, nfold, g.Central, out)
		})
	case 5:
		o := startOpts(c, g)
		what = fmt.Sprintf("GradStep central %v, %d samples, %+v", g.Central, len(D.Data), *o)
		if R.IntN(2) == 0 {
			recvOne(c, what, func(out chan *boo.Options) { cv.GradStep(o, g, D, g.Step, g.DeltaFraction, nfold, g.Central, out) })
		} else {
			r := cv.GradStep(o, g, D, g.Step, g.DeltaFraction, nfold, g.Central, nil)
			c.Check(r != nil, "GradStep returned nothing")
		}
	case 6:
		what = "concurrent cross-validation"
		o := startOpts(c, g)
		runConc(c, D, nfold, &cv.Options{O: o})
	}
	noLeaks(c, what)
	t.mu.Lock()
	c.Check(len(t.starts) == len(t.ends), "%s: %d cross-validations begun, %d finished", what, len(t.starts), len(t.ends))
	c.Count("evaluations_observed", len(t.ends))
	t.mu.Unlock()
	if len(D.Data) < 4 {
		c.Count("too_little_data", 1)
	}
	c.Count("calls", 1)
	c.Sig("%s %d", what, len(D.Data))
	c.Sample(map[string]any{"call": what, "samples": len(D.Data), "goroutines_after": runtime.NumGoroutine()})
}

// ---- C28: steps ----

func c28case(c *Case) {
	R := c.R
	g := genSpace(c)
	D := cvData(c, 8+R.IntN(14))
	t := startTrace(c.traceKey(), nil)
	defer traces.Delete(c.traceKey())
	nfold := pick(R, 2, 3, 6)
	o := startOpts(c, g)
	step := pick(R, 0.01, 0.1, 0.5, 1, 10, 1e4, 1e9, 0, -0.5)
	fd := pick(R, 0.01, 0.05, 0.3, 0.9, 0, 1)
	central := R.IntN(2) == 0
	before, gb := *o, *g
	what := fmt.Sprintf("step %v delta %v central %v from %+v in %+v", step, fd, central, before, *g)
	changed := func(r *boo.Options) map[string]bool {
		m := map[string]bool{}
		add := func(n string, d bool) {
			if d {
				m[n] = true
			}
		}
		add("Gamma", r.Gamma != before.Gamma)
		add("Lambda", r.Lambda != before.Lambda)
		add("SubSample", r.SubSample != before.SubSample)
		add("ColSubSample", r.ColSubSample != before.ColSubSample)
		add("LearningRate", r.LearningRate != before.LearningRate)
		add("Rounds", r.Rounds != before.Rounds)
		cp := *r
		cp.Gamma, cp.Lambda, cp.SubSample, cp.ColSubSample, cp.LearningRate, cp.Rounds = before.Gamma, before.Lambda, before.SubSample, before.ColSubSample, before.LearningRate, before.Rounds
		add("something else", cp != before)
		return m
	}
	if R.IntN(2) == 0 {
		p := pick(R, params...)
		acc := pick(R, 0.0, 30, 50, 100)
		r := recvOne(c, what, func(out chan *boo.Options) {
			cv.ParamaterGradStep(D, o, g, p, step, fd, acc, nfold, central, out)
		})
		c.Check(r != nil, "%s: nil options delivered", what)
		c.Check(*o == before, "%s: the options given were changed to %+v", what, *o)
		for k := range changed(r) {
			c.Check(k == p, "%s: a step in %s changed %s: %+v", what, p, k, *r)
		}
		inSpace(c, r, g, what)
		if len(changed(r)) > 0 {
			c.Count("moved", 1)
		}
		c.Count("parameter_steps", 1)
		c.Sig("%s %s %v", p, what, *r)
	} else {
		var ret *boo.Options
		var r *boo.Options
		if R.IntN(3) > 0 {
			r = recvOne(c, what, func(out chan *boo.Options) {
				ret = cv.GradStep(o, g, D, step, fd, nfold, central, out)
			})
			c.Check(*o == before, "%s: the options given were changed to %+v", what, *o)
			c.Check(ret != nil && r != nil && *ret == *r, "%s: %v delivered, %v returned", what, r, ret)
		} else {
			r = cv.GradStep(o, g, D, step, fd, nfold, central, nil)
		}
		m := changed(r)
		c.Check(!m["something else"], "%s: a full step changed another setting: %+v", what, *r)
		inSpace(c, r, g, what)
		if len(m) > 0 {
			c.Count("moved", 1)
		}
		c.Count("full_steps", 1)
		c.Sig("%s %v", what, *r)
	}
	c.Check(*g == gb, "the search space was changed")
	t.mu.Lock()
	c.Count("evaluations_observed", len(t.ends))
	for _, e := range t.ends {
		c.Check(e.Nfold == nfold, "evaluated with %d folds, %d requested", e.Nfold, nfold)
	}
	t.mu.Unlock()
	c.Sample(map[string]any{"step": what})
}

// ---- C29: WriteBest ----

func c29case(c *Case) {
	R := c.R
	dir, err := os.MkdirTemp(c.scratch, "best")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	defer os.Chdir(old)
	few := R.IntN(4) == 0 // a single row fraction, which the trees of the model must show
	frac := 1.0
	nrows := 10 + R.IntN(20)
	if few {
		frac, nrows = pick(R, 0.25, 0.3, 0.4, 0.6, 0.75, 0.9), 50+R.IntN(40)
	}
	D := cvData(c, nrows)
	t := startTrace(c.traceKey(), nil)
	defer traces.Delete(c.traceKey())
	nfold := pick(R, 2, 3)
	kind := R.IntN(3)
	write := R.IntN(4) > 0
	// older, longer model files are in the way
	junk := ""
	if R.IntN(5) == 0 {
		junk = strings.Repeat("left over from another search, \"XGB\": true}\n", 200+R.IntN(1000))
		for v := 0; v <= 100; v++ {
			if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("xgbmodel%d.json", v)), []byte(junk), 0o644); err != nil {
				panic(err)
			}
		}
	}
	whole := !few && R.IntN(2) == 0 // no subsampling: the model of given options is known
	var g *cv.GridOptions
	var accs []float64
	var best float64
	sub := func() {
		if whole {
			g.SubSample, g.ColSubSample = [3]float64{1, 1, 1}, [3]float64{1, 1, 1}
		}
		if few {
			g.SubSample, g.XGB = [3]float64{frac, frac, 1}, true
			g.Rounds = [3]int{4, 6, 2}
		}
	}
	switch kind {
	case 0:
		g, _ = genGrid(c)
		g.LearningRate, g.MaxDepth = [3]float64{0.125, 1, 0.125}, [3]int{1, 3, 1}
		g.MinChildWeight = [3]float64{1, 1, 1}
		g.Lambda, g.Gamma = [3]float64{0.5, 0.5, 1}, [3]float64{0, 0, 1}
		g.NCPUs = pick(R, 1, 3, 8)
		g.WriteBest = write
		sub()
		best, accs, _, err = cv.Grid(D, nfold, g)
	case 1:
		g = genSpace(c)
		g.WriteBest = write
		sub()
		best, accs, _, err = cv.GradientGrid(D, nfold, g)
	case 2:
		g = genSpace(c)
		g.Rounds[2], g.Lambda[2] = 5, 2
		g.WriteBest = write
		sub()
		best, accs, _, err = cv.HybridGradientGrid(D, nfold, g)
	}
	c.Check(err == nil, "search failed: %v", err)
	ents, _ := os.ReadDir(dir)
	files := map[int]string{}
	for _, e := range ents {
		n := e.Name()
		v, err := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(n, "xgbmodel"), ".json"))
		c.Check(err == nil, "unexpected file %q", n)
		if b, _ := os.ReadFile(filepath.Join(dir, n)); junk != "" && string(b) == junk {
			continue // still there
		}
		files[v] = filepath.Join(dir, n)
	}
	c.Count("searches", 1)
	if !write {
		c.Check(len(files) == 0, "WriteBest is off, but %d files were written", len(files))
		c.Count("silent_searches", 1)
		return
	}
	t.mu.Lock()
	ends := slices.Clone(t.ends)
	t.mu.Unlock()
	want := map[int]bool{int(best): true}
	switch {
	case kind > 0:
		for _, a := range accs {
			want[int(a)] = true
		}
	case g.NCPUs == 1:
		top := -1.0
		for _, e := range ends {
			if e.Acc > top {
				top = e.Acc
				want[int(top)] = true
			}
		}
	}
	for w := range want {
		c.Check(files[w] != "", "no model file for the new best accuracy %d (files %v)", w, files)
	}
	labels, _ := oneHotRef(D.Labels)
	for v, f := range files {
		if kind > 0 || g.NCPUs == 1 {
			c.Check(want[v], "file for the accuracy %d, which was no new best (%v)", v, accs)
		}
		b, err := os.ReadFile(f)
		c.Check(err == nil, "%v", err)
		M, err := reload(string(b))
		c.Check(err == nil, "the model file of accuracy %d can't be loaded: %v", v, err)
		j, err := parseModel(string(b))
		c.Check(err == nil, "the model file of accuracy %d is not well formed: %v", v, err)
		c.Check(slices.Equal(M.ClassLabels(), labels), "the model file has the labels %v, the data %v", M.ClassLabels(), labels)
		ok, exact := false, false
		for _, e := range ends {
			if int(e.Acc) == v && e.O.LearningRate == j.LearningRate && e.O.BaseScore == j.BaseScore && len(j.Rounds) <= e.O.Rounds {
				ok = true
				if whole && !exact {
					exact = mustModel(c, boo.NewMultiClass(D, e.O)).text == j.text
				}
			}
		}
		j.trees(func(_, _ int, t *Node) {
			c.Check(t.Nsamples <= len(D.Data), "tree of the model file fitted on %d rows, of %d", t.Nsamples, len(D.Data))
		})
		if few {
			rows := 0
			for _, r := range j.Rounds {
				m := 0
				for _, t := range r {
					m = max(m, t.Nsamples)
				}
				rows += m
			}
			all := float64(len(D.Data) * len(j.Rounds))
			dev := math.Abs(float64(rows)-frac*all) / math.Sqrt(all*frac*(1-frac))
			c.Check(dev < 7.5, "the %d rounds of the model file use %d of %v rows, with SubSample %v (%.1f standard deviations off)", len(j.Rounds), rows, all, frac, dev)
			c.Count("subsampled_files", 1)
		}
		c.Check(!ok || !whole || exact, "the model file of accuracy %d is not the model of any options with that accuracy, trained on all the data", v)
		if exact {
			c.Count("exact_models", 1)
		}
		c.Check(ok, "the model file of accuracy %d (learning rate %v, %d rounds) fits no options with that accuracy", v, j.LearningRate, len(j.Rounds))
		for _, x := range probes(R, D, j, 5) {
			judgeDist(c, M.PredictSingle(x), len(labels), "model file")
		}
		c.Count("files", 1)
	}
	c.Sig("kind%d %v %d", kind, accs, len(files))
	c.Sample(map[string]any{"search": kind, "accuracies": accs, "files": len(files)})
}

func init() {
	register(&Prop{ID: "C15", Rule: "cross-validations with a recording loss on constant features: every training is simulated independently (rates, rounds, labels), its held-out label counts derived from the labels it saw, and the accuracy compared exactly; plus data where every label occurs once (accuracy must be 0), separated clusters (100) and alternating neighbours; separable data with a setting that forbids splits or trees; direct and concurrent mode; too little data",
		Suites: []Suite{{"constant", 1500, 40000, false, c15const}, {"leakage", 600, 15000, false, c15leak}, {"settings", 1200, 30000, false, c15settings}, {"small", 200, 4000, false, c15small}},
		Floors: map[string]int64{"crossvalidations": 1000, "trainings": 3000, "unique_label_runs": 80, "separable_runs": 20, "alternating_runs": 80, "setting Gamma": 60, "setting MinSample": 60, "setting ColSubSample": 60, "setting none": 20, "concurrent": 700, "too_small": 100}})
	register(&Prop{ID: "C16", Rule: "grids of 1-120 points over 8 axes with exact binary steps, NCPUs from -3 to 100 (batches that do not divide the grid), delays injected at the beginning and end of evaluations; the trace of all cross-validations is compared with the enumerated grid",
		Suites: []Suite{{"grid", 400, 8000, false, c16case}},
		Floors: map[string]int64{"grids": 200, "grid_points": 2000, "uneven_batches": 60, "parallel_runs": 60}})
	register(&Prop{ID: "C17", Rule: "gradient and hybrid searches in random search spaces (both kinds of boosting, central and forward differences), the returned options and accuracies compared with the trace of all cross-validations",
		Suites: []Suite{{"gradient", 250, 5000, false, c17case(false)}, {"hybrid", 150, 3000, false, c17case(true)}},
		Floors: map[string]int64{"searches": 300, "evaluations_observed": 3000, "improving_searches": 50}})
	register(&Prop{ID: "C18", Rule: "every search, step and concurrent cross-validation with random spaces, NCPUs and delays, half of them with too little data; after each call the goroutines inside the library are listed until none is left (or all of them stay blocked), and begun and finished evaluations are compared",
		Suites: []Suite{{"calls", 500, 8000, true, c18case}},
		Floors: map[string]int64{"calls": 400, "quiescent": 400, "too_little_data": 100, "evaluations_observed": 1000}})
	register(&Prop{ID: "C28", Rule: "single-parameter and full steps from random points (corners included) of random search spaces, step sizes from negative to 1e9, deltas 0 to 1, central and forward differences",
		Suites: []Suite{{"steps", 1200, 25000, false, c28case}},
		Floors: map[string]int64{"parameter_steps": 400, "full_steps": 400, "moved": 60, "evaluations_observed": 2000}})
	register(&Prop{ID: "C29", Rule: "searches of the three kinds run in scratch working directories (some of them full of older, longer files of the same names), with and without WriteBest; the files left are loaded and compared with the trace of evaluations and, without subsampling, with the model of the same options trained on all the data",
		Suites: []Suite{{"files", 150, 2500, true, c29case}},
		Floors: map[string]int64{"searches": 100, "files": 150, "exact_models": 50, "subsampled_files": 20, "silent_searches": 15}})
}
