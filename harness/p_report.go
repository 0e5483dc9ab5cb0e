package main

import (
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"regexp"
	"slices"
	"strconv"
	"strings"

	"github.com/rmera/boo"
	"github.com/rmera/boo/cv"
	"github.com/rmera/boo/utils"
	"gonum.org/v1/gonum/mat"
)

var numRe = regexp.MustCompile(`[-+]?(?:Inf|NaN|[0-9]+(?:\.[0-9]+)?(?:e[-+]?[0-9]+)?)`)

func numbers(s string) []float64 {
	var r []float64
	for _, t := range numRe.FindAllString(s, -1) {
		v, err := strconv.ParseFloat(t, 64)
		if err == nil {
			r = append(r, v)
		}
	}
	return r
}

// shows tells whether some number in the text is v, to the given decimals
func shows(s string, v float64, dec int) bool {
	w, _ := strconv.ParseFloat(strconv.FormatFloat(v, 'f', dec, 64), 64)
	return slices.Contains(numbers(s), w)
}

// ---- C32: printed forms ----

func c32options(c *Case) {
	R := c.R
	o := boo.DefaultXOptions()
	if R.IntN(3) == 0 {
		o = boo.DefaultGOptions()
	}
	// distinct values, so that each must be printed for itself
	o.Rounds, o.MaxDepth = 1000+R.IntN(1000), 2+R.IntN(900)
	used := map[string]bool{}
	next := func() float64 {
		for {
			v := float64(R.IntN(90000)+1) / 1000
			if R.IntN(3) == 0 {
				v += R.Float64() * 0.0004
			}
			k := strconv.FormatFloat(v, 'f', 3, 64)
			if w, _ := strconv.ParseFloat(k, 64); !used[k] && w != math.Trunc(w) {
				used[k] = true
				return v
			}
		}
	}
	o.LearningRate, o.SubSample, o.BaseScore, o.Gamma, o.Lambda, o.MinChildWeight, o.ColSubSample = next(), next(), next(), next(), next(), next(), next()
	s := o.String()
	c.Check(!strings.Contains(s, "%!"), "options are printed as %q", s)
	c.Check(shows(s, float64(o.Rounds), 0) && shows(s, float64(o.MaxDepth), 0) && shows(s, o.LearningRate, 3) && shows(s, o.MinChildWeight, 3), "%+v is printed as %q", *o, s)
	if o.XGB {
		c.Check(shows(s, o.SubSample, 3) && shows(s, o.BaseScore, 3) && shows(s, o.Gamma, 3) && shows(s, o.Lambda, 3) && shows(s, o.ColSubSample, 3), "%+v is printed as %q", *o, s)
	}
	// each printed setting stands beside its own tag
	for _, t := range []struct {
		tag string
		v   string
		xgb bool
	}{{"r", fmt.Sprint(o.Rounds), false}, {"md", fmt.Sprint(o.MaxDepth), false}, {"lr", fmt.Sprintf("%.3f", o.LearningRate), false}, {"mcw", fmt.Sprintf("%.3f", o.MinChildWeight), false},
		{"ss", fmt.Sprintf("%.3f", o.SubSample), true}, {"bs", fmt.Sprintf("%.3f", o.BaseScore), true}, {"gam", fmt.Sprintf("%.3f", o.Gamma), true}, {"lam", fmt.Sprintf("%.3f", o.Lambda), true}, {"css", fmt.Sprintf("%.3f", o.ColSubSample), true}} {
		if t.xgb && !o.XGB {
			continue
		}
		found := false
		for _, f := range strings.FieldsFunc(s, func(r rune) bool { return r == '/' }) {
			w := strings.Fields(f)
			for i := 1; i < len(w); i++ {
				if w[i] == t.tag {
					found = true
					c.Check(w[i-1] == t.v, "%q shows %s as %s, it is %s", s, t.tag, w[i-1], t.v)
				}
			}
		}
		c.Check(found, "%q does not show %s", s, t.tag)
	}
	c.Check(strings.Contains(s, "xgboost") == o.XGB, "kind of boosting in %q", s)
	c.Count("options_printed", 1)
	c.Sig("%s", s)
	c.Sample(map[string]any{"printed": s})
}

func c32data(c *Case) {
	R := c.R
	n, d := 1+R.IntN(10), 1+R.IntN(6)
	if R.IntN(100) == 0 {
		n, d = pick(R, 5, 120, 600, 1500), pick(R, 3, 70, 300)
		c.Count("large_tables", 1)
	}
	X := genX(R, n, d, pick(R, 0, 1, 6, 8))
	if R.IntN(4) == 0 {
		for i := range X {
			X[i][R.IntN(d)] = pick(R, 1e18, -3.5e17, 1e-9, 123456789.12345, 1e100, 99999.99996, -0.00004, 1e5, 1e6)
		}
	}
	D := &utils.DataBunch{Data: X, Keys: genKeys(d)}
	if R.IntN(4) > 0 {
		for range X {
			D.Labels = append(D.Labels, pick(R, R.IntN(4001)-2000, R.IntN(4001)-2000, R.IntN(1<<40), math.MaxInt, math.MinInt))
		}
	}
	s := D.String()
	lines := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	c.Check(len(lines) == n+1, "%d lines printed for %d rows", len(lines), n)
	h := strings.Fields(lines[0])
	c.Check(len(h) == d+1 && slices.Equal(h[1:], D.Keys), "names printed as %q, they are %v", lines[0], D.Keys)
	for i, x := range X {
		f := strings.Fields(lines[i+1])
		l := -1
		if D.Labels != nil {
			l = D.Labels[i]
		}
		c.Check(len(f) == d+1 && f[0] == fmt.Sprint(l), "row %d (label %d) printed as %q", i, l, lines[i+1])
		for j, v := range x {
			c.Check(f[j+1] == strconv.FormatFloat(v, 'f', 4, 64), "row %d: %v printed as %q", i, v, f[j+1])
			c.Count("values_printed", 1)
		}
	}
	var nilD *utils.DataBunch
	c.Check(nilD.String() == "", "a nil dataset is printed as %q", nilD.String())
	// matrices, whole and as a view of a larger one
	M := mat.NewDense(n+2, d+2, nil)
	for i := 0; i < n+2; i++ {
		for j := 0; j < d+2; j++ {
			M.Set(i, j, R.NormFloat64()*math.Pow(10, float64(R.IntN(20)-10)))
		}
	}
	V := M.Slice(1, n+1, 1, d+1).(*mat.Dense)
	if R.IntN(2) == 0 {
		V = M
	}
	r, k := V.Dims()
	got := numbers(utils.PrintDenseMatrix(V))
	c.Check(len(got) == r*k, "%d numbers printed for a %dx%d matrix", len(got), r, k)
	for i := 0; i < r; i++ {
		for j := 0; j < k; j++ {
			c.Check(got[i*k+j] == V.At(i, j), "entry %d,%d = %v printed as %v", i, j, V.At(i, j), got[i*k+j])
		}
	}
	c.Check(len(strings.Split(strings.TrimSpace(utils.PrintDenseMatrix(V)), "\n")) == r, "one line per row")
	c.Count("tables_printed", 1)
	c.Sig("%d %d %s", n, d, clip(s))
}

// ---- C33: defaults and verbosity ----

func c33defaults(c *Case) {
	R := c.R
	mk := []func() *boo.Options{boo.DefaultXOptions, boo.DefaultGOptions, boo.DefaultOptions}
	for i, f := range mk {
		a, b := f(), f()
		keep := *b
		c.Check(a != b && sameOpts(a, b), "default options differ between calls: %+v, %+v", a, b)
		a.Rounds, a.LearningRate, a.XGB, a.SubSample, a.MinSample, a.Loss = 777, 9, !a.XGB, 0.123, 99, nil
		c.Check(*b == keep && sameOpts(f(), b), "changing default options changed other default options: %+v", b)
		c.Check(b.XGB == (i != 1), "XGB is %v in default options %d", b.XGB, i)
		c.Check(b.Loss != nil && b.Rounds > 0 && b.LearningRate > 0 && !b.Verbose, "default options %+v", b)
		c.Check(b.Check() == nil, "default options are not valid: %v", b.Check())
	}
	c.Check(sameOpts(boo.DefaultOptions(), boo.DefaultXOptions()), "the default options are not the xgboost ones")
	for i, f := range []func() *cv.GridOptions{cv.DefaultXGridOptions, cv.DefaultGGridOptions, cv.DefaultGridOptions} {
		a, b := f(), f()
		c.Check(a != b && *a == *b, "default search options differ between calls")
		keep := *b
		a.Rounds[0], a.XGB, a.NCPUs = -5, !a.XGB, 77
		c.Check(*b == keep && *f() == keep, "changing default search options changed other default search options")
		c.Check(b.XGB == (i != 1), "XGB is %v in default search options %d", b.XGB, i)
		c.Check(!b.Verbose && !b.WriteBest, "default search options %+v", b)
		// every axis is a non-empty, finite range
		c.Check(b.Rounds[0] > 0 && b.Rounds[0] <= b.Rounds[1] && b.Rounds[2] > 0 && b.MaxDepth[0] > 0 && b.MaxDepth[0] <= b.MaxDepth[1] && b.MaxDepth[2] > 0, "default search space %+v", *b)
		for _, l := range [][3]float64{b.LearningRate, b.Gamma, b.Lambda, b.SubSample, b.ColSubSample, b.MinChildWeight} {
			c.Check(l[0] >= 0 && l[0] <= l[1] && l[2] > 0, "default search space %+v", *b)
		}
		{
			lo, hi := boo.DefaultXOptions(), boo.DefaultXOptions()
			lo.Rounds, lo.MaxDepth, lo.LearningRate, lo.Gamma, lo.Lambda, lo.SubSample, lo.ColSubSample, lo.MinChildWeight = b.Rounds[0], b.MaxDepth[0], b.LearningRate[0], b.Gamma[0], b.Lambda[0], b.SubSample[0], b.ColSubSample[0], b.MinChildWeight[0]
			hi.Rounds, hi.MaxDepth, hi.LearningRate, hi.Gamma, hi.Lambda, hi.SubSample, hi.ColSubSample, hi.MinChildWeight = b.Rounds[1], b.MaxDepth[1], b.LearningRate[1], b.Gamma[1], b.Lambda[1], b.SubSample[1], b.ColSubSample[1], b.MinChildWeight[1]
			c.Check(lo.Check() == nil && hi.Check() == nil, "default search space with invalid corners: %v %v", lo.Check(), hi.Check())
		}
	}
	// leaving out the options means the default ones
	n, d, K := 10+R.IntN(40), 1+R.IntN(4), 1+R.IntN(4)
	D := genBunch(R, n, d, K)
	var M *boo.MultiClass
	if R.IntN(2) == 0 {
		M = boo.NewMultiClass(D)
	} else {
		M = boo.NewMultiClass(D, nil)
	}
	o := boo.DefaultOptions()
	j := mustModel(c, M)
	c.Check(j.LearningRate == o.LearningRate && j.BaseScore == o.BaseScore && len(j.Rounds) <= o.Rounds, "model without options: learning rate %v, base score %v, %d rounds; default %+v", j.LearningRate, j.BaseScore, len(j.Rounds), *o)
	part := 0
	j.trees(func(_, _ int, t *Node) {
		if t.Nsamples == 0 {
			return
		}
		c.Check(t.XGB == o.XGB, "kind of the trees without options")
		c.Check(t.Nsamples >= o.MinSample, "tree fitted on %d rows, default MinSample %d", t.Nsamples, o.MinSample)
		if t.Nsamples < n {
			part++
		}
		t.walk(func(x *Node, dp int) {
			c.Check(dp <= o.MaxDepth, "depth %d, default MaxDepth %d", dp, o.MaxDepth)
			c.Check(x.Nsamples >= min(t.Nsamples, int(o.MinChildWeight)), "node with %d rows, default MinChildWeight %v", x.Nsamples, o.MinChildWeight)
		}, 0)
		c.Count("default_trees", 1)
	})
	// 20 draws of 0.8 of at least 10 rows are all complete with probability < 1e-19
	if len(j.Rounds) == o.Rounds && o.SubSample < 0.9 {
		c.Check(part > 0, "no tree of %d rounds is fitted on a subsample", len(j.Rounds))
	}
	c.Check(slices.Equal(M.ClassLabels(), firstSeen(D.Labels)), "class labels %v", M.ClassLabels())
	c.Count("default_models", 1)
	c.Sig("n%d d%d K%d r%d", n, d, K, len(j.Rounds))
}

func firstSeen(l []int) []int { a, _ := oneHotRef(l); return a }

// cross-validation without options
func c33cv(c *Case) {
	R := c.R
	K := 2 + R.IntN(2)
	D := &utils.DataBunch{Keys: genKeys(1)}
	names := labelNames(R, K)
	n := K * (20 + R.IntN(20))
	for _, i := range R.Perm(n) {
		D.Data = append(D.Data, []float64{float64(i%K)*1000 + R.Float64()})
		D.Labels = append(D.Labels, names[i%K])
	}
	nf := pick(R, 0, 3, 5)
	var acc float64
	var err error
	if R.IntN(2) == 0 {
		acc, err = runConc(c, D, nf, &cv.Options{})
	} else {
		acc, err = cv.MultiClassCrossValidation(D, nf, &cv.Options{})
	}
	c.Check(err == nil, "cross-validation without options failed: %v", err)
	c.Check(acc == 100, "accuracy %v on clearly separated clusters, without options", acc)
	// fewer training samples than the default MinSample: no tree can be made
	ds := boo.DefaultOptions()
	few := 4 + R.IntN(3)
	one := &utils.DataBunch{Data: D.Data[:few], Labels: make([]int, few)}
	a, err := cv.MultiClassCrossValidation(one, 2, &cv.Options{})
	b, err2 := cv.MultiClassCrossValidation(one, 2, &cv.Options{O: ds})
	if ds.SubSample < 1 && ds.MinSample > (few+1)/2 {
		c.Check(err == nil && err2 == nil && a == b, "accuracy %v (%v) of %d samples without options, %v (%v) with the default ones", a, err, few, b, err2)
	}
	c.Count("default_crossvalidations", 1)
	c.Sig("K%d n%d f%d", K, n, nf)
}

// capture runs f with the standard output, standard error and log going to a file, and returns what was printed
func capture(c *Case, f func()) string {
	t, err := os.CreateTemp(c.scratch, "out")
	if err != nil {
		panic(err)
	}
	defer os.Remove(t.Name())
	defer t.Close()
	old, olde, oldl := os.Stdout, os.Stderr, log.Writer()
	os.Stdout, os.Stderr = t, t
	log.SetOutput(t)
	func() {
		defer func() {
			os.Stdout, os.Stderr = old, olde
			log.SetOutput(oldl)
		}()
		f()
	}()
	t.Seek(0, 0)
	b, _ := io.ReadAll(t)
	return string(b)
}

var lossRe = regexp.MustCompile(`(?i)round:?\s*(\d+).*class:?\s*(\d+).*loss\s*[=:]\s*(\S+)`)

func c33verbose(c *Case) {
	R := c.R
	n, d, K := 4+R.IntN(30), 1+R.IntN(4), 1+R.IntN(4)
	if R.IntN(4) == 0 {
		n = 2 + R.IntN(4)
	}
	D := genBunch(R, n, d, K)
	xgb := R.IntN(2) == 0
	o := genOptions(R, xgb, true)
	o.Verbose = false
	if R.IntN(2) == 0 {
		o.EarlyStop, o.LearningRate, o.Rounds = pick(R, 0, 0, 1, 2), pick(R, 0.3, 1, 20, 500), 1+R.IntN(25)
	}
	quiet := ""
	var q *JModel
	quiet = capture(c, func() { q = mustModel(c, boo.NewMultiClass(D, o.Clone())) })
	c.Check(quiet == "", "printed without Verbose: %q", clip(quiet))
	rec := &recLoss{L: o.Loss}
	v := o.Clone()
	v.Verbose, v.Loss = true, rec
	var m *JModel
	out := capture(c, func() { m = mustModel(c, boo.NewMultiClass(D, v)) })
	c.Check(m.text == q.text, "Verbose changed the model: %s", firstDiff(q.text, m.text))
	st := rec.steps()
	type rc struct{ r, k int }
	var want []rc
	m.trees(func(r, k int, t *Node) {
		if t.Nsamples > 0 {
			want = append(want, rc{r, k})
		}
	})
	got := 0
	for _, l := range strings.Split(out, "\n") {
		g := lossRe.FindStringSubmatch(l)
		if g == nil {
			continue
		}
		c.Check(got < len(want), "more lines than trees: %q", l)
		r, _ := strconv.Atoi(g[1])
		k, _ := strconv.Atoi(g[2])
		c.Check(want[got] == rc{r, k}, "%q, but tree %d belongs to round %d, class %d", l, got, want[got].r, want[got].k)
		x, err := strconv.ParseFloat(g[3], 64)
		near := false
		if err == nil && got < len(st) {
			for _, e := range st[got].Losses {
				near = near || math.Abs(x-e.Val) <= 0.000501
			}
			c.Check(near, "%q, but the loss is %+v", l, st[got].Losses)
		}
		c.Check(near, "%q is not about a recorded loss", l)
		got++
		c.Count("loss_lines", 1)
	}
	c.Check(got == len(want), "%d lines about losses for %d trees", got, len(want))
	// trees: debugging output only
	if R.IntN(10) == 0 {
		n = 60 + R.IntN(60)
		D = genBunch(R, n, d, K)
	}
	to := boo.DefaultGTreeOptions()
	to.Y = genCol(R, n, 0)
	if xgb {
		to = boo.DefaultXTreeOptions()
		to.Gradients = genCol(R, n, 0)
		to.Hessian = make([]float64, n)
		for i := range to.Hessian {
			to.Hessian[i] = 1
		}
	}
	dbg := *to
	dbg.Debug = true
	a, b := boo.NewTree(D.Data, to), boo.NewTree(D.Data, &dbg)
	c.Check(treeText(c, a) == treeText(c, b), "Debug changed the tree")
	c.Count("verbose_models", 1)
	c.Sig("%s n%d K%d %d", describeOpts(o), n, K, got)
}

func treeText(c *Case, t *boo.Tree) string {
	l, _, err := utils.JSONTree(t)
	c.Check(err == nil, "JSONTree: %v", err)
	var s []string
	for _, b := range l {
		s = append(s, string(b))
	}
	return strings.Join(s, "\n")
}

func init() {
	register(&Prop{ID: "C32", Rule: "options with pairwise different settings, random tables with and without labels, matrices and views of larger matrices; the printed text is parsed and every number compared with the value it stands for",
		Suites: []Suite{{"options", 3000, 80000, false, c32options}, {"data", 3000, 80000, false, c32data}},
		Floors: map[string]int64{"options_printed": 3000, "tables_printed": 3000, "values_printed": 20000}})
	register(&Prop{ID: "C33", Rule: "default option values changed and requested again; models and cross-validations without options compared with the defaults; trainings with and without Verbose (standard output captured and parsed, losses recorded), trees with and without Debug",
		Suites: []Suite{{"defaults", 500, 10000, false, c33defaults}, {"cv", 100, 2000, false, c33cv}, {"verbose", 500, 10000, true, c33verbose}},
		Floors: map[string]int64{"default_models": 400, "default_trees": 4000, "default_crossvalidations": 80, "verbose_models": 400, "loss_lines": 2000}})
}
