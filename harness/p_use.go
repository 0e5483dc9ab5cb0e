package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"regexp"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/rmera/boo"
	"github.com/rmera/boo/confu"
	"github.com/rmera/boo/cv"
	"github.com/rmera/boo/utils"
)

// ---- C19: concurrent use (run under the race detector) ----

// together runs the functions from a common starting line and returns the first complaint. The goroutines share nothing
// of the harness while they run, so that no harness synchronisation orders the library's accesses.
func together(c *Case, fs []func() string) {
	msgs := make([]string, len(fs))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					msgs[i] = fmt.Sprintf("panic: %v", r)
				}
			}()
			<-start
			msgs[i] = f()
		}()
	}
	close(start)
	wg.Wait()
	for _, m := range msgs {
		c.Check(m == "", "%s", m)
	}
	c.Count("concurrent_sequences", len(fs))
}

func matrixString(m [][]int) string { return fmt.Sprint(m) }

func c19model(c *Case) {
	R := c.R
	D, _, M, j := genModelX(c, false)
	if R.IntN(3) == 0 {
		var err error
		M, err = reload(j.text)
		c.Check(err == nil, "%v", err)
	}
	ps := probes(R, D, j, 12)
	want := make([][]float64, len(ps))
	for i, x := range ps {
		want[i] = slices.Clone(M.PredictSingle(x))
	}
	acc := M.Accuracy(D)
	conf := matrixString(confu.MCConfusions(M, D).Matrix())
	ft, err := M.FeatureImportance()
	c.Check(err == nil, "%v", err)
	feats := sortedFeats(ft.String())
	classes := len(j.ClassLabels)
	// a tree shared too
	tc := genTree(c, R.IntN(2) == 0, false)
	tp := tc.tree.Predict(tc.spec.X, nil)
	tpr := tc.tree.Print("")
	G := 2 + R.IntN(7)
	ops := 3 + R.IntN(6)
	var fs []func() string
	for g := 0; g < G; g++ {
		seed := R.Uint64()
		fs = append(fs, func() string {
			r := rand.New(rand.NewPCG(seed, 3))
			for k := 0; k < ops; k++ {
				switch r.IntN(8) {
				case 0, 1:
					i := r.IntN(len(ps))
					var p []float64
					if r.IntN(2) == 0 {
						p = M.PredictSingle(ps[i])
					} else {
						p = M.PredictSingle(ps[i], make([]float64, classes+r.IntN(2)))
					}
					for q := range want[i] {
						if p[q] != want[i][q] {
							return fmt.Sprintf("concurrent prediction %v, alone %v", p, want[i])
						}
					}
				case 2:
					i := r.IntN(len(ps))
					if k := M.PredictSingleClass(ps[i]); want[i][k] != slices.Max(want[i]) {
						return fmt.Sprintf("concurrent predicted class %d of %v", k, want[i])
					}
				case 3:
					if a := M.Accuracy(D, r.IntN(classes+1)); a != acc {
						return fmt.Sprintf("concurrent accuracy %v, alone %v", a, acc)
					}
				case 4:
					if m := matrixString(confu.MCConfusions(M, D).Matrix()); m != conf {
						return fmt.Sprintf("concurrent confusions %v, alone %v", m, conf)
					}
				case 5:
					f, err := M.FeatureImportance()
					if err != nil || sortedFeats(f.String()) != feats {
						return fmt.Sprintf("concurrent feature ranking %v %v, alone %v", f, err, feats)
					}
					f.Add(r.IntN(5), 1) // the ranking belongs to whoever asked for it
				case 6:
					t, err := modelJSON(M)
					if err != nil || t != j.text {
						return fmt.Sprintf("concurrent saving gives another text (%v)", err)
					}
					if M.Classes() != classes || len(M.ClassLabels()) != classes {
						return "concurrent class count differs"
					}
					M.Rounds(0)
					M2, err := reload(j.text) // and loaded again
					if err != nil {
						return fmt.Sprintf("concurrent loading: %v", err)
					}
					if i := r.IntN(len(ps)); !eqF(M2.PredictSingle(ps[i]), want[i]) {
						return "a model loaded concurrently predicts something else"
					}
				case 7:
					if !eqF(tc.tree.Predict(tc.spec.X, nil), tp) || tc.tree.Print("") != tpr {
						return "concurrent use of a tree gives another result"
					}
				}
				if r.IntN(3) == 0 {
					runtime.Gosched()
				}
			}
			return ""
		})
	}
	together(c, fs)
	c.Count("model_operations", G*ops)
	c.Sig("%d %d %s", G, ops, conf)
}

func sortedFeats(s string) string {
	l := featLines(s)
	r := []string{}
	for _, v := range l {
		r = append(r, fmt.Sprintf("%d:%.3f", v.f, v.s))
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func c19train(c *Case) {
	R := c.R
	n := 8 + R.IntN(20)
	D := genBunch(R, n, 2+R.IntN(3), 2+R.IntN(2))
	xgb := R.IntN(2) == 0
	det := R.IntN(3) > 0
	o := genOptions(R, xgb, det)
	det = det || !xgb
	o.Rounds = 1 + R.IntN(4)
	oc := *o
	before := cloneBunch(D)
	want := ""
	if det {
		want = mustModel(c, boo.NewMultiClass(D, o)).text
	}
	svm, csv := D.LibSVM(), D.CSV()
	G := 2 + R.IntN(6)
	var fs []func() string
	for g := 0; g < G; g++ {
		seed := R.Uint64()
		fs = append(fs, func() string {
			r := rand.New(rand.NewPCG(seed, 4))
			for k := 0; k < 3; k++ {
				switch r.IntN(6) {
				case 0, 1, 2:
					M := boo.NewMultiClass(D, o)
					if det {
						t, err := modelJSON(M)
						if err != nil || t != want {
							return fmt.Sprintf("training concurrently on shared data and options gives another model (%v)", err)
						}
					} else if M.Accuracy(D) < 0 {
						return "impossible accuracy"
					}
				case 3:
					a, err := cv.MultiClassCrossValidation(D, 2+r.IntN(2), &cv.Options{O: o})
					if err != nil || a < 0 || a > 100 {
						return fmt.Sprintf("concurrent cross-validation: %v %v", a, err)
					}
				case 4:
					nf, next, err := utils.CrossValidationSamples(D, 2, r.IntN(2) == 0)
					if err != nil || nf != 2 {
						return fmt.Sprintf("concurrent folds: %v %v", nf, err)
					}
					tot := 0
					for tr, te := next(); tr != nil; tr, te = next() {
						tot += len(te.Data)
					}
					if tot != n {
						return fmt.Sprintf("concurrent folds hold %d samples of %d", tot, n)
					}
				case 5:
					if D.LibSVM() != svm || D.CSV() != csv {
						return "writing a dataset concurrently gives another text"
					}
					D.OHELabels()
				}
			}
			return ""
		})
	}
	together(c, fs)
	c.Check(sameBunch(D, before), "concurrent training changed the dataset")
	c.Check(*o == oc, "concurrent training changed the options")
	c.Count("training_operations", 3*G)
	c.Sig("%d %s", G, describeOpts(o))
}

func c19feats(c *Case) {
	R := c.R
	xgb := R.IntN(2) == 0
	f := boo.NewFeats(xgb)
	nf := 1 + R.IntN(6)
	G := 2 + R.IntN(8)
	per := 5 + R.IntN(40)
	want := map[int]float64{}
	var fs []func() string
	for g := 0; g < G; g++ {
		type add struct {
			f int
			v float64
		}
		var l []add
		for k := 0; k < per; k++ {
			a := add{R.IntN(nf), float64(1 + R.IntN(9))}
			if !xgb {
				a.v = -a.v
			}
			l = append(l, a)
			want[a.f] += a.v
		}
		merge := R.IntN(3) == 0
		fs = append(fs, func() string {
			if merge {
				m := boo.NewFeats(xgb)
				for _, a := range l {
					m.Add(a.f, a.v)
				}
				f.Merge(m)
				return ""
			}
			for _, a := range l {
				f.Add(a.f, a.v)
			}
			return ""
		})
	}
	together(c, fs)
	got := map[int]float64{}
	for _, l := range featLines(f.String()) {
		_, dup := got[l.f]
		c.Check(!dup, "feature %d twice after concurrent additions", l.f)
		got[l.f] = l.s
	}
	c.Check(reflect.DeepEqual(got, want), "concurrent additions: %v, sums are %v", got, want)
	c.Count("feature_additions", G*per)
	c.Sig("%d %d %v", G, per, want)
}

func c19search(c *Case) {
	R := c.R
	D := genBunch(R, 6+R.IntN(10), 2, 2)
	g := genSpace(c)
	g.NSteps = min(g.NSteps, 2)
	g.MaxDepth[1], g.MinChildWeight[1] = g.MaxDepth[0], g.MinChildWeight[0]
	gg, pts := genGrid(c)
	for len(pts) > 24 {
		gg, pts = genGrid(c)
	}
	gg.NCPUs = pick(R, 1, 2, 4, 8)
	before := cloneBunch(D)
	o := startOpts(c, g)
	kind := R.IntN(5)
	one := func() string {
		var err error
		switch kind {
		case 0:
			_, _, _, err = cv.Grid(D, 2, gg)
		case 1:
			_, _, _, err = cv.GradientGrid(D, 2, g)
		case 2:
			_, _, _, err = cv.HybridGradientGrid(D, 2, g)
		case 3:
			out := make(chan *boo.Options, 1)
			cv.GradStep(o, g, D, g.Step, g.DeltaFraction, 2, g.Central, out)
		case 4:
			out := make(chan *boo.Options, 1)
			cv.ParamaterGradStep(D, o, g, params[len(D.Data)%len(params)], g.Step, g.DeltaFraction, 50, 2, g.Central, out)
		}
		if err != nil {
			return err.Error()
		}
		return ""
	}
	if kind == 2 {
		g.Rounds[2], g.Lambda[2] = 10, 3
	}
	G := 1 + R.IntN(3)
	var fs []func() string
	for i := 0; i < G; i++ {
		fs = append(fs, one)
	}
	oc, gc, ggc := *o, *g, *gg
	together(c, fs)
	c.Check(sameBunch(D, before), "a search changed the dataset")
	c.Check(*o == oc && *g == gc && *gg == ggc, "a search changed its options")
	c.Count(fmt.Sprintf("searches_kind%d", kind), G)
	c.Sig("%d %d %+v", kind, G, *g)
	c.Sample(map[string]any{"search": kind, "concurrent": G, "points": len(pts)})
}

func cloneBunch(D *utils.DataBunch) *utils.DataBunch {
	return &utils.DataBunch{Data: cloneX(D.Data), Labels: slices.Clone(D.Labels), Keys: slices.Clone(D.Keys)}
}

func sameBunch(a, b *utils.DataBunch) bool { return sameTable(a, b) && slices.Equal(a.Keys, b.Keys) }

// ---- C20: inputs are never modified ----

// guarded data: every slice is the first part of a longer one, whose rest must not be written either
type guard struct {
	fl  []guardF
	in  []guardI
	st  []guardS
	val []func() string
}
type guardF struct {
	n      string
	a, cpy []float64
}
type guardI struct {
	n      string
	a, cpy []int
}
type guardS struct {
	n      string
	a, cpy []string
}

func (g *guard) F(n string, v []float64) []float64 {
	a := append(slices.Clone(v), 111.5, -222.5, 333)
	g.fl = append(g.fl, guardF{n, a, slices.Clone(a)})
	return a[:len(v)]
}
func (g *guard) I(n string, v []int) []int {
	a := append(slices.Clone(v), 1111, -2222, 3333)
	g.in = append(g.in, guardI{n, a, slices.Clone(a)})
	return a[:len(v)]
}
func (g *guard) S(n string, v []string) []string {
	a := append(slices.Clone(v), "guard1", "guard2")
	g.st = append(g.st, guardS{n, a, slices.Clone(a)})
	return a[:len(v)]
}
func (g *guard) X(n string, X [][]float64) [][]float64 {
	r := make([][]float64, len(X), len(X)+2)
	for i := range X {
		r[i] = g.F(fmt.Sprintf("%s[%d]", n, i), X[i])
	}
	hdr := slices.Clone(r)
	g.val = append(g.val, func() string {
		for i := range r {
			if len(r[i]) != len(hdr[i]) || len(r[i]) > 0 && &r[i][0] != &hdr[i][0] {
				return fmt.Sprintf("%s: row %d was replaced", n, i)
			}
		}
		if x := r[:cap(r)]; x[len(r)] != nil {
			return n + ": a row was written behind the last one"
		}
		return ""
	})
	return r
}
func (g *guard) bunch(D *utils.DataBunch) *utils.DataBunch {
	r := &utils.DataBunch{Data: g.X("data", D.Data), Labels: g.I("labels", D.Labels), Keys: g.S("keys", D.Keys)}
	if len(D.FloatLabels) > 0 {
		r.FloatLabels = g.F("float labels", D.FloatLabels)
	}
	c := *r
	g.val = append(g.val, func() string {
		if len(r.Data) != len(c.Data) || len(r.Labels) != len(c.Labels) || len(r.Keys) != len(c.Keys) || len(r.FloatLabels) != len(c.FloatLabels) ||
			&r.Data[0] != &c.Data[0] || &r.Labels[0] != &c.Labels[0] || &r.Keys[0] != &c.Keys[0] {
			return "a part of the dataset was replaced"
		}
		return ""
	})
	return r
}

func (g *guard) judge(c *Case, what string) {
	for _, v := range g.fl {
		for i := range v.a {
			if math.Float64bits(v.a[i]) != math.Float64bits(v.cpy[i]) {
				c.Check(false, "%s changed %s[%d] from %v to %v (length %d)", what, v.n, i, v.cpy[i], v.a[i], len(v.a)-3)
			}
		}
	}
	for _, v := range g.in {
		c.Check(slices.Equal(v.a, v.cpy), "%s changed %s from %v to %v (the last 3 lie behind it)", what, v.n, v.cpy, v.a)
	}
	for _, v := range g.st {
		c.Check(slices.Equal(v.a, v.cpy), "%s changed %s from %v to %v (the last 2 lie behind it)", what, v.n, v.cpy, v.a)
	}
	for _, f := range g.val {
		m := f()
		c.Check(m == "", "%s: %s", what, m)
	}
	c.Count("snapshots_compared", 1)
	c.Count("call "+strings.Fields(what)[0], 1)
}

func c20tree(c *Case) {
	R := c.R
	n, d := 1+R.IntN(25), 1+R.IntN(5)
	X := genX(R, n, d, -1)
	g := &guard{}
	o := boo.DefaultGTreeOptions()
	if R.IntN(2) == 0 {
		o = boo.DefaultXTreeOptions()
	}
	o.MaxDepth, o.MinChildWeight = R.IntN(6), pick(R, 0, 1, 2, 3.5)
	G, H := make([]float64, n), make([]float64, n)
	for i := range G {
		G[i], H[i] = R.NormFloat64(), 0.1+R.Float64()
	}
	o.Gradients, o.Hessian, o.Y = g.F("gradients", G), g.F("hessian", H), g.F("target", G)
	idx := R.Perm(n)[:1+R.IntN(n)]
	if R.IntN(3) > 0 {
		o.Indexes = g.I("row indexes", idx)
	}
	if R.IntN(2) == 0 {
		o.AllowedColumns = g.I("columns", R.Perm(d)[:1+R.IntN(d)])
	}
	o.Gamma = 0
	gx := g.X("X", X)
	oc := *o
	t := boo.NewTree(gx, o)
	g.judge(c, "NewTree")
	c.Check(o.MaxDepth == oc.MaxDepth && o.MinChildWeight == oc.MinChildWeight && o.Lambda == oc.Lambda && o.Gamma == oc.Gamma && o.XGB == oc.XGB && o.Debug == oc.Debug && o.ColSampleByNode == oc.ColSampleByNode &&
		len(o.Indexes) == len(oc.Indexes) && len(o.AllowedColumns) == len(oc.AllowedColumns), "NewTree changed its options")
	if len(oc.Indexes) == 0 { // the same options serve for other data, with more or fewer rows
		n2 := 1 + R.IntN(2*n)
		X2 := genX(R, n2, d, -1)
		G2, H2 := make([]float64, n2), make([]float64, n2)
		for i := range G2 {
			G2[i], H2[i] = R.NormFloat64(), 0.1+R.Float64()
		}
		fresh := boo.DefaultGTreeOptions()
		fresh.XGB, fresh.MaxDepth, fresh.MinChildWeight, fresh.Lambda, fresh.Gamma, fresh.ColSampleByNode = oc.XGB, oc.MaxDepth, oc.MinChildWeight, oc.Lambda, oc.Gamma, oc.ColSampleByNode
		fresh.AllowedColumns = slices.Clone(oc.AllowedColumns)
		fresh.Gradients, fresh.Hessian, fresh.Y = G2, H2, G2
		again := o
		ag, ah, ay := o.Gradients, o.Hessian, o.Y
		again.Gradients, again.Hessian, again.Y = slices.Clone(G2), slices.Clone(H2), slices.Clone(G2)
		c.Check(reflect.DeepEqual(fromJTree(boo.NewTree(X2, fresh)), fromJTree(boo.NewTree(X2, again))), "tree options used before for %d rows give another tree for %d rows than fresh ones", n, n2)
		o.Gradients, o.Hessian, o.Y = ag, ah, ay
		c.Count("options_reused", 1)
		g.judge(c, "NewTree")
	}
	ref := fromJTree(t)
	pr := t.Predict(gx, nil)
	g.judge(c, "Tree.Predict")
	t.PredictSingle(gx[R.IntN(n)])
	t.Print("")
	t.Branches()
	t.FeatureImportance(o.XGB)
	t.FeatureImportance(o.XGB)
	g.judge(c, "Tree.FeatureImportance")
	c.Check(reflect.DeepEqual(ref, fromJTree(t)) && eqF(pr, t.Predict(gx, nil)), "using a tree changed it")
	c.Sig("n%d d%d idx%v br%d", n, d, o.Indexes, t.Branches())
}

func c20model(c *Case) {
	R := c.R
	g := &guard{}
	n, d := 2+R.IntN(30), 1+R.IntN(4)
	X := genX(R, n, d, -1)
	D := g.bunch(mkBunch(X, genLabels(R, X, 1+R.IntN(4))))
	o := genOptions(R, R.IntN(2) == 0, false)
	o.Verbose = R.IntN(4) == 0
	if R.IntN(4) == 0 {
		o.MinChildWeight = pick(R, 0, 0.3, -2)
	}
	oc := *o
	M := boo.NewMultiClass(D, o)
	g.judge(c, "NewMultiClass")
	c.Check(*o == oc, "training changed the options from %+v to %+v", oc, *o)
	j := mustModel(c, M)
	g.judge(c, "JSONMultiClass")
	for _, x := range probes(R, D, j, 6) {
		gp := &guard{}
		if R.IntN(3) == 0 { // whatever is in there
			x[R.IntN(len(x))] = pick(R, math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1))
		}
		p := gp.F("instance", x)
		M.PredictSingle(p)
		M.PredictSingleClass(p)
		if K := len(j.ClassLabels); R.IntN(2) == 0 { // too short a slice for the probabilities
			short := gp.F("short destination", genVals(R, R.IntN(K), 3))
			M.PredictSingle(p, short)
			M.PredictSingleClass(p, short)
		}
		gp.judge(c, "PredictSingle")
	}
	M.Accuracy(D)
	M.Accuracy(D, len(j.ClassLabels))
	g.judge(c, "Accuracy")
	cf := confu.MCConfusions(M, D)
	m1 := fmt.Sprint(cf.Matrix())
	cf.TopNPerLabel(2)
	cf.TopNForLabelM(3, D.Labels[0])
	cf.PrintTopN(2, confu.MakeSimpleNameMap(D.Labels))
	g.judge(c, "MCConfusions")
	c.Check(fmt.Sprint(cf.Matrix()) == m1, "listing the top predictions changed the confusion matrix")
	ls := M.ClassLabels()
	for i := range ls {
		ls[i] = -77
	}
	M.FeatureImportance()
	g.judge(c, "FeatureImportance")
	c.Check(mustModel(c, M).text == j.text, "using a model changed it")
	D.OHELabels()
	D.OHEKeys()
	D.LibSVM()
	D.CSV()
	_ = D.String()
	g.judge(c, "writing")
	if n >= 4 {
		nf, next, err := utils.CrossValidationSamples(D, 2, R.IntN(2) == 0)
		c.Check(err == nil, "%v", err)
		for i := 0; i < nf; i++ {
			a, b := next()
			MM := boo.NewMultiClass(a, o)
			MM.Accuracy(b)
		}
		g.judge(c, "CrossValidationSamples")
	}
	nt := 0
	j.trees(func(_, _ int, t *Node) { nt += t.count() })
	c.Sig("%s n%d nodes%d", describeOpts(o), n, nt)
	c.Sample(map[string]any{"options": describeOpts(o), "rows": n, "guarded_slices": len(g.fl) + len(g.in) + len(g.st)})
}

func c20search(c *Case) {
	R := c.R
	g := &guard{}
	D := g.bunch(genBunch(R, 8+R.IntN(10), 2+R.IntN(2), 2+R.IntN(2)))
	s := genSpace(c)
	s.NSteps = min(s.NSteps, 3)
	s.MaxDepth[1], s.MinChildWeight[1] = s.MaxDepth[0], s.MinChildWeight[0]
	o := startOpts(c, s)
	oc, sc := *o, *s
	what := ""
	switch R.IntN(6) {
	case 0:
		what = "cross-validation"
		cv.MultiClassCrossValidation(D, pick(R, 2, 3), &cv.Options{O: o})
	case 1:
		what = "concurrent-cross-validation"
		runConc(c, D, 2, &cv.Options{O: o})
	case 2:
		what = "Grid"
		gg, pts := genGrid(c)
		for len(pts) > 40 {
			gg, pts = genGrid(c)
		}
		ggc := *gg
		cv.Grid(D, 2, gg)
		c.Check(*gg == ggc, "Grid changed its options")
	case 3:
		what = "GradientGrid"
		cv.GradientGrid(D, 2, s)
	case 4:
		what = "HybridGradientGrid"
		s.Rounds[2], s.Lambda[2] = 10, 3
		sc = *s
		cv.HybridGradientGrid(D, 2, s)
	case 5:
		if R.IntN(2) == 0 {
			what = "GradStep"
			recvOne(c, what, func(out chan *boo.Options) {
				cv.GradStep(o, s, D, s.Step, s.DeltaFraction, 2, s.Central, out)
			})
		} else {
			what = "ParamaterGradStep"
			recvOne(c, what, func(out chan *boo.Options) {
				cv.ParamaterGradStep(D, o, s, pick(R, params...), s.Step, s.DeltaFraction, 50, 2, s.Central, out)
			})
		}
	}
	g.judge(c, what)
	c.Check(*o == oc, "%s changed the options from %+v to %+v", what, oc, *o)
	c.Check(*s == sc, "%s changed the search options", what)
	c.Sig("%s %s", what, o.String())
}

// ---- C21: accuracy and confusions ----

func c21case(c *Case) {
	R := c.R
	D, _, M, j := genModel(c, false)
	if R.IntN(4) == 0 {
		var err error
		M, err = reload(j.text)
		c.Check(err == nil, "%v", err)
	}
	K := len(j.ClassLabels)
	// labelled data: the training set, or other vectors with right, wrong and unknown labels
	T := D
	if R.IntN(3) > 0 {
		T = &utils.DataBunch{Keys: D.Keys}
		for _, x := range probes(R, D, j, 1+R.IntN(40)) {
			T.Data = append(T.Data, x)
			l := j.ClassLabels[R.IntN(K)]
			switch R.IntN(6) {
			case 0:
				l = R.IntN(2000) + 100000
			case 1, 2:
				l = j.ClassLabels[M.PredictSingleClass(x)]
			}
			T.Labels = append(T.Labels, l)
		}
	}
	c21judge(c, M, j, T)
	// the same dataset value with other contents
	if R.IntN(2) == 0 {
		if T == D {
			T = cloneBunch(D)
			c21judge(c, M, j, T)
		}
		ps := probes(R, D, j, len(T.Data))
		for i := range T.Data {
			switch R.IntN(3) {
			case 0:
				copy(T.Data[i], ps[i])
			case 1:
				T.Labels[i] = j.ClassLabels[R.IntN(K)]
			}
		}
		c21judge(c, M, j, T)
		if n := len(T.Data) / 2; n > 0 {
			T.Data, T.Labels = T.Data[:n], T.Labels[:n]
			c21judge(c, M, j, T)
		}
		c.Count("changed_in_place", 1)
	}
}

func c21judge(c *Case, M *boo.MultiClass, j *JModel, T *utils.DataBunch) {
	R := c.R
	K := len(j.ClassLabels)
	want := make([][]int, K)
	for i := range want {
		want[i] = make([]int, K)
	}
	pos := map[int]int{}
	for i, l := range j.ClassLabels {
		pos[l] = i
	}
	right, unknown := 0, 0
	for i, x := range T.Data {
		s, tol := j.scores(x)
		k := 0
		for q := range s {
			if s[q] > s[k] {
				k = q
			}
		}
		for q := range s {
			if q != k && (s[k]-s[q] < 4*tol || s[k]-s[q] < 1e-12) { // too close to call (or tied): take the model's word
				k = M.PredictSingleClass(x)
				break
			}
		}
		if j.ClassLabels[k] == T.Labels[i] {
			right++
		}
		if l, ok := pos[T.Labels[i]]; ok {
			want[l][k]++
		} else {
			unknown++
		}
	}
	acc := 100 * float64(right) / float64(len(T.Data))
	for _, cl := range [][]int{nil, {K}, {K + 3}, {0}, {1}, {-2}} {
		a := M.Accuracy(T, cl...)
		c.Check(close2(a, acc, 1e-9), "accuracy %v (class argument %v), %d of %d samples are right: %v", a, cl, right, len(T.Data), acc)
	}
	cf := confu.MCConfusions(M, T)
	c.Check(slices.Equal(cf.Labels, j.ClassLabels), "confusions have labels %v, the model %v", cf.Labels, j.ClassLabels)
	c.Check(slices.Equal(cf.Actual, T.Labels), "confusions have other actual labels")
	c.Check(len(cf.Predicted) == len(T.Data), "%d predictions for %d samples", len(cf.Predicted), len(T.Data))
	top := func() {
		N := R.IntN(K + 3)
		if R.IntN(4) == 0 { // many more than there are classes
			N = 2*K + R.IntN(2*K+6)
		}
		li := R.IntN(K)
		judgeTop := func(ix, v []int, li int, what string) {
			c.Check(len(ix) == min(N, K) && len(v) == len(ix), "%s: %d entries for N %d of %d classes", what, len(ix), N, K)
			sorted := slices.Clone(want[li])
			sort.Sort(sort.Reverse(sort.IntSlice(sorted)))
			seen := map[int]bool{}
			for q := range ix {
				c.Check(ix[q] >= 0 && ix[q] < K && !seen[ix[q]], "%s: classes %v", what, ix)
				seen[ix[q]] = true
				c.Check(v[q] == want[li][ix[q]], "%s: class %d listed with %d, it was predicted %d times for label %d", what, ix[q], v[q], want[li][ix[q]], j.ClassLabels[li])
				c.Check(v[q] == sorted[q], "%s: counts %v, the largest are %v", what, v, sorted)
			}
			c.Count("top_lists", 1)
		}
		switch R.IntN(4) {
		case 0:
			var cp []bool
			if R.IntN(2) == 0 {
				cp = []bool{R.IntN(2) == 0}
			}
			ix, v := cf.TopNForLabelM(N, j.ClassLabels[li], cp...)
			judgeTop(ix, v, li, "TopNForLabelM")
			if len(cp) > 0 && cp[0] {
				c.HoldI("TopNForLabelM", ix)
				c.HoldI("TopNForLabelM", v)
			}
		case 1:
			a, b := cf.TopNPerLabel(N)
			c.Check(len(a) == K && len(b) == K, "TopNPerLabel lists %d labels of %d", len(a), K)
			for l := range a {
				judgeTop(a[l], b[l], l, "TopNPerLabel")
				c.HoldI("TopNPerLabel", a[l])
				c.HoldI("TopNPerLabel", b[l])
			}
		case 2:
			a, b := cf.TopNForLabelM(N, 99999999)
			c.Check(a == nil && b == nil, "unknown label: %v %v", a, b)
		case 3:
			names := map[int]string{}
			for i, l := range j.ClassLabels {
				names[l] = fmt.Sprintf("name%d", i)
			}
			if R.IntN(5) == 0 { // a label without a name keeps its numbers
				lines := strings.Split(cf.PrintTopN(N, names), "\n")
				miss := R.IntN(len(names))
				delete(names, j.ClassLabels[miss])
				part := strings.Split(cf.PrintTopN(N, names), "\n")
				c.Check(len(part) == len(lines), "PrintTopN prints %d lines with all names, %d without one", len(lines), len(part))
				re := regexp.MustCompile(`:\d+( |$)`)
				for i := range lines {
					a, b := re.FindAllString(lines[i], -1), re.FindAllString(part[i], -1)
					c.Check(slices.Equal(a, b), "PrintTopN prints %q with all names, %q without one", lines[i], part[i])
				}
				c.Count("unnamed_labels", 1)
				break
			}
			judgePrintTop(c, cf.PrintTopN(N, names), N, want)
		}
	}
	for i := R.IntN(3); i > 0; i-- {
		top()
	}
	var held [][][]int // matrices handed out earlier
	for rep := 0; rep < 2; rep++ {
		m := cf.Matrix()
		held = append(held, m)
		for i, m := range held {
			c.Check(reflect.DeepEqual(m, want), "confusion matrix %v (call %d of %d), counted %v (labels %v)", m, i+1, len(held), want, j.ClassLabels)
		}
		for i := R.IntN(4); i > 0; i-- {
			top()
		}
	}
	for i, m := range held {
		c.Check(reflect.DeepEqual(m, want), "confusion matrix %v (call %d of %d, looked at again in the end), counted %v (labels %v)", m, i+1, len(held), want, j.ClassLabels)
	}
	if unknown > 0 {
		c.Count("with_unknown_labels", 1)
	}
	c.Count("matrices", 1)
	c.Sig("%v", want)
	c.Sample(map[string]any{"accuracy": acc, "matrix": want, "unknown_labels": unknown})
}

func judgePrintTop(c *Case, s string, N int, want [][]int) {
	got := map[string]map[string]int{}
	var order []string
	for i, l := range strings.Split(s, "\n") {
		f := strings.Fields(l)
		if i == 0 || len(f) == 0 {
			continue
		}
		c.Check(len(f) >= 2 && f[0] == "Label", "PrintTopN line %q", l)
		_, dup := got[f[1]]
		c.Check(!dup, "PrintTopN lists %s twice", f[1])
		m := map[string]int{}
		last := math.MaxInt
		for _, e := range f[2:] {
			q := strings.LastIndex(e, ":")
			c.Check(q > 0, "PrintTopN entry %q", e)
			v, err := strconv.Atoi(e[q+1:])
			c.Check(err == nil && v <= last, "PrintTopN line %q", l)
			last = v
			m[e[:q]] = v
		}
		got[f[1]] = m
		order = append(order, f[1])
	}
	n := 0
	for i, row := range want {
		name := fmt.Sprintf("name%d", i)
		sorted := slices.Clone(row)
		sort.Sort(sort.Reverse(sort.IntSlice(sorted)))
		sorted = sorted[:min(N, len(sorted))]
		nz := 0
		for _, v := range sorted {
			if v > 0 {
				nz++
			}
		}
		m, ok := got[name]
		c.Check(ok == (nz > 0), "PrintTopN(%d): label %d with counts %v listed: %v\n%s", N, i, row, ok, s)
		if !ok {
			continue
		}
		c.Check(order[n] == name, "PrintTopN: order %v", order)
		n++
		c.Check(len(m) == nz, "PrintTopN(%d): %d entries for the counts %v", N, len(m), row)
		vals := []int{}
		for k, v := range m {
			q := -1
			fmt.Sscanf(k, "name%d", &q)
			c.Check(q >= 0 && q < len(row) && row[q] == v, "PrintTopN: label %d predicted as %s %d times, counts %v", i, k, v, row)
			vals = append(vals, v)
		}
		sort.Sort(sort.Reverse(sort.IntSlice(vals)))
		c.Check(slices.Equal(vals, sorted[:nz]), "PrintTopN(%d): %v, counts %v", N, vals, row)
	}
	c.Check(n == len(got), "PrintTopN lists unknown labels: %v", order)
	c.Count("printed_summaries", 1)
}

// ---- C22: feature importance ----

type featLine struct {
	rank, f int
	s       float64
}

var featRe = regexp.MustCompile(`^\s*(\d+)\s+Feature\s+(-?\d+) with score:\s*(\S+)\s*$`)

func featLines(s string) []featLine {
	var r []featLine
	for _, l := range strings.Split(s, "\n") {
		if m := featRe.FindStringSubmatch(l); m != nil {
			a, _ := strconv.Atoi(m[1])
			b, _ := strconv.Atoi(m[2])
			v, err := strconv.ParseFloat(m[3], 64)
			if err != nil {
				v = math.NaN()
			}
			r = append(r, featLine{a, b, v})
		}
	}
	return r
}

// judgeFeats compares a printed ranking with the sums
func judgeFeats(c *Case, F *boo.Feats, want map[int]float64, xgb, ranked bool, what string) {
	l := featLines(F.String())
	c.Check(len(l) == len(want) && F.Len() == len(want), "%s: %d features listed (Len %d), %d were used: %v, %s", what, len(l), F.Len(), len(want), want, F.String())
	c.Check(F.XGB() == xgb && strings.Contains(F.String(), "xgboost") == xgb, "%s: kind of boosting", what)
	seen := map[int]bool{}
	for i, e := range l {
		w, ok := want[e.f]
		c.Check(ok && !seen[e.f], "%s: feature %d listed, used %v", what, e.f, want)
		seen[e.f] = true
		c.Check(e.rank == i+1, "%s: rank %d on line %d", what, e.rank, i+1)
		c.Check(close2(e.s, w, 5.0001e-4+1e-9*math.Abs(w)), "%s: feature %d with score %v, its splits add up to %v", what, e.f, e.s, w)
		if i > 0 && ranked {
			p := want[l[i-1].f]
			tol := 1e-9 * (math.Abs(p) + math.Abs(w))
			if xgb {
				c.Check(p >= w-tol, "%s: feature %d (%v) ranked before %d (%v)", what, l[i-1].f, p, e.f, w)
			} else {
				c.Check(p <= w+tol, "%s: feature %d (%v) ranked before %d (%v)", what, l[i-1].f, p, e.f, w)
			}
			c.Check(!F.Less(i, i-1) || close2(p, w, tol), "%s: Less disagrees with the ranking", what)
		}
	}
	c.Count("rankings", 1)
}

func gainsOf(t *Node, into map[int]float64) int {
	n := 0
	t.walk(func(x *Node, _ int) {
		if x.L != nil {
			into[x.SplitFeatureIndex] += x.BestScoreSoFar
			n++
		}
	}, 0)
	return n
}

func c22model(c *Case) {
	R := c.R
	n, d := 4+R.IntN(35), 1+R.IntN(7)
	if R.IntN(50) == 0 {
		n, d = 30+R.IntN(60), 8+R.IntN(30)
	}
	D := genBunch(R, n, d, 2+R.IntN(3))
	o := genOptions(R, R.IntN(2) == 0, false)
	if R.IntN(2) == 0 {
		o.MaxDepth = 3 + R.IntN(3)
		o.MinChildWeight, o.Gamma = 1, 0
	}
	M := boo.NewMultiClass(D, o)
	j := mustModel(c, M)
	want := map[int]float64{}
	ns := 0
	j.trees(func(_, _ int, t *Node) { ns += gainsOf(t, want) })
	if ns == 0 {
		return
	}
	if R.IntN(3) == 0 {
		var err error
		M, err = reload(j.text)
		c.Check(err == nil, "%v", err)
	}
	for rep := 0; rep < 1+R.IntN(2); rep++ {
		F, err := M.FeatureImportance()
		c.Check(err == nil && F != nil, "feature importance: %v", err)
		judgeFeats(c, F, want, o.XGB, true, describeOpts(o))
		if rep == 0 && R.IntN(2) == 0 { // swap two entries: still the same pairs
			if F.Len() > 1 {
				F.Swap(0, F.Len()-1)
				judgeFeats(c, F, want, o.XGB, false, "after Swap")
				sort.Sort(F)
				judgeFeats(c, F, want, o.XGB, true, "after sorting")
			}
		}
		if R.IntN(2) == 0 { // what is done to a returned set must not show in the next one
			F.Add(R.IntN(d+3), pick(R, 1e6, -1e6))
			G := boo.NewFeats(o.XGB)
			G.Add(d+7, pick(R, 1e5, -1e5))
			F.Merge(G)
			sort.Sort(F)
			F2, err := M.FeatureImportance()
			c.Check(err == nil && F2 != nil, "feature importance: %v", err)
			judgeFeats(c, F2, want, o.XGB, true, "asked again after changing the set returned")
			c.Count("asked_again", 1)
		}
	}
	c.Count("splits_summed", ns)
	if len(want) > 12 {
		c.Count("many_features", 1)
	}
	if len(want) > 1 {
		c.Count("models_with_several_features", 1)
	}
	c.Sig("%s %v", describeOpts(o), want)
	c.Sample(map[string]any{"options": describeOpts(o), "splits": ns, "sums": fmt.Sprint(want)})
}

func c22tree(c *Case) {
	R := c.R
	xgb := R.IntN(2) == 0
	n, d, wide := 3+R.IntN(30), 1+R.IntN(6), false
	if wide = R.IntN(50) == 0; wide {
		n, d = 40+R.IntN(60), 8+R.IntN(30)
	}
	X := genX(R, n, d, -1)
	o := boo.DefaultGTreeOptions()
	if xgb {
		o = boo.DefaultXTreeOptions()
	}
	o.Gamma, o.MaxDepth = 0, 1+R.IntN(6)
	if wide {
		o.MaxDepth = 8
	}
	o.Gradients, o.Hessian, o.Y = make([]float64, n), make([]float64, n), make([]float64, n)
	sc := pick(R, 1.0, 100, 1e4) // large scores: the printed decimals resolve more
	for i := range o.Y {
		o.Gradients[i], o.Hessian[i] = R.NormFloat64()*sc, 1
		o.Y[i] = o.Gradients[i]
	}
	t := boo.NewTree(X, o)
	root := fromJTree(t)
	want := map[int]float64{}
	if gainsOf(root, want) == 0 {
		return
	}
	F, err := t.FeatureImportance(xgb)
	c.Check(err == nil && F != nil, "feature importance of a tree: %v", err)
	judgeFeats(c, F, want, xgb, true, "tree")
	// the same tree added to a set again, and the sets merged
	if _, err := t.FeatureImportance(xgb, F); err == nil {
		for k := range want {
			want[k] *= 2
		}
		judgeFeats(c, F, want, xgb, true, "tree added twice")
	}
	c.Count("tree_rankings", 1)
	c.Sig("%v", want)
}

func c22ops(c *Case) {
	R := c.R
	one, mixed := R.IntN(2) == 0, R.IntN(4) == 0
	k := 1 + R.IntN(4)
	sets := make([]*boo.Feats, k)
	want := make([]map[int]float64, k)
	kind := make([]bool, k)
	for i := range sets {
		kind[i] = one
		if mixed { // sets of both kinds of boosting: scores still add up
			kind[i] = R.IntN(2) == 0
		}
		sets[i] = boo.NewFeats(kind[i])
		want[i] = map[int]float64{}
	}
	nf := 1 + R.IntN(8)
	ops := 1 + R.IntN(60)
	if R.IntN(30) == 0 {
		nf, ops = 600, 500+R.IntN(800)
		c.Count("large_sets", 1)
	}
	for q := 0; q < ops; q++ {
		i := R.IntN(k)
		switch R.IntN(8) {
		case 0:
			m := R.IntN(k)
			if m == i {
				continue
			}
			src := sets[m].String()
			sets[i].Merge(sets[m])
			c.Check(sets[m].String() == src, "merging changed the set merged")
			for f, v := range want[m] {
				want[i][f] += v
			}
			c.Count("merges", 1)
			if kind[i] != kind[m] {
				c.Count("merges_of_two_kinds", 1)
			}
		case 1:
			sort.Sort(sets[i])
			judgeFeats(c, sets[i], want[i], kind[i], true, "sorted set")
		default:
			f, v := R.IntN(nf), math.Round(R.NormFloat64()*1000)/8
			if R.IntN(6) == 0 {
				f = R.IntN(100000)
			}
			if kind[i] {
				v = math.Abs(v)
			} else {
				v = -math.Abs(v)
			}
			sets[i].Add(f, v)
			want[i][f] += v
			c.Count("additions", 1)
		}
	}
	for i := range sets {
		judgeFeats(c, sets[i], want[i], kind[i], false, "set")
		sort.Sort(sets[i])
		judgeFeats(c, sets[i], want[i], kind[i], true, "set, sorted")
	}
	c.Sig("%v", want)
}

// ---- C23: options ----

// randomise sets every field of the struct to a random value
func randomise(R *rand.Rand, v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		setRandom(R, v.Field(i))
	}
}

var losses = []utils.LossFunc{&utils.SQErrLoss{}, &utils.MSELoss{}, &recLoss{}, &scriptLoss{}}

func setRandom(R *rand.Rand, f reflect.Value) {
	if !f.CanSet() {
		return
	}
	switch f.Kind() {
	case reflect.Bool:
		f.SetBool(R.IntN(2) == 0)
	case reflect.Int:
		f.SetInt(int64(R.IntN(100) - 10))
	case reflect.Float64:
		f.SetFloat(pick(R, R.NormFloat64(), R.Float64(), 0, 1, 1e300, 5e-324))
	case reflect.String:
		f.SetString(fmt.Sprintf("s%d", R.IntN(50)))
	case reflect.Interface:
		f.Set(reflect.ValueOf(losses[R.IntN(len(losses))]))
	case reflect.Array:
		for i := 0; i < f.Len(); i++ {
			setRandom(R, f.Index(i))
		}
	}
}

// leaves lists the settable scalars of a struct, with their names
func leafFields(v reflect.Value, prefix string) (n []string, l []reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if !f.CanSet() {
			continue
		}
		name := prefix + v.Type().Field(i).Name
		if f.Kind() == reflect.Array {
			for q := 0; q < f.Len(); q++ {
				n, l = append(n, fmt.Sprintf("%s[%d]", name, q)), append(l, f.Index(q))
			}
			continue
		}
		n, l = append(n, name), append(l, f)
	}
	return
}

// change gives the scalar another value, sometimes the closest one
func change(R *rand.Rand, f reflect.Value) {
	switch f.Kind() {
	case reflect.Bool:
		f.SetBool(!f.Bool())
	case reflect.Int:
		f.SetInt(f.Int() + pick(R, int64(1), -1, 1000))
	case reflect.Float64:
		v := f.Float()
		switch R.IntN(3) {
		case 0:
			f.SetFloat(math.Nextafter(v, math.Inf(1)))
		case 1:
			f.SetFloat(math.Nextafter(v, math.Inf(-1)))
		default:
			f.SetFloat(v + 1 + math.Abs(v))
		}
	case reflect.String:
		f.SetString(f.String() + "x")
	case reflect.Interface:
		for {
			l := losses[R.IntN(len(losses))]
			if f.IsNil() || reflect.TypeOf(l) != f.Elem().Type() {
				f.Set(reflect.ValueOf(l))
				return
			}
		}
	}
}

func c23options(c *Case) {
	R := c.R
	o := boo.DefaultXOptions()
	switch R.IntN(4) {
	case 0:
		o = boo.DefaultGOptions()
	case 1, 2:
		randomise(R, reflect.ValueOf(o).Elem())
	}
	names, _ := leafFields(reflect.ValueOf(o).Elem(), "")
	cl := o.Clone()
	c.Check(cl != o, "Clone returns the same pointer")
	c.Check(reflect.DeepEqual(o, cl), "the clone of %+v is %+v", *o, *cl)
	c.Check(o.Equal(o) && o.Equal(cl) && cl.Equal(o), "options differ from themselves or their clone: %+v", *o)
	for i, n := range names {
		d := o.Clone()
		_, l := leafFields(reflect.ValueOf(d).Elem(), "")
		change(R, l[i])
		c.Check(!o.Equal(d), "options with another %s are equal: %+v and %+v", n, *o, *d)
		c.Check(!d.Equal(o), "options with another %s are equal in the other direction: %+v and %+v", n, *o, *d)
		c.Check(reflect.DeepEqual(o, cl), "changing %s of a clone changed the original", n)
		c.Count("field_changes", 1)
	}
	c.Sig("%+v", *o)
	c.Sample(map[string]any{"fields": names})
}

func c23grid(c *Case) {
	R := c.R
	g := cv.DefaultXGridOptions()
	if R.IntN(3) > 0 {
		randomise(R, reflect.ValueOf(g).Elem())
	} else if R.IntN(2) == 0 {
		g = cv.DefaultGGridOptions()
	}
	orig := *g
	cl := g.Clone()
	c.Check(cl != g && reflect.DeepEqual(g, cl), "the clone of %+v is %+v", *g, *cl)
	names, l := leafFields(reflect.ValueOf(cl).Elem(), "")
	for i := range l {
		change(R, l[i])
		c.Check(reflect.DeepEqual(*g, orig), "changing %s of a clone changed the original", names[i])
		c.Count("grid_fields", 1)
	}
	c.Sig("%+v", *g)
}

func c23check(c *Case) {
	R := c.R
	nx := func(v float64, up bool) float64 {
		if up {
			return math.Nextafter(v, math.Inf(1))
		}
		return math.Nextafter(v, math.Inf(-1))
	}
	o := boo.DefaultXOptions()
	valid := R.IntN(3) == 0
	pickF := func(ok, bad []float64) float64 {
		if valid || R.IntN(8) > 0 {
			return ok[R.IntN(len(ok))]
		}
		return bad[R.IntN(len(bad))]
	}
	pickI := func(ok, bad []int) int {
		if valid || R.IntN(8) > 0 {
			return ok[R.IntN(len(ok))]
		}
		return bad[R.IntN(len(bad))]
	}
	tiny := 5e-324
	o.XGB = R.IntN(2) == 0
	o.Rounds = pickI([]int{1, 2, 1000, math.MaxInt}, []int{0, -1, -50, math.MinInt})
	o.LearningRate = pickF([]float64{tiny, 0.1, 1, 30, 1e300}, []float64{0, -tiny, -1, -1e300})
	o.SubSample = pickF([]float64{tiny, 0.5, nx(1, false), 1}, []float64{0, -tiny, nx(1, true), 2, -0.5})
	o.ColSubSample = pickF([]float64{tiny, 0.5, nx(1, false), 1}, []float64{0, -tiny, nx(1, true), 2, -0.5})
	o.Lambda = pickF([]float64{0, tiny, 1, 100, 1e300}, []float64{-tiny, -1, -1e300})
	o.Gamma = pickF([]float64{0, tiny, 1, 100, 1e300}, []float64{-tiny, -1, -1e300})
	o.MinChildWeight = pickF([]float64{1, nx(1, true), 5, 1e9}, []float64{nx(1, false), 0, -3})
	o.MaxDepth = pickI([]int{2, 3, 50, 100000}, []int{1, 0, -4})
	o.MinSample = pickI([]int{1, 2, 50, 1 << 40}, []int{0, -1})
	// settings that Check must not care about
	o.EarlyStop, o.BaseScore, o.Verbose, o.TreeMethod = pick(R, 0, 5), pick(R, -3, 0, 0.5), R.IntN(2) == 0, pick(R, "", "exact")
	ok := o.Rounds > 0 && o.LearningRate > 0 && o.SubSample > 0 && o.SubSample <= 1 && o.ColSubSample > 0 && o.ColSubSample <= 1 &&
		o.Lambda >= 0 && o.Gamma >= 0 && o.MinChildWeight >= 1 && o.MaxDepth >= 2 && o.MinSample >= 1
	before := *o
	err := o.Check()
	c.Check((err == nil) == ok, "Check says %v, expected acceptance %v: %+v", err, ok, *o)
	c.Check(*o == before, "Check changed the options")
	if ok {
		c.Count("accepted", 1)
	} else {
		c.Count("rejected", 1)
	}
	c.Sig("%+v", hyperOf(o))
}

func init() {
	register(&Prop{ID: "C19", Rule: "2-10 goroutines from a common starting line run random operation sequences on one model (fresh or reloaded), one dataset and one options value, one feature set, or one search, built with the race detector; every result is compared with the one obtained alone",
		Suites: []Suite{{"model", 150, 3000, true, c19model}, {"training", 150, 3000, true, c19train}, {"features", 200, 4000, true, c19feats}, {"searches", 100, 2000, true, c19search}},
		Floors: map[string]int64{"concurrent_sequences": 1500, "model_operations": 2000, "training_operations": 1000, "feature_additions": 5000, "searches_kind0": 10, "searches_kind1": 10, "searches_kind2": 10, "searches_kind3": 10, "searches_kind4": 10}})
	register(&Prop{ID: "C20", Rule: "deep snapshots (guard elements behind every slice included) of datasets, gradient/target vectors, index and column lists, options and search options, compared after every call of the public API",
		Suites: []Suite{{"tree", 1500, 40000, false, c20tree}, {"model", 1200, 30000, false, c20model}, {"search", 300, 6000, false, c20search}},
		Floors: map[string]int64{"snapshots_compared": 6000, "call Grid": 15, "call GradientGrid": 15, "call HybridGradientGrid": 15, "call NewTree": 1000, "call NewMultiClass": 800}})
	register(&Prop{ID: "C21", Rule: "random models and datasets with own, wrong and unknown labels; accuracies, confusion matrices, top lists and printed summaries compared with counts over the exported model's predictions, in random call orders",
		Suites: []Suite{{"counts", 3000, 80000, false, c21case}},
		Floors: map[string]int64{"matrices": 2500, "top_lists": 4000, "printed_summaries": 600, "with_unknown_labels": 500}})
	register(&Prop{ID: "C22", Rule: "rankings of random models and trees (fresh, reloaded, added twice) compared with the sums of the split scores exported as JSON; random Add/Merge/sort histories over several sets compared with exact sums",
		Suites: []Suite{{"models", 1500, 40000, false, c22model}, {"trees", 1500, 40000, false, c22tree}, {"histories", 1500, 40000, false, c22ops}},
		Floors: map[string]int64{"rankings": 4000, "tree_rankings": 700, "splits_summed": 5000, "models_with_several_features": 300, "merges": 2000, "additions": 10000}})
	register(&Prop{ID: "C23", Rule: "random options values; every exported field changed in turn (also to the adjacent float) by reflection; Check on values around every bound",
		Suites: []Suite{{"options", 2000, 50000, false, c23options}, {"grid", 1000, 20000, false, c23grid}, {"check", 8000, 200000, false, c23check}},
		Floors: map[string]int64{"field_changes": 20000, "grid_fields": 20000, "accepted": 2000, "rejected": 2000}})
}
