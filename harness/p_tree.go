package main

import (
	"math"

	"github.com/rmera/boo"
)

func seq(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

type treeCase struct {
	spec *treeSpec
	opts *boo.TreeOptions
	tree *boo.Tree
	root *Node
}

// genTree draws a dataset and options and fits one tree through the exported constructor
func genTree(c *Case, xgb bool, hostile bool) *treeCase {
	R := c.R
	n := 1 + R.IntN(30)
	if R.IntN(4) == 0 {
		n = 1 + R.IntN(6)
	}
	d := 1 + R.IntN(5)
	depth := R.IntN(7)
	switch {
	case R.IntN(80) == 0: // larger and deeper
		n, d, depth = 30+R.IntN(270), 1+R.IntN(14), R.IntN(14)
		c.Count("large_trees", 1)
	case R.IntN(100) == 0: // many columns
		n, d, depth = 2+R.IntN(14), 15+R.IntN(150), R.IntN(4)
		c.Count("wide_trees", 1)
	case R.IntN(1500) == 0: // very many columns
		n, d, depth = 2+R.IntN(20), 257+R.IntN(400), R.IntN(4)
		c.Count("very_wide_trees", 1)
	case R.IntN(2500) == 0:
		n, d, depth = 500+R.IntN(3500), 1+R.IntN(4), R.IntN(16)
		c.Count("very_large_trees", 1)
	}
	chain := R.IntN(120) == 0 // every split takes one row: as deep as there are rows
	if chain {
		n, d = 17+R.IntN(28), 1+R.IntN(2)
		depth = pick(R, n+3, n-1, n-2, n/2, 17, 20)
		c.Count("chains", 1)
	}
	mode := -1
	if hostile && R.IntN(2) == 0 {
		mode = pick(R, 2, 3, 4, 7)
	}
	X := genX(R, n, d, mode)
	s := &treeSpec{X: X, XGB: xgb, MaxDepth: depth, MCW: pick(R, 0, 0.5, 1, 1, 2, 2.7, 3, 5)}
	if n > 30 {
		s.MCW = pick(R, 1.0, 1, 3, 17, 40, 100)
	}
	o := boo.DefaultGTreeOptions()
	if xgb {
		o = boo.DefaultXTreeOptions()
	}
	if chain {
		s.MCW = pick(R, 0, 0.5, 1)
		dir := pick(R, 1.0, -1)
		for i := range X {
			X[i][0] = dir * (float64(i) + R.Float64()/2)
		}
	}
	s.Rows = seq(n)
	if !chain && R.IntN(3) == 0 {
		s.Rows = R.Perm(n)[:1+R.IntN(n)]
		o.Indexes = append([]int(nil), s.Rows...)
	} else if R.IntN(8) == 0 { // drawn with replacement
		s.Rows = make([]int, 1+R.IntN(n))
		for i := range s.Rows {
			s.Rows[i] = R.IntN(n)
		}
		o.Indexes = append([]int(nil), s.Rows...)
		c.Count("repeated_rows", 1)
	}
	if R.IntN(3) == 0 {
		a := R.Perm(d)[:1+R.IntN(d)]
		o.AllowedColumns = append([]int(nil), a...)
		s.Allowed = map[int]bool{}
		for _, v := range a {
			s.Allowed[v] = true
		}
	}
	o.MaxDepth, o.MinChildWeight = s.MaxDepth, s.MCW
	s.G, s.H, s.Y = make([]float64, n), make([]float64, n), make([]float64, n)
	style := R.IntN(6)
	for i := 0; i < n; i++ {
		switch style {
		case 0: // like squared-error gradients
			s.G[i], s.H[i] = R.Float64()-float64(R.IntN(2)), 1
		case 1: // logistic-like
			p := R.Float64()*0.98 + 0.01
			s.G[i], s.H[i] = p-float64(R.IntN(2)), p*(1-p)
		case 2:
			s.G[i], s.H[i] = R.NormFloat64()*10, 0.1+R.Float64()*2
		case 3: // exact small integers: many tied gains
			s.G[i], s.H[i] = float64(R.IntN(5)-2), 1
		case 4: // separable by the first feature
			s.G[i], s.H[i] = 1, 1
			if X[i][0] > X[0][0] {
				s.G[i] = -1
			}
		case 5: // saturated rows
			p := R.Float64()
			if R.IntN(2) == 0 {
				p = float64(R.IntN(2))
			}
			s.G[i], s.H[i] = p-float64(R.IntN(2)), p*(1-p)
		}
		if chain {
			s.G[i], s.H[i] = math.Pow(4, float64(i)), 1
		}
		s.Y[i] = -s.G[i]
	}
	scale := 1.0
	if !chain && R.IntN(4) == 0 { // the same at another scale
		scale = math.Ldexp(1, pick(R, -300, -60, -40, -20, -12, 12, 40, 300))
		for i := range s.G {
			s.G[i] *= scale
			s.Y[i] *= scale
		}
		c.Count("scaled_targets", 1)
	}
	if xgb {
		s.Lambda, s.Gamma = pick(R, 0, 0.1, 1, 1.5, 20), pick(R, 0, 0, 0, 0.05, 0.5, 2, -0.4)*scale*scale
		sat := R.IntN(12)
		if chain {
			sat = -1
		}
		switch sat {
		case 0: // nearly saturated everywhere
			hs := math.Ldexp(1, pick(R, -10, -35, -60, -100, -200, -300, 20, 100))
			for i := range s.H {
				s.H[i] *= hs
			}
			s.Lambda *= pick(R, 0, hs)
			s.Gamma /= hs
			c.Count("scaled_hessians", 1)
		case 1: // some rows nearly saturated
			for i := range s.H {
				if R.IntN(2) == 0 {
					s.H[i] *= math.Ldexp(1, -pick(R, 10, 35, 60))
				}
			}
			s.Lambda = pick(R, 0, 0, math.Ldexp(1, -40), 1)
			c.Count("mixed_hessians", 1)
		}
		o.Lambda, o.Gamma = s.Lambda, s.Gamma
		o.Gradients, o.Hessian = append([]float64(nil), s.G...), append([]float64(nil), s.H...)
	}
	o.Y = append([]float64(nil), s.Y...)
	t := &treeCase{spec: s, opts: o}
	t.tree = boo.NewTree(X, o)
	t.root = fromJTree(t.tree)
	c.Count("trees", 1)
	if !t.root.Leaf {
		c.Sig("n%d d%d nodes%d f%d t%v", n, d, t.root.count(), t.root.SplitFeatureIndex, t.root.Threshold)
	}
	if c.I < 3 {
		c.Sample(map[string]any{"X": floats2str(X), "rows": s.Rows, "MaxDepth": s.MaxDepth, "MinChildWeight": s.MCW, "xgb": xgb, "nodes": t.root.count(), "root_feature": t.root.SplitFeatureIndex, "root_threshold": t.root.Threshold})
	}
	return t
}

func floats2str(X [][]float64) any {
	if len(X) > 8 {
		X = X[:8]
	}
	return X
}

func c01case(xgb bool) func(*Case) {
	return func(c *Case) {
		t := genTree(c, xgb, true)
		s := t.spec
		s.judge(c, t.root, s.Rows, 0)
		c.Check(t.tree.Branches() == t.root.count(), "Branches() = %d, tree has %d nodes", t.tree.Branches(), t.root.count())
		c.Check(t.tree.Leaf() == t.root.Leaf, "Leaf()")
		// predictions on the training rows and on hostile vectors
		probe := cloneX(s.X)
		d := len(s.X[0])
		t.root.walk(func(n *Node, _ int) {
			if n.L == nil || len(probe) > 60 {
				return
			}
			for _, v := range []float64{n.Threshold, math.Nextafter(n.Threshold, math.Inf(1)), math.Nextafter(n.Threshold, math.Inf(-1))} {
				x := append([]float64(nil), s.X[c.R.IntN(len(s.X))]...)
				x[n.SplitFeatureIndex] = v
				probe = append(probe, x)
			}
		}, 0)
		for i := 0; i < 5; i++ {
			x := make([]float64, d)
			for j := range x {
				x[j] = c.R.NormFloat64() * math.Pow(10, float64(c.R.IntN(600)-300))
				if c.R.IntN(6) == 0 {
					x[j] = pick(c.R, math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.Copysign(0, -1))
				}
			}
			probe = append(probe, x)
		}
		var dst []float64
		if c.R.IntN(2) == 0 {
			dst = make([]float64, len(probe))
			for i := range dst {
				dst[i] = pick(c.R, math.NaN(), 7.5, -1e300)
			}
		}
		got := t.tree.Predict(probe, dst)
		if dst == nil {
			c.Hold("Tree.Predict", got)
			t.tree.Predict(probe[len(probe)/2:], nil)
		}
		c.Check(len(got) == len(probe), "%d predictions for %d rows", len(got), len(probe))
		if dst != nil {
			c.Check(&dst[0] == &got[0], "predictions not stored in the slice given")
		}
		for i, x := range probe {
			w := t.root.predict(x)
			c.Check(got[i] == w && t.tree.PredictSingle(x) == w, "prediction %g / %g, the thresholds lead to %g", got[i], t.tree.PredictSingle(x), w)
			c.Count("predictions", 1)
		}
	}
}

// trees inside ensembles obey the same limits; rows are all rows when there is no subsampling
func c01ensemble(c *Case) {
	R := c.R
	n, d, K := someSize(c, 2+R.IntN(30), 1+R.IntN(4), 1+R.IntN(4))
	X := genX(R, n, d, -1)
	D := mkBunch(X, genLabels(R, X, K))
	xgb := R.IntN(2) == 0
	o := genOptions(R, xgb, true)
	someRounds(c, o)
	M := boo.NewMultiClass(D, o)
	j := mustModel(c, M)
	s := &treeSpec{X: X, XGB: xgb, MaxDepth: o.MaxDepth, MCW: o.MinChildWeight}
	j.trees(func(r, k int, t *Node) {
		if t.Nsamples == 0 && t.Leaf {
			return
		}
		s.judge(c, t, seq(n), 0)
		c.Count("trees", 1)
		c.Sig("%d", t.count())
	})
}

func c02case(c *Case) {
	t := genTree(c, true, false)
	t.spec.Fit = true
	t.spec.judge(c, t.root, t.spec.Rows, 0)
}

func c03case(c *Case) {
	t := genTree(c, false, false)
	t.spec.Fit = true
	t.spec.judge(c, t.root, t.spec.Rows, 0)
}

// Newton leaves in regular ensembles, driven into saturation by large learning rates
func c03ensemble(c *Case) {
	R := c.R
	n, d, K := someSize(c, 4+R.IntN(25), 1+R.IntN(3), 2+R.IntN(3))
	D := genBunch(R, n, d, K)
	o := genOptions(R, false, true)
	long := R.IntN(3) == 0 && !c.huge
	o.Rounds = 1 + R.IntN(8)
	if c.huge {
		o.Rounds, o.MaxDepth = 1+R.IntN(2), 1+R.IntN(2)
	}
	if long {
		o.Rounds = 40 + R.IntN(40)
		o.LearningRate = pick(R, 1.0, 2.0, 5.0)
		o.MaxDepth = 1 + R.IntN(4)
	}
	rec := &recLoss{L: o.Loss}
	o.Loss = rec
	M := boo.NewMultiClass(D, o)
	j := mustModel(c, M)
	st := rec.steps()
	i := 0
	s := &treeSpec{X: D.Data, XGB: false, MaxDepth: o.MaxDepth, MCW: o.MinChildWeight, Newton: true, Fit: true}
	j.trees(func(r, k int, t *Node) {
		if t.Nsamples == 0 && t.Leaf {
			return
		}
		c.Check(i < len(st), "more trees than gradient evaluations")
		s.Y, s.H = st[i].G.Out, st[i].H.Out
		if long && R.IntN(4) > 0 && i < len(st)-3 {
			// in long runs judge the values of all trees but optimality of only some
			s.Fit = false
			routeLeaves(t, D.Data, seq(n), func(l *Node, rows []int) { s.judgeValue(c, l, rows) })
			s.Fit = true
		} else {
			s.judge(c, t, seq(n), 0)
		}
		c.Count("ensemble_trees", 1)
		i++
	})
	c.Check(i == len(st), "%d trees for %d gradient evaluations", i, len(st))
	c.Sig("%s n%d %d", describeOpts(o), n, i)
	if c.I < 3 {
		c.Sample(map[string]any{"options": describeOpts(o), "rows": n, "trees": i})
	}
}

func routeLeaves(t *Node, X [][]float64, rows []int, f func(*Node, []int)) {
	if t.L == nil {
		f(t, rows)
		return
	}
	var l, r []int
	for _, i := range rows {
		if X[i][t.SplitFeatureIndex] <= t.Threshold {
			l = append(l, i)
		} else {
			r = append(r, i)
		}
	}
	routeLeaves(t.L, X, l, f)
	routeLeaves(t.R, X, r, f)
}

func init() {
	register(&Prop{ID: "C01", Rule: "random feature matrices (smooth, tied, adjacent floats, near-MaxFloat, denormal, constant, wide exponents), row subsets, allowed columns, MaxDepth 0-6, MinChildWeight 0-5; a case is non-trivial when the tree has a split; distinct by shape, node count and root split",
		Suites: []Suite{{"xgb", 6000, 150000, false, c01case(true)}, {"regular", 6000, 150000, false, c01case(false)}, {"ensemble", 600, 12000, false, c01ensemble}},
		Floors: map[string]int64{"nodes": 20000, "splits": 10000, "predictions": 50000}})
	register(&Prop{ID: "C02", Rule: "random data with random gradients/hessians (squared-error-like, logistic-like, integer with tied gains), Lambda, Gamma, MinChildWeight, row subsets, allowed columns; every node of every tree compared with exhaustive enumeration of its admissible splits",
		Suites: []Suite{{"xgb", 8000, 200000, false, c02case}},
		Floors: map[string]int64{"splits": 8000, "leaves": 10000, "candidate_splits": 50000}})
	register(&Prop{ID: "C03", Rule: "as C02 for regular trees with random targets; plus whole regular ensembles whose loss calls are recorded, a third of them long runs at learning rate >= 1 that saturate the hessian",
		Suites: []Suite{{"regular", 6000, 150000, false, c03case}, {"newton", 400, 8000, false, c03ensemble}},
		Floors: map[string]int64{"splits": 8000, "newton_leaves": 2000, "saturated_leaves": 20}})
}
