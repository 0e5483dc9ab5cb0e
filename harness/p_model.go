package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"strings"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
	"gonum.org/v1/gonum/mat"
)

// probes returns vectors that exercise a model: training rows, thresholds and hostile values
func probes(R *rand.Rand, D *utils.DataBunch, j *JModel, n int) [][]float64 {
	var th []struct {
		f int
		v float64
	}
	j.trees(func(_, _ int, t *Node) {
		t.walk(func(x *Node, _ int) {
			if x.L != nil {
				th = append(th, struct {
					f int
					v float64
				}{x.SplitFeatureIndex, x.Threshold})
			}
		}, 0)
	})
	d := len(D.Data[0])
	out := make([][]float64, 0, n)
	for i := 0; i < n; i++ {
		x := append([]float64(nil), D.Data[R.IntN(len(D.Data))]...)
		switch R.IntN(4) {
		case 0:
			for f := range x {
				x[f] = R.NormFloat64() * math.Pow(10, float64(R.IntN(600)-300))
				if R.IntN(8) == 0 {
					x[f] = pick(R, math.MaxFloat64, -math.MaxFloat64, math.Copysign(0, -1), 5e-324)
				}
			}
		case 1, 2:
			for r := 0; r < 1+d/2 && len(th) > 0; r++ {
				t := th[R.IntN(len(th))]
				x[t.f] = pick(R, t.v, math.Nextafter(t.v, math.Inf(1)), math.Nextafter(t.v, math.Inf(-1)))
			}
		}
		out = append(out, x)
	}
	return out
}

func genModel(c *Case, det bool) (*utils.DataBunch, *boo.Options, *boo.MultiClass, *JModel) {
	R := c.R
	n, d, K := someSize(c, 2+R.IntN(35), 1+R.IntN(5), 1+R.IntN(5))
	D := genBunch(R, n, d, K)
	o := genOptions(R, R.IntN(2) == 0, det)
	someRounds(c, o)
	if R.IntN(12) == 0 {
		o.LearningRate = pick(R, 3.0, 20, 150)
	}
	M := boo.NewMultiClass(D, o)
	j := mustModel(c, M)
	c.Count("models", 1)
	nt := 0
	j.trees(func(_, _ int, t *Node) { nt += t.count() })
	c.Count("model_nodes", nt)
	if nt > 0 {
		c.Sig("%s n%d d%d K%d nodes%d", describeOpts(o), n, d, len(j.ClassLabels), nt)
	}
	if c.I < 2 {
		c.Sample(map[string]any{"options": describeOpts(o), "rows": n, "features": d, "classes": j.ClassLabels, "nodes": nt})
	}
	return D, o, M, j
}

// judgePrediction compares one prediction with the exported model
func judgePrediction(c *Case, M *boo.MultiClass, j *JModel, x []float64, what string) []float64 {
	K := len(j.ClassLabels)
	s, tol := j.scores(x)
	want := softmaxRef(s)
	raw := M.PredictSingle(x)
	c.Hold("PredictSingle", raw)
	p := append([]float64(nil), raw...)
	c.Check(len(p) == K, "%s: %d probabilities for %d classes", what, len(p), K)
	if tol < 1e-3 {
		for k := range p {
			c.Check(close2(p[k], want[k], want[k]*4*tol+1e-14*float64(K)), "%s: class %d predicted with %v, the exported trees give %v", what, k, p[k], want[k])
		}
	}
	arg := 0
	for k := range p {
		if p[k] > p[arg] {
			arg = k
		}
	}
	c.Check(M.PredictSingleClass(x) == arg, "%s: class %d predicted, first largest is %d of %v", what, M.PredictSingleClass(x), arg, p)
	// supplied storage, with garbage in it
	for _, l := range []int{K, K + 1 + c.R.IntN(4), 0} {
		if l == 0 && K > 1 {
			l = c.R.IntN(K)
		}
		buf := make([]float64, l)
		for i := range buf {
			buf[i] = pick(c.R, math.NaN(), 1e300, -7)
		}
		q := M.PredictSingle(x, buf)
		c.Check(len(q) >= K && eqF(q[:K], p), "%s: with a %d-long slice supplied, got %v instead of %v", what, l, q, p)
		if l >= K {
			c.Check(eqF(buf[:K], p), "%s: the supplied slice was not filled: %v, expected %v", what, buf, p)
		}
		for i := range buf {
			buf[i] = math.NaN()
		}
		c.Check(M.PredictSingleClass(x, buf) == arg, "%s: class with supplied slice differs", what)
	}
	c.Count("predictions", 1)
	return p
}

func c04case(c *Case) {
	D, _, M, j := genModel(c, false)
	M2, err := reload(j.text)
	c.Check(err == nil, "model cannot be reloaded: %v", err)
	for _, x := range probes(c.R, D, j, 12) {
		judgePrediction(c, M, j, x, "trained model")
		judgePrediction(c, M2, j, x, "reloaded model")
	}
	// one vector, reused with other contents
	v := make([]float64, len(D.Data[0]))
	for _, x := range probes(c.R, D, j, 5) {
		if c.R.IntN(2) == 0 {
			copy(v, x)
		} else {
			f := c.R.IntN(len(v))
			v[f] = x[f]
		}
		judgePrediction(c, M, j, v, "trained model, vector reused")
		judgePrediction(c, M2, j, v, "reloaded model, vector reused")
	}
}

// ---- C05 ----

func c05case(c *Case) {
	R := c.R
	n, d, K := someSize(c, 3+R.IntN(25), 1+R.IntN(4), 2+R.IntN(3))
	D := genBunch(R, n, d, K)
	xgb := R.IntN(2) == 0
	det := R.IntN(3) > 0
	o := genOptions(R, xgb, det)
	o.LearningRate = pick(R, 0.05, 0.3, 0.46, 0.8)
	if xgb && R.IntN(16) == 0 {
		o.LearningRate = pick(R, 2.5, 6, 20)
	}
	o.Lambda = pick(R, 0.5, 1, 1.5, 10)
	someRounds(c, o)
	if R.IntN(3) > 0 {
		o.EarlyStop = pick(R, 0, 1000)
	}
	rec := &recLoss{L: o.Loss, Fresh: R.IntN(3) == 0}
	o.Loss = rec
	M := boo.NewMultiClass(D, o)
	j := mustModel(c, M)
	names, cols := oneHotRef(D.Labels)
	K = len(names)
	st := rec.steps()
	F := make([][]float64, K)
	for k := range F {
		F[k] = make([]float64, n)
		for i := range F[k] {
			F[k][i] = o.BaseScore
		}
	}
	prob := func() [][]float64 { // [row][class]
		P := make([][]float64, n)
		for i := range P {
			s := make([]float64, K)
			for k := range s {
				s[k] = F[k][i]
			}
			P[i] = softmaxRef(s)
		}
		return P
	}
	column := func(P [][]float64, k int) []float64 {
		r := make([]float64, n)
		for i := range r {
			r[i] = P[i][k]
		}
		return r
	}
	near := func(a, b []float64, tol float64) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if !close2(a[i], b[i], tol) {
				return false
			}
		}
		return true
	}
	fullRows := !xgb || (o.SubSample >= 1)
	fullCols := !xgb || (o.ColSubSample >= 1)
	s := &treeSpec{X: D.Data, XGB: xgb, MaxDepth: o.MaxDepth, MCW: o.MinChildWeight, Lambda: o.Lambda, Gamma: o.Gamma, Newton: true, Fit: true}
	i := 0
	nlosses := 0
	P := prob()
	j.trees(func(r, k int, t *Node) {
		if t.Nsamples == 0 && t.Leaf {
			return
		}
		c.Check(i < len(st), "more trees than gradient evaluations (%d)", len(st))
		g, h := st[i].G, st[i].H
		c.Check(eqF(g.Y, cols[k]), "round %d class %d: gradients taken for labels %v, expected %v", r, k, g.Y, cols[k])
		want := column(P, k)
		c.Check(near(g.P, want, 1e-9), "round %d class %d: gradients taken at %v, the ensemble so far gives %v", r, k, g.P, want)
		c.Check(near(h.P, want, 1e-9), "round %d class %d: hessian taken at %v, the ensemble so far gives %v", r, k, h.P, want)
		c.Count("steps", 1)
		if fullRows && fullCols {
			s.G, s.H, s.Y = g.Out, h.Out, g.Out
			if g.Kind == "neg" && xgb || g.Kind == "grad" && !xgb {
				f := make([]float64, n)
				for q := range f {
					f[q] = -g.Out[q]
				}
				s.G, s.Y = f, f
			}
			s.judge(c, t, seq(n), 0)
			c.Count("fitted_trees", 1)
		}
		for q := range F[k] {
			F[k][q] += o.LearningRate * t.predict(D.Data[q])
		}
		P = prob()
		for _, e := range st[i].Losses {
			c.Check(eqF(e.Y, cols[k]) && near(e.P, column(P, k), 1e-9), "round %d class %d: training loss evaluated at %v, the ensemble so far gives %v", r, k, e.P, column(P, k))
			nlosses++
		}
		i++
	})
	c.Check(i == len(st), "%d trees for %d gradient evaluations", i, len(st))
	if o.EarlyStop == 0 && (fullRows) {
		c.Check(len(j.Rounds) == o.Rounds && i == o.Rounds*K, "%d rounds with %d trees, expected %d rounds with %d each", len(j.Rounds), i, o.Rounds, K)
		c.Count("complete_runs", 1)
	}
	for q, x := range D.Data {
		c.Check(near(M.PredictSingle(x), P[q], 1e-9), "row %d: the returned ensemble predicts %v, training ended with %v", q, M.PredictSingle(x), P[q])
	}
	if nlosses > 0 {
		// what training itself ended with, not only what we recomputed
		last := map[string][]float64{}
		for _, e := range rec.Ev {
			if e.Kind == "loss" {
				last[fmt.Sprint(e.Y)] = e.P
			}
		}
		if len(st) > 0 && len(st[len(st)-1].Losses) > 0 {
			e := st[len(st)-1].Losses[0]
			for k := range cols {
				if eqF(cols[k], e.Y) {
					for q, x := range D.Data {
						c.Check(close2(M.PredictSingle(x)[k], e.P[q], 1e-9), "row %d class %d: returned ensemble predicts %v, training ended with %v", q, k, M.PredictSingle(x)[k], e.P[q])
					}
				}
			}
		}
	}
	c.Sig("%s n%d K%d", describeOpts(o), n, K)
	if c.I < 2 {
		c.Sample(map[string]any{"options": describeOpts(o), "rows": n, "classes": K, "steps": i})
	}
}

// ---- C06 ----

func judgeDist(c *Case, p []float64, K int, what string) {
	c.Check(len(p) == K, "%s: %d entries for %d classes", what, len(p), K)
	sum := 0.0
	for _, v := range p {
		c.Check(v >= 0 && v <= 1, "%s: probability %v in %v", what, v, p)
		sum += v
	}
	c.Check(math.Abs(sum-1) < 1e-9*float64(K+1), "%s: probabilities %v add up to %v", what, p, sum)
	c.Count("distributions", 1)
}

func c06model(c *Case) {
	R := c.R
	n, d, K := someSize(c, 2+R.IntN(25), 1+R.IntN(4), 1+R.IntN(6))
	D := genBunch(R, n, d, K)
	xgb := R.IntN(2) == 0
	o := genOptions(R, xgb, R.IntN(2) == 0)
	o.LearningRate = pick(R, 1e-8, 0.3, 1, 5, 50, 1e3, 1e6)
	o.Rounds = pick(R, 0, 1, 5, 20, 60)
	if c.huge {
		o.Rounds = min(o.Rounds, 2)
	}
	o.BaseScore = pick(R, 0, 0.5, -800, 800, 1e6, -1e15)
	o.MinChildWeight = pick(R, 1.0, 1, 3)
	o.Lambda = pick(R, 0, 0, 1e-9, 1)
	o.Loss = pick[utils.LossFunc](R, &utils.MSELoss{}, &utils.SQErrLoss{})
	if R.IntN(8) == 0 {
		o.MinSample = n + 5 // every round is skipped when rows are subsampled
		if xgb {
			o.SubSample = 0.5
		}
	}
	M := boo.NewMultiClass(D, o)
	j := mustModel(c, M)
	K = len(j.ClassLabels)
	c.Check(M.Classes() == K, "Classes() = %d", M.Classes())
	M2, err := reload(j.text)
	c.Check(err == nil, "reload: %v", err)
	if len(j.Rounds) == 0 {
		c.Count("empty_ensembles", 1)
	}
	for _, x := range probes(R, D, j, 10) {
		if R.IntN(4) == 0 {
			x[R.IntN(d)] = pick(R, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 0)
		}
		judgeDist(c, M.PredictSingle(x), K, "trained")
		judgeDist(c, M2.PredictSingle(x), K, "reloaded")
		buf := make([]float64, K+R.IntN(3))
		for i := range buf {
			buf[i] = math.NaN()
		}
		judgeDist(c, M.PredictSingle(x, buf)[:K], K, "with storage")
		s, _ := j.scores(x)
		for _, v := range s {
			if math.Abs(v) > 700 {
				c.Count("extreme_scores", 1)
				break
			}
		}
	}
	c.Sig("%s n%d K%d", describeOpts(o), n, K)
}

func genScores(R *rand.Rand) []float64 {
	n := 1 + R.IntN(12)
	if R.IntN(400) == 0 {
		n = 20 + R.IntN(280)
	}
	s := make([]float64, n)
	e := pick(R, 0.0, 1, 2.5, 3, 5, 100, 300)
	for i := range s {
		s[i] = R.NormFloat64() * math.Pow(10, e)
		switch R.IntN(10) {
		case 0:
			s[i] = pick(R, math.MaxFloat64, -math.MaxFloat64, 0, 709.7, 745.2, -745.2, 710)
		case 1:
			s[i] = s[0]
		}
	}
	if g := R.IntN(8); g < 2 { // all of one sign
		for i := range s {
			s[i] = math.Abs(s[i]) * float64(2*g-1)
		}
	}
	return s
}

func judgeSoftmax(c *Case, s, p []float64, what string) {
	judgeDist(c, p, len(s), what)
	ref := softmaxRef(s)
	for a := range s {
		c.Check(close2(p[a], ref[a], 1e-12), "%s of %v is %v, expected %v", what, s, p, ref)
		for b := range s {
			if s[a] > s[b] {
				c.Check(p[a] >= p[b], "%s of %v does not keep the order: %v", what, s, p)
			} else if s[a] == s[b] {
				c.Check(p[a] == p[b], "%s of %v gives different values to equal scores: %v", what, s, p)
			}
		}
	}
}

func c06softmax(c *Case) {
	R := c.R
	s := genScores(R)
	keep := append([]float64(nil), s...)
	fresh := utils.SoftMax(s, nil)
	c.Hold("SoftMax", fresh)
	judgeSoftmax(c, s, fresh, "SoftMax")
	buf := make([]float64, len(s))
	for i := range buf {
		buf[i] = pick(R, math.NaN(), 1e308, -3)
	}
	q := utils.SoftMax(s, buf)
	judgeSoftmax(c, s, q, "SoftMax with destination")
	c.Check(eqF(buf, q), "destination not filled")
	c.Check(eqF(s, keep), "scores modified")
	// matrices, row by row
	r := 1 + R.IntN(4)
	w := len(s)
	data := make([]float64, 0, r*w)
	for i := 0; i < r; i++ {
		t := genScores(R)
		for len(t) < w {
			t = append(t, genScores(R)...)
		}
		data = append(data, t[:w]...)
	}
	g := &guard{}
	O := maybeView(c, g, "scores", r, w, data)
	var dst *mat.Dense
	if R.IntN(2) == 0 {
		dst = mat.NewDense(r, w, nil)
		if R.IntN(3) == 0 {
			dst = mat.NewDense(r+1, w+2, nil).Slice(0, r, 1, w+1).(*mat.Dense)
		}
		for i := 0; i < r; i++ {
			for k := 0; k < w; k++ {
				dst.Set(i, k, math.NaN())
			}
		}
	}
	P := utils.SoftMaxDense(O, dst)
	c.Check(dst == nil || dst == P, "destination matrix not returned")
	c.Hold("SoftMaxDense", P.RawMatrix().Data)
	utils.SoftMax(genScores(R), nil)
	utils.SoftMaxDense(mat.NewDense(r, w, genVals(R, r*w, 3)), nil)
	for i := 0; i < r; i++ {
		judgeSoftmax(c, data[i*w:(i+1)*w], append([]float64(nil), P.RawRowView(i)...), "SoftMaxDense")
		c.Check(eqF(O.RawRowView(i), data[i*w:(i+1)*w]), "score matrix modified")
	}
	g.judge(c, "SoftMaxDense")
	// in place
	in := append([]float64(nil), s...)
	judgeSoftmax(c, s, append([]float64(nil), utils.SoftMax(in, in)...), "SoftMax in place")
	judgeSoftmax(c, s, in, "SoftMax in place")
	OI := mat.DenseCopyOf(O)
	PI := utils.SoftMaxDense(OI, OI)
	for i := 0; i < r; i++ {
		judgeSoftmax(c, data[i*w:(i+1)*w], append([]float64(nil), PI.RawRowView(i)...), "SoftMaxDense in place")
	}
	if w > 1 {
		c.Sig("%v", s)
	}
	c.Sample(map[string]any{"scores": fmt.Sprint(s), "softmax": fmt.Sprint(q)})
}

// ---- C07 ----

func c07case(c *Case) {
	R := c.R
	n, K := 3+R.IntN(10), 1+R.IntN(5)
	if R.IntN(30) == 0 {
		n, K = 30+R.IntN(30), 6+R.IntN(20)
	}
	X := make([][]float64, n)
	y := make([]int, n)
	names := labelNames(R, K)
	for i := range X {
		X[i] = []float64{1.5, -2}
		y[i] = names[R.IntN(K)]
	}
	D := mkBunch(X, y)
	distinct, _ := oneHotRef(y)
	K = len(distinct)
	xgb := R.IntN(2) == 0
	o := genOptions(R, xgb, true)
	o.Rounds = 1 + R.IntN(20)
	o.EarlyStop = pick(R, 0, 1, 1, 2, 3, 4)
	if R.IntN(20) == 0 { // long stalls
		o.Rounds = 20 + R.IntN(60)
		o.EarlyStop = pick(R, 2, 5, 8, 10, 11, 16, 25)
		c.Count("long_trainings", 1)
	}
	o.MinChildWeight = 1
	o.MinSample = 1
	if xgb && R.IntN(3) == 0 {
		o.SubSample = pick(R, 0.9, 0.6)
		o.MinSample = 1 + R.IntN(n/2+1)
	}
	// scripted losses per class: few levels, so that ties, falls and rises all occur
	script := make([][]float64, K)
	for k := range script {
		mode := R.IntN(6)
		l := 5.0
		for t := 0; t < o.Rounds; t++ {
			switch mode {
			case 0: // random walk with ties
				l += float64(R.IntN(3) - 1)
				l = math.Max(l, 1)
			case 1: // always improving
				l *= 0.9
			case 2: // stalls from the start
			case 3: // rises
				l += 1
			case 4: // reaches the floor at some point
				l = pick(R, 3.0, 2, 1, 1e-6, 1.1e-6, math.Nextafter(1e-6, 1), math.Nextafter(1e-6, 0), 1.0005e-6, 1e-7, 0)
			case 5: // stalls, with a rare tiny improvement
				if R.IntN(o.EarlyStop+2) == 0 {
					if d := pick(R, 1e-9, 1e-10, 1e-13, 0); d > 0 {
						l -= d
					} else {
						l = math.Nextafter(l, 0)
					}
				} else if R.IntN(3) == 0 {
					l += 1e-4
				}
			}
			script[k] = append(script[k], l)
		}
	}
	val := make([][]float64, K)
	for k := range val {
		for t := 0; t < o.Rounds; t++ {
			val[k] = append(val[k], float64(1+R.IntN(1000))/64*pick(R, 1.0, -1))
		}
	}
	sl := newScript(D)
	sl.Hess = func(m int) []float64 {
		h := make([]float64, m)
		for i := range h {
			h[i] = 1
		}
		return h
	}
	sl.Grad = func(k, t int) []float64 {
		g := make([]float64, n)
		for i := range g {
			g[i] = -val[k][min(t, o.Rounds-1)]
		}
		return g
	}
	sl.LossV = func(k, _ int) float64 { return script[k][min(max(sl.NG[k]-1, 0), o.Rounds-1)] }
	o.Loss = sl
	M := boo.NewMultiClass(D, o)
	j := mustModel(c, M)
	c.Check(sl.Bad == 0, "loss evaluated for labels which are no class's")
	// independent simulation of the rule
	executed := o.Rounds
	if xgb && o.SubSample < 1 {
		executed = 0
		for _, g := range sl.NG {
			executed = max(executed, g)
		}
	}
	want := make([]int, K)
	stops := 0
	for k := range want {
		want[k] = executed
		cnt := 0
		for t := 0; t < executed && o.EarlyStop > 0; t++ {
			stop := script[k][t] <= 1e-6
			if t > 0 {
				if script[k][t] < script[k][t-1] {
					cnt = 0
				} else {
					cnt++
				}
			}
			if stop || cnt >= o.EarlyStop {
				want[k] = t + 1
				if t+1 < executed {
					stops++
				}
				break
			}
		}
	}
	c.Count("early_stops", stops)
	got := make([]int, K)
	sum := make([]float64, K)
	j.trees(func(r, k int, t *Node) {
		if t.Nsamples > 0 {
			v := val[k][got[k]]
			w := v
			if xgb {
				w = v * float64(t.Nsamples) / (float64(t.Nsamples) + o.Lambda)
			}
			c.Check(close2(t.Value, w, 1e-9*math.Abs(w)), "tree %d exported for class %d predicts %v, the one trained for it predicts %v", got[k], k, t.Value, w)
			sum[k] += w
			got[k]++
		}
	})
	for k := range want {
		c.Check(sl.NG[k] == want[k], "class %d was trained %d times, expected %d (EarlyStop %d, losses %v)", k, sl.NG[k], want[k], o.EarlyStop, script[k])
		c.Check(got[k] == want[k], "class %d has %d trees, expected %d", k, got[k], want[k])
		c.Check(M.Rounds(k) == want[k], "Rounds(%d) = %d, expected %d", k, M.Rounds(k), want[k])
	}
	M2, err := reload(j.text)
	c.Check(err == nil, "reload: %v", err)
	s := make([]float64, K)
	for k := range s {
		s[k] = o.BaseScore + o.LearningRate*sum[k]
	}
	p := softmaxRef(s)
	for q, m := range []*boo.MultiClass{M, M2} {
		x := m.PredictSingle(X[0])
		for k := range p {
			c.Check(close2(x[k], p[k], 1e-9), "model %d: class %d predicted with %v; the trees trained for the classes give %v", q, k, x[k], p[k])
			c.Check(m.Rounds(k) == want[k], "model %d: Rounds(%d) = %d, expected %d", q, k, m.Rounds(k), want[k])
		}
	}
	diff := map[int]bool{}
	for _, w := range want {
		diff[w] = true
	}
	if len(diff) > 1 {
		c.Count("uneven_models", 1)
	}
	c.Count("models", 1)
	c.Sig("E%d r%d %v", o.EarlyStop, o.Rounds, want)
	c.Sample(map[string]any{"EarlyStop": o.EarlyStop, "Rounds": o.Rounds, "trees_per_class": want, "losses_class0": script[0]})
}

// ---- C09 ----

func c09case(c *Case) {
	R := c.R
	D, o, M, j := genModel(c, true)
	names, cols := oneHotRef(D.Labels)
	K := len(names)
	ohe, lab := D.OHELabels()
	c.Check(fmt.Sprint(lab) == fmt.Sprint(names), "one-hot labels %v, expected %v", lab, names)
	r, cc := ohe.Dims()
	c.Check(r == len(D.Data) && cc == K, "one-hot matrix %dx%d", r, cc)
	for i := 0; i < r; i++ {
		for k := 0; k < cc; k++ {
			c.Check(ohe.At(i, k) == cols[k][i], "one-hot row %d (label %d): %v", i, D.Labels[i], ohe.RawRowView(i))
		}
	}
	M2, err := reload(j.text)
	c.Check(err == nil, "reload: %v", err)
	for _, m := range []*boo.MultiClass{M, M2} {
		l := m.ClassLabels()
		c.Check(fmt.Sprint(l) == fmt.Sprint(names), "ClassLabels %v, expected %v", l, names)
		for i := range l {
			l[i] = -999
		}
		c.Check(fmt.Sprint(m.ClassLabels()) == fmt.Sprint(names), "ClassLabels is not a private copy")
		c.Check(m.Classes() == K, "Classes() = %d, expected %d", m.Classes(), K)
		got := make([]int, K)
		j.trees(func(_, k int, t *Node) {
			if t.Nsamples > 0 {
				got[k]++
			}
		})
		for k := range got {
			c.Check(m.Rounds(k) == got[k], "Rounds(%d) = %d, the model has %d trees", k, m.Rounds(k), got[k])
		}
		c.Check(m.Rounds() == got[0], "Rounds() = %d, expected %d", m.Rounds(), got[0])
		for _, k := range []int{K, K + 1, K + 100} {
			c.Check(m.Rounds(k) == -1, "Rounds(%d) = %d with %d classes", k, m.Rounds(k), K)
		}
	}
	// single-row draws still give trees that count
	{
		sn := 1 + R.IntN(3)
		SD := genBunch(R, sn, 1+R.IntN(2), sn)
		so := genOptions(R, true, false)
		so.SubSample, so.MinSample, so.EarlyStop, so.Rounds = 0.5, 1, 0, 1+R.IntN(6)
		SM := boo.NewMultiClass(SD, so)
		sj := mustModel(c, SM)
		nt := 0
		sj.trees(func(_, k int, t *Node) {
			if k == 0 {
				nt++
			}
		})
		c.Check(SM.Rounds() == nt && SM.Rounds(0) == nt, "Rounds() = %d, %d trees were built for each class (%d rows, half of them drawn)", SM.Rounds(), nt, sn)
		c.Count("single_row_draws", 1)
	}
	// injective renaming
	nn := labelNames(R, K)
	ren := map[int]int{}
	for i, v := range names {
		ren[v] = nn[i]
	}
	D2 := mkBunch(cloneX(D.Data), make([]int, len(D.Labels)))
	for i, v := range D.Labels {
		D2.Labels[i] = ren[v]
	}
	N := boo.NewMultiClass(D2, o.Clone())
	jn := mustModel(c, N)
	c.Check(fmt.Sprint(jn.ClassLabels) == fmt.Sprint(nn), "renamed labels %v, expected %v", jn.ClassLabels, nn)
	strip := func(t string) string {
		var o []string
		for _, l := range strings.Split(t, "\n")[1:] {
			if strings.HasPrefix(l, "CLASS") {
				l = strings.Split(l, ",")[0]
			}
			o = append(o, l)
		}
		return strings.Join(o, "\n")
	}
	c.Check(strip(j.text) == strip(jn.text), "renaming the labels changed the trees")
	for _, x := range probes(R, D, j, 6) {
		c.Check(eqF(M.PredictSingle(x), N.PredictSingle(x)), "renaming the labels changed the probabilities")
		c.Check(M.PredictSingleClass(x) == N.PredictSingleClass(x), "renaming the labels changed the class")
	}
	c.Check(M.Accuracy(D) == N.Accuracy(D2), "renaming the labels changed the accuracy")
	c.Count("renamings", 1)
	// class index i refers to ClassLabels()[i]: on separable data, the model must recover the labels
	n := 4 * K
	S := &utils.DataBunch{}
	for i := 0; i < n; i++ {
		S.Data = append(S.Data, []float64{float64(i % K)})
		S.Labels = append(S.Labels, nn[i%K])
	}
	R.Shuffle(n, func(a, b int) {
		S.Data[a], S.Data[b] = S.Data[b], S.Data[a]
		S.Labels[a], S.Labels[b] = S.Labels[b], S.Labels[a]
	})
	so := boo.DefaultXOptions()
	so.SubSample, so.ColSubSample, so.MinChildWeight, so.Gamma, so.Lambda, so.MaxDepth = 1, 1, 1, 0, 0.1, 6
	if K > 40 {
		so.Rounds = 3
	}
	SM := boo.NewMultiClass(S, so)
	SL := SM.ClassLabels()
	for i, x := range S.Data {
		k := SM.PredictSingleClass(x)
		c.Check(SL[k] == S.Labels[i], "separable data: predicted label %d for a sample with label %d", SL[k], S.Labels[i])
		c.Check(SM.PredictSingle(x)[k] > 1/float64(K)-1e-12, "separable data: probability of the right class")
		c.Count("separable_samples", 1)
	}
	if c.R.IntN(20) == 0 { // many labels
		ml := labelNames(R, 65+R.IntN(400))
		Y := append([]int(nil), ml...)
		for i := 0; i < len(ml); i++ {
			Y = append(Y, ml[R.IntN(len(ml))])
		}
		if R.IntN(2) == 0 {
			R.Shuffle(len(Y), func(a, b int) { Y[a], Y[b] = Y[b], Y[a] })
		}
		want, wc := oneHotRef(Y)
		mm, got := (&utils.DataBunch{Labels: Y}).OHELabels()
		c.Check(fmt.Sprint(got) == fmt.Sprint(want), "one-hot labels %v, expected %v", got, want)
		for k := range want {
			for i := range Y {
				c.Check(mm.At(i, k) == wc[k][i], "one-hot row %d of %d (label %d, class %d): %v", i, len(Y), Y[i], k, mm.At(i, k))
			}
		}
		c.Count("many_labels", 1)
		if R.IntN(3) == 0 {
			mx := make([][]float64, len(Y))
			for i := range mx {
				mx[i] = []float64{float64(i)}
			}
			mo := boo.DefaultXOptions()
			mo.Rounds, mo.MaxDepth, mo.MinSample = 1, 2, 1
			MM := boo.NewMultiClass(mkBunch(mx, Y), mo)
			c.Check(fmt.Sprint(MM.ClassLabels()) == fmt.Sprint(want), "ClassLabels %v, expected %v", MM.ClassLabels(), want)
			c.Check(MM.Classes() == len(want) && len(MM.PredictSingle(mx[0])) == len(want), "Classes() = %d, %d probabilities, expected %d", MM.Classes(), len(MM.PredictSingle(mx[0])), len(want))
		}
	}
	// string keys
	D3 := &utils.DataBunch{Data: D.Data, Keys: make([]string, 1+R.IntN(6))}
	for i := range D3.Keys {
		D3.Keys[i] = fmt.Sprint("k", R.IntN(4))
	}
	km, ks := D3.OHEKeys()
	kr, kc := km.Dims()
	c.Check(kr == len(D3.Keys) && kc == len(ks), "one-hot keys %dx%d", kr, kc)
	for i := 0; i < kr; i++ {
		for k := 0; k < kc; k++ {
			c.Check((km.At(i, k) == 1) == (ks[k] == D3.Keys[i]) && (km.At(i, k) == 0 || km.At(i, k) == 1), "one-hot keys row %d", i)
		}
	}
}

func init() {
	register(&Prop{ID: "C04", Rule: "random trained ensembles of both kinds (with row/column subsampling, early stopping, several losses) and their reloaded copies; vectors from the training rows, on and around every threshold, and of extreme magnitude; the oracle recomputes the probabilities from the model's own exported JSON",
		Suites: []Suite{{"predict", 1500, 40000, false, c04case}},
		Floors: map[string]int64{"predictions": 20000, "model_nodes": 10000}})
	register(&Prop{ID: "C05", Rule: "training runs with a recording loss: every gradient, hessian and loss call is compared with the labels and the probabilities of the ensemble reconstructed, step by step, from the exported trees; every tree is judged against the gradients of its step by exhaustive split enumeration",
		Suites: []Suite{{"trace", 1500, 40000, false, c05case}},
		Floors: map[string]int64{"steps": 10000, "fitted_trees": 5000, "complete_runs": 200}})
	register(&Prop{ID: "C06", Rule: "models with extreme learning rates (to 1e6), base scores, zero Lambda, up to 60 rounds, or no trees, on hostile vectors; softmax functions on score vectors up to +-MaxFloat64 with ties, with and without destination",
		Suites: []Suite{{"model", 1200, 30000, false, c06model}, {"softmax", 30000, 800000, false, c06softmax}},
		Floors: map[string]int64{"distributions": 80000, "empty_ensembles": 20, "extreme_scores": 200},
		Assume: []string{"scores stay finite (learning rates up to 1e6)"}})
	register(&Prop{ID: "C07", Rule: "training with a scripted loss: per class a sequence of loss values (ties, rises, falls, at and around 1e-6), gradients that give every tree a distinct known value; the stopping rule is simulated independently and compared with the trees each class received, in the returned and the reloaded model",
		Suites: []Suite{{"script", 6000, 200000, false, c07case}},
		Floors: map[string]int64{"models": 5000, "early_stops": 3000, "uneven_models": 1500}})
	register(&Prop{ID: "C09", Rule: "random label multisets (0-based, 1-based, negative, 50-bit, shuffled order) and models; each model retrained with injectively renamed labels and compared tree by tree; separable data whose labels must be recovered",
		Suites: []Suite{{"labels", 1500, 40000, false, c09case}},
		Floors: map[string]int64{"renamings": 1000, "separable_samples": 5000}})
}
