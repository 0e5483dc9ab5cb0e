package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
	"gonum.org/v1/gonum/mat"
)

// ---- C24: losses ----

func genVals(R *rand.Rand, n, style int) []float64 {
	v := make([]float64, n)
	for i := range v {
		switch style {
		case 0:
			v[i] = R.Float64()
		case 1:
			v[i] = float64(R.IntN(2))
		case 2:
			v[i] = pick(R, 0, 1, 1e-300, math.Nextafter(1, 0), 0.5, 1e-17)
		default:
			v[i] = R.NormFloat64() * math.Pow(10, float64(R.IntN(40)-20))
		}
	}
	return v
}

func c24case(c *Case) {
	R := c.R
	r, k := 1, 1+R.IntN(40)
	if R.IntN(3) == 0 {
		r, k = 1+R.IntN(12), 1+R.IntN(6)
	}
	if R.IntN(200) == 0 {
		r, k = pick(R, 1, 1, 60), 500+R.IntN(2500)
	}
	n := r * k
	yv, pv := genVals(R, n, pick(R, 1, 1, 3)), genVals(R, n, R.IntN(4))
	g := &guard{}
	y, p := maybeView(c, g, "labels", r, k, yv), maybeView(c, g, "probabilities", r, k, pv)
	var L utils.LossFunc = &utils.SQErrLoss{}
	mse := R.IntN(2) == 0
	if mse {
		L = &utils.MSELoss{}
	}
	dst := func() *mat.Dense {
		if R.IntN(2) == 0 {
			return nil
		}
		d := mat.NewDense(r, k, nil)
		if R.IntN(3) == 0 { // part of a larger matrix, the rest of which is watched
			a, b := 1+R.IntN(3), 1+R.IntN(3)
			rest := genVals(R, (r+2*a)*(k+2*b), 3)
			whole := mat.NewDense(r+2*a, k+2*b, slices.Clone(rest))
			d = whole.Slice(a, a+r, b, b+k).(*mat.Dense)
			g.val = append(g.val, func() string {
				for i := range rest {
					q, w := i/(k+2*b), i%(k+2*b)
					if q >= a && q < a+r && w >= b && w < b+k {
						continue
					}
					if whole.At(q, w) != rest[i] {
						return fmt.Sprintf("element %d,%d outside of the destination", q-a, w-b)
					}
				}
				return ""
			})
			c.Count("destination_views", 1)
		}
		for i := 0; i < n; i++ {
			d.Set(i/k, i%k, pick(R, math.NaN(), 7, -1e300))
		}
		return d
	}
	// results of one loss object in random order: earlier results must not influence later ones
	for q := 0; q < 4; q++ {
		d := dst()
		switch R.IntN(4) {
		case 0:
			want := 0.0
			for i := range yv {
				want += (yv[i] - pv[i]) * (yv[i] - pv[i]) / float64(n)
			}
			l := L.Loss(y, p, d)
			c.Check(close2(l, want, 1e-9*want), "%s loss %v, mean squared difference %v", L.Name(), l, want)
			c.Count("losses", 1)
		case 1:
			res := L.NegGradients(y, p, d)
			judgeMat(c, res, d, r, k, func(i int) (float64, float64) { return yv[i] - pv[i], 0 }, L.Name()+" negative gradient")
			c.Count("gradients", 1)
		case 2:
			res := L.Gradients(y, p, d)
			judgeMat(c, res, d, r, k, func(i int) (float64, float64) { return -(yv[i] - pv[i]), 0 }, L.Name()+" gradient")
			c.Count("gradients", 1)
		case 3:
			res := L.Hessian(p, d)
			if mse {
				judgeMat(c, res, d, r, k, func(i int) (float64, float64) {
					return pv[i] * (1 - pv[i]), 1e-14*math.Abs(pv[i]) + 1e-14*pv[i]*pv[i]
				}, "mse hessian")
			} else {
				judgeMat(c, res, d, r, k, func(i int) (float64, float64) { return 1, 0 }, "sqerr hessian")
			}
			c.Count("hessians", 1)
		}
		if d == nil {
			c.Count("fresh_results", 1)
		}
		g.judge(c, "a loss function")
	}
	if R.IntN(2) == 0 { // a fresh result stays as it is whatever is evaluated next
		c.Hold("NegGradients", L.NegGradients(y, p, nil).RawMatrix().Data)
		c.Hold("Gradients", L.Gradients(y, p, nil).RawMatrix().Data)
		c.Hold("Hessian", L.Hessian(p, nil).RawMatrix().Data)
		y2, p2 := mat.NewDense(r, k, genVals(R, n, 1)), mat.NewDense(r, k, genVals(R, n, 1))
		L.NegGradients(y2, p2, nil)
		L.Gradients(y2, p2, nil)
		c.Hold("second Hessian", L.Hessian(p2, nil).RawMatrix().Data)
		L.Hessian(y2, mat.NewDense(r, k, nil))
	}
	c.Sig("%s %dx%d %v", L.Name(), r, k, pv[0])
	c.Sample(map[string]any{"loss": L.Name(), "dims": fmt.Sprintf("%dx%d", r, k)})
}

// maybeView returns the r x k matrix of the values, sometimes as a view of a larger, guarded one
func maybeView(c *Case, g *guard, name string, r, k int, v []float64) *mat.Dense {
	R := c.R
	if R.IntN(4) > 0 {
		return mat.NewDense(r, k, g.F(name, v))
	}
	a, b := R.IntN(3), 1+R.IntN(3)
	all := genVals(R, (r+2*a)*(k+2*b), 3)
	for i := range v {
		all[(a+i/k)*(k+2*b)+b+i%k] = v[i]
	}
	c.Count("input_views", 1)
	return mat.NewDense(r+2*a, k+2*b, g.F(name, all)).Slice(a, a+r, b, b+k).(*mat.Dense)
}

func judgeMat(c *Case, res, d *mat.Dense, r, k int, want func(int) (float64, float64), what string) {
	a, b := res.Dims()
	c.Check(a == r && b == k, "%s has dimensions %dx%d, expected %dx%d", what, a, b, r, k)
	for i := 0; i < r*k; i++ {
		w, tol := want(i)
		v := res.At(i/k, i%k)
		c.Check(close2(v, w, tol), "%s: element %d is %v, expected %v", what, i, v, w)
		if d != nil {
			c.Check(close2(d.At(i/k, i%k), w, tol), "%s: element %d of the destination is %v, expected %v", what, i, d.At(i/k, i%k), w)
		}
	}
	if d != nil { // returned in the destination
		d.Set(0, 0, 4242)
		c.Check(res.At(0, 0) == 4242, "%s was not returned in the destination", what)
	}
}

// ---- C25: kernels ----

func genSlice(R *rand.Rand, n int) []float64 {
	if n == 0 {
		return nil
	}
	return genCol(R, n, R.IntN(nKinds))
}

func judgeSort(c *Case, src []float64, idx []int, val []float64, what string) {
	n := len(src)
	c.Check(len(idx) == n && len(val) == n, "%s: %d indexes and %d values for %d", what, len(idx), len(val), n)
	seen := make([]bool, n)
	for i := range idx {
		c.Check(idx[i] >= 0 && idx[i] < n && !seen[idx[i]], "%s: indexes %v are not a permutation", what, idx)
		seen[idx[i]] = true
		c.Check(math.Float64bits(src[idx[i]]) == math.Float64bits(val[i]), "%s: value %d is %v, its index points to %v", what, i, val[i], src[idx[i]])
		if i > 0 {
			c.Check(val[i-1] <= val[i], "%s: values %v are not ascending", what, val)
		}
	}
	c.Count("sorts", 1)
}

func c25sort(c *Case) {
	R := c.R
	n := R.IntN(40)
	if R.IntN(10) == 0 {
		n = 100 + R.IntN(400)
	}
	if R.IntN(150) == 0 {
		n = 1000 + R.IntN(4000)
	}
	s := genSlice(R, n)
	if n > 0 && R.IntN(5) == 0 {
		s[R.IntN(n)] = math.Inf(1)
		s[R.IntN(n)] = math.Inf(-1)
	}
	if R.IntN(4) == 0 {
		sort.Float64s(s)
	}
	if R.IntN(4) == 0 {
		slices.Reverse(s)
	}
	g := &guard{}
	src := g.F("source", s)
	idx, val := utils.ArgSort(src)
	judgeSort(c, s, idx, val, "ArgSort")
	c.Hold("ArgSort", val)
	c.HoldI("ArgSort", idx)
	utils.ArgSort(genSlice(R, n))
	g.judge(c, "ArgSort")
	ti, tv := make([]int, n), make([]float64, n)
	for rep := 0; rep < 2; rep++ {
		for i := range ti {
			ti[i], tv[i] = R.IntN(1000)-500, math.NaN()
		}
		idx, val = utils.MemArgSort(src, ti, tv)
		judgeSort(c, s, idx, val, "MemArgSort")
		g.judge(c, "MemArgSort")
	}
	w := slices.Clone(s)
	sl := utils.NewSlice(w)
	c.Check(len(sl.Idx) == n && sl.Len() == n, "NewSlice: %d indexes", len(sl.Idx))
	sort.Sort(sl)
	judgeSort(c, s, sl.Idx, []float64(sl.Float64Slice), "Slice")
	c.Sig("%d %v", n, s)
}

func mustPanic(c *Case, f func(), what string) {
	p := func() (p any) { defer func() { p = recover() }(); f(); return nil }()
	c.Check(p != nil, "%s was accepted", what)
	c.Count("rejections", 1)
}

func c25sample(c *Case) {
	R := c.R
	r, k := 1+R.IntN(12), 1+R.IntN(8)
	if R.IntN(100) == 0 {
		r, k = pick(R, 3, 300, 700), pick(R, 3, 300)
	}
	X := genX(R, r, k, -1)
	g := &guard{}
	gx := g.X("matrix", X)
	rows := make([]int, R.IntN(r*2+1))
	for i := range rows {
		rows[i] = R.IntN(r)
	}
	cols := R.Perm(k)[:R.IntN(k+1)]
	if R.IntN(3) == 0 {
		for i := range cols {
			cols[i] = R.IntN(k)
		}
	}
	m := utils.SampleMatrix(gx, g.I("rows", rows), g.I("columns", cols))
	c.Check(len(m) == len(rows), "SampleMatrix: %d rows for %d indexes", len(m), len(rows))
	for i := range m {
		c.Check(len(m[i]) == len(cols), "SampleMatrix: row %d has %d columns", i, len(m[i]))
		for q := range m[i] {
			c.Check(m[i][q] == X[rows[i]][cols[q]], "SampleMatrix [%d][%d] is %v, expected element [%d][%d], %v", i, q, m[i][q], rows[i], cols[q], X[rows[i]][cols[q]])
			m[i][q] = 12345
		}
	}
	g.judge(c, "SampleMatrix")
	s := utils.SampleSlice(gx[0], cols)
	c.Check(len(s) == len(cols), "SampleSlice: %d elements for %d indexes", len(s), len(cols))
	for i := range s {
		c.Check(s[i] == X[0][cols[i]], "SampleSlice[%d] is %v, expected %v", i, s[i], X[0][cols[i]])
		s[i] = 54321
	}
	g.judge(c, "SampleSlice")
	t := utils.TransposeFloats(gx)
	c.Check(len(t) == k, "TransposeFloats: %d rows for %d columns", len(t), k)
	for i := range t {
		c.Check(len(t[i]) == r, "TransposeFloats: row of %d", len(t[i]))
		for q := range t[i] {
			c.Check(t[i][q] == X[q][i], "TransposeFloats [%d][%d] is %v, expected %v", i, q, t[i][q], X[q][i])
			t[i][q] = 9e9
		}
	}
	g.judge(c, "TransposeFloats")
	c.Hold("SampleSlice", s)
	for i := 0; i < min(3, len(m)); i++ {
		c.Hold("SampleMatrix", m[i])
	}
	for i := 0; i < min(3, len(t)); i++ {
		c.Hold("TransposeFloats", t[i])
	}
	utils.SampleSlice(gx[r-1], cols)
	utils.SampleMatrix(gx, rows, cols)
	utils.TransposeFloats(gx)
	c.Count("samplings", 1)
	c.Sig("%dx%d %v %v", r, k, rows, cols)
}

func c25cols(c *Case) {
	R := c.R
	// a matrix, or a view into a larger one
	br, bk := 1+R.IntN(10), 1+R.IntN(7)
	if R.IntN(200) == 0 {
		br, bk = pick(R, 5, 300, 1100), pick(R, 5, 70, 300)
	}
	data := genVals(R, br*bk, 3)
	big := mat.NewDense(br, bk, slices.Clone(data))
	r0, k0 := 0, 0
	r, k := br, bk
	if R.IntN(2) == 0 {
		r0, k0 = R.IntN(br), R.IntN(bk)
		r, k = 1+R.IntN(br-r0), 1+R.IntN(bk-k0)
		c.Count("views", 1)
	}
	D := big.Slice(r0, r0+r, k0, k0+k).(*mat.Dense)
	want := mat.NewDense(br, bk, slices.Clone(data))
	same := func(what string) {
		for i := 0; i < br; i++ {
			for q := 0; q < bk; q++ {
				c.Check(big.At(i, q) == want.At(i, q), "%s on a %dx%d part at (%d,%d): element (%d,%d) of the whole is %v, expected %v", what, r, k, r0, k0, i, q, big.At(i, q), want.At(i, q))
			}
		}
	}
	for rep := 0; rep < 3; rep++ {
		q := R.IntN(k)
		col := utils.DenseCol(D, q)
		a, b := col.Dims()
		c.Check(a == 1 && b == r, "DenseCol has dimensions %dx%d for %d rows", a, b, r)
		for i := 0; i < r; i++ {
			c.Check(col.At(0, i) == D.At(i, q), "DenseCol(%d): element %d is %v, expected %v", q, i, col.At(0, i), D.At(i, q))
			col.Set(0, i, 777)
		}
		c.Hold("DenseCol", col.RawMatrix().Data)
		same("DenseCol")
		g := &guard{}
		av := genVals(R, r, R.IntN(4))
		add := g.F("addend", av)
		utils.AddToCol(D, add, q)
		g.judge(c, "AddToCol")
		for i := range av {
			want.Set(r0+i, k0+q, want.At(r0+i, k0+q)+av[i])
		}
		same("AddToCol")
		c.Count("columns", 1)
	}
	for _, q := range []int{-1, k, k + 1, k + 100} {
		mustPanic(c, func() { utils.DenseCol(D, q) }, fmt.Sprintf("DenseCol: column %d of %d (whole: %d)", q, k, bk))
		mustPanic(c, func() { utils.AddToCol(D, make([]float64, r), q) }, fmt.Sprintf("AddToCol: column %d of %d (whole: %d)", q, k, bk))
		same("a rejected AddToCol")
	}
	mustPanic(c, func() { utils.AddToCol(D, make([]float64, r+1), 0) }, "AddToCol: too long a slice")
	utils.ToOnes(D)
	for i := 0; i < r; i++ {
		for q := 0; q < k; q++ {
			want.Set(r0+i, k0+q, 1)
		}
	}
	same("ToOnes")
	c.Sig("%dx%d of %dx%d at %d,%d %v", r, k, br, bk, r0, k0, data[0])
}

func c25probs(c *Case) {
	R := c.R
	r, k := 1+R.IntN(8), 1+R.IntN(6)
	if R.IntN(10) == 0 {
		r, k = 1+R.IntN(40), 1+R.IntN(40)
		if R.IntN(10) == 0 {
			r, k = 1+R.IntN(5), 65+R.IntN(300)
		}
	}
	m := mat.NewDense(r+1, k+1, nil).Slice(0, r, 0, k).(*mat.Dense)
	for i := 0; i < r; i++ {
		for q := 0; q < k; q++ {
			m.Set(i, q, pick(R, R.Float64(), float64(R.IntN(3))/4, 0.25, 1e-9))
		}
	}
	if R.IntN(2) == 0 {
		m = mat.DenseCopyOf(m)
	}
	before := mat.DenseCopyOf(m)
	cl := boo.ClassesFromProbs(m)
	c.Hold("ClassesFromProbs", cl.RawMatrix().Data)
	a, b := cl.Dims()
	c.Check(a == r && b == 1, "ClassesFromProbs: %dx%d", a, b)
	lo := boo.LogOddsFromProbs(m)
	c.Hold("LogOddsFromProbs", lo.RawMatrix().Data)
	boo.LogOddsFromProbs(mat.NewDense(r, k, genVals(R, r*k, 1)))
	a, b = lo.Dims()
	c.Check(a == r && b == k, "LogOddsFromProbs: %dx%d", a, b)
	nd := utils.NormalizationDense(m, pick(R, nil, mat.NewDense(r, k, genVals(R, r*k, 3))))
	for i := 0; i < r; i++ {
		best, sum := 0, 0.0
		for q := 0; q < k; q++ {
			sum += m.At(i, q)
			if m.At(i, q) > m.At(i, best) {
				best = q
			}
		}
		c.Check(cl.At(i, 0) == float64(best), "ClassesFromProbs: row %v gives %v", m.RawRowView(i), cl.At(i, 0))
		row := slices.Clone(m.RawRowView(i))
		dst := pick(R, nil, genVals(R, k, 3))
		nv := utils.Normalization(row, dst)
		c.Hold("Normalization", nv)
		c.Check(eqF(row, m.RawRowView(i)), "Normalization changed its input")
		inplace := slices.Clone(row)
		utils.Normalization(inplace, inplace)
		for q := 0; q < k; q++ {
			v := m.At(i, q)
			if sum > 0 {
				c.Check(close2(inplace[q], v/sum, 1e-12), "Normalization of %v in place: %v", row, inplace)
				c.Check(close2(nv[q], v/sum, 1e-12), "Normalization of %v: %v", row, nv)
				c.Check(close2(nd.At(i, q), v/sum, 1e-12), "NormalizationDense of %v: %v", row, nd.At(i, q))
			}
			others := false
			for z := 0; z < k; z++ {
				others = others || z != q && m.At(i, z) != 0
			}
			if v > 0 && !others || v == 0 && others {
				c.Check(math.IsInf(lo.At(i, q), boolI(v > 0)*2-1), "LogOddsFromProbs of %v, element %d: %v", row, q, lo.At(i, q))
				c.Count("certain_odds", 1)
			}
			if rest := sum - v; rest > 1e-11*sum && v > 0 {
				c.Check(close2(lo.At(i, q), math.Log(v/rest), 1e-9+float64(k)*1e-15*sum/rest), "LogOddsFromProbs of %v, element %d: %v, expected %v", row, q, lo.At(i, q), math.Log(v/rest))
				c.Count("log_odds", 1)
			}
		}
		if dst != nil {
			c.Check(eqF(dst, nv) || sum == 0, "Normalization did not fill the slice given")
		}
	}
	c.Check(mat.Equal(m, before), "an input matrix was changed")
	// any other scores, such as log-odds: also without positive entries
	sc := mat.NewDense(r, k, nil)
	for i := 0; i < r; i++ {
		neg := R.IntN(2) == 0
		for q := 0; q < k; q++ {
			v := pick(R, R.NormFloat64()*5, float64(R.IntN(5)-2), -1e300, -1e-300, 1e300)
			if neg {
				v = -math.Abs(v)
			}
			sc.Set(i, q, v)
		}
	}
	cl = boo.ClassesFromProbs(sc)
	for i := 0; i < r; i++ {
		row, best := sc.RawRowView(i), 0
		for q, v := range row {
			if v > row[best] {
				best = q
			}
		}
		c.Check(cl.At(i, 0) == float64(best), "ClassesFromProbs: row %v gives %v", row, cl.At(i, 0))
		c.Count("score_rows", 1)
	}
	c.Count("probability_matrices", 1)
	c.Sig("%v", mat.Formatted(m))
}

// ---- C26: determinism ----

func c26twice(c *Case) {
	R := c.R
	xgb := R.IntN(2) == 0
	n, d := 3+R.IntN(30), 1+R.IntN(5)
	X := genX(R, n, d, -1)
	D := mkBunch(X, genLabels(R, X, 1+R.IntN(4)))
	o := genOptions(R, xgb, true)
	if R.IntN(2) == 0 {
		o.MaxDepth, o.MinChildWeight = 4, 1
	}
	if !xgb && R.IntN(2) == 0 {
		o.SubSample, o.ColSubSample = 0.4, 0.4 // ignored by regular boosting
	}
	M := boo.NewMultiClass(D, o)
	j := mustModel(c, M)
	ps := probes(R, D, j, 8)
	want := make([][]float64, len(ps))
	for i, x := range ps {
		want[i] = slices.Clone(M.PredictSingle(x))
	}
	other := func(r *rand.Rand) {
		E := genBunch(r, 3+r.IntN(20), d, 1+r.IntN(4))
		oo := genOptions(r, r.IntN(2) == 0, false)
		if r.IntN(3) == 0 {
			E, oo = &utils.DataBunch{Data: D.Data, Labels: genLabels(r, D.Data, 3), Keys: D.Keys}, oo.Clone()
		}
		N := boo.NewMultiClass(E, oo)
		N.Accuracy(E)
		N.FeatureImportance()
		if t, err := modelJSON(N); err == nil {
			if N2, err := reload(t); err == nil {
				N2.PredictSingle(ps[0])
			}
		}
	}
	check := func(what string) {
		D2, o2 := D, o
		if R.IntN(2) == 0 {
			D2, o2 = cloneBunch(D), o.Clone()
		}
		M2 := boo.NewMultiClass(D2, o2)
		c.Check(mustModel(c, M2).text == j.text, "%s: training again gives another model (%s)", what, describeOpts(o))
		c.Check(mustModel(c, M).text == j.text, "%s: the first model changed", what)
		for i, x := range ps {
			for _, q := range []*boo.MultiClass{M, M2} {
				c.Check(eqF(q.PredictSingle(x), want[i]), "%s: predicting again gives another result", what)
			}
			c.Count("repeated_predictions", 2)
		}
		c.Count("retrainings", 1)
	}
	check("at once")
	for i := R.IntN(3); i >= 0; i-- {
		other(R)
	}
	check("after other work")
	if R.IntN(3) == 0 {
		var wg sync.WaitGroup
		for g := 0; g < 3; g++ {
			r := rand.New(rand.NewPCG(R.Uint64(), 9))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 3; k++ {
					other(r)
				}
			}()
		}
		func() {
			defer wg.Wait()
			check("beside other work")
			check("beside other work")
		}()
		c.Count("concurrent_histories", 1)
	}
	// the same dataset and options values with other contents: nothing may be remembered of the former ones
	if R.IntN(2) == 0 {
		v := slices.Clone(D.Data[0])
		for r := 0; r < 1+R.IntN(3); r++ {
			switch R.IntN(4) {
			case 0:
				copy(D.Labels, genLabels(R, D.Data, 1+R.IntN(4)))
			case 1:
				R.Shuffle(n, func(a, b int) { D.Labels[a], D.Labels[b] = D.Labels[b], D.Labels[a] })
			case 2:
				for i, x := range genX(R, n, d, -1) {
					copy(D.Data[i], x)
				}
			case 3:
				o2 := genOptions(R, xgb, true)
				*o = *o2
			}
			a, b := boo.NewMultiClass(D, o), boo.NewMultiClass(cloneBunch(D), o.Clone())
			ja := mustModel(c, a)
			c.Check(ja.text == mustModel(c, b).text, "a dataset changed in place gives another model than a fresh copy of it (%s)", describeOpts(o))
			c.Check(close2(a.Accuracy(D), b.Accuracy(cloneBunch(D)), 0), "a dataset changed in place gives another accuracy than a fresh copy of it")
			for _, x := range probes(R, D, ja, 4) {
				copy(v, x)
				c.Check(eqF(a.PredictSingle(v), b.PredictSingle(slices.Clone(x))), "a reused vector gives another prediction than a fresh copy of it")
			}
			c.Count("changed_in_place", 1)
		}
	}
	nt := 0
	j.trees(func(_, _ int, t *Node) { nt += t.count() })
	c.Sig("%s n%d nodes%d", describeOpts(o), n, nt)
	c.Sample(map[string]any{"options": describeOpts(o), "rows": n, "nodes": nt})
}

func c26scale(c *Case) {
	R := c.R
	xgb := R.IntN(2) == 0
	n, d := 4+R.IntN(35), 1+R.IntN(5)
	D := genBunch(R, n, d, 2+R.IntN(3))
	o := genOptions(R, xgb, true)
	if R.IntN(2) == 0 {
		o.MaxDepth, o.MinChildWeight = 4, 1
	}
	M := boo.NewMultiClass(D, o)
	j := mustModel(c, M)
	f := make([]float64, d)
	for i := range f {
		f[i] = math.Ldexp(1, pick(R, 0, 1, -1, 7, -13, 30, -40))
	}
	sc := func(X [][]float64) [][]float64 {
		Y := cloneX(X)
		for i := range Y {
			for q := range Y[i] {
				Y[i][q] *= f[q]
			}
		}
		return Y
	}
	D2 := &utils.DataBunch{Data: sc(D.Data), Labels: D.Labels, Keys: D.Keys}
	M2 := boo.NewMultiClass(D2, o)
	// probes: rows, thresholds (and their neighbours), moderate random values: scaling is exact for all of these
	var ps [][]float64
	for _, x := range probes(R, D, j, 20) {
		ok := true
		for _, v := range x {
			if v != 0 && (math.Abs(v) > 1e100 || math.Abs(v) < 1e-100) {
				ok = false
			}
		}
		if ok {
			ps = append(ps, x)
		}
	}
	ps = append(ps, cloneX(D.Data)...)
	for i, x := range sc(ps) {
		a, b := slices.Clone(M.PredictSingle(ps[i])), M2.PredictSingle(x)
		c.Check(eqF(a, b), "features times %v: prediction for %v is %v instead of %v (%s)", f, ps[i], b, a, describeOpts(o))
		c.Count("scaled_predictions", 1)
	}
	c.Sig("%s %v %d", describeOpts(o), f, n)
}

// ---- C30: printing ----

func c30case(c *Case) {
	R := c.R
	xgb := R.IntN(2) == 0
	tc := genTree(c, xgb, R.IntN(2) == 0)
	t, root := tc.tree, tc.root
	d := len(tc.spec.X[0])
	var names []string
	nn := R.IntN(4)
	switch nn {
	case 1:
		names = genKeys(R.IntN(d + 1))
	case 2:
		names = genKeys(d)
	case 3:
		names = genKeys(d + 2)
	}
	for i := range names {
		if R.IntN(4) == 0 {
			names[i] = "a name " + strconv.Itoa(i)
		}
	}
	sp := pick(R, "", "  ", "      ")
	var s string
	if nn == 0 && R.IntN(2) == 0 {
		s = t.Print(sp)
	} else {
		s = t.Print(sp, names)
	}
	const split, leaf, mark = 0, 1, 2
	type ev struct {
		depth, kind int
		text        string
		rows        []int
	}
	var want []ev
	f3 := func(v float64) string { return fmt.Sprintf("%.3f", v) }
	var walk func(n *Node, dep int)
	walk = func(n *Node, dep int) {
		if n.L == nil {
			want = append(want, ev{dep, leaf, f3(n.Value), n.Samples})
			return
		}
		name := strconv.Itoa(n.SplitFeatureIndex)
		if n.SplitFeatureIndex < len(names) {
			name = names[n.SplitFeatureIndex]
		}
		want = append(want, ev{dep, split, name + " < " + f3(n.Threshold), nil}, ev{dep, mark, "True", nil})
		walk(n.L, dep+1)
		want = append(want, ev{dep, mark, "False", nil})
		walk(n.R, dep+1)
	}
	walk(root, 0)
	i := 0
	ind := map[[2]int]int{} // indentation by depth and kind
	for _, l := range strings.Split(s, "\n") {
		tr := strings.TrimLeft(l, " ")
		lead := len(l) - len(tr)
		var e ev
		switch {
		case strings.HasPrefix(tr, "Feature "):
			q := strings.LastIndex(tr, " < ")
			c.Check(q > 0, "line %q", l)
			e.text = strings.TrimSpace(tr[len("Feature "):q]) + " < " + strings.TrimSpace(tr[q+3:])
		case strings.HasPrefix(tr, "PREDICT"):
			fl := strings.Fields(tr)
			c.Check(len(fl) > 1, "line %q", l)
			e.kind, e.text = leaf, fl[1]
		case strings.HasPrefix(tr, "---> "):
			e.kind, e.text = mark, strings.TrimSpace(tr[5:])
		default:
			c.Check(tr == "", "unexpected line %q\n%s", l, s)
			continue
		}
		c.Check(i < len(want), "more lines than nodes:\n%s", s)
		w := want[i]
		c.Check(e.kind == w.kind && e.text == w.text, "event %d in pre-order is printed as %q, expected %q\n%s", i, tr, w.text, s)
		if w.kind == leaf && w.rows != nil {
			c.Check(strings.Contains(tr, fmt.Sprint(w.rows)), "leaf printed as %q, it holds the rows %v", tr, w.rows)
			c.Count("leaf_rows_printed", 1)
		}
		k := [2]int{w.depth, w.kind}
		if v, ok := ind[k]; ok {
			c.Check(v == lead, "nodes of depth %d are indented differently\n%s", w.depth, s)
		}
		ind[k] = lead
		i++
	}
	c.Check(i == len(want), "%d nodes printed of %d\n%s", i, len(want), s)
	for k, v := range ind {
		if u, ok := ind[[2]int{k[0] + 1, k[1]}]; ok {
			c.Check(u > v, "depth %d is not indented deeper than %d\n%s", k[0]+1, k[0], s)
		}
	}
	c.Count("nodes_printed", i)
	c.Count(fmt.Sprintf("names_%d", nn), 1)
	if i > 1 {
		c.Sig("%s", s)
	}
	if i > 1 && c.I < 50 {
		c.Sample(map[string]any{"printed": clip(s)})
	}
}

func init() {
	register(&Prop{ID: "C24", Rule: "random label and probability matrices (saturated, extreme and arbitrary values), plain or as views of larger ones, with and without a dirty destination (which can be a view too), methods of one loss object called in random order",
		Suites: []Suite{{"losses", 6000, 200000, false, c24case}},
		Floors: map[string]int64{"losses": 4000, "gradients": 8000, "hessians": 4000, "fresh_results": 8000, "input_views": 1000, "destination_views": 500}})
	register(&Prop{ID: "C25", Rule: "sorting (ties, adjacent floats, infinities, up to 500 values), sampling with repeated and permuted indexes, transposition, column access to matrices and views into larger ones (every element of the whole compared), probability helpers; inputs compared with snapshots",
		Suites: []Suite{{"sort", 4000, 100000, false, c25sort}, {"sample", 4000, 100000, false, c25sample}, {"columns", 4000, 100000, false, c25cols}, {"probabilities", 4000, 100000, false, c25probs}},
		Floors: map[string]int64{"sorts": 12000, "samplings": 3000, "columns": 9000, "views": 1500, "rejections": 20000, "log_odds": 8000, "probability_matrices": 3000}})
	register(&Prop{ID: "C26", Rule: "models trained again at once, after and beside other trainings, loads and predictions, compared byte for byte; trainings on features scaled by powers of two compared prediction by prediction",
		Suites: []Suite{{"again", 800, 20000, false, c26twice}, {"scaled", 2000, 50000, false, c26scale}},
		Floors: map[string]int64{"retrainings": 1500, "repeated_predictions": 20000, "concurrent_histories": 150, "scaled_predictions": 40000}})
	register(&Prop{ID: "C30", Rule: "random trees printed without names, with too few, all and too many; every line parsed and compared with the nodes in pre-order",
		Suites: []Suite{{"print", 5000, 150000, false, c30case}},
		Floors: map[string]int64{"nodes_printed": 15000, "names_0": 800, "names_1": 800, "names_2": 800, "names_3": 800}})
}
