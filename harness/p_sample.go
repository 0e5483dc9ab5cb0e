package main

import (
	"fmt"
	"math"
	"slices"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
)

// sigma returns how many standard deviations k successes in n trials of probability p are from the mean
func sigma(k, n int, p float64) float64 {
	sd := math.Sqrt(float64(n) * p * (1 - p))
	d := float64(k) - float64(n)*p
	if sd == 0 {
		return math.Abs(d) * 1e9
	}
	return math.Abs(d) / sd
}

// improbable tells whether the two-sided probability of k successes in n trials is below 1e-12
func improbable(k, n int, p float64) bool {
	if p <= 0 || p >= 1 {
		return (p <= 0 && k != 0) || (p >= 1 && k != n)
	}
	if float64(n)*p*(1-p) > 1000 {
		return sigma(k, n, p) > 7.5
	}
	pmf := binomPMF(n, p)
	lo, hi := 0.0, 0.0
	for i, v := range pmf {
		if i <= k {
			lo += v
		}
		if i >= k {
			hi += v
		}
	}
	return min(lo, hi) < 1e-12
}

// The library draws from the process-wide random source, so the draws differ from run to run. A false alarm
// needs a deviation of 7 standard deviations (p < 3e-12 each).
const nSigma = 7.0

func binomPMF(n int, p float64) []float64 {
	r := make([]float64, n+1)
	for k := range r {
		lg := func(x int) float64 { v, _ := math.Lgamma(float64(x) + 1); return v }
		r[k] = math.Exp(lg(n) - lg(k) - lg(n-k) + float64(k)*math.Log(p) + float64(n-k)*math.Log(1-p))
	}
	return r
}

func c08subsample(c *Case) {
	R := c.R
	n := 1 + R.IntN(60)
	p := pick(R, 1.0, 0.9, 0.5, 0.3, 0.05, R.Float64())
	draws := 1500
	if R.IntN(8) == 0 {
		n, draws = 100+R.IntN(1500), 400
		if R.IntN(6) == 0 {
			n, draws = 5000+R.IntN(20000), 200
			c.Count("large_draws", 200)
		}
	}
	cnt := make([]int, n)
	pair := 0
	sizes := 0
	var sq float64
	same := 0
	var prev []int
	for t := 0; t < draws; t++ {
		s := boo.SubSample(n, p)
		for i, v := range s {
			c.Check(v >= 0 && v < n && (i == 0 || s[i-1] < v), "SubSample(%d,%v) = %v", n, p, s)
			cnt[v]++
			if i > 0 && s[i-1] == v-1 {
				pair++
			}
		}
		if p == 1 {
			c.Check(len(s) == n, "SubSample(%d,1) has %d elements", n, len(s))
		}
		if t > 0 && slices.Equal(s, prev) {
			same++
		}
		prev = s
		sizes += len(s)
		dv := float64(len(s)) - float64(n)*p
		sq += dv * dv
		c.Count("draws", 1)
	}
	if p == 1 {
		c.Sig("n%d p1", n)
		return
	}
	for i, k := range cnt {
		c.Check(!improbable(k, draws, p), "SubSample(%d,%v): index %d drawn %d times out of %d", n, p, i, k, draws)
	}
	c.Check(!improbable(sizes, draws*n, p), "SubSample(%d,%v): %d elements in %d draws", n, p, sizes, draws)
	if n > 1 && p > 0.04 && p < 0.96 {
		// independence: adjacent pairs, and the variance of the size
		// the pairs within a draw overlap, which at most triples the variance of their number
		c.Check(sigma(pair, draws*(n-1), p*p) < nSigma*math.Sqrt(3), "SubSample(%d,%v): %d adjacent pairs in %d draws", n, p, pair, draws)
		v := sq / float64(draws) / (float64(n) * p * (1 - p))
		kurt := 2 + (1-6*p*(1-p))/(float64(n)*p*(1-p))
		c.Check(math.Abs(v-1) < 9*math.Sqrt(kurt/float64(draws)), "SubSample(%d,%v): the number drawn has %v times the variance of independent draws", n, p, v)
	}
	c.Sig("n%d p%.3f", n, p)
}

// probeLoss gives row i the gradient sign_i*2^i, so that -(sum of gradients) tells which rows a node was fitted on
func probeScript(D *utils.DataBunch, sign []float64) *scriptLoss {
	sl := newScript(D)
	n := len(D.Data)
	sl.Hess = func(m int) []float64 { return make([]float64, m) }
	sl.Grad = func(k, t int) []float64 {
		g := make([]float64, n)
		for i := range g {
			g[i] = sign[i] * math.Ldexp(1, i)
		}
		return g
	}
	return sl
}

func decodeRows(v float64, sign []float64) ([]int, bool) {
	if v != math.Trunc(v) || math.Abs(v) > math.Ldexp(1, 52) {
		return nil, false
	}
	s := int64(-v)
	var r []int
	for i := range sign {
		if s&(1<<i) != 0 {
			r = append(r, i)
			s -= int64(sign[i]) << i
		}
	}
	return r, s == 0
}

func c08rows(c *Case) {
	R := c.R
	n, d, K := 20+R.IntN(20), 3, 2+R.IntN(2)
	D := mkBunch(genX(R, n, d, 8), make([]int, n))
	sign := make([]float64, n)
	for i := range D.Labels {
		D.Labels[i] = 10 + i%K
		sign[i] = pick(R, 1.0, -1)
	}
	o := boo.DefaultXOptions()
	o.Lambda, o.Gamma, o.MinChildWeight, o.EarlyStop = 1, 0, 1, 0
	o.MaxDepth = R.IntN(5)
	o.Rounds = 100 + R.IntN(100)
	o.ColSubSample = pick(R, 1, 0.5)
	o.SubSample = pick(R, 0.3, 0.5, 0.8, 1)
	o.MinSample = pick(R, 1, 1, int(float64(n)*o.SubSample), int(float64(n)*o.SubSample)-2, int(float64(n)*o.SubSample)+2, n)
	xgb := R.IntN(6) > 0
	o.XGB = xgb
	if !xgb {
		o.SubSample = 0.5
	}
	sparse := xgb && R.IntN(6) == 0 // some draws are empty; those rounds are skipped even if no row is asked for
	if sparse {
		o.SubSample, o.MinSample = 0.05, pick(R, 0, 1, -3)
	}
	full := !xgb || o.SubSample == 1
	if full {
		o.MinSample = 1
	}
	sl := probeScript(D, sign)
	if !xgb {
		sl.Hess = func(m int) []float64 {
			h := make([]float64, m)
			for i := range h {
				h[i] = 1
			}
			return h
		}
	}
	o.Loss = sl
	M := boo.NewMultiClass(D, o)
	o.MinSample = max(o.MinSample, 1)
	j := mustModel(c, M)
	cnt := make([]int, n)
	sizes := map[int]int{}
	distinct := map[string]bool{}
	var drawn []string
	for r, cs := range j.Rounds {
		var first []int
		c.Check(len(cs) == K, "round %d has %d trees for %d classes", r, len(cs), K)
		for k := 0; k < K; k++ {
			t := cs[k]
			if !xgb {
				c.Check(t.Nsamples == n, "regular boosting: a tree was fitted on %d of %d rows", t.Nsamples, n)
				continue
			}
			var walk func(*Node) []int
			walk = func(t *Node) []int {
				rows, ok := decodeRows(t.Value, sign)
				c.Check(ok, "round %d class %d: value %v is no sum of the gradients of some rows", r, k, t.Value)
				c.Check(len(rows) == t.Nsamples, "round %d class %d: node fitted on %d rows, reports %d", r, k, len(rows), t.Nsamples)
				c.Count("decoded_nodes", 1)
				if t.L != nil {
					u := append(append([]int(nil), walk(t.L)...), walk(t.R)...)
					c.Check(sameSet(u, rows), "round %d class %d: children fitted on %v, node on %v", r, k, u, rows)
				}
				return rows
			}
			rows := walk(t)
			if k == 0 {
				first = rows
			} else {
				c.Check(sameSet(rows, first), "round %d: classes fitted on different rows %v and %v", r, first, rows)
			}
		}
		if xgb {
			c.Check(len(first) >= o.MinSample && len(first) > 0, "round %d fitted on %d rows, MinSample %d", r, len(first), o.MinSample)
			for _, v := range first {
				cnt[v]++
			}
			sizes[len(first)]++
			distinct[fmt.Sprint(first)] = true
			drawn = append(drawn, fmt.Sprint(first))
		}
	}
	got := len(j.Rounds)
	c.Count("rounds", got)
	if full {
		c.Check(got == o.Rounds, "%d rounds instead of %d", got, o.Rounds)
		if xgb {
			c.Check(sizes[n] == got, "all rows requested, sizes %v of %d", sizes, n)
		}
		c.Sig("full n%d", n)
		return
	}
	pmf := binomPMF(n, o.SubSample)
	tail := 0.0
	for k := o.MinSample; k <= n; k++ {
		tail += pmf[k]
	}
	exp := float64(o.Rounds) * tail
	c.Check(got <= o.Rounds && (tail > 1-1e-14 && got >= o.Rounds-1 || !improbable(got, o.Rounds, min(tail, 1))), "%d of %d rounds were kept; %.1f draws of at least %d out of %d rows are expected (sampling %v)", got, o.Rounds, exp, o.MinSample, n, o.SubSample)
	if o.MinSample <= 2 && !sparse {
		for i, k := range cnt {
			c.Check(!improbable(k, got, o.SubSample), "row %d used in %d of %d rounds, sampling %v", i, k, got, o.SubSample)
		}
		c.Check(float64(len(distinct)) > 0.8*float64(got), "only %d different draws in %d rounds", len(distinct), got)
		// an independent draw equals an earlier one with probability below 5e-4
		for lag := 1; lag <= 12; lag++ {
			rep := 0
			for i := lag; i < len(drawn); i++ {
				if drawn[i] == drawn[i-lag] {
					rep++
				}
			}
			c.Check(rep <= 8, "%d of %d rounds use exactly the rows drawn %d rounds before", rep, got, lag)
		}
		c.Count("free_runs", 1)
	} else if got > 0 {
		// the boundary size must occur as often as its probability says
		q := pmf[o.MinSample] / tail
		c.Check(!improbable(sizes[o.MinSample], got, q), "%d of %d rounds used exactly MinSample=%d rows, %.1f expected", sizes[o.MinSample], got, o.MinSample, q*float64(got))
		c.Count("boundary_runs", 1)
		if sparse {
			c.Count("sparse_runs", 1)
		}
	}
	c.Count("skipped_rounds", o.Rounds-got)
	c.Sig("n%d ss%v ms%d d%d", n, o.SubSample, o.MinSample, o.MaxDepth)
	c.Sample(map[string]any{"rows": n, "SubSample": o.SubSample, "MinSample": o.MinSample, "rounds_asked": o.Rounds, "rounds_kept": got})
}

// more rows than one value can encode: class k's gradients encode the k-th block of rows
func c08bigrows(c *Case) {
	R := c.R
	const block = 45
	K := 3 + R.IntN(4)
	n := block*(K-1) + 1 + R.IntN(block)
	D := mkBunch(genX(R, n, 2, 8), make([]int, n))
	sign := make([]float64, n)
	for i := range D.Labels {
		D.Labels[i] = i % K
		sign[i] = pick(R, 1.0, -1)
	}
	o := boo.DefaultXOptions()
	o.Lambda, o.Gamma, o.MinChildWeight, o.EarlyStop, o.MinSample = 1, 0, 1, 0, 1
	o.MaxDepth = R.IntN(3)
	o.Rounds = 60
	o.SubSample = pick(R, 0.3, 0.5, 0.8)
	if R.IntN(3) == 0 {
		o.MinSample = int(float64(n) * o.SubSample)
	}
	sl := newScript(D)
	sl.Hess = func(m int) []float64 { return make([]float64, m) }
	sl.Grad = func(k, t int) []float64 {
		g := make([]float64, n)
		for i := k * block; i < n && i < (k+1)*block; i++ {
			g[i] = sign[i] * math.Ldexp(1, i-k*block)
		}
		return g
	}
	o.Loss = sl
	j := mustModel(c, boo.NewMultiClass(D, o))
	cnt := make([]int, n)
	tot := 0
	for r, cs := range j.Rounds {
		c.Check(len(cs) == K, "round %d has %d trees for %d classes", r, len(cs), K)
		size := 0
		for k := 0; k < K; k++ {
			lo, hi := k*block, min(n, (k+1)*block)
			rows, ok := decodeRows(cs[k].Value, sign[lo:hi])
			c.Check(ok, "round %d class %d: value %v is no sum of the gradients of some rows", r, k, cs[k].Value)
			size += len(rows)
			for _, v := range rows {
				cnt[lo+v]++
			}
			c.Check(cs[k].Nsamples == cs[0].Nsamples, "round %d: classes fitted on %d and %d rows", r, cs[0].Nsamples, cs[k].Nsamples)
			c.Count("decoded_nodes", 1)
		}
		c.Check(size == cs[0].Nsamples, "round %d: fitted on %d rows, reports %d", r, size, cs[0].Nsamples)
		c.Check(size >= o.MinSample, "round %d fitted on %d rows, MinSample %d", r, size, o.MinSample)
		tot += size
	}
	got := len(j.Rounds)
	c.Count("big_rounds", got)
	if o.MinSample == 1 {
		c.Check(got == o.Rounds, "%d rounds instead of %d", got, o.Rounds)
		for i, k := range cnt {
			c.Check(!improbable(k, got, o.SubSample), "row %d used in %d of %d rounds, sampling %v", i, k, got, o.SubSample)
		}
		c.Check(!improbable(tot, got*n, o.SubSample), "%d rows used in %d rounds with %d rows, sampling %v", tot, got, n, o.SubSample)
	}
	c.Sig("big n%d ss%v ms%d", n, o.SubSample, o.MinSample)
}

func c08cols(c *Case) {
	R := c.R
	n, F, K := 64, 40+R.IntN(21), 4
	wideData := R.IntN(3) == 0
	if wideData {
		F = 90 + R.IntN(120)
	}
	X := genX(R, n, F, 0)
	D := mkBunch(X, make([]int, n))
	for i := range D.Labels {
		D.Labels[i] = i % K
	}
	xgb := R.IntN(5) > 0
	o := boo.DefaultXOptions()
	o.XGB = xgb
	o.Lambda, o.Gamma, o.MinChildWeight, o.EarlyStop = 0.1, 0, 1, 0
	o.MaxDepth = 9
	o.Rounds = 60
	o.SubSample = pick(R, 1, 0.9)
	o.ColSubSample = pick(R, 0.1, 0.15, 0.2)
	if wideData {
		o.ColSubSample = pick(R, 0.05, 0.07)
		c.Count("wide_data", 1)
	}
	many := xgb && c.I%9 == 4 // enough rounds for every column to be drawn
	if many {
		o.ColSubSample, o.Rounds = 0.2, 400
		if wideData {
			o.ColSubSample, o.Rounds = 0.07, 600
		}
		c.Count("long_column_draws", 1)
	}
	sl := newScript(D)
	sl.Hess = func(m int) []float64 {
		h := make([]float64, m)
		for i := range h {
			h[i] = 1
		}
		return h
	}
	rr := R
	sl.Grad = func(k, t int) []float64 {
		g := make([]float64, n)
		for i := range g {
			g[i] = rr.NormFloat64()
		}
		return g
	}
	o.Loss = sl
	M := boo.NewMultiClass(D, o)
	j := mustModel(c, M)
	use := make([]int, F)
	sizes, wide, nonroot := 0, 0, 0
	var sets []string
	var lists [][]int
	for _, cs := range j.Rounds {
		u := map[int]bool{}
		splits := 0
		for k := 0; k < K; k++ {
			cs[k].walk(func(t *Node, dpt int) {
				if t.L != nil {
					u[t.SplitFeatureIndex] = true
					splits++
					if dpt > 0 {
						nonroot++
					}
				}
			}, 0)
		}
		c.Check(splits > 60, "only %d splits: the workload does not reach the columns", splits)
		for f := range u {
			use[f]++
		}
		sizes += len(u)
		if float64(len(u)) > float64(F)*o.ColSubSample+6.5*math.Sqrt(float64(F)*o.ColSubSample)+1 {
			wide++
		}
		var s []int
		for f := range u {
			s = append(s, f)
		}
		slices.Sort(s)
		sets = append(sets, fmt.Sprint(s))
		lists = append(lists, s)
	}
	rounds := len(j.Rounds)
	c.Check(rounds == o.Rounds, "%d rounds instead of %d", rounds, o.Rounds)
	c.Count("col_rounds", rounds)
	c.Count("deep_splits", nonroot)
	mean := float64(sizes) / float64(rounds)
	if !xgb {
		c.Check(mean > 0.3*float64(F), "regular boosting used only %.1f of %d columns per round", mean, F)
		return
	}
	// an empty draw (probability (1-p)^F, at most 1.5%% here) means all columns
	pe := math.Pow(1-o.ColSubSample, float64(F))
	c.Check(float64(wide) <= float64(rounds)*pe+8*math.Sqrt(float64(rounds)*pe)+3, "%d of %d rounds split on far more columns than drawn with ColSubSample %v of %d", wide, rounds, o.ColSubSample, F)
	exp := float64(F) * o.ColSubSample
	c.Check(math.Abs(mean-exp) < 0.25*exp+float64(F)*(pe+float64(wide)/float64(rounds))+nSigma*math.Sqrt(exp/float64(rounds)), "%.2f columns used per round, %.2f expected", mean, exp)
	for f, k := range use {
		c.Check(float64(k) < float64(rounds)*o.ColSubSample+8*math.Sqrt(float64(rounds)*o.ColSubSample)+float64(wide)+1, "column %d used in %d of %d rounds with ColSubSample %v", f, k, rounds, o.ColSubSample)
		if many { // below 1e-9 for columns drawn as they should be
			c.Check(float64(k) > 0.1*float64(rounds)*o.ColSubSample, "column %d of %d used in %d of %d rounds with ColSubSample %v", f, F, k, rounds, o.ColSubSample)
		}
	}
	// every fifth of the columns gets its part
	for q := 0; q < 5; q++ {
		got, lo, hi := 0, q*F/5, (q+1)*F/5
		for _, k := range use[lo:hi] {
			got += k
		}
		exp := float64((hi-lo)*rounds) * o.ColSubSample
		c.Check(float64(got) > 0.7*exp-nSigma*math.Sqrt(exp), "columns %d to %d were used %d times in %d rounds, drawn about %.0f times", lo, hi-1, got, rounds, exp)
	}
	ds := map[string]bool{}
	for _, s := range sets {
		ds[s] = true
	}
	c.Check(len(ds) > rounds*7/10, "only %d different column sets in %d rounds", len(ds), rounds)
	// an independent draw of 6 or more columns has 80% of them in common with another with probability below 0.002
	for lag := 1; lag <= 8; lag++ {
		rep := 0
		for i := lag; i < len(lists); i++ {
			a, b := lists[i], lists[i-lag]
			if min(len(a), len(b)) < 6 || max(len(a), len(b)) > F/2 {
				continue
			}
			both := 0
			for _, f := range a {
				if slices.Contains(b, f) {
					both++
				}
			}
			if both*10 >= min(len(a), len(b))*8 {
				rep++
			}
		}
		c.Check(rep <= 6+rounds/50, "%d of %d rounds use the columns drawn %d rounds before", rep, rounds, lag)
	}
	c.Sig("F%d css%v %v", F, o.ColSubSample, sets[0])
	c.Sample(map[string]any{"columns": F, "ColSubSample": o.ColSubSample, "columns_per_round": mean})
}

// Column k separates the gradients of class k, so class k's root splits on k iff column k was drawn; the gradients of
// the last class tell the rows drawn. Empty draws (all columns) are frequent here.
// ambiguous tells whether, on the given rows, the signs of some column's class can be separated by another column or not
// at all: then the tree of that class does not show which columns it could use
func ambiguous(X [][]float64, rows []int, F int) bool {
	for k := 0; k < F; k++ {
		for j := 0; j < F; j++ {
			lo, hi := [2]float64{math.Inf(1), math.Inf(1)}, [2]float64{math.Inf(-1), math.Inf(-1)}
			for _, i := range rows {
				s := 0
				if X[i][k] > 0.5 {
					s = 1
				}
				lo[s], hi[s] = math.Min(lo[s], X[i][j]), math.Max(hi[s], X[i][j])
			}
			if math.IsInf(lo[0], 0) || math.IsInf(lo[1], 0) || j != k && (hi[0] <= lo[1] || hi[1] <= lo[0]) {
				return true
			}
		}
	}
	return false
}

func c08fewcols(c *Case) {
	R := c.R
	n, F := 36+R.IntN(10), 1+R.IntN(6)
	X := make([][]float64, n)
	for i := range X {
		X[i] = make([]float64, F)
		for f := range X[i] {
			X[i][f] = float64(R.IntN(2)) + 0.01*R.Float64()
		}
	}
	D := mkBunch(X, make([]int, n))
	sign := make([]float64, n)
	for i := range D.Labels {
		D.Labels[i] = i % (F + 1)
		sign[i] = pick(R, 1.0, -1)
	}
	o := boo.DefaultXOptions()
	o.Lambda, o.Gamma, o.MinChildWeight, o.EarlyStop, o.MinSample, o.MaxDepth = 1, 0, 1, 0, 1, 1
	o.Rounds = 150
	p := pick(R, 0.15, 0.3, 0.5, 0.7)
	o.ColSubSample = p
	o.SubSample = pick(R, 1, 0.7, p)
	if o.SubSample < 0.5 {
		o.SubSample = 0.7
		if p == 0.15 {
			p = 0.7
			o.ColSubSample = p
		}
	}
	sl := newScript(D)
	sl.Hess = func(m int) []float64 { return make([]float64, m) }
	sl.Grad = func(k, t int) []float64 {
		g := make([]float64, n)
		for i := range g {
			switch {
			case k == F:
				g[i] = sign[i] * math.Ldexp(1, i)
			case X[i][k] > 0.5:
				g[i] = 1
			default:
				g[i] = -1
			}
		}
		return g
	}
	o.Loss = sl
	var seen [2][]string
	pin := p + math.Pow(1-p, float64(F))
	if F == 1 {
		pin = 1
	}
	for rep := range seen {
		j := mustModel(c, boo.NewMultiClass(D, o))
		got := len(j.Rounds)
		c.Check(got == o.Rounds, "%d rounds instead of %d", got, o.Rounds)
		cnt := make([]int, F)
		all, aligned, trials := 0, 0, 0
		clear := 0
		for r, cs := range j.Rounds {
			c.Check(len(cs) == F+1, "round %d has %d trees for %d classes", r, len(cs), F+1)
			rows, ok := decodeRows(cs[F].Value, sign)
			c.Check(ok && len(rows) == cs[F].Nsamples, "round %d: value %v is no sum of the gradients of %d rows", r, cs[F].Value, cs[F].Nsamples)
			if ambiguous(X, rows, F) {
				c.Count("ambiguous_rounds", 1)
				continue
			}
			clear++
			in := map[int]bool{}
			for k := 0; k < F; k++ {
				if cs[k].L != nil && cs[k].SplitFeatureIndex == k {
					in[k] = true
					cnt[k]++
				}
			}
			for k := 0; k < F; k++ {
				c.Check(cs[k].L == nil || in[cs[k].SplitFeatureIndex], "round %d: class %d splits on column %d, which class %d could not use (columns drawn: %v)", r, k, cs[k].SplitFeatureIndex, cs[k].SplitFeatureIndex, in)
			}
			if len(in) == F {
				all++
			}
			for k := 0; k < F; k++ {
				trials++
				if in[k] == slices.Contains(rows, k) {
					aligned++
				}
			}
			seen[rep] = append(seen[rep], fmt.Sprint(r, in, rows))
			c.Count("few_col_rounds", 1)
		}
		got = clear
		for k, v := range cnt {
			c.Check(!improbable(v, got, pin), "column %d of %d usable in %d of %d rounds, ColSubSample %v (an empty draw means all columns)", k, F, v, got, p)
		}
		pall := math.Pow(p, float64(F)) + math.Pow(1-p, float64(F))
		if F > 1 {
			c.Check(!improbable(all, got, pall), "all %d columns usable in %d of %d rounds, ColSubSample %v (an empty draw means all columns)", F, all, got, p)
		}
		if o.SubSample < 1 && F > 1 {
			// row k and column k are drawn independently of each other; within a round the trials are not, so wider
			q := o.SubSample*pin + (1-o.SubSample)*(1-pin)
			c.Check(sigma(aligned, trials, q) < nSigma*math.Sqrt(float64(F)), "row k and column k agree in %d of %d draws, %.0f expected", aligned, trials, q*float64(trials))
		}
	}
	if F > 2 || o.SubSample < 1 {
		same := 0
		for _, v := range seen[0] {
			if slices.Contains(seen[1], v) { // the same round, columns and rows
				same++
			}
		}
		c.Check(same < len(seen[0]) || same == 0, "two trainings made exactly the same draws")
		if o.SubSample < 1 {
			// 36 or more rows: equal with probability below 1e-8
			c.Check(same <= 2, "two trainings made the same draws in %d of %d rounds", same, len(seen[0]))
		}
		c.Count("training_pairs", 1)
	}
	c.Sig("few F%d p%v ss%v n%d", F, p, o.SubSample, n)
}

// everything is used when no subsampling is asked for, and always in regular boosting
func c08full(c *Case) {
	R := c.R
	n, d := 6+R.IntN(20), 2+R.IntN(6)
	D := genBunch(R, n, d, 3)
	xgb := R.IntN(3) > 0
	o := genOptions(R, xgb, true)
	o.EarlyStop, o.MinSample = 0, 1
	o.Lambda = pick(R, 0.5, 1, 2)
	if !xgb {
		o.SubSample, o.ColSubSample = pick(R, 0.2, 0.5, 1), pick(R, 0.2, 0.5, 1)
	}
	rec := &recLoss{L: o.Loss}
	o.Loss = rec
	j := mustModel(c, boo.NewMultiClass(D, o))
	st := rec.steps()
	s := &treeSpec{X: D.Data, XGB: xgb, MaxDepth: o.MaxDepth, MCW: o.MinChildWeight, Lambda: o.Lambda, Gamma: o.Gamma, Newton: true, Fit: true}
	i := 0
	j.trees(func(r, k int, t *Node) {
		c.Check(i < len(st), "more trees than gradient evaluations")
		s.G, s.H, s.Y = st[i].G.Out, st[i].H.Out, st[i].G.Out
		s.judge(c, t, seq(n), 0)
		i++
		c.Count("full_trees", 1)
	})
	c.Check(len(j.Rounds) == o.Rounds, "%d rounds instead of %d", len(j.Rounds), o.Rounds)
	c.Sig("%s n%d d%d", describeOpts(o), n, d)
}

func init() {
	register(&Prop{ID: "C08", Rule: "SubSample(n,p) drawn 1500 times per case, per-index, pair and size statistics (7-sigma bounds); whole xgboost trainings with gradients +-2^i per row, so every node value decodes to the exact set of rows it was fitted on; trainings on 40-60 columns whose trees have >40 splits per round, so that the columns used reveal the columns drawn; trainings where the root of class k splits on column k iff it was drawn, which reveals the exact column and row draws, twice each",
		Suites: []Suite{{"subsample", 300, 6000, false, c08subsample}, {"rows", 300, 6000, false, c08rows}, {"bigrows", 60, 1500, false, c08bigrows}, {"cols", 60, 1500, false, c08cols}, {"fewcols", 120, 3000, false, c08fewcols}, {"full", 600, 15000, false, c08full}},
		Floors: map[string]int64{"draws": 300000, "decoded_nodes": 50000, "rounds": 10000, "skipped_rounds": 2000, "col_rounds": 2000, "few_col_rounds": 20000, "training_pairs": 50, "full_trees": 3000, "free_runs": 30, "big_rounds": 1000, "boundary_runs": 60},
		Assume: []string{"draws use the process-wide random source; statistical bounds are at 7 standard deviations or wider"}})
}
