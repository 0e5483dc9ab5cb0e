package main

import (
	"fmt"
	"math"
	"slices"

	"github.com/rmera/boo/utils"
)

func c14case(c *Case) {
	R := c.R
	tot := R.IntN(40)
	if R.IntN(3) == 0 {
		tot = R.IntN(9)
	}
	if R.IntN(100) == 0 {
		tot = 40 + R.IntN(400)
		if R.IntN(4) == 0 {
			tot = 600 + R.IntN(2200)
		}
		c.Count("large_datasets", 1)
	}
	nfold := pick(R, 0, -1, -7, 2, 3, 5, 5, 2+R.IntN(12), 2+R.IntN(50), tot, tot/2, tot/2+1, 1)
	if tot >= 600 && nfold > 60 && R.IntN(8) > 0 {
		nfold = 2 + R.IntN(59)
	}
	labelled := R.IntN(5) > 0
	keyed := R.IntN(4) > 0
	D := &utils.DataBunch{}
	for i := 0; i < tot; i++ {
		D.Data = append(D.Data, []float64{float64(i), float64(i) * 0.5, 3})
		if labelled {
			D.Labels = append(D.Labels, 7*i+3)
		}
	}
	if keyed {
		D.Keys = []string{"id", "half", "three"}
	}
	docopy := R.IntN(2) == 0
	var n int
	var next func() (*utils.DataBunch, *utils.DataBunch)
	var err error
	if docopy || R.IntN(2) == 0 {
		n, next, err = utils.CrossValidationSamples(D, nfold, docopy)
	} else {
		n, next, err = utils.CrossValidationSamples(D, nfold)
	}
	c.Count("calls", 1)
	want := nfold
	if want <= 0 {
		want = 5
	}
	req := want
	want = min(want, tot/2)
	if nfold == 1 || want < 2 {
		c.Check(n == 0 && err != nil, "%d folds of %d samples: got %d folds, error %v", nfold, tot, n, err)
		c.Count("impossible", 1)
		return
	}
	c.Check(n == want, "%d folds of %d samples requested: got %d, expected %d", nfold, tot, n, want)
	c.Check((err != nil) == (want < req), "%d folds of %d samples: got %d with error %v", nfold, tot, n, err)
	if want < req {
		c.Count("reduced", 1)
	}
	ori := cloneX(D.Data)
	olab := slices.Clone(D.Labels)
	okey := slices.Clone(D.Keys)
	ids := func(B *utils.DataBunch, what string) []int {
		c.Check(B != nil, "%s set is nil", what)
		var r []int
		for i, row := range B.Data {
			c.Check(len(row) == 3 && row[0] == math.Trunc(row[0]) && row[1] == row[0]/2 && row[2] == 3 && row[0] >= 0 && int(row[0]) < tot, "%s set: row %v is not in the dataset", what, row)
			id := int(row[0])
			r = append(r, id)
			if labelled {
				c.Check(len(B.Labels) == len(B.Data) && B.Labels[i] == 7*id+3, "%s set: sample %d has lost its label: %v", what, id, B.Labels)
			} else {
				c.Check(len(B.Labels) == 0, "%s set has labels %v, the dataset none", what, B.Labels)
			}
		}
		if keyed {
			c.Check(slices.Equal(B.Keys, okey), "%s set: feature names %v", what, B.Keys)
		}
		return r
	}
	seen := map[int]int{}
	type fold struct {
		train, test *utils.DataBunch
		tr, te      []int
	}
	var all []fold
	for f := 0; f < n; f++ {
		train, test := next()
		te, tr := ids(test, "test"), ids(train, "train")
		c.Check(len(te) >= 2, "fold %d of %d tests %d samples", f, n, len(te))
		in := map[int]bool{}
		for _, v := range te {
			c.Check(!in[v], "fold %d tests sample %d twice", f, v)
			in[v] = true
			seen[v]++
		}
		it := map[int]bool{}
		for _, v := range tr {
			c.Check(!it[v], "fold %d trains on sample %d twice", f, v)
			c.Check(!in[v], "fold %d trains on sample %d, which it tests", f, v)
			it[v] = true
		}
		c.Check(len(te)+len(tr) == tot, "fold %d: %d test and %d train samples of %d", f, len(te), len(tr), tot)
		c.Count("folds", 1)
		if !docopy {
			all = append(all, fold{train, test, tr, te})
		}
		if docopy {
			for _, B := range []*utils.DataBunch{train, test} {
				for i := range B.Data {
					for k := range B.Data[i] {
						B.Data[i][k] = -1e9
					}
				}
				for i := range B.Labels {
					B.Labels[i] = -77
				}
				for i := range B.Keys {
					B.Keys[i] = "changed"
				}
			}
			for i := range ori {
				c.Check(eqF(ori[i], D.Data[i]), "changing a fold changed the original data")
			}
			c.Check(slices.Equal(olab, D.Labels) && slices.Equal(okey, D.Keys), "changing a fold changed the original labels or names")
			c.Count("copies_scribbled", 1)
		}
	}
	for i := 0; i < tot; i++ {
		c.Check(seen[i] == 1, "sample %d is tested %d times in %d folds of %d samples", i, seen[i], n, tot)
	}
	for f, v := range all { // a fold stays as delivered when the following ones are drawn
		c.Check(slices.Equal(ids(v.test, "test"), v.te) && slices.Equal(ids(v.train, "train"), v.tr), "fold %d changed when the following folds were drawn", f)
		c.Count("folds_revisited", 1)
	}
	for i := 0; i < 3; i++ {
		a, b := next()
		c.Check(a == nil && b == nil, "more than %d folds delivered", n)
	}
	c.Sig("tot%d n%d copy%v lab%v", tot, n, docopy, labelled)
	c.Sample(map[string]any{"samples": tot, "requested": nfold, "folds": n, "copies": docopy})
}

// the assignment to folds is drawn anew, uniformly, on every call
func c14random(c *Case) {
	R := c.R
	tot := 6 + R.IntN(40)
	if R.IntN(40) == 0 {
		tot = pick(R, 120, 300, 520, 800)
		c.Count("large_random", 1)
	}
	nfold := min(2+R.IntN(6), tot/2)
	D := &utils.DataBunch{}
	for i := 0; i < tot; i++ {
		D.Data = append(D.Data, []float64{float64(i)})
		D.Labels = append(D.Labels, i)
	}
	const calls = 300
	in := make([][]int, nfold) // [fold][sample]
	size := make([]int, nfold)
	for f := range in {
		in[f] = make([]int, tot)
	}
	together := 0
	parts := map[string]bool{}
	pairs := 0.0
	for t := 0; t < calls; t++ {
		n, next, err := utils.CrossValidationSamples(D, nfold, R.IntN(2) == 0)
		c.Check(n == nfold && err == nil, "%d folds of %d samples: %d, %v", nfold, tot, n, err)
		fold := make([]int, tot)
		for f := 0; f < n; f++ {
			_, test := next()
			for _, row := range test.Data {
				in[f][int(row[0])]++
				fold[int(row[0])] = f
			}
			size[f] += len(test.Data)
			pairs += float64(len(test.Data)*(len(test.Data)-1)) / float64(tot*(tot-1))
		}
		for i := 1; i < tot; i++ {
			if fold[i] == fold[i-1] {
				together++
			}
		}
		parts[fmt.Sprint(fold)] = true
		c.Count("random_calls", 1)
	}
	for f := range in {
		if size[f]%calls != 0 {
			continue // folds of varying size
		}
		p := float64(size[f]) / calls / float64(tot)
		for i, k := range in[f] {
			c.Check(!improbable(k, calls, p), "sample %d of %d is in fold %d of %d in %d of %d calls, %.1f expected", i, tot, f, nfold, k, calls, p*calls)
		}
	}
	// neighbours share a fold as often as any two samples; the pairs of a call overlap, hence the wider bound
	p := pairs / calls
	c.Check(sigma(together, calls*(tot-1), p) < nSigma*2, "neighbouring samples share a fold %d times in %d calls, %.0f expected (%d folds of %d samples)", together, calls, p*float64(calls*(tot-1)), nfold, tot)
	if tot >= 10 {
		c.Check(len(parts) > calls/2, "only %d different partitions in %d calls (%d folds of %d samples)", len(parts), calls, nfold, tot)
	}
	c.Sig("random tot%d n%d", tot, nfold)
}

func init() {
	register(&Prop{ID: "C14", Rule: "datasets of 0-39 (1%: up to 440) samples whose rows and labels encode their identity, requested folds from -7 to beyond the number of samples, with and without copies, labels and names; folds are scribbled over when copies were requested",
		Suites: []Suite{{"random", 60, 1500, false, c14random}, {"folds", 20000, 500000, false, c14case}},
		Floors: map[string]int64{"folds": 20000, "reduced": 1000, "impossible": 1000, "copies_scribbled": 8000}})
}
