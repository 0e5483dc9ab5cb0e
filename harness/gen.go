package main

import (
	"fmt"
	"math"
	"math/rand/v2"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
)

const nKinds = 10

// one column of n finite values of the given kind
func genCol(R *rand.Rand, n, kind int) []float64 {
	c := make([]float64, n)
	switch kind {
	case 0: // smooth
		for i := range c {
			c[i] = R.NormFloat64()
		}
	case 1: // ties
		k := 1 + R.IntN(5)
		for i := range c {
			c[i] = float64(R.IntN(k) - k/2)
		}
	case 2: // adjacent floats
		b := R.NormFloat64() * math.Pow(10, float64(R.IntN(9)-4))
		steps := 1 + R.IntN(6)
		for i := range c {
			v := b
			for s := R.IntN(steps + 1); s > 0; s-- {
				v = math.Nextafter(v, math.Inf(1))
			}
			c[i] = v
		}
	case 3: // huge, sums overflow
		for i := range c {
			c[i] = (R.Float64()*0.3 + 0.7) * math.MaxFloat64
			if R.IntN(2) == 0 {
				c[i] = -c[i]
			}
			if R.IntN(8) == 0 {
				c[i] = math.MaxFloat64
			}
		}
		if R.IntN(2) == 0 {
			for i := range c {
				c[i] = math.Abs(c[i])
			}
		}
	case 4: // denormals
		for i := range c {
			c[i] = math.Float64frombits(uint64(R.IntN(12)))
			if R.IntN(2) == 0 {
				c[i] = -c[i]
			}
		}
	case 5: // constant
		v := R.NormFloat64()
		for i := range c {
			c[i] = v
		}
	case 6: // binary
		for i := range c {
			c[i] = float64(R.IntN(2))
		}
	case 7: // wide exponents
		for i := range c {
			c[i] = R.NormFloat64() * math.Pow(10, float64(R.IntN(500)-250))
		}
	case 8: // distinct integers, shuffled
		for i, v := range R.Perm(n) {
			c[i] = float64(v)
		}
	case 9: // one outlier / one-vs-rest
		v := R.NormFloat64()
		for i := range c {
			c[i] = v
		}
		c[R.IntN(n)] = v + 1
	}
	return c
}

// genX returns an n x d matrix; mode <0 mixes column kinds at random.
func genX(R *rand.Rand, n, d, mode int) [][]float64 {
	X := make([][]float64, n)
	for i := range X {
		X[i] = make([]float64, d)
	}
	for j := 0; j < d; j++ {
		k := mode
		if k < 0 {
			k = R.IntN(nKinds)
		}
		for i, v := range genCol(R, n, k) {
			X[i][j] = v
		}
	}
	return X
}

// tame kinds only (for training workloads where the values are not the point)
func genTameX(R *rand.Rand, n, d int) [][]float64 {
	tame := []int{0, 0, 1, 6, 8, 9, 5}
	X := make([][]float64, n)
	for i := range X {
		X[i] = make([]float64, d)
	}
	for j := 0; j < d; j++ {
		for i, v := range genCol(R, n, tame[R.IntN(len(tame))]) {
			X[i][j] = v
		}
	}
	return X
}

// labelNames gives K distinct ints in one of several styles
func labelNames(R *rand.Rand, K int) []int {
	r := make([]int, K)
	st := R.IntN(6)
	seen := map[int]bool{}
	for i := range r {
		for {
			switch st {
			case 0:
				r[i] = i
			case 1:
				r[i] = i + 1
			case 2:
				r[i] = R.IntN(21) - 10
				if K > 20 {
					r[i] = R.IntN(10*K) - 5*K
				}
			case 3:
				r[i] = int(R.Int64N(1<<50) - 1<<49)
			case 4: // labels that no float64 tells apart
				r[i] = math.MaxInt - i
				if i%2 == 1 {
					r[i] = math.MinInt + i - 1
				}
			default: // equal in their last bits
				r[i] = 3 + i<<pick(R, 8, 16, 31, 32)
			}
			if !seen[r[i]] {
				break
			}
		}
		seen[r[i]] = true
	}
	R.Shuffle(K, func(i, j int) { r[i], r[j] = r[j], r[i] })
	return r
}

// genLabels returns n labels over at most K names; style 0 random, 1 threshold on a feature, 2 mix, 3 imbalanced
func genLabels(R *rand.Rand, X [][]float64, K int) []int {
	n := len(X)
	names := labelNames(R, K)
	y := make([]int, n)
	st := R.IntN(4)
	f := R.IntN(len(X[0]))
	srt := make([]float64, n)
	for i := range X {
		srt[i] = X[i][f]
	}
	for i := range y {
		rank := 0
		for j := range srt {
			if srt[j] < X[i][f] {
				rank++
			}
		}
		k := rank * K / n
		switch st {
		case 0:
			k = R.IntN(K)
		case 2:
			if R.IntN(4) == 0 {
				k = R.IntN(K)
			}
		case 3:
			k = 0
			if R.IntN(5) == 0 {
				k = R.IntN(K)
			}
		}
		y[i] = names[k]
	}
	return y
}

func genKeys(d int) []string {
	k := make([]string, d)
	for i := range k {
		k[i] = fmt.Sprintf("feat%d", i)
	}
	return k
}

func genBunch(R *rand.Rand, n, d, K int) *utils.DataBunch {
	X := genTameX(R, n, d)
	return &utils.DataBunch{Data: X, Labels: genLabels(R, X, K), Keys: genKeys(d)}
}

func pick[T any](R *rand.Rand, v ...T) T { return v[R.IntN(len(v))] }

// genOptions draws boosting options; det forbids row/column subsampling
func genOptions(R *rand.Rand, xgb, det bool) *boo.Options {
	o := boo.DefaultXOptions()
	if !xgb {
		o = boo.DefaultGOptions()
	}
	o.Rounds = 1 + R.IntN(8)
	o.MaxDepth = R.IntN(6)
	o.LearningRate = pick(R, 0.05, 0.1, 0.3, 0.46, 1.0)
	if R.IntN(40) == 0 {
		o.LearningRate = pick(R, 1e-9, 1e-6, 3e-5, 0.002)
	}
	o.BaseScore = pick(R, 0, 0.5, -1.25, 3)
	o.MinChildWeight = pick(R, 1, 1, 2, 3, 2.7, 0, 5)
	o.EarlyStop = pick(R, 0, 0, 1, 2, 10)
	o.MinSample = pick(R, 1, 2, 5)
	o.Loss = &utils.SQErrLoss{}
	o.Verbose = R.IntN(8) == 0
	if !xgb {
		o.MinSample = 0
		if R.IntN(3) > 0 {
			o.Loss = &utils.MSELoss{}
		}
		return o
	}
	if R.IntN(4) == 0 {
		o.Loss = &utils.MSELoss{}
	}
	o.Lambda = pick(R, 0, 0.5, 1, 1.5, 10)
	o.Gamma = pick(R, 0, 0, 0.01, 0.2, 1)
	o.SubSample, o.ColSubSample = 1, 1
	if !det {
		o.SubSample = pick(R, 1, 0.9, 0.5, 0.3)
		o.ColSubSample = pick(R, 1, 0.9, 0.5, 0.3)
	}
	return o
}

// someSize makes one dataset in 50 larger than what is usual in the workload
func someSize(c *Case, n, d, K int) (int, int, int) {
	if c.R.IntN(50) > 0 {
		return n, d, K
	}
	c.Count("large_datasets", 1)
	if c.R.IntN(12) == 0 {
		c.huge = true
		c.Count("huge_datasets", 1)
		switch c.R.IntN(3) {
		case 0:
			return 550 + c.R.IntN(700), min(d, 3), min(K, 3)
		case 1:
			return n, 258 + c.R.IntN(300), K
		}
		return 190 + c.R.IntN(60), min(d, 3), 130 + c.R.IntN(30)
	}
	switch c.R.IntN(4) {
	case 0: // many rows
		return 60 + c.R.IntN(240), d, K
	case 1: // many features
		return n, 10 + c.R.IntN(40), K
	case 2: // many classes
		return 40 + c.R.IntN(60), d, 9 + c.R.IntN(20)
	}
	return 60 + c.R.IntN(60), 6 + c.R.IntN(10), 4 + c.R.IntN(8)
}

// someRounds makes one training in 50 long
func someRounds(c *Case, o *boo.Options) {
	if c.huge {
		o.Rounds = min(o.Rounds, 3)
		return
	}
	if c.R.IntN(50) == 0 {
		o.Rounds = 60 + c.R.IntN(100)
		c.Count("long_trainings", 1)
		if c.R.IntN(8) == 0 {
			o.Rounds = 200 + c.R.IntN(600)
			o.MaxDepth = min(o.MaxDepth, 3)
			o.EarlyStop = 0
			c.Count("very_long_trainings", 1)
		}
	}
}

func describeOpts(o *boo.Options) string {
	return fmt.Sprintf("%s es%d ms%d loss:%s base%g", o.String(), o.EarlyStop, o.MinSample, o.Loss.Name(), o.BaseScore)
}

func close2(a, b, tol float64) bool {
	if a == b {
		return true
	}
	return math.Abs(a-b) <= tol
}

func cloneX(X [][]float64) [][]float64 {
	r := make([][]float64, len(X))
	for i := range X {
		r[i] = append([]float64(nil), X[i]...)
	}
	return r
}
