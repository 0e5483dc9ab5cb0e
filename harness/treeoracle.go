package main

import (
	"math"
	"sort"

	"github.com/rmera/boo/utils"
)

// fromJTree reads a live tree through its exported node view, rows included
func fromJTree(t utils.JTree) *Node {
	j := t.JNode(1, true)
	n := &Node{Id: uint(j.Id), Nsamples: int(j.Nsamples), Samples: j.Samples, SplitFeatureIndex: int(j.SplitFeatureIndex),
		BestScoreSoFar: float64(j.BestScoreSoFar), Leaf: j.Leaf, Threshold: float64(j.Threshold), Branches: int(j.Branches), Value: float64(j.Value), XGB: j.XGB}
	if l := t.Leftf(nil); l != nil {
		n.L = fromJTree(l)
	}
	if r := t.Rightf(nil); r != nil {
		n.R = fromJTree(r)
	}
	return n
}

// treeSpec is what the tree was asked to be
type treeSpec struct {
	X        [][]float64
	Rows     []int
	Allowed  map[int]bool // nil: all
	MaxDepth int
	MCW      float64
	XGB      bool
	Lambda   float64
	Gamma    float64
	G, H, Y  []float64
	Newton   bool // leaves hold sum(Y)/sum(H)
	Fit      bool // also judge values and optimality
	Struct   bool // judge partition (uses Samples of the nodes when present)
}

func (s *treeSpec) mcw() int {
	m := int(s.MCW)
	if m < 1 {
		m = 1
	}
	return m
}

func sameSet(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	x, y := append([]int(nil), a...), append([]int(nil), b...)
	sort.Ints(x)
	sort.Ints(y)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

type cand struct {
	gain   float64 // xgb: eq. 7; regular: squared-error reduction
	mag    float64
	nl, nr int
	vl, vr float64
	f      int
}

// candidates enumerates every admissible split of rows
func (s *treeSpec) candidates(rows []int) []cand {
	var out []cand
	d := len(s.X[0])
	n := len(rows)
	ord := make([]int, n)
	for f := 0; f < d; f++ {
		if s.Allowed != nil && !s.Allowed[f] {
			continue
		}
		copy(ord, rows)
		sort.Slice(ord, func(i, j int) bool { return s.X[ord[i]][f] < s.X[ord[j]][f] })
		pre, suf := s.sums(ord, false), s.sums(ord, true)
		for cut := 1; cut < n; cut++ {
			vl, vr := s.X[ord[cut-1]][f], s.X[ord[cut]][f]
			if vl == vr || cut < s.mcw() || n-cut < s.mcw() {
				continue
			}
			g, m := s.gainOf(pre[cut], suf[n-cut])
			out = append(out, cand{g, m, cut, n - cut, vl, vr, f})
		}
	}
	return out
}

func sumOver(v []float64, rows []int) (s, a float64) {
	// compensated summation: the oracle should be the more accurate side
	c := 0.0
	for _, r := range rows {
		y := v[r] - c
		t := s + y
		c = (t - s) - y
		s = t
		a += math.Abs(v[r])
	}
	return
}

// part holds the sums over one side of a split
type part struct{ n, v, a, h float64 }

// sums gives compensated sums over the first (or last) 0, 1, 2... rows of ord
func (s *treeSpec) sums(ord []int, back bool) []part {
	out := make([]part, len(ord)+1)
	v := s.Y
	if s.XGB {
		v = s.G
	}
	var p part
	cv, ch := 0.0, 0.0
	kahan := func(sum, c *float64, x float64) {
		y := x - *c
		t := *sum + y
		*c = (t - *sum) - y
		*sum = t
	}
	for i := range ord {
		r := ord[i]
		if back {
			r = ord[len(ord)-1-i]
		}
		p.n++
		kahan(&p.v, &cv, v[r])
		p.a += math.Abs(v[r])
		if s.XGB {
			kahan(&p.h, &ch, s.H[r])
		}
		out[i+1] = p
	}
	return out
}

// over is v/h, and 0 when h vanishes
func over(v, h float64) float64 {
	if h > 1e-150 {
		return v / h
	}
	return 0
}

func (s *treeSpec) gainOf(l, r part) (gain, mag float64) {
	if s.XGB {
		a := over(l.v*l.v, l.h+s.Lambda)
		b := over(r.v*r.v, r.h+s.Lambda)
		c := over((l.v+r.v)*(l.v+r.v), l.h+r.h+s.Lambda)
		return 0.5*(a+b-c) - s.Gamma/2, over(l.a*l.a, l.h+s.Lambda) + over(r.a*r.a, r.h+s.Lambda) + over((l.a+r.a)*(l.a+r.a), l.h+s.Lambda) + over((l.a+r.a)*(l.a+r.a), r.h+s.Lambda) + math.Abs(s.Gamma)
	}
	return l.v*l.v/l.n + r.v*r.v/r.n - (l.v+r.v)*(l.v+r.v)/(l.n+r.n), (l.a + r.a) * (l.a + r.a)
}

func (s *treeSpec) gain(l, r []int) (gain, mag float64) {
	return s.gainOf(s.sums(l, false)[len(l)], s.sums(r, false)[len(r)])
}

// judge checks a tree (read through any view) against its specification
func (s *treeSpec) judge(c *Case, n *Node, rows []int, depth int) {
	if n.Samples != nil {
		c.Check(sameSet(n.Samples, rows), "node rows %v, expected %v", n.Samples, rows)
	}
	c.Count("nodes", 1)
	c.Check(n.XGB == s.XGB, "node kind")
	c.Check(n.Nsamples == len(rows), "node reports %d samples, routed %d", n.Nsamples, len(rows))
	c.Check(n.Branches == n.count(), "node reports %d branches, has %d nodes", n.Branches, n.count())
	c.Check(depth <= s.MaxDepth || (s.MaxDepth < 0 && depth == 0), "node at depth %d, MaxDepth %d", depth, s.MaxDepth)
	c.Check(n.Leaf == (n.L == nil && n.R == nil), "leaf flag %v with children %v %v", n.Leaf, n.L != nil, n.R != nil)
	if s.Fit {
		s.judgeValue(c, n, rows)
	}
	var cs []cand
	if s.Fit {
		cs = s.candidates(rows)
	}
	if n.Leaf {
		if s.Fit && depth < s.MaxDepth {
			if s.XGB {
				for _, k := range cs {
					c.Check(k.gain <= 1e-9*(k.mag+1e-300), "leaf although feature %d between %g and %g gains %g", k.f, k.vl, k.vr, k.gain)
				}
			} else {
				c.Check(len(cs) == 0, "leaf with %d rows although %d admissible splits exist", len(rows), len(cs))
			}
		}
		c.Count("leaves", 1)
		return
	}
	c.Count("splits", 1)
	f := n.SplitFeatureIndex
	c.Check(f >= 0 && f < len(s.X[0]), "split on feature %d of %d", f, len(s.X[0]))
	c.Check(s.Allowed == nil || s.Allowed[f], "split on feature %d, which is not allowed", f)
	var l, r []int
	for _, i := range rows {
		if s.X[i][f] <= n.Threshold {
			l = append(l, i)
		} else {
			r = append(r, i)
		}
	}
	c.Check(len(l) >= s.mcw() && len(r) >= s.mcw(), "children with %d and %d rows, MinChildWeight %v", len(l), len(r), s.MCW)
	if s.Fit {
		vl, vr := math.Inf(-1), math.Inf(1)
		for _, i := range l {
			vl = math.Max(vl, s.X[i][f])
		}
		for _, i := range r {
			vr = math.Min(vr, s.X[i][f])
		}
		mid := vl/2 + vr/2
		tol := math.Max(1e-9*(vr/2-vl/2), 2*(math.Nextafter(math.Abs(mid), math.Inf(1))-math.Abs(mid)))
		c.Check(n.Threshold >= vl && n.Threshold < vr && math.Abs(n.Threshold-mid) <= tol, "threshold %g is not halfway between %g and %g", n.Threshold, vl, vr)
		g, m := s.gain(l, r)
		tol = 1e-9 * (m + 1e-300)
		best, bm := math.Inf(-1), 0.0
		var bc cand
		for _, k := range cs {
			if k.gain > best {
				best, bm, bc = k.gain, k.mag, k
			}
		}
		c.Check(len(cs) > 0, "split although no split is admissible")
		c.Check(g >= best-tol-1e-9*bm, "split on %d<=%g gains %g, but feature %d between %g and %g gains %g", f, n.Threshold, g, bc.f, bc.vl, bc.vr, best)
		if s.XGB {
			c.Check(g > -tol, "split with gain %g", g)
			c.Check(close2(n.BestScoreSoFar, g, tol), "reported gain %g, actual %g", n.BestScoreSoFar, g)
		} else {
			c.Check(close2(n.BestScoreSoFar, -g, tol), "reported score %g, actual %g", n.BestScoreSoFar, -g)
		}
		c.Count("candidate_splits", len(cs))
	}
	s.judge(c, n.L, l, depth+1)
	s.judge(c, n.R, r, depth+1)
}

func (s *treeSpec) judgeValue(c *Case, n *Node, rows []int) {
	if s.XGB {
		g, a := sumOver(s.G, rows)
		h, _ := sumOver(s.H, rows)
		want := -over(g, h+s.Lambda)
		c.Check(close2(n.Value, want, 1e-10*over(a, h+s.Lambda)+1e-300), "node value %g, expected %g", n.Value, want)
		return
	}
	y, a := sumOver(s.Y, rows)
	if s.Newton && n.Leaf {
		h, _ := sumOver(s.H, rows)
		c.Check(!math.IsNaN(n.Value) && !math.IsInf(n.Value, 0), "leaf value %g (gradient sum %g, hessian sum %g)", n.Value, y, h)
		if h > 1e-100 {
			c.Check(close2(n.Value, y/h, 1e-9*(a/h)), "leaf value %g, expected %g/%g", n.Value, y, h)
			c.Count("newton_leaves", 1)
		} else if h == 0 {
			c.Check(n.Value == 0, "leaf value %g with vanishing hessian", n.Value)
			c.Count("saturated_leaves", 1)
		}
		return
	}
	c.Check(close2(n.Value, y/float64(len(rows)), 1e-10*(a+1e-300)), "node value %g, expected mean %g", n.Value, y/float64(len(rows)))
}
