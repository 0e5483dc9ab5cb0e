package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strings"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
	"gonum.org/v1/gonum/mat"
)

// ---- independent reader of the documented JSON model format ----

type Node struct {
	Id, Leftid, Rightid uint
	Nsamples            int
	Samples             []int
	SplitFeatureIndex   int
	BestScoreSoFar      float64
	Leaf                bool
	Threshold           float64
	Branches            int
	Value               float64
	XGB                 bool
	L, R                *Node `json:"-"`
}

func (n *Node) predict(x []float64) float64 {
	for n.L != nil && n.R != nil {
		if x[n.SplitFeatureIndex] <= n.Threshold {
			n = n.L
		} else {
			n = n.R
		}
	}
	return n.Value
}

func (n *Node) walk(f func(*Node, int), d int) {
	f(n, d)
	if n.L != nil {
		n.L.walk(f, d+1)
	}
	if n.R != nil {
		n.R.walk(f, d+1)
	}
}

func (n *Node) count() int { c := 0; n.walk(func(*Node, int) { c++ }, 0); return c }

type JModel struct {
	LearningRate      float64
	ClassLabels       []int
	ProbTransformName string
	BaseScore         float64
	Rounds            []map[int]*Node // class index -> tree
	text              string
}

type sb struct{ strings.Builder }

func modelJSON(m *boo.MultiClass) (string, error) {
	var b bytes.Buffer
	w := bufio.NewWriter(&b)
	if err := boo.JSONMultiClass(m, "softmax", w); err != nil {
		return "", err
	}
	w.Flush()
	return b.String(), nil
}

func parseTree(lines []string, pos *int) (*Node, error) {
	if *pos >= len(lines) {
		return nil, fmt.Errorf("tree ends early")
	}
	n := &Node{}
	if err := json.Unmarshal([]byte(lines[*pos]), n); err != nil {
		return nil, err
	}
	*pos++
	var err error
	if n.Leftid > 0 {
		if n.L, err = parseTree(lines, pos); err != nil {
			return nil, err
		}
		if n.L.Id != n.Leftid {
			return nil, fmt.Errorf("left child of %d has id %d, expected %d", n.Id, n.L.Id, n.Leftid)
		}
	}
	if n.Rightid > 0 {
		if n.R, err = parseTree(lines, pos); err != nil {
			return nil, err
		}
		if n.R.Id != n.Rightid {
			return nil, fmt.Errorf("right child of %d has id %d, expected %d", n.Id, n.R.Id, n.Rightid)
		}
	}
	if (n.L == nil) != (n.R == nil) || n.Leaf != (n.L == nil) {
		return nil, fmt.Errorf("node %d: leaf flag and children disagree", n.Id)
	}
	return n, nil
}

func parseModel(text string) (*JModel, error) {
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	m := &JModel{text: text}
	if err := json.Unmarshal([]byte(lines[0]), m); err != nil {
		return nil, fmt.Errorf("metadata: %v", err)
	}
	pos := 1
	var cur map[int]*Node
	class := -1
	for pos < len(lines) {
		l := lines[pos]
		switch {
		case strings.HasPrefix(l, "ROUND"):
			cur = map[int]*Node{}
			m.Rounds = append(m.Rounds, cur)
			pos++
		case strings.HasPrefix(l, "CLASS"):
			lab := 0
			if _, err := fmt.Sscanf(l, "CLASS %d, label: %d", &class, &lab); err != nil {
				return nil, fmt.Errorf("bad class line %q", l)
			}
			if class < 0 || class >= len(m.ClassLabels) || m.ClassLabels[class] != lab {
				return nil, fmt.Errorf("class line %q does not agree with labels %v", l, m.ClassLabels)
			}
			pos++
		default:
			n, err := parseTree(lines, &pos)
			if err != nil {
				return nil, fmt.Errorf("line %d: %v", pos, err)
			}
			if cur == nil || cur[class] != nil {
				return nil, fmt.Errorf("line %d: tree without its own class line", pos)
			}
			cur[class] = n
		}
	}
	return m, nil
}

func mustModel(c *Case, m *boo.MultiClass) *JModel {
	t, err := modelJSON(m)
	if err != nil {
		c.Fail("model cannot be exported: %v", err)
	}
	j, err := parseModel(t)
	if err != nil {
		c.Fail("exported model is not well formed: %v", err)
	}
	return j
}

// trees of the model (null trees of stopped classes included)
func (m *JModel) trees(f func(round, class int, n *Node)) {
	for r, cs := range m.Rounds {
		for k := range m.ClassLabels {
			if t := cs[k]; t != nil {
				f(r, k, t)
			}
		}
	}
}

// scores and a bound on their rounding error
func (m *JModel) scores(x []float64) ([]float64, float64) {
	s := make([]float64, len(m.ClassLabels))
	mag := math.Abs(m.BaseScore) + 1
	for k := range s {
		s[k] = m.BaseScore
		a := 0.0
		for _, cs := range m.Rounds {
			if t := cs[k]; t != nil {
				v := t.predict(x) * m.LearningRate
				s[k] += v
				a += math.Abs(v)
			}
		}
		mag += a
	}
	return s, mag * 1e-13
}

func softmaxRef(s []float64) []float64 {
	mx := math.Inf(-1)
	for _, v := range s {
		mx = math.Max(mx, v)
	}
	r := make([]float64, len(s))
	sum := 0.0
	for i, v := range s {
		r[i] = math.Exp(v - mx)
		sum += r[i]
	}
	for i := range r {
		r[i] /= sum
	}
	return r
}

func reload(text string) (*boo.MultiClass, error) {
	return boo.UnJSONMultiClass(bufio.NewReader(strings.NewReader(text)))
}

// ---- losses that observe or script training ----

type lossEv struct {
	Kind string // grad, neg, hess, loss
	Y, P []float64
	Out  []float64
	Val  float64
}

func flat(m *mat.Dense) []float64 {
	r, c := m.Dims()
	o := make([]float64, 0, r*c)
	for i := 0; i < r; i++ {
		o = append(o, m.RawRowView(i)...)
	}
	return o
}

// recLoss forwards to a real loss and records every call
type recLoss struct {
	L     utils.LossFunc
	Ev    []lossEv
	Fresh bool // always returns new matrices, like a loss that has no use for the ones supplied
}

func (r *recLoss) dest(t *mat.Dense) *mat.Dense {
	if r.Fresh {
		return nil
	}
	return t
}

func (r *recLoss) Name() string { return r.L.Name() }
func (r *recLoss) Loss(y, p, t *mat.Dense) float64 {
	ev := lossEv{Kind: "loss", Y: flat(y), P: flat(p)}
	ev.Val = r.L.Loss(y, p, t)
	r.Ev = append(r.Ev, ev)
	return ev.Val
}
func (r *recLoss) NegGradients(y, p, t *mat.Dense) *mat.Dense {
	ev := lossEv{Kind: "neg", Y: flat(y), P: flat(p)}
	g := r.L.NegGradients(y, p, r.dest(t))
	ev.Out = flat(g)
	r.Ev = append(r.Ev, ev)
	return g
}
func (r *recLoss) Gradients(y, p, t *mat.Dense) *mat.Dense {
	ev := lossEv{Kind: "grad", Y: flat(y), P: flat(p)}
	g := r.L.Gradients(y, p, r.dest(t))
	ev.Out = flat(g)
	r.Ev = append(r.Ev, ev)
	return g
}
func (r *recLoss) Hessian(p, t *mat.Dense) *mat.Dense {
	ev := lossEv{Kind: "hess", P: flat(p)}
	h := r.L.Hessian(p, r.dest(t))
	ev.Out = flat(h)
	r.Ev = append(r.Ev, ev)
	return h
}

// steps pairs the i-th gradient call with the i-th hessian call and the loss calls in between
type step struct {
	G, H   lossEv
	Losses []lossEv
}

func (r *recLoss) steps() []step {
	var st []step
	var hs []lossEv
	for _, e := range r.Ev {
		switch e.Kind {
		case "hess":
			hs = append(hs, e)
		case "grad", "neg":
			st = append(st, step{G: e})
		case "loss":
			if len(st) > 0 {
				st[len(st)-1].Losses = append(st[len(st)-1].Losses, e)
			}
		}
	}
	for i := range st {
		if i < len(hs) {
			st[i].H = hs[i]
		}
	}
	return st
}

// scriptLoss returns scripted gradients, hessians and loss values; the class is recognised by its labels
type scriptLoss struct {
	Cols  [][]float64 // one-hot columns
	Grad  func(class, t int) []float64
	Hess  func(n int) []float64
	LossV func(class, t int) float64
	NG    []int // gradient calls per class
	NL    []int // loss calls per class
	Order []int // class of each gradient call
	Bad   int   // calls whose labels are no class's
}

func newScript(D *utils.DataBunch) *scriptLoss {
	names, cols := oneHotRef(D.Labels)
	return &scriptLoss{Cols: cols, NG: make([]int, len(names)), NL: make([]int, len(names))}
}

func oneHotRef(labels []int) ([]int, [][]float64) {
	var names []int
	idx := map[int]int{}
	for _, v := range labels {
		if _, ok := idx[v]; !ok {
			idx[v] = len(names)
			names = append(names, v)
		}
	}
	cols := make([][]float64, len(names))
	for k := range cols {
		cols[k] = make([]float64, len(labels))
	}
	for i, v := range labels {
		cols[idx[v]][i] = 1
	}
	return names, cols
}

func eqF(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (s *scriptLoss) class(y *mat.Dense) int {
	f := flat(y)
	for k, c := range s.Cols {
		if eqF(f, c) {
			return k
		}
	}
	s.Bad++
	return 0
}
func fill(t *mat.Dense, like *mat.Dense, v []float64) *mat.Dense {
	r, c := like.Dims()
	if t == nil {
		t = mat.NewDense(r, c, nil)
	}
	for i := range v {
		t.Set(i/c, i%c, v[i])
	}
	return t
}
func (s *scriptLoss) Name() string { return "scripted" }
func (s *scriptLoss) Loss(y, p, t *mat.Dense) float64 {
	k := s.class(y)
	s.NL[k]++
	if s.LossV == nil {
		return 1
	}
	return s.LossV(k, s.NL[k]-1)
}
func (s *scriptLoss) g(y, t *mat.Dense, sign float64) *mat.Dense {
	k := s.class(y)
	s.NG[k]++
	s.Order = append(s.Order, k)
	v := append([]float64(nil), s.Grad(k, s.NG[k]-1)...)
	for i := range v {
		v[i] *= sign
	}
	return fill(t, y, v)
}
func (s *scriptLoss) NegGradients(y, p, t *mat.Dense) *mat.Dense { return s.g(y, t, -1) }
func (s *scriptLoss) Gradients(y, p, t *mat.Dense) *mat.Dense    { return s.g(y, t, 1) }
func (s *scriptLoss) Hessian(p, t *mat.Dense) *mat.Dense {
	r, c := p.Dims()
	return fill(t, p, s.Hess(r*c))
}
