package main

import (
	"fmt"
	"math"

	"github.com/rmera/boo"
	"github.com/rmera/boo/cv"
)

// ---- C31: the gradient searches climb ----

func paramOf(o *boo.Options, p string) float64 {
	switch p {
	case "Gamma":
		return o.Gamma
	case "Lambda":
		return o.Lambda
	case "SubSample":
		return o.SubSample
	case "ColSubSample":
		return o.ColSubSample
	case "LearningRate":
		return o.LearningRate
	}
	return float64(o.Rounds)
}

func rangeOf(g *cv.GridOptions, p string) [3]float64 {
	switch p {
	case "Gamma":
		return g.Gamma
	case "Lambda":
		return g.Lambda
	case "SubSample":
		return g.SubSample
	case "ColSubSample":
		return g.ColSubSample
	case "LearningRate":
		return g.LearningRate
	}
	return [3]float64{float64(g.Rounds[0]), float64(g.Rounds[1]), float64(g.Rounds[2])}
}

// differsIn returns the parameters, and "other", in which two options values differ
func differsIn(a, b *boo.Options) []string {
	var r []string
	for _, p := range params {
		if paramOf(a, p) != paramOf(b, p) {
			r = append(r, p)
		}
	}
	x, y := *a, *b
	for _, o := range []*boo.Options{&x, &y} {
		o.Gamma, o.Lambda, o.SubSample, o.ColSubSample, o.LearningRate, o.Rounds = 0, 0, 0, 0, 0, 0
	}
	if x != y {
		r = append(r, "other")
	}
	return r
}

// slope finds, in the evaluations of a step from o, those that raised and lowered p alone
type slope struct {
	up, down       float64 // accuracies
	hasUp, hasDown bool
}

func slopes(c *Case, ends []cv.TraceEvent, o *boo.Options, fd float64, nfold int, what string) (map[string]*slope, []float64) {
	m := map[string]*slope{}
	for _, p := range params {
		m[p] = &slope{}
	}
	var same []float64
	for _, e := range ends {
		c.Check(e.Nfold == nfold, "%s: evaluated with %d folds, %d requested", what, e.Nfold, nfold)
		d := differsIn(e.O, o)
		if len(d) == 0 {
			if !e.Conc {
				same = append(same, e.Acc)
			}
			continue
		}
		c.Check(len(d) == 1 && d[0] != "other", "%s: evaluated %+v, which differs from the starting options in %v", what, *e.O, d)
		p := d[0]
		a, b := paramOf(o, p), paramOf(e.O, p)
		tol := 1e-9 * a
		if p == "Rounds" {
			tol = 1
		}
		c.Check(close2(math.Abs(b-a), a*fd, tol), "%s: %s evaluated at %v, which is not %v off %v", what, p, b, fd, a)
		s := m[p]
		if b > a {
			c.Check(!s.hasUp, "%s: %s raised twice", what, p)
			s.up, s.hasUp = e.Acc, true
		} else {
			c.Check(!s.hasDown, "%s: %s lowered twice", what, p)
			s.down, s.hasDown = e.Acc, true
		}
		c.Count("probes_observed", 1)
	}
	return m, same
}

// judgeMove compares the move of one parameter with the accuracies observed on both sides
func judgeMove(c *Case, p string, before, after *boo.Options, hi, lo float64, g *cv.GridOptions, step, fd float64, what string) {
	a, b := paramOf(before, p), paramOf(after, p)
	switch {
	case hi == lo:
		c.Check(a == b, "%s: %s moved from %v to %v although the accuracy does not change (%v)", what, p, a, b, hi)
		c.Count("flat", 1)
		return
	case hi > lo:
		c.Check(b >= a, "%s: %s lowered from %v to %v although raising it is better (%v against %v)", what, p, a, b, hi, lo)
	default:
		c.Check(b <= a, "%s: %s raised from %v to %v although lowering it is better (%v against %v)", what, p, a, b, hi, lo)
	}
	if b != a {
		c.Count("moved", 1)
		if b > a {
			c.Count("moved_up", 1)
		} else {
			c.Count("moved_down", 1)
		}
	}
	if p == "Rounds" {
		// the increments are whole numbers; smallest and largest one the difference formulas can ask for
		h := math.Floor(fd * a)
		if h < 1 {
			return
		}
		r := rangeOf(g, p)
		by := math.Abs(hi-lo) * r[2] * step
		room := r[1] - a
		if hi < lo {
			room = a - r[0]
		}
		if by*math.Max(fd*a, 1/h)+1 < room && by/2*math.Min(h, 1/(fd*a)) >= 1.01 {
			c.Check(b != a, "%s: Rounds stays at %v although the accuracies on both sides are %v and %v and there is room for a move", what, a, hi, lo)
			c.Count("rounds_must_move", 1)
			if hi < lo {
				c.Count("rounds_must_sink", 1)
			}
		}
		return
	}
	// the largest move any of the difference formulas can ask for
	r := rangeOf(g, p)
	h := fd * a
	big := math.Abs(hi-lo) * r[2] * step * math.Max(h, 1/h)
	room := b - a
	if hi > lo {
		room = r[1] - a
	} else {
		room = a - r[0]
	}
	if big < room && big*1e-4*math.Min(h*h, 1) > 1e-14*a {
		c.Check(b != a, "%s: %s stays at %v although the accuracies on both sides are %v and %v and there is room for a move", what, p, a, hi, lo)
		c.Count("must_move", 1)
	}
}

func c31step(c *Case) {
	R := c.R
	g := genSpace(c)
	g.XGB = true
	D := cvData(c, 10+R.IntN(20))
	t := startTrace(c.traceKey(), c.jitter())
	defer traces.Delete(c.traceKey())
	nfold := pick(R, 2, 3, 5, 7)
	o := startOpts(c, g)
	o.MinSample = 1
	step := pick(R, 1e-6, 1e-4, 1e-3, 0.01, 0.1, 1)
	fd := pick(R, 0.02, 0.05, 0.2, 0.5)
	if R.IntN(4) == 0 { // much room for the rounds
		g.Rounds = [3]int{1, 1000000, pick(R, 20, 100, 1000)}
		o.Rounds = 3 + R.IntN(10)
		step, fd = pick(R, 1, 10, 100.0), pick(R, 0.34, 0.5, 0.9)
	}
	if R.IntN(6) == 0 { // and in both directions: the difference is that of about one round
		a := 25 + R.IntN(30)
		g.Rounds = [3]int{1, 2 * a, 1}
		o.Rounds, o.LearningRate, o.EarlyStop = a, g.LearningRate[0], 0
		step, fd = pick(R, 0.1, 0.3, 0.5), 1.03/float64(a)
	}
	central := R.IntN(2) == 0
	before := *o
	if R.IntN(2) == 0 { // one parameter
		p := pick(R, params...)
		cur := pick(R, 0.0, 30, 50, 70, 100)
		what := fmt.Sprintf("step %v of %s, delta %v central %v from %+v", step, p, fd, central, before)
		r := recvOne(c, what, func(out chan *boo.Options) {
			cv.ParamaterGradStep(D, o, g, p, step, fd, cur, nfold, central, out)
		})
		t.mu.Lock()
		defer t.mu.Unlock()
		m, _ := slopes(c, t.ends, &before, fd, nfold, what)
		s := m[p]
		for q, v := range m {
			c.Check(q == p || !v.hasUp && !v.hasDown, "%s: %s was varied", what, q)
		}
		switch {
		case central && s.hasUp && s.hasDown:
			judgeMove(c, p, &before, r, s.up, s.down, g, step, fd, what)
			c.Count("central_slopes", 1)
		case !central && s.hasUp:
			c.Check(!s.hasDown, "%s: %s was lowered for forward differences", what, p)
			judgeMove(c, p, &before, r, s.up, cur, g, step, fd, what)
			c.Count("forward_slopes", 1)
		case !s.hasUp && !s.hasDown && p != "Rounds":
			c.Check(paramOf(r, p) == paramOf(&before, p), "%s: %s moved to %v without being evaluated on both sides", what, p, paramOf(r, p))
			c.Count("not_evaluated", 1)
		}
		if p != "Rounds" && paramOf(&before, p) > 0 && lowered(&before, p, fd).Check() == nil {
			c.Check(s.hasUp && s.hasDown == central, "%s: evaluated raised %v, lowered %v", what, s.hasUp, s.hasDown)
		}
		c.Sig("%s %v %v", what, *s, paramOf(r, p))
		c.Count("parameter_steps", 1)
		return
	}
	what := fmt.Sprintf("full step %v, delta %v central %v from %+v", step, fd, central, before)
	var r *boo.Options
	if R.IntN(2) == 0 {
		r = recvOne(c, what, func(out chan *boo.Options) { cv.GradStep(o, g, D, step, fd, nfold, central, out) })
	} else {
		r = cv.GradStep(o, g, D, step, fd, nfold, central, nil)
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	m, same := slopes(c, t.ends, &before, fd, nfold, what)
	if !central {
		c.Check(len(same) == 1, "%s: the starting options were evaluated %d times", what, len(same))
	}
	for _, p := range params {
		s := m[p]
		switch {
		case central && s.hasUp && s.hasDown:
			judgeMove(c, p, &before, r, s.up, s.down, g, step, fd, what)
			c.Count("central_slopes", 1)
		case !central && s.hasUp:
			judgeMove(c, p, &before, r, s.up, same[0], g, step, fd, what)
			c.Count("forward_slopes", 1)
		case !s.hasUp && !s.hasDown && p != "Rounds":
			c.Check(paramOf(r, p) == paramOf(&before, p), "%s: %s moved to %v without being evaluated on both sides", what, p, paramOf(r, p))
			c.Count("not_evaluated", 1)
		}
		if p != "Rounds" && paramOf(&before, p) > 0 && lowered(&before, p, fd).Check() == nil {
			c.Check(s.hasUp && s.hasDown == central, "%s: %s evaluated raised %v, lowered %v", what, p, s.hasUp, s.hasDown)
		}
	}
	c.Count("full_steps", 1)
	c.Sig("%s %+v", what, *r)
	c.Sample(map[string]any{"step": what, "result": fmt.Sprintf("%+v", *r)})
}

func lowered(o *boo.Options, p string, fd float64) *boo.Options {
	x := *o
	switch p {
	case "Gamma":
		x.Gamma *= 1 - fd
	case "Lambda":
		x.Lambda *= 1 - fd
	case "SubSample":
		x.SubSample *= 1 - fd
	case "ColSubSample":
		x.ColSubSample *= 1 - fd
	case "LearningRate":
		x.LearningRate *= 1 - fd
	}
	return &x
}

// c31cover: where the ascents start, and how long they are
func c31cover(hybrid bool) func(*Case) {
	return func(c *Case) {
		R := c.R
		g := genSpace(c)
		g.NSteps = R.IntN(5)
		if !g.XGB && R.IntN(2) == 0 {
			g.NSteps = 1
		}
		g.Step = pick(R, 1e-4, 1e-3, 0.01, 0.1, 1)
		d0 := 2 + R.IntN(2)
		g.MaxDepth = [3]int{d0, d0 + R.IntN(4), 1 + R.IntN(2)}
		w0 := 1 + float64(R.IntN(2))
		g.MinChildWeight = [3]float64{w0, w0 + 0.5*float64(R.IntN(5)), pick(R, 0.5, 1, 2)}
		l0 := 0.5 * float64(1+R.IntN(3))
		g.Lambda = [3]float64{l0, l0 + 0.5*float64(R.IntN(4)), pick(R, 0.5, 1)}
		r0 := 1 + R.IntN(3)
		g.Rounds = [3]int{r0, r0 + R.IntN(4), 1 + R.IntN(3)}
		D := cvData(c, 8+R.IntN(8))
		t := startTrace(c.traceKey(), nil)
		defer traces.Delete(c.traceKey())
		nfold := pick(R, 2, 3, 7)
		mid := func(l [3]float64) float64 { return (l[0] + l[1]) / 2 }
		var want []hyper
		for w := g.MinChildWeight[0]; w <= g.MinChildWeight[1]; w += g.MinChildWeight[2] {
			for md := g.MaxDepth[0]; md <= g.MaxDepth[1]; md += g.MaxDepth[2] {
				h := hyper{XGB: g.XGB, ES: g.EarlyStop, Rounds: (g.Rounds[0] + g.Rounds[1]) / 2, Depth: md, LR: mid(g.LearningRate), Gamma: mid(g.Gamma), Lambda: mid(g.Lambda), SS: mid(g.SubSample), CSS: mid(g.ColSubSample), Weight: w}
				if !hybrid {
					want = append(want, h)
					continue
				}
				for r := g.Rounds[0]; r <= g.Rounds[1]; r += g.Rounds[2] {
					for l := g.Lambda[0]; l <= g.Lambda[1]; l += g.Lambda[2] {
						h.Rounds, h.Lambda = r, l
						want = append(want, h)
					}
				}
			}
		}
		if len(want) > 24 {
			return
		}
		f := cv.GradientGrid
		if hybrid {
			f = cv.HybridGradientGrid
		}
		_, _, _, err := f(D, nfold, g)
		c.Check(err == nil, "search failed: %v", err)
		t.mu.Lock()
		defer t.mu.Unlock()
		near := func(a, b hyper) bool {
			q := func(x, y float64) bool { return close2(x, y, 1e-9*(1+math.Abs(x))) }
			return a.XGB == b.XGB && a.ES == b.ES && a.Rounds == b.Rounds && a.Depth == b.Depth && q(a.LR, b.LR) && q(a.Gamma, b.Gamma) && q(a.Lambda, b.Lambda) && q(a.SS, b.SS) && q(a.CSS, b.CSS) && q(a.Weight, b.Weight)
		}
		def := boo.DefaultGOptions()
		if g.XGB {
			def = boo.DefaultXOptions()
		}
		direct := 0
		found := make([]int, len(want))
		for _, e := range t.starts {
			c.Check(e.Nfold == nfold, "evaluated with %d folds, %d requested", e.Nfold, nfold)
			if !e.Conc {
				direct++
			}
			for i, h := range want {
				if near(hyperOf(e.O), h) && e.O.BaseScore == def.BaseScore {
					found[i]++
				}
			}
		}
		for i, n := range found {
			c.Check(n > 0, "no ascent started at %+v (space %+v)", want[i], *g)
			c.Count("ascents", 1)
		}
		per := 1 + g.NSteps
		if !g.Central {
			per = 1 + 2*g.NSteps
		}
		c.Check(direct <= per*len(want), "%d candidates evaluated in %d ascents of at most %d steps", direct, len(want), g.NSteps)
		// in every step at least the learning rate can be varied
		conc, k := len(t.starts)-direct, 1
		if g.Central {
			k = 2
		}
		c.Check(conc >= k*len(want)*min(g.NSteps, 3), "only %d variations evaluated in %d ascents of %d steps (space %+v)", conc, len(want), g.NSteps, *g)
		if g.XGB || g.NSteps == 1 { // the base score of regular boosting is 0, and does not tell its steps apart
			judgeAscents(c, t, g)
			if !g.XGB {
				c.Count("regular_ascents", 1)
			}
		}
		c.Count("searches", 1)
		c.Sig("%+v", *g)
		c.Sample(map[string]any{"space": fmt.Sprintf("%+v", *g), "ascents": len(want), "evaluations": len(t.starts)})
	}
}

// c31ascent: a single ascent, central differences. The variations of one step are begun together; a step that changes
// something is followed by a plain evaluation, one that does not by a perturbation of all options, the base score included.
func c31ascent(c *Case) {
	R := c.R
	g := genSpace(c)
	g.XGB, g.Central = true, true
	g.NSteps = R.IntN(13)
	g.Step = pick(R, 1e-9, 1e-6, 1e-4, 1e-3, 0.01)
	g.MaxDepth[1], g.MinChildWeight[1] = g.MaxDepth[0], g.MinChildWeight[0]
	g.Gamma[0] = 0
	point := [3]float64{0.5, 0.5, 0.1}
	switch R.IntN(3) {
	case 0: // few parameters can move
		g.SubSample, g.ColSubSample, g.Gamma, g.Lambda = point, point, point, point
	case 1:
		g.SubSample, g.ColSubSample, g.Gamma, g.Lambda, g.LearningRate = point, point, point, point, point
	}
	hybrid := R.IntN(2) == 0
	f := cv.GradientGrid
	if hybrid {
		f = cv.HybridGradientGrid
		g.Rounds[2] = g.Rounds[1] - g.Rounds[0] + 1
		g.Lambda[2] = g.Lambda[1] - g.Lambda[0] + 0.1
	}
	D := cvData(c, 8+R.IntN(10))
	t := startTrace(c.traceKey(), nil)
	defer traces.Delete(c.traceKey())
	nfold := pick(R, 2, 3)
	_, _, _, err := f(D, nfold, g)
	c.Check(err == nil, "search failed: %v", err)
	t.mu.Lock()
	defer t.mu.Unlock()
	c.Check(len(t.starts) > 0 && !t.starts[0].Conc, "the start of the ascent was not evaluated")
	steps, idle := 0, 0
	var base *float64
	for _, e := range t.starts {
		if !e.Conc {
			base, idle = nil, 0
			continue
		}
		if base == nil || *base != e.O.BaseScore {
			b := e.O.BaseScore
			base = &b
			steps++
			idle++ // until a plain evaluation follows
			c.Check(idle < 4, "the ascent went on after three steps in a row that changed nothing (step %d)", steps)
		}
	}
	c.Check(steps <= g.NSteps, "an ascent of %d steps, at most %d asked for", steps, g.NSteps)
	c.Check(steps == g.NSteps || idle == 3, "the ascent ended after %d of %d steps, the last %d of which changed nothing (space %+v)", steps, g.NSteps, idle, *g)
	if steps < g.NSteps {
		c.Count("ended_early", 1)
	} else if steps > 3 {
		c.Count("all_steps", 1)
	}
	c.Count("single_ascents", 1)
	c.Sig("%v %d %+v", hybrid, steps, *g)
}

// judgeAscents looks, in the trace of a whole search, for steps whose variations of the learning rate force a move
// of it, and demands that the options arrived at are cross-validated next
func judgeAscents(c *Case, t *searchTrace, g *cv.GridOptions) {
	acc := map[int64]float64{}
	for _, e := range t.ends {
		acc[e.ID] = e.Acc
	}
	var probes []cv.TraceEvent
	var before *cv.TraceEvent
	judge := func(next *cv.TraceEvent) {
		// the variations of one step share all settings but one; random perturbations between steps change the base score
		for len(probes) > 0 {
			n := 1
			for n < len(probes) && probes[n].O.BaseScore == probes[0].O.BaseScore {
				n++
			}
			grp := probes[:n]
			probes = probes[n:]
			base := *grp[0].O
			for _, p := range params { // the most frequent value
				cnt := map[float64]int{}
				best := paramOf(&base, p)
				for _, e := range grp {
					v := paramOf(e.O, p)
					if cnt[v]++; cnt[v] > cnt[best] {
						best = v
					}
				}
				switch p {
				case "Gamma":
					base.Gamma = best
				case "Lambda":
					base.Lambda = best
				case "SubSample":
					base.SubSample = best
				case "ColSubSample":
					base.ColSubSample = best
				case "LearningRate":
					base.LearningRate = best
				case "Rounds":
					base.Rounds = int(best)
				}
			}
			var up, down []float64
			for _, e := range grp {
				switch v := e.O.LearningRate; {
				case v > base.LearningRate:
					up = append(up, acc[e.ID])
				case v < base.LearningRate:
					down = append(down, acc[e.ID])
				}
			}
			if !g.Central {
				if before == nil || len(differsIn(before.O, &base)) > 0 {
					continue
				}
				down = []float64{acc[before.ID]}
			}
			if len(grp) < 4 || len(up) != 1 || len(down) != 1 || up[0] == down[0] {
				continue
			}
			// as in judgeMove: the move is certain if the largest conceivable one fits, and is not lost in rounding
			a, h, r := base.LearningRate, g.DeltaFraction*base.LearningRate, g.LearningRate
			big := math.Abs(up[0]-down[0]) * r[2] * g.Step * math.Max(h, 1/h)
			room := r[1] - a
			if up[0] < down[0] {
				room = a - r[0]
			}
			if big >= room || big*1e-4*math.Min(h*h, 1) <= 1e-14*a {
				continue
			}
			c.Check(len(probes) == 0 && next != nil, "a step from %+v must change the learning rate (accuracies %v and %v), but its result was not evaluated", base, up[0], down[0])
			c.Check((next.O.LearningRate > a) == (up[0] > down[0]) && next.O.LearningRate != a, "a step from %+v must change the learning rate (accuracies %v and %v), but %+v was evaluated next", base, up[0], down[0], *next.O)
			c.Count("results_evaluated", 1)
		}
	}
	for i := range t.starts {
		e := &t.starts[i]
		if e.Conc {
			probes = append(probes, *e)
			continue
		}
		judge(e)
		before = e
	}
	judge(nil)
}

func init() {
	register(&Prop{ID: "C31", Rule: "single and full gradient steps from random points of random search spaces with random step sizes and deltas; the accuracies of the raised and lowered options are taken from the trace of cross-validations and compared with the direction of the move of every parameter; searches over grids of discrete settings, whose trace must contain one ascent from the middle of each",
		Suites: []Suite{{"steps", 1500, 30000, false, c31step}, {"ascent", 300, 6000, false, c31ascent}, {"gradient", 150, 3000, false, c31cover(false)}, {"hybrid", 100, 2000, false, c31cover(true)}},
		Floors: map[string]int64{"central_slopes": 300, "forward_slopes": 300, "moved_up": 60, "moved_down": 60, "flat": 50, "must_move": 60, "ascents": 300, "results_evaluated": 60, "rounds_must_move": 30, "rounds_must_sink": 20, "ended_early": 30, "all_steps": 60, "regular_ascents": 20}})
}
