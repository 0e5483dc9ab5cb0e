package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"strings"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
)

// hostile feature values too: thresholds must survive exactly
func genModelX(c *Case, small bool) (*utils.DataBunch, *boo.Options, *boo.MultiClass, *JModel) {
	R := c.R
	n, d, K := someSize(c, 2+R.IntN(35), 1+R.IntN(5), 1+R.IntN(5))
	if small {
		n, d, K = 2+R.IntN(10), 1+R.IntN(3), 1+R.IntN(3)
		if R.IntN(4) == 0 { // rounds of many classes
			K = 4 + R.IntN(6)
			n = K + R.IntN(6)
		}
	}
	big := 0
	if !small && R.IntN(80) == 0 {
		big = 1 + R.IntN(2)
		if big == 1 { // more features than a byte can count
			n, d, K = 30+R.IntN(30), 260+R.IntN(60), 3
		} else { // more nodes per tree than a byte can count
			n, d, K = 700+R.IntN(500), 2, 2
		}
		c.Count("big_models", 1)
	}
	X := genX(R, n, d, -1)
	if big == 2 {
		X = genX(R, n, d, pick(R, 0, 8))
	}
	D := mkBunch(X, genLabels(R, X, K))
	o := genOptions(R, R.IntN(2) == 0, false)
	someRounds(c, o)
	if big > 0 {
		for i := range D.Labels {
			D.Labels[i] = R.IntN(K)
		}
		o.Rounds, o.MaxDepth, o.MinChildWeight, o.EarlyStop, o.Gamma, o.MinSample = 1+R.IntN(3), 14, 1, 0, 0, 1
	}
	if small {
		o.Rounds = R.IntN(4)
		o.MaxDepth = R.IntN(4)
	}
	switch R.IntN(10) {
	case 0:
		o.MinSample = n + 1
	case 1:
		o.LearningRate = pick(R, 1e-7, 123.456789, 1e5)
		o.Rounds += 20
	}
	if small && o.Rounds > 5 {
		o.Rounds = 4
	}
	M := boo.NewMultiClass(D, o)
	j := mustModel(c, M)
	nt := 0
	j.trees(func(_, _ int, t *Node) { nt += t.count() })
	c.Count("models", 1)
	c.Count("model_nodes", nt)
	c.Sig("%s n%d d%d K%d nodes%d", describeOpts(o), n, d, len(j.ClassLabels), nt)
	if c.I < 2 {
		c.Sample(map[string]any{"options": describeOpts(o), "rows": n, "bytes": len(j.text), "nodes": nt})
	}
	return D, o, M, j
}

// vTree is an independent implementation of the tree interface that the tree-level functions use
type vTree struct {
	n    utils.JSONNode
	l, r *vTree
}

func (t *vTree) JNode(id uint, s ...bool) *utils.JSONNode {
	n := t.n
	n.Id, n.Leftid, n.Rightid = id, 0, 0
	return &n
}
func (t *vTree) Leftf(x utils.JTree) utils.JTree {
	if x != nil {
		t.l = x.(*vTree)
	}
	if t.l == nil {
		return nil
	}
	return t.l
}
func (t *vTree) Rightf(x utils.JTree) utils.JTree {
	if x != nil {
		t.r = x.(*vTree)
	}
	if t.r == nil {
		return nil
	}
	return t.r
}
func (t *vTree) Leaf() bool { return t.l == nil && t.r == nil }
func (t *vTree) predict(x []float64) float64 {
	for !t.Leaf() {
		if x[t.n.SplitFeatureIndex] <= float64(t.n.Threshold) {
			t = t.l
		} else {
			t = t.r
		}
	}
	return float64(t.n.Value)
}

func featString(m *boo.MultiClass) string {
	f, err := m.FeatureImportance()
	if err != nil {
		return "error"
	}
	t := f.String()
	if m.Rounds() <= 0 {
		_, t, _ = strings.Cut(t, "\n") // without trees only the (empty) ranking counts, not the title
	}
	return t
}

func c10model(c *Case) {
	D, _, M, j := genModelX(c, false)
	var rd io.Reader = strings.NewReader(j.text)
	if c.R.IntN(2) == 0 {
		rd = &chunkReader{r: rd, n: 1 + c.R.IntN(40)}
	}
	M2, err := boo.UnJSONMultiClass(bufio.NewReaderSize(rd, pick(c.R, 16, 100, 4096, 1<<16)))
	c.Check(err == nil, "reload: %v", err)
	t2, err := modelJSON(M2)
	c.Check(err == nil && t2 == j.text, "the reloaded model is written differently (%v): %s", err, firstDiff(j.text, t2))
	c.Check(fmt.Sprint(M.ClassLabels()) == fmt.Sprint(M2.ClassLabels()) && M.Classes() == M2.Classes(), "class labels %v after reload, %v before", M2.ClassLabels(), M.ClassLabels())
	for k := -1; k <= M.Classes(); k++ {
		a, b := M.Rounds(k), M2.Rounds(k)
		c.Check(a == b, "Rounds(%d) %d after reload, %d before", k, b, a)
	}
	c.Check(featString(M) == featString(M2), "feature importance after reload:\n%s\nbefore:\n%s", featString(M2), featString(M))
	for _, x := range probes(c.R, D, j, 15) {
		p, q := M.PredictSingle(x), M2.PredictSingle(x)
		c.Check(eqF(p, q), "reloaded model predicts %v, original %v", q, p)
		c.Check(M.PredictSingleClass(x) == M2.PredictSingleClass(x), "predicted class after reload")
		c.Count("predictions", 1)
	}
	c.Check(M.Accuracy(D) == M2.Accuracy(D), "accuracy after reload")
}

func c10tree(c *Case) {
	t := genTree(c, c.R.IntN(2) == 0, true)
	lines, id, err := utils.JSONTree(t.tree)
	c.Check(err == nil && id > 0, "JSONTree: id %d error %v", id, err)
	txt := string(bytes.Join(lines, []byte("\n"))) + "\n"
	r := bufio.NewReaderSize(strings.NewReader(txt), pick(c.R, 16, 100, 4096))
	first, _ := r.ReadString('\n')
	creations := 0
	back, err := utils.UnJSONTree(first, r, func(n *utils.JSONNode) utils.JTree { creations++; return &vTree{n: *n} })
	c.Check(err == nil, "UnJSONTree: %v", err)
	c.Check(creations == t.root.count(), "%d nodes read, tree has %d", creations, t.root.count())
	rest, _ := io.ReadAll(r)
	c.Check(len(rest) == 0, "UnJSONTree left %q unread", rest)
	lines2, _, err := utils.JSONTree(back)
	c.Check(err == nil && string(bytes.Join(lines2, []byte("\n")))+"\n" == txt, "tree written differently after reading: %v", err)
	v := back.(*vTree)
	for _, x := range t.spec.X {
		c.Check(v.predict(x) == t.tree.PredictSingle(x), "the reloaded tree predicts %v, the original %v", v.predict(x), t.tree.PredictSingle(x))
		c.Count("tree_predictions", 1)
	}
	// a node packed with its samples has them, and only then
	n1, n2, n3 := t.tree.JNode(7), t.tree.JNode(7, true), t.tree.JNode(7, false)
	c.Check(n1.Id == 7 && n2.Id == 7 && n3.Id == 7, "node packed with another id")
	c.Check(len(n1.Samples) == 0 && len(n3.Samples) == 0, "samples packed without being asked for")
	c.Check(len(n2.Samples) == n2.Nsamples, "%d samples packed of %d", len(n2.Samples), n2.Nsamples)
	c.Count("tree_roundtrips", 1)
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range la {
		if i >= len(lb) {
			return fmt.Sprintf("line %d missing: %s", i+1, la[i])
		}
		if la[i] != lb[i] {
			return fmt.Sprintf("line %d: %s -- %s", i+1, la[i], lb[i])
		}
	}
	return fmt.Sprintf("%d lines more", len(lb)-len(la))
}

// chunkReader returns at most n bytes per call
type chunkReader struct {
	r io.Reader
	n int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(p) > c.n {
		p = p[:c.n]
	}
	return c.r.Read(p)
}

// faultReader fails with err after n bytes
type faultReader struct {
	s   string
	n   int
	err error
	pos int
	sim bool // deliver the last bytes together with the error
	// fail only once, then go on with the rest
	once, failed bool
}

func (f *faultReader) Read(p []byte) (int, error) {
	if f.failed {
		if f.pos >= len(f.s) {
			return 0, io.EOF
		}
		k := copy(p, f.s[f.pos:])
		f.pos += k
		return k, nil
	}
	if f.pos >= f.n {
		f.failed = f.once
		return 0, f.err
	}
	k := copy(p, f.s[f.pos:f.n])
	f.pos += k
	if f.sim && f.pos >= f.n {
		f.failed = f.once
		return k, f.err
	}
	return k, nil
}

var errFault = errors.New("injected fault")

// faultWriter fails the k-th write (from 0)
type faultWriter struct {
	k, n int
	b    strings.Builder
}

func (f *faultWriter) WriteString(s string) (int, error) {
	f.n++
	if f.n-1 == f.k {
		return 0, errFault
	}
	return f.b.WriteString(s)
}

type faultIOWriter struct{ left int }

func (f *faultIOWriter) Write(p []byte) (int, error) {
	if len(p) > f.left {
		k := f.left
		f.left = 0
		return k, errFault
	}
	f.left -= len(p)
	return len(p), nil
}

func c11case(c *Case) {
	_, _, M, j := genModelX(c, true)
	txt := j.text
	// prefixes made of complete rounds
	var pre []string
	off := strings.Index(txt, "\n") + 1
	pre = append(pre, txt[:off])
	for {
		i := strings.Index(txt[off:], "ROUND")
		if i < 0 {
			break
		}
		nx := strings.Index(txt[off+i+1:], "ROUND")
		if nx < 0 {
			off = len(txt)
		} else {
			off = off + i + 1 + nx
		}
		pre = append(pre, txt[:off])
	}
	isPrefix := map[string]int{}
	for k, p := range pre {
		isPrefix[p] = k
	}
	step := 1
	if len(txt) > 6000 {
		step = 1 + len(txt)/6000
	}
	for i := 0; i < len(txt); i += step {
		m, err := reload(txt[:i])
		c.Count("cuts", 1)
		if err != nil {
			c.Count("cuts_rejected", 1)
			continue
		}
		c.Count("cuts_accepted", 1)
		t, err := modelJSON(m)
		c.Check(err == nil, "cut at byte %d: accepted, but the model cannot be written: %v", i, err)
		k, ok := isPrefix[t]
		c.Check(ok, "cut at byte %d of %d: accepted as a model that is not made of the first complete rounds", i, len(txt))
		// the rounds it contains were complete in the cut file (the final newline may be missing)
		c.Check(len(pre[k]) <= i+1, "cut at byte %d: accepted with %d rounds, which were not complete", i, k)
		// and no complete round was dropped, beyond one whose final newline is missing
		c.Check(k+1 >= len(pre) || len(pre[k+1]) >= i, "cut at byte %d: only %d rounds were kept, although round %d was complete", i, k, k)
	}
	m, err := reload(txt)
	c.Check(err == nil, "complete file rejected: %v", err)
	if err == nil {
		t, _ := modelJSON(m)
		c.Check(t == txt, "complete file read as another model")
	}
	// read faults
	for i := 0; i <= len(txt); i += 1 + c.R.IntN(1+len(txt)/400) {
		f := &faultReader{s: txt, n: i, err: pick(c.R, errFault, io.ErrUnexpectedEOF, io.ErrClosedPipe), sim: c.R.IntN(2) == 0, once: c.R.IntN(3) == 0}
		_, err := boo.UnJSONMultiClass(bufio.NewReaderSize(f, 16+c.R.IntN(5000)))
		c.Check(err != nil, "a read fault after %d of %d bytes was not reported", i, len(txt))
		c.Count("read_faults", 1)
	}
	// write faults, one at every write
	for k := 0; ; k++ {
		w := &faultWriter{k: k}
		err := boo.JSONMultiClass(M, "softmax", w)
		if w.n <= k {
			c.Check(err == nil && w.b.String() == txt, "no fault, but error %v", err)
			break
		}
		c.Check(err != nil, "the failure of write %d was not reported", k)
		c.Count("write_faults", 1)
	}
	for i := 0; i < len(txt); i += 1 + len(txt)/50 {
		bw := bufio.NewWriterSize(&faultIOWriter{i}, 16)
		err := boo.JSONMultiClass(M, "softmax", bw)
		if e2 := bw.Flush(); err == nil {
			err = e2
		}
		c.Check(err != nil, "a device full after %d bytes was not reported", i)
		c.Count("write_faults", 1)
	}
	// unparsable lines
	lines := strings.Split(strings.TrimSuffix(txt, "\n"), "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "ROUND") || strings.HasPrefix(l, "CLASS") {
			continue
		}
		for _, bad := range []string{"", "garbage", l[:len(l)/2], "[1,2]", strings.Replace(l, ":", ";", 1), strings.Replace(l, "\"Threshold\":", "\"Threshold\":x", 1), l + "}"} {
			if bad == l {
				continue
			}
			ls := append([]string(nil), lines...)
			ls[i] = bad
			_, err := reload(strings.Join(ls, "\n") + "\n")
			c.Check(err != nil, "line %d replaced by %q was not reported", i+1, bad)
			c.Count("bad_lines", 1)
		}
	}
	for i := 1; i <= len(lines); i++ { // a line that does not belong there
		bad := pick(c.R, "garbage", "[1,2]", "{", "7;", `{"Id":1,`, "ROUN", "nul")
		ls := append([]string(nil), lines[:i]...)
		ls = append(append(ls, bad), lines[i:]...)
		_, err := reload(strings.Join(ls, "\n") + "\n")
		c.Check(err != nil, "a line %q inserted after line %d was not reported", bad, i)
		c.Count("bad_lines", 1)
	}
	// values of the wrong type
	for i, l := range lines {
		if strings.HasPrefix(l, "ROUND") || strings.HasPrefix(l, "CLASS") {
			continue
		}
		var m map[string]json.RawMessage
		if json.Unmarshal([]byte(l), &m) != nil {
			continue
		}
		for k, v := range m {
			if string(v) == "null" || len(lines) > 200 && c.R.IntN(4) > 0 {
				continue
			}
			m[k] = json.RawMessage(pick(c.R, `"zz"`, `{"a":1}`, `[["zz"]]`))
			if v[0] == '"' {
				m[k] = json.RawMessage(pick(c.R, `1`, `{"a":1}`, `[2]`, `true`))
			}
			b, _ := json.Marshal(m)
			m[k] = v
			ls := append([]string(nil), lines...)
			ls[i] = string(b)
			_, err := reload(strings.Join(ls, "\n") + "\n")
			c.Check(err != nil, "line %d with a value of the wrong type was not reported: %s", i+1, b)
			c.Count("bad_types", 1)
		}
	}
	c11unsavable(c)
	// unknown activation
	var w faultWriter
	w.k = -1
	name := pick(c.R, "", "sigmoid", "Softmax", "softmax2")
	if err := boo.JSONMultiClass(M, name, &w); err == nil {
		_, err = reload(w.b.String())
		c.Check(err != nil, "a model with the activation %q was accepted", name)
	}
}

// numbers that JSON cannot express
func c11unsavable(c *Case) {
	R := c.R
	bad := pick(R, math.NaN(), math.Inf(1), math.Inf(-1))
	D := mkBunch(genX(R, 6, 2, 0), []int{0, 1, 0, 1, 2, 2})
	o := genOptions(R, R.IntN(2) == 0, false)
	o.Rounds = 0
	if R.IntN(2) == 0 {
		o.LearningRate = bad
	} else {
		o.BaseScore = bad
	}
	w := &faultWriter{k: -1}
	err := boo.JSONMultiClass(boo.NewMultiClass(D, o), "softmax", w)
	c.Check(err != nil, "a model with learning rate %v and base score %v was saved without an error, as %q", o.LearningRate, o.BaseScore, w.b.String())
	var nodes []*vTree
	var mk func(d int) *vTree
	mk = func(d int) *vTree {
		t := &vTree{}
		t.n.Value, t.n.Threshold = R.NormFloat64(), R.NormFloat64()
		nodes = append(nodes, t)
		if d > 0 && R.IntN(3) > 0 {
			t.l, t.r = mk(d-1), mk(d-1)
		}
		return t
	}
	root := mk(4)
	if _, _, err := utils.JSONTree(root); err != nil {
		c.Check(false, "a tree of finite values cannot be saved: %v", err)
	}
	nodes[R.IntN(len(nodes))].n.Value = bad
	_, _, err = utils.JSONTree(root)
	c.Check(err != nil, "a tree with a value of %v in one of its %d nodes was saved without an error", bad, len(nodes))
	c.Count("unsavable", 2)
}

func init() {
	register(&Prop{ID: "C10", Rule: "random models of both kinds (hostile feature values, empty ensembles, stopped classes, extreme rates) written and read back (also through readers that deliver few bytes); single trees through JSONTree/UnJSONTree with an independent node type",
		Suites: []Suite{{"model", 2000, 50000, false, c10model}, {"tree", 3000, 60000, false, c10tree}},
		Floors: map[string]int64{"predictions": 20000, "model_nodes": 20000, "tree_roundtrips": 2000}})
	register(&Prop{ID: "C11", Level: "fault_enumeration", Rule: "small saved models cut at every byte (every few bytes above 6 kB), a read fault injected at many offsets, a write fault at every single write, every metadata/tree line replaced by unparsable text and every value in them by one of a wrong type, unknown activation names, models and trees with numbers that JSON cannot express",
		Suites: []Suite{{"damage", 150, 3000, false, c11case}},
		Floors: map[string]int64{"cuts": 50000, "cuts_accepted": 300, "read_faults": 5000, "write_faults": 3000, "bad_lines": 3000, "bad_types": 5000, "unsavable": 200}})
}
