package main

import (
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/rmera/boo/confu"
	"github.com/rmera/boo/utils"
)

var csvSeps = []string{",", ";", "\t", "|", ":", " ", "→", "¦"}

// value that survives 4 decimals in the sense of the property
func genVal(c *Case) float64 {
	R := c.R
	switch R.IntN(7) {
	case 0:
		return 0
	case 1:
		return float64(R.IntN(2000) - 1000)
	case 2:
		return R.NormFloat64() * 1e-3
	case 3:
		return R.NormFloat64() * 1e9
	case 4:
		return -R.Float64()
	}
	return R.NormFloat64() * 10
}

func keyName(c *Case, i int) string {
	return pick(c.R, "x", "Feat", "petal_len", "é", "a-b", "k.", "#", "%", "0x", "1") + strconv.Itoa(i)
}

func genTable(c *Case) *utils.DataBunch {
	R := c.R
	n, d := 1+R.IntN(12), 1+R.IntN(6)
	if R.IntN(120) == 0 {
		d = pick(R, 700, 3000, 10500)
		n = 2
	}
	if R.IntN(1500) == 0 { // a file of a few MB
		n, d = 8000+R.IntN(12000), 20+R.IntN(20)
		c.Count("large_files", 1)
	}
	D := &utils.DataBunch{}
	lab := R.IntN(4) > 0
	for i := 0; i < n; i++ {
		row := make([]float64, d)
		for k := range row {
			row[k] = genVal(c)
		}
		D.Data = append(D.Data, row)
		if lab {
			D.Labels = append(D.Labels, pick(R, R.IntN(5), -R.IntN(5), R.IntN(1<<40)))
		}
	}
	if R.IntN(2) == 0 {
		for k := 0; k < d; k++ {
			D.Keys = append(D.Keys, keyName(c, k))
		}
	}
	return D
}

// reshape changes line ends, final newline and blank lines without changing the content
func reshape(c *Case, txt string) string {
	R := c.R
	lines := strings.Split(strings.TrimRight(txt, "\n"), "\n")
	nl := pick(R, "\n", "\n", "\r\n")
	blank := R.IntN(3) == 0
	var b strings.Builder
	for i, l := range lines {
		if blank && R.IntN(3) == 0 {
			b.WriteString(nl)
			c.Count("blank_lines", 1)
		}
		b.WriteString(l)
		if i < len(lines)-1 {
			b.WriteString(nl)
		}
	}
	switch R.IntN(3) {
	case 0:
		b.WriteString(nl)
	case 1:
		if blank {
			b.WriteString(nl + nl)
		}
	default:
		c.Count("no_final_newline", 1)
	}
	return b.String()
}

func chunked(c *Case, txt string) io.Reader {
	var r io.Reader = strings.NewReader(txt)
	switch c.R.IntN(3) {
	case 0:
		r = &chunkReader{r, 1 + c.R.IntN(7)}
	case 1:
		r = &faultReader{s: txt, n: len(txt), err: io.EOF, sim: true}
	}
	return r
}

// readBack reads text from a reader or a file
func readBack(c *Case, format, txt string, header, labels bool, sep rune) (*utils.DataBunch, error) {
	if c.R.IntN(4) == 0 {
		f := filepath.Join(c.scratch, fmt.Sprintf("%s-%s-%d.txt", c.Suite, format, c.I))
		if err := os.WriteFile(f, []byte(txt), 0o600); err != nil {
			panic(err)
		}
		defer os.Remove(f)
		c.Count("file_reads", 1)
		if format == "svm" {
			return utils.DataBunchFromLibSVMFile(f, header)
		}
		if sep == ',' && c.R.IntN(2) == 0 {
			return utils.DataBunchFromCSVFile(f, header, labels)
		}
		return utils.DataBunchFromCSVFile(f, header, labels, sep)
	}
	if format == "svm" {
		return utils.ParseLibSVMFromReader(chunked(c, txt), header)
	}
	return utils.ParseCSVFromReader(chunked(c, txt), header, labels, sep)
}

func judgeTable(c *Case, got *utils.DataBunch, err error, X [][]float64, labels []int, keys []string, tol float64, txt string) {
	c.Check(err == nil, "well-formed text rejected: %v\n%s", err, clip(txt))
	c.Check(got != nil, "no dataset and no error")
	c.Check(len(got.Data) == len(X), "%d rows read, %d written\n%q", len(got.Data), len(X), clip(txt))
	for i := range X {
		c.Check(len(got.Data[i]) == len(X[i]), "row %d: %d values read, %d written", i, len(got.Data[i]), len(X[i]))
		for k, v := range X[i] {
			g := got.Data[i][k]
			c.Check(g == v || math.Abs(g-v) <= tol+2e-16*math.Abs(v)*boolF(tol > 0), "row %d column %d: %v read, %v written", i, k, g, v)
		}
	}
	if labels == nil {
		for _, l := range got.Labels {
			c.Check(l == -1, "label %d read from data without labels", l)
		}
	} else {
		c.Check(len(got.Labels) == len(labels), "%d labels read, %d written", len(got.Labels), len(labels))
		for i := range labels {
			c.Check(got.Labels[i] == labels[i], "row %d: label %d read, %d written", i, got.Labels[i], labels[i])
		}
	}
	c.Check(len(got.Keys) == len(keys), "feature names %v read, %v written", got.Keys, keys)
	for i := range keys {
		c.Check(got.Keys[i] == keys[i], "feature names %v read, %v written", got.Keys, keys)
	}
	c.Count("rows", len(X))
	c.Count("tables", 1)
}

func boolI(b bool) int {
	if b {
		return 1
	}
	return 0
}

func boolF(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

func c12roundtrip(c *Case) {
	D := genTable(c)
	if c.R.IntN(40) == 0 { // no rows
		D.Data = D.Data[:0]
		if D.Labels != nil {
			D.Labels = D.Labels[:0]
		}
		c.Count("tables_without_rows", 1)
	}
	keep := cloneX(D.Data)
	wl := make([]int, len(D.Data))
	for i := range wl {
		wl[i] = -1
		if D.Labels != nil {
			wl[i] = D.Labels[i]
		}
	}
	sep := pick(c.R, csvSeps...)
	var txt string
	if sep == "," && c.R.IntN(2) == 0 {
		txt = D.CSV()
	} else {
		txt = D.CSV(sep)
	}
	t := reshape(c, txt)
	got, err := readBack(c, "csv", t, D.Keys != nil, true, []rune(sep)[0])
	judgeTable(c, got, err, D.Data, wl, D.Keys, 5.0001e-5, t)
	t = D.LibSVM()
	for i, l := range strings.Split(strings.TrimRight(t, "\n"), "\n") {
		if len(D.Data) == 0 && D.Keys == nil {
			break
		}
		for k, v := range strings.Fields(l)[1:] {
			c.Check(strings.HasPrefix(v, strconv.Itoa(k+1)+":"), "LibSVM line %d: term %d is %q, expected index %d", i+1, k+1, v, k+1)
		}
	}
	t = reshape(c, t)
	got, err = readBack(c, "svm", t, D.Keys != nil, true, 0)
	judgeTable(c, got, err, D.Data, wl, D.Keys, 5.0001e-5, t)
	for i := range keep {
		c.Check(eqF(keep[i], D.Data[i]), "writing changed the data")
	}
	if len(D.Data) == 0 {
		c.Sig("empty %v", D.Keys)
		return
	}
	c.Sig("n%d d%d k%v l%v %s %v", len(D.Data), len(D.Data[0]), D.Keys != nil, D.Labels != nil, sep, D.Data[0][0])
	if len(D.Data[0]) < 10 {
		c.Sample(map[string]any{"libsvm": clip(t), "csv": clip(txt)})
	}
}

func numText(c *Case, v float64) string {
	switch c.R.IntN(4) {
	case 0:
		return strconv.FormatFloat(v, 'e', -1, 64)
	case 1:
		if math.Abs(v) < 1e15 && math.Abs(v) > 1e-15 {
			t := strconv.FormatFloat(v, 'f', -1, 64)
			switch c.R.IntN(4) {
			case 0: // .5 for 0.5
				t = strings.Replace(t, "0.", ".", boolI(strings.HasPrefix(strings.TrimPrefix(t, "-"), "0.")))
			case 1:
				if strings.Contains(t, ".") {
					t += "000"
				} else {
					t += "."
				}
			case 2: // leading zeros are decimal
				if v > 0 {
					t = "00" + t
				}
			}
			return t
		}
	case 2:
		if v >= 0 && c.R.IntN(3) == 0 {
			return "+" + strconv.FormatFloat(v, 'g', -1, 64)
		}
	}
	return strconv.FormatFloat(v, 'g', -1, 64)
}

// genText writes a table as text in the given format with full precision and free layout; lines are returned separately
func genText(c *Case, format string, header, labels bool, sep string) (lines []string, X [][]float64, lab []int, keys []string) {
	R := c.R
	n, d := 1+R.IntN(8), 1+R.IntN(5)
	if c.Suite == "text" && R.IntN(160) == 0 {
		n, d = 2, 12000
	}
	pad := func() string {
		if format == "svm" {
			return pick(R, " ", " ", "  ", "\t", "   ")
		}
		if sep == " " {
			return sep
		}
		return sep + pick(R, "", "", " ", "  ")
	}
	if header {
		l := []string{}
		for k := 0; k < d; k++ {
			keys = append(keys, keyName(c, k))
		}
		for k, v := range keys {
			if format == "svm" {
				l = append(l, fmt.Sprintf("%d:%s", k+1, v))
			} else {
				l = append(l, v)
			}
		}
		if labels || format == "svm" {
			l = append([]string{"Labels"}, l...)
		}
		s := l[0]
		for _, v := range l[1:] {
			s += pad() + v
		}
		lines = append(lines, s)
	}
	for i := 0; i < n; i++ {
		row := make([]float64, d)
		var f []string
		if labels || format == "svm" {
			v := pick(R, R.IntN(5), -R.IntN(9), int(R.Int64N(1<<50)))
			if R.IntN(30) == 0 {
				v = pick(R, math.MaxInt, math.MinInt, 1<<53+1, -1<<53-1, 1<<32+3, 255, 65536)
			}
			lab = append(lab, v)
			t := strconv.Itoa(v)
			if R.IntN(12) == 0 { // still decimal
				switch {
				case v >= 0:
					t = pick(R, "+", "0", "00", "+0") + t
				default:
					t = "-0" + t[1:]
				}
			}
			f = append(f, t)
		}
		for k := range row {
			switch R.IntN(5) {
			case 0:
				row[k] = 0
			case 1:
				row[k] = R.NormFloat64() * math.Pow(10, float64(R.IntN(600)-300))
			default:
				row[k] = R.NormFloat64()
			}
			s := numText(c, row[k])
			if format == "svm" {
				s = fmt.Sprintf("%d:%s", k+1, s)
			} else if R.IntN(12) == 0 {
				s = `"` + s + `"`
			}
			f = append(f, s)
		}
		s := f[0]
		if format == "svm" && R.IntN(4) == 0 {
			s = pick(R, " ", "\t", "  ") + s
		}
		var b strings.Builder
		b.WriteString(s)
		for _, v := range f[1:] {
			b.WriteString(pad())
			b.WriteString(v)
		}
		if format == "svm" && R.IntN(4) == 0 {
			b.WriteString(pick(R, " ", "\t"))
		}
		lines = append(lines, b.String())
		X = append(X, row)
	}
	return
}

func c12text(c *Case) {
	R := c.R
	format := pick(R, "svm", "csv")
	header, labels := R.IntN(2) == 0, R.IntN(3) > 0
	sep := pick(R, csvSeps...)
	lines, X, lab, keys := genText(c, format, header, labels, sep)
	t := reshape(c, strings.Join(lines, "\n"))
	got, err := readBack(c, format, t, header, labels, []rune(sep)[0])
	judgeTable(c, got, err, X, lab, keys, 0, t)
	c.Sig("%s %v %v %s %v", format, header, labels, sep, X[0][0])
}

func c13faults(c *Case) {
	R := c.R
	format := pick(R, "svm", "csv")
	header, labels := R.IntN(2) == 0, R.IntN(3) > 0
	if format == "svm" {
		labels = true
	}
	sep := pick(R, ",", ";", "|")
	lines, X, _, _ := genText(c, format, header, labels, sep)
	h := 0
	if header {
		h = 1
	}
	d := len(X[0])
	if d > 100 {
		return
	}
	at := h + R.IntN(len(X))
	var f []string
	if format == "svm" {
		f = strings.Fields(lines[at])
	} else {
		f = strings.Split(strings.ReplaceAll(lines[at], `"`, ""), sep)
		for i := range f {
			f[i] = strings.TrimSpace(f[i])
		}
	}
	l0 := 0
	if labels {
		l0 = 1
	}
	k := l0 + R.IntN(d)
	kind := R.IntN(6)
	what := ""
	if kind == 0 && !labels {
		kind = 1
	}
	if kind == 2 && format == "csv" {
		kind = 1
	}
	if (kind == 3 || kind == 4) && len(X) < 2 {
		kind = 1
	}
	badnum := pick(R, "x", "1.2.3", "--4", "1e", "0x", "one", "1,5x", "1_", "?", "#1", "//2", "%3", "1 .5x", "'1'", "1#2", "-", "+", ".", "e5", "\u0661", "1;5;", "true", "0b1", "1f", "1d0", "1e999", "-1e400", "1e309", "-2e308", "12%", "$5", "(5)", "1.5s", "1/2", "2*3", "1.5-", "1..", "+-1", "~1")
	if sep != "," && R.IntN(8) == 0 {
		badnum = pick(R, "1,5", "0,25", "1,000")
	}
	if sep == "," {
		badnum = strings.ReplaceAll(badnum, ",", "")
	}
	switch kind {
	case 0:
		what = "label"
		f[0] = pick(R, "x", "1.5", "2a", "--1", "1e3", "999999999999999999999999", "9223372036854775808", "-9223372036854775809", "#1", "#", "//1", "%2", "1.0", "3.", "0x10", "0b1", "0o7", "1_0", "1e0", "'1'", "NaN", "true", "-", "+", "1#", "\u0661", "18446744073709551617")
	case 1:
		what = "value"
		if format == "svm" {
			f[k] = strings.SplitN(f[k], ":", 2)[0] + ":" + badnum
		} else {
			f[k] = badnum
		}
	case 2:
		what = "colon"
		if header && R.IntN(3) == 0 {
			what = "colon in header"
			at = 0
			f = strings.Fields(lines[at])
		}
		if R.IntN(2) == 0 {
			f[k] = strings.Replace(f[k], ":", "", 1)
		} else {
			f[k] += pick(R, ":", ":3", ":0.5", "::")
		}
	case 3:
		what = "missing feature"
		if len(f)-l0 == 1 && format == "csv" && !labels {
			return // would be a blank line
		}
		f = append(f[:k], f[k+1:]...)
	case 4:
		what = "extra feature"
		e := "1.5"
		if format == "svm" {
			e = fmt.Sprintf("%d:1.5", d+1)
		}
		f = append(f, e)
	case 5:
		what = "read fault"
	}
	join := sep
	if format == "svm" {
		join = " "
	}
	var got *utils.DataBunch
	var err error
	if kind == 5 {
		t := strings.Join(lines, "\n") + "\n"
		n := R.IntN(len(t) + 1)
		fr := &faultReader{s: t, n: n, err: pick(R, errFault, io.ErrUnexpectedEOF, io.ErrClosedPipe), sim: R.IntN(2) == 0, once: R.IntN(3) == 0}
		var rd io.Reader = fr
		if R.IntN(3) == 0 {
			rd = &chunkReader{fr, 1 + R.IntN(9)}
		}
		if format == "svm" {
			got, err = utils.ParseLibSVMFromReader(rd, header)
		} else {
			got, err = utils.ParseCSVFromReader(rd, header, labels, []rune(sep)[0])
		}
		what = fmt.Sprintf("%s after %d of %d bytes", what, n, len(t))
		c.Count("read_faults", 1)
	} else {
		lines[at] = strings.Join(f, join)
		t := reshape(c, strings.Join(lines, "\n"))
		got, err = readBack(c, format, t, header, labels, []rune(sep)[0])
		if at == len(lines)-1 {
			c.Count("fault_in_last_line", 1)
		}
		if at == h {
			c.Count("fault_in_first_row", 1)
		}
		c.Count("malformed_"+strings.ReplaceAll(what, " ", "_"), 1)
	}
	c.Check(err != nil, "%s: bad %s in line %d not reported\n%s", format, what, at+1, clip(strings.Join(lines, "\n")))
	c.Check(got == nil, "%s: bad %s reported, but a dataset was returned too", format, what)
	c.Sig("%s %s %d/%d %d %v", format, what, at, len(lines), k, X[0][0])
	c.Sample(map[string]any{"format": format, "fault": what, "line": at + 1, "text": clip(strings.Join(lines, "\n")), "error": fmt.Sprint(err)})
}

func c13fuzz(c *Case) {
	R := c.R
	var t []byte
	header, labels := R.IntN(2) == 0, R.IntN(2) == 0
	if R.IntN(2) == 0 {
		al := []byte("0123456789:., \n\n\r\t\";|ex-+NaInf\x00\xff#")
		t = make([]byte, R.IntN(60))
		for i := range t {
			t[i] = al[R.IntN(len(al))]
		}
	} else {
		lines, _, _, _ := genText(c, pick(R, "svm", "csv"), header, labels, ",")
		t = []byte(strings.Join(lines, "\n"))
		for m := R.IntN(4); m >= 0 && len(t) > 0; m-- {
			i := R.IntN(len(t))
			switch R.IntN(4) {
			case 0:
				t[i] = byte(R.IntN(256))
			case 1:
				t = append(t[:i:i], t[min(len(t), i+1+R.IntN(5)):]...)
			case 2:
				t = append(t[:i:i], append([]byte(pick(R, "\n", " ", ":", ",", "\r", "\"", "\n\n")), t[i:]...)...)
			case 3:
				t = t[:i]
			}
		}
	}
	check := func(D *utils.DataBunch, err error, what string) {
		if err != nil {
			c.Check(D == nil, "%s: error %v together with a dataset", what, err)
			c.Count("fuzz_rejected", 1)
			return
		}
		c.Count("fuzz_accepted", 1)
		c.Check(D != nil, "%s: no dataset and no error", what)
		for i := range D.Data {
			c.Check(len(D.Data[i]) == len(D.Data[0]), "%s: row %d has %d features, the first has %d: %q", what, i, len(D.Data[i]), len(D.Data[0]), t)
		}
		c.Check(len(D.Labels) == len(D.Data) || len(D.Labels) == 0, "%s: %d labels for %d rows", what, len(D.Labels), len(D.Data))
	}
	D, err := utils.ParseLibSVMFromReader(chunked(c, string(t)), header)
	check(D, err, "libSVM")
	D, err = utils.ParseCSVFromReader(chunked(c, string(t)), header, labels, pick(R, ',', ';', '\t', '\n', '"', 0))
	check(D, err, "CSV")
	if R.IntN(20) == 0 {
		miss := filepath.Join(c.scratch, "no", "such", "file")
		D, err = utils.DataBunchFromLibSVMFile(miss, header)
		c.Check(D == nil && err != nil, "missing libSVM file not reported")
		D, err = utils.DataBunchFromCSVFile(miss, header, labels)
		c.Check(D == nil && err != nil, "missing CSV file not reported")
		D, err = utils.DataBunchFromLibSVMFile(c.scratch, header)
		c.Check(D == nil && err != nil, "unreadable libSVM file (a directory) not reported")
		D, err = utils.DataBunchFromCSVFile(c.scratch, header, labels)
		c.Check(D == nil && err != nil, "unreadable CSV file (a directory) not reported")
		c.Count("missing_files", 1)
	}
	if len(t) > 3 {
		c.Sig("%s", t)
	}
}

// ---- C27 ----

func c27case(c *Case) {
	R := c.R
	f := filepath.Join(c.scratch, fmt.Sprintf("names-%d", c.I))
	defer os.Remove(f)
	sep := pick(R, " ", " ", ",", ";", "\t", "::", "=", "->", "--", "|", " : ", ", ")
	want := map[int]string{}
	var lines []string
	n := R.IntN(12)
	if R.IntN(300) == 0 {
		n = 500 + R.IntN(3000)
		c.Count("long_files", 1)
	}
	for i := 0; i < n; i++ {
		num := pick(R, i, i+1, -i-1, R.IntN(1<<40))
		if _, ok := want[num]; ok {
			continue
		}
		name := pick(R, "HOST", "x", "clase_", "ñandú", "α-helix", "a.b/", "#", "\"", "'q'", "//") + strconv.Itoa(R.IntN(99))
		if R.IntN(2000) == 0 {
			name += strings.Repeat("n", 4000+R.IntN(90000))
			c.Count("long_names", 1)
		}
		if sep != " " && R.IntN(3) == 0 {
			name = "two words"
		}
		if len(sep) > 1 && R.IntN(2) == 0 { // a part of the separator does not separate
			part := sep[:1]
			if part == " " {
				part = sep[1:2]
			}
			name = "a" + part + "b" + name
		}
		want[num] = name
		s := sep
		if sep == " " {
			s = pick(R, " ", "  ", "\t", " \t ")
		}
		l := strconv.Itoa(num) + s + name
		if sep == " " && R.IntN(4) == 0 {
			l = "  " + l + " "
		}
		lines = append(lines, l)
	}
	read := func(t string) (map[int]string, error) {
		if err := os.WriteFile(f, []byte(t), 0o600); err != nil {
			panic(err)
		}
		if sep == " " {
			if R.IntN(2) == 0 {
				return confu.ReadNameMap(f)
			}
			return confu.ReadNameMap(f, pick(R, " ", ""))
		}
		return confu.ReadNameMap(f, sep)
	}
	t := reshape(c, strings.Join(lines, "\n"))
	m, err := read(t)
	c.Check(err == nil, "well-formed name file rejected: %v\n%q", err, t)
	c.Check(len(m) == len(want), "%d names read, the file has %d\n%q", len(m), len(want), t)
	for k, v := range want {
		c.Check(m[k] == v, "name of %d read as %q, the file has %q", k, m[k], v)
	}
	c.Count("maps", 1)
	c.Count("names", len(want))
	// malformed
	if len(lines) > 0 {
		at := R.IntN(len(lines))
		bad := append([]string(nil), lines...)
		bad[at] = pick(R, "x"+sep+"name", "12", "1.5"+sep+"name", "name", sep+"name"+sep+"z", "7a"+sep+"b", "-", "#"+sep+"name", "#1"+sep+"name", "# a comment", "//"+sep+"name", "0x1"+sep+"name", "1e3"+sep+"name", "1_0"+sep+"name", "\""+"1\""+sep+"name", "99999999999999999999"+sep+"name")
		b := reshape(c, strings.Join(bad, "\n"))
		m, err = read(b)
		c.Check(err != nil && m == nil, "malformed line %q gave the map %v, error %v", bad[at], m, err)
		c.Count("malformed", 1)
	}
	m, err = confu.ReadNameMap(f+"-missing", sep)
	c.Check(err != nil && m == nil, "missing file gave the map %v", m)
	m, err = confu.ReadNameMap(c.scratch, sep)
	c.Check(err != nil && m == nil, "unreadable file gave the map %v", m)
	// arbitrary bytes
	al := []byte("0123456789 \n\n,;\tab:=-\r\x00\xff")
	fz := make([]byte, R.IntN(40))
	for i := range fz {
		fz[i] = al[R.IntN(len(al))]
	}
	m, err = read(string(fz))
	c.Check((err == nil) == (m != nil), "map %v with error %v", m, err)
	c.Count("fuzzed", 1)
	// simple map
	var ls []int
	for i := R.IntN(8); i > 0; i-- {
		ls = append(ls, pick(R, R.IntN(10), -R.IntN(10), R.IntN(1<<50)))
	}
	sm := confu.MakeSimpleNameMap(ls)
	set := map[int]bool{}
	for _, v := range ls {
		set[v] = true
		c.Check(sm[v] == strconv.Itoa(v), "simple name of %d is %q", v, sm[v])
	}
	c.Check(len(sm) == len(set), "simple map %v for %v", sm, ls)
	if len(lines) > 0 {
		c.Sig("%q", t)
	}
	c.Sample(map[string]any{"separator": sep, "text": clip(t), "names": len(want)})
}

func init() {
	register(&Prop{ID: "C12", Rule: "random tables written as LibSVM and CSV and read back, and texts written with full precision in free layout (padding, quotes, LF/CRLF, blank lines, no final newline, rows up to 12000 features), read from files and from readers that deliver few bytes at a time",
		Suites: []Suite{{"roundtrip", 6000, 150000, false, c12roundtrip}, {"text", 8000, 200000, false, c12text}},
		Floors: map[string]int64{"tables": 15000, "rows": 60000, "no_final_newline": 3000, "blank_lines": 3000, "file_reads": 2000}})
	register(&Prop{ID: "C13", Level: "fault_enumeration", Rule: "one fault per text: bad label, bad value, missing colon, missing or extra feature at any row, read error at any byte offset; plus arbitrary and mutated bytes, missing and unreadable files",
		Suites: []Suite{{"faults", 12000, 300000, false, c13faults}, {"fuzz", 40000, 1500000, false, c13fuzz}},
		Floors: map[string]int64{"malformed_label": 500, "malformed_value": 500, "malformed_colon": 300, "malformed_missing_feature": 500, "malformed_extra_feature": 500, "read_faults": 1000, "fault_in_last_line": 500, "fuzz_accepted": 1000, "fuzz_rejected": 10000, "missing_files": 500}})
	register(&Prop{ID: "C27", Rule: "name files with several separators, blank lines, CRLF, no final newline; the same with one malformed line; arbitrary bytes; missing and unreadable files",
		Suites: []Suite{{"names", 6000, 150000, false, c27case}},
		Floors: map[string]int64{"maps": 5000, "names": 15000, "long_names": 2, "long_files": 5, "malformed": 3000, "no_final_newline": 1000}})
}
