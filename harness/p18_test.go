package lens

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"image"
	_ "image/jpeg"
	_ "image/png"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"golang.org/x/tools/go/packages"
)

// vfObj is a JSON object which TLC writes as [] when it is empty.
type vfObj[T any] map[string]T

func (m *vfObj[T]) UnmarshalJSON(b []byte) error {
	if strings.TrimSpace(string(b)) == "[]" {
		*m = vfObj[T]{}
		return nil
	}
	x := map[string]T{}
	err := json.Unmarshal(b, &x)
	*m = x
	return err
}

type vfFnID struct {
	M string
	I int
}

func (f *vfFnID) UnmarshalJSON(b []byte) error { return json.Unmarshal(b, &[]any{&f.M, &f.I}) }

func (f vfFnID) ident() string {
	switch f.I % 4 {
	case 1:
		return fmt.Sprintf("%s:F%d", f.M, f.I)
	case 2:
		return fmt.Sprintf("%s:(*T).F%d", f.M, f.I)
	case 3:
		return fmt.Sprintf("%s/in:F%d[K comparable, V any]", f.M, f.I)
	}
	return fmt.Sprintf("%s:T.F%d", f.M, f.I)
}

type vfRepCall struct{ Same, Chg, Lost, Fresh, T1, T2 int }
type vfRepCase struct {
	O struct {
		Upd []struct {
			Name     string
			Indirect bool
		}
		Funcs   vfObj[int]
		Callers vfObj[[]vfFnID]
		Tests   vfObj[struct{ Gen bool }]
		Res     vfObj[struct {
			Pre, Post bool
			Hit, Pan  int
			Calls     vfObj[vfRepCall]
		}]
		Mut                              struct{ Count, Squashed int }
		Reached, Untracked, Checks, Mult int
	}
	End string
	Doc struct {
		Root                                                 string
		Modules, Callers, Tests                              []string
		Reachable                                            []vfFnID
		Changed, Untracked, Reached, Gen, Checks, Same, Diff int
		Mut                                                  struct{ Count, Squashed int }
		Perf                                                 []struct {
			Test, Caller string
			Pre, Post    int
		}
		Details vfObj[struct {
			Baseline, Regression bool
			Diff, Hit            int
			Fields               vfObj[int]
		}]
	}
	Charts struct {
		Impact, Coverage, Stability, Mutation, Time [2]int
		Risky                                       []string
	}
	Plan  struct{ Json, Chart string }
	Fails bool
}

func vfRepCaller(c string) string {
	switch c {
	case "B":
		return "ex.com/p/store:(*ConnectionPoolManagerWithRetries).B"
	case "C":
		return "ex.com/p:" + strings.Repeat("äöü", 13) + ".C"
	case "D":
		return "ex.com/p:D[K]"
	case "E":
		return "ex.com/px:" + strings.Repeat("äöü", 13) + ".E"
	}
	return "ex.com/p/x:" + c
}
func (c *vfRepCase) testName(t string) string {
	if c.O.Tests[t].Gen {
		return GeneratedTestFunctionPrefix + t
	}
	if t == "T3" {
		return "Test_AVeryLongNameOfATestThatDoesNotFitIntoItsColumn_" + t
	}
	return "Test_" + t
}
func (c *vfRepCase) testIdent(t string) string { return "ex.com/p:" + c.testName(t) }

// one run of the engine whose stages find what the case says, in an order given by perm
type vfRepRun struct {
	c       *vfRepCase
	perm    *rand.Rand
	fns     map[vfFnID]*ModuleFunction
	callers map[string]*CallerFunction
	reports []TestReport
	bad     []string
}

func vfShuffle[T any](r *rand.Rand, s []T) []T {
	r.Shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] })
	return s
}
func vfKeys[T any](r *rand.Rand, m map[string]T) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return vfShuffle(r, out)
}
func (e *vfRepRun) Cleanup() {}
func (e *vfRepRun) AnalyzeModuleChanges(Config, bool, []*ModuleChange, int) (map[string][]*ModuleFunction, map[string][]*packages.Package, error) {
	e.fns = map[vfFnID]*ModuleFunction{}
	out := map[string][]*ModuleFunction{}
	for m, n := range e.c.O.Funcs {
		out[m] = nil
		for i := 1; i <= n; i++ {
			id := vfFnID{m, i}
			e.fns[id] = &ModuleFunction{Function: Function{FunctionIdent: id.ident(), FunctionName: fmt.Sprintf("F%d", i)}}
			out[m] = append(out[m], e.fns[id])
		}
		vfShuffle(e.perm, out[m])
	}
	return out, nil, nil
}
func (e *vfRepRun) PerformCallerStaticAnalysis(_ Config, mc []*ModuleFunction) ([]*CallerFunction, ReachableModuleChange, error) {
	e.callers = map[string]*CallerFunction{}
	reach := ReachableModuleChange{}
	var out []*CallerFunction
	for _, n := range vfKeys(e.perm, e.c.O.Callers) {
		cf := &CallerFunction{Function: Function{FunctionIdent: vfRepCaller(n), FunctionName: n}}
		for _, f := range e.c.O.Callers[n] {
			cf.ChangeFunctions = append(cf.ChangeFunctions, e.fns[f])
			reach[e.fns[f].FunctionIdent] = e.fns[f]
		}
		vfShuffle(e.perm, cf.ChangeFunctions)
		e.callers[n] = cf
		out = append(out, cf)
	}
	return out, reach, nil
}
func (e *vfRepRun) ProvideTests(_ Config, callers []*CallerFunction) ([]*TestFunction, error) {
	var out []*TestFunction
	for _, n := range vfKeys(e.perm, e.c.O.Tests) {
		out = append(out, &TestFunction{Function: Function{FunctionIdent: e.c.testIdent(n), FunctionName: e.c.testName(n)}, Targets: vfShuffle(e.perm, append([]*CallerFunction{}, callers...))})
	}
	return out, nil
}

// recorded results: same, changed, lost and fresh fields
func (k vfRepCall) frames() (pre, post CallFrame) {
	pre, post = CallFrame{FieldValues: FieldValues{}, TimeMillis: uint32(k.T1)}, CallFrame{FieldValues: FieldValues{}, TimeMillis: uint32(k.T2)}
	set := func(m FieldValues, name, v string) { m[name] = &FieldValue{Value: v} }
	for i := 1; i <= k.Same; i++ {
		set(pre.FieldValues, fmt.Sprintf("same%d", i), "v")
		set(post.FieldValues, fmt.Sprintf("same%d", i), "v")
	}
	for i := 1; i <= k.Chg; i++ {
		set(pre.FieldValues, fmt.Sprintf("chg%d", i), "\told <&> \"x\" \\ \u2028 "+strconv.Itoa(i))
		set(post.FieldValues, fmt.Sprintf("chg%d", i), "new ü\n"+strconv.Itoa(i)+"\n")
	}
	for i := 1; i <= k.Lost; i++ {
		set(pre.FieldValues, fmt.Sprintf("lost%d", i), "v")
	}
	for i := 1; i <= k.Fresh; i++ {
		set(post.FieldValues, fmt.Sprintf("fresh%d", i), "v")
	}
	return pre, post
}
func (e *vfRepRun) RunModuleUpdateAnalysis(_ Config, storage Storage, _ []*ModuleChange, _ ReachableModuleChange, _ []*CallerFunction, _ []*TestFunction) (int, int, int, Storage, Storage, error) {
	pre, post := KeyPrefixStorage(storage, "pre"), KeyPrefixStorage(storage, "post")
	for _, n := range vfKeys(e.perm, e.c.O.Res) {
		x := e.c.O.Res[n]
		fn := MinimumTestFunction{FunctionIdent: e.c.testIdent(n), FunctionName: e.c.testName(n)}
		a := TestResult{TestFunction: fn, TestFailure: x.Pre, ModuleChangesHit: x.Hit, CallerResults: map[string][]CallFrame{}}
		b := TestResult{TestFunction: fn, TestFailure: x.Post, ModuleChangesHit: x.Hit + 1, CallerResults: map[string][]CallFrame{}}
		for c, k := range x.Calls {
			f, g := k.frames()
			a.CallerResults[vfRepCaller(c)], b.CallerResults[vfRepCaller(c)] = []CallFrame{f}, []CallFrame{g}
		}
		for i := 0; i < x.Pan; i++ {
			r := &b
			if i%2 == 1 {
				r = &a
			}
			if r.ProjectPanics == nil {
				r.ProjectPanics = map[string][]string{}
			}
			r.ProjectPanics[vfRepCaller("A")] = append(r.ProjectPanics[vfRepCaller("A")], fmt.Sprintf("panic %d", i))
		}
		for s, r := range map[Storage]TestResult{pre: a, post: b} {
			data, err := r.MarshalMsgpack()
			if err == nil {
				err = s.SaveState(fn.FunctionIdent, data)
			}
			if err != nil {
				return 0, 0, 0, nil, nil, err
			}
		}
	}
	return e.c.O.Checks, e.c.O.Reached, e.c.O.Untracked, pre, post, nil
}
func (e *vfRepRun) RunMutationTesting(Config, bool, bool, bool, []*ModuleFunction, []*TestFunction) (MutationResult, error) {
	return MutationResult{MutationCount: e.c.O.Mut.Count, SquashedCount: e.c.O.Mut.Squashed}, nil
}
func (e *vfRepRun) CompareTestResults(pre, post Storage, mult int) (int, int, []TestReport, error) {
	s, d, reps, err := (&DefaultTestResultAnalyzer{}).CompareTestResults(pre, post, mult)
	for _, r := range reps { // as they are now, the report may tidy them
		cp := r
		cp.CallerFieldChanges = map[string]map[string]string{}
		for k, m := range r.CallerFieldChanges {
			cp.CallerFieldChanges[k] = map[string]string{}
			for f, v := range m {
				cp.CallerFieldChanges[k][f] = v
			}
		}
		e.reports = append(e.reports, cp)
	}
	return s, d, vfShuffle(e.perm, reps), err
}

// ---- what was written ----
func vfSVGTexts(data []byte) ([]string, error) {
	dec := xml.NewDecoder(bytes.NewReader(data))
	dec.Strict = true
	var out []string
	depth, in := 0, -1
	var cur strings.Builder
	seen := false
	for {
		tok, err := dec.Token()
		if tok == nil {
			if depth != 0 || !seen {
				return nil, fmt.Errorf("the image is cut off")
			}
			return out, nil
		} else if err != nil {
			return nil, err
		}
		switch x := tok.(type) {
		case xml.StartElement:
			if depth == 0 && x.Name.Local == "svg" {
				seen = true
			}
			depth++
			if x.Name.Local == "text" {
				in = depth
				cur.Reset()
			}
		case xml.EndElement:
			if depth == in {
				out = append(out, cur.String())
				in = -1
			}
			depth--
		case xml.CharData:
			if in > 0 {
				cur.Write(x)
			}
		}
	}
}

var vfPercent = regexp.MustCompile(`^(-?[0-9][0-9,]*(?:\.[0-9]+)?)%(?: (faster|slower))?$`)

// vfChartTexts checks the labels of the charts and the table of tests at risk.
func vfChartTexts(c *vfRepCase, texts []string) (bad []string) {
	complain := func(f string, a ...any) { bad = append(bad, fmt.Sprintf(f, a...)) }
	titles := []string{"Module Change Impact", "Changed Module Function Coverage", "Field Stability", "Mutations Squashed", "Performance Change ("}
	at := make([]int, 0, 8)
	for _, title := range titles {
		n := -1
		for i, s := range texts {
			if strings.HasPrefix(s, title) {
				n = i
			}
		}
		if n < 0 {
			complain("the chart %q is missing", title)
			return
		}
		at = append(at, n)
	}
	end := len(texts)
	for i, s := range texts {
		if s == "Risky Tests" || s == "No Risky Tests Identified" {
			end = i
		}
	}
	if end == len(texts) {
		complain("the part on tests at risk is missing")
		return
	}
	at = append(at, end)
	label := func(k int) string { // the text which is neither title nor tick
		for _, s := range texts[at[k]+1 : at[k+1]] {
			if strings.Contains(s, "NaN") || strings.Contains(s, "Inf") {
				complain("%s: %s", titles[k], s)
			}
		}
		for _, s := range texts[at[k]+1 : at[k+1]] {
			if strings.Contains(s, "%") {
				return s
			}
		}
		return ""
	}
	share := func(k int, part [2]int, never100 bool) {
		s := label(k)
		m := vfPercent.FindStringSubmatch(s)
		if part[1] == 0 {
			if s != "" {
				complain("%s: %q of nothing", titles[k], s)
			}
			return
		}
		if m == nil {
			complain("%s: no percentage for %v", titles[k], part)
			return
		}
		got, _ := strconv.ParseFloat(strings.ReplaceAll(m[1], ",", ""), 64)
		want := 100 * float64(part[0]) / float64(part[1])
		if math.Abs(got-want) > 0.0501 && !(never100 && want > 99.9 && got == 99.9) {
			complain("%s: %s instead of %d of %d", titles[k], s, part[0], part[1])
		}
		if never100 && part[0] != part[1] && got >= 100 {
			complain("%s: %s although only %d of %d", titles[k], s, part[0], part[1])
		}
	}
	share(0, c.Charts.Impact, false)
	share(1, c.Charts.Coverage, false)
	share(2, c.Charts.Stability, true)
	share(3, c.Charts.Mutation, true)
	pre, post := c.Charts.Time[0], c.Charts.Time[1]
	unit := "milliseconds"
	if big := max(pre, post); big > 120000 {
		unit = "minutes"
	} else if big > 2000 {
		unit = "seconds"
	}
	if got := texts[at[4]]; got != "Performance Change ("+unit+")" {
		complain("times up to %d ms in %s", max(pre, post), got)
	}
	s := label(4)
	m := vfPercent.FindStringSubmatch(s)
	switch {
	case pre == 0 && s != "":
		complain("times: %s of nothing", s)
	case pre > 0 && (m == nil || m[2] == ""):
		complain("times: no change of %d to %d ms", pre, post)
	case pre > 0:
		got, _ := strconv.ParseFloat(strings.ReplaceAll(m[1], ",", ""), 64)
		want := 100 * math.Abs(float64(post-pre)) / float64(pre)
		if math.Abs(got-want) > 0.0501 || (m[2] == "slower") != (post > pre) {
			complain("times: %d ms to %d ms shown as %s", pre, post, s)
		}
	}
	return append(bad, vfRiskyTexts(c, texts[end:])...)
}

var vfMore = regexp.MustCompile(`^\([0-9]+morefielddifferences\)`)

func vfRiskyTexts(c *vfRepCase, texts []string) (bad []string) {
	complain := func(f string, a ...any) { bad = append(bad, fmt.Sprintf(f, a...)) }
	bare := func(s string) string {
		return strings.Map(func(r rune) rune {
			if r == ' ' || r == '\n' || r == '\t' {
				return -1
			}
			return r
		}, s)
	}
	title := ""
	if c.Doc.Root != "" {
		title = c.Doc.Root + "@" + strings.TrimSpace(vfMajor(c.Doc.Root, "0")) + "->" + strings.TrimSpace(vfMajor(c.Doc.Root, "1"))
		if texts[len(texts)-1] != title {
			complain("title %q instead of %q", texts[len(texts)-1], title)
			return
		}
		texts = texts[:len(texts)-1]
	}
	if len(c.Charts.Risky) == 0 {
		if len(texts) != 1 || texts[0] != "No Risky Tests Identified" {
			complain("tests at risk shown although there are none: %q", texts)
		}
		return
	}
	all := bare(strings.Join(texts, ""))
	head := "RiskyTestsTestNameRegressionFieldsChangedFieldChanges"
	if !strings.HasPrefix(all, head) {
		complain("table of tests at risk starts with %q", texts[0])
		return
	}
	all = all[len(head):]
	key := func(t string) [3]int {
		d := c.Doc.Details[t]
		k := [3]int{0, 1, -d.Diff}
		if c.O.Tests[t].Gen {
			k[0] = 1
		}
		if d.Regression {
			k[1] = 0
		}
		return k
	}
	less := func(a, b [3]int) bool {
		return a[0] < b[0] || a[0] == b[0] && (a[1] < b[1] || a[1] == b[1] && a[2] < b[2])
	}
	left := map[string]bool{}
	for _, t := range c.Charts.Risky {
		left[t] = true
	}
	rows := 0
	for all != "" && rows < 10 {
		found := ""
		for t := range left {
			d := c.Doc.Details[t]
			state := "Pass"
			if d.Regression {
				state = "FAIL"
			} else if d.Baseline {
				state = "Baseline FAIL"
			}
			p := bare(c.testName(t) + state + strconv.Itoa(d.Diff))
			if strings.HasPrefix(all, p) && found == "" {
				rest := all[len(p):]
				var cs []string
				names := map[string]string{}
				for k := range d.Fields {
					cs = append(cs, vfRepCaller(k))
					names[vfRepCaller(k)] = k
				}
				sort.Strings(cs)
				good := true
				for i, caller := range cs {
					if i == 2 {
						m := vfMore.FindString(rest)
						if good = good && m != ""; m != "" {
							rest = rest[len(m):]
						}
						break
					}
					var fs []string
					for n := 1; n <= d.Fields[names[caller]]; n++ {
						fs = append(fs, fmt.Sprintf("chg%d", n))
					}
					full := caller + "[" + strings.Join(fs, "|") + "]"
					if strings.HasPrefix(rest, bare(full)) {
						rest = rest[len(bare(full)):]
						continue
					}
					cut := strings.Index(rest, "..") // cut off, but showing a good part of it
					if len(full) <= 66 || cut < 40 || !strings.HasPrefix(bare(full), rest[:cut]) {
						good = false
						break
					}
					rest = rest[cut+2:]
				}
				if good {
					found, all = t, rest
				}
			}
		}
		if found == "" {
			complain("a row of the table is not a test at risk with its fields: %q", all)
			return
		}
		delete(left, found)
		for t := range left {
			if less(key(t), key(found)) {
				complain("%s shown before %s", found, t)
			}
		}
		rows++
	}
	if want := min(10, len(c.Charts.Risky)); rows != want || all != "" {
		complain("%d tests at risk shown instead of %d", rows, want)
	}
	return bad
}

// vfRepDoc is the report the case demands, without times.
func (c *vfRepCase) want(reports []TestReport) map[string]any {
	strs := func(in []string, f func(string) string) []any {
		var l []string
		for _, s := range in {
			l = append(l, f(s))
		}
		sort.Strings(l)
		out := []any{}
		for _, s := range l {
			out = append(out, s)
		}
		return out
	}
	same := func(s string) string { return s }
	var fns []string
	for _, f := range c.Doc.Reachable {
		fns = append(fns, f.ident())
	}
	num := func(n int) any { return float64(n) }
	prior, next := "", ""
	if c.Doc.Root != "" {
		prior, next = strings.TrimSpace(vfMajor(c.Doc.Root, "0")), strings.TrimSpace(vfMajor(c.Doc.Root, "1"))
	}
	perf := []any{}
	for _, p := range c.Doc.Perf {
		perf = append(perf, map[string]any{"test_function_ident": c.testIdent(p.Test), "test_function_name": c.testName(p.Test), "caller_ident": vfRepCaller(p.Caller),
			"time_diff_ms": num(p.Post - p.Pre), "pre_time_ms": num(p.Pre), "post_time_ms": num(p.Post)})
	}
	texts := map[string]map[string]map[string]string{}
	for _, r := range reports {
		texts[r.OriginalResult.TestFunction.FunctionIdent] = r.CallerFieldChanges
	}
	details := []any{}
	for t, d := range c.Doc.Details {
		fields := map[string]any{}
		for caller, n := range d.Fields {
			m := map[string]any{}
			for i := 1; i <= n; i++ {
				f := fmt.Sprintf("chg%d", i)
				m[f] = strings.TrimSpace(texts[c.testIdent(t)][vfRepCaller(caller)][f])
			}
			fields[vfRepCaller(caller)] = m
		}
		details = append(details, map[string]any{"test_function_ident": c.testIdent(t), "test_function_name": c.testName(t), "baseline_failure": d.Baseline,
			"pass_regression": d.Regression, "diff_field_count": num(d.Diff), "module_change_hit_count": num(d.Hit), "field_changes": fields})
	}
	return map[string]any{
		"module": map[string]any{"root_module_name": c.Doc.Root, "root_module_start_version": prior, "root_module_update_version": next,
			"changed_modules": strs(c.Doc.Modules, same), "changed_module_count": num(len(c.Doc.Modules)), "changed_function_count": num(c.Doc.Changed),
			"reachable_changed_functions": strs(fns, same), "reachable_changed_function_count": num(len(fns)), "untracked_module_function_count": num(c.Doc.Untracked)},
		"validation": map[string]any{"relevant_project_functions": strs(c.Doc.Callers, vfRepCaller), "relevant_project_function_count": num(len(c.Doc.Callers)),
			"relevant_test_functions": strs(c.Doc.Tests, c.testIdent), "relevant_test_function_count": num(len(c.Doc.Tests)),
			"project_field_check_point_count": num(c.Doc.Checks), "module_change_hit_in_test_count": num(c.Doc.Reached),
			"test_field_match_count": num(c.Doc.Same), "test_field_diff_count": num(c.Doc.Diff), "generated_test_function_count": num(c.Doc.Gen),
			"mutation_count": num(c.Doc.Mut.Count), "mutations_squashed": num(c.Doc.Mut.Squashed), "performance_changes": perf, "test_details": details},
	}
}

// vfRepCanon takes the times out and orders the lists whose order carries no meaning.
func vfRepCanon(doc map[string]any) string {
	for _, k := range []string{"generated_at", "run_ms", "analysis_ms", "test_discovery_ms", "field_check_ms", "mutation_ms"} {
		delete(doc, k)
	}
	for _, part := range []string{"module", "validation"} {
		m, _ := doc[part].(map[string]any)
		for k, v := range m {
			if v == nil {
				m[k] = []any{}
			}
			if l, ok := v.([]any); ok {
				sort.SliceStable(l, func(i, j int) bool { return vfJSON(l[i]) < vfJSON(l[j]) })
			}
		}
		if l, ok := m["test_details"].([]any); ok {
			for _, d := range l {
				if d, ok := d.(map[string]any); ok && d["field_changes"] == nil {
					d["field_changes"] = map[string]any{}
				}
			}
		}
	}
	return vfJSON(doc)
}

func TestVerifP18(t *testing.T) {
	r := vfNewReport()
	defer r.write(t)
	defer vfQuiet()()
	base := vfScratch(t, "p18")
	vfMust(t, os.Setenv("TMPDIR", base))
	vfMust(t, os.MkdirAll(filepath.Join(base, "gp/pkg/mod"), 0755))
	tool := filepath.Join(base, "report")
	build := exec.Command("go", "build", "-o", tool, "./cmd/report")
	build.Dir = os.Getenv("VF_REPO")
	build.Env = append(os.Environ(), "GOCACHE="+os.Getenv("VF_GOCACHE"), "TMPDIR="+base)
	if out, err := build.CombinedOutput(); err != nil {
		t.Fatalf("the report tool does not build: %v\n%s", err, out)
	}

	var wg sync.WaitGroup
	defer wg.Wait()
	slots := make(chan struct{}, 8)
	vfLines(t, os.Getenv("VF_CASES"), func(n int, doc []byte) {
		wg.Add(1)
		slots <- struct{}{}
		go func() {
			defer func() { <-slots; wg.Done() }()
			vfRepOne(t, r, n, doc, base, tool)
		}()
	})
}

func vfRepOne(t *testing.T, r *vfReport, n int, doc []byte, base, tool string) {
	gopath, cache := filepath.Join(base, "gp"), filepath.Join(base, "gp/pkg/mod")
	if r.full() {
		return
	}
	c := &vfRepCase{}
	vfMust(t, json.Unmarshal(doc, c))
	dir := filepath.Join(base, fmt.Sprint("c", n))
	defer func() { _ = os.RemoveAll(dir) }()
	mod := "module ex.com/p\n\ngo 1.21\n\nrequire (\n"
	for _, u := range c.O.Upd {
		mod += "\t" + u.Name + vfMajor(u.Name, "0")
		if u.Indirect {
			mod += " // indirect"
		}
		mod += "\n"
	}
	vfWrite(t, dir+"/p/go.mod", mod+")\n")
	out := dir + "/out"
	vfMust(t, os.MkdirAll(out, 0755))

	seed := vfSeed()*100000 + int64(n)
	one := func(k int, jsonFile, chartFile string) (*vfRepRun, time.Time, error) {
		perm := rand.New(rand.NewSource(seed + int64(k)*7919))
		e := &vfRepRun{c: c, perm: perm}
		var mods []string
		for _, u := range c.O.Upd {
			mods = append(mods, u.Name+"@"+strings.TrimSpace(vfMajor(u.Name, "1")))
		}
		vfShuffle(perm, mods)
		cfg := &Config{ProjectDir: dir + "/p", ModulesVersionFlag: strings.Join(mods, ","), AstMonitorPort: 44553, MaxFieldRecurse: 5, MaxFieldLen: 100, CacheMB: 1,
			TimeMultiplier: c.O.Mult, ReportJsonFile: jsonFile, ReportChartsFile: chartFile, MutationScope: "line", MutationMode: "full", MutationTests: "full", Gopath: gopath, Gomodcache: cache}
		eng := NewAnalysisEngineWithProviders(cfg, e, e, e, e, e, e, &SingletonStorageProvider{Store: NewMemStorage()}, nil)
		start := time.Now()
		var err error
		if p := vfGuard(func() { err = eng.Run() }); p != "" {
			err = fmt.Errorf("panic: %s", p)
			r.fail(c, p, nil, "writing the report panics")
		}
		return e, start, err
	}

	// the run as planned, with everything that can go wrong with the files
	stale := bytes.Repeat([]byte("old text\n"), 20000)
	target := func(kind, name string) string {
		p := filepath.Join(out, name)
		switch kind {
		case "none":
			return ""
		case "stale":
			vfMust(t, os.WriteFile(p, stale, 0644))
		case "link":
			vfMust(t, os.WriteFile(p+".target", stale, 0644))
			vfMust(t, os.Symlink(p+".target", p))
		case "full":
			vfMust(t, os.Symlink("/dev/full", p))
		case "dir":
			vfMust(t, os.MkdirAll(filepath.Join(p, "sub"), 0755))
		}
		return p
	}
	ext := c.Plan.Chart
	switch ext {
	case "stale", "full", "dir", "none":
		ext = []string{"svg", "png", "jpg"}[n%3]
	case "ext":
		ext = "gif"
	}
	jp, cp := target(c.Plan.Json, "r.json"), target(c.Plan.Chart, "c."+ext)
	before := time.Now()
	e, start, err := one(0, jp, cp)
	after := time.Now()
	if (err != nil) != c.Fails {
		r.fail(c, fmt.Sprint(err), c.Fails, "a report that cannot be written is not an error, or one that can is")
		return
	}
	if err != nil {
		r.stat("failed writes", 1)
		r.ok(1)
		return
	}
	var plain []byte
	var metrics ReportMetrics
	if jp != "" {
		data, err := os.ReadFile(jp)
		doc := map[string]any{}
		if err == nil {
			err = json.Unmarshal(data, &doc)
		}
		if err == nil {
			err = json.Unmarshal(data, &metrics)
		}
		if err != nil {
			r.fail(c, err.Error(), nil, "the report is not complete JSON")
			return
		}
		plain = data
		sum := metrics.AnalysisDuration + metrics.TestDiscoveryDuration + metrics.FieldCheckDuration + metrics.MutationDuration
		if metrics.GeneratedAt.Before(start.Add(-time.Second)) || metrics.GeneratedAt.Before(before.Add(-time.Second)) || metrics.GeneratedAt.After(after) ||
			metrics.RunDuration > after.Sub(start).Milliseconds()+1 || metrics.RunDuration < sum || sum < 0 {
			r.fail(c, doc["generated_at"], nil, "times of the report do not fit the run")
		}
		if got, want := vfRepCanon(doc), vfRepCanon(c.want(e.reports)); got != want {
			r.fail(c, got, want, "the report differs from what was found")
			return
		}
	}
	var image0 []byte
	if cp != "" {
		image0, err = os.ReadFile(cp)
		if err != nil {
			r.fail(c, err.Error(), nil, "the chart file is missing")
			return
		}
		if bad := vfImage(c, ext, image0); bad != "" {
			r.fail(c, bad, nil, "the charts are wrong")
			return
		}
	}

	// the same outcome found in other orders
	for k := 1; k <= 2; k++ {
		j2, c2 := filepath.Join(out, fmt.Sprint("r", k, ".json")), filepath.Join(out, fmt.Sprint("c", k, ".", ext))
		if _, _, err := one(k, j2, c2); err != nil {
			r.fail(c, err.Error(), nil, "the report of the same outcome cannot be written")
			return
		}
		again, _ := os.ReadFile(j2)
		if plain == nil {
			plain = again
			vfMust(t, json.Unmarshal(again, &metrics))
		}
		if got, want := vfTimeless(again), vfTimeless(plain); got != want {
			r.fail(c, got, want, "the report depends on the order in which things were found")
			return
		}
		img, _ := os.ReadFile(c2)
		if image0 == nil {
			image0 = img
		}
		if !bytes.Equal(img, image0) {
			r.fail(c, fmt.Sprint(len(img)), fmt.Sprint(len(image0)), "the charts depend on the order in which things were found")
			return
		}
	}

	// charts made from the report file
	png, err := RenderReportChartsFromJson(metrics)
	if err != nil {
		r.fail(c, err.Error(), nil, "no charts can be made from the report file")
		return
	}
	direct := filepath.Join(out, "direct.png")
	if _, _, err := one(3, "", direct); err != nil {
		r.fail(c, err.Error(), nil, "the charts cannot be written")
		return
	}
	mine, _ := os.ReadFile(direct)
	a, _, err1 := image.Decode(bytes.NewReader(png))
	b, _, err2 := image.Decode(bytes.NewReader(mine))
	if err1 != nil || err2 != nil {
		r.fail(c, fmt.Sprint(err1, err2), nil, "the charts are no image")
		return
	}
	if a.Bounds() == b.Bounds() {
		r.stat("charts from report compared", 1)
		if !bytes.Equal(png, mine) {
			r.fail(c, nil, nil, "charts made from the report file differ from those of the analysis")
			return
		}
	}
	if n%12 == 0 && jp != "" {
		made := filepath.Join(out, "tool.png")
		if o, err := exec.Command(tool, "-json", jp, "-charts", made).CombinedOutput(); err != nil {
			r.fail(c, string(o), nil, "the report tool fails")
		} else if got, _ := os.ReadFile(made); !bytes.Equal(got, png) {
			r.fail(c, len(got), len(png), "the report tool makes other charts")
		}
		r.stat("report tool runs", 1)
	}
	r.stat("ended at "+c.End, 1)
	r.stat("risky tests", len(c.Charts.Risky))
	r.ok(1)
	if n%60 == 3 {
		r.sample(c)
	}
}

func vfMajor(name, minor string) string {
	if strings.HasSuffix(name, "/v2") {
		return " v2." + minor + ".0"
	}
	return " v1." + minor + ".0"
}

var vfTimes = regexp.MustCompile(`"(generated_at|run_ms|analysis_ms|test_discovery_ms|field_check_ms|mutation_ms)": [^,\n]*`)

func vfTimeless(b []byte) string { return vfTimes.ReplaceAllString(string(b), `"$1": 0`) }

func vfImage(c *vfRepCase, ext string, data []byte) string {
	switch ext {
	case "svg":
		texts, err := vfSVGTexts(data)
		if err != nil {
			return "not well-formed: " + err.Error()
		}
		if os.Getenv("VF_SHOW") != "" {
			fmt.Fprintf(os.Stderr, "%q\n", texts)
		}
		return strings.Join(vfChartTexts(c, texts), "; ")
	case "png", "jpg", "jpeg":
		_, kind, err := image.Decode(bytes.NewReader(data))
		if err != nil || (kind == "png") != (ext == "png") {
			return fmt.Sprint("not a ", ext, ": ", kind, err)
		}
	}
	return ""
}
