package lens

import (
	"encoding/json"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
)

type vfTreeCase struct {
	Tree vfTree
	Flat vfMap
}

func TestVerifP04(t *testing.T) {
	r := vfNewReport()
	defer r.write(t)
	defer vfQuiet()()
	for _, env := range []string{"VF_TREES", "VF_NESTED", "VF_ODD"} {
		var cases []vfTreeCase
		vfLines(t, os.Getenv(env), func(i int, doc []byte) {
			var x vfTreeCase
			vfMust(t, json.Unmarshal(doc, &x))
			cases = append(cases, x)
		})
		odd := env == "VF_ODD"
		flatText := make([]string, len(cases))
		byFlat := map[string]int{}
		for i, c := range cases {
			var flat map[string]string
			if p := vfGuard(func() { flat = c.Tree.fields().FlattenFieldValues() }); p != "" {
				r.fail(c, p, nil, "flatten panics")
				continue
			}
			flatText[i] = vfJSON(flat)
			if !odd {
				want := map[string]string(c.Flat)
				if vfJSON(want) != flatText[i] {
					r.fail(c.Tree, flat, want, "flattened tree differs from its leaves")
				}
			}
			if j, ok := byFlat[flatText[i]]; ok {
				if odd {
					r.fail([]vfTree{cases[j].Tree, c.Tree}, flat, nil, "names with separators: two different trees flatten alike: %s and %s", vfCanon(cases[j].Tree.fields()), vfCanon(c.Tree.fields()))
				} else {
					r.fail([]vfTree{cases[j].Tree, c.Tree}, flat, nil, "two different trees flatten alike")
				}
			} else {
				byFlat[flatText[i]] = i
			}
			r.ok(1)
			r.stat("trees", 1)
		}
		if odd {
			continue
		}
		// compare every pair through the analyzer
		encoded := make([][]byte, len(cases))
		for i, c := range cases {
			res := TestResult{TestFunction: MinimumTestFunction{FunctionIdent: "m.T", FunctionName: "T"},
				CallerResults: map[string][]CallFrame{"m.F": {{FieldValues: c.Tree.fields(), Stack: []StackFrame{{File: "./a.go", Line: 1, Function: "m.F"}}}}}}
			b, err := res.MarshalMsgpack()
			vfMust(t, err)
			encoded[i] = b
		}
		var wg sync.WaitGroup
		const workers = 8
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				pre, post := NewMemStorage(), NewMemStorage()
				for i := w; i < len(cases) && !r.full(); i += workers {
					_ = pre.SaveState("m.T", encoded[i])
					for j := range cases {
						_ = post.SaveState("m.T", encoded[j])
						vfComparePair(r, pre, post, cases[i], cases[j])
					}
					r.ok(len(cases))
					r.stat("tree_pairs", len(cases))
				}
			}()
		}
		wg.Wait()
		r.sample(map[string]interface{}{"pre": cases[len(cases)/3].Tree, "post": cases[len(cases)/2].Tree})
	}
}

func vfComparePair(r *vfReport, pre, post Storage, a, b vfTreeCase) {
	wantSame, wantDiff := 0, 0
	var changed []string
	for p, v := range a.Flat {
		if w, ok := b.Flat[p]; ok && v == w {
			wantSame++
		} else {
			wantDiff++
			if ok {
				changed = append(changed, p)
			}
		}
	}
	sort.Strings(changed)
	var same, diff int
	var reports []TestReport
	var err error
	if p := vfGuard(func() { same, diff, reports, err = (&DefaultTestResultAnalyzer{}).CompareTestResults(pre, post, 4) }); p != "" {
		r.fail([]vfTree{a.Tree, b.Tree}, p, nil, "comparison panics")
		return
	}
	if err != nil || len(reports) != 1 {
		r.fail([]vfTree{a.Tree, b.Tree}, err, nil, "comparison fails")
		return
	}
	var got []string
	for p, txt := range reports[0].CallerFieldChanges["m.F"] {
		got = append(got, p)
		if strings.TrimSpace(txt) == "" {
			r.fail([]vfTree{a.Tree, b.Tree}, txt, nil, "a changed value has an empty description")
		}
	}
	sort.Strings(got)
	if same != wantSame || diff != wantDiff || strings.Join(got, "|") != strings.Join(changed, "|") {
		r.fail([]vfTree{a.Tree, b.Tree}, []interface{}{same, diff, got}, []interface{}{wantSame, wantDiff, changed},
			"comparison of two captures is not exact")
	}
}
