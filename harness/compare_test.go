package lens

import (
	"encoding/json"
	"os"
	"sort"
	"strings"
	"testing"
)

type vfSetMap map[string][]string

func (m *vfSetMap) UnmarshalJSON(b []byte) error {
	if strings.TrimSpace(string(b)) == "[]" {
		*m = nil
		return nil
	}
	var x map[string][]string
	err := json.Unmarshal(b, &x)
	*m = x
	return err
}

type vfPairMap map[string][][2]uint32

func (m *vfPairMap) UnmarshalJSON(b []byte) error {
	if strings.TrimSpace(string(b)) == "[]" {
		*m = nil
		return nil
	}
	var x map[string][][2]uint32
	err := json.Unmarshal(b, &x)
	*m = x
	return err
}

type vfVerdict struct {
	Same    int       `json:"same"`
	Diff    int       `json:"diff"`
	Changed vfSetMap  `json:"changed"`
	Times   vfPairMap `json:"times"`
	Reg     int       `json:"reg"`
}

type vfCompareCase struct {
	R1      vfResult  `json:"r1"`
	R2      vfResult  `json:"r2"`
	Post    vfResult  `json:"post"`
	Mult    int       `json:"mult"`
	Stable  vfResult  `json:"stable"`
	Direct  vfVerdict `json:"direct"`
	Verdict vfVerdict `json:"verdict"`
}

func vfCompareCases(t *testing.T) []vfCompareCase {
	var out []vfCompareCase
	vfLines(t, os.Getenv("VF_CASES"), func(i int, doc []byte) {
		var x vfCompareCase
		if err := json.Unmarshal(doc, &x); err != nil {
			t.Fatalf("case %d: %v", i, err)
		}
		if i%4 != 0 { // the rest is replayed with hard-to-tell-apart symbols
			c := vfConcretize(i)
			x = vfCompareCase{R1: c.result(x.R1), R2: c.result(x.R2), Post: c.result(x.Post), Mult: x.Mult, Stable: c.result(x.Stable),
				Direct: c.verdict(x.Direct), Verdict: c.verdict(x.Verdict)}
		}
		out = append(out, x)
	})
	return out
}

func vfStoreResult(t *testing.T, s Storage, key string, r TestResult) {
	b, err := r.MarshalMsgpack()
	vfMust(t, err)
	vfMust(t, s.SaveState(key, b))
}

// vfCheckReport compares one test's report with the verdict the specification demands.
func vfCheckReport(r *vfReport, c interface{}, rep TestReport, v vfVerdict, label string) {
	if rep.SameFieldCount != v.Same {
		r.fail(c, rep.SameFieldCount, v.Same, "%s: number of unchanged values wrong", label)
	}
	if rep.DiffFieldCount != v.Diff {
		r.fail(c, rep.DiffFieldCount, v.Diff, "%s: number of differences wrong", label)
	}
	if rep.TestRegressionCount != v.Reg {
		r.fail(c, rep.TestRegressionCount, v.Reg, "%s: test regression count wrong", label)
	}
	got := map[string][]string{}
	for id, m := range rep.CallerFieldChanges {
		for f, txt := range m {
			got[id] = append(got[id], f)
			if txt == "" {
				r.fail(c, rep.CallerFieldChanges, nil, "%s: changed field without description", label)
			}
		}
		sort.Strings(got[id])
	}
	want := map[string][]string{}
	for id, l := range v.Changed {
		want[id] = vfSorted(l)
	}
	if vfJSON(got) != vfJSON(want) {
		r.fail(c, got, want, "%s: set of changed fields wrong", label)
	}
	for id, tc := range rep.CallerTimeChanges {
		ok := false
		for _, p := range v.Times[id] {
			if p[0] == tc.PreTimeMs && p[1] == tc.PostTimeMs && tc.TimeDiff.Milliseconds() == int64(p[1])-int64(p[0]) {
				ok = true
			}
		}
		if !ok {
			r.fail(c, tc, v.Times[id], "%s: timing change reported that did not happen", label)
		}
	}
	for id := range v.Times {
		if _, ok := rep.CallerTimeChanges[id]; !ok {
			r.fail(c, rep.CallerTimeChanges, v.Times, "%s: timing change of a caller not reported", label)
		}
	}
}
