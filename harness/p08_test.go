package lens

import (
	"testing"
)

// Two baseline runs are reduced to their stable part, which is then compared with the run after the update.
func TestVerifP08(t *testing.T) {
	r := vfNewReport()
	defer r.write(t)
	defer vfQuiet()()
	an := &DefaultTestResultAnalyzer{}
	for _, c := range vfCompareCases(t) {
		c := c
		var got TestResult
		r1, r2 := c.R1.result("m.T", "T"), c.R2.result("m.T", "T")
		// results may reach the filter fresh or read back from the store
		if p := vfGuard(func() { got = testResultStableFields(r1, r2) }); p != "" {
			r.fail(c, p, nil, "stability filter panics")
			continue
		}
		want := vfCanonResult(vfNonEmpty(c.Stable.result("m.T", "T")))
		if g := vfCanonResult(vfNonEmpty(got)); g != want {
			r.fail(c, g, want, "stable part of two runs wrong")
		}
		pre, post := NewMemStorage(), NewMemStorage()
		vfStoreResult(t, pre, "m.T", got)
		vfStoreResult(t, post, "m.T", c.Post.result("m.T", "T"))
		_, _, reps, err := an.CompareTestResults(pre, post, c.Mult)
		if err != nil || len(reps) != 1 {
			r.fail(c, err, len(reps), "comparison of a stable baseline failed")
			continue
		}
		vfCheckReport(r, c, reps[0], c.Verdict, "after stability filter")
		r.ok(1)
		r.sample(map[string]interface{}{"r1": c.R1, "r2": c.R2, "verdict": c.Verdict})
		if r.full() {
			break
		}
	}
}

// a caller with no frame left carries no information
func vfNonEmpty(in TestResult) TestResult {
	for _, m := range []map[string][]CallFrame{in.CallerResults, in.ExtensionFrames} {
		for k, v := range m {
			if len(v) == 0 {
				delete(m, k)
			}
		}
	}
	for _, m := range []map[string][]string{in.ProjectPanics, in.ModulePanics} {
		for k, v := range m {
			if len(v) == 0 {
				delete(m, k)
			}
		}
	}
	return in
}
