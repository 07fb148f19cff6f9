package lens

import (
	"fmt"
	"math/rand"
	"testing"
)

// Whole stores of recorded results are compared; every test's verdict and the totals must be those of the model.
func TestVerifP09(t *testing.T) {
	r := vfNewReport()
	defer r.write(t)
	defer vfQuiet()()
	rnd := rand.New(rand.NewSource(vfSeed()))
	an := &DefaultTestResultAnalyzer{}
	cases := vfCompareCases(t)
	byMult := map[int][]vfCompareCase{}
	for _, c := range cases {
		byMult[c.Mult] = append(byMult[c.Mult], c)
	}
	for mult, list := range byMult {
		for len(list) > 0 && !r.full() {
			n := min(len(list), 1+rnd.Intn(4))
			group := list[:n]
			list = list[n:]
			pre, post := NewMemStorage(), NewMemStorage()
			if rnd.Intn(2) == 0 {
				s := NewMemStorage()
				pre, post = KeyPrefixStorage(s, "pre"), KeyPrefixStorage(s, "post")
			}
			names := make([]string, n)
			both := map[string]vfCompareCase{}
			ids := rnd.Perm(9)
			for i, c := range group {
				names[i] = fmt.Sprintf("m.Test%d", ids[i])
				side := rnd.Intn(8)
				if side != 0 {
					vfStoreResult(t, pre, names[i], c.R1.result(names[i], names[i]))
				}
				if side != 1 {
					vfStoreResult(t, post, names[i], c.Post.result(names[i], names[i]))
				}
				if side > 1 {
					both[names[i]] = c
				}
			}
			var same, diff int
			var reps []TestReport
			var err error
			if p := vfGuard(func() { same, diff, reps, err = an.CompareTestResults(pre, post, mult) }); p != "" {
				r.fail(group, p, nil, "comparison panics")
				continue
			}
			if err != nil {
				r.fail(group, err.Error(), nil, "comparison fails")
				continue
			}
			wantSame, wantDiff := 0, 0
			seen := map[string]bool{}
			for _, rep := range reps {
				id := rep.PostUpdateResult.TestFunction.FunctionIdent
				c, ok := both[id]
				if !ok || seen[id] {
					r.fail(group, id, names, "report lists a test that was not recorded in both runs, or twice: %q", id)
					continue
				}
				seen[id] = true
				if o := rep.OriginalResult.TestFunction.FunctionIdent; o != id {
					r.fail(group, o, id, "original result of another test in the report")
				}
				if rep.OriginalResult.TestFailure != c.R1.Fail || rep.PostUpdateResult.TestFailure != c.Post.Fail {
					r.fail(c, rep, nil, "failure flag wrong in the report")
				}
				if rep.OriginalResult.ModuleChangesHit != c.R1.Hit || rep.PostUpdateResult.ModuleChangesHit != c.Post.Hit {
					r.fail(c, rep, nil, "module hits wrong in the report")
				}
				vfCheckReport(r, c, rep, c.Direct, "direct")
				r.ok(1)
			}
			for id, c := range both {
				if !seen[id] {
					r.fail(group, len(reps), id, "a test recorded in both runs is missing from the report")
				}
				wantSame += c.Direct.Same
				wantDiff += c.Direct.Diff
			}
			if same != wantSame || diff != wantDiff {
				r.fail(group, []int{same, diff}, []int{wantSame, wantDiff}, "totals are not the sums over the tests")
			}
			r.sample(map[string]interface{}{"tests": len(group), "same": same, "diff": diff})
		}
	}
}
