package lens

import (
	"encoding/json"
	"os"
	"sync"
	"testing"
)

func vfRoundTrip(r *vfReport, in TestResult, what string, c interface{}) {
	want := vfCanonResult(in)
	var got string
	if p := vfGuard(func() {
		b, err := in.MarshalMsgpack()
		if err != nil {
			r.fail(c, err.Error(), want, "%s: encoding fails", what)
			return
		}
		if after := vfCanonResult(in); after != want {
			r.fail(c, after, want, "%s: encoding changes the result it encodes", what)
		}
		var out TestResult
		if err := out.UnmarshalMsgpack(b); err != nil {
			r.fail(c, err.Error(), want, "%s: decoding fails: %v", what, err)
			return
		}
		got = vfCanonResult(out)
		if got != want {
			r.fail(c, got, want, "%s: a saved result reads back different", what)
		}
	}); p != "" {
		r.fail(c, p, want, "%s: panic", what)
	}
}

func TestVerifP03(t *testing.T) {
	r := vfNewReport()
	defer r.write(t)
	var trees []vfTree
	vfLines(t, os.Getenv("VF_TREES"), func(i int, doc []byte) {
		var x struct{ Tree vfTree }
		vfMust(t, json.Unmarshal(doc, &x))
		trees = append(trees, x.Tree)
	})
	stack := []StackFrame{{File: "./a.go", Line: 3, Function: "m.F"}}
	// every ordered pair of trees within one result, in several positions
	var wg sync.WaitGroup
	const workers = 8
	stride := vfInt("VF_STRIDE", 1)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			n := 0
			for i := w; i < len(trees) && !r.full(); i += workers {
				for j := range trees {
					if stride > 1 && (i*31+j+int(vfSeed()))%stride != 0 {
						continue
					}
					a, b := trees[i], trees[j]
					res := TestResult{CallerResults: map[string][]CallFrame{}}
					switch (i + j) % 4 {
					case 0: // two calls of one caller
						res.CallerResults["c"] = []CallFrame{{FieldValues: a.fields(), Stack: stack}, {FieldValues: b.fields(), Stack: stack, TimeMillis: 2}}
					case 1: // two callers, each tree twice
						res.CallerResults["c"] = []CallFrame{{FieldValues: a.fields(), Stack: stack}, {FieldValues: a.fields()}}
						res.CallerResults["d"] = []CallFrame{{FieldValues: b.fields(), Stack: stack}, {FieldValues: b.fields()}}
					case 2: // caller and extension
						res.CallerResults["c"] = []CallFrame{{FieldValues: a.fields()}}
						res.ExtensionFrames = map[string][]CallFrame{"x:y": {{FieldValues: b.fields()}}}
					case 3: // nested below one another
						nest := FieldValues{"p": {Children: a.fields()}, "q": {Children: b.fields()}, "r": {Children: FieldValues{"p": {Children: b.fields()}}}}
						for k, v := range nest {
							if len(v.Children) == 0 {
								delete(nest, k)
							}
						}
						res.CallerResults["c"] = []CallFrame{{FieldValues: nest}, {FieldValues: b.fields()}}
					}
					vfRoundTrip(r, res, "pair", []vfTree{a, b})
					n++
				}
			}
			r.ok(n)
			r.stat("tree_pairs", n)
		}()
	}
	wg.Wait()
	// recorded behaviours
	vfLines(t, os.Getenv("VF_RESULTS"), func(i int, doc []byte) {
		if r.full() {
			return
		}
		var m vfResult
		vfMust(t, json.Unmarshal(doc, &m))
		res := m.result("m/p.TestX", "TestX")
		vfRoundTrip(r, res, "behaviour", m)
		if i < 2 {
			r.sample(m)
		}
		r.ok(1)
		r.stat("recorded_results", 1)
		// through the store, with a second result next to it
		if i%10 == 0 {
			s := NewMemStorage()
			b, err := res.MarshalMsgpack()
			vfMust(t, err)
			vfMust(t, s.SaveState("t", b))
			got, ok, err := (&DefaultTestResultAnalyzer{}).loadTestResult(s, "t")
			if err != nil || !ok || vfCanonResult(got) != vfCanonResult(res) {
				r.fail(m, vfCanonResult(got), vfCanonResult(res), "stored result reads back different (found %v, err %v)", ok, err)
			}
		}
		// cut at every byte
		if i%25 == 0 {
			b, err := res.MarshalMsgpack()
			vfMust(t, err)
			for cut := 0; cut < len(b); cut++ {
				var out TestResult
				var err error
				if p := vfGuard(func() { err = out.UnmarshalMsgpack(b[:cut]) }); p != "" {
					r.fail(m, p, nil, "truncated result: panic")
				} else if err == nil {
					r.fail(m, cut, len(b), "a result truncated to %d of %d bytes is accepted", cut, len(b))
				}
				r.stat("truncations", 1)
			}
		}
	})
}
