package lens

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
)

type vfMonField struct {
	N string       `json:"n"`
	Y string       `json:"y"`
	V string       `json:"v"`
	C []vfMonField `json:"c"`
}
type vfMonFrame struct {
	File string `json:"file"`
	Fn   string `json:"fn"`
	Line uint   `json:"line"`
}
type vfMonEvent struct {
	K  string       `json:"k"`
	ID uint32       `json:"id"`
	G  int          `json:"g"`
	F  []vfMonField `json:"f"`
	S  []vfMonFrame `json:"s"`
	T  int64        `json:"t"`
}
type vfMonCase struct {
	Ev     []vfMonEvent                `json:"ev"`
	Rec    map[string]map[string][]int `json:"rec"`
	HitMin int                         `json:"hitmin"`
	HitMax int                         `json:"hitmax"`
	Frames []struct {
		F []vfMonField `json:"f"`
		S []vfMonFrame `json:"s"`
		T int64        `json:"t"`
	} `json:"frames"`
}

type vfMonWorld struct {
	proj, goroot string
	files        map[string]string
	long         map[string]string
}

func vfNewMonWorld(t *testing.T) *vfMonWorld {
	base := vfScratch(t, "monworld")
	proj, goroot := filepath.Join(base, "home", "proj"), filepath.Join(base, "goroot")
	vfMust(t, os.MkdirAll(proj, 0755))
	return &vfMonWorld{proj: proj, goroot: goroot,
		files: map[string]string{"p1": proj + "/a.go", "p2": proj + "/sub/b.go", "pv": proj + "/vendor/ex.com/x/y.go", "g": goroot + "/src/fmt/print.go",
			"m": base + "/gp/pkg/mod/ex.com/m@v1.0.0/f.go", "o": "/usr/lib/z.go", "sib": proj + "x/c.go", "pm": proj + "/pkg/mod/q.go"},
		long: map[string]string{"L1": strings.Repeat("long value ", 60) + "1", "L2": strings.Repeat("long value ", 60) + "2"}}
}

func (w *vfMonWorld) text(v string) string {
	if l, ok := w.long[v]; ok {
		return l
	}
	return v
}

func (w *vfMonWorld) fields(l []vfMonField) []LensMonitorField {
	out := make([]LensMonitorField, 0, len(l))
	for _, f := range l {
		out = append(out, LensMonitorField{Name: f.N, Type: f.Y, Value: w.text(f.V), Children: w.fields(f.C)})
	}
	return out
}

func (w *vfMonWorld) stack(l []vfMonFrame) []lensMonitorStackFrame {
	var out []lensMonitorStackFrame
	for _, f := range l {
		out = append(out, lensMonitorStackFrame{File: w.files[f.File], Function: f.Fn, Line: f.Line})
	}
	return out
}

// deliver hands one event to the monitor as the server does.
func (w *vfMonWorld) deliver(h astPointHandler, nr int, e vfMonEvent, tm int64) {
	switch e.K {
	case "state":
		h.HandleFuncPointState(LensMonitorMessagePointState{PointID: e.ID, TimeNS: tm, Stack: w.stack(e.S), Fields: w.fields(e.F)})
	case "panic":
		h.HandleFuncPointPanic(LensMonitorMessagePointPanic{PointID: e.ID, TimeNS: tm, Message: vfPanicText(nr)})
	default:
		h.HandleFuncPoint(LensMonitorMessagePoint{PointID: e.ID, TimeNS: tm, Stack: w.stack(e.S)})
	}
}

func vfPanicText(nr int) string { return fmt.Sprintf("boom %d", nr) }

// body is the same event as a message
func (w *vfMonWorld) body(nr int, e vfMonEvent, tm int64) (string, []byte) {
	var b bytes.Buffer
	switch e.K {
	case "panic":
		lensEncodeMessagePointPanic(&b, e.ID, tm, vfPanicText(nr))
		return lensMonitorEndpointPathPanic, b.Bytes()
	case "entry":
		lensEncodeMessagePoint(&b, e.ID, tm, w.stack(e.S))
		return lensMonitorEndpointPathPoint, b.Bytes()
	}
	lensEncodeMessagePointState(&b, e.ID, tm, w.stack(e.S), []lensMonitorFieldSnapshot{{Name: "nr", Val: nr}})
	return lensMonitorEndpointPathState, b.Bytes()
}

func vfIdents(m map[uint32]string) map[uint32]*string {
	out := map[uint32]*string{}
	for k, v := range m {
		v := v
		out[k] = &v
	}
	return out
}

// the points of the specification
func (w *vfMonWorld) monitor(stable map[string][]CallFrame) *testMonitor {
	args := []reflect.Value{reflect.Zero(reflect.TypeOf(newTestMonitor).In(0)), reflect.ValueOf(w.goroot), reflect.ValueOf(w.proj),
		reflect.ValueOf(vfIdents(map[uint32]string{1: "m/p.F", 2: "m/p.F", 3: "m/p.(*T).M", 14: "m/p.Ext"})),
		reflect.ValueOf(vfIdents(map[uint32]string{6: "m/p.F", 13: "m/p.(*T).M"})),
		reflect.ValueOf(vfIdents(map[uint32]string{9: "dep/d.G", 10: "dep/d.H", 11: "dep/d.G"})),
		reflect.ValueOf(vfIdents(map[uint32]string{7: "dep/d.G", 8: "m/p.F"})),
		reflect.ValueOf(vfIdents(map[uint32]string{4: "m/p.Ext", 5: "m/p.F"}))}
	if stable != nil {
		args[0] = reflect.ValueOf(&monitorStableResults{caller: stable})
	}
	return reflect.ValueOf(newTestMonitor).Call(args)[0].Interface().(*testMonitor)
}

// vfCollect waits for the result, at most 20 s.
func vfCollect(m *testMonitor, fn *TestFunction, failed bool) (TestResult, bool) {
	ch := make(chan TestResult, 1)
	go func() { ch <- m.makeTestResult(fn, failed) }()
	select {
	case res := <-ch:
		return res, true
	case <-time.After(20 * time.Second):
		return TestResult{}, false
	}
}

func (w *vfMonWorld) wantFields(l []vfMonField, got FieldValues, digests map[string]string) string {
	if len(got) != len(l) {
		return fmt.Sprintf("%d fields instead of %d", len(got), len(l))
	}
	for _, f := range l {
		g := got[f.N]
		if g == nil {
			return "field missing: " + f.N
		}
		if d, ok := strings.CutPrefix(f.V, "digest:"); ok {
			if len(g.Value) > 200 || g.Value == "" {
				return "no digest of a long value"
			}
			if old, ok := digests[d]; ok && old != g.Value {
				return "two digests of one value"
			}
			digests[d] = g.Value
			if digests["L1"] == digests["L2"] {
				return "one digest of two values"
			}
		} else if g.Value != w.text(f.V) {
			return fmt.Sprintf("value of %q is %q instead of %q", f.N, g.Value, f.V)
		}
		if s := w.wantFields(f.C, g.Children, digests); s != "" {
			return f.N + ": " + s
		}
	}
	return ""
}

func (w *vfMonWorld) wantStack(want []vfMonFrame, got []StackFrame) string {
	if len(want) != len(got) {
		return fmt.Sprintf("%d stack frames instead of %d", len(got), len(want))
	}
	for i, f := range want {
		file := f.File
		if file == "SIB" {
			file = w.files["sib"]
		}
		if got[i].File != file || got[i].Function != f.Fn || got[i].Line != uint32(f.Line) {
			return fmt.Sprintf("frame %v instead of %v", got[i], f)
		}
	}
	return ""
}

func TestVerifP07(t *testing.T) {
	r := vfNewReport()
	defer r.write(t)
	log.SetOutput(io.Discard)
	w := vfNewMonWorld(t)
	port := vfFreePort(t)
	srv, err := astExecServerStart("127.0.0.1", port, vfNewRecorder(), 1024)
	vfMust(t, err)
	defer func() {
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
		defer cancel()
		_ = srv.Stop(ctx)
	}()
	client := &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 16}}
	fn := &TestFunction{Function: Function{FunctionName: "TestX", FunctionIdent: "m/p:TestX", PackageName: "m/p"}}
	var out *bufio.Writer
	if p := os.Getenv("VF_TRACES"); p != "" {
		fh, err := os.Create(p)
		vfMust(t, err)
		defer func() { _ = fh.Close() }()
		out = bufio.NewWriter(fh)
		defer func() { _ = out.Flush() }()
	}
	digests := map[string]string{}
	idents := []string{"m/p.F", "m/p.(*T).M", "m/p.Ext", "dep/d.G"}
	vfLines(t, os.Getenv("VF_CASES"), func(n int, doc []byte) {
		if r.full() {
			return
		}
		var c vfMonCase
		vfMust(t, json.Unmarshal(doc, &c))
		if n < 2 {
			r.sample(c.Ev)
		}
		check := func(mode string, res TestResult, failed bool, frames func(table string, id string, got []CallFrame, want []int)) {
			if res.TestFunction.FunctionIdent != fn.FunctionIdent || res.TestFailure != failed {
				r.fail(c, res, nil, "%s: the result names another test or outcome", mode)
			}
			if res.ModuleChangesHit < c.HitMin || res.ModuleChangesHit > c.HitMax {
				r.fail(c, res.ModuleChangesHit, c.HitMin, "%s: wrong number of reached module changes", mode)
			}
			for table, got := range map[string]map[string][]CallFrame{"callers": res.CallerResults, "ext": res.ExtensionFrames} {
				for id, l := range got {
					if len(l) > 0 && len(c.Rec[table][id]) == 0 {
						r.fail(c, id, nil, "%s: calls recorded under an identity without events", mode)
					}
				}
				for _, id := range idents {
					frames(table, id, got[id], c.Rec[table][id])
				}
			}
		}
		// 1: one event after the other
		m := w.monitor(nil)
		for i, e := range c.Ev {
			w.deliver(m, i+1, e, e.T)
		}
		res, ok := vfCollect(m, fn, n%2 == 0)
		if !ok {
			r.fail(c, nil, nil, "collecting the result never returns")
			return
		}
		check("sequence", res, n%2 == 0, func(table, id string, got []CallFrame, want []int) {
			if len(got) != len(want) {
				r.fail(c, got, want, "sequence: %d calls recorded for %s/%s instead of %d", len(got), table, id, len(want))
				return
			}
			for i, nr := range want {
				f := c.Frames[nr-1]
				if s := w.wantFields(f.F, got[i].FieldValues, digests); s != "" {
					r.fail(c, got[i].FieldValues, f.F, "sequence: recorded fields differ: %s", s)
				}
				if s := w.wantStack(f.S, got[i].Stack); s != "" {
					r.fail(c, got[i].Stack, f.S, "sequence: recorded stack differs: %s", s)
				}
				if int64(got[i].TimeMillis) != f.T {
					r.fail(c, got[i].TimeMillis, f.T, "sequence: recorded time differs")
				}
			}
		})
		for table, got := range map[string]map[string][]string{"pp": res.ProjectPanics, "mp": res.ModulePanics} {
			for id, l := range got {
				if len(l) > 0 && len(c.Rec[table][id]) == 0 {
					r.fail(c, id, nil, "sequence: panics recorded under an identity without events")
				}
			}
			for _, id := range idents {
				var want []string
				for _, nr := range c.Rec[table][id] {
					want = append(want, vfPanicText(nr))
				}
				if strings.Join(want, "|") != strings.Join(got[id], "|") {
					r.fail(c, got[id], want, "sequence: recorded panics differ")
				}
			}
		}
		r.ok(1)

		// 2: with the selection of an earlier stable result, no stable field is lost and none is invented
		if len(res.CallerResults) > 0 && n%3 == 0 {
			stable := map[string][]CallFrame{}
			drop := 0
			for id, frames := range res.CallerResults {
				for _, f := range frames {
					fv := FieldValues{}
					for k, v := range f.FieldValues {
						if drop++; drop%3 != 0 {
							fv[k] = v
						}
					}
					stable[id] = append(stable[id], CallFrame{FieldValues: fv, Stack: f.Stack, TimeMillis: f.TimeMillis})
				}
			}
			m2 := w.monitor(stable)
			for i, e := range c.Ev {
				w.deliver(m2, i+1, e, e.T)
			}
			res2, ok := vfCollect(m2, fn, false)
			if !ok {
				r.fail(c, nil, nil, "collecting the result never returns")
				return
			}
			if !reflect.DeepEqual(res2.ExtensionFrames, res.ExtensionFrames) && len(res.ExtensionFrames)+len(res2.ExtensionFrames) > 0 {
				r.fail(c, res2.ExtensionFrames, res.ExtensionFrames, "selection: extension frames altered")
			}
			if len(res.ProjectPanics)+len(res2.ProjectPanics) > 0 && !reflect.DeepEqual(res2.ProjectPanics, res.ProjectPanics) {
				r.fail(c, res2.ProjectPanics, res.ProjectPanics, "selection: panics altered")
			}
			for id, frames := range res.CallerResults {
				got := res2.CallerResults[id]
				if len(got) != len(frames) {
					r.fail(c, len(got), len(frames), "selection: number of calls differs")
					continue
				}
				for i := range frames {
					for k := range stable[id][i].FieldValues {
						if !reflect.DeepEqual(got[i].FieldValues[k], frames[i].FieldValues[k]) {
							r.fail(c, got[i].FieldValues, k, "selection: a stable field is lost or altered")
						}
					}
					for k := range got[i].FieldValues {
						if _, ok := frames[i].FieldValues[k]; !ok {
							r.fail(c, k, nil, "selection: a field is invented")
						}
					}
					if !reflect.DeepEqual(got[i].Stack, frames[i].Stack) || got[i].TimeMillis != frames[i].TimeMillis {
						r.fail(c, got[i], nil, "selection: stack or time altered")
					}
				}
			}
			r.ok(1)
		}

		// 3: concurrent goroutines through the server, several rounds of the same program, handlers switched in between
		if n%2 == 1 && os.Getenv("VF_DIRECT") == "" {
			return
		}
		const rounds = 4
		total := len(c.Ev) * rounds
		m3 := w.monitor(nil)
		vfMust(t, srv.SetPointHandler(m3))
		byG := map[int][]int{}
		for k := 0; k < rounds; k++ {
			for i, e := range c.Ev {
				g := (e.G+k)%4 + 1
				byG[g] = append(byG[g], k*len(c.Ev)+i)
			}
		}
		var wg sync.WaitGroup
		for _, list := range byG {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, x := range list {
					e := c.Ev[x%len(c.Ev)]
					nr := x + 1
					if n%4 == 0 {
						w.deliver(m3, nr, e, int64(nr)*1000000)
						continue
					}
					path, body := w.body(nr, e, int64(nr)*1000000)
					resp, err := client.Post(fmt.Sprintf("http://127.0.0.1:%d%s", port, path), "application/octet-stream", bytes.NewReader(body))
					if err != nil {
						r.fail(c, err.Error(), nil, "an event is not accepted")
						return
					}
					_ = resp.Body.Close()
					if resp.StatusCode != 200 {
						r.fail(c, resp.StatusCode, nil, "an event is not accepted")
					}
				}
			}()
		}
		wg.Wait()
		m4 := w.monitor(nil)
		vfMust(t, srv.SetPointHandler(m4))
		// the next test begins before the first one's result is collected
		if len(c.Ev) > 0 && n%4 != 0 {
			path, body := w.body(1, c.Ev[0], 1)
			if resp, err := client.Post(fmt.Sprintf("http://127.0.0.1:%d%s", port, path), "application/octet-stream", bytes.NewReader(body)); err == nil {
				_ = resp.Body.Close()
			}
		}
		res3, ok := vfCollect(m3, fn, false)
		if !ok {
			r.fail(c, nil, nil, "collecting the result never returns")
			return
		}
		res4, ok := vfCollect(m4, fn, false)
		if !ok {
			r.fail(c, nil, nil, "collecting the result never returns")
			return
		}
		if cnt := vfCountAll(res4); cnt > 1 || (n%4 == 0 && cnt != 0) {
			r.fail(c, cnt, nil, "events of one test leak into another")
		}
		got := map[string]map[string][]int{"callers": {}, "ext": {}, "pp": {}, "mp": {}}
		for _, id := range idents {
			for tb := range got {
				got[tb][id] = []int{}
			}
		}
		for tb, l := range map[string]map[string][]CallFrame{"callers": res3.CallerResults, "ext": res3.ExtensionFrames} {
			for id, frames := range l {
				for _, f := range frames {
					nr := int(f.TimeMillis)
					if nr < 1 || nr > total {
						r.fail(c, f, nil, "a recorded call was never sent")
						nr = 1
					}
					got[tb][id] = append(got[tb][id], nr)
					want := c.Frames[(nr-1)%len(c.Ev)]
					if n%4 == 0 {
						if s := w.wantFields(want.F, f.FieldValues, digests); s != "" {
							r.fail(c, f.FieldValues, want.F, "concurrent: recorded fields differ: %s", s)
						}
					} else if v := f.FieldValues["nr"]; len(f.FieldValues) != 1 || v == nil || v.Value != fmt.Sprint(nr) {
						r.fail(c, f.FieldValues, nr, "concurrent: fields of another call")
					}
					if s := w.wantStack(want.S, f.Stack); s != "" {
						r.fail(c, f.Stack, want.S, "concurrent: recorded stack differs: %s", s)
					}
				}
			}
		}
		for tb, l := range map[string]map[string][]string{"pp": res3.ProjectPanics, "mp": res3.ModulePanics} {
			for id, msgs := range l {
				for _, s := range msgs {
					var nr int
					if k, _ := fmt.Sscanf(s, "boom %d", &nr); k != 1 || nr < 1 || nr > total {
						r.fail(c, s, nil, "a recorded panic was never sent")
						nr = 1
					}
					got[tb][id] = append(got[tb][id], nr)
				}
			}
		}
		if out != nil {
			var ev []map[string]interface{}
			for x := 0; x < total; x++ {
				e := c.Ev[x%len(c.Ev)]
				ev = append(ev, map[string]interface{}{"k": e.K, "id": e.ID, "g": (e.G+x/len(c.Ev))%4 + 1})
			}
			b, _ := json.Marshal(map[string]interface{}{"ev": ev, "got": got})
			_, _ = out.Write(append(b, '\n'))
		}
		r.ok(1)
	})
	sort.Strings(idents)
}

func vfCountAll(res TestResult) int {
	n := 0
	for _, l := range res.CallerResults {
		n += len(l)
	}
	for _, l := range res.ExtensionFrames {
		n += len(l)
	}
	for _, l := range res.ProjectPanics {
		n += len(l)
	}
	for _, l := range res.ModulePanics {
		n += len(l)
	}
	return n
}
