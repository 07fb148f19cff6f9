package lens

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"
)

// canonical text of a delivered field without its name
func vfCanonField(f LensMonitorField) string {
	if len(f.Children) == 0 {
		if f.Value == nil {
			return f.Type + "|nil"
		}
		return fmt.Sprintf("%s|%T:%v", f.Type, f.Value, f.Value)
	}
	parts := make([]string, len(f.Children))
	for i, c := range f.Children {
		parts[i] = c.Name + "=" + vfCanonField(c)
	}
	if strings.HasPrefix(f.Type, "map[") {
		sort.Strings(parts)
	}
	return f.Type + "{" + strings.Join(parts, ";") + "}"
}

func vfCanonWant(s string) string { // an empty container and nil of the same type are one rendering
	s = strings.ReplaceAll(s, "struct {}{}", "struct {}|nil")
	s = strings.ReplaceAll(s, "main.WEmpty{}", "main.WEmpty|nil")
	for _, ty := range []string{"[]interface {}", "[]main.WStruct"} {
		if s == ty+"{}" {
			s = ty + "|nil"
		}
	}
	return s
}

type vfWireNode struct {
	N string       `json:"n"`
	Y string       `json:"y"`
	V string       `json:"v"`
	Q []string     `json:"q"`
	C []vfWireNode `json:"c"`
}

func vfAbstract(f LensMonitorField, scalars map[string]string) vfWireNode {
	out := vfWireNode{N: f.Name, Y: f.Type, Q: []string{}, C: []vfWireNode{}}
	if id, ok := scalars[vfCanonField(f)]; ok {
		out.V = "s:" + id
		return out
	}
	if s, ok := f.Value.(string); ok && len(f.Children) == 0 {
		if strings.HasPrefix(s, "<cycle:") && strings.HasSuffix(s, ">") {
			out.V = "cyc"
			out.Q = append(out.Q, strings.Split(s[len("<cycle:"):len(s)-1], ".")[1:]...)
			return out
		}
		if s == "<max-depth>" {
			out.V = "max"
			return out
		}
	}
	if len(f.Children) == 0 && f.Value == nil {
		out.V = "nil"
		return out
	}
	if len(f.Children) == 0 {
		out.V = "?:" + vfCanonField(f)
		return out
	}
	out.V = "kids"
	for _, c := range f.Children {
		out.C = append(out.C, vfAbstract(c, scalars))
	}
	return out
}

type vfWireLine struct {
	N   int    `json:"n"`
	OK  bool   `json:"ok"`
	Err string `json:"err"`
}

// vfWireChild compiles the capturing program with the injected client.
func vfWireChild(t *testing.T, r *vfReport, name string, depth, length int) (dir string, ok bool) {
	dir = vfScratch(t, name)
	write := func(name, text string) { vfMust(t, os.WriteFile(filepath.Join(dir, name), []byte(text), 0644)) }
	read := func(name string) string {
		b, err := os.ReadFile(filepath.Join(os.Getenv("VF_HARNESS"), name))
		vfMust(t, err)
		return string(b)
	}
	write("go.mod", "module wirechild\n\ngo 1.21\n")
	write("main.go", read("wire_child.go.txt"))
	write("values.go", strings.Replace(read("wire_values.go.txt"), "package PKG", "package main", 1))
	vfMust(t, (&ASTModifier{}).InjectASTClient(dir, 1, depth, length)) // the port comes from the environment
	cmd := exec.Command("go", "build", "-o", "child", ".")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOCACHE="+os.Getenv("VF_GOCACHE"), "GOFLAGS=-mod=mod")
	if out, err := cmd.CombinedOutput(); err != nil {
		r.fail(nil, string(out), nil, "the injected client does not compile")
		return dir, false
	}
	return dir, true
}

// vfWireRun runs the program against a real server.
func vfWireRun(t *testing.T, r *vfReport, dir string, length int, casesPath string, cases []map[string]interface{}) (rec *vfRecorder, lines map[int]vfWireLine, elapsed time.Duration, ok bool) {
	port := vfFreePort(t)
	rec = vfNewRecorder()
	srv, err := astExecServerStart("127.0.0.1", port, rec, length)
	vfMust(t, err)
	defer func() {
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
		defer cancel()
		_ = srv.Stop(ctx)
	}()
	outPath := filepath.Join(dir, "out.ndjson")
	run := exec.Command(filepath.Join(dir, "child"), casesPath, outPath)
	run.Env = append(os.Environ(), fmt.Sprintf("LENS_MONITOR_PORT=%d", port))
	var stdout, stderr bytes.Buffer
	run.Stdout, run.Stderr = &stdout, &stderr
	start := time.Now()
	if err := run.Run(); err != nil {
		tail := stderr.String()
		if len(tail) > 3000 {
			tail = tail[:3000]
		}
		r.fail(nil, tail, nil, "the capturing program died: %v", err)
		return
	}
	elapsed = time.Since(start)
	lines = map[int]vfWireLine{}
	text, err := os.ReadFile(outPath)
	vfMust(t, err)
	for _, s := range strings.Split(string(text), "\n") {
		if s == "" {
			continue
		}
		var l vfWireLine
		vfMust(t, json.Unmarshal([]byte(s), &l))
		lines[l.N] = l
		if l.Err != "" {
			var c interface{}
			if l.N < len(cases) {
				c = cases[l.N]
			}
			r.fail(c, l.Err, nil, "capturing a value panics or does not return: %s", l.Err)
		}
	}
	if s := strings.TrimSpace(stdout.String()); s != "" {
		if len(s) > 500 {
			s = s[:500]
		}
		r.fail(nil, s, nil, "the client reported a delivery error")
	}
	return rec, lines, elapsed, len(r.Violations) == 0
}

func vfWireLiterals(r *vfReport, rec *vfRecorder, base uint32, list []wireScalar) {
	for i, s := range list {
		evs := rec.states[base+uint32(i)]
		if len(evs) != 1 || len(evs[0].Fields) != 1 || evs[0].Fields[0].Name != "v" {
			r.fail(s.want, evs, nil, "a captured literal did not arrive exactly once")
			continue
		}
		if got, want := vfCanonField(evs[0].Fields[0]), vfCanonWant(s.want); got != want {
			r.fail(s.want, got, want, "a captured literal is rendered wrongly")
		}
		r.ok(1)
	}
}

func TestVerifP05(t *testing.T) {
	r := vfNewReport()
	defer r.write(t)
	dir, ok := vfWireChild(t, r, "wirechild", 4, 5)
	if !ok {
		return
	}
	// concretize the cases
	bases := []uint32{0, 1 << 20, 1 << 21, 1 << 27, 1 << 28, 1 << 30, 1 << 31}
	var cases []map[string]interface{}
	var ids []uint32
	casesPath := filepath.Join(dir, "cases.ndjson")
	fh, err := os.Create(casesPath)
	vfMust(t, err)
	w := bufio.NewWriter(fh)
	vfLines(t, os.Getenv("VF_CASES"), func(n int, doc []byte) {
		var c map[string]interface{}
		vfMust(t, json.Unmarshal(doc, &c))
		id := bases[int(c["id"].(float64))%len(bases)] + uint32(n)
		c["id"], c["off"] = id, n
		ids = append(ids, id)
		cases = append(cases, c)
		b, _ := json.Marshal(c)
		_, _ = w.Write(append(b, '\n'))
	})
	vfMust(t, w.Flush())
	vfMust(t, fh.Close())

	rec, lines, elapsed, ok := vfWireRun(t, r, dir, 5, casesPath, cases)
	if !ok {
		return
	}

	// traces for the specification
	out, err := os.Create(os.Getenv("VF_TRACES"))
	vfMust(t, err)
	defer func() { _ = out.Close() }()
	ow := bufio.NewWriter(out)
	defer func() { _ = ow.Flush() }()
	last := int64(0)
	for n, c := range cases {
		evs := rec.states[ids[n]]
		if len(evs) == 0 {
			r.fail(c, nil, nil, "an event never reached the monitor")
			continue
		}
		ev := evs[0]
		scalars := map[string]string{}
		for k := 0; k < 8; k++ {
			scalars[vfCanonWant(wireScalars[(k*7+n)%len(wireScalars)].want)] = string(rune('a' + k))
		}
		fields := []vfWireNode{}
		for _, f := range ev.Fields {
			fields = append(fields, vfAbstract(f, scalars))
		}
		stack := []string{}
		for i, f := range ev.Stack {
			if i == 0 || f.Function == "main.pa" || f.Function == "main.pb" || f.Function == "main.site" {
				if !strings.HasSuffix(f.File, "/main.go") || f.Line == 0 {
					f.Function = "?" + f.File
				}
				stack = append(stack, f.Function)
			}
		}
		timeok := ev.TimeNS > 0 && ev.TimeNS >= last && ev.TimeNS <= elapsed.Nanoseconds()
		last = ev.TimeNS
		c["id"] = n
		c["got"] = map[string]interface{}{"id": n, "fields": fields, "stack": stack, "timeok": timeok, "unaltered": lines[n].OK, "count": len(evs)}
		b, _ := json.Marshal(c)
		_, _ = ow.Write(append(b, '\n'))
		r.ok(1)
	}
	r.sample(cases[0])

	// literals with their exact rendering
	vfWireLiterals(r, rec, 0xE0000000, wireTrees)
	if dir2, ok := vfWireChild(t, r, "wirelong", 50, 300); ok {
		empty := filepath.Join(dir2, "cases.ndjson")
		vfMust(t, os.WriteFile(empty, nil, 0644))
		if rec2, _, _, ok := vfWireRun(t, r, dir2, 300, empty, nil); ok {
			vfWireLiterals(r, rec2, 0xC0000000, wireLong)
		}
	}
	wantPanics := []string{"text", "boom", "42", "-", "{1 2}", "[1]", strings.Repeat("y", 5000), "", "w: in", "<nil>", "{<nil>}"}
	for i, p := range wantPanics {
		evs := rec.panics[uint32(0xD0000000+i)]
		if i == 3 {
			if len(evs) != 0 {
				r.fail(i, evs, nil, "a panic event without a panic")
			}
			continue
		}
		if len(evs) != 1 || evs[0].Message != p {
			r.fail(p, evs, p, "panic value not delivered exactly once with its text")
		}
		r.ok(1)
	}
	for _, id := range []uint32{0, 1, 127, 128, 16383, 16384, 1 << 31, 4294967295, 77} {
		evs := rec.points[id]
		if len(evs) != 1 || len(evs[0].Stack) == 0 || evs[0].Stack[0].Function != "main.plainSite" || evs[0].TimeNS <= 0 {
			r.fail(id, evs, nil, "a plain point did not arrive exactly once with its stack")
		} else if id == 77 && (len(evs[0].Stack) < 1000 || evs[0].Stack[len(evs[0].Stack)-1].Function != "main.deep") {
			r.fail(id, len(evs[0].Stack), nil, "a deep call stack is not delivered")
		}
		r.ok(1)
	}
}
