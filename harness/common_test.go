package lens

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

// Shared harness plumbing. Names start with vf so they cannot clash with repository code.

type vfViolation struct {
	What string      `json:"what"`
	Case interface{} `json:"case,omitempty"`
	Got  interface{} `json:"got,omitempty"`
	Want interface{} `json:"want,omitempty"`
}

type vfReport struct {
	mu         sync.Mutex
	Checked    int                    `json:"checked"`
	Violations []vfViolation          `json:"violations"`
	Samples    []interface{}          `json:"samples"`
	Stats      map[string]interface{} `json:"stats"`
	seen       map[string]int
	known      []*regexp.Regexp
	fatalErr   string
}

func vfNewReport() *vfReport {
	r := &vfReport{Stats: map[string]interface{}{}, seen: map[string]int{}}
	var pats []string
	_ = json.Unmarshal([]byte(os.Getenv("VF_KNOWN")), &pats)
	for _, p := range pats {
		if re, err := regexp.Compile(p); err == nil {
			r.known = append(r.known, re)
		}
	}
	return r
}

// fail records a violation of the property by the real code.
func (r *vfReport) fail(c, got, want interface{}, format string, args ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	what := fmt.Sprintf(format, args...)
	class := what
	if len(class) > 60 {
		class = class[:60]
	}
	r.seen[class]++
	if r.seen[class] > 3 || len(r.Violations) > 60 {
		return
	}
	r.Violations = append(r.Violations, vfViolation{What: what, Case: c, Got: got, Want: want})
	if b, err := json.Marshal(r); err == nil { // kept even if the process does not survive what follows
		_ = os.WriteFile(os.Getenv("VF_OUT"), b, 0644)
	}
}

func (r *vfReport) full() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.Violations) > 20
}

func (r *vfReport) ok(n int) {
	r.mu.Lock()
	r.Checked += n
	r.mu.Unlock()
}

func (r *vfReport) stat(name string, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	old, _ := r.Stats[name].(int)
	r.Stats[name] = old + n
}

func (r *vfReport) sample(v interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.Samples) < 3 {
		r.Samples = append(r.Samples, v)
	}
}

// write stores the outcome; without it the driver treats the run as dead.
func (r *vfReport) write(t *testing.T) {
	if p := recover(); p != nil {
		t.Fatalf("harness panic: %v\n%s", p, debug.Stack())
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if t.Failed() && len(r.Violations) == 0 {
		return // harness error: no outcome
	}
	b, err := json.Marshal(r)
	if err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(os.Getenv("VF_OUT"), b, 0644); err != nil {
		t.Fatal(err)
	}
}

// vfGuard runs f and reports a panic of the code under test.
func vfGuard(f func()) (panicked string) {
	defer func() {
		if p := recover(); p != nil {
			panicked = fmt.Sprintf("%v\n%s", p, debug.Stack())
		}
	}()
	f()
	return ""
}

// vfWithin runs f and tells whether it finished in time.
func vfWithin(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

func vfSeed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VF_SEED"), 10, 64)
	return n
}

func vfThorough() bool { return os.Getenv("VF_TIER") == "thorough" }

func vfInt(name string, def int) int {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return n
	}
	return def
}

func vfScratch(t *testing.T, name string) string {
	d := filepath.Join(os.Getenv("VF_SCRATCH"), name)
	if err := os.MkdirAll(d, 0755); err != nil {
		t.Fatal(err)
	}
	return d
}

// vfLines calls f for every JSON document TLC wrote (CSVWrite quotes the string once more).
func vfLines(t *testing.T, path string, f func(n int, doc []byte)) {
	fh, err := os.Open(path)
	if err != nil {
		t.Fatal(err)
	}
	defer func() { _ = fh.Close() }()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	n := 0
	for sc.Scan() {
		line := sc.Bytes()
		if len(line) == 0 {
			continue
		}
		doc := append([]byte(nil), line...)
		if line[0] == '"' {
			var s string
			if err := json.Unmarshal(line, &s); err != nil {
				t.Fatalf("bad case line %d: %v", n, err)
			}
			doc = []byte(s)
		}
		f(n, doc)
		n++
	}
	if err := sc.Err(); err != nil {
		t.Fatal(err)
	}
}

// vfMap is a JSON object; TLC writes the empty function as [].
type vfMap map[string]string

func (m *vfMap) UnmarshalJSON(b []byte) error {
	if strings.TrimSpace(string(b)) == "[]" {
		*m = vfMap{}
		return nil
	}
	var x map[string]string
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	*m = x
	return nil
}

func vfJSON(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}

func vfMust(t *testing.T, err error) {
	if err != nil {
		t.Helper()
		t.Fatal(err)
	}
}

func vfSorted(in []string) []string {
	out := append([]string{}, in...)
	sort.Strings(out)
	return out
}

func vfShort(b []byte) string {
	if len(b) > 48 {
		return fmt.Sprintf("%q..(%d bytes)", b[:48], len(b))
	}
	return fmt.Sprintf("%q", b)
}
