package lens

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
)

type vfHCase struct {
	Kind string
	C    json.RawMessage
}
type vfHEv struct {
	E      string `json:"e"`
	A      string `json:"a,omitempty"`
	K      string `json:"k,omitempty"`
	N      int    `json:"n,omitempty"`
	Limit  int    `json:"limit"`
	Total  int    `json:"total"`
	Kept   int    `json:"kept"`
	Marked bool   `json:"marked"`
}
type vfHTrace struct {
	Limit int     `json:"limit"`
	Ev    []vfHEv `json:"ev"`
}

type vfTarget struct {
	kind, closer string
	got          []byte
	closed       int
}

func (w *vfTarget) Write(p []byte) (int, error) {
	w.got = append(w.got, p...)
	switch {
	case w.kind == "fail":
		return 0, errors.New("no room")
	case w.kind == "short" && len(p) > 2:
		return 2, nil
	}
	return len(p), nil
}

type vfTargetC struct{ *vfTarget }

func (w vfTargetC) Close() error {
	w.closed++
	if w.closer == "err" {
		return errors.New("close failed")
	}
	return nil
}

func vfPattern(seq *int, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[(*seq*7+*seq/36)%36]
		*seq++
	}
	return b
}

func vfHTee(r *vfReport, c vfHCase) {
	var q struct {
		Targets []struct{ Kind, Closer string }
		Writes  []int
		Errs    []bool
		Close   bool
	}
	_ = json.Unmarshal(c.C, &q)
	var ts []*vfTarget
	var ws []io.Writer
	for _, t := range q.Targets {
		if t.Kind == "nil" {
			ws = append(ws, nil)
			continue
		}
		x := &vfTarget{kind: t.Kind, closer: t.Closer}
		ts = append(ts, x)
		if t.Closer == "no" {
			ws = append(ws, x)
		} else {
			ws = append(ws, vfTargetC{x})
		}
	}
	w := TeeWriter(ws...)
	seq := 0
	var all []byte
	for i, n := range q.Writes {
		p := vfPattern(&seq, n)
		keep := append([]byte(nil), p...)
		all = append(all, p...)
		m, err := w.Write(p)
		single := len(ts) == 1 && ts[0].kind == "short" // left free
		if (err != nil) != q.Errs[i] && !single {
			r.fail(c, fmt.Sprint(m, err), q.Errs[i], "tee: a write reports an error it should not, or none")
		}
		if err == nil && m != n && !single {
			r.fail(c, m, n, "tee: a successful write reports another length")
		}
		if !bytes.Equal(p, keep) {
			r.fail(c, nil, nil, "tee: the data written was altered")
		}
		for j := range p { // the caller reuses its buffer
			p[j] = '#'
		}
		for _, t := range ts {
			if !bytes.Equal(t.got, all) {
				r.fail(c, string(t.got), string(all), "tee: a target did not get every write in order")
			}
		}
	}
	err := w.Close()
	if (err != nil) != q.Close {
		r.fail(c, fmt.Sprint(err), q.Close, "tee: close reports an error it should not, or none")
	}
	for _, t := range ts {
		if want := map[bool]int{true: 0, false: 1}[t.closer == "no"]; t.closed != want {
			r.fail(c, t.closed, want, "tee: a target was not closed exactly once")
		}
	}
}

func vfHRoll(r *vfReport, c vfHCase) *vfHTrace {
	var q struct {
		Limit  int
		Writes []int
	}
	_ = json.Unmarshal(c.C, &q)
	var buf bytes.Buffer
	w := newLimitedRollingBufferWriter(&buf, q.Limit)
	seq := 0
	var all []byte
	tr := &vfHTrace{Limit: 1}
	for _, n := range q.Writes {
		p := vfPattern(&seq, n)
		all = append(all, p...)
		m, err := w.Write(p)
		if err != nil || m != n {
			r.fail(c, fmt.Sprint(m, err), n, "rolling buffer: a write fails")
		}
		for j := range p {
			p[j] = '#'
		}
		s := buf.String()
		rest := strings.TrimPrefix(s, "...")
		if !strings.HasSuffix(string(all), rest) {
			r.fail(c, s, string(all), "rolling buffer: does not hold the most recent output")
		}
		tr.Ev = append(tr.Ev, vfHEv{E: "roll", Limit: q.Limit, Total: len(all), Kept: len(rest), Marked: rest != s})
	}
	return tr
}

func vfHEnv(t *testing.T, r *vfReport, c vfHCase) {
	type kv struct{ K, V string }
	var q struct{ Os, Own, Want []kv }
	_ = json.Unmarshal(c.C, &q)
	saved := os.Environ()
	os.Clearenv()
	for _, e := range q.Os {
		vfMust(t, os.Setenv(e.K, e.V))
	}
	var own []string
	for _, e := range q.Own {
		own = append(own, e.K+"="+e.V)
	}
	cmd := NewProjectExec("/somewhere", own, "/bin/true", "x")
	for _, e := range saved {
		if i := strings.Index(e[1:], "="); i >= 0 {
			_ = os.Setenv(e[:i+1], e[i+2:])
		}
	}
	var want []string
	for _, e := range q.Want {
		want = append(want, e.K+"="+e.V)
	}
	got := append([]string(nil), cmd.Env...)
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		r.fail(c, got, want, "command: the environment is not the tool's with the given entries on top and without loader variables")
	}
	if cmd.Dir != "/somewhere" {
		r.fail(c, cmd.Dir, nil, "command: wrong directory")
	}
}

// vfHSched runs the activities concurrently through one limiter and one set of locks and records what happened.
func vfHSched(r *vfReport, c vfHCase, rnd *rand.Rand) *vfHTrace {
	var q struct {
		Limit   int
		Acts    [][]string
		Stripes uint
		Hold    []int
	}
	_ = json.Unmarshal(c.C, &q)
	lim := NewLimitingWaitGroup(q.Limit)
	locks := newStripedMutex(q.Stripes)
	buf := newLockedBuffer()
	tr := &vfHTrace{Limit: q.Limit}
	var mu sync.Mutex
	log := func(e vfHEv) { mu.Lock(); tr.Ev = append(tr.Ev, e); mu.Unlock() }
	type snap struct {
		view []byte
		copy string
	}
	var snaps []snap
	var prev = map[string]int{}
	work := func(i int) {
		a := fmt.Sprint("a", i)
		for j, k := range q.Acts[i] {
			m := locks.Lock(k)
			log(vfHEv{E: "lock", A: a, K: "key:" + k})
			for y := 0; y < q.Hold[i]; y++ {
				runtime.Gosched()
			}
			if q.Hold[i] == 3 {
				time.Sleep(20 * time.Microsecond)
			}
			_, _ = buf.Write([]byte(fmt.Sprintf("<%d:%d>", i, j+1)))
			log(vfHEv{E: "unlock", A: a, K: "key:" + k})
			m.Unlock()
			if q.Hold[i] > 1 {
				v := buf.Bytes()
				s := buf.String()
				n := buf.Len()
				mu.Lock()
				snaps = append(snaps, snap{v, string(v)})
				if len(s) < len(v) || n < len(s) || len(v) < prev[a] {
					r.fail(c, []int{len(v), len(s), n, prev[a]}, nil, "shared buffer: shrinks")
				}
				prev[a] = n
				mu.Unlock()
			}
		}
	}
	done := make(chan struct{})
	var workers sync.WaitGroup // the harness's own record of who has finished
	workers.Add(len(q.Acts))
	go func() {
		defer close(done)
		defer workers.Wait()
		pre := rnd.Intn(2) == 0 // ask from the activity itself, or from the one who starts it (as the analysis does)
		var asked sync.WaitGroup
		for i := range q.Acts {
			a := fmt.Sprint("a", i)
			if !pre {
				asked.Add(1)
			}
			take := func() {
				log(vfHEv{E: "ask", A: a})
				lim.Take()
				log(vfHEv{E: "take", A: a})
			}
			if pre {
				take()
			}
			go func() {
				if !pre {
					take()
					asked.Done()
				}
				work(i)
				log(vfHEv{E: "rel", A: a})
				lim.Release()
				workers.Done()
			}()
		}
		asked.Wait()
		log(vfHEv{E: "join"})
		lim.Join()
		log(vfHEv{E: "joined"})
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		r.fail(c, nil, nil, "limiter or locks: activities never finish")
		return nil
	}
	final := buf.String()
	for _, s := range snaps {
		if string(s.view) != s.copy || !strings.HasPrefix(final, s.copy) {
			r.fail(c, s.copy, final, "shared buffer: what was read is not a prefix of what was written")
		}
	}
	rest := final
	for rest != "" {
		var i, j int
		if n, _ := fmt.Sscanf(rest, "<%d:%d>", &i, &j); n != 2 {
			r.fail(c, final, nil, "shared buffer: a write is torn")
			return tr
		}
		tr.Ev = append(tr.Ev, vfHEv{E: "app", A: fmt.Sprint("a", i), N: j})
		rest = rest[len(fmt.Sprintf("<%d:%d>", i, j)):]
	}
	for i := range q.Acts {
		tr.Ev = append(tr.Ev, vfHEv{E: "all", A: fmt.Sprint("a", i), N: len(q.Acts[i])})
	}
	return tr
}

func vfHBuf(r *vfReport, c vfHCase) {
	var q struct {
		Prog []struct {
			Op string
			N  int
		}
	}
	_ = json.Unmarshal(c.C, &q)
	b := newLockedBuffer()
	var all []byte
	seq := 0
	var views [][]byte
	var copies []string
	for _, s := range q.Prog {
		switch s.Op {
		case "write":
			p := vfPattern(&seq, s.N)
			all = append(all, p...)
			_, _ = b.Write(p)
			for j := range p {
				p[j] = '#'
			}
		case "bytes":
			v := b.Bytes()
			views = append(views, v)
			copies = append(copies, string(v))
			if string(v) != string(all) {
				r.fail(c, string(v), string(all), "shared buffer: wrong content")
			}
		case "string":
			if b.String() != string(all) {
				r.fail(c, b.String(), string(all), "shared buffer: wrong content")
			}
		case "len":
			if b.Len() != len(all) {
				r.fail(c, b.Len(), len(all), "shared buffer: wrong length")
			}
		case "reset":
			b.Reset()
			all = nil
		}
	}
	for i := range views {
		if string(views[i]) != copies[i] {
			r.fail(c, string(views[i]), copies[i], "shared buffer: bytes handed out change later")
		}
	}
}

func TestVerifP21(t *testing.T) {
	r := vfNewReport()
	defer r.write(t)
	defer vfQuiet()()
	rnd := rand.New(rand.NewSource(int64(vfSeed())))
	f, err := os.Create(os.Getenv("VF_TRACES"))
	vfMust(t, err)
	defer func() { _ = f.Close() }()
	enc := json.NewEncoder(f)
	vfLines(t, os.Getenv("VF_CASES"), func(n int, doc []byte) {
		if r.full() {
			return
		}
		var c vfHCase
		vfMust(t, json.Unmarshal(doc, &c))
		c.C = append(json.RawMessage(nil), c.C...)
		var tr *vfHTrace
		if p := vfGuard(func() {
			switch c.Kind {
			case "tee":
				vfHTee(r, c)
			case "roll":
				tr = vfHRoll(r, c)
			case "env":
				vfHEnv(t, r, c)
			case "sched":
				tr = vfHSched(r, c, rnd)
			case "buf":
				vfHBuf(r, c)
			}
		}); p != "" {
			r.fail(c, p, nil, "%s: panics", c.Kind)
		}
		if tr != nil {
			vfMust(t, enc.Encode(tr))
		}
		r.ok(1)
		if n%100 == 3 {
			r.sample(c)
		}
	})
}

// TestVerifP21Exec: everything a command prints is captured, both streams, and its failure is reported.
func TestVerifP21Exec(t *testing.T) {
	r := vfNewReport()
	defer r.write(t)
	stdout, stderr := os.Stdout, os.Stderr
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	vfMust(t, err)
	os.Stdout, os.Stderr = null, null
	defer func() { os.Stdout, os.Stderr = stdout, stderr }()
	for k := 0; k < 30; k++ {
		dir := vfScratch(t, fmt.Sprint("x", k))
		n, code := 1+k*37%400, k%3
		script := fmt.Sprintf("pwd; i=0; while [ $i -lt %d ]; do echo out$i; echo err$i 1>&2; i=$((i+1)); done; echo $VFX; exit %d", n, code)
		out, err := NewProjectCapturedOutputExec(dir, []string{"VFX=v" + fmt.Sprint(k)}, "/bin/sh", "-c", script)
		if (err != nil) != (code != 0) {
			r.fail(k, fmt.Sprint(err), code, "command: success or failure misreported")
		}
		var o, e []string
		for _, l := range strings.Split(strings.TrimSpace(string(out)), "\n") {
			if strings.HasPrefix(l, "err") {
				e = append(e, l)
			} else {
				o = append(o, l)
			}
		}
		var wo, we []string
		real, _ := filepath.EvalSymlinks(dir)
		wo = append(wo, real)
		for i := 0; i < n; i++ {
			wo, we = append(wo, fmt.Sprint("out", i)), append(we, fmt.Sprint("err", i))
		}
		wo = append(wo, "v"+fmt.Sprint(k))
		if strings.Join(o, ",") != strings.Join(wo, ",") || strings.Join(e, ",") != strings.Join(we, ",") {
			r.fail(k, string(out), nil, "command: captured output is not what the command printed")
		}
		r.ok(1)
	}
}
