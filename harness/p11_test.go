package lens

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
)

type vfRWorld struct {
	Kind map[string]string
	Mode map[string]uint32
	Bkp  []string
	Link string
}
type vfRLast struct {
	Op, F, G, P, Exp string
	Fs               []string
	Full, Clean      bool
}
type vfRStep struct {
	Last    vfRLast
	Disk    map[string]string
	Clients map[string]string
	Away    []string
}
type vfRCase struct {
	World vfRWorld
	Steps []vfRStep
}

func vfRText(pkg, kind string) string {
	s := "package " + pkg + `

import "errors"

type T struct{ A int }

// One does one thing.
func One(a int) (int, error) {
	if a > 1 {
		return a, nil
	}
	for i := range []int{1, 2} {
		a += i
	}
	return a, errors.New("x")
}

func Two() {
	x := 1
	_ = x
}

func (t *T) Do(s string) (n int) {
	defer func() { n++ }()
	n = len(s)
	return
}

func G[K any](k K) K {
	y := k
	return y
}

func Asm(a int) int
`
	switch kind {
	case "plain2":
		s += "\n\n\n\nvar   Badly=1\n"
	case "crlf":
		s = strings.ReplaceAll(s, "\n", "\r\n")
	case "bom":
		s = "\xef\xbb\xbf" + s
	case "noeol":
		s += "\nvar End = 1 // no newline here"
	case "comments":
		s = "// top\n\n/* block */\n" + strings.ReplaceAll(s, "return a, nil", "/* v */ return a, nil // w") + "\n// trailing   \n\t\n"
	case "generated":
		s = "// Code generated by nothing. DO NOT EDIT.\n\n//go:build !never\n\n" + s
	}
	return s
}

// vfRSetup writes the tree of a case.
func vfRSetup(t *testing.T, root string, w vfRWorld) {
	vfWrite(t, root+"/go.mod", "module m\n\ngo 1.21\n")
	vfWrite(t, root+"/shared/s.go", vfRText("a", w.Kind["a/l1.go"]))
	vfMust(t, os.MkdirAll(root+"/a", 0755))
	switch w.Link {
	case "hard":
		vfMust(t, os.Link(root+"/shared/s.go", root+"/a/l1.go"))
		vfMust(t, os.Link(root+"/shared/s.go", root+"/a/l2.go"))
	case "same":
		vfMust(t, os.Symlink("../shared/s.go", root+"/a/l1.go"))
		vfMust(t, os.Symlink(root+"/shared/s.go", root+"/a/l2.go"))
	default:
		vfMust(t, os.Symlink("../shared/s.go", root+"/a/l1.go"))
		vfMust(t, os.Symlink("l1.go", root+"/a/l2.go"))
	}
	vfWrite(t, root+"/a/notes.bkp", "mine")
	vfWrite(t, root+"/b/sub/x.go", "package sub\n")
	for f, k := range w.Kind {
		switch f {
		case "a/l1.go", "a/l2.go", "c/none.go":
			continue
		case "c/bad.go":
			vfWrite(t, root+"/"+f, "package c\n\nfunc One( {\n")
		default:
			vfWrite(t, root+"/"+f, vfRText(f[:1], k))
		}
		vfMust(t, os.Chmod(root+"/"+f, os.FileMode(w.Mode[f])))
	}
	for _, f := range w.Bkp {
		vfWrite(t, root+"/"+f+".bkp", "a file of the user next to "+f)
		vfMust(t, os.Chmod(root+"/"+f+".bkp", os.FileMode(w.Mode[f])))
	}
}

func vfLimitWrites(limit uint64) func() {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic(err)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: limit, Max: old.Max}); err != nil {
		panic(err)
	}
	return func() {
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
			panic(err)
		}
	}
}

// vfFakeGo puts a go command on the path that records its calls and follows a plan.
func vfFakeGo(t *testing.T, dir string) {
	vfWrite(t, dir+"/bin/go", `#!/bin/bash
# files of the plan are named after the command
case "$1 $2" in
"clean "*) key=clean ;;
"get "*) key="get $2" ;;
"mod tidy") key=tidy ;;
"test "*) key=test ;;
*) key=other ;;
esac
echo "$key|$PWD|$*" >> "$VF_PLAN/calls"
key=$(echo "$key $PWD" | tr -c 'a-zA-Z0-9\n' _)
if [ "$1" = test ]; then
  if [ -f "$VF_PLAN/updated" ]; then key=test_post; else key=test_pre; fi
  s=$(grep -l 'sendLensPoint' $VF_SRC < /dev/null | tr '\n' ' ')
  echo "--$key $s" >> "$VF_PLAN/seen"
fi
[ "$1" = mod ] && touch "$VF_PLAN/updated"
[ -f "$VF_PLAN/$key" ] && . "$VF_PLAN/$key"
exit ${rc:-0}
`)
	vfMust(t, os.Chmod(dir+"/bin/go", 0755))
	t.Setenv("PATH", dir+"/bin:"+os.Getenv("PATH"))
}

func vfPlan(t *testing.T, dir string, files map[string]string) {
	vfMust(t, os.RemoveAll(dir))
	vfMust(t, os.MkdirAll(dir, 0755))
	for k, v := range files {
		vfWrite(t, dir+"/"+k, v)
	}
}

func TestVerifP11(t *testing.T) {
	r := vfNewReport()
	defer r.write(t)
	defer vfQuiet()()
	log.SetOutput(io.Discard)
	signal.Ignore(syscall.SIGXFSZ)
	base := vfScratch(t, "p11")
	vfFakeGo(t, base)
	plan := base + "/plan"
	t.Setenv("VF_PLAN", plan)
	t.Setenv("VF_SRC", "")
	faulty := map[string]string{"clean_" + vfKey(mustWd()): "rc=1"}
	vfLines(t, os.Getenv("VF_CASES"), func(n int, doc []byte) {
		if r.full() {
			return
		}
		var c vfRCase
		vfMust(t, json.Unmarshal(doc, &c))
		root := fmt.Sprintf("%s/t%d", base, n)
		vfRSetup(t, root, c.World)
		orig := vfModes(root)
		m := &ASTModifier{}
		fn := func(f, g string) *Function {
			return &Function{FilePath: root + "/" + f, PackageName: "m/" + f[:1], FunctionName: strings.TrimPrefix(g, "*T."), FunctionIdent: "m/" + f[:1] + ":" + g}
		}
		for i, s := range c.Steps {
			l := s.Last
			where := fmt.Sprintf("case %d step %d %s", n, i, vfJSON(l))
			var err error
			pan := vfGuard(func() {
				if l.Full {
					defer vfLimitWrites(16)()
				}
				switch l.Op {
				case "ret":
					_, err = m.InjectFuncPointReturnStates(fn(l.F, l.G))
				case "pan":
					_, err = m.InjectFuncPointPanic(fn(l.F, l.G))
				case "ent":
					_, err = m.InjectFuncPointEntry(fn(l.F, l.G))
				case "fin":
					_, err = m.InjectFuncPointFinish(fn(l.F, l.G))
				case "ins":
					err = m.InsertFuncLines(fn(l.F, l.G), func(k int, line string) (string, bool) { return "// inserted", (k+i)%3 != 0 })
				case "cf":
					err = m.CommitFile(root + "/" + l.F)
				case "commit":
					err = m.Commit()
				case "client":
					err = m.InjectASTClient(root+"/"+l.P, 4000, 5, 100)
				case "par":
					var wg sync.WaitGroup
					var mu sync.Mutex
					for _, f := range l.Fs {
						wg.Add(1)
						go func() {
							defer wg.Done()
							_, e := m.InjectFuncPointReturnStates(fn(f, l.G))
							if e == nil {
								_, e = m.InjectFuncPointPanic(fn(f, l.G))
							}
							if e == nil {
								e = m.CommitFile(root + "/" + f)
							}
							mu.Lock()
							err = errors.Join(err, e)
							mu.Unlock()
						}()
					}
					wg.Wait()
				case "restore":
					if l.Clean {
						vfPlan(t, plan, nil)
					} else {
						vfPlan(t, plan, faulty)
					}
					err = errors.Join(m.Restore(nil)...)
				case "away":
					err = os.Rename(root+"/"+l.P, root+"/."+l.P)
				case "back":
					err = os.Rename(root+"/."+l.P, root+"/"+l.P)
				}
			})
			if l.F != "" { // what happened to this file so far
				for _, e := range c.Steps[:i] {
					if e.Last.F == "" || e.Last.F == l.F || strings.HasPrefix(e.Last.F, "a/l") && strings.HasPrefix(l.F, "a/l") {
						where += fmt.Sprintf(" <- %s %s %s full=%v exp=%s", e.Last.Op, e.Last.F, e.Last.G, e.Last.Full, e.Last.Exp)
					}
				}
			}
			switch {
			case pan != "":
				r.fail(where, pan, nil, "a modifier operation crashed")
				return
			case l.Exp == "ok" && err != nil:
				r.fail(where, err.Error(), "no error", "an operation that can be done fails")
				return
			case l.Exp == "err" && err == nil:
				r.fail(where, "no error", "an error", "an operation on a function that is not there succeeds")
				return
			}
			// what is on disk
			away := map[string]bool{}
			for _, p := range s.Away {
				away[p] = true
			}
			now := map[string]string{}
			for k, v := range vfModes(root) {
				for p := range away {
					if k == "."+p || strings.HasPrefix(k, "."+p+"/") {
						k = k[1:]
					}
				}
				now[k] = v
			}
			open := map[string]bool{} // directories in which the modifier may have files of its own
			for f, st := range s.Disk {
				if st != "orig" {
					if f == "shared" {
						open["a"] = true
						open["shared"] = true
					} else {
						open[f[:1]] = true
					}
				}
			}
			for p, st := range s.Clients {
				if st != "no" {
					open[p] = true
				}
				if st == "yes" {
					found := false
					for k := range now {
						if _, was := orig[k]; !was && filepath.Dir(k) == p && strings.HasSuffix(k, ".go") {
							found = true
						}
					}
					if !found {
						r.fail(where, p, nil, "the package has no client")
						return
					}
				}
			}
			state := func(k string) string {
				if st, ok := s.Disk[k]; ok && k != "shared" {
					return st
				}
				if k == "shared/s.go" || c.World.Link == "hard" && (k == "a/l1.go" || k == "a/l2.go") {
					return s.Disk["shared"]
				}
				return "orig"
			}
			for k, v := range orig {
				got, ok := now[k]
				switch state(k) {
				case "orig":
					if got != v {
						r.fail(where, fmt.Sprintf("%s: %.200q", k, got), fmt.Sprintf("%.200q", v), "a file is not as it was after %s", l.Op)
						return
					}
				case "mod":
					if got == v {
						r.fail(where, k, nil, "a committed change is not on disk")
						return
					}
				}
				if !ok {
					r.fail(where, k, nil, "a file disappeared")
					return
				}
			}
			for k := range now {
				if _, was := orig[k]; !was && !open[filepath.Dir(k)] {
					r.fail(where, k, nil, "a file was left behind after %s", l.Op)
					return
				}
			}
			r.ok(1)
		}
		if n < 3 {
			r.sample(c.Steps[len(c.Steps)-1])
		}
		vfMust(t, os.RemoveAll(root))
	})
}

func mustWd() string {
	d, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	return d
}
func vfKey(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, s)
}

// ---- module update analysis with a scripted go command ----

type vfUCmd struct{ K, D, M string }
type vfUStep struct {
	C       vfUCmd
	Bad     bool
	Touched []string
}
type vfUCase struct {
	World struct {
		Shape struct {
			Work bool
			Ds   []string
		}
		Cs, Exist, Known, Callers []string
		Tests                     int
		Before, After, Port       bool
		Place                     string
		Mode                      uint32
	}
	Log    []vfUStep
	Failed bool
}

func vfPorts(t *testing.T, n int) int {
	for try := 0; try < 200; try++ {
		base := vfFreePort(t)
		ok := true
		for i := 0; i < n && ok; i++ {
			l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", base+i))
			if err != nil {
				ok = false
				continue
			}
			_ = l.Close()
		}
		if ok {
			return base
		}
	}
	t.Fatal("no free ports")
	return 0
}

func TestVerifP11Update(t *testing.T) {
	r := vfNewReport()
	defer r.write(t)
	defer vfQuiet()()
	log.SetOutput(io.Discard)
	base := vfScratch(t, "p11u")
	vfFakeGo(t, base)
	plan := base + "/plan"
	t.Setenv("VF_PLAN", plan)
	wd := mustWd()
	vfLines(t, os.Getenv("VF_UPDATES"), func(n int, doc []byte) {
		if r.full() {
			return
		}
		var c vfUCase
		vfMust(t, json.Unmarshal(doc, &c))
		w := c.World
		where := fmt.Sprintf("update %d %s", n, doc)
		root := fmt.Sprintf("%s/u%d", base, n)
		proj, cache := root+"/proj", root+"/cache"
		for _, f := range w.Exist {
			text := "content of " + f + "\n"
			switch {
			case f == "go.work":
				text = "go 1.21\n\nuse (\n"
				for _, d := range w.Shape.Ds {
					text += "\t./" + d + "\n"
				}
				text += ")\n"
			case strings.HasSuffix(f, "go.mod"):
				text = "module m/" + vfKey(filepath.Dir(f)) + "\n\ngo 1.21\n\nrequire ex.com/a v1.0.0 // keep\n"
			}
			vfWrite(t, proj+"/"+f, text)
			vfMust(t, os.Chmod(proj+"/"+f, os.FileMode(w.Mode)))
		}
		place := proj
		if w.Place == "sub" && w.Shape.Work {
			place = proj + "/" + w.Shape.Ds[len(w.Shape.Ds)-1]
		}
		var callers []*CallerFunction
		reach := ReachableModuleChange{}
		var srcs []string
		for _, f := range []string{"p/p.go", "p/q.go", "r/r.go"} {
			vfWrite(t, place+"/"+f, vfRText(f[:1], []string{"plain", "crlf", "noeol"}[n%3]))
		}
		vfWrite(t, cache+"/ex.com/a@v1.0.0/m.go", vfRText("m", "comments"))
		for _, f := range w.Callers {
			if f == "cache/m.go" {
				p := cache + "/ex.com/a@v1.0.0/m.go"
				reach["x"] = &ModuleFunction{Function: Function{FilePath: p, PackageName: "ex.com/a", FunctionIdent: "ex.com/a:One", FunctionName: "One"},
					Module: &ModuleChange{Name: "ex.com/a", PriorVersion: "v1.0.0", NewVersion: "v1.1.0", GoVersion: "1.21"}}
				srcs = append(srcs, p)
				continue
			}
			for _, g := range []string{"One", "*T.Do"} {
				callers = append(callers, &CallerFunction{Function: Function{FilePath: place + "/" + f, PackageName: "m/" + f[:1], FunctionIdent: "m/" + f[:1] + ":" + g, FunctionName: strings.TrimPrefix(g, "*T.")}})
			}
			srcs = append(srcs, place+"/"+f)
		}
		var tests []*TestFunction
		for i := 0; i < w.Tests; i++ {
			name := fmt.Sprintf("Test%d", i)
			tests = append(tests, &TestFunction{Function: Function{FilePath: place + "/p/p_test.go", PackageName: "m/p", FunctionIdent: "m/p:" + name, FunctionName: name}})
		}
		var changed []*ModuleChange
		for _, m := range w.Cs {
			changed = append(changed, &ModuleChange{Name: m, PriorVersion: "v1.0.0", NewVersion: "v1.1.0"})
		}
		// the plan
		files := map[string]string{}
		wantErr := w.Port && w.Tests > 0
		bad := map[string]bool{}
		for _, s := range c.Log {
			text := ""
			for _, f := range s.Touched {
				text += fmt.Sprintf("echo '# %s %s' >> '%s/%s'\n", s.C.K, s.C.M, proj, f)
			}
			if s.Bad {
				text += "rc=1\n"
				if s.C.K != "test" {
					wantErr = true
				}
			}
			dir := proj
			if s.C.D != "." && s.C.D != "" {
				dir = proj + "/" + s.C.D
			}
			switch s.C.K {
			case "clean":
				files["clean_"+vfKey(wd)] = text
			case "get":
				files[vfKey("get "+s.C.M+"@v1.1.0 "+dir)] = text
			case "tidy":
				files[vfKey("tidy "+dir)] = text
			case "test":
				files["test_"+s.C.M] = text
			default:
				bad[s.C.K] = s.Bad
			}
		}
		vfPlan(t, plan, files)
		t.Setenv("VF_SRC", strings.Join(srcs, " "))
		hook := func(name string) func(*ASTModifier) (map[uint32]*string, error) {
			return func(m *ASTModifier) (map[uint32]*string, error) {
				if name == "posthook" { // the updated module
					if _, err := m.InjectFuncPointEntry(&Function{FilePath: cache + "/ex.com/a@v1.0.0/m.go", PackageName: "ex.com/a", FunctionIdent: "ex.com/a:Two", FunctionName: "Two"}); err != nil {
						return nil, err
					}
				}
				if bad[name] {
					return nil, errors.New("refused")
				}
				return nil, nil
			}
		}
		var pre, post func(*ASTModifier) (map[uint32]*string, error)
		if w.Before {
			pre = hook("prehook")
		}
		if w.After {
			post = hook("posthook")
		}
		before := vfModes(root)
		port := vfPorts(t, 8)
		if w.Port {
			l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", port+max(0, min(w.Tests-1, 3))))
			if err == nil {
				defer func() { _ = l.Close() }()
			}
		}
		var err error
		pan := vfGuard(func() {
			_, _, _, _, _, err = RunModuleUpdateAnalysis("", cache, proj, port, NewMemStorage(), 3, 100, changed, reach, callers, tests, pre, post)
		})
		switch {
		case pan != "":
			r.fail(where, pan, nil, "a module update analysis crashed")
			return
		case err == nil && wantErr && !w.Port:
			r.fail(where, nil, "an error", "a failed step of the update is not reported")
			return
		case err != nil && !wantErr:
			r.fail(where, err.Error(), nil, "a module update analysis fails without reason")
			return
		}
		if d := vfMapDiff(vfModes(root), before); len(d) > 0 {
			r.fail(where, d, nil, "the project is not as it was before the update analysis")
			return
		}
		calls, _ := os.ReadFile(plan + "/calls")
		seen, _ := os.ReadFile(plan + "/seen")
		if err == nil {
			// every module directory was updated, and the tests ran on instrumented sources before and after
			var got, want []string
			for _, l := range strings.Split(string(calls), "\n") {
				if f := strings.Split(l, "|"); len(f) == 3 && (strings.HasPrefix(f[0], "get") || f[0] == "tidy") {
					got = append(got, f[0]+" "+f[1])
				}
			}
			for _, s := range c.Log {
				dir := filepath.Join(proj, s.C.D)
				if s.C.K == "get" {
					want = append(want, "get "+s.C.M+"@v1.1.0 "+dir)
				} else if s.C.K == "tidy" {
					want = append(want, "tidy "+dir)
				}
			}
			sort.Strings(got)
			sort.Strings(want)
			if strings.Join(got, "\n") != strings.Join(want, "\n") {
				r.fail(where, got, want, "the update commands are not those of the update")
				return
			}
			for _, phase := range []string{"--test_pre", "--test_post"} {
				if w.Tests > 0 && !strings.Contains(string(seen), phase) {
					r.fail(where, string(seen), phase, "the tests did not run before and after the update")
					return
				}
			}
			for _, l := range strings.Split(strings.TrimSpace(string(seen)), "\n") {
				cur := strings.Fields(l)
				if len(cur) == 0 {
					continue
				}
				want := []string{}
				for _, s := range srcs {
					if cur[0] == "--test_pre" || !strings.HasPrefix(s, cache) || w.After {
						want = append(want, s)
					}
				}
				if len(cur)-1 != len(want) {
					r.fail(where, cur, want, "a test ran while the sources were not instrumented as planned")
					return
				}
			}
		}
		r.ok(1)
		r.stat("updates", 1)
		vfMust(t, os.RemoveAll(root))
	})
}
