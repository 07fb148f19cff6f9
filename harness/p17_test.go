package lens

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

type vfMuElem struct {
	K, C1, C2, Kind string
	N               int
	Ins             bool
}
type vfMuFn struct {
	File       int
	Name, Recv string
	Tall       bool
	Body       []vfMuElem
}
type vfMuSlot struct {
	At                      [3]int
	Scope, Namesake, Broken bool
	Tests, All              []int
	Out, Outall             string
}
type vfMuCase struct {
	Fns   []vfMuFn
	Tests []struct {
		Dir, Name string
		Covers    []int
		Kills     [][3]int
		Hang      bool
	}
	Opt struct {
		Scope, Fault, Flavour, Ws string
		At                        int
		Report                    bool
	}
	Changed                      []int
	Byline, Fast, Targeted, None bool
	Files                        []int
	Slots                        []vfMuSlot
}

// what the stand-ins for the mutation tool and the go command know
type vfMuWorld struct {
	Real    bool
	Dir     string // module directory
	Proj    string
	Members []string
	Kinds   map[int]string
	Broken  map[int]bool
	Notes   map[string]bool
	Tests   []vfMuTest
	Fault   string
	At      int
	Gopath  string
	Cache   string
	Timeout int
}
type vfMuTest struct {
	Dir, Name string
	Kills     []int
	Hang      bool
}
type vfMuLog struct {
	Who     string // tool, mutant, go
	Id      int
	Exit    int
	Args    []string
	Problem string
	Tests   []int
	Found   []int
}

const vfMuMod = "ex.com/m"

var vfMuFiles = []string{"", "a.go", "b.go", "sub/c.go"}

func (c *vfMuCase) id(at [3]int) int { return at[0]*1000 + at[1]*10 + at[2] }

// source of a file in the old or the new version
func (c *vfMuCase) source(file int, upd bool, notes map[string]bool) string {
	var b strings.Builder
	pkg := "m"
	if file == 3 {
		pkg = "sub"
	}
	fmt.Fprintf(&b, "package %s\n\nimport \"%s/rt\"\n\nvar _ = rt.Got\n\n", pkg, vfMuMod)
	for fi, f := range c.Fns {
		if f.File != file {
			continue
		}
		lit := func(chg string) string {
			if upd && chg == "edit" {
				return "+2"
			}
			return "+1"
		}
		val := func(e, i int, chg string) string {
			return fmt.Sprintf("rt.Val(%d, %s)", c.id([3]int{fi + 1, e + 1, i}), lit(chg))
		}
		recv := ""
		if f.Recv != "" {
			recv = "(r " + f.Recv + ") "
		}
		sig := "()"
		if f.Tall {
			sig = "(\n\ta int,\n\tb ...string,\n)"
		} else if fi%2 == 0 {
			sig = "(a ...int)"
		}
		fmt.Fprintf(&b, "// %s does what its lines say.\n", f.Name)
		if len(f.Body) == 1 && f.Body[0].K == "one" {
			fmt.Fprintf(&b, "func %s%s%s { %s }\n\n", recv, f.Name, sig, val(0, 1, f.Body[0].C1))
			continue
		}
		fmt.Fprintf(&b, "func %s%s%s {\n", recv, f.Name, sig)
		for e, x := range f.Body {
			n := c.id([3]int{fi + 1, e + 1, 0})
			switch x.K {
			case "rec":
				if !(upd && x.C1 == "del") {
					b.WriteString("\t" + val(e, 1, x.C1) + "\n")
				}
			case "trail":
				fmt.Fprintf(&b, "\t%s // step %d of it\n", val(e, 1, x.C1), e)
			case "pair":
				if x.N%2 == 0 { // lines of literals only
					fmt.Fprintf(&b, "\trt.List(%d,\n\t\t%s,\n\t\t%s,\n\t)\n", n, lit(x.C1), lit(x.C2))
					break
				}
				fmt.Fprintf(&b, "\trt.Vals(%d,\n\t\t%s,\n\t\t%s,\n\t)\n", n, val(e, 1, x.C1), val(e, 2, x.C2))
			case "blk":
				fmt.Fprintf(&b, "\tif rt.On(%d) {\n\t\t// as it is on\n\t\t%s\n\t}\n", n, val(e, 1, x.C1))
			case "paren":
				fmt.Fprintf(&b, "\tif (rt.On(%d)) {\n\t\t%s\n\t}\n", n, val(e, 1, x.C1))
			case "cmt":
				for i := 0; i < x.N; i++ {
					fmt.Fprintf(&b, "\t// line %d of a comment\n", i)
				}
			case "gap":
				b.WriteString(strings.Repeat("\n", x.N))
			case "raw", "rawtail":
				lit := fmt.Sprintf("note %d", n)
				for i := 0; i < x.N; i++ {
					lit += fmt.Sprintf("\n\trt.Val text %d", i)
				}
				notes[lit] = true
				if x.K == "raw" {
					fmt.Fprintf(&b, "\trt.Note(`%s`)\n", lit)
				} else {
					fmt.Fprintf(&b, "\trt.Note(`%s`, rt.Zero, %d)\n", lit, n)
				}
			}
			if upd && x.Ins {
				fmt.Fprintf(&b, "\trt.Val(%d, +1)\n", 100000+n)
			}
		}
		b.WriteString("}\n\n")
	}
	return b.String()
}

func (c *vfMuCase) write(t *testing.T, dir string, upd bool) map[string]bool {
	notes := map[string]bool{}
	put := func(name, s string) {
		p := filepath.Join(dir, name)
		vfMust(t, os.MkdirAll(filepath.Dir(p), 0755))
		vfMust(t, os.WriteFile(p, []byte(s), 0644))
	}
	put("go.mod", "module "+vfMuMod+"\n\ngo 1.20\n")
	put("rt/rt.go", "// Package rt records.\npackage rt\n\nvar Got = map[int]int{}\nvar Zero int\n\nfunc Val(n, v int) int { Got[n] = v; return v }\nfunc Vals(n ...int) {}\nfunc List(n int, v ...int) {\n\tfor i, x := range v {\n\t\tGot[n+i+1] = x\n\t}\n}\nfunc On(int) bool { return true }\nfunc Note(s string, x ...int) {}\n")
	all := map[string]string{}
	for _, f := range c.Fns {
		pkg := ""
		if f.File == 3 {
			pkg = "sub"
		}
		call := f.Name
		switch f.Recv {
		case "T":
			call = "T{}." + f.Name
		case "*U":
			call = "(&U{})." + f.Name
		}
		arg := "()"
		if f.Tall {
			arg = "(1)"
		}
		all[pkg] += "\t" + call + arg + "\n"
	}
	put("types.go", "package m\n\ntype T struct{}\n\ntype U struct{}\n\nfunc All() {\n"+all[""]+"}\n")
	put("sub/types.go", "package sub\n\ntype T struct{}\n\ntype U struct{}\n\nfunc All() {\n"+all["sub"]+"}\n")
	for i := 1; i <= 3; i++ {
		put(vfMuFiles[i], c.source(i, upd, notes))
	}
	return notes
}

// vfMuTree reads a tree: content and mode of every file.
func vfMuTree(t *testing.T, dir string) map[string]string {
	out := map[string]string{}
	vfMust(t, filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		info, err := d.Info()
		if err != nil {
			return err
		}
		b, err := os.ReadFile(p)
		out[p] = info.Mode().String() + " " + string(b)
		return err
	}))
	return out
}

func vfMuLogTo(top string, l vfMuLog) {
	f, err := os.OpenFile(filepath.Join(top, "log.ndjson"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		return
	}
	b, _ := json.Marshal(l)
	_, _ = f.Write(append(b, '\n'))
	_ = f.Close()
}
func vfMuReadLog(top string) (out []vfMuLog) {
	b, _ := os.ReadFile(filepath.Join(top, "log.ndjson"))
	for _, l := range strings.Split(string(b), "\n") {
		var x vfMuLog
		if l != "" && json.Unmarshal([]byte(l), &x) == nil {
			out = append(out, x)
		}
	}
	return
}

// TestVerifP17Role stands in for the mutation tool and for the go command.
func TestVerifP17Role(t *testing.T) {
	i := slices.Index(os.Args, "--")
	if i < 0 {
		t.Skip()
	}
	args := os.Args[i+1:]
	top, err := os.Getwd()
	vfMust(t, err)
	proj := top
	for !FileExists(filepath.Join(top, "vfcase.json")) {
		if top == "/" {
			t.Fatal("no case")
		}
		top = filepath.Dir(top)
	}
	var w vfMuWorld
	b, err := os.ReadFile(filepath.Join(top, "vfcase.json"))
	vfMust(t, err)
	vfMust(t, json.Unmarshal(b, &w))
	if args[0] == "tool" {
		syscall.Exit(w.tool(top, proj, args[1:]))
	}
	syscall.Exit(w.gotest(top, proj, args[1:]))
}

type vfMuVal struct {
	id, off, line int
	text          string
	fn            string
}

// vfMuScan finds the places of a source file.
func vfMuScan(path string, data []byte) (vals []vfMuVal, notes []string, off map[int]bool, err error) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, path, data, parser.ParseComments)
	if err != nil {
		return
	}
	off = map[int]bool{}
	for _, g := range file.Comments {
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "// mutator-disable-next-line") && strings.Contains(c.Text, "*") {
				off[fset.Position(c.Pos()).Line+1] = true
			}
		}
	}
	for _, d := range file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			continue
		}
		ast.Inspect(fd, func(n ast.Node) bool {
			call, ok := n.(*ast.CallExpr)
			if !ok {
				return true
			}
			sel, ok := call.Fun.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			switch sel.Sel.Name {
			case "Val":
				id, _ := strconv.Atoi(call.Args[0].(*ast.BasicLit).Value)
				a, z := fset.Position(call.Args[1].Pos()), fset.Position(call.Args[1].End())
				vals = append(vals, vfMuVal{id: id, off: a.Offset, line: a.Line, text: string(data[a.Offset:z.Offset]), fn: fd.Name.Name})
			case "List":
				id, _ := strconv.Atoi(call.Args[0].(*ast.BasicLit).Value)
				for i, x := range call.Args[1:] {
					a, z := fset.Position(x.Pos()), fset.Position(x.End())
					vals = append(vals, vfMuVal{id: id + i + 1, off: a.Offset, line: a.Line, text: string(data[a.Offset:z.Offset]), fn: fd.Name.Name})
				}
			case "Note":
				s, _ := strconv.Unquote(call.Args[0].(*ast.BasicLit).Value)
				notes = append(notes, s)
			}
			return true
		})
	}
	return
}

func (w *vfMuWorld) tool(top, proj string, args []string) int {
	problem := ""
	var script, match string
	disabled := map[string]bool{}
	var files []string
	for i := 0; i < len(args); i++ {
		switch {
		case args[i] == "--exec" && i+1 < len(args):
			i++
			script = args[i]
		case args[i] == "--match" && i+1 < len(args):
			i++
			match = args[i]
		case args[i] == "--disable" && i+1 < len(args):
			i++
			disabled[args[i]] = true
		case args[i] == "--verbose" || args[i] == "--debug":
		case strings.HasPrefix(args[i], "-"):
			problem = "unknown option " + args[i]
		default:
			files = append(files, args[i])
		}
	}
	if proj != w.Proj {
		problem = "runs in " + proj
	}
	if os.Getenv("GOPATH") != w.Gopath || os.Getenv("GOMODCACHE") != w.Cache {
		problem = "wrong environment"
	}
	vfMuLogTo(top, vfMuLog{Who: "tool", Args: args, Problem: problem})
	// the tool leaves a report of its own behind
	_ = os.WriteFile(filepath.Join(proj, "report.json"), []byte("{\"tool\":1}"), 0644)
	re, err := regexp.Compile(match)
	if err != nil {
		fmt.Println("Match regex is not valid")
		return 1
	}
	tmp, err := os.MkdirTemp(top, "go-mutesting-")
	if err != nil {
		return 1
	}
	defer func() { _ = os.RemoveAll(tmp) }()
	var n, killed, alive, skipped, other int
	for _, f := range files {
		data, err := os.ReadFile(f)
		if err != nil {
			fmt.Println(err)
			return 1
		}
		vals, _, off, err := vfMuScan(f, data)
		if err != nil {
			vfMuLogTo(top, vfMuLog{Who: "tool", Problem: "source does not parse: " + err.Error()})
			return 1
		}
		for _, v := range vals {
			if match != "" && !re.MatchString(v.fn) || off[v.line] || disabled[w.Kinds[v.id]] {
				continue
			}
			n++
			if w.Fault == "toolfail" && n > w.At {
				fmt.Println("internal error")
				return 3
			}
			repl := "-1"
			if w.Broken[v.id] {
				repl = "oops"
			}
			mut := filepath.Join(tmp, fmt.Sprintf("m%d.go", n))
			_ = os.WriteFile(mut, append(append(append([]byte(nil), data[:v.off]...), repl...), data[v.off+len(v.text):]...), 0644)
			if w.Fault == "nomutant" && n == w.At {
				_ = os.Remove(mut)
			}
			parts := strings.Split(script, " ")
			cmd := exec.Command(parts[0], parts[1:]...)
			cmd.Env = append(os.Environ(), "MUTATE_CHANGED="+mut, "MUTATE_DEBUG=false", "MUTATE_ORIGINAL="+f, "MUTATE_PACKAGE="+vfMuMod, "MUTATE_VERBOSE=false", fmt.Sprintf("MUTATE_TIMEOUT=%d", w.Timeout))
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
			var out bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &out
			if err := cmd.Start(); err != nil {
				vfMuLogTo(top, vfMuLog{Who: "tool", Problem: "the script does not start: " + err.Error()})
				return 1
			}
			done := make(chan struct{})
			go func() { _ = cmd.Wait(); close(done) }()
			kill := filepath.Join(top, "kill")
			wasKilled := false
		wait:
			for {
				select {
				case <-done:
					break wait
				case <-time.After(5 * time.Millisecond):
					if FileExists(kill) {
						_ = os.Remove(kill)
						wasKilled = true
						_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
					}
				}
			}
			exit := cmd.ProcessState.ExitCode()
			if wasKilled && w.Fault == "killfail" {
				return 137
			}
			problem := ""
			if now, err := os.ReadFile(f); !wasKilled && (err != nil || !bytes.Equal(now, data)) {
				problem = "the original is not back after its mutant"
			}
			vfMuLogTo(top, vfMuLog{Who: "mutant", Id: v.id, Exit: exit, Problem: problem})
			switch exit {
			case 0:
				killed++
			case 1:
				alive++
			case 2:
				skipped++
			default:
				other++
			}
			fmt.Print(out.String())
		}
	}
	total := killed + alive + skipped + other
	score := 0.0
	if total > 0 {
		score = float64(killed+skipped+other) / float64(total)
	}
	if w.Fault != "nosummary" {
		fmt.Printf("The mutation score is %f (%d passed, %d failed, %d duplicated, %d skipped, total is %d)\n", score, killed, alive, 0, skipped, total)
	}
	return 0
}

func (w *vfMuWorld) gotest(top, proj string, args []string) int {
	l := vfMuLog{Who: "go", Args: args, Tests: []int{}}
	var run, timeout string
	var pats []string
	for i := 1; i < len(args); i++ {
		a := args[i]
		if !strings.HasPrefix(a, "-") {
			pats = append(pats, a)
			continue
		}
		a = strings.TrimLeft(a, "-")
		k, v, has := strings.Cut(a, "=")
		if !has && (k == "run" || k == "timeout" || k == "count" || k == "parallel" || k == "p") && i+1 < len(args) {
			i++
			v = args[i]
		}
		switch k {
		case "run":
			run = v
		case "timeout":
			timeout = v
		}
	}
	d, err := time.ParseDuration(timeout)
	if timeout != "" && (err != nil || d <= 0) || timeout == "" {
		l.Problem = "tests run without a time limit: " + timeout
	}
	re, err := regexp.Compile(run)
	if err != nil {
		l.Problem = "bad -run " + run
		re = regexp.MustCompile("")
	}
	member := func(dir string) string {
		best := ""
		for _, m := range w.Members {
			if (dir == m || strings.HasPrefix(dir, m+"/")) && len(m) > len(best) {
				best = m
			}
		}
		return best
	}
	for i, x := range w.Tests {
		for _, p := range pats {
			base, rec := strings.CutSuffix(p, "/...")
			if !filepath.IsAbs(base) {
				base = filepath.Join(proj, base)
			}
			in := x.Dir == base || rec && strings.HasPrefix(x.Dir, base+"/")
			if in && member(x.Dir) == member(base) && re.MatchString(x.Name) && !slices.Contains(l.Tests, i+1) {
				l.Tests = append(l.Tests, i+1)
			}
		}
	}
	notes := map[string]bool{}
	l.Found = []int{}
	for _, name := range vfMuFiles[1:] {
		p := filepath.Join(w.Dir, name)
		data, err := os.ReadFile(p)
		if err != nil {
			l.Problem = "module source is missing: " + name
			continue
		}
		vals, ns, _, err := vfMuScan(p, data)
		if err != nil {
			l.Problem = "module source does not parse: " + err.Error()
			continue
		}
		for _, v := range vals {
			if v.text != "+1" {
				l.Found = append(l.Found, v.id)
			}
		}
		for _, s := range ns {
			notes[s] = true
		}
	}
	for s := range w.Notes {
		if !notes[s] {
			l.Problem = "a string of the module was changed"
		}
	}
	vfMuLogTo(top, l)
	if strings.HasPrefix(w.Fault, "kill") {
		n := 0
		for _, x := range vfMuReadLog(top) {
			if x.Who == "go" {
				n++
			}
		}
		if n == w.At {
			_ = os.WriteFile(filepath.Join(top, "kill"), nil, 0644)
			time.Sleep(20 * time.Second)
		}
	}
	if w.Real {
		cmd := exec.Command(os.Getenv("VF_REALGO"), args...)
		cmd.Dir = proj
		cmd.Env = append(os.Environ(), "GOCACHE="+os.Getenv("VF_GOCACHE"), "GOFLAGS=", "GOPROXY=off", "GOSUMDB=off")
		out, _ := cmd.CombinedOutput()
		fmt.Print(string(out))
		vfMuLogTo(top, vfMuLog{Who: "real", Args: strings.Split(string(out), "\n")})
		return cmd.ProcessState.ExitCode()
	}
	for _, id := range l.Found {
		if w.Broken[id] {
			fmt.Printf("# %s\n./a.go:1:1: undefined: oops\nFAIL\tex.com/p [build failed]\nFAIL\n", vfMuMod)
			return 1
		}
		for _, i := range l.Tests {
			if x := w.Tests[i-1]; slices.Contains(x.Kills, id) {
				if x.Hang {
					fmt.Printf("panic: test timed out after %v\n\tgoroutine 1 [running]:\nFAIL\tex.com/p\t%.3fs\nFAIL\n", d, d.Seconds())
				} else {
					fmt.Printf("--- FAIL: %s (0.00s)\n    p_test.go:3: [build failed] is what it prints\nFAIL\nFAIL\tex.com/p\t0.013s\nok  \tex.com/p/in\t0.004s\nFAIL\n", x.Name)
				}
				return 1
			}
		}
	}
	fmt.Printf("ok  \tex.com/p\t0.010s\n")
	return 0
}

func TestVerifP17(t *testing.T) {
	r := vfNewReport()
	defer r.write(t)
	defer vfQuiet()()
	realGo, err := exec.LookPath("go")
	vfMust(t, err)
	bin := vfScratch(t, "bin")
	self, err := os.Executable()
	vfMust(t, err)
	vfMust(t, os.WriteFile(filepath.Join(bin, "go-mutesting"), []byte("#!/bin/bash\nexec '"+self+"' -test.run '^TestVerifP17Role$' -test.timeout 600s -- tool \"$@\"\n"), 0755))
	vfMust(t, os.WriteFile(filepath.Join(bin, "go"), []byte(`#!/bin/bash
case "$1" in
clean) exit 0 ;;
test) d=$PWD; while [ "$d" != / ]; do
	if [ -e "$d/vfcase.json" ]; then exec '`+self+`' -test.run '^TestVerifP17Role$' -test.timeout 600s -- go "$@"; fi
	d=$(dirname "$d"); done ;;
esac
exec '`+realGo+`' "$@"
`), 0755))
	tmp := vfScratch(t, "tmp")
	for k, v := range map[string]string{"PATH": bin + ":" + os.Getenv("PATH"), "TMPDIR": tmp, "VF_REALGO": realGo, "GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOTOOLCHAIN": "local", "GOENV": "off", "GOSUMDB": "off", "GOCACHE": os.Getenv("VF_GOCACHE")} {
		_ = os.Setenv(k, v)
	}
	realEvery, _ := strconv.Atoi(os.Getenv("VF_REAL_EVERY"))
	var wg sync.WaitGroup
	gate := make(chan struct{}, 8)
	vfLines(t, os.Getenv("VF_CASES"), func(n int, doc []byte) {
		var c vfMuCase
		vfMust(t, json.Unmarshal(doc, &c))
		gate <- struct{}{}
		wg.Add(1)
		go func() {
			defer func() { <-gate; wg.Done() }()
			if !r.full() {
				vfMuRun(t, r, n, &c, realEvery > 0 && n%realEvery == 0)
			}
		}()
	})
	wg.Wait()
	left, _ := filepath.Glob(filepath.Join(tmp, "*"))
	for _, p := range left {
		if strings.Contains(filepath.Base(p), "mutat") {
			r.fail(nil, p, nil, "a script of the mutation testing is left behind")
			break
		}
	}
}

func vfMuRun(t *testing.T, r *vfReport, n int, c *vfMuCase, real bool) {
	flavour := map[string]string{"plain": "c", "space": "c d", "quote": "c'd \"e\"", "dollar": "c$HOME `d`", "odd": "c[1];*&(x)"}[c.Opt.Flavour]
	if real {
		flavour = "c"
		if c.Opt.Ws == "spaced" && n%2 == 0 {
			c.Opt.Ws = "member"
		}
	}
	top := vfScratch(t, fmt.Sprintf("%s-%d", flavour, n))
	defer func() { _ = os.RemoveAll(top) }()
	cache, gopath, proj := filepath.Join(top, "cache"), filepath.Join(top, "gopath"), filepath.Join(top, "proj")
	dir := vfCacheDir(t, cache, vfMuMod, "v1.0.0")
	w := vfMuWorld{Real: real, Dir: dir, Proj: proj, Kinds: map[int]string{}, Broken: map[int]bool{}, Fault: c.Opt.Fault, At: c.Opt.At, Gopath: gopath, Cache: cache, Timeout: 10}
	if real {
		w.Timeout = 4
	}
	w.Notes = c.write(t, dir, false)
	c.write(t, vfCacheDir(t, cache, vfMuMod, "v1.1.0"), true)
	byId := map[int]vfMuSlot{}
	for _, s := range c.Slots {
		id := c.id(s.At)
		byId[id] = s
		w.Kinds[id] = c.Fns[s.At[0]-1].Body[s.At[1]-1].Kind
		w.Broken[id] = s.Broken
	}
	// the project
	put := func(name, s string) {
		p := filepath.Join(proj, name)
		vfMust(t, os.MkdirAll(filepath.Dir(p), 0755))
		vfMust(t, os.WriteFile(p, []byte(s), 0644))
	}
	in := "in"
	if c.Opt.Ws == "spaced" {
		in = "in dir"
	}
	need := "\nrequire " + vfMuMod + " v1.0.0\n\nreplace " + vfMuMod + " => " + dir + "\n"
	if !real {
		need = "\nrequire " + vfMuMod + " v1.0.0\n"
	}
	put("go.mod", "module ex.com/p\n\ngo 1.20\n"+need)
	put("p.go", "package p\n")
	put(in+"/in.go", "package in\n")
	w.Members = []string{proj}
	if c.Opt.Ws != "plain" {
		put(in+"/go.mod", "module ex.com/pin\n\ngo 1.20\n"+need)
		put("go.work", "go 1.20\n\nuse (\n\t.\n\t\"./"+in+"\"\n)\n")
		w.Members = append(w.Members, filepath.Join(proj, in))
	}
	if c.Opt.Report {
		put("report.json", "{\"user\": true}\n")
	}
	srcs := map[string]string{}
	for _, x := range c.Tests {
		d, rel := proj, ""
		if x.Dir == "in" {
			d, rel = filepath.Join(proj, in), in
		}
		mt := vfMuTest{Dir: d, Name: x.Name, Hang: x.Hang}
		var ids []string
		for _, k := range x.Kills {
			mt.Kills = append(mt.Kills, c.id(k))
			ids = append(ids, fmt.Sprint(c.id(k)))
		}
		w.Tests = append(w.Tests, mt)
		fail := "t.Fatal(k)"
		if x.Hang {
			fail = "time.Sleep(time.Hour)"
		}
		srcs[rel] += fmt.Sprintf("\nfunc %s(t *testing.T) {\n\tm.All()\n\tsub.All()\n\tfor _, k := range []int{%s} {\n\t\tif rt.Got[k] < 0 {\n\t\t\t%s\n\t\t}\n\t}\n}\n", x.Name, strings.Join(ids, ", "), fail)
	}
	for rel, s := range srcs {
		pkg := "p"
		if rel != "" {
			pkg = "in"
		}
		put(filepath.Join(rel, "x_test.go"), fmt.Sprintf("package %s\n\nimport (\n\t\"testing\"\n\t\"time\"\n\n\t\"%s\"\n\t\"%s/rt\"\n\t\"%s/sub\"\n)\n\nvar _ = time.Now\n%s", pkg, vfMuMod, vfMuMod, vfMuMod, s))
	}
	b, err := json.Marshal(w)
	vfMust(t, err)
	vfMust(t, os.WriteFile(filepath.Join(top, "vfcase.json"), b, 0644))

	// the changes, as the analysis finds them
	radius := 0
	if c.Opt.Scope == "area" {
		radius = 1
	}
	data, _, err := AnalyzeModuleChanges(cache, false, cache, []*ModuleChange{{Name: vfMuMod, PriorVersion: "v1.0.0", NewVersion: "v1.1.0"}}, radius)
	if err != nil {
		r.fail(c, err.Error(), nil, "the changed functions cannot be determined")
		return
	}
	changes := data[vfMuMod]
	byIdent := map[string]*ModuleFunction{}
	for _, m := range changes {
		byIdent[m.FunctionIdent] = m
	}
	ident := func(f vfMuFn) string {
		p := vfMuMod
		if f.File == 3 {
			p += "/sub"
		}
		if f.Recv != "" {
			return p + ":" + f.Recv + "." + f.Name
		}
		return p + ":" + f.Name
	}
	if len(changes) != len(c.Changed) {
		r.fail(c, len(changes), len(c.Changed), "wrong number of changed functions")
		return
	}
	var tests []*TestFunction
	for ti, x := range c.Tests {
		tf := &TestFunction{Function: Function{FilePath: filepath.Join(w.Tests[ti].Dir, "x_test.go"), PackageName: "ex.com/p/" + x.Dir, FunctionName: x.Name, FunctionIdent: "ex.com/p/" + x.Dir + ":" + x.Name}}
		for k, f := range x.Covers {
			if m := byIdent[ident(c.Fns[f-1])]; m != nil {
				ca := &CallerFunction{Function: Function{FunctionIdent: fmt.Sprint("ex.com/p:Caller", k)}, ChangeFunctions: []*ModuleFunction{m}}
				if k%2 == 1 && len(tf.Targets) > 0 {
					tf.Targets[0].ChangeFunctions = append(tf.Targets[0].ChangeFunctions, m)
				} else {
					tf.Targets = append(tf.Targets, ca)
				}
			}
		}
		tests = append(tests, tf)
	}
	before := vfMuTree(t, cache)
	beforeProj := vfMuTree(t, proj)
	var res MutationResult
	if p := vfGuard(func() {
		res, err = RunMutationTesting(gopath, cache, proj, c.Fast, c.Byline, c.Targeted, changes, tests)
	}); p != "" {
		r.fail(c, p, nil, "mutation testing panics")
		return
	}
	log := vfMuReadLog(top)
	bad := func(got, want interface{}, f string, a ...interface{}) {
		r.fail(map[string]interface{}{"n": n, "real": real, "case": c, "log": log, "source": c.source(1, false, map[string]bool{}) + c.source(2, false, map[string]bool{}) + c.source(3, false, map[string]bool{})}, got, want, f, a...)
	}
	if d := vfMapDiff(vfMuTree(t, cache), before); len(d) > 0 {
		bad(d, nil, "the module sources are not as before")
	}
	if d := vfMapDiff(vfMuTree(t, proj), beforeProj); len(d) > 0 {
		bad(d, nil, "the project is not as before")
	}
	// what the tool and the tests saw
	judged := map[int]int{}
	exits := map[int]int{}
	var seen []int
	var runs []vfMuLog
	ran := map[int]vfMuLog{}
	tools, failed := 0, false
	for _, l := range log {
		switch l.Who {
		case "tool":
			tools++
			if l.Problem != "" {
				bad(l, nil, "mutation tool: %s", l.Problem)
			}
		case "go":
			if l.Problem != "" {
				bad(l, nil, "tests of a mutant: %s", l.Problem)
			}
			runs = append(runs, l)
		case "mutant":
			if l.Problem != "" {
				bad(l, nil, l.Problem)
			}
			judged[l.Id]++
			exits[l.Id] = l.Exit
			seen = append(seen, l.Id)
			if len(runs) > 1 {
				bad(runs, nil, "tests of one mutant ran %d times", len(runs))
			}
			if len(runs) > 0 {
				ran[l.Id] = runs[0]
			}
			runs = nil
		}
	}
	if c.None {
		if tools > 0 || err != nil || res != (MutationResult{}) {
			bad(fmt.Sprint(tools, res, err), nil, "mutation testing runs though nothing is in scope")
		}
		r.ok(1)
		return
	}
	if tools != 1 {
		bad(tools, 1, "the mutation tool does not run once: %v", err)
		return
	}
	if c.Opt.Fault == "toolfail" {
		inscope := 0
		for _, s := range c.Slots {
			if s.Scope || s.Namesake {
				inscope++
			}
		}
		failed = inscope > c.Opt.At
	}
	killed := 0
	goRuns := 0
	for id, times := range judged {
		s := byId[id]
		if times > 1 {
			bad(id, nil, "a place is mutated twice")
		}
		if !s.Scope {
			if s.Namesake {
				bad(id, nil, "a function that did not change is mutated as it has the name of one that did")
			} else {
				bad(id, nil, "a place out of scope is mutated")
			}
			continue
		}
		x, did := ran[id]
		want := s.Out
		if c.Opt.Fault == "nomutant" && len(seen) >= c.Opt.At && seen[c.Opt.At-1] == id {
			if did || exits[id] != 2 {
				bad(x, nil, "a mutant that cannot be put in place is judged: %d", exits[id])
			}
			continue
		}
		if did != (len(s.Tests) > 0) {
			bad(x, s.Tests, "mutant %d: tests ran: %v", id, did)
			continue
		}
		if did {
			goRuns++
			sort.Ints(x.Tests)
			if fmt.Sprint(x.Tests) != fmt.Sprint(vfMuSorted(s.Tests)) {
				if fmt.Sprint(x.Tests) == fmt.Sprint(vfMuSorted(s.All)) {
					bad(x, s.Tests, "a mutant is judged by a test of another package with the name of a selected one")
					want = s.Outall
				} else {
					bad(x, s.Tests, "a mutant is not judged by the selected tests")
					continue
				}
			}
			if len(x.Found) != 1 || x.Found[0] != id {
				bad(x, id, "tests do not run with the mutant alone in place")
				continue
			}
		}
		code := map[string]int{"killed": 0, "alive": 1, "skipped": 2}[want]
		if exits[id] == -1 && c.Opt.Fault == "kill" {
			continue
		}
		if exits[id] != code {
			bad(exits[id], want, "the outcome of a mutant is reported wrongly")
		}
	}
	for _, e := range exits {
		if e == 0 {
			killed++
		}
	}
	if !failed && !(c.Opt.Fault == "killfail" && runs != nil) {
		for _, s := range c.Slots {
			if s.Scope && judged[c.id(s.At)] == 0 {
				bad(c.id(s.At), nil, "a place in scope is not mutated")
				break
			}
		}
	}
	switch {
	case c.Opt.Fault == "killfail" && err != nil && runs != nil: // the mutant at which the tool died
	case failed || c.Opt.Fault == "nosummary":
		if err == nil {
			bad(res, nil, "the failure of the mutation tool goes unnoticed")
		}
	case err != nil:
		bad(err.Error(), nil, "mutation testing fails")
	case res.MutationCount != len(seen) || res.SquashedCount != killed:
		bad(fmt.Sprintf("%+v", res), fmt.Sprintf("%d mutants, %d detected", len(seen), killed), "the result does not agree with the outcomes")
	}
	r.ok(1 + len(seen))
	r.stat("mutants", len(seen))
	r.stat("cases", 1)
	if real {
		r.stat("with real test runs", 1)
	}
	if n%30 == 3 {
		r.sample(map[string]interface{}{"case": c, "log": log})
	}
}

func vfMuSorted(x []int) []int {
	y := append([]int{}, x...)
	sort.Ints(y)
	return y
}
