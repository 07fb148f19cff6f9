package lens

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"

	"golang.org/x/mod/module"
	"golang.org/x/tools/go/packages"
)

type vfFn struct {
	Id [3]string
	F  struct {
		File          string
		Ptr           bool
		Sig, Doc, Pad int
		Body          []int
	}
}
type vfChCase struct {
	Old, New []vfFn
	Radius   int
	Changed  []struct {
		Id      [3]string
		Touched []int
	}
}
type vfMV struct{ M, V string }
type vfPullCase struct {
	Deps map[string]map[string][]vfMV
	Proj []vfMV
	Reqs []struct{ M, Old, New string }
	Tr   bool `json:"trans"`
	Gov  map[string]map[string]string
	All  []struct{ M, Old, New, Go string }
	Amb  bool
}

const vfChMod = "ex.com/M/mod"

func (f vfFn) def() string {
	var b strings.Builder
	b.WriteString("func ")
	if f.Id[1] != "" {
		t := f.Id[1]
		if t == "G" {
			t = "G[K]"
		}
		b.WriteString("(r " + map[bool]string{true: "*", false: ""}[f.F.Ptr] + t + ") ")
	}
	b.WriteString(f.Id[2] + []string{"(a int)", "(a int, b ...string)", "(c func(x int) error)"}[f.F.Sig] + " (x []int) {\n")
	for _, l := range f.F.Body {
		switch l % 4 {
		case 0:
			fmt.Fprintf(&b, "\tx = append(x, %d)\n", l)
		case 1:
			fmt.Fprintf(&b, "\tdefer func() { x = nil; _ = %d }()\n", l)
		default:
			fmt.Fprintf(&b, "\tx = append(x[:len(x):len(x)], len(\"%d }{\"))\n", l)
		}
	}
	b.WriteString("\treturn x\n}")
	return b.String()
}
func (f vfFn) ident() string {
	pkg := vfChMod
	if f.Id[0] != "" {
		pkg += "/" + f.Id[0]
	}
	if f.Id[1] == "" {
		return pkg + ":" + f.Id[2]
	}
	t := f.Id[1]
	if t == "G" {
		t = "G[K]"
	}
	return pkg + ":" + map[bool]string{true: "*", false: ""}[f.F.Ptr] + t + "." + f.Id[2]
}

// vfWriteTree writes one version; it returns the line at which each function starts.
func vfWriteTree(t *testing.T, dir string, fns []vfFn, flip, same bool) map[[3]string]int {
	files := map[string][]vfFn{}
	for _, f := range fns {
		p := filepath.Join(f.Id[0], f.F.File)
		files[p] = append(files[p], f)
	}
	lines := map[[3]string]int{}
	vfMust(t, os.MkdirAll(dir, 0755))
	vfMust(t, os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module "+vfChMod+"\n\ngo 1.20\n"), 0644))
	pkgs := map[string]bool{}
	for p, fs := range files {
		sort.Slice(fs, func(i, j int) bool { return (fmt.Sprint(fs[i].Id) < fmt.Sprint(fs[j].Id)) != flip })
		d := filepath.Dir(p)
		name := "pk" + strings.NewReplacer("/", "", ".", "").Replace(d)
		if same { // packages of one name in different directories
			name = "pk"
		}
		vfMust(t, os.MkdirAll(filepath.Join(dir, d), 0755))
		if !pkgs[d] {
			pkgs[d] = true
			vfMust(t, os.WriteFile(filepath.Join(dir, d, "types.go"), []byte("package "+name+"\n\ntype T struct{ a int }\n\ntype U []int\n\ntype G[K any] struct{ k K }\n"), 0644))
		}
		src := "package " + name + "\n\n"
		for _, f := range fs {
			src += strings.Repeat("var _ = 1\n\n", f.F.Pad)
			if f.F.Doc > 0 {
				src += fmt.Sprintf("// %s does something, revision %d.\n", f.Id[2], f.F.Doc)
			}
			lines[f.Id] = strings.Count(src, "\n") + 1
			src += f.def() + "\n\n"
		}
		vfMust(t, os.WriteFile(filepath.Join(dir, p), []byte(src), 0644))
	}
	return lines
}

func vfCacheDir(t *testing.T, cache, mod, ver string) string {
	m, err := module.EscapePath(mod)
	vfMust(t, err)
	v, err := module.EscapeVersion(ver)
	vfMust(t, err)
	return filepath.Join(cache, m+"@"+v)
}

// vfParallel runs the cases of a file in eight goroutines.
func vfParallel(t *testing.T, path string, f func(n int, doc []byte)) {
	var wg sync.WaitGroup
	gate := make(chan struct{}, 8)
	vfLines(t, path, func(n int, doc []byte) {
		doc = append([]byte(nil), doc...)
		gate <- struct{}{}
		wg.Add(1)
		go func() {
			defer func() { <-gate; wg.Done() }()
			f(n, doc)
		}()
	})
	wg.Wait()
}

func TestVerifP16Diff(t *testing.T) {
	r := vfNewReport()
	defer r.write(t)
	defer vfQuiet()()
	vfParallel(t, os.Getenv("VF_CASES"), func(n int, doc []byte) {
		if r.full() {
			return
		}
		var c vfChCase
		vfMust(t, json.Unmarshal(doc, &c))
		top := vfScratch(t, fmt.Sprintf("d%d", n))
		defer func() { _ = os.RemoveAll(top) }()
		oldDir, newDir := vfCacheDir(t, top, vfChMod, "v1.0.0"), vfCacheDir(t, top, vfChMod, "v1.1.0")
		lines := vfWriteTree(t, oldDir, c.Old, n%2 == 0, n%4 < 2)
		vfWriteTree(t, newDir, c.New, n%3 == 0, n%4 < 2)
		mc := &ModuleChange{Name: vfChMod, PriorVersion: "v1.0.0", NewVersion: "v1.1.0"}
		var data map[string][]*ModuleFunction
		var err error
		if p := vfGuard(func() { data, _, err = AnalyzeModuleChanges(top, false, top, []*ModuleChange{mc}, c.Radius) }); p != "" {
			r.fail(c, p, nil, "the comparison panics")
			return
		}
		if err != nil {
			r.fail(c, err.Error(), nil, "the comparison of two well-formed versions fails")
			return
		}
		show := func(f *ModuleFunction) string {
			rel, _ := filepath.Rel(oldDir, f.FilePath)
			var t []string
			for i, b := range f.LineChangeBitmap {
				if b {
					t = append(t, fmt.Sprint(i+1))
				}
			}
			return fmt.Sprintf("%s pkg=%s name=%s file=%s line=%d returns=%v touched=%v of %d\n%s", f.FunctionIdent, f.PackageName, f.FunctionName, rel, f.EntryLineNumber, f.ReturnPoints, t, len(f.LineChangeBitmap), f.Definition)
		}
		want := map[string]string{}
		for _, ch := range c.Changed {
			for _, f := range c.Old {
				if f.Id != ch.Id {
					continue
				}
				def := f.def()
				// the return line is the model's closing brace line's neighbour: never touched by an edit of the body
				total := strings.Count(def, "\n") + 1
				bm := make([]bool, total)
				for _, k := range ch.Touched {
					bm[k-1] = true
				}
				pkg := vfChMod
				if f.Id[0] != "" {
					pkg += "/" + f.Id[0]
				}
				line := lines[f.Id]
				want[f.ident()] = show(&ModuleFunction{Function: Function{FunctionIdent: f.ident(), PackageName: pkg, FunctionName: f.Id[2], FilePath: filepath.Join(oldDir, f.Id[0], f.F.File),
					EntryLineNumber: uint32(line), ReturnPoints: []FunctionReturn{{Line: uint32(line + total - 2)}}}, Definition: def, LineChangeBitmap: bm})
			}
		}
		got := map[string]string{}
		for _, f := range data[vfChMod] {
			if _, dup := got[f.FunctionIdent]; dup {
				r.fail(c, f.FunctionIdent, nil, "a changed function is reported twice")
			}
			got[f.FunctionIdent] = show(f)
			if f.Module == nil || f.Module.Name != vfChMod {
				r.fail(c, f.FunctionIdent, nil, "a changed function is not attributed to its module")
			}
		}
		if d := vfMapDiff(got, want); len(d) > 0 {
			for _, k := range d {
				if strings.HasPrefix(k, "missing") {
					r.fail(c, d, nil, "a changed function is not reported")
				} else if strings.HasPrefix(k, "unexpected") {
					r.fail(c, d, nil, "an unchanged function is reported as changed")
				} else {
					var full []string
					for k := range want {
						if got[k] != want[k] {
							full = append(full, "GOT "+got[k], "WANT "+want[k])
						}
					}
					r.fail(c, full, nil, "a changed function is reported with wrong details")
				}
				break
			}
		}
		r.ok(1 + len(c.Changed))
		if n%20 == 3 {
			r.sample(c)
		}
	})
}

// the module of PulledGen at a version: F1 differs in every version, F2 only from v1.1.0 on, F3 never
func vfPullSource(v string) string {
	k := map[string]int{"v1.0.0": 0, "v1.1.0": 1, "v1.2.0-RC1": 2}[v]
	two := 0
	if k > 0 {
		two = 1
	}
	return fmt.Sprintf("package p\n\nfunc F1() int {\n\treturn %d\n}\n\nfunc F2() int {\n\treturn %d\n}\n\nfunc F3() int {\n\treturn 0\n}\n", k, two)
}
func vfPullWant(m, old, new string) (out []string) {
	if old != new {
		out = append(out, m+":F1 "+old+"->"+new)
		if old == "v1.0.0" || new == "v1.0.0" {
			out = append(out, m+":F2 "+old+"->"+new)
		}
	}
	return
}

func TestVerifP16Pull(t *testing.T) {
	r := vfNewReport()
	defer r.write(t)
	defer vfQuiet()()
	vfParallel(t, os.Getenv("VF_CASES"), func(n int, doc []byte) {
		if r.full() {
			return
		}
		var c vfPullCase
		vfMust(t, json.Unmarshal(doc, &c))
		top := vfScratch(t, fmt.Sprintf("p%d", n))
		defer func() { _ = os.RemoveAll(top) }()
		cache, proj := filepath.Join(top, "cache"), filepath.Join(top, "proj")
		req := func(ds []vfMV) (s string) {
			for i, d := range ds {
				s += "\nrequire " + d.M + " " + d.V + map[bool]string{true: " // indirect", false: ""}[(i+n)%2 == 0]
			}
			return s + "\n"
		}
		for m, vs := range c.Deps {
			for v, ds := range vs {
				d := vfCacheDir(t, cache, m, v)
				vfMust(t, os.MkdirAll(d, 0755))
				vfMust(t, os.WriteFile(filepath.Join(d, "go.mod"), []byte("module "+m+"\n\ngo "+c.Gov[m][v]+"\n"+req(ds)), 0644))
				vfMust(t, os.WriteFile(filepath.Join(d, "p.go"), []byte(vfPullSource(v)), 0644))
			}
		}
		vfMust(t, os.MkdirAll(proj, 0755))
		if n%3 == 0 { // as the only member of a workspace
			vfMust(t, os.MkdirAll(filepath.Join(proj, "m"), 0755))
			vfMust(t, os.WriteFile(filepath.Join(proj, "go.work"), []byte("go 1.23\n\nuse ./m\n"), 0644))
			vfMust(t, os.WriteFile(filepath.Join(proj, "m", "go.mod"), []byte("module ex.com/proj\n\ngo 1.23\n"+req(c.Proj)), 0644))
		} else {
			vfMust(t, os.WriteFile(filepath.Join(proj, "go.mod"), []byte("module ex.com/proj\n\ngo 1.23\n"+req(c.Proj)), 0644))
		}
		runs := 1
		if c.Amb {
			runs = 4
		}
		first := ""
		for k := 0; k < runs; k++ {
			var mcs []*ModuleChange
			for _, q := range c.Reqs {
				mcs = append(mcs, &ModuleChange{Name: q.M, PriorVersion: q.Old, NewVersion: q.New})
			}
			var data map[string][]*ModuleFunction
			var pkgs map[string][]*packages.Package
			var err error
			if p := vfGuard(func() { data, pkgs, err = AnalyzeModuleChanges(cache, c.Tr, proj, mcs, 0) }); p != "" || err != nil {
				r.fail(c, fmt.Sprint(p, err), nil, "the analysis of well-formed modules fails")
				return
			}
			var got, want []string
			for m, fs := range data {
				for _, f := range fs {
					if f.Module == nil || f.Module.Name != m {
						r.fail(c, f.FunctionIdent, nil, "a function is listed under another module")
						continue
					}
					if dir, _ := filepath.Rel(vfCacheDir(t, cache, m, f.Module.PriorVersion), f.FilePath); dir != "p.go" {
						r.fail(c, f.FilePath, nil, "a function does not refer to the version before the update")
					}
					got = append(got, f.FunctionIdent+" "+f.Module.PriorVersion+"->"+f.Module.NewVersion)
				}
			}
			sort.Strings(got)
			for _, q := range c.Reqs {
				if _, ok := data[q.M]; !ok {
					r.fail(c, q.M, nil, "a requested module is missing from the result")
				}
			}
			for _, a := range c.All {
				want = append(want, vfPullWant(a.M, a.Old, a.New)...)
			}
			sort.Strings(want)
			if !c.Amb {
				if strings.Join(got, "\n") != strings.Join(want, "\n") {
					r.fail(c, got, want, "the changed functions are not those of the updated modules and the updates they pull in")
				}
				for _, a := range c.All {
					for _, mc := range mcs { // the first request of a module is the one analysed
						if mc.Name == a.M {
							if mc.GoVersion != a.Go {
								r.fail(c, mc.GoVersion, a.Go, "the Go version of an update is not the oldest of its two versions")
							}
							if len(pkgs[a.M]) == 0 {
								r.fail(c, a.M, nil, "the packages of the new version are missing")
							}
							for _, p := range pkgs[a.M] {
								for _, g := range p.GoFiles {
									if filepath.Dir(g) != vfCacheDir(t, cache, a.M, a.New) {
										r.fail(c, g, a.New, "the packages are not those of the new version")
									}
								}
							}
							break
						}
					}
				}
			} else {
				s := strings.Join(got, "\n")
				if k > 0 && s != first {
					r.fail(c, s, first, "identical analyses disagree")
				}
				first = s
			}
		}
		r.ok(runs)
		if n%40 == 3 {
			r.sample(c)
		}
	})
}
