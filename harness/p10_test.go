package lens

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"golang.org/x/tools/go/packages"
)

type vfEngCase struct {
	Cfg struct {
		Src, Scope, Mode, Mt string
		Tmp                  bool
		Data                 int
	}
	Out   map[string]string
	Log   [][2]string
	Err   bool
	Rep   string
	Funcs []struct {
		M string
		N int
	}
	Radius                       int
	Expand, Fast, Line, Targeted bool
}

// one run of the real engine with recording providers
type vfEng struct {
	c       vfEngCase
	log     [][2]string
	bad     []string
	tmpRoot string // TMPDIR of the run
	orig    [3]string
	store   *vfStore
	real    bool
	pre     Storage
	post    Storage
	reach   ReachableModuleChange
	callers []*CallerFunction
	tests   []*TestFunction
	mods    map[string][]*ModuleFunction
	reports []TestReport
}

var errVf = errors.New("injected failure")

func (e *vfEng) complain(format string, args ...interface{}) {
	e.bad = append(e.bad, fmt.Sprintf(format, args...))
}
func (e *vfEng) run(stage string, cfg *Config) error {
	e.log = append(e.log, [2]string{"run", stage})
	e.alive(stage)
	if cfg != nil {
		for i, d := range []string{cfg.AbsProjDir, cfg.Gopath, cfg.Gomodcache} {
			in, _ := vfInside(d, e.tmpRoot)
			if in != e.c.Cfg.Tmp {
				e.complain("stage %s works on %s although the temporary copy is %v", stage, []string{"project", "gopath", "module cache"}[i], e.c.Cfg.Tmp)
			} else if !in && d != e.orig[i] {
				e.complain("stage %s is given another directory", stage)
			} else if _, err := os.Stat(d); err != nil {
				e.complain("a directory handed to stage %s does not exist", stage)
			}
		}
	}
	if e.c.Out[stage] == "err" {
		return errVf
	}
	return nil
}
func (e *vfEng) alive(what string) {
	if e.c.Cfg.Tmp && len(vfGlobTmp(e.tmpRoot)) == 0 {
		e.complain("the temporary copy is gone at %s", what)
	}
	if e.store != nil && e.store.closed > 0 && (what == "compare" || what == "report" || what == "mutation") {
		e.complain("the store is closed at %s", what)
	}
}
func vfInside(d, root string) (bool, error) {
	rel, err := filepath.Rel(root, d)
	return err == nil && rel != ".." && !strings.HasPrefix(rel, "../"), err
}
func vfGlobTmp(root string) (out []string) {
	es, _ := os.ReadDir(root)
	for _, x := range es {
		if !strings.HasPrefix(x.Name(), "lens_state") {
			out = append(out, x.Name())
		}
	}
	return out
}

type vfProv struct {
	e     *vfEng
	stage string
}

func (p vfProv) Cleanup() {
	p.e.log = append(p.e.log, [2]string{"release", p.stage})
	p.e.alive("the release of " + p.stage)
	if p.stage == "update" || p.stage == "mutation" {
		if p.e.store != nil && p.e.store.closed > 0 {
			p.e.complain("the store is closed before the release of %s", p.stage)
		}
	}
}

type vfModP struct{ vfProv }

func (p vfModP) AnalyzeModuleChanges(config Config, expand bool, changed []*ModuleChange, radius int) (map[string][]*ModuleFunction, map[string][]*packages.Package, error) {
	if err := p.e.run(p.stage, &config); err != nil {
		return nil, nil, err
	}
	if expand != p.e.c.Expand || radius != p.e.c.Radius {
		p.e.complain("module analysis asked with expand=%v radius=%d", expand, radius)
	}
	if len(changed) != 1 || changed[0].Name != "ex.com/a" || changed[0].PriorVersion != "v1.0.0" || changed[0].NewVersion != "v1.1.0" {
		p.e.complain("module analysis is given the wrong updates")
	}
	if p.e.c.Out["modules"] == "none" {
		return map[string][]*ModuleFunction{"ex.com/a": nil, "ex.com/n": {}}, nil, nil
	}
	p.e.mods = map[string][]*ModuleFunction{}
	for _, f := range p.e.c.Funcs {
		p.e.mods[f.M] = nil
		for i := 0; i < f.N; i++ {
			p.e.mods[f.M] = append(p.e.mods[f.M], &ModuleFunction{Function: Function{FunctionIdent: fmt.Sprintf("%s:F%d", f.M, i)}})
		}
	}
	return p.e.mods, nil, nil
}
func (e *vfEng) checkFuncs(stage string, in []*ModuleFunction) {
	var want []*ModuleFunction
	for _, f := range e.c.Funcs {
		want = append(want, e.mods[f.M]...)
	}
	same := len(want) == len(in)
	for i := 0; same && i < len(in); i++ {
		same = want[i] == in[i]
	}
	if !same {
		e.complain("stage %s is not given the changed functions, by module", stage)
	}
}

type vfCallP struct{ vfProv }

func (p vfCallP) PerformCallerStaticAnalysis(config Config, mc []*ModuleFunction) ([]*CallerFunction, ReachableModuleChange, error) {
	if err := p.e.run(p.stage, &config); err != nil {
		return nil, nil, err
	}
	p.e.checkFuncs(p.stage, mc)
	if p.e.c.Out["callers"] == "none" {
		return nil, nil, nil
	}
	p.e.callers = []*CallerFunction{{Function: Function{FunctionIdent: "p:A"}}, {Function: Function{FunctionIdent: "p:B"}}}
	p.e.reach = ReachableModuleChange{}
	for _, m := range mc {
		p.e.reach[m.FunctionIdent] = m
	}
	return p.e.callers, p.e.reach, nil
}

type vfTestP struct{ vfProv }

func (e *vfEng) checkCallers(stage string, in []*CallerFunction) {
	same := len(in) == len(e.callers)
	for i := 0; same && i < len(in); i++ {
		same = in[i] == e.callers[i]
	}
	if !same {
		e.complain("stage %s is not given the callers found", stage)
	}
}
func (e *vfEng) checkTests(stage string, in []*TestFunction) {
	same := len(in) == len(e.tests)
	for i := 0; same && i < len(in); i++ {
		same = in[i] == e.tests[i]
	}
	if !same {
		e.complain("stage %s is not given the tests found", stage)
	}
}
func (p vfTestP) ProvideTests(config Config, callers []*CallerFunction) ([]*TestFunction, error) {
	if err := p.e.run(p.stage, &config); err != nil {
		return nil, err
	}
	p.e.checkCallers(p.stage, callers)
	if p.e.c.Out["tests"] == "none" {
		return []*TestFunction{}, nil
	}
	p.e.tests = []*TestFunction{{Function: Function{FunctionIdent: "p:TestA"}}, {Function: Function{FunctionIdent: "p:TestB"}}}
	return p.e.tests, nil
}

type vfStore struct {
	Storage
	e      *vfEng
	closed int
}

func (s *vfStore) Close() {
	s.closed++
	s.e.log = append(s.e.log, [2]string{"release", "storage"})
	s.e.alive("the release of the store")
	s.Storage.Close()
}

type vfStoreP struct {
	e     *vfEng
	inner StorageProvider
}

func (p vfStoreP) NewStorage() (Storage, error) {
	if err := p.e.run("storage", nil); err != nil {
		return nil, err
	}
	s, err := p.inner.NewStorage()
	if err != nil {
		return nil, err
	}
	p.e.store = &vfStore{Storage: s, e: p.e}
	return p.e.store, nil
}

type vfUpdP struct{ vfProv }

func (p vfUpdP) RunModuleUpdateAnalysis(config Config, storage Storage, changed []*ModuleChange, reach ReachableModuleChange,
	callers []*CallerFunction, tests []*TestFunction) (int, int, int, Storage, Storage, error) {
	if err := p.e.run(p.stage, &config); err != nil {
		return 0, 0, 0, nil, nil, err
	}
	if storage != Storage(p.e.store) {
		p.e.complain("the update stage is not given the store")
	}
	p.e.checkCallers(p.stage, callers)
	p.e.checkTests(p.stage, tests)
	if len(reach) != len(p.e.reach) || len(changed) != 1 {
		p.e.complain("the update stage is not given the reachable changes")
	}
	for k, v := range p.e.reach {
		if reach[k] != v {
			p.e.complain("the update stage is not given the reachable changes")
		}
	}
	p.e.pre, p.e.post = KeyPrefixStorage(storage, "pre"), KeyPrefixStorage(storage, "post")
	if err := p.e.pre.SaveState("k", []byte("v")); err != nil {
		p.e.complain("the store does not work: %v", err)
	}
	return 31, 17, 5, p.e.pre, p.e.post, nil
}

type vfMutP struct{ vfProv }

func (p vfMutP) RunMutationTesting(config Config, fast, line, targeted bool, mc []*ModuleFunction, tests []*TestFunction) (MutationResult, error) {
	if err := p.e.run(p.stage, &config); err != nil {
		return MutationResult{}, err
	}
	p.e.checkFuncs(p.stage, mc)
	p.e.checkTests(p.stage, tests)
	if fast != p.e.c.Fast || line != p.e.c.Line || targeted != p.e.c.Targeted {
		p.e.complain("mutation testing asked with fast=%v line=%v targeted=%v", fast, line, targeted)
	}
	return MutationResult{MutationCount: 41, SquashedCount: 11}, nil
}

type vfCmpP struct{ e *vfEng }

func (p vfCmpP) CompareTestResults(pre, post Storage, mult int) (int, int, []TestReport, error) {
	if err := p.e.run("compare", nil); err != nil {
		return 0, 0, nil, err
	}
	if pre != p.e.pre || post != p.e.post || mult != 7 {
		p.e.complain("the comparison is not given the recorded results and the time factor")
	}
	if v, ok, err := pre.LoadState("k"); err != nil || !ok || string(v) != "v" {
		p.e.complain("recorded results cannot be read at the comparison")
	}
	p.e.reports = []TestReport{{SameFieldCount: 3, DiffFieldCount: 2}}
	return 3, 2, p.e.reports, nil
}

type vfRepP struct{ e *vfEng }

func (p vfRepP) WriteReportFiles(jsonFile, charts string, start time.Time, analysis, discovery, exec, mutation time.Duration,
	changed []*ModuleChange, checked []string, funcCount, reached, untracked int, fieldChecks int, callers []*CallerFunction, tests []*TestFunction,
	same, diff int, reports []TestReport, mut MutationResult) error {
	err := p.e.run("report", nil)
	if len(changed) != 1 || changed[0].Name != "ex.com/a" {
		p.e.complain("the report is not given the updates")
	}
	var names []string
	if p.e.c.Rep == "modules" {
		names = []string{"ex.com/a", "ex.com/n"}
	}
	for _, f := range p.e.c.Funcs {
		names = append(names, f.M)
	}
	sort.Strings(names)
	if vfJSON(names) != vfJSON(checked) {
		p.e.complain("the report is not given the modules checked: %v", checked)
	}
	n := 0
	for _, f := range p.e.c.Funcs {
		n += f.N
	}
	if jsonFile != "r.json" || charts != "c.png" || start.IsZero() || analysis < 0 || discovery < 0 || exec < 0 || mutation < 0 {
		p.e.complain("report targets or times wrong")
	}
	full := p.e.c.Rep == "full"
	if funcCount != n {
		p.e.complain("the report is told %d changed functions instead of %d", funcCount, n)
	}
	if full || p.e.c.Rep == "tests" {
		p.e.checkCallers("report", callers)
	} else if len(callers) != 0 {
		p.e.complain("callers reported after none were found")
	}
	if full {
		p.e.checkTests("report", tests)
		wantMut := MutationResult{}
		if p.e.c.Cfg.Scope != "none" {
			wantMut = MutationResult{MutationCount: 41, SquashedCount: 11}
		}
		if reached != 17 || untracked != 5 || fieldChecks != 31 || same != 3 || diff != 2 || len(reports) != 1 || mut != wantMut {
			p.e.complain("the report is not given what the stages found: %v", []interface{}{reached, untracked, fieldChecks, same, diff, len(reports), mut})
		}
	} else if len(tests) != 0 || reached+untracked+fieldChecks+same+diff+len(reports) != 0 || mut != (MutationResult{}) {
		p.e.complain("an early report claims results")
	}
	return err
}

func vfWrite(t *testing.T, path, text string) {
	t.Helper()
	vfMust(t, os.MkdirAll(filepath.Dir(path), 0755))
	vfMust(t, os.WriteFile(path, []byte(text), 0644))
}

// vfSnapshot lists every entry below root with its content.
func vfSnapshot(root string) map[string]string {
	out := map[string]string{}
	_ = filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		rel, _ := filepath.Rel(root, p)
		switch {
		case err != nil:
			out[rel] = "error"
		case info.IsDir():
			out[rel] = "dir"
		case info.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			out[rel] = "link " + l
		default:
			b, _ := os.ReadFile(p)
			out[rel] = "file " + string(b)
		}
		return nil
	})
	return out
}

const vfGoMod = "module ex.com/p\n\ngo 1.21\n\nrequire (\n\tex.com/a v1.%d.0\n\tex.com/b v1.0.0\n)\n"

func TestVerifP10(t *testing.T) {
	r := vfNewReport()
	defer r.write(t)
	defer vfQuiet()()
	base := vfScratch(t, "p10")
	// fixtures: single module and workspace projects
	single, work := filepath.Join(base, "single"), filepath.Join(base, "work")
	empty := filepath.Join(base, "empty")
	vfMust(t, os.MkdirAll(empty, 0755))
	vfWrite(t, single+"/go.mod", fmt.Sprintf(vfGoMod, 0))
	vfWrite(t, single+"/a/b/x.go", "package b\n")
	vfWrite(t, work+"/go.work", "go 1.21\n\nuse (\n\t./m\n\t./n\n)\n")
	vfWrite(t, work+"/m/go.mod", fmt.Sprintf(vfGoMod, 0))
	vfWrite(t, work+"/n/go.mod", "module ex.com/n\n\ngo 1.21\n\nrequire ex.com/b v1.0.0\n")
	up := filepath.Join(base, "updated")
	vfWrite(t, up+"/ok.mod", fmt.Sprintf(vfGoMod, 1))
	vfWrite(t, up+"/none.mod", fmt.Sprintf(vfGoMod, 0))
	vfWrite(t, up+"/err.mod", "modul ex.com/p\n???")
	for i, k := range []string{"none", "ok"} {
		vfWrite(t, up+"/"+k+"w/go.work", "go 1.21\n\nuse (\n\t./m\n\t./n\n)\n")
		vfWrite(t, up+"/"+k+"w/m/go.mod", fmt.Sprintf(vfGoMod, i))
		vfWrite(t, up+"/"+k+"w/n/go.mod", "module ex.com/n\n\ngo 1.21\n\nrequire ex.com/b v1.0.0\n")
	}
	vfWrite(t, up+"/errw/go.work", "us ./m ???")
	gopath, cache := filepath.Join(base, "gp"), filepath.Join(base, "gp/pkg/mod")
	vfWrite(t, gopath+"/bin/tool", "x")
	vfWrite(t, cache+"/ex.com/a@v1.0.0/a.go", "package a\n")
	before := vfSnapshot(base)

	vfLines(t, os.Getenv("VF_CASES"), func(n int, doc []byte) {
		if r.full() {
			return
		}
		var c vfEngCase
		vfMust(t, json.Unmarshal(doc, &c))
		rot := n + int(vfSeed())
		e := &vfEng{c: c, real: rot%97 == 0 && c.Out["storage"] == "ok"}
		cfg := &Config{ProjectDir: single, AstMonitorPort: 44553, MaxFieldRecurse: 5, MaxFieldLen: 100, CacheMB: 1, TimeMultiplier: 7,
			ReportJsonFile: "r.json", ReportChartsFile: "c.png", MutationScope: c.Cfg.Scope, MutationMode: c.Cfg.Mode, MutationTests: c.Cfg.Mt,
			TmpCopy: c.Cfg.Tmp, Gopath: gopath, Gomodcache: cache}
		initial := c.Out["initial"]
		if initial == "" {
			initial = "ok"
		}
		switch c.Cfg.Src {
		case "flag", "list":
			want := map[string]string{"ok": "ex.com/a@v1.1.0", "none": "ex.com/zz@v1.1.0", "err": "ex.com/a@v1.1.0"}[initial]
			if c.Cfg.Src == "flag" {
				cfg.ModuleVersionFlag = want
			} else {
				cfg.ModulesVersionFlag = want + ",ex.com/none@v3.0.0"
			}
			if rot%2 == 0 {
				cfg.ProjectDir = work
			}
			if initial == "err" {
				cfg.ProjectDir = empty
			}
		case "gomod":
			cfg.UpdatedGoModFile = up + "/" + initial + ".mod"
		case "gowork":
			cfg.ProjectDir = work
			cfg.UpdatedGoWorkFile = up + "/" + initial + "w/go.work"
		}
		if c.Out["prepare"] == "err" {
			switch rot % 4 {
			case 0:
				cfg.AstMonitorPort = 80
			case 1:
				cfg.ProjectDir = ""
			case 2:
				cfg.MaxFieldLen = 0
			case 3:
				cfg.TimeMultiplier = 0
			}
		}
		if c.Out["tmp"] == "err" {
			switch rot % 3 {
			case 0:
				cfg.Gomodcache = filepath.Join(base, "missing")
			case 1:
				cfg.Gopath = filepath.Join(base, "missing")
			case 2:
				cfg.ProjectDir = filepath.Join(base, "missing")
			}
		}
		e.orig = [3]string{cfg.ProjectDir, cfg.Gopath, cfg.Gomodcache}
		e.tmpRoot = filepath.Join(os.Getenv("VF_SCRATCH"), fmt.Sprintf("tmp%d", n))
		vfMust(t, os.MkdirAll(e.tmpRoot, 0755))
		vfMust(t, os.Setenv("TMPDIR", e.tmpRoot))
		var sp StorageProvider = &SingletonStorageProvider{Store: NewMemStorage()}
		if e.real {
			sp = &DefaultStorageProvider{CacheMB: 1}
		}
		eng := NewAnalysisEngineWithProviders(cfg, vfModP{vfProv{e, "modules"}}, vfCallP{vfProv{e, "callers"}}, vfTestP{vfProv{e, "tests"}},
			vfUpdP{vfProv{e, "update"}}, vfMutP{vfProv{e, "mutation"}}, vfCmpP{e}, vfStoreP{e, sp}, vfRepP{e})
		var err error
		if p := vfGuard(func() { err = eng.Run() }); p != "" {
			r.fail(c, p, nil, "the run panics")
			return
		}
		if (err != nil) != c.Err {
			r.fail(c, fmt.Sprint(err), c.Err, "a failed stage is not reported as the run's error, or a success is")
		}
		if vfJSON(e.log) != vfJSON(c.Log) && len(e.log)+len(c.Log) > 0 {
			r.fail(c, e.log, c.Log, "stages and releases differ from the specified order")
		}
		for _, b := range e.bad {
			r.fail(c, nil, nil, "%s", b)
		}
		if e.store != nil && e.store.closed != 1 {
			r.fail(c, e.store.closed, 1, "the store is not closed exactly once")
		}
		if left := vfSnapshot(e.tmpRoot); len(left) > 1 {
			var names []string
			for k := range left {
				names = append(names, k)
			}
			sort.Strings(names)
			if len(names) > 8 {
				names = names[:8]
			}
			r.fail(c, names, nil, "temporary files remain after the run")
		}
		_ = os.RemoveAll(e.tmpRoot)
		if n%200 == 0 {
			if vfJSON(vfSnapshot(base)) != vfJSON(before) {
				r.fail(c, nil, nil, "the user's files changed")
			}
		}
		r.ok(1)
		if n%1500 == 7 {
			r.sample(c)
		}
	})
	if vfJSON(vfSnapshot(base)) != vfJSON(before) {
		r.fail(nil, nil, nil, "the user's files changed")
	}
}
