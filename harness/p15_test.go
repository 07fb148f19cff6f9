package lens

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"golang.org/x/tools/go/packages"
)

type vfModReq struct {
	M, V string
	Ind  bool
}
type vfModCase struct {
	Kind     string
	Old, New []struct {
		D, G string
		R    []vfModReq
	}
	Span []struct{ M, Lo, Hi string }
	Go   string
	Ups []struct {
		Name, Old, New string
		Ind            bool
	}
	Asked []struct {
		M, V string
		Cur  []string
	}
	Fns []struct {
		G, M string
		Skip bool
	}
}
type vfUpdProv struct {
	got    *[]*ModuleChange
	called *bool
}

func (p vfUpdProv) AnalyzeModuleChanges(config Config, expand bool, changed []*ModuleChange, radius int) (map[string][]*ModuleFunction, map[string][]*packages.Package, error) {
	*p.got, *p.called = changed, true
	return nil, nil, errVf
}
func (p vfUpdProv) Cleanup() {}

// vfModText renders a definition in one of several equivalent layouts.
func vfModText(name, gov string, reqs []vfModReq, layout int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "module ex.com/%s\n\ngo %s\n\n", name, gov)
	if layout%3 == 1 {
		b.WriteString("replace ex.com/a => ../elsewhere\n\nexclude ex.com/b v1.5.0\n\n")
	}
	line := func(q vfModReq) string {
		s := q.M + " " + q.V
		if q.Ind {
			s += " // indirect"
		} else if layout%2 == 1 {
			s += " // a note"
		}
		return s
	}
	switch layout % 4 {
	case 0: // one line each
		for _, q := range reqs {
			fmt.Fprintf(&b, "require %s\n", line(q))
		}
	case 1:
		b.WriteString("require (\n")
		for _, q := range reqs {
			fmt.Fprintf(&b, "\t%s\n", line(q))
		}
		b.WriteString(")\n")
	default: // two blocks
		for _, ind := range []bool{layout%4 == 2, layout%4 != 2} {
			b.WriteString("require (\n")
			for _, q := range reqs {
				if q.Ind == ind {
					fmt.Fprintf(&b, "\t%s\n\n\t// next\n", line(q))
				}
			}
			b.WriteString(")\n\n")
		}
	}
	return b.String()
}

func TestVerifP15(t *testing.T) {
	r := vfNewReport()
	defer r.write(t)
	defer vfQuiet()()
	vfLines(t, os.Getenv("VF_CASES"), func(n int, doc []byte) {
		if r.full() {
			return
		}
		var c vfModCase
		vfMust(t, json.Unmarshal(doc, &c))
		top := vfScratch(t, fmt.Sprintf("g%d", n))
		defer func() { _ = os.RemoveAll(top) }()
		proj, upd := filepath.Join(top, "proj"), filepath.Join(top, "upd")
		var members []string
		for side, defs := range [2][]struct {
			D, G string
			R    []vfModReq
		}{c.Old, c.New} {
			root := []string{proj, upd}[side]
			vfMust(t, os.MkdirAll(root, 0755))
			work := "go 1.23\n\n"
			sort.Slice(defs, func(i, j int) bool { return (defs[i].D < defs[j].D) == (n%2 == 0) })
			for i, d := range defs {
				dir := filepath.Join(root, d.D)
				vfMust(t, os.MkdirAll(dir, 0755))
				vfMust(t, os.WriteFile(filepath.Join(dir, "go.mod"), []byte(vfModText(fmt.Sprintf("member%d", i), d.G, d.R, n+i+side)), 0644))
				if d.D == "." || n%3 != 0 {
					work += "use " + map[bool]string{true: ".", false: "./" + d.D}[d.D == "."] + "\n"
				} else {
					work += "use (\n\t./" + d.D + " // member\n)\n"
				}
				if side == 0 {
					members = append(members, filepath.Join(dir, "go.mod"))
				}
			}
			if c.Kind == "work" {
				vfMust(t, os.WriteFile(filepath.Join(root, "go.work"), []byte(work), 0644))
			}
		}
		sort.Strings(members)
		base := Config{ProjectDir: proj, AstMonitorPort: 44553, MaxFieldRecurse: 5, MaxFieldLen: 100, CacheMB: 1, TimeMultiplier: 2, MutationScope: "none", MutationMode: "fast", MutationTests: "full"}
		// what a run of the engine with this configuration takes for the updates
		run := func(cfg Config) (got []*ModuleChange, called bool) {
			eng := NewAnalysisEngineWithProviders(&cfg, vfUpdProv{&got, &called}, nil, nil, nil, nil, nil, &SingletonStorageProvider{Store: NewMemStorage()}, nil)
			if p := vfGuard(func() { _ = eng.Run() }); p != "" {
				r.fail(c, p, nil, "the run panics")
			}
			return
		}
		show := func(ms []*ModuleChange) (out []string) {
			for _, m := range ms {
				out = append(out, fmt.Sprintf("%s %s->%s indirect=%v", m.Name, m.PriorVersion, m.NewVersion, m.Indirect))
			}
			return
		}
		var want []string
		for _, u := range c.Ups {
			want = append(want, fmt.Sprintf("%s %s->%s indirect=%v", u.Name, u.Old, u.New, u.Ind))
		}
		sort.Strings(want)
		cfg := base
		if c.Kind == "single" {
			cfg.UpdatedGoModFile = filepath.Join(upd, "go.mod")
		} else {
			cfg.UpdatedGoWorkFile = filepath.Join(upd, "go.work")
		}
		var first []string
		for k := 0; k < 3; k++ {
			ms, called := run(cfg)
			got := show(ms)
			if called != (len(want) > 0) {
				r.fail(c, got, want, "the analysis is run without updates, or not run although there are some")
			}
			if k == 0 {
				first = got
				s := append([]string(nil), got...)
				sort.Strings(s)
				if strings.Join(s, "\n") != strings.Join(want, "\n") {
					r.fail(c, s, want, "the updates are not the difference of the definitions")
				}
			} else if strings.Join(first, "\n") != strings.Join(got, "\n") {
				r.fail(c, got, first, "the order of the updates differs between identical runs")
			}
		}
		if c.Kind == "work" { // a single updated go.mod says nothing about a workspace
			cfg := base
			cfg.UpdatedGoModFile = filepath.Join(top, "up.mod")
			vfMust(t, os.WriteFile(cfg.UpdatedGoModFile, []byte("module ex.com/x\n\nrequire ex.com/a v9.0.0\n"), 0644))
			if _, called := run(cfg); called && len(members) > 1 {
				r.fail(c, nil, nil, "an updated go.mod is accepted for a workspace")
			}
		}
		// explicit requests
		if len(c.Asked) > 0 {
			cfg := base
			var list, wantAsk []string
			for _, a := range c.Asked {
				list = append(list, a.M+"@"+a.V)
			}
			if cfg.ModulesVersionFlag = strings.Join(list, ","); len(list) == 1 {
				cfg.ModuleVersionFlag, cfg.ModulesVersionFlag = list[0], ""
			}
			ms, _ := run(cfg)
			i := 0
			for _, a := range c.Asked {
				if len(a.Cur) == 0 {
					continue
				}
				if i < len(ms) && ms[i].Name == a.M && ms[i].NewVersion == a.V && vfHas(a.Cur, ms[i].PriorVersion) {
					wantAsk = append(wantAsk, show(ms[i:i+1])...)
				} else {
					wantAsk = append(wantAsk, a.M+" from one of "+strings.Join(a.Cur, ","))
				}
				i++
			}
			if got := show(ms); strings.Join(got, "\n") != strings.Join(wantAsk, "\n") {
				r.fail(c, got, wantAsk, "the requested updates do not start from the version in use")
			}
			for _, m := range ms {
				v, ind, err := FindModuleVersion(proj, m.Name)
				if err != nil || v != m.PriorVersion || ind != m.Indirect {
					r.fail(c, v, m.PriorVersion, "the version in use is inconsistent")
				}
			}
		}
		if got, err := ProjectGoModFiles(proj); err != nil || strings.Join(got, "\n") != strings.Join(members, "\n") {
			r.fail(c, got, members, "the project's members are not found")
		}
		// the versions the project as a whole is taken to use
		for _, newest := range []bool{false, true} {
			want := map[string]string{}
			for _, s := range c.Span {
				want[s.M] = map[bool]string{false: s.Lo, true: s.Hi}[newest]
			}
			deps, gov, err := parseProjectDeps(proj, newest)
			if err != nil || vfJSON(deps) != vfJSON(want) || gov != c.Go {
				r.fail(c, fmt.Sprint(deps, gov, err), fmt.Sprint(want, c.Go), "the project's required versions are not the oldest (newest) ones of its members")
			}
		}
		// modules too old for instrumentation
		in := ReachableModuleChange{}
		skip := 0
		var keep []string
		for i, f := range c.Fns {
			id := fmt.Sprintf("%s:F%d", f.M, i)
			in[id] = &ModuleFunction{Function: Function{FunctionIdent: id}, Module: &ModuleChange{Name: f.M, GoVersion: f.G}}
			if f.Skip {
				skip++
			} else {
				keep = append(keep, id)
			}
		}
		kept, skipped := FilterModulesByGoVersion(in)
		var got []string
		for _, m := range kept {
			got = append(got, m.FunctionIdent)
		}
		sort.Strings(got)
		sort.Strings(keep)
		if skipped != skip || strings.Join(got, ",") != strings.Join(keep, ",") {
			r.fail(c.Fns, got, keep, "the functions kept are not those of modules with a recent enough Go version")
		}
		r.ok(1)
		if n%300 == 3 {
			r.sample(c)
		}
	})
}
func vfHas(in []string, x string) bool {
	for _, s := range in {
		if s == x {
			return true
		}
	}
	return false
}
