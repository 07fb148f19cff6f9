package lens

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
)

type vfReq struct {
	N  string
	At bool
	V  string
}
type vfCfg struct {
	Proj                            string
	Module, Modules                 []vfReq
	Gomod, Gowork, Json, Charts     string
	Port, Recurse, Len, Cache, Time int
	Scope, Mode, Tests              string
}
type vfCfgCase struct {
	Hist []struct {
		C       vfCfg
		Ok      bool
		Targets []vfReq
	}
}

func (r vfReq) text() string {
	if r.At {
		return r.N + "@" + r.V
	}
	return r.N
}

func TestVerifP20(t *testing.T) {
	r := vfNewReport()
	defer r.write(t)
	defer vfQuiet()()
	vfLines(t, os.Getenv("VF_CASES"), func(n int, doc []byte) {
		if r.full() {
			return
		}
		var c vfCfgCase
		vfMust(t, json.Unmarshal(doc, &c))
		top := vfScratch(t, fmt.Sprintf("c%d", n))
		defer func() { _ = os.RemoveAll(top) }()
		vfMust(t, os.Chdir(top))
		for _, d := range []string{"proj", "x", "dir", "jdir", "cdir", "jclash", "cclash"} {
			vfMust(t, os.MkdirAll(d, 0755))
		}
		for _, f := range []string{"up.mod", "up.work", "plainfile", "jclash/.write_test", "cclash/.write_test"} {
			vfMust(t, os.WriteFile(f, []byte("precious "+f), 0644))
		}
		in := map[string]map[string]string{"mod": {"": "", "file": filepath.Join(top, "up.mod"), "dir": "dir", "missing": "no/such.mod"},
			"work": {"": "", "file": "up.work", "dir": filepath.Join(top, "dir"), "missing": filepath.Join(top, "nope.work")}}
		out := map[string]map[string]string{}
		for _, k := range []string{"j", "c"} {
			out[k] = map[string]string{"": "", "dir": k + "dir/r." + k, "newdir": filepath.Join(top, k+"new", "deep", "r."+k), "clash": filepath.Join(top, k+"clash", "r."+k),
				"underfile": "plainfile/sub/r." + k}
		}
		cfg := &Config{Gopath: "/g", Gomodcache: "/g/m", TmpCopy: n%2 == 0, CustomFlags: map[string]string{"k": "v"}}
		for i, h := range c.Hist {
			x := h.C
			cfg.ProjectDir = map[string]string{"": "", "abs": filepath.Join(top, "proj"), "rel": "proj", "dots": "./x/../proj/", "absdots": top + "//x/./../proj/"}[x.Proj]
			cfg.ModuleVersionFlag, cfg.ModulesVersionFlag = "", ""
			if len(x.Module) > 0 {
				cfg.ModuleVersionFlag = x.Module[0].text()
			}
			var list []string
			for j, m := range x.Modules {
				list = append(list, strings.Repeat(" ", (n+j)%3)+m.text()+strings.Repeat(" ", (n+i+j)%2))
			}
			if cfg.ModulesVersionFlag = strings.Join(list, ","); len(list) == 1 {
				cfg.ModulesVersionFlag = strings.TrimSpace(cfg.ModulesVersionFlag)
			}
			cfg.UpdatedGoModFile, cfg.UpdatedGoWorkFile = in["mod"][x.Gomod], in["work"][x.Gowork]
			cfg.ReportJsonFile, cfg.ReportChartsFile = out["j"][x.Json], out["c"][x.Charts]
			cfg.AstMonitorPort, cfg.MaxFieldRecurse, cfg.MaxFieldLen, cfg.CacheMB, cfg.TimeMultiplier = x.Port, x.Recurse, x.Len, x.Cache, x.Time
			cfg.MutationScope, cfg.MutationMode, cfg.MutationTests = x.Scope, x.Mode, x.Tests
			was := *cfg
			before := vfSnapshot(top)
			var err error
			if p := vfGuard(func() { err = cfg.Prepare() }); p != "" {
				r.fail(c, p, nil, "preparing panics")
				return
			}
			if (err == nil) != h.Ok {
				r.fail(c.Hist[:i+1], fmt.Sprint(err), map[string]any{"accepted": h.Ok}, "preparation accepts an invalid configuration or rejects a valid one")
				return
			}
			after := vfSnapshot(top)
			for k, v := range before {
				if after[k] != v {
					r.fail(c.Hist[:i+1], k, nil, "preparing a configuration changes the user's files")
				}
			}
			for k, v := range after {
				if _, ok := before[k]; !ok && (v != "dir" || !strings.HasPrefix(k, "jnew") && !strings.HasPrefix(k, "cnew")) {
					r.fail(c.Hist[:i+1], k, nil, "preparing a configuration leaves files behind")
				}
			}
			now := *cfg
			first := h.Ok
			if first {
				var want []TargetModule
				for _, q := range h.Targets {
					want = append(want, TargetModule{Name: q.N, Version: q.V})
				}
				if len(want)+len(now.TargetModules) > 0 && !reflect.DeepEqual(now.TargetModules, want) {
					r.fail(c.Hist[:i+1], now.TargetModules, want, "the requested modules are not the ones the run works on")
				}
				if now.AbsProjDir != filepath.Join(top, "proj") {
					r.fail(c.Hist[:i+1], now.AbsProjDir, nil, "the project directory is not resolved")
				}
				for _, f := range []string{now.ReportJsonFile, now.ReportChartsFile} {
					if f != "" {
						if err := os.WriteFile(f, nil, 0644); err != nil {
							r.fail(c.Hist[:i+1], err.Error(), nil, "a report file that was accepted cannot be written")
						}
						_ = os.Remove(f)
					}
				}
			}
			if first || i > 0 && c.Hist[i-1].Ok { // the options themselves are left alone; a second preparation changes nothing
				if first {
					now.AbsProjDir, now.TargetModules = was.AbsProjDir, was.TargetModules
				}
				a, b := reflect.ValueOf(now), reflect.ValueOf(was)
				for j := 0; j < a.NumField(); j++ {
					if f := a.Type().Field(j); f.IsExported() && !reflect.DeepEqual(a.Field(j).Interface(), b.Field(j).Interface()) {
						r.fail(c.Hist[:i+1], a.Field(j).Interface(), b.Field(j).Interface(), "preparing changes option %s", f.Name)
					}
				}
			}
			r.ok(1)
		}
		if n%200 == 3 {
			r.sample(c)
		}
	})
}
