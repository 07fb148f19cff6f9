package lens

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"golang.org/x/tools/go/packages"
)

type vfEntry struct {
	P []string
	K string
	C string
}
type vfCopyCase struct {
	Roots   map[string][]string
	Links   []string
	Missing string
	Via     bool
	World   []vfEntry
	Img     map[string][]vfEntry
}

type vfCopyProv struct {
	f func(config Config) error
}

func (p vfCopyProv) AnalyzeModuleChanges(config Config, expand bool, changed []*ModuleChange, radius int) (map[string][]*ModuleFunction, map[string][]*packages.Package, error) {
	return nil, nil, p.f(config)
}

func (p vfCopyProv) Cleanup() {}

func vfClass(k string) string {
	switch k {
	case "file", "rofile":
		return "file"
	case "dir", "rodir":
		return "dir"
	}
	return "link"
}
func vfText(c string) string {
	switch c {
	case "GOMOD":
		return fmt.Sprintf(vfGoMod, 0)
	case "L":
		return strings.Repeat("0123456789abcdef\n", 20000)
	}
	return c
}

// vfModes lists every entry below root with kind, permissions and content.
func vfModes(root string) map[string]string {
	out := vfSnapshot(root)
	for k := range out {
		if info, err := os.Lstat(filepath.Join(root, k)); err == nil {
			out[k] = info.Mode().String() + " " + out[k]
		}
	}
	return out
}
func vfMapDiff(got, want map[string]string) (out []string) {
	for k, v := range want {
		if g, ok := got[k]; !ok {
			out = append(out, "missing "+k)
		} else if g != v {
			out = append(out, fmt.Sprintf("%s is %.60q instead of %.60q", k, g, v))
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			out = append(out, "unexpected "+k)
		}
	}
	sort.Strings(out)
	if len(out) > 6 {
		out = out[:6]
	}
	return out
}

func TestVerifP19(t *testing.T) {
	r := vfNewReport()
	defer r.write(t)
	defer vfQuiet()()
	vfLines(t, os.Getenv("VF_CASES"), func(n int, doc []byte) {
		if r.full() {
			return
		}
		var c vfCopyCase
		vfMust(t, json.Unmarshal(doc, &c))
		top := vfScratch(t, fmt.Sprintf("w%d", n))
		base, tmp := filepath.Join(top, "base"), filepath.Join(top, "tmp")
		vfMust(t, os.MkdirAll(base, 0755))
		vfMust(t, os.MkdirAll(tmp, 0755))
		sort.Slice(c.World, func(i, j int) bool { return len(c.World[i].P) < len(c.World[j].P) })
		mod := filepath.Join(append([]string{base}, c.Roots["M"]...)...)
		for _, e := range c.World {
			p := filepath.Join(append([]string{base}, e.P...)...)
			switch vfClass(e.K) {
			case "dir":
				vfMust(t, os.MkdirAll(p, 0755))
			case "file":
				vfMust(t, os.WriteFile(p, []byte(vfText(e.C)), 0644))
			default:
				vfMust(t, os.Symlink(strings.ReplaceAll(e.C, "@M", mod), p))
			}
		}
		for _, e := range c.World {
			p := filepath.Join(append([]string{base}, e.P...)...)
			switch e.K {
			case "rofile":
				vfMust(t, os.Chmod(p, 0444))
			case "rodir":
				vfMust(t, os.Chmod(p, 0555))
			}
		}
		defer func() { _ = WriteChmod(t.Context(), top); _ = os.RemoveAll(top) }()
		dir := map[string]string{}
		for _, k := range []string{"P", "G", "M"} {
			dir[k] = filepath.Join(append([]string{base}, c.Roots[k]...)...)
		}
		for _, k := range c.Links { // the root is named through a link
			l := filepath.Join(top, "link"+k)
			vfMust(t, os.Symlink(dir[k], l))
			dir[k] = l
		}
		if c.Via {
			dir["M"] = filepath.Join(dir["G"], "via")
		}
		if c.Missing != "" {
			dir[c.Missing] = filepath.Join(top, "missing", "x")
		}
		before := vfModes(base)
		vfMust(t, os.Setenv("TMPDIR", tmp))
		cfg := &Config{ProjectDir: dir["P"], ModuleVersionFlag: "ex.com/a@v1.1.0", AstMonitorPort: 44553, MaxFieldRecurse: 5, MaxFieldLen: 100, CacheMB: 1, TimeMultiplier: 7,
			MutationScope: "none", MutationMode: "fast", MutationTests: "full", TmpCopy: true, Gopath: dir["G"], Gomodcache: dir["M"]}
		reached := false
		prov := vfCopyProv{f: func(config Config) error {
			reached = true
			now := map[string]string{"P": config.AbsProjDir, "G": config.Gopath, "M": config.Gomodcache}
			for _, k := range []string{"P", "G", "M"} {
				what := map[string]string{"P": "project", "G": "Go path", "M": "module cache"}[k]
				real, err := filepath.EvalSymlinks(now[k])
				if err != nil {
					r.fail(c, err.Error(), nil, "the %s handed to the analysis does not exist", what)
					continue
				}
				if in, _ := vfInside(real, tmp); !in {
					r.fail(c, real, nil, "the %s handed to the analysis is not in the temporary copy", what)
					continue
				}
				want := map[string]string{".": "dir"}
				for _, e := range c.Img[k] {
					p := filepath.Join(e.P...)
					switch vfClass(e.K) {
					case "dir":
						want[p] = "dir"
					case "file":
						want[p] = "file " + vfText(e.C)
					default:
						want[p] = "link " + strings.ReplaceAll(e.C, "@M", mod)
					}
				}
				if d := vfMapDiff(vfSnapshot(now[k]), want); len(d) > 0 {
					r.fail(c, d, nil, "the copy of the %s is not faithful", what)
				}
				_ = filepath.Walk(now[k], func(p string, info os.FileInfo, err error) error {
					if err == nil && info.Mode()&os.ModeSymlink == 0 && info.Mode()&0200 == 0 {
						r.fail(c, p, nil, "the copy of the %s is not writable", what)
					}
					return nil
				})
			}
			// whatever the analysis writes now stays in the copy
			for _, k := range []string{"P", "G", "M"} {
				real, err := filepath.EvalSymlinks(now[k])
				if in, _ := vfInside(real, top); err != nil || !in {
					continue
				}
				_ = filepath.Walk(now[k], func(p string, info os.FileInfo, err error) error {
					if err != nil {
						return nil
					}
					if info.Mode().IsRegular() {
						if n%2 == 0 {
							_ = os.WriteFile(p, []byte("overwritten"), 0644)
						} else {
							_ = os.Remove(p)
						}
					} else if info.IsDir() {
						_ = os.WriteFile(filepath.Join(p, "zz_new"), []byte("new"), 0444)
						if n%5 == 0 {
							_ = os.Chmod(p, 0555)
						}
					}
					return nil
				})
			}
			return errors.New("stop here")
		}}
		eng := NewAnalysisEngineWithProviders(cfg, prov, nil, nil, nil, nil, nil, &SingletonStorageProvider{Store: NewMemStorage()}, nil)
		var err error
		if p := vfGuard(func() { err = eng.Run() }); p != "" {
			r.fail(c, p, nil, "the run panics")
			return
		}
		if err == nil || reached != (c.Missing == "") {
			r.fail(c, fmt.Sprint(err), nil, "the copy fails, or a failed copy goes unnoticed")
		}
		if d := vfMapDiff(vfModes(base), before); len(d) > 0 {
			r.fail(c, d, nil, "the user's files changed")
		}
		if left := vfSnapshot(tmp); len(left) > 1 {
			r.fail(c, len(left), nil, "temporary files remain after the run")
		}
		r.ok(1)
		if n%100 == 3 {
			r.sample(c)
		}
	})
}
