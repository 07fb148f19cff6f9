package cmd

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/build"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"testing"
)

type vfFlagCase struct {
	Args    []struct{ F, V, S string }
	Customs []string
	Cache   string
	Ok      bool
	Val     map[string]string
	Cv      any
}

func TestVerifP20Flags(t *testing.T) {
	type out struct {
		Checked    int              `json:"checked"`
		Violations []map[string]any `json:"violations"`
		Samples    []any            `json:"samples"`
		Stats      map[string]int   `json:"stats"`
	}
	o := out{Violations: []map[string]any{}, Samples: []any{}, Stats: map[string]int{}}
	defer func() {
		b, _ := json.MarshalIndent(o, "", " ")
		if err := os.WriteFile(os.Getenv("VF_OUT"), b, 0644); err != nil {
			t.Fatal(err)
		}
	}()
	fail := func(c any, got, want any, what string) {
		if len(o.Violations) < 5 {
			o.Violations = append(o.Violations, map[string]any{"what": what, "input": c, "got": got, "want": want})
		}
	}
	fh, err := os.Open(os.Getenv("VF_CASES"))
	if err != nil {
		t.Fatal(err)
	}
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for n := 0; sc.Scan(); n++ {
		line := sc.Text()
		if len(line) > 0 && line[0] == '"' { // TLC quotes the document
			s, err := strconv.Unquote(line)
			if err != nil {
				t.Fatal(err)
			}
			line = s
		}
		var c vfFlagCase
		if err := json.Unmarshal([]byte(line), &c); err != nil {
			t.Fatal(err)
		}
		args := []string{"modlens"}
		for _, a := range c.Args {
			switch a.S {
			case "-f=v":
				args = append(args, "-"+a.F+"="+a.V)
			case "--f=v":
				args = append(args, "--"+a.F+"="+a.V)
			case "-f v":
				args = append(args, "-"+a.F, a.V)
			case "--f v":
				args = append(args, "--"+a.F, a.V)
			default:
				args = append(args, "-"+a.F)
			}
		}
		var customs []CustomFlag
		for _, k := range c.Customs {
			customs = append(customs, map[string]CustomFlag{"cs": {Name: "cs", DefaultValue: "dflt", Type: "string"},
				"ci": {Name: "ci", DefaultValue: 7, Type: "int"}, "cb": {Name: "cb", DefaultValue: false, Type: "bool"}}[k])
		}
		os.Args = args
		flag.CommandLine = flag.NewFlagSet("modlens", flag.ContinueOnError)
		flag.CommandLine.SetOutput(io.Discard)
		build.Default.GOPATH = "/tmp/gopath-x"
		_ = os.Setenv("GOMODCACHE", c.Cache)
		cfg, err := ParseFlags(customs)
		o.Checked++
		if (err == nil) != c.Ok || (err == nil) != (cfg != nil) {
			fail(args, fmt.Sprint(err), c.Ok, "the command line is accepted although it asks for nothing or is contradictory, or rejected although it is complete")
			continue
		}
		if err != nil {
			continue
		}
		got := map[string]string{"project": cfg.ProjectDir, "module": cfg.ModuleVersionFlag, "modules": cfg.ModulesVersionFlag, "gomod": cfg.UpdatedGoModFile, "gowork": cfg.UpdatedGoWorkFile,
			"monitorport": strconv.Itoa(cfg.AstMonitorPort), "json": cfg.ReportJsonFile, "charts": cfg.ReportChartsFile, "fieldrecurse": strconv.Itoa(cfg.MaxFieldRecurse),
			"fieldlen": strconv.Itoa(cfg.MaxFieldLen), "cachemb": strconv.Itoa(cfg.CacheMB), "mutationscope": cfg.MutationScope, "mutationset": cfg.MutationMode,
			"mutationtests": cfg.MutationTests, "tmpcopy": strconv.FormatBool(cfg.TmpCopy), "timemultiplier": strconv.Itoa(cfg.TimeMultiplier)}
		if !reflect.DeepEqual(got, c.Val) {
			fail(args, got, c.Val, "the configuration is not what the command line asks for")
		}
		cv := map[string]string{}
		if m, ok := c.Cv.(map[string]any); ok {
			for k, v := range m {
				cv[k] = v.(string)
			}
		}
		if len(cv)+len(cfg.CustomFlags) > 0 && !reflect.DeepEqual(cfg.CustomFlags, cv) {
			fail(args, cfg.CustomFlags, cv, "the custom options are not what the command line asks for")
		}
		wantCache := c.Cache
		if wantCache == "" {
			wantCache = filepath.Join("/tmp/gopath-x", "pkg", "mod")
		}
		if cfg.Gopath != "/tmp/gopath-x" || cfg.Gomodcache != wantCache {
			fail(args, []string{cfg.Gopath, cfg.Gomodcache}, wantCache, "the Go path or module cache is not the environment's")
		}
		if n%500 == 7 && len(o.Samples) < 3 {
			o.Samples = append(o.Samples, args)
		}
	}
}
