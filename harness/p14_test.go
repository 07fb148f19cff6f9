package lens

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
)

type vfRcNode struct {
	Loc, Kind string
	Sig, Name int
}
type vfRcEdge struct {
	From, To, N int
	How         string
}
type vfRcCaller struct {
	Can       bool
	Must, May []int
}
type vfRcTest struct {
	Any       bool
	Must, May []int
}
type vfRcCase struct {
	Nodes   []vfRcNode
	Edges   []vfRcEdge
	Changed []int
	Callers []vfRcCaller
	Tests   []vfRcTest
	id      int
	base    string // import path of the project packages
	dir     string // their directory
}

// file of a location relative to the package root, its package name and import path suffix
var vfRcFiles = map[string][2]string{
	"d": {"d/d.go", "d"}, "m": {"m/m.go", "m"}, "q": {"q/q.go", "q"}, "qg": {"q/q_gen.go", "q"}, "tq": {"q/q_test.go", "q"}, "tqx": {"q/qx_test.go", "q_test"},
	"p": {"p/p.go", "p"}, "pg": {"p/p.pb.go", "p"}, "tp": {"p/p_test.go", "p"}, "tpx": {"p/px_test.go", "p_test"}, "cmd": {"cmd/main.go", "main"},
}

func (c *vfRcCase) path(loc string) string {
	switch loc {
	case "d":
		return fmt.Sprintf("example.com/dep/g%d/d", c.id)
	case "m":
		return fmt.Sprintf("example.com/mid/g%d/m", c.id)
	case "tq", "qg", "q":
		return c.base + "/q"
	case "tqx":
		return c.base + "/q_test"
	case "tp", "pg", "p":
		return c.base + "/p"
	case "tpx":
		return c.base + "/p_test"
	}
	return c.base + "/cmd"
}

func (c *vfRcCase) name(n int) string {
	switch nd := c.Nodes[n-1]; nd.Kind {
	case "func", "gen":
		return fmt.Sprintf("F%d", n)
	case "lower":
		return fmt.Sprintf("f%d", n)
	case "val", "ptr", "gmeth", "kmeth", "priv":
		return fmt.Sprintf("M%d", nd.Name)
	case "test", "suite":
		return fmt.Sprintf("Test%d", n)
	case "low":
		return fmt.Sprintf("Testlow%d", n)
	case "init":
		return "init"
	}
	return "main"
}

func (c *vfRcCase) ident(n int) string {
	nd := c.Nodes[n-1]
	recv := map[string]string{"val": fmt.Sprintf("T%d.", n), "ptr": fmt.Sprintf("*T%d.", n), "gmeth": fmt.Sprintf("*T%d[K].", n), "kmeth": fmt.Sprintf("*T%d[K].", n), "priv": fmt.Sprintf("*t%d.", n), "suite": fmt.Sprintf("S%d.", n)}[nd.Kind]
	return c.path(nd.Loc) + ":" + recv + c.name(n)
}

type vfRcFile struct {
	imports map[string]bool
	body    strings.Builder
}

// render writes the packages of the program; the result is keyed by location.
func (c *vfRcCase) render() map[string]string {
	files := map[string]*vfRcFile{}
	file := func(loc string) *vfRcFile {
		if files[loc] == nil {
			files[loc] = &vfRcFile{imports: map[string]bool{}}
		}
		return files[loc]
	}
	pkg := func(loc string) string { return strings.TrimSuffix(c.path(loc), "_test") }
	// q gives the qualifier of what is declared in loc for use in from
	q := func(from, loc string) string {
		if c.path(from) == c.path(loc) {
			return ""
		}
		file(from).imports[pkg(loc)] = true
		return vfRcFiles[loc][1] + "."
	}
	callee := func(from string, e vfRcEdge) string {
		nd := c.Nodes[e.To-1]
		x := q(from, nd.Loc)
		arg := []string{"int", "string"}[e.N%2]
		switch nd.Kind {
		case "gen":
			return fmt.Sprintf("%sF%d[%s]", x, e.To, arg)
		case "val":
			return fmt.Sprintf("%sT%d{}.M%d", x, e.To, nd.Name)
		case "ptr":
			return fmt.Sprintf("(&%sT%d{}).M%d", x, e.To, nd.Name)
		case "gmeth":
			return fmt.Sprintf("(&%sT%d[%s]{}).M%d", x, e.To, arg, nd.Name)
		case "kmeth":
			return fmt.Sprintf("(&%sT%d[%sA%d]{}).M%d", x, e.To, q(from, "d"), nd.Sig, nd.Name)
		case "priv":
			return fmt.Sprintf("(&t%d{}).M%d", e.To, nd.Name)
		case "suite":
			return fmt.Sprintf("%sS%d{}.%s", x, e.To, c.name(e.To))
		}
		return x + c.name(e.To)
	}
	rank := map[string]int{"d": 0, "m": 1, "q": 2, "qg": 2, "p": 3, "pg": 3, "cmd": 4}
	for i, nd := range c.Nodes {
		n := i + 1
		f := file(nd.Loc)
		loc := nd.Loc
		sig := func(k int) string { return fmt.Sprintf("%sA%d", q(loc, "d"), k) }
		var b strings.Builder
		for _, e := range c.Edges {
			if e.From != n {
				continue
			}
			to := c.Nodes[e.To-1]
			up := rank[to.Loc] > rank[loc] && rank[to.Loc] > 0 && vfRcFiles[to.Loc][1] != vfRcFiles[loc][1] && !strings.HasPrefix(loc, "t") && (e.How == "glob" || e.How == "giface")
			var cal, s, x, recv, typ string
			if to.Kind == "low" || to.Kind == "suite" {
				cal = callee(loc, e)
			} else {
				s = sig(to.Sig)
				x = s + "{}"
				if to.Kind == "priv" && (up || c.path(loc) != c.path(to.Loc)) {
					if !up {
						recv = fmt.Sprintf("%sNewT%d()", q(loc, to.Loc), e.To)
					}
				} else if !up {
					cal = callee(loc, e)
					typ = q(loc, to.Loc) + fmt.Sprintf("T%d", e.To)
					if to.Kind == "gmeth" {
						typ += "[" + []string{"int", "string"}[e.N%2] + "]"
					}
					if to.Kind == "kmeth" {
						typ += "[" + s + "]"
					}
					if to.Kind == "priv" {
						typ = fmt.Sprintf("t%d", e.To)
					}
					recv = "&" + typ + "{}"
				}
			}
			switch e.How {
			case "direct":
				if s == "" {
					x = "t"
				}
				fmt.Fprintf(&b, "\t%s(%s)\n", cal, x)
			case "go", "defer":
				if s == "" {
					x = "t"
				}
				fmt.Fprintf(&b, "\t%s %s(%s)\n", e.How, cal, x)
			case "lit":
				fmt.Fprintf(&b, "\tfunc(x %s) { %s(x) }(%s)\n", s, cal, x)
			case "litv":
				fmt.Fprintf(&b, "\tl%d := func(x %s) { %s(x) }\n\tl%d(%s)\n", e.N, s, cal, e.N, x)
			case "named":
				fmt.Fprintf(&b, "\t%sH%d(%s).Do()\n", q(loc, "d"), to.Sig, cal)
			case "ctor":
				fmt.Fprintf(&b, "\t%s.M%d(%s)\n", recv, to.Name, x)
			case "fval":
				fmt.Fprintf(&b, "\tv%d := %s\n\tv%d(%s)\n", e.N, cal, e.N, x)
			case "map":
				fmt.Fprintf(&b, "\tv%d := map[string]func(%s){\"a\": %s}\n\tv%d[\"a\"](%s)\n", e.N, s, cal, e.N, x)
			case "field":
				fmt.Fprintf(&b, "\tv%d := &struct{ f func(%s) }{%s}\n\tv%d.f(%s)\n", e.N, s, cal, e.N, x)
			case "chan":
				fmt.Fprintf(&b, "\tv%d := make(chan func(%s), 1)\n\tv%d <- %s\n\t(<-v%d)(%s)\n", e.N, s, e.N, cal, e.N, x)
			case "ret":
				fmt.Fprintf(&b, "\tfunc() func(%s) { return %s }()(%s)\n", s, cal, x)
			case "helper":
				fmt.Fprintf(&b, "\t%sRun%d(%s)\n", q(loc, "d"), to.Sig, cal)
			case "helperlit":
				fmt.Fprintf(&b, "\t%sRun%d(func(x %s) { %s(x) })\n", q(loc, "d"), to.Sig, s, cal)
			case "glit":
				fmt.Fprintf(&b, "\tlit%d(%s)\n", e.N, x)
				fmt.Fprintf(&f.body, "var lit%d func(%s)\n\nfunc init() {\n\tlit%d = func(x %s) { %s(x) }\n}\n\n", e.N, s, e.N, s, cal)
			case "glob", "giface":
				owner := to.Loc
				if up {
					owner = loc
				}
				fmt.Fprintf(&b, "\t%sHook%d", q(loc, owner), e.N)
				typ, val := "", ""
				if e.How == "glob" {
					typ = fmt.Sprintf("func(%sA%d)", q(owner, "d"), to.Sig)
					val = callee(to.Loc, e)
					fmt.Fprintf(&b, "(%s)\n", x)
				} else {
					typ = fmt.Sprintf("%sI%d_%d", q(owner, "d"), to.Name, to.Sig)
					val = fmt.Sprintf("&T%d{}", e.To)
					if to.Kind == "gmeth" {
						val = fmt.Sprintf("&T%d[int]{}", e.To)
					}
					if to.Kind == "kmeth" {
						val = fmt.Sprintf("&T%d[%sA%d]{}", e.To, q(to.Loc, "d"), to.Sig)
					}
					if to.Kind == "priv" {
						val = fmt.Sprintf("&t%d{}", e.To)
					}
					fmt.Fprintf(&b, ".M%d(%s)\n", to.Name, x)
				}
				fmt.Fprintf(&file(owner).body, "var Hook%d %s\n\n", e.N, typ)
				fmt.Fprintf(&file(to.Loc).body, "func init() {\n\t%sHook%d = %s\n}\n\n", q(to.Loc, owner), e.N, val)
			case "mexpr":
				if to.Kind == "val" {
					fmt.Fprintf(&b, "\t%s.M%d(%s{}, %s)\n", typ, to.Name, typ, x)
				} else {
					fmt.Fprintf(&b, "\t(*%s).M%d(%s, %s)\n", typ, to.Name, recv, x)
				}
			case "embed":
				fmt.Fprintf(&f.body, "type emb%d struct{ *%s }\n\n", e.N, typ)
				fmt.Fprintf(&b, "\temb%d{%s}.M%d(%s)\n", e.N, recv, to.Name, x)
			case "iface":
				fmt.Fprintf(&b, "\tvar i%d %sI%d_%d = %s\n\ti%d.M%d(%s)\n", e.N, q(loc, "d"), to.Name, to.Sig, recv, e.N, to.Name, x)
			case "tparam":
				fmt.Fprintf(&b, "\t%sGi%d_%d(%s)\n", q(loc, "d"), to.Name, to.Sig, recv)
			case "iembed":
				fmt.Fprintf(&f.body, "type emb%d struct{ %sI%d_%d }\n\n", e.N, q(loc, "d"), to.Name, to.Sig)
				fmt.Fprintf(&b, "\temb%d{%s}.M%d(%s)\n", e.N, recv, to.Name, x)
			case "trun":
				fmt.Fprintf(&b, "\tt.Run(\"s%d\", func(t *testing.T) { %s(%s) })\n", e.N, cal, x)
			case "trunref":
				fmt.Fprintf(&b, "\tt.Run(\"s%d\", %s)\n", e.N, cal)
			}
		}
		switch nd.Kind {
		case "func":
			fmt.Fprintf(&f.body, "func F%d(_ %s) {\n%s}\n\n", n, sig(nd.Sig), b.String())
		case "lower":
			fmt.Fprintf(&f.body, "func f%d(_ %s) {\n%s}\n\n", n, sig(nd.Sig), b.String())
		case "gen":
			fmt.Fprintf(&f.body, "func F%d[K any](_ %s) {\n%s}\n\n", n, sig(nd.Sig), b.String())
		case "val":
			fmt.Fprintf(&f.body, "type T%d struct{}\n\nfunc (T%d) M%d(_ %s) {\n%s}\n\n", n, n, nd.Name, sig(nd.Sig), b.String())
		case "ptr":
			fmt.Fprintf(&f.body, "type T%d struct{}\n\nfunc (*T%d) M%d(_ %s) {\n%s}\n\n", n, n, nd.Name, sig(nd.Sig), b.String())
		case "gmeth":
			fmt.Fprintf(&f.body, "type T%d[K any] struct{ k K }\n\nfunc (*T%d[K]) M%d(_ %s) {\n%s}\n\n", n, n, nd.Name, sig(nd.Sig), b.String())
		case "kmeth":
			fmt.Fprintf(&f.body, "type T%d[K any] struct{ k K }\n\nfunc (*T%d[K]) M%d(_ K) {\n%s}\n\n", n, n, nd.Name, b.String())
		case "priv":
			fmt.Fprintf(&f.body, "type t%d struct{}\n\nfunc NewT%d() %sI%d_%d { return &t%d{} }\n\nfunc (*t%d) M%d(_ %s) {\n%s}\n\n", n, n, q(loc, "d"), nd.Name, nd.Sig, n, n, nd.Name, sig(nd.Sig), b.String())
		case "init":
			fmt.Fprintf(&f.body, "func init() {\n%s}\n\n", b.String())
		case "main":
			fmt.Fprintf(&f.body, "func main() {\n%s}\n\n", b.String())
		case "test", "low":
			f.imports["testing"] = true
			fmt.Fprintf(&f.body, "func %s(t *testing.T) {\n%s}\n\n", c.name(n), b.String())
		case "suite":
			f.imports["testing"] = true
			fmt.Fprintf(&f.body, "type S%d struct{}\n\nfunc (S%d) %s(t *testing.T) {\n%s}\n\n", n, n, c.name(n), b.String())
		}
	}
	// the types and helpers every program uses
	d := file("d")
	for k := 1; k <= 5; k++ {
		fmt.Fprintf(&d.body, "type A%d struct{}\n\ntype H%d func(A%d)\n\nfunc (h H%d) Do() { h(A%d{}) }\n\nfunc Run%d(f func(A%d)) { f(A%d{}) }\n\n", k, k, k, k, k, k, k, k)
		for m := 1; m <= 2; m++ {
			fmt.Fprintf(&d.body, "type I%d_%d interface{ M%d(A%d) }\n\nfunc Gi%d_%d[X I%d_%d](x X) { x.M%d(A%d{}) }\n\n", m, k, m, k, m, k, m, k, m, k)
		}
	}
	if cmd := files["cmd"]; cmd != nil && !strings.Contains(cmd.body.String(), "func main()") {
		fmt.Fprintf(&cmd.body, "func main() {}\n")
	}
	// what the lower packages register is part of every program
	if files["m"] != nil {
		if files["q"] == nil {
			file("q")
		}
		if files["p"] == nil {
			file("p")
		}
	}
	res := map[string]string{}
	for loc, f := range files {
		var imps []string
		if (loc == "q" || loc == "p") && files["m"] != nil && !f.imports[c.path("m")] {
			imps = append(imps, fmt.Sprintf("\t_ %q\n", c.path("m")))
		}
		for im := range f.imports {
			imps = append(imps, fmt.Sprintf("\t%q\n", im))
		}
		sort.Strings(imps)
		text := "package " + vfRcFiles[loc][1] + "\n\n"
		if len(imps) > 0 {
			text += "import (\n" + strings.Join(imps, "") + ")\n\n"
		}
		res[loc] = text + f.body.String()
		// a test or generated file needs its package
		if loc != vfRcFiles[loc][1] && (strings.HasPrefix(loc, "t") || strings.HasSuffix(loc, "g")) {
			base := map[string]string{"tq": "q", "tqx": "q", "qg": "q", "tp": "p", "tpx": "p", "pg": "p"}[loc]
			if files[base] == nil {
				res[base] = "package " + base + "\n"
			}
		}
	}
	return res
}

// TestVerifP14 gives programs made by the specification to the caller and test discovery.
func TestVerifP14(t *testing.T) {
	r := vfNewReport()
	defer r.write(t)
	var cases []*vfRcCase
	vfLines(t, os.Getenv("VF_CASES"), func(n int, doc []byte) {
		c := &vfRcCase{}
		vfMust(t, json.Unmarshal(doc, c))
		cases = append(cases, c)
	})
	per := vfInt("VF_PER", 40)
	scratch := vfScratch(t, "reach")
	proxy := filepath.Join(scratch, "proxy")
	vfGoEnv(proxy)
	dep := map[string]string{"go.mod": "module example.com/dep\n\ngo 1.23\n"}
	mid := map[string]string{"go.mod": "module example.com/mid\n\ngo 1.23\n\nrequire example.com/dep v1.0.0\n"}
	var groups [][]*vfRcCase
	for i := 0; i < len(cases); i += per {
		groups = append(groups, cases[i:min(i+per, len(cases))])
	}
	trees := make([]map[string]string, len(groups))
	for g, group := range groups {
		trees[g] = map[string]string{}
		ws := g%4 >= 2
		for i, c := range group {
			c.id = g*per + i
			member := "one"
			if ws && i%2 == 1 {
				member = "two"
			}
			c.base = fmt.Sprintf("example.com/%s/g%d", member, c.id)
			c.dir = fmt.Sprintf("g%d", c.id)
			if ws {
				c.dir = member + "/" + c.dir
			}
			for loc, text := range c.render() {
				switch loc {
				case "d":
					dep[fmt.Sprintf("g%d/d/d.go", c.id)] = text
				case "m":
					mid[fmt.Sprintf("g%d/m/m.go", c.id)] = text
				default:
					trees[g][c.dir+"/"+vfRcFiles[loc][0]] = text
				}
			}
		}
		mod := "module example.com/%s\n\ngo 1.23\n\nrequire (\n\texample.com/dep v1.0.0\n\texample.com/mid v1.0.0\n)\n"
		if ws {
			trees[g]["go.work"] = "go 1.23\n\nuse (\n\t./one\n\t./two\n)\n"
			trees[g]["one/go.mod"] = fmt.Sprintf(mod, "one")
			trees[g]["two/go.mod"] = fmt.Sprintf(mod, "two")
			trees[g]["one/keep/keep.go"] = "package keep\n\nimport (\n\t_ \"example.com/dep/g0/d\"\n\t_ \"example.com/mid/keep\"\n)\n"
			trees[g]["two/keep/keep.go"] = trees[g]["one/keep/keep.go"]
		} else {
			trees[g]["go.mod"] = fmt.Sprintf(mod, "one")
			trees[g]["keep/keep.go"] = "package keep\n\nimport (\n\t_ \"example.com/dep/g0/d\"\n\t_ \"example.com/mid/keep\"\n)\n"
		}
	}
	mid["keep/keep.go"] = "package keep\n"
	vfProxyModule(t, proxy, "example.com/dep", "v1.0.0", dep)
	vfProxyModule(t, proxy, "example.com/mid", "v1.0.0", mid)
	var wg sync.WaitGroup
	sem := make(chan struct{}, 4)
	for g, group := range groups {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			if r.full() {
				return
			}
			vfRcGroup(t, r, filepath.Join(scratch, fmt.Sprintf("b%d", g)), g, trees[g], group)
		}()
	}
	wg.Wait()
}

func vfRcGroup(t *testing.T, r *vfReport, dir string, g int, tree map[string]string, group []*vfRcCase) {
	proj := filepath.Join(dir, "proj")
	vfWriteTree(t, proj, tree)
	gopath := filepath.Join(dir, "gopath")
	if g%2 == 1 {
		gopath = filepath.Join(proj, ".go") // a module cache kept within the project is no part of it
	}
	cache := filepath.Join(gopath, "pkg", "mod")
	env := []string{"GOPATH=" + gopath, "GOMODCACHE=" + cache}
	if _, ok := tree["go.work"]; ok {
		vfGo(t, filepath.Join(proj, "one"), append(env, "GOWORK=off"), "mod", "tidy")
		vfGo(t, filepath.Join(proj, "two"), append(env, "GOWORK=off"), "mod", "tidy")
	} else {
		vfGo(t, proj, env, "mod", "tidy")
	}
	var changes []*ModuleFunction
	for _, c := range group {
		for _, n := range c.Changed {
			changes = append(changes, &ModuleFunction{Function: Function{FunctionIdent: c.ident(n), FunctionName: c.name(n), PackageName: c.path(c.Nodes[n-1].Loc)}})
		}
	}
	callers, reachable, _, _, _, err := CallerStaticAnalysis(changes, proj, gopath, cache)
	if err != nil {
		if out, bad := vfRcInvalid(proj, env); bad {
			t.Errorf("the program does not compile: %s", out) // an error of the rendering
			return
		}
		r.fail(proj, err.Error(), nil, "caller discovery failed")
		return
	}
	tests, err := TestStaticAnalysis(callers, proj, gopath, cache)
	if err != nil {
		if out, bad := vfRcInvalid(proj, env); bad {
			t.Errorf("the program does not compile: %s", out) // an error of the rendering
			return
		}
		r.fail(proj, err.Error(), nil, "test discovery failed")
		return
	}
	gotC := map[string]*CallerFunction{}
	for _, c := range callers {
		if gotC[c.FunctionIdent] != nil {
			r.fail(c.FunctionIdent, nil, nil, "a caller is listed twice")
		}
		gotC[c.FunctionIdent] = c
	}
	gotT := map[string]*TestFunction{}
	for _, f := range tests {
		if gotT[f.FunctionIdent] != nil {
			r.fail(f.FunctionIdent, nil, nil, "a test is listed twice")
		}
		gotT[f.FunctionIdent] = f
	}
	reached := map[string]bool{}
	knownC, knownT := map[string]bool{}, map[string]bool{}
	for _, c := range group {
		doc := func(n int) interface{} {
			srcs := map[string]string{}
			for loc, text := range c.render() {
				srcs[loc] = text
			}
			return map[string]interface{}{"program": srcs, "function": c.ident(n), "changed": vfRcIdents(c, c.Changed)}
		}
		place := func(n int, f Function, what string) {
			want := filepath.Join(proj, c.dir, vfRcFiles[c.Nodes[n-1].Loc][0])
			if f.FilePath != want || f.FunctionName != c.name(n) || f.PackageName != c.path(c.Nodes[n-1].Loc) {
				r.fail(doc(n), f, want, "a %s is not where the function is", what)
			}
			if line := vfRcLine(tree[c.dir+"/"+vfRcFiles[c.Nodes[n-1].Loc][0]], c, n); int(f.EntryLineNumber) != line {
				r.fail(doc(n), f.EntryLineNumber, line, "a %s starts at another line", what)
			}
		}
		for i := range c.Nodes {
			n := i + 1
			exp := c.Callers[i]
			got := gotC[c.ident(n)]
			if c.Nodes[i].Kind != "init" && c.Nodes[i].Kind != "main" {
				knownC[c.ident(n)] = true
			}
			if !exp.Can {
				if got != nil {
					r.fail(doc(n), "listed", nil, "a function that is no caller in the project is listed: %s", c.Nodes[i].Kind)
				}
			} else if got == nil {
				if len(exp.Must) > 0 {
					r.fail(doc(n), nil, vfRcIdents(c, exp.Must), "a caller that reaches a change is missing")
				}
			} else {
				var names []string
				for _, ch := range got.ChangeFunctions {
					names = append(names, ch.FunctionIdent)
				}
				vfRcBetween(r, doc(n), names, vfRcIdents(c, exp.Must), vfRcIdents(c, exp.May), "changes of a caller")
				place(n, got.Function, "caller")
			}
			if len(exp.Must) > 0 && exp.Can {
				for _, m := range exp.Must {
					reached[c.ident(m)] = true
				}
			}
			// tests
			tf := gotT[c.ident(n)]
			te := c.Tests[i]
			if c.Nodes[i].Kind != "test" {
				if tf != nil {
					r.fail(doc(n), "listed", nil, "a function that is no test is listed as a test: %s", c.Nodes[i].Kind)
				}
				continue
			}
			knownT[c.ident(n)] = true
			if tf == nil {
				if len(te.Must) > 0 {
					r.fail(doc(n), nil, vfRcIdents(c, te.Must), "a test that reaches a caller is missing")
				}
				continue
			}
			if te.Any {
				te.May = te.Must
			}
			var names []string
			for _, tg := range tf.Targets {
				if te.Any && !strings.HasPrefix(tg.FunctionIdent, c.base+"/") {
					continue
				}
				names = append(names, tg.FunctionIdent)
			}
			may := vfRcIdents(c, te.May)
			if te.Any {
				may = append(may, names...)
			}
			vfRcBetween(r, doc(n), names, vfRcIdents(c, te.Must), may, "targets of a test")
			if len(tf.Targets) == 0 {
				r.fail(doc(n), nil, nil, "a test without targets is listed")
			}
			place(n, tf.Function, "test")
			r.stat("tests", 1)
		}
		r.ok(1)
	}
	r.stat("callers", len(callers))
	for id := range gotC {
		if !knownC[id] {
			r.fail(id, nil, nil, "a function that is not part of the project is listed as a caller")
		}
	}
	for id := range gotT {
		if !knownT[id] {
			r.fail(id, nil, nil, "a function that is no test of the project is listed as a test")
		}
	}
	for id := range reached {
		if reachable[id] == nil {
			r.fail(id, nil, nil, "a reachable change is not listed as reachable")
		}
	}
	for id, f := range reachable {
		found := f != nil && f.FunctionIdent == id
		if found {
			found = false
			for _, c := range callers {
				for _, ch := range c.ChangeFunctions {
					found = found || ch.FunctionIdent == id
				}
			}
		}
		if !found {
			r.fail(id, nil, nil, "a change that no caller reaches is listed as reachable")
		}
	}
}

func vfRcInvalid(proj string, env []string) (string, bool) {
	dirs := []string{proj}
	if FileExists(filepath.Join(proj, "go.work")) {
		dirs = []string{filepath.Join(proj, "one"), filepath.Join(proj, "two")}
	}
	for _, dir := range dirs {
		cmd := exec.Command("go", "test", "-vet=off", "-run", "^$", "./...")
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), env...)
		if out, err := cmd.CombinedOutput(); err != nil {
			return string(out), true
		}
	}
	return "", false
}

func vfRcLine(text string, c *vfRcCase, n int) int {
	nd := c.Nodes[n-1]
	want := "func " + c.name(n)
	switch nd.Kind {
	case "val":
		want = fmt.Sprintf("func (T%d) ", n)
	case "ptr":
		want = fmt.Sprintf("func (*T%d) ", n)
	case "gmeth", "kmeth":
		want = fmt.Sprintf("func (*T%d[", n)
	case "priv":
		want = fmt.Sprintf("func (*t%d) ", n)
	case "gen":
		want += "["
	default:
		want += "("
	}
	for i, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, want) {
			return i + 1
		}
	}
	return -1
}

func vfRcIdents(c *vfRcCase, ns []int) []string {
	res := []string{}
	for _, n := range ns {
		res = append(res, c.ident(n))
	}
	return res
}

// vfRcBetween checks that a list has everything it must have, nothing it may not have, and nothing twice.
func vfRcBetween(r *vfReport, doc interface{}, got, must, may []string, what string) {
	has := map[string]int{}
	for _, g := range got {
		has[g]++
	}
	allowed := map[string]bool{}
	for _, m := range may {
		allowed[m] = true
	}
	for _, m := range must {
		if has[m] == 0 {
			r.fail(doc, got, must, "%s: one is missing", what)
		}
	}
	for g, n := range has {
		if !allowed[g] {
			r.fail(doc, got, may, "%s: one cannot be reached", what)
		}
		if n > 1 {
			r.fail(doc, got, nil, "%s: one is listed twice", what)
		}
	}
}
