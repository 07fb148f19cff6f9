package lens

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

// ---- the functions of ProgGen ----

type vfPExpr struct {
	K string
	N int
	X string
	A *vfPExpr
	B *vfPExpr
}
type vfPCond struct {
	A  *vfPExpr
	Op string
	N  int
}
type vfPCase struct {
	N    int
	Body []*vfPStmt
	Fall bool
}
type vfPStmt struct {
	K     string
	N, Ex int
	X     string
	Lab   string
	D     string
	Ready bool
	A, B  *vfPExpr
	C     vfPCond
	Init  []*vfPStmt
	Body  []*vfPStmt
	Els   []*vfPStmt
	Cases []vfPCase
	Es    []*vfPExpr
}
type vfPFunc struct {
	Res          []string
	Named, Blank bool
	Body         []*vfPStmt
	Recv         string
}
type vfPEvent struct {
	K    string
	N, A int
	Ex   int
	Vals []int
	Vis  map[string]int
	M    string
}
type vfPRun struct {
	P, Q    int
	Log     []vfPEvent
	Out, Pv string
	Vals    []int
}
type vfPCaseDoc struct {
	F    vfPFunc
	Runs []vfPRun
}

// ---- rendering ----

type vfRender struct {
	b      strings.Builder
	f      *vfPFunc
	id     int
	pkg    string
	labels map[string]bool // referenced
	noise  int
	exits  map[int]*vfPStmt
	style  int
	ind    int
}

func (w *vfRender) line(format string, a ...interface{}) {
	w.b.WriteString(strings.Repeat("\t", w.ind))
	fmt.Fprintf(&w.b, format, a...)
	w.b.WriteByte('\n')
	w.style++
}
func (w *vfRender) expr(x *vfPExpr) string {
	switch x.K {
	case "lit":
		if w.style%3 == 2 {
			return fmt.Sprintf("k%d", x.N)
		}
		return strconv.Itoa(x.N)
	case "var":
		return x.X
	case "add":
		return "(" + w.expr(x.A) + " + " + w.expr(x.B) + ")"
	case "div":
		return "div(" + w.expr(x.A) + ", " + w.expr(x.B) + ")"
	case "eff":
		return fmt.Sprintf("e(%d, %s)", x.N, w.expr(x.A))
	case "clo":
		if x.N%2 == 0 {
			return fmt.Sprintf("func() int { y := %s; if y > 1 { return e(%d, y) }; return y + 7 }()", w.expr(x.A), x.N)
		}
		return fmt.Sprintf("func(y int) (res int) { if y > 1 { res = e(%d, y); return }; return y + 7 }(%s)", x.N, w.expr(x.A))
	}
	panic("expression " + x.K)
}

func vfConst(x *vfPExpr) bool {
	return x.K == "lit" || x.K == "add" && vfConst(x.A) && vfConst(x.B)
}

// a value of a result type; call forces a function call
func (w *vfRender) value(x *vfPExpr, kind string, call bool) string {
	s := w.expr(x)
	lit := x.K == "lit" && !call
	if vfConst(x) && !call && (kind == "my" || kind == "flt") {
		return fmt.Sprintf([]string{"%s", "(%s)", "+%s", "-(-%s)", "%s*1"}[w.style%5], s)
	}
	switch kind {
	case "int":
		return s
	case "any":
		if w.generic() {
			return "mkT[T](" + s + ")"
		}
		if call {
			return "mkAny(" + s + ")"
		}
		return s
	case "my":
		if lit {
			return s
		}
		return "mkMy(" + s + ")"
	case "str":
		if lit {
			return fmt.Sprintf("\"s%d\"", x.N)
		}
		return "mkStr(" + s + ")"
	case "err":
		if lit && x.N == 0 {
			return "nil"
		}
		return "mkErr(" + s + ")"
	case "flt":
		if lit {
			return s
		}
		return "mkFlt(" + s + ")"
	case "ptr":
		if lit && x.N == 0 {
			return "nil"
		}
		return "mkPtr(" + s + ")"
	case "sl":
		if lit {
			return "[]int{" + s + "}"
		}
		return "mkSl(" + s + ")"
	case "st":
		if x.K == "var" && !call {
			return "pair{A: " + s + "}"
		}
		return "mkSt(" + s + ")"
	case "pst":
		if lit {
			return "&pair{A: " + s + "}"
		}
		return "mkPst(" + s + ")"
	}
	panic("kind " + kind)
}
func (w *vfRender) generic() bool { return w.f.Recv == "gen" || w.f.Recv == "genfunc" }
func (w *vfRender) typ(kind string) string {
	switch kind {
	case "int":
		return "int"
	case "any":
		if w.generic() {
			return "T"
		}
		return []string{"interface{}", "any"}[w.id%2]
	case "my":
		return "myInt"
	case "str":
		return "string"
	case "err":
		return "error"
	case "flt":
		return "float64"
	case "ptr":
		return "*int"
	case "sl":
		return "[]int"
	case "st":
		return "pair"
	case "pst":
		return "*pair"
	}
	panic("kind " + kind)
}
func (w *vfRender) block(body []*vfPStmt, pre ...string) {
	w.ind++
	for _, p := range pre {
		w.line("%s", p)
	}
	for _, s := range body {
		w.stmt(s)
	}
	w.ind--
}
func (w *vfRender) lab(l string) {
	if l != "" && w.labels[l] {
		w.line("%s:", l)
	}
}
func (w *vfRender) tail() string {
	switch w.style % 7 {
	case 2:
		return " // trailing"
	case 5:
		return " /* trailing */"
	}
	return ""
}
func (w *vfRender) ifStmt(s *vfPStmt, head string) {
	init := ""
	if len(s.Init) > 0 {
		init = s.Init[0].X + " := " + w.expr(s.Init[0].A) + "; "
	}
	w.line("%sif %s%s %s %d {%s", head, init, w.expr(s.C.A), s.C.Op, s.C.N, w.tail())
	if init != "" {
		w.block(s.Body, "_ = "+s.Init[0].X)
	} else {
		w.block(s.Body)
	}
	if len(s.Els) == 1 && s.Els[0].K == "if" {
		w.ifStmt(s.Els[0], "} else ")
		return
	}
	if len(s.Els) > 0 {
		w.line("} else {")
		w.block(s.Els)
	}
	w.line("}")
}
func (w *vfRender) stmt(s *vfPStmt) {
	if w.style%5 == 1 {
		w.line("// note %d", w.style)
	}
	switch s.K {
	case "tr":
		w.line("e(%d, %s)%s", s.N, w.expr(s.A), w.tail())
	case "decl":
		w.line([]string{"%s := %s", "var %s = %s", "var %s int = %s"}[w.style%3]+"%s", s.X, w.expr(s.A), w.tail())
		w.line("_ = %s", s.X)
	case "set":
		w.line("%s = %s", s.X, w.expr(s.A))
	case "noise":
		w.noise++
		switch s.N {
		case 0:
			w.line("/* a comment\n   of several lines */")
		case 1:
			w.line("var n%d interface{} = \"x\"", w.noise)
			w.line("_ = n%d", w.noise)
		case 2:
			w.line("const big%d = 1 << 70 // huge", w.noise)
			w.line("const c%d = big%d >> 68", w.noise, w.noise)
			w.line("_ = c%d", w.noise)
		case 3:
			w.line("type loc%d struct{ a, b int }", w.noise)
			w.line("n%d := &loc%d{1, 2}", w.noise, w.noise)
			w.line("_ = n%d", w.noise)
		default:
			w.line("n%d := func() (string, []byte) { return \"\", nil }", w.noise)
			w.line("var m%d map[string][]int", w.noise)
			w.line("_, _ = n%d, m%d", w.noise, w.noise)
		}
	case "cls":
		w.line("func() {")
		w.ind++
		w.line("y := %s", w.expr(s.A))
		w.line("if y > 1 {")
		w.line("\te(%d, y)", s.N)
		w.line("\treturn // of the literal")
		w.line("}")
		w.line("e(%d, y)", s.N+1)
		w.ind--
		w.line("}()")
	case "blk":
		w.line("{")
		w.block(s.Body)
		w.line("}")
	case "if":
		w.ifStmt(s, "")
	case "for":
		w.lab(s.Lab)
		w.line("for %s := 0; %s < %d; %s++ {", s.X, s.X, s.N, s.X)
		w.block(s.Body, "_ = "+s.X)
		w.line("}")
	case "inf":
		w.line("for {")
		w.block(s.Body)
		w.line("}")
	case "range":
		w.lab(s.Lab)
		w.line([]string{"for _, %s := range []int{%s, %s} {", "for _, %s := range [...]int{%s, %s} {", "for %s := range chanTwo(%s, %s) {",
			"for %s := range seqTwo(%s, %s) {", "for _, %s := range seqPairs(%s, %s) {"}[w.style%5], s.X, w.expr(s.A), w.expr(s.B))
		w.block(s.Body, "_ = "+s.X)
		w.line("}")
	case "times":
		w.lab(s.Lab)
		w.line([]string{"for range %d {", "for range [%d]int{} {", "for range chanN(%d) {", "for _ = range make([]int, %d) {", "for range seqN(%d) {", "for _, _ = range make([]int, %d) {"}[w.style%6], s.N)
		w.block(s.Body)
		w.line("}")
	case "sw":
		w.lab(s.Lab)
		if s.X != "" {
			w.line("switch %s := %s; %s {", s.X, w.expr(s.A), s.X)
		} else {
			w.line("switch %s {", w.expr(s.A))
		}
		for _, c := range s.Cases {
			if c.N == -1 {
				w.line("default:")
			} else {
				w.line("case %d:", c.N)
			}
			w.block(c.Body)
			if c.Fall {
				w.line("\tfallthrough")
			}
		}
		w.line("}")
	case "tsw":
		w.line("switch tv := anyOf(%s).(type) {", w.expr(s.A))
		w.line("case int:")
		w.block(s.Body, "_ = tv")
		w.line("default:")
		w.block(s.Els)
		w.line("}")
	case "sel":
		w.line("select {")
		if s.Ready {
			w.line("case sv := <-chanOf(%s):", w.expr(s.A))
		} else {
			w.line("case sv := <-never():")
		}
		w.block(s.Body, "_ = sv")
		w.line("default:")
		w.block(s.Els)
		w.line("}")
	case "brk":
		w.line("%s", strings.TrimSpace("break "+s.Lab))
	case "cont":
		w.line("%s", strings.TrimSpace("continue "+s.Lab))
	case "defer":
		switch s.D {
		case "arg":
			w.line("defer e(%d, %s)", s.N, w.expr(s.A))
		case "late":
			w.line("defer func() { e(%d, p) }()", s.N)
		case "mod":
			w.line("defer func() { r0 += %d }()", s.N)
		case "rec":
			w.line("defer func() {")
			w.line("\tif x := recover(); x != nil {")
			w.line("\t\te(%d, 0)", s.N)
			if w.f.Named && !w.f.Blank {
				w.line("\t\tr0 = %d", s.N)
			}
			w.line("\t}")
			w.line("}()")
		}
	case "panic":
		w.line("panic(%s)%s", w.expr(s.A), w.tail())
	case "naked":
		w.exits[s.Ex] = s
		w.line("return%s", w.tail())
	case "ret":
		w.exits[s.Ex] = s
		var vs []string
		for i, x := range s.Es {
			v := w.value(x, w.f.Res[i], false)
			if w.style%6 == 4 {
				v = "/* v */ " + v
			}
			vs = append(vs, v)
		}
		if w.style%4 == 3 && len(vs) == 2 {
			w.line("return %s, // first\n\t\t\t%s%s", vs[0], vs[1], w.tail())
		} else {
			w.line("%s%s", strings.TrimSpace("return "+strings.Join(vs, ", ")), w.tail())
		}
	case "two":
		w.exits[s.Ex] = s
		w.line("return two(%d, %s, %s)%s", s.N, w.value(s.Es[0], w.f.Res[0], true), w.value(s.Es[1], w.f.Res[1], true), w.tail())
	case "self":
		w.exits[s.Ex] = s
		w.line("if fuel > 0 {")
		w.line("\treturn %s(fuel-1, p, q)", w.selfName())
		w.line("}")
	default:
		panic("statement " + s.K)
	}
}
func (w *vfRender) selfName() string {
	switch w.f.Recv {
	case "func":
		return fmt.Sprintf("F%d", w.id)
	case "genfunc":
		return fmt.Sprintf("F%d[T]", w.id)
	}
	return fmt.Sprintf("rv.M%d", w.id)
}
func vfLabels(body []*vfPStmt, into map[string]bool) {
	for _, s := range body {
		if (s.K == "brk" || s.K == "cont") && s.Lab != "" {
			into[s.Lab] = true
		}
		vfLabels(s.Body, into)
		vfLabels(s.Els, into)
		for _, c := range s.Cases {
			vfLabels(c.Body, into)
		}
	}
}

type vfPUnit struct {
	id     int
	doc    vfPCaseDoc
	name   string // declared name
	call   string // calls it from the main package
	exits  map[int]*vfPStmt
	mode   int
	file   string
	pkg    string
	points map[uint32]string // point -> in, s, p, f
	order  []uint32          // the state points as returned
	raw    []byte
	fn     *Function
}

func vfRenderUnit(u *vfPUnit) string {
	w := &vfRender{f: &u.doc.F, id: u.id, labels: map[string]bool{}, exits: map[int]*vfPStmt{}, style: u.id}
	vfLabels(u.doc.F.Body, w.labels)
	var res []string
	for i, k := range u.doc.F.Res {
		t := w.typ(k)
		if u.doc.F.Named {
			t = []string{"r0", "r1"}[i] + " " + t
			if i == 0 && u.doc.F.Blank {
				t = "_" + t[2:]
			}
		}
		res = append(res, t)
	}
	results := ""
	if len(res) == 1 && !u.doc.F.Named {
		results = res[0] + " "
	} else if len(res) > 0 {
		results = "(" + strings.Join(res, ", ") + ") "
	}
	switch u.id % 4 {
	case 0:
		w.line("// F%d is documented.", u.id)
		w.line("//\n//go:noinline")
	case 1:
		w.line("// a comment that belongs to nothing\n")
	case 2:
		w.line("//go:noinline")
	}
	args := []string{"(fuel, p, q int) ", "(fuel int, p, q int, _ ...string) ", "(fuel, p, q int, rest ...interface{}) "}[u.id%3] + results + "{"
	switch u.doc.F.Recv {
	case "func":
		u.name, u.call = fmt.Sprintf("F%d", u.id), fmt.Sprintf("%s.F%d", u.pkg, u.id)
		w.line("func F%d%s", u.id, args)
	case "genfunc":
		u.name, u.call = fmt.Sprintf("F%d", u.id), fmt.Sprintf("%s.F%d[int]", u.pkg, u.id)
		w.line("func F%d[T any]%s", u.id, args)
	case "ptr":
		u.name, u.call = fmt.Sprintf("M%d", u.id), fmt.Sprintf("(&%s.T%d{}).M%d", u.pkg, u.id, u.id)
		w.line("func (rv *T%d) M%d%s", u.id, u.id, args)
	case "val":
		u.name, u.call = fmt.Sprintf("M%d", u.id), fmt.Sprintf("(%s.T%d{}).M%d", u.pkg, u.id, u.id)
		w.line("func (rv T%d) M%d%s", u.id, u.id, args)
	case "gen":
		u.name, u.call = fmt.Sprintf("M%d", u.id), fmt.Sprintf("(&%s.G%d[int]{}).M%d", u.pkg, u.id, u.id)
		w.line("func (rv *G%d[T]) M%d%s", u.id, u.id, args)
	}
	w.block(u.doc.F.Body)
	w.line("}")
	switch u.doc.F.Recv {
	case "ptr", "val":
		w.line("\n// T%d carries a method.\ntype T%d struct{ A int }", u.id, u.id)
	case "gen":
		w.line("\ntype G%d[T any] struct{ A T }", u.id)
	}
	w.line("\n// left alone\nfunc keep%d(a int) (x int) {\n\tif a > 0 { // stays\n\t\treturn a\n\t}\n\treturn\n}\n", u.id)
	u.exits = w.exits
	return w.b.String()
}

const vfPSupport = `package PKG

var E func(n, a int) int

func e(n, a int) int { return E(n, a) }

type myInt int
type pair struct{ A, B int }

const (
	k0 = iota
	k1
	k2
	k3
)

func mkPtr(a int) *int {
	if a == 0 {
		return nil
	}
	return &a
}
func mkSl(a int) []int { return []int{a} }
func mkSt(a int) pair { return pair{A: a} }
func mkPst(a int) *pair { return &pair{A: a} }
type errT struct{ N int }

func (x errT) Error() string { return "err" }

func div(a, b int) int { return a / b }
func mkMy(a int) myInt { return myInt(a) }
func mkFlt(a int) float64 { return float64(a) }
func mkAny(a int) interface{} { return a }
func mkT[T any](a int) T { return interface{}(a).(T) }
func mkErr(a int) error {
	if a == 0 {
		return nil
	}
	return errT{a}
}
func mkStr(a int) string {
	s := ""
	for a >= 10 {
		s = string(rune('0'+a%10)) + s
		a /= 10
	}
	return "s" + string(rune('0'+a)) + s
}
func anyOf(a int) interface{} {
	if a%2 == 0 {
		return a
	}
	return "odd"
}
func chanOf(a int) chan int {
	c := make(chan int, 1)
	c <- a
	return c
}
func chanTwo(a, b int) chan int {
	c := make(chan int, 2)
	c <- a
	c <- b
	close(c)
	return c
}
func seqTwo(a, b int) func(func(int) bool) {
	return func(yield func(int) bool) { _ = yield(a) && yield(b) }
}
func seqPairs(a, b int) func(func(string, int) bool) {
	return func(yield func(string, int) bool) { _ = yield("a", a) && yield("b", b) }
}
func chanN(n int) chan int {
	c := make(chan int, n)
	for i := 0; i < n; i++ {
		c <- i
	}
	close(c)
	return c
}
func seqN(n int) func(func() bool) {
	return func(yield func() bool) {
		for i := 0; i < n && yield(); i++ {
		}
	}
}
func never() chan int { return nil }
func two[A, B any](n int, a A, b B) (A, B) {
	e(n, 0)
	return a, b
}
`

const vfPMain = `package main

import (
	"bufio"
	"fmt"
	"net"
	"os"
	"sort"
	"strings"
IMPORTS)

var conn net.Conn
var rd *bufio.Reader

func say(s string) {
	if _, err := conn.Write([]byte(s + "\n")); err != nil {
		panic(err)
	}
	if _, err := rd.ReadString('\n'); err != nil {
		panic(err)
	}
}
func E(n, a int) int { say(fmt.Sprintf("E %d %d", n, a)); return a + n%2 }

type entry struct {
	id int
	f  func(p, q int) string
}

func show(vs ...interface{}) string {
	var s []string
	for _, v := range vs {
		if p, ok := v.(*int); ok {
			if p == nil {
				v = nil
			} else {
				s = append(s, fmt.Sprintf("*int=%d", *p))
				continue
			}
		}
		s = append(s, fmt.Sprintf("%T=%v", v, v))
	}
	return strings.Join(s, "|")
}
func one(c entry, p, q int) {
	say(fmt.Sprintf("B %d %d %d", c.id, p, q))
	defer func() {
		if x := recover(); x != nil {
			say(fmt.Sprintf("P %v", x))
		}
	}()
	say("R " + c.f(p, q))
}
func main() {
	var err error
	if conn, err = net.Dial("tcp", os.Args[1]); err != nil {
		panic(err)
	}
	rd = bufio.NewReader(conn)
	var all []entry
ENTRIES	sort.Slice(all, func(i, j int) bool { return all[i].id < all[j].id })
	for _, c := range all {
		for _, in := range [][2]int{{0, 1}, {2, 0}, {1, 2}, {3, 3}} {
			one(c, in[0], in[1])
		}
	}
	say("END")
}
`

// ---- what a run did ----

type vfSeen struct {
	k      string // e, in, s, p, f
	n, a   int
	id     uint32
	fields []LensMonitorField
	m      string
}
type vfSeenRun struct {
	events []vfSeen
	out    string // R ... or P ...
}
type vfPLog struct {
	mu   sync.Mutex
	runs map[string]*vfSeenRun
	cur  *vfSeenRun
	end  bool
}

func (l *vfPLog) add(s vfSeen) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.cur != nil {
		l.cur.events = append(l.cur.events, s)
	}
}
func (l *vfPLog) HandleFuncPoint(m LensMonitorMessagePoint) { l.add(vfSeen{k: "pt", id: m.PointID}) }
func (l *vfPLog) HandleFuncPointState(m LensMonitorMessagePointState) {
	l.add(vfSeen{k: "s", id: m.PointID, fields: m.Fields})
}
func (l *vfPLog) HandleFuncPointPanic(m LensMonitorMessagePointPanic) {
	l.add(vfSeen{k: "p", id: m.PointID, m: m.Message})
}
func (l *vfPLog) line(s string) {
	l.mu.Lock()
	defer l.mu.Unlock()
	switch s[0] {
	case 'B':
		l.cur = &vfSeenRun{}
		l.runs[s[2:]] = l.cur
	case 'E':
		if s == "END" {
			l.end = true
			return
		}
		ev := vfSeen{k: "e"}
		_, _ = fmt.Sscanf(s, "E %d %d", &ev.n, &ev.a)
		l.cur.events = append(l.cur.events, ev)
	default:
		l.cur.out = s
		l.cur = nil
	}
}

// vfPExec runs a built program and returns what it did.
func vfPExec(t *testing.T, bin string) (*vfPLog, string) {
	log := &vfPLog{runs: map[string]*vfSeenRun{}}
	port := vfFreePort(t)
	srv, err := astExecServerStart("127.0.0.1", port, log, 10000)
	vfMust(t, err)
	defer func() { _ = srv.Stop(context.Background()) }()
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	vfMust(t, err)
	defer func() { _ = ln.Close() }()
	go func() {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		sc := bufio.NewScanner(c)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			log.line(sc.Text())
			_, _ = c.Write([]byte("\n"))
		}
	}()
	cmd := exec.Command(bin, ln.Addr().String())
	cmd.Env = append(os.Environ(), fmt.Sprintf("LENS_MONITOR_PORT=%d", port))
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	vfMust(t, cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(300 * time.Second):
		_ = cmd.Process.Kill()
		t.Fatalf("program did not end: %s", out.String())
	}
	return log, out.String()
}

func vfPBuild(dir, bin string) (string, error) {
	cmd := exec.Command("go", "build", "-gcflags=-e", "-ldflags=-w", "-o", bin, ".")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOCACHE="+os.Getenv("VF_GOCACHE"), "GOFLAGS=-mod=mod")
	out, err := cmd.CombinedOutput()
	return string(out), err
}

var vfPLineRe = regexp.MustCompile(`(?m)^(\S+\.go):(\d+)(?::\d+)?: (.*)$`)

// vfPNum is the model's number for a captured value.
func vfPNum(kind string, f LensMonitorField) (int, bool) {
	num := func(s string) (int, bool) {
		n, err := strconv.ParseFloat(s, 64)
		return int(n), err == nil
	}
	switch kind {
	case "str":
		s, ok := f.Value.(string)
		if !ok {
			return 0, false
		} else if s == "" {
			return 0, true
		}
		return num(strings.TrimPrefix(s, "s"))
	case "err":
		if f.Value == nil && len(f.Children) == 0 {
			return 0, true
		} else if len(f.Children) == 1 {
			return num(fmt.Sprint(f.Children[0].Value))
		}
		return 0, false
	case "any":
		if f.Value == nil {
			return 0, true
		}
	case "ptr", "sl", "st", "pst":
		for len(f.Children) > 0 {
			f = f.Children[0]
		}
		if f.Value == nil || f.Value == "<nil>" {
			return 0, true
		}
	}
	return num(strings.Trim(fmt.Sprint(f.Value), "[]"))
}

// vfPOut is the model's number for a result shown by the program.
func vfPOut(kind, s string) (int, bool) {
	typ, val, _ := strings.Cut(s, "=")
	if typ == "<nil>" || val == "" {
		return 0, true
	}
	switch kind {
	case "str":
		val = strings.TrimPrefix(val, "s")
	case "err":
		if val != "err" {
			return 0, false
		}
		return -1, true // not nil
	case "ptr":
		return -1, true
	case "sl":
		val = strings.Trim(val, "[]")
	case "st", "pst":
		val, _, _ = strings.Cut(strings.Trim(val, "&{}"), " ")
	}
	if val == "" || val == "<nil>" {
		return 0, true
	}
	n, err := strconv.ParseFloat(val, 64)
	return int(n), err == nil
}

// decls of a file other than the named functions, with their documentation
func vfPOthers(t *testing.T, path string, skip map[string]bool) (others []string, docs map[string]string, err error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, nil, parser.ParseComments)
	if err != nil {
		return nil, nil, err
	}
	docs = map[string]string{}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && skip[fd.Name.Name] {
			var keep []string
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					if !strings.Contains(c.Text, "patchlens:") {
						keep = append(keep, c.Text)
					}
				}
			}
			docs[fd.Name.Name] = strings.Join(keep, "\n")
			continue
		}
		var b bytes.Buffer
		_ = (&printer.Config{Mode: printer.TabIndent, Tabwidth: 8}).Fprint(&b, token.NewFileSet(), d)
		var cs []string
		var doc *ast.CommentGroup
		switch x := d.(type) {
		case *ast.FuncDecl:
			doc = x.Doc
		case *ast.GenDecl:
			doc = x.Doc
		}
		for _, g := range f.Comments {
			if g == doc || (g.Pos() >= d.Pos() && g.End() <= d.End()) {
				for _, c := range g.List {
					cs = append(cs, c.Text)
				}
			}
		}
		others = append(others, b.String()+" :: "+strings.Join(cs, "/"))
	}
	return others, docs, nil
}

func TestVerifP12(t *testing.T) {
	r := vfNewReport()
	defer r.write(t)
	defer vfQuiet()()
	prop := os.Getenv("VF_PROP")
	top := vfScratch(t, "prog")
	var units []*vfPUnit
	const perFile, perPkg = 6, 48
	vfLines(t, os.Getenv("VF_CASES"), func(n int, doc []byte) {
		u := &vfPUnit{id: n, raw: doc, mode: n % 7, points: map[uint32]string{}}
		vfMust(t, json.Unmarshal(doc, &u.doc))
		u.pkg = fmt.Sprintf("pk%d", n/perPkg)
		u.file = fmt.Sprintf("f%d.go", n/perFile)
		units = append(units, u)
	})
	// ---- the program ----
	files := map[string]string{}
	pkgs := map[string]bool{}
	var imports, entries string
	for _, u := range units {
		path := u.pkg + "/" + u.file
		unresolved := (u.id/perPkg)%3 == 1
		if !pkgs[u.pkg] {
			pkgs[u.pkg] = true
			imports += "\t\"prog/" + u.pkg + "\"\n"
			entries += "\t" + u.pkg + ".E = E\n"
			files[u.pkg+"/support.go"] = strings.Replace(vfPSupport, "PKG", u.pkg, 1)
			files[u.pkg+"/ignored.go"] = "//go:build never\n\npackage other\n\nfunc broken() int { return undefined }\n"
		}
		if files[path] == "" {
			switch u.id / perFile % 3 {
			case 0:
				files[path] = "// Copyright\n\n//go:build !never\n// +build !never\n\n// Package doc.\npackage " + u.pkg + "\n\n"
			default:
				files[path] = "package " + u.pkg + "\n\n"
			}
			if unresolved {
				files[path] += "import \"prog/dep\"\n\nvar _ = dep.X\n\n"
			}
		}
		files[path] += vfRenderUnit(u) + "\n"
		switch len(u.doc.F.Res) {
		case 0:
			entries += fmt.Sprintf("\tall = append(all, entry{%d, func(p, q int) string { %s(1, p, q); return show() }})\n", u.id, u.call)
		case 1:
			entries += fmt.Sprintf("\tall = append(all, entry{%d, func(p, q int) string { a := %s(1, p, q); return show(a) }})\n", u.id, u.call)
		default:
			entries += fmt.Sprintf("\tall = append(all, entry{%d, func(p, q int) string { a, b := %s(1, p, q); return show(a, b) }})\n", u.id, u.call)
		}
	}
	files["dep/dep.go"] = "package dep\n\nvar X int\n"
	files["go.mod"] = "module prog\n\ngo 1.23\n"
	files["main.go"] = strings.Replace(strings.Replace(vfPMain, "IMPORTS", imports, 1), "ENTRIES", entries, 1)
	write := func(dir string) {
		for name, text := range files {
			p := filepath.Join(dir, name)
			vfMust(t, os.MkdirAll(filepath.Dir(p), 0755))
			vfMust(t, os.WriteFile(p, []byte(text), 0644))
		}
	}
	orig, inst := filepath.Join(top, "orig"), filepath.Join(top, "inst")
	write(orig)
	write(inst)
	if out, err := vfPBuild(orig, filepath.Join(top, "orig.bin")); err != nil {
		t.Fatalf("the generated program does not compile: %s", out)
	}
	base, text := vfPExec(t, filepath.Join(top, "orig.bin"))
	if !base.end {
		t.Fatalf("the generated program failed: %s", text)
	}
	for _, u := range units { // the specification agrees with Go
		for _, run := range u.doc.Runs {
			got := base.runs[fmt.Sprintf("%d %d %d", u.id, run.P, run.Q)]
			var want []string
			for _, ev := range run.Log {
				if ev.K == "e" {
					want = append(want, fmt.Sprint(ev.N, ev.A))
				}
			}
			var have []string
			for _, ev := range got.events {
				have = append(have, fmt.Sprint(ev.n, ev.a))
			}
			bad := !reflect.DeepEqual(want, have)
			if run.Out == "panic" {
				bad = bad || got.out != "P "+run.Pv
			} else {
				parts := strings.Split(strings.TrimPrefix(got.out, "R "), "|")
				for i, v := range run.Vals {
					n, ok := vfPOut(u.doc.F.Res[i], parts[i])
					bad = bad || !ok || (n == -1) != ((u.doc.F.Res[i] == "err" || u.doc.F.Res[i] == "ptr") && v != 0) || (n != -1 && n != v)
				}
			}
			if bad {
				t.Fatalf("specification and Go disagree on %s: %v %q, want %v %s %s", vfRenderUnit(u), have, got.out, want, run.Out, vfJSON(run))
			}
		}
	}
	// ---- instrumentation, several functions of a file at a time ----
	mod := &ASTModifier{}
	var mu sync.Mutex
	owner := map[uint32]int{}
	note := func(u *vfPUnit, id uint32, what string) {
		mu.Lock()
		defer mu.Unlock()
		if o, dup := owner[id]; dup || id == 0 {
			r.fail(nil, id, []int{o, u.id}, "two points have one identity")
		}
		owner[id] = u.id
		u.points[id] = what
	}
	byFile := map[string][]*vfPUnit{}
	for _, u := range units {
		byFile[u.pkg+"/"+u.file] = append(byFile[u.pkg+"/"+u.file], u)
	}
	var wg sync.WaitGroup
	for path, us := range byFile {
		full := filepath.Join(inst, path)
		fset := token.NewFileSet()
		parsed, err := parser.ParseFile(fset, full, nil, 0)
		vfMust(t, err)
		var fw sync.WaitGroup
		for _, u := range us {
			var fn *Function
			for _, d := range parsed.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name == u.name {
					fn = &Function{FilePath: full, PackageName: "prog/" + u.pkg, FunctionName: u.name, FunctionIdent: MakeFunctionIdent("prog/"+u.pkg, fd)}
				}
			}
			u := u
			u.fn = fn
			inject := func() {
				one := func(what string, f func(*Function) (uint32, error)) {
					if id, err := f(fn); err != nil {
						r.fail(string(u.raw), err.Error(), nil, "a function cannot be instrumented")
					} else {
						note(u, id, what)
					}
				}
				states := func() {
					ids, err := mod.InjectFuncPointReturnStates(fn)
					if err != nil {
						r.fail(string(u.raw), err.Error(), nil, "a function cannot be instrumented")
					}
					for _, id := range ids {
						note(u, id, "s")
					}
					if u.id%3 == 0 {
						again, err := mod.InjectFuncPointReturnStates(fn)
						if err != nil || len(again) != 0 {
							r.fail(string(u.raw), again, nil, "a second request instruments the returns again")
						}
					}
				}
				if p := vfGuard(func() {
					switch u.mode {
					case 0, 1, 2: // as for project functions
						states()
						one("p", mod.InjectFuncPointPanic)
					case 3, 4: // as for module functions
						one("in", mod.InjectFuncPointEntry)
						one("p", mod.InjectFuncPointPanic)
					case 5:
						one("in", mod.InjectFuncPointEntry)
						states()
						one("f", mod.InjectFuncPointFinish)
						one("p", mod.InjectFuncPointPanic)
					default:
						states()
						one("in", mod.InjectFuncPointEntry)
						one("f", mod.InjectFuncPointFinish)
					}
				}); p != "" {
					r.fail(string(u.raw), p, nil, "instrumentation panics")
				}
			}
			fw.Add(1)
			if us[0].id/perFile%2 == 0 {
				go func() { defer fw.Done(); inject() }()
			} else {
				func() { defer fw.Done(); inject() }()
			}
		}
		wg.Add(1)
		go func(n int) {
			defer wg.Done()
			fw.Wait()
			if n%2 == 0 {
				if err := mod.CommitFile(full); err != nil {
					r.fail(nil, err.Error(), nil, "a file cannot be written")
				}
			}
		}(us[0].id / perFile)
		if us[0].id%perPkg == 0 { // the packages one after the other, as the type information is read from disk
			wg.Wait()
		}
	}
	wg.Wait()
	vfMust(t, mod.Commit())
	for _, u := range units { // also when the file was written, by this or another modifier
		marked := false
		for _, k := range u.points {
			marked = marked || k == "s"
		}
		if marked && u.id%5 == 1 {
			m := mod
			if u.id%2 == 0 {
				m = &ASTModifier{}
			}
			if again, err := m.InjectFuncPointReturnStates(u.fn); err != nil || len(again) != 0 {
				r.fail(string(u.raw), again, nil, "a second request instruments the returns again")
			}
		}
	}
	vfMust(t, mod.Commit())
	for p := range pkgs {
		vfMust(t, mod.InjectASTClient(filepath.Join(inst, p), 1, 5, 10000))
	}
	for path, us := range byFile {
		skip := map[string]bool{}
		for _, u := range us {
			skip[u.name] = true
		}
		a, da, err := vfPOthers(t, filepath.Join(orig, path), skip)
		vfMust(t, err)
		b, db, err := vfPOthers(t, filepath.Join(inst, path), skip)
		src, _ := os.ReadFile(filepath.Join(inst, path))
		if err != nil {
			r.fail(string(src), err.Error(), nil, "the instrumented file does not parse")
			continue
		}
		if prop == "P12" {
			if !reflect.DeepEqual(a, b) {
				for i := range a {
					if i >= len(b) || a[i] != b[i] {
						r.fail(string(src), b, a[i], "a declaration that was not to be instrumented changed")
						break
					}
				}
			}
			if !reflect.DeepEqual(da, db) {
				r.fail(string(src), db, da, "documentation or directives of an instrumented function changed")
			}
			if os, is := strings.Contains(files[path], "\n//go:build !never"), regexp.MustCompile(`(?m)^//go:build !never$`).Match(src); os != is {
				r.fail(string(src), nil, nil, "the build constraint of a file is lost")
			}
		}
	}
	if out, err := vfPBuild(inst, filepath.Join(top, "inst.bin")); err != nil {
		found := false
		for _, m := range vfPLineRe.FindAllStringSubmatch(out, 8) {
			src, e2 := os.ReadFile(filepath.Join(inst, m[1]))
			if e2 != nil {
				continue
			}
			found = true
			n, _ := strconv.Atoi(m[2])
			lines := strings.Split(string(src), "\n")
			lo := n - 30
			if lo < 0 {
				lo = 0
			}
			hi := n + 4
			if hi > len(lines) {
				hi = len(lines)
			}
			r.fail(strings.Join(lines[lo:hi], "\n"), m[0], nil, "the instrumented program does not compile: %s", regexp.MustCompile(`[0-9]+`).ReplaceAllString(m[3], "#"))
		}
		if !found {
			r.fail(out, nil, nil, "the instrumented program does not compile")
		}
		return
	}
	log, text := vfPExec(t, filepath.Join(top, "inst.bin"))
	if !log.end {
		r.fail(nil, text, nil, "the instrumented program ends early")
		return
	}
	if text != "" {
		r.fail(nil, text, nil, "the instrumented program prints something the original does not")
	}
	for _, u := range units {
		exitOf, pointOf := map[uint32]int{}, map[int]uint32{}
		has := map[string]bool{}
		for _, k := range u.points {
			has[k] = true
		}
		src := func() string { return vfRenderUnit(u) }
		for _, run := range u.doc.Runs {
			key := fmt.Sprintf("%d %d %d", u.id, run.P, run.Q)
			got, ref := log.runs[key], base.runs[key]
			var a, b []string
			for _, ev := range ref.events {
				a = append(a, fmt.Sprint(ev.n, ev.a))
			}
			for _, ev := range got.events {
				if ev.k == "e" {
					b = append(b, fmt.Sprint(ev.n, ev.a))
				}
			}
			r.ok(1)
			if prop == "P12" {
				if !reflect.DeepEqual(a, b) {
					r.fail(src(), b, a, "the instrumented function has other side effects")
				}
				if got.out != ref.out {
					r.fail(src(), got.out, ref.out, "the instrumented function has another outcome")
				}
				continue
			}
			// ---- P13: the events ----
			var have []string
			finishes, calls := 0, 0
			var seen []vfSeen
			for _, ev := range got.events {
				k := ev.k
				if k != "e" {
					what, known := u.points[ev.id]
					if !known {
						r.fail(src(), ev.id, nil, "an event of another function's point")
						continue
					}
					if k == "pt" {
						k = what
					}
					if what != k {
						r.fail(src(), k, what, "an event of another kind than its point")
						continue
					}
				}
				switch k {
				case "e":
					have = append(have, fmt.Sprintf("e %d %d", ev.n, ev.a))
				case "in":
					have = append(have, "in")
				case "s":
					have = append(have, "s")
				case "p":
					have = append(have, "p "+ev.m)
				case "f":
					finishes++
					continue
				}
				seen = append(seen, ev)
			}
			var want []string
			var spec []vfPEvent
			for _, ev := range run.Log {
				if ev.K == "in" {
					calls++
				}
				if ev.K != "e" && !has[ev.K] {
					continue
				}
				spec = append(spec, ev)
				switch ev.K {
				case "e":
					want = append(want, fmt.Sprintf("e %d %d", ev.N, ev.A))
				case "p":
					want = append(want, "p "+ev.M)
				default:
					want = append(want, ev.K)
				}
			}
			if has["f"] && finishes != calls {
				r.fail(src(), finishes, calls, "the number of completions reported differs from the number of invocations")
			}
			if !reflect.DeepEqual(have, want) {
				r.fail(src(), have, want, "the events reported are not those of the execution")
				continue
			}
			for i, ev := range spec {
				if ev.K != "s" {
					continue
				}
				id, fields := seen[i].id, map[string]LensMonitorField{}
				for _, f := range seen[i].fields {
					if _, dup := fields[f.Name]; dup {
						r.fail(src(), f.Name, nil, "a state reports one name twice")
					}
					fields[f.Name] = f
				}
				if o, ok := exitOf[id]; ok && o != ev.Ex {
					r.fail(src(), id, []int{o, ev.Ex}, "two exits share a point")
				}
				if o, ok := pointOf[ev.Ex]; ok && o != id {
					r.fail(src(), ev.Ex, nil, "one exit has two points")
				}
				exitOf[id], pointOf[ev.Ex] = ev.Ex, id
				st := u.exits[ev.Ex]
				for j := range ev.Vals {
					kind := u.doc.F.Res[j]
					f, ok := fields[fmt.Sprintf("ret%d", j)]
					if !ok {
						f, ok = fields[fmt.Sprintf("rec%d", j)]
					}
					if !ok && st != nil && st.K == "ret" && st.Es[j].K == "var" {
						f, ok = fields[st.Es[j].X]
					}
					if !ok && st != nil && st.K == "ret" && st.Es[j].K == "lit" && (st.Es[j].N != 0 || (kind != "err" && kind != "ptr")) {
						f, ok = fields[fmt.Sprintf("k%d", st.Es[j].N)]
					}
					if !ok && st != nil && st.K == "naked" {
						if j == 0 && u.doc.F.Blank {
							continue // has no name to be reported under
						}
						f, ok = fields[fmt.Sprintf("r%d", j)]
					}
					if !ok && (kind == "err" || kind == "ptr") && st != nil && st.K == "ret" && st.Es[j].K == "lit" && st.Es[j].N == 0 {
						continue // a literal nil may go without saying
					}
					if !ok {
						r.fail(src(), seen[i].fields, j, "a returned value is not captured")
						continue
					}
					if n, ok := vfPNum(kind, f); !ok || n != ev.Vals[j] {
						r.fail(src(), f, ev.Vals[j], "a captured result is not what the caller gets")
					}
				}
				for name, v := range ev.Vis {
					f, ok := fields[name]
					if !ok {
						r.fail(src(), fields, name, "a variable in scope is not captured")
					} else if n, ok := vfPNum("int", f); !ok || n != v {
						r.fail(src(), f, v, "a captured variable has another value: %s", name)
					}
				}
			}
		}
		if u.id%60 == 7 {
			r.sample(map[string]interface{}{"function": src(), "runs": len(u.doc.Runs)})
		}
	}
	var modes []string
	for _, u := range units {
		modes = append(modes, u.doc.F.Recv)
	}
	sort.Strings(modes)
	r.stat("functions", len(units))
}
