package lens

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math"
	"math/big"
	"net/http"
	"os"
	"reflect"
	"runtime"
	"strings"
	"testing"
	"time"
)

type vfCodecField struct {
	N   []int           `json:"n"`
	Y   []int           `json:"y"`
	Tag int             `json:"tag"`
	V   json.RawMessage `json:"v"`
	C   []vfCodecField  `json:"c"`
}
type vfCodecCase struct {
	Ep    string `json:"ep"`
	B     []int  `json:"b"`
	Fault bool   `json:"fault"`
	OK    bool   `json:"ok"`
	Used  int    `json:"used"`
	Ev    struct {
		ID    []int `json:"id"`
		Time  []int `json:"time"`
		Stack []struct {
			File []int `json:"file"`
			Fn   []int `json:"fn"`
			Line []int `json:"line"`
		} `json:"stack"`
		Fields []vfCodecField `json:"fields"`
		Msg    []int          `json:"msg"`
	} `json:"ev"`
}

func vfBytes(l []int) []byte {
	b := make([]byte, len(l))
	for i, x := range l {
		b[i] = byte(x)
	}
	return b
}

var vfTwo64 = new(big.Int).Lsh(big.NewInt(1), 64)

// vfUvar is the number a sequence of 7-bit groups stands for.
func vfUvar(raw []int) uint64 {
	v := new(big.Int)
	for i, g := range raw {
		v.Add(v, new(big.Int).Lsh(big.NewInt(int64(g)), uint(7*i)))
	}
	return v.Mod(v, vfTwo64).Uint64()
}

// vfSvar undoes the alternating numbering 0, -1, 1, -2, 2, ...
func vfSvar(raw []int) int64 {
	u := vfUvar(raw)
	if u%2 == 0 {
		return int64(u / 2)
	}
	return -int64(u/2) - 1
}

func vfF32(l []int) float32 { return math.Float32frombits(binary.LittleEndian.Uint32(vfBytes(l))) }
func vfF64(l []int) float64 { return math.Float64frombits(binary.LittleEndian.Uint64(vfBytes(l))) }

type vfWide struct{ wide bool } // a number that does not fit the type of its tag: free to be rejected

func (w *vfWide) i32(v int64) int32 {
	if v > math.MaxInt32 || v < math.MinInt32 {
		w.wide = true
	}
	return int32(v)
}
func (w *vfWide) u32(v uint64) uint32 {
	if v > math.MaxUint32 {
		w.wide = true
	}
	return uint32(v)
}

func (w *vfWide) value(t *testing.T, tag int, raw json.RawMessage) interface{} {
	var one []int
	var many [][]int
	switch {
	case tag >= 34 && tag <= 40:
		vfMust(t, json.Unmarshal(raw, &many))
	default:
		vfMust(t, json.Unmarshal(raw, &one))
	}
	switch tag {
	case 1:
		return one[0] != 0
	case 2:
		return w.i32(vfSvar(one))
	case 3:
		return vfSvar(one)
	case 4:
		return w.u32(vfUvar(one))
	case 5:
		return vfUvar(one)
	case 6:
		return vfF32(one)
	case 7:
		return vfF64(one)
	case 8:
		return complex(vfF64(one[:8]), vfF64(one[8:]))
	case 9:
		return string(vfBytes(one))
	case 32:
		out := []bool{}
		for i := 0; i < one[0]; i++ {
			out = append(out, one[1+i/8]>>(i%8)&1 == 1)
		}
		return out
	case 33:
		return vfBytes(one)
	case 34:
		out := []int32{}
		for _, r := range many {
			out = append(out, w.i32(vfSvar(r)))
		}
		return out
	case 35:
		out := []int64{}
		for _, r := range many {
			out = append(out, vfSvar(r))
		}
		return out
	case 36:
		out := []uint32{}
		for _, r := range many {
			out = append(out, w.u32(vfUvar(r)))
		}
		return out
	case 37:
		out := []uint64{}
		for _, r := range many {
			out = append(out, vfUvar(r))
		}
		return out
	case 38:
		out := []float32{}
		for _, r := range many {
			out = append(out, vfF32(r))
		}
		return out
	case 39:
		out := []float64{}
		for _, r := range many {
			out = append(out, vfF64(r))
		}
		return out
	case 40:
		out := []string{}
		for _, r := range many {
			out = append(out, string(vfBytes(r)))
		}
		return out
	}
	return nil
}

func (w *vfWide) field(t *testing.T, f vfCodecField) string {
	s := fmt.Sprintf("%q:%q=%s{", vfBytes(f.N), vfBytes(f.Y), vfCodecShow(w.value(t, f.Tag, f.V)))
	for _, c := range f.C {
		s += w.field(t, c)
	}
	return s + "}"
}

func vfCodecShow(v interface{}) string {
	if s, ok := v.(string); ok {
		return fmt.Sprintf("string %q", s)
	}
	if s, ok := v.([]string); ok {
		return fmt.Sprintf("[]string %q", s)
	}
	return fmt.Sprintf("%T %v", v, v)
}

func vfGotField(sb *strings.Builder, f LensMonitorField) {
	fmt.Fprintf(sb, "%q:%q=%s{", f.Name, f.Type, vfCodecShow(f.Value))
	for _, c := range f.Children {
		vfGotField(sb, c)
	}
	sb.WriteString("}")
}

func vfGotStack(fr []lensMonitorStackFrame) string {
	s := ""
	for _, f := range fr {
		s += fmt.Sprintf("%q %q %d;", f.File, f.Function, f.Line)
	}
	return s
}

// vfCodecHandler keeps the events of one request.
type vfCodecHandler struct{ events []interface{} }

func (h *vfCodecHandler) HandleFuncPoint(m LensMonitorMessagePoint) { h.events = append(h.events, m) }
func (h *vfCodecHandler) HandleFuncPointState(m LensMonitorMessagePointState) {
	h.events = append(h.events, m)
}
func (h *vfCodecHandler) HandleFuncPointPanic(m LensMonitorMessagePointPanic) {
	h.events = append(h.events, m)
}

func (h *vfCodecHandler) text() (out []string) {
	for _, e := range h.events {
		switch m := e.(type) {
		case LensMonitorMessagePoint:
			out = append(out, fmt.Sprintf("point %d %d %s", m.PointID, m.TimeNS, vfGotStack(m.Stack)))
		case LensMonitorMessagePointState:
			var sb strings.Builder
			fmt.Fprintf(&sb, "state %d %d %s", m.PointID, m.TimeNS, vfGotStack(m.Stack))
			for _, f := range m.Fields {
				vfGotField(&sb, f)
			}
			out = append(out, sb.String())
		case LensMonitorMessagePointPanic:
			out = append(out, fmt.Sprintf("panic %d %d %q", m.PointID, m.TimeNS, m.Message))
		}
	}
	return out
}

func (w *vfWide) event(t *testing.T, c *vfCodecCase) string {
	id := w.u32(vfUvar(c.Ev.ID))
	if c.Ep == "error" {
		return ""
	}
	tm := int64(binary.LittleEndian.Uint64(vfBytes(c.Ev.Time)))
	if c.Ep == "panic" {
		return fmt.Sprintf("panic %d %d %q", id, tm, vfBytes(c.Ev.Msg))
	}
	s := fmt.Sprintf("%s %d %d ", c.Ep, id, tm)
	for _, f := range c.Ev.Stack {
		s += fmt.Sprintf("%q %q %d;", vfBytes(f.File), vfBytes(f.Fn), uint(vfUvar(f.Line)))
	}
	for _, f := range c.Ev.Fields {
		s += w.field(t, f)
	}
	return s
}

func TestVerifP06(t *testing.T) {
	r := vfNewReport()
	defer r.write(t)
	log.SetOutput(io.Discard)
	port := vfFreePort(t)
	h := &vfCodecHandler{}
	srv, err := astExecServerStart("127.0.0.1", port, h, 8)
	vfMust(t, err)
	defer func() {
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
		defer cancel()
		_ = srv.Stop(ctx)
	}()
	paths := map[string]string{"point": lensMonitorEndpointPathPoint, "state": lensMonitorEndpointPathState, "panic": lensMonitorEndpointPathPanic, "error": lensMonitorEndpointPathError}
	client := &http.Client{Timeout: 60 * time.Second}
	var ms runtime.MemStats
	// post returns the status (0: no answer), the events delivered and the bytes allocated meanwhile
	post := func(ep string, body []byte, measure bool) (int, []string, uint64) {
		h.events = nil
		var before uint64
		if measure {
			runtime.ReadMemStats(&ms)
			before = ms.TotalAlloc
		}
		resp, err := client.Post(fmt.Sprintf("http://127.0.0.1:%d%s", port, paths[ep]), "application/octet-stream", bytes.NewReader(body))
		if err != nil {
			return 0, h.text(), 0
		}
		_, _ = io.Copy(io.Discard, resp.Body)
		_ = resp.Body.Close()
		var delta uint64
		if measure {
			runtime.ReadMemStats(&ms)
			delta = ms.TotalAlloc - before
		}
		if resp.StatusCode >= 300 && len(h.events) > 0 {
			return resp.StatusCode, []string{"(event)"}, delta
		}
		return resp.StatusCode, h.text(), delta
	}
	good := append(append([]byte{42}, make([]byte, 8)...), 2, 'o', 'k')
	const allocMax = 8 << 20
	judge := func(c interface{}, ep string, body []byte, ok bool, used int, wide bool, want string) bool {
		status, evs, delta := post(ep, body, true)
		fail := func(what string) bool {
			r.fail(map[string]interface{}{"endpoint": ep, "body": fmt.Sprintf("%x", body[:min(len(body), 400)]), "case": c}, map[string]interface{}{"status": status, "events": evs}, want, "%s", what)
			return false
		}
		if status == 0 {
			return fail("a message is answered with no status (the handler died or hangs)")
		}
		accepted := status < 300
		if !accepted && status < 400 {
			return fail("a message is neither accepted nor rejected")
		}
		if !accepted && len(evs) > 0 {
			return fail("a rejected message was delivered")
		}
		if delta > allocMax+uint64(64*len(body)) {
			return fail(fmt.Sprintf("memory out of proportion to the message: %d MB for %d bytes", delta>>20, len(body)))
		}
		if !ok && accepted {
			return fail("a malformed or truncated message is accepted")
		}
		if ok && !accepted && !wide && used == len(body) {
			return fail("a valid message is rejected")
		}
		if accepted && ep != "error" && (len(evs) != 1 || evs[0] != want) {
			return fail("a message is delivered as a different event, or not exactly once")
		}
		return true
	}
	alive := func() {
		if status, evs, _ := post("panic", good, false); status != 200 || len(evs) != 1 || evs[0] != `panic 42 0 "ok"` {
			r.fail(nil, map[string]interface{}{"status": status, "events": evs}, nil, "after malformed messages a valid message is not accepted")
		}
	}
	cuts := 0
	vfLines(t, os.Getenv("VF_CASES"), func(n int, doc []byte) {
		if r.full() {
			return
		}
		var c vfCodecCase
		vfMust(t, json.Unmarshal(doc, &c))
		body := vfBytes(c.B)
		w, want := vfWide{}, ""
		if c.OK {
			want = w.event(t, &c)
		}
		if !judge(n, c.Ep, body, c.OK, c.Used, w.wide, want) {
			return
		}
		r.ok(1)
		if c.OK && (!c.Fault || n%4 == 0) { // every truncation
			for k := 0; k < c.Used; k++ {
				if !judge(fmt.Sprintf("cut at %d", k), c.Ep, body[:k], false, 0, false, "") {
					return
				}
				cuts++
			}
		}
		if n%20 == 0 {
			alive()
		}
		if n < 3 {
			r.sample(c)
		}
	})
	r.stat("truncations", cuts)
	if len(r.Violations) > 0 {
		return
	}

	// declared sizes far beyond the data, at every place where a size is declared
	varint := func(v uint64) []byte { return binary.AppendUvarint(nil, v) }
	cat := func(parts ...[]byte) []byte { return bytes.Join(parts, nil) }
	head := append([]byte{1}, make([]byte, 8)...)
	places := []struct {
		name, ep string
		before   []byte
	}{
		{"panic text", "panic", head}, {"error text", "error", []byte{1}},
		{"frames", "point", head}, {"string table", "point", cat(head, []byte{1})}, {"table string", "point", cat(head, []byte{1, 1})},
		{"file index", "point", cat(head, []byte{1, 1, 0})}, {"function index", "point", cat(head, []byte{1, 1, 0, 0})},
		{"fields", "state", cat(head, []byte{0})}, {"field name", "state", cat(head, []byte{0, 1})}, {"field type", "state", cat(head, []byte{0, 1, 0})},
	}
	for _, tag := range []byte{9, 32, 33, 34, 35, 36, 37, 38, 39, 40, 64, 65, 66} {
		places = append(places, struct {
			name, ep string
			before   []byte
		}{fmt.Sprintf("count of tag %#x", tag), "state", cat(head, []byte{0, 1, 0, 0, tag})})
		var nest []byte // the same below many containers that declare as much
		for i := 0; i < 90; i++ {
			nest = append(nest, 0, 0, 65, 0xff, 0xff, 0x3f)
		}
		places = append(places, struct {
			name, ep string
			before   []byte
		}{fmt.Sprintf("count of tag %#x below large structs", tag), "state", cat(head, []byte{0, 1}, nest, []byte{0, 0, tag})})
	}
	places = append(places, struct {
		name, ep string
		before   []byte
	}{"string in string slice", "state", cat(head, []byte{0, 1, 0, 0, 40, 1})})
	for _, p := range places {
		for _, v := range []uint64{1 << 20, 1<<24 + 7, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 40, 1 << 48, 1 << 57, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
			for _, tail := range []int{0, 40} {
				body := cat(p.before, varint(v), bytes.Repeat([]byte{0}, tail))
				if !judge(fmt.Sprintf("%s declared %d", p.name, v), p.ep, body, false, 0, false, "") {
					return
				}
				r.ok(1)
			}
		}
	}
	// long strings and many fields that are really there
	long := bytes.Repeat([]byte("x"), 3<<20)
	if !judge("long text", "panic", cat(head, varint(uint64(len(long))), long), true, len(head)+4+len(long), false, fmt.Sprintf("panic 1 0 %q", long)) {
		return
	}
	if !judge("long text cut", "panic", cat(head, varint(uint64(len(long))), long[:len(long)-1]), false, 0, false, "") {
		return
	}
	wide, want := []byte{}, "state 1 0 "
	for i := 0; i < 5000; i++ {
		wide = append(wide, 1, 'f', 0, 5)
		wide = append(wide, varint(uint64(i))...)
		want += fmt.Sprintf("%q:%q=uint64 %d{}", "f", "", i)
	}
	body := cat(head, []byte{0}, varint(5000), wide)
	if !judge("5000 fields", "state", body, true, len(body), false, want) {
		return
	}
	body = cat(head, []byte{0, 1, 0, 0, 65}, varint(5000), wide)
	if !judge("struct of 5000 fields", "state", body, true, len(body), false, "state 1 0 \"\":\"\"=<nil> <nil>{"+want[len("state 1 0 "):]+"}") {
		return
	}
	// nesting: what the client may be configured to send is accepted, and no depth stops the server
	for _, d := range []int{50, 101, 3000000} {
		nest := bytes.Repeat([]byte{0, 0, 65, 1}, d)
		body := cat(head, []byte{0, 1}, nest, []byte{0, 0, 0})
		if d > 101 {
			h.events = nil
			resp, err := client.Post(fmt.Sprintf("http://127.0.0.1:%d%s", port, paths["state"]), "application/octet-stream", bytes.NewReader(body))
			if err != nil || (resp.StatusCode >= 300) == (len(h.events) > 0) {
				r.fail(d, fmt.Sprint(err), nil, "deep nesting stops the handler")
			}
			if err == nil {
				_ = resp.Body.Close()
			}
			continue
		}
		want := "state 1 0 "
		for i := 0; i <= d; i++ {
			want += "\"\":\"\"=<nil> <nil>{"
		}
		for i := 0; i <= d; i++ {
			want += "}"
		}
		if !judge(fmt.Sprint("nesting ", d), "state", body, true, len(body), false, want) {
			return
		}
	}
	alive()
	// other methods deliver nothing
	for ep, p := range paths {
		for _, m := range []string{"GET", "PUT", "DELETE", "HEAD"} {
			h.events = nil
			req, err := http.NewRequest(m, fmt.Sprintf("http://127.0.0.1:%d%s", port, p), bytes.NewReader(good))
			vfMust(t, err)
			resp, err := client.Do(req)
			if err != nil || resp.StatusCode < 400 || len(h.events) > 0 {
				r.fail(m+" "+ep, h.events, nil, "a request that is not a post is accepted")
			}
			if err == nil {
				_ = resp.Body.Close()
			}
		}
	}
	if !reflect.DeepEqual(h.events, []interface{}(nil)) {
		r.fail(nil, h.events, nil, "events without a message")
	}
	alive()
}
