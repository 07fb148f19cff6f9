package lens

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
)

// Go counterparts of the model's field trees and results.

type vfTree map[string]vfNode
type vfNode struct {
	V string `json:"v"`
	C vfTree `json:"c"`
}

func (m *vfTree) UnmarshalJSON(b []byte) error {
	if s := strings.TrimSpace(string(b)); s == "[]" {
		*m = nil
		return nil
	}
	var x map[string]vfNode
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	*m = x
	return nil
}

func (m vfTree) fields() FieldValues {
	out := make(FieldValues, len(m))
	for k, n := range m {
		fv := &FieldValue{Value: n.V}
		if len(n.C) > 0 {
			fv.Children = n.C.fields()
		}
		out[k] = fv
	}
	return out
}

// vfCanon renders a field tree canonically (nil and empty maps are the same tree).
func vfCanon(fv FieldValues) string {
	var sb strings.Builder
	var walk func(FieldValues)
	walk = func(m FieldValues) {
		keys := make([]string, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		sb.WriteByte('{')
		for _, k := range keys {
			n := m[k]
			if n == nil {
				fmt.Fprintf(&sb, "%q:nil,", k)
				continue
			}
			fmt.Fprintf(&sb, "%q:%q", k, n.Value)
			if len(n.Children) > 0 {
				walk(n.Children)
			}
			sb.WriteByte(',')
		}
		sb.WriteByte('}')
	}
	walk(fv)
	return sb.String()
}

type vfFrame struct {
	F vfTree `json:"f"`
	S []struct {
		File string `json:"file"`
		Line uint32 `json:"line"`
		Fn   string `json:"fn"`
	} `json:"s"`
	T uint32 `json:"t"`
}

func (f vfFrame) frame() CallFrame {
	cf := CallFrame{FieldValues: f.F.fields(), TimeMillis: f.T}
	for _, s := range f.S {
		cf.Stack = append(cf.Stack, StackFrame{File: s.File, Line: s.Line, Function: s.Fn})
	}
	return cf
}

type vfFrameMap map[string][]vfFrame
type vfMsgMap map[string][]string

func (m *vfFrameMap) UnmarshalJSON(b []byte) error {
	if strings.TrimSpace(string(b)) == "[]" {
		*m = nil
		return nil
	}
	var x map[string][]vfFrame
	err := json.Unmarshal(b, &x)
	*m = x
	return err
}

func (m *vfMsgMap) UnmarshalJSON(b []byte) error {
	if strings.TrimSpace(string(b)) == "[]" {
		*m = nil
		return nil
	}
	var x map[string][]string
	err := json.Unmarshal(b, &x)
	*m = x
	return err
}

func (m vfFrameMap) frames() map[string][]CallFrame {
	if len(m) == 0 {
		return nil
	}
	out := make(map[string][]CallFrame, len(m))
	for k, l := range m {
		for _, f := range l {
			out[k] = append(out[k], f.frame())
		}
	}
	return out
}

type vfResult struct {
	Callers vfFrameMap `json:"callers"`
	Ext     vfFrameMap `json:"ext"`
	PP      vfMsgMap   `json:"pp"`
	MP      vfMsgMap   `json:"mp"`
	Hit     int        `json:"hit"`
	Fail    bool       `json:"fail"`
}

func (m vfResult) result(ident, name string) TestResult {
	r := TestResult{TestFunction: MinimumTestFunction{FunctionIdent: ident, FunctionName: name},
		CallerResults: m.Callers.frames(), ExtensionFrames: m.Ext.frames(), ModuleChangesHit: m.Hit, TestFailure: m.Fail}
	if r.CallerResults == nil {
		r.CallerResults = map[string][]CallFrame{}
	}
	cp := func(in vfMsgMap) map[string][]string {
		if len(in) == 0 {
			return nil
		}
		out := map[string][]string{}
		for k, v := range in {
			out[k] = append([]string{}, v...)
		}
		return out
	}
	r.ProjectPanics, r.ModulePanics = cp(m.PP), cp(m.MP)
	return r
}

// vfCanonResult renders everything a result holds.
func vfCanonResult(r TestResult) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "test %q %q hit %d fail %v\n", r.TestFunction.FunctionIdent, r.TestFunction.FunctionName, r.ModuleChangesHit, r.TestFailure)
	frames := func(kind string, m map[string][]CallFrame) {
		keys := make([]string, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Fprintf(&sb, "%s %q\n", kind, k)
			for i, f := range m[k] {
				fmt.Fprintf(&sb, "  %d t=%d %s", i, f.TimeMillis, vfCanon(f.FieldValues))
				for _, s := range f.Stack {
					fmt.Fprintf(&sb, " [%q %d %q]", s.File, s.Line, s.Function)
				}
				sb.WriteByte('\n')
			}
		}
	}
	frames("caller", r.CallerResults)
	frames("ext", r.ExtensionFrames)
	msgs := func(kind string, m map[string][]string) {
		keys := make([]string, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Fprintf(&sb, "%s %q %q\n", kind, k, m[k])
		}
	}
	msgs("pp", r.ProjectPanics)
	msgs("mp", r.ModulePanics)
	return sb.String()
}

// vfQuiet sends the tool's own console output to nowhere until restored.
func vfQuiet() func() {
	old := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		return func() {}
	}
	os.Stdout = null
	return func() { os.Stdout = old; _ = null.Close() }
}
