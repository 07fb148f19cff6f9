package lens

import "strings"

// Concretization: the model's abstract symbols stand for any distinct strings. Each case is replayed with
// symbols replaced, injectively, by strings that an implementation is likely to confuse.

var vfLong = strings.Repeat("0123456789abcdef", 40)
var vfHardTriples = [][3]string{
	{"", "x", "y"}, {"", "x", "X"}, {"", " ", "  "}, {"x", "x ", " x"}, {"1", "1.0", "01"}, {"true", "True", "TRUE"},
	{vfLong + "a", vfLong + "b", vfLong}, {"a" + vfLong, "b" + vfLong, vfLong}, {"<nil>", "nil", ""}, {"a\nb", "a\nc", "a"}, {"line\n", "line", "line\r\n"},
	{HashFieldValuePrefix + "aaaaTAIL", HashFieldValuePrefix + "bbbbTAIL", "aaaaTAIL"}, {"NaN", "nan", "-NaN"}, {"0", "-0", "+0"},
	{"\x00", "\x00\x00", ""}, {"é", "e\u0301", "e"}, {"0xc000012345", "0xc000012346", "0xc0000"}, {"[]", "[0]", "{}"}, {"a.b", "a|b", "a:b"},
}
var vfHardNames = [][3]string{{"a", "b", "c"}, {"a", "A", "aa"}, {"0", "00", "1"}, {"ret0", "ret1", "ret10"}, {"x:y", "x", "y"}, {"_", "__", " "}, {"ID", "Id", "id"}, {"é", "e", "f"}}
var vfHardMsgs = [][2]string{{"boom", "bang"}, {"boom", "boom "}, {"index out of range [5] with length 3", "index out of range [6] with length 3"}, {"", "x"}, {"a\nb", "a\nc"},
	{vfLong + "1", vfLong + "2"}, {"panic 0xc000012345", "panic 0xc000012346"}, {"Boom", "boom"}}
var vfHardFns = [][2]string{{"m.F", "m.G"}, {"m.F", "m.F.func1"}, {"m.F", "m.FF"}, {"m.(*T).F", "m.T.F"}, {"m.F[...]", "m.F"}, {"m.f", "m.F"}}

type vfConc struct {
	leaf, name, msg, fn map[string]string
	files               map[string]string
}

func vfConcretize(n int) vfConc {
	p := func(k int) int { // independent choices from one number
		for ; k > 0; k-- {
			n = n*1103515245 + 12345
			n &= 0x7fffffff
		}
		return (n >> 8) & 0xffffff
	}
	l, nm, ms, fn := vfHardTriples[p(1)%len(vfHardTriples)], vfHardNames[p(1)%len(vfHardNames)], vfHardMsgs[p(1)%len(vfHardMsgs)], vfHardFns[p(1)%len(vfHardFns)]
	files := map[string]string{}
	if p(1)%2 == 0 {
		files = map[string]string{"./a.go": "./p/a.go", "./b.go": "./p/a.go2/b.go", "./vendor/x.go": "./vendor/a.go"}
	}
	return vfConc{leaf: map[string]string{"": l[0], "x": l[1], "y": l[2]}, name: map[string]string{"a": nm[0], "b": nm[1], "c": nm[2]},
		msg: map[string]string{"boom": ms[0], "bang": ms[1]}, fn: map[string]string{"m.F": fn[0], "m.G": fn[1]}, files: files}
}

func vfSub(m map[string]string, s string) string {
	if v, ok := m[s]; ok {
		return v
	}
	return s
}

func (c vfConc) tree(t vfTree) vfTree {
	if t == nil {
		return nil
	}
	out := vfTree{}
	for k, n := range t {
		nn := vfNode{V: n.V, C: c.tree(n.C)}
		if len(n.C) == 0 {
			nn.V = vfSub(c.leaf, n.V)
		}
		out[vfSub(c.name, k)] = nn
	}
	return out
}

func (c vfConc) frames(m vfFrameMap) vfFrameMap {
	out := vfFrameMap{}
	for id, l := range m {
		fs := make([]vfFrame, len(l))
		for i, f := range l {
			g := f
			g.F = c.tree(f.F)
			g.S = append(g.S[:0:0], f.S...)
			for j := range g.S {
				g.S[j].Fn = vfSub(c.fn, g.S[j].Fn)
				g.S[j].File = vfSub(c.files, g.S[j].File)
			}
			fs[i] = g
		}
		out[id] = fs
	}
	return out
}

func (c vfConc) msgs(m vfMsgMap) vfMsgMap {
	out := vfMsgMap{}
	for id, l := range m {
		for _, s := range l {
			out[id] = append(out[id], vfSub(c.msg, s))
		}
	}
	return out
}

func (c vfConc) result(r vfResult) vfResult {
	return vfResult{Callers: c.frames(r.Callers), Ext: c.frames(r.Ext), PP: c.msgs(r.PP), MP: c.msgs(r.MP), Hit: r.Hit, Fail: r.Fail}
}

func (c vfConc) path(p string) string {
	parts := strings.Split(p, ".")
	for i := range parts {
		parts[i] = vfSub(c.name, parts[i])
	}
	return strings.Join(parts, ".")
}

func (c vfConc) verdict(v vfVerdict) vfVerdict {
	ch := vfSetMap{}
	for id, l := range v.Changed {
		for _, p := range l {
			ch[id] = append(ch[id], c.path(p))
		}
	}
	v.Changed = ch
	return v
}
