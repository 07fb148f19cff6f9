package lens

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
)

var vfLimit = 64

// vfStoreVal is the byte string a value name of the model stands for.
func vfStoreVal(name string) []byte {
	variant := byte('a')
	base := name
	if strings.HasSuffix(base, "B") {
		variant, base = 'n', strings.TrimSuffix(base, "B")
	}
	size := -1
	switch base {
	case "empty":
		return []byte{}
	case "one":
		size = 1
	case "L-1":
		size = vfLimit - 1
	case "L":
		size = vfLimit
	case "L+1":
		size = vfLimit + 1
	case "2L":
		size = 2 * vfLimit
	case "2L+1":
		size = 2*vfLimit + 1
	case "3L":
		size = 3 * vfLimit
	case "3L+2":
		size = 3*vfLimit + 2
	case "9L+1":
		size = 9*vfLimit + 1
	case "marker": // looks like the store's own bookkeeping
		if variant == 'n' {
			return []byte("badger_split:1:4:4")
		}
		return []byte("badger_split:2:10:10")
	default:
		panic("unknown value name " + name)
	}
	out := make([]byte, size)
	for i := range out {
		out[i] = variant + byte((i*7+i/13)%11)
	}
	return out
}

type vfStoreStep struct {
	Op, Ns, K, V string
	St           vfMap
}

func TestVerifP01(t *testing.T) {
	r := vfNewReport()
	defer r.write(t)
	old := badgerSplitLimit
	badgerSplitLimit = vfLimit
	defer func() { badgerSplitLimit = old }()

	dir := vfScratch(t, "badger")
	const shards = 8
	var wg sync.WaitGroup
	for sh := 0; sh < shards; sh++ {
		disk, err := NewBadgerStorage(filepath.Join(dir, fmt.Sprint(sh)), 16)
		vfMust(t, err)
		wg.Add(1)
		go func() {
			defer wg.Done()
			vfStoreShard(t, r, sh, shards, map[string]Storage{"memory": NewMemStorage(), "disk": disk})
		}()
	}
	wg.Wait()
	// the same behaviours with the store's own splitting limit and values around a megabyte
	badgerSplitLimit, vfLimit = old, 1<<20
	disk, err := NewBadgerStorage(filepath.Join(dir, "big"), 16)
	vfMust(t, err)
	vfStoreShard(t, r, 7, 251, map[string]Storage{"memory": NewMemStorage(), "disk": disk})
	if ents, _ := os.ReadDir(dir); len(ents) != 0 {
		r.fail(nil, fmt.Sprint(ents), nil, "disk store: files remain after close")
	}
}

func vfStoreShard(t *testing.T, r *vfReport, sh, shards int, backends map[string]Storage) {
	for _, env := range []string{"VF_EXH", "VF_SIM"} {
		path := os.Getenv(env)
		isolated := env == "VF_EXH" // many short behaviours share one database under a session namespace
		vfLines(t, path, func(i int, doc []byte) {
			if r.full() || i%shards != sh {
				return
			}
			var steps []vfStoreStep
			if err := json.Unmarshal(doc, &steps); err != nil {
				panic(err)
			}
			for _, be := range []string{"memory", "disk"} {
				var root Storage = backends[be]
				if isolated {
					root = KeyPrefixStorage(root, fmt.Sprintf("session%d", i))
				} else {
					if p := vfGuard(func() {
						if err := root.Clear(); err != nil {
							r.fail(nil, err.Error(), nil, "%s store: clear failed", be)
						}
						if ks, err := root.ListKeys(); err != nil || len(ks) != 0 {
							r.fail(nil, ks, nil, "%s store: keys remain after clear (err %v)", be, err)
						}
					}); p != "" {
						r.fail(nil, p, nil, "%s store: panic in clear", be)
					}
				}
				if p := vfGuard(func() { vfReplayStore(r, be, root, steps, isolated) }); p != "" {
					r.fail(steps, p, nil, "%s store: panic", be)
				}
			}
			r.ok(1)
			if i == 5 {
				r.sample(steps)
			}
		})
	}
	for _, s := range backends {
		s.Close()
	}
}

func vfReplayStore(r *vfReport, be string, root Storage, steps []vfStoreStep, brief bool) {
	views := map[string]Storage{"": root}
	view := func(ns string) Storage {
		if views[ns] == nil {
			views[ns] = KeyPrefixStorage(root, ns)
		}
		return views[ns]
	}
	keys := map[string]bool{"k": true, "never": true}
	nss := map[string]bool{"": true}
	for _, s := range steps {
		if s.K != "" {
			keys[s.K] = true
		}
		nss[s.Ns] = true
	}
	for i, s := range steps {
		v := view(s.Ns)
		var err error
		switch s.Op {
		case "save":
			b := vfStoreVal(s.V)
			err = v.SaveState(s.K, b)
			for j := range b { // the caller keeps ownership of its slice
				b[j] = 'X'
			}
		case "delete":
			err = v.DeleteState(s.K)
		case "clear":
			err = v.Clear()
		}
		if err != nil {
			r.fail(steps[:i+1], err.Error(), nil, "%s store: step %d (%s) failed: %v", be, i, s.Op, err)
			return
		}
		// compare everything observable with the model's state
		for ns := range nss {
			pfx := ""
			if ns != "" {
				pfx = ns + ";"
			}
			for k := range keys {
				want, live := s.St[pfx+k]
				for pass := 0; pass < 2; pass++ {
					got, ok, err := view(ns).LoadState(k)
					if err != nil {
						r.fail(steps[:i+1], err.Error(), want, "%s store: load of %q in namespace %q failed after %s of a %s value", be, k, ns, s.Op, s.V)
						return
					}
					if ok != live {
						r.fail(steps[:i+1], ok, live, "%s store: load of %q in namespace %q reports present=%v, the history says %v (last value %q)", be, k, ns, ok, live, want)
						return
					}
					if live && !bytes.Equal(got, vfStoreVal(want)) {
						r.fail(steps[:i+1], vfShort(got), vfShort(vfStoreVal(want)), "%s store: load of %q in namespace %q returns wrong bytes (value %s)", be, k, ns, want)
						return
					}
					for j := range got { // the second pass sees whether the store shares this slice
						got[j] = 'Y'
					}
				}
			}
			prefixes := []string{"", "k", "k-", "k-1", "z", "none", "a", "a;", "badger", "badger_split:"}
			if brief {
				prefixes = prefixes[:2]
			}
			for _, p := range prefixes {
				var want []string
				for f := range s.St {
					if strings.HasPrefix(f, pfx+p) {
						want = append(want, strings.TrimPrefix(f, pfx))
					}
				}
				got, err := view(ns).ListKeysPrefix(p)
				if err == nil && p == "" {
					got2, err2 := view(ns).ListKeys()
					if err2 != nil || strings.Join(vfSorted(got), "\x00") != strings.Join(vfSorted(got2), "\x00") {
						r.fail(steps[:i+1], got2, want, "%s store: full listing of namespace %q disagrees (err %v)", be, ns, err2)
						return
					}
				}
				if err != nil || vfJSON(vfSorted(got)) != vfJSON(vfSorted(want)) {
					r.fail(steps[:i+1], vfSorted(got), vfSorted(want), "%s store: listing prefix %q of namespace %q is wrong (err %v)", be, p, ns, err)
					return
				}
			}
		}
	}
}
