package lens

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"testing"
)

type vfLinEvent struct {
	E   string   `json:"e"`
	C   string   `json:"c"`
	Op  string   `json:"op"`
	K   string   `json:"k"`
	V   string   `json:"v"`
	Err string   `json:"err"`
	Res []string `json:"res"`
}

// vfLinVal gives every save its own recognisable bytes: the whole value is made of one 8 byte tag, so a mixture or a
// truncation decodes to something else than a value name.
func vfLinVal(client, seq, size int) (string, []byte) {
	tag := fmt.Sprintf("<%d-%04d>", client, seq%10000)
	out := []byte(tag)
	for len(out) < size*len(tag) {
		out = append(out, tag...)
	}
	return fmt.Sprintf("%s*%d", tag, len(out)/len(tag)), out
}

func vfLinName(b []byte) string {
	if len(b) < 8 || len(b)%8 != 0 {
		return fmt.Sprintf("TORN %q", b)
	}
	tag := string(b[:8])
	for i := 0; i < len(b); i += 8 {
		if string(b[i:i+8]) != tag {
			return fmt.Sprintf("TORN %q", b)
		}
	}
	return fmt.Sprintf("%s*%d", tag, len(b)/8)
}

func TestVerifP02(t *testing.T) {
	r := vfNewReport()
	defer r.write(t)
	old := badgerSplitLimit
	badgerSplitLimit = 32
	defer func() { badgerSplitLimit = old }()
	rng := rand.New(rand.NewSource(vfSeed()))
	out, err := os.Create(os.Getenv("VF_TRACES"))
	vfMust(t, err)
	defer func() { _ = out.Close() }()
	dir := vfScratch(t, "badger")
	disk, err := NewBadgerStorage(filepath.Join(dir, "db"), 16)
	vfMust(t, err)
	mem := NewMemStorage()
	rounds := vfInt("VF_ROUNDS", 200)
	for n := 0; n < rounds && !r.full(); n++ {
		for _, be := range []string{"disk", "memory"} {
			var root Storage = disk
			if be == "memory" {
				root = mem
			}
			s := KeyPrefixStorage(root, fmt.Sprintf("round%d", n))
			if n%4 == 3 {
				s = root
				vfMust(t, root.Clear())
			}
			shared := n%3 != 2
			tr := vfLinRound(r, s, rng.Int63(), shared, be)
			b, _ := json.Marshal(tr)
			_, err := out.Write(append(b, '\n'))
			vfMust(t, err)
			r.stat("histories_"+be, 1)
			if n == 1 {
				r.sample(tr)
			}
		}
	}
	disk.Close()
}

func vfLinRound(r *vfReport, s Storage, seed int64, shared bool, be string) []vfLinEvent {
	var mu sync.Mutex
	var tr []vfLinEvent
	log := func(e vfLinEvent) { mu.Lock(); tr = append(tr, e); mu.Unlock() }
	clients := 3
	ops := 5
	start := make(chan struct{})
	var wg sync.WaitGroup
	sizes := []int{1, 3, 4, 5, 9, 40}
	for c := 0; c < clients; c++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			name := fmt.Sprintf("c%d", c)
			rng := rand.New(rand.NewSource(seed + int64(c)))
			<-start
			for i := 0; i < ops; i++ {
				k := "x"
				if rng.Intn(5) == 0 {
					k = "y"
				}
				if !shared {
					k = name
				}
				var op string
				switch x := rng.Intn(10); {
				case x < 4:
					op = "save"
				case x < 8:
					op = "load"
				case x < 9:
					op = "delete"
				default:
					op = "list"
				}
				if c == 0 && shared { // one steady writer of large values
					op = "save"
				}
				ev := vfLinEvent{E: "call", C: name, Op: op, K: k, Res: []string{}}
				ret := vfLinEvent{E: "ret", C: name, Op: op, K: k, Res: []string{}}
				var blob []byte
				if op == "save" {
					size := sizes[rng.Intn(len(sizes))]
					if c == 0 {
						size = 20 + rng.Intn(20)
					}
					ev.V, blob = vfLinVal(c, i, size)
				}
				log(ev)
				var err error
				p := vfGuard(func() {
					switch op {
					case "save":
						err = s.SaveState(k, blob)
					case "delete":
						err = s.DeleteState(k)
					case "load":
						var b []byte
						var ok bool
						b, ok, err = s.LoadState(k)
						if ok {
							ret.Res = []string{vfLinName(b)}
						} else {
							ret.Res = []string{"absent"}
						}
					case "list":
						ret.Res, err = s.ListKeys()
						sort.Strings(ret.Res)
						if ret.Res == nil {
							ret.Res = []string{}
						}
					}
				})
				if p != "" {
					r.fail(nil, p, nil, "%s store: panic in %s", be, op)
				}
				if err != nil {
					ret.Err = err.Error()
					if !shared || op == "load" || op == "list" {
						r.fail(nil, ret.Err, nil, "%s store: concurrent %s fails (clients share keys: %v): %v", be, op, shared, err)
					}
				}
				log(ret)
			}
		}()
	}
	close(start)
	wg.Wait()
	return tr
}
