package lens

import (
	"archive/zip"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"testing"
)

// vfProxyModule adds a module version to a module proxy made of files.
func vfProxyModule(t *testing.T, proxy, path, version string, files map[string]string) {
	dir := filepath.Join(proxy, filepath.FromSlash(path), "@v")
	vfMust(t, os.MkdirAll(dir, 0755))
	vfMust(t, os.WriteFile(filepath.Join(dir, version+".info"), []byte(fmt.Sprintf(`{"Version":%q,"Time":"2024-01-02T03:04:05Z"}`, version)), 0644))
	vfMust(t, os.WriteFile(filepath.Join(dir, version+".mod"), []byte(files["go.mod"]), 0644))
	list, err := os.OpenFile(filepath.Join(dir, "list"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	vfMust(t, err)
	_, err = list.WriteString(version + "\n")
	vfMust(t, err)
	vfMust(t, list.Close())
	fh, err := os.Create(filepath.Join(dir, version+".zip"))
	vfMust(t, err)
	zw := zip.NewWriter(fh)
	var names []string
	for name := range files {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		w, err := zw.Create(path + "@" + version + "/" + name)
		vfMust(t, err)
		_, err = w.Write([]byte(files[name]))
		vfMust(t, err)
	}
	vfMust(t, zw.Close())
	vfMust(t, fh.Close())
}

// vfGoEnv lets the go command of this process and its children work offline.
func vfGoEnv(proxy string) {
	for k, v := range map[string]string{
		"GOPROXY": "file://" + proxy, "GONOSUMDB": "*", "GONOSUMCHECK": "1", "GONOSUM": "*", "GOFLAGS": "-modcacherw", "GOSUMDB": "off",
		"GOTOOLCHAIN": "local", "GOWORK": "", "GOCACHE": os.Getenv("VF_GOCACHE"), "GOENV": "off", "GOTELEMETRY": "off",
	} {
		_ = os.Setenv(k, v)
	}
}

func vfGo(t *testing.T, dir string, env []string, args ...string) {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	if out, err := cmd.CombinedOutput(); err != nil {
		t.Fatalf("go %v in %s: %v\n%s", args, dir, err, out)
	}
}

func vfWriteTree(t *testing.T, root string, files map[string]string) {
	for name, text := range files {
		p := filepath.Join(root, filepath.FromSlash(name))
		vfMust(t, os.MkdirAll(filepath.Dir(p), 0755))
		vfMust(t, os.WriteFile(p, []byte(text), 0644))
	}
}
