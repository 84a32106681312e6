package main

import (
	"archive/zip"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// A ProxyMod is one version of a module served by a local module proxy.
type ProxyMod struct {
	Path, Version string
	Files         map[string]string // includes go.mod
}

// modProxy writes a module proxy directory and returns the environment that
// makes the go command use it, with a module cache of its own.
func (r *Run) modProxy(mods []ProxyMod, goflags string) []string {
	dir := r.tmp("proxy")
	lists := map[string]string{}
	for _, m := range mods {
		esc := escapeModPath(m.Path)
		v := filepath.Join(dir, esc, "@v")
		r.must(os.MkdirAll(v, 0o755))
		gomod, ok := m.Files["go.mod"]
		if !ok {
			gomod = "module " + m.Path + "\n"
		}
		r.must(os.WriteFile(filepath.Join(v, m.Version+".mod"), []byte(gomod), 0o644))
		r.must(os.WriteFile(filepath.Join(v, m.Version+".info"), []byte(fmt.Sprintf(`{"Version":%q,"Time":%q}`, m.Version, time.Date(2024, 1, 2, 3, 4, 5, 0, time.UTC).Format(time.RFC3339))), 0o644))
		f, err := os.Create(filepath.Join(v, m.Version+".zip"))
		r.must(err)
		z := zip.NewWriter(f)
		for _, n := range sortedKeys(m.Files) {
			w, err := z.Create(m.Path + "@" + m.Version + "/" + n)
			r.must(err)
			_, err = w.Write([]byte(m.Files[n]))
			r.must(err)
		}
		r.must(z.Close())
		r.must(f.Close())
		lists[v] += m.Version + "\n"
	}
	for v, l := range lists {
		r.must(os.WriteFile(filepath.Join(v, "list"), []byte(l), 0o644))
	}
	cache := r.tmp("modcache")
	if goflags == "" {
		goflags = "-mod=mod"
	}
	return []string{"GOPROXY=file://" + dir, "GOMODCACHE=" + cache, "GONOSUMDB=*", "GONOSUMCHECK=1", "GOSUMDB=off", "GOPRIVATE=", "GONOPROXY=none", "GOFLAGS=" + goflags + " -modcacherw"}
}

// escapeModPath escapes capital letters the way the proxy protocol does.
func escapeModPath(p string) string {
	var b strings.Builder
	for _, c := range p {
		if 'A' <= c && c <= 'Z' {
			b.WriteByte('!')
			c += 'a' - 'A'
		}
		b.WriteRune(c)
	}
	return b.String()
}
