package main

import (
	"io/fs"
	"os"
	"path/filepath"
	"strings"
)

// A Box is an unprivileged user with a home, a temporary directory and caches
// in the scratch directory.  Code that removes or overwrites files is run as
// this user, so that a fault in it reaches nothing else.
type Box struct {
	Uid  int // 0 if the check itself does not run as root
	Top  string
	Home string
	Tmp  string
	Env  []string
}

func (r *Run) newBox() *Box {
	b := &Box{Top: r.tmp("box")}
	if os.Geteuid() == 0 {
		b.Uid = 65534
	}
	// The user must be able to reach the scratch directory.
	r.must(os.Chmod(r.Scratch, 0o711))
	r.must(os.Chmod(b.Top, 0o755))
	mk := func(n string) string {
		d := filepath.Join(b.Top, n)
		r.must(os.MkdirAll(d, 0o755))
		return d
	}
	b.Home, b.Tmp = mk("home"), mk("tmp")
	mk("home/.config/go/telemetry")
	r.must(os.WriteFile(filepath.Join(b.Home, ".config/go/telemetry/mode"), []byte("off 2024-01-01"), 0o644))
	b.Env = []string{"HOME=" + b.Home, "TMPDIR=" + b.Tmp, "GOCACHE=" + mk("gocache"), "GOPATH=" + mk("gopath"), "GOMODCACHE=" + mk("gopath/pkg/mod"), "CGO_ENABLED=0", "CAPSLOCKTOOLSTMPDIR=", "XDG_CONFIG_HOME=", "XDG_CACHE_HOME="}
	b.give(r, b.Top)
	if b.Uid != 0 {
		if res := runCmd(CmdOpt{Dir: b.Top, As: b}, r.CLI, "-help"); !strings.Contains(res.Err, "-packages") {
			r.inconclusive("cannot run as an unprivileged user: %s", clip(res.Err, 300))
		}
	}
	return b
}

// give makes the user the owner of a tree.
func (b *Box) give(r *Run, dir string) {
	if b.Uid == 0 {
		return
	}
	r.must(filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		return os.Lchown(p, b.Uid, b.Uid)
	}))
}

// dir makes a directory that belongs to the user.
func (b *Box) dir(r *Run, prefix string) string {
	d, err := os.MkdirTemp(b.Top, prefix+"-")
	r.must(err)
	r.must(os.Chmod(d, 0o755))
	b.give(r, d)
	return d
}
