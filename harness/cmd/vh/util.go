package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"github.com/pojntfx/stfs/pkg/recovery"
	"github.com/spf13/afero"
)

type bufWC struct {
	bytes.Buffer
	closed int
}

func (b *bufWC) Close() error { b.closed++; return nil }

// restored is one thing a restore call wrote.
type restored struct {
	Path string
	Mode os.FileMode
	Dir  bool
	buf  *bufWC
}

// restoreAll restores from through the archive interface into memory.
func restoreAll(e *Env, from, to string, flatten bool) ([]restored, error) {
	var out []restored
	err := e.R.Restore(
		func(p string, m os.FileMode) (io.WriteCloser, error) {
			b := &bufWC{}
			out = append(out, restored{p, m, false, b})
			return b, nil
		},
		func(p string, m os.FileMode) error {
			out = append(out, restored{p, m, true, nil})
			return nil
		},
		from, to, flatten)
	return out, err
}

// restoreFile restores exactly one regular file and returns its bytes.
func restoreFile(e *Env, p string) ([]byte, error) {
	rs, err := restoreAll(e, p, "out", true)
	if err != nil {
		return nil, err
	}
	for _, r := range rs {
		if !r.Dir {
			return r.buf.Bytes(), nil
		}
	}
	return nil, fmt.Errorf("nothing was restored")
}

// fetchAt fetches the member at a tape position.
func fetchAt(e *Env, rec, b int) ([]byte, bool, error) {
	reader, err := e.BE.GetReader()
	if err != nil {
		return nil, false, err
	}
	defer e.BE.CloseReader()
	var buf *bufWC
	dir := false
	err = recovery.Fetch(reader, e.BE.MagneticTapeIO, e.Pipes, e.RC,
		func(p string, m os.FileMode) (io.WriteCloser, error) { buf = &bufWC{}; return buf, nil },
		func(p string, m os.FileMode) error { dir = true; return nil },
		rec, b, "out", false, nil)
	if err != nil {
		return nil, dir, err
	}
	if buf == nil {
		return nil, dir, nil
	}
	return buf.Bytes(), dir, nil
}

// observe lists everything visible below the root plus direct lookups of extra paths, tolerating
// entries which cannot be looked up: the result is text, for comparing two instances.
func observe(fs afero.Fs, extra []string) map[string]string {
	o := map[string]string{}
	seen := map[string]bool{}
	var visit func(dir string, depth int)
	look := func(p string) {
		if seen[p] {
			return
		}
		seen[p] = true
		fi, err := fs.Stat(p)
		o["stat "+p] = infoText(fi, err)
		if err == nil && !fi.IsDir() {
			b, err := ReadAll(fs, p)
			o["read "+p] = fmt.Sprintf("%s err=%v", brief(b), err != nil)
		}
		if l, ok := fs.(afero.Lstater); ok {
			fi, _, err := l.LstatIfPossible(p)
			o["lstat "+p] = infoText(fi, err)
		}
		if l, ok := fs.(afero.LinkReader); ok {
			t, err := l.ReadlinkIfPossible(p)
			o["readlink "+p] = fmt.Sprintf("%q err=%v", t, err != nil)
		}
	}
	visit = func(dir string, depth int) {
		if depth > 12 {
			return
		}
		infos, err := listDir(fs, dir)
		var names []string
		for _, i := range infos {
			names = append(names, infoText(i, nil))
		}
		sort.Strings(names)
		o["list "+dir] = fmt.Sprintf("err=%v %s", err != nil, strings.Join(names, " | "))
		for _, i := range infos {
			p := path.Join(dir, i.Name())
			if seen[p] {
				continue
			}
			look(p)
			if i.IsDir() {
				visit(p, depth+1)
			}
		}
	}
	look("/")
	visit("/", 0)
	for _, p := range extra {
		look(p)
	}
	return o
}

func infoText(fi os.FileInfo, err error) string {
	if err != nil {
		return "error"
	}
	n := infoNode(fi)
	return fmt.Sprintf("%q %v mode=%v", fi.Name(), n, fi.Mode())
}

func diffText(a, b map[string]string, an, bn string) string {
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if a[k] != b[k] {
			return fmt.Sprintf("%s: %s has %q, %s has %q", k, an, a[k], bn, b[k])
		}
	}
	return ""
}

// visibleRow is what the inventory shows of a row, without positions.
func visibleRow(r Row) Row {
	r.Name = mclean(r.Name)
	r.Rec, r.Blk, r.LRec, r.LBlk, r.Deleted = 0, 0, 0, 0, 0
	return r
}

func diffRows(a, b map[string]Row, an, bn string, pos bool) string {
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		x, ok := a[k]
		y, ok2 := b[k]
		if !ok || !ok2 {
			return fmt.Sprintf("inventory entry %q: in %s %v, in %s %v", k, an, ok, bn, ok2)
		}
		vx, vy := visibleRow(x), visibleRow(y)
		if pos {
			vx.Rec, vx.Blk, vy.Rec, vy.Blk = x.Rec, x.Blk, y.Rec, y.Blk
		}
		if vx != vy {
			return fmt.Sprintf("inventory entry %q: %s has %+v, %s has %+v", k, an, vx, bn, vy)
		}
	}
	return ""
}

func copyFile(src, dst string) {
	b, err := os.ReadFile(src)
	if err != nil {
		harnessf("copy: %v", err)
	}
	if err := os.WriteFile(dst, b, 0o644); err != nil {
		harnessf("copy: %v", err)
	}
}

func writeFile(p string, b []byte) {
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		harnessf("write: %v", err)
	}
	if err := os.WriteFile(p, b, 0o644); err != nil {
		harnessf("write: %v", err)
	}
}

// mustSnap takes an observation and fails the case when the walk is inconsistent.
func mustSnap(fs afero.Fs, what string) Snap {
	s, err := Snapshot(fs, snapOpts{})
	if err != nil {
		failf("%s: %v", what, err)
	}
	return s
}
