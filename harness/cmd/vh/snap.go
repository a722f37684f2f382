package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
	stfs "github.com/pojntfx/stfs/pkg/fs"
	"github.com/spf13/afero"
)

// Node is what a user can observe of one entry.
type Node struct {
	Dir   bool
	Size  int64
	Mode  os.FileMode // permission, setuid, setgid and sticky bits
	UID   int
	GID   int
	MTime int64
	ATime int64
	CTime int64
	Data  []byte
	Err   string // error while reading content
}

func (n *Node) String() string {
	k := "file"
	if n.Dir {
		k = "dir"
	}
	s := fmt.Sprintf("%s size=%d mode=%o uid=%d gid=%d mtime=%d atime=%d ctime=%d", k, n.Size, n.Mode, n.UID, n.GID, n.MTime, n.ATime, n.CTime)
	if !n.Dir {
		s += fmt.Sprintf(" content=%s", brief(n.Data))
	}
	if n.Err != "" {
		s += " readerr=" + n.Err
	}
	return s
}

func brief(b []byte) string {
	if len(b) <= 12 {
		return fmt.Sprintf("%q", b)
	}
	return fmt.Sprintf("%q..(%d bytes, h=%08x)", b[:8], len(b), uint32(strSeed(string(b))))
}

type Snap map[string]*Node

type snapOpts struct {
	links  map[string]bool // symbolic links, below which the walk doesn't go
	noData bool
	root   string // default "/"
}

func infoNode(fi os.FileInfo) *Node {
	n := &Node{Dir: fi.IsDir(), Size: fi.Size(), Mode: fi.Mode() & os.FileMode(chmodBits), MTime: tns(fi.ModTime())}
	if st, ok := fi.Sys().(*stfs.Stat); ok && st != nil {
		n.UID, n.GID = int(st.Uid), int(st.Gid)
		n.ATime, n.CTime = st.Atim.Nano(), st.Ctim.Nano()
	}
	if n.Dir {
		n.Size = 0
	}
	return n
}

func tns(t time.Time) int64 {
	if t.IsZero() {
		return -1 << 62
	}
	return t.UnixNano()
}

// Snapshot walks fs from the root through the public filesystem API. It also enforces the local
// consistency a walk needs (listed names can be looked up); any failure is reported as an error.
func Snapshot(fs afero.Fs, o snapOpts) (Snap, error) {
	s := Snap{}
	root := o.root
	if root == "" {
		root = "/"
	}
	fi, err := fs.Stat(root)
	if err != nil {
		return nil, fmt.Errorf("stat %q: %w", root, err)
	}
	if !fi.IsDir() {
		return nil, fmt.Errorf("root %q is not a directory", root)
	}
	s["/"] = infoNode(fi)
	if err := walk(fs, root, "/", s, o, 0); err != nil {
		return s, err
	}
	return s, nil
}

func walk(fs afero.Fs, dir, key string, s Snap, o snapOpts, depth int) error {
	if depth > 40 || len(s) > 20000 {
		return fmt.Errorf("listing does not terminate at %q", dir)
	}
	infos, err := listDir(fs, dir)
	if err != nil {
		return fmt.Errorf("list %q: %w", dir, err)
	}
	for _, li := range infos {
		name := li.Name()
		if name == "" || name == "." || name == "/" || strings.Contains(name, "/") {
			return fmt.Errorf("directory %q lists itself or a path: %q", dir, name)
		}
		p := path.Join(dir, name)
		k := path.Join(key, name)
		if _, dup := s[k]; dup {
			return fmt.Errorf("directory %q lists %q more than once", dir, name)
		}
		fi, err := fs.Stat(p)
		if err != nil {
			return fmt.Errorf("stat of listed %q: %w", p, err)
		}
		n := infoNode(fi)
		if fi.Name() != name {
			return fmt.Errorf("stat of %q reports name %q", p, fi.Name())
		}
		if l := infoNode(li); l.Dir != n.Dir || l.Size != n.Size || l.Mode != n.Mode || l.MTime != n.MTime || l.UID != n.UID || l.GID != n.GID {
			return fmt.Errorf("listing of %q disagrees with stat: %v vs %v", p, l, n)
		}
		s[k] = n
		if n.Dir && o.links[k] {
			continue
		}
		if n.Dir {
			if err := walk(fs, p, k, s, o, depth+1); err != nil {
				return err
			}
		} else if !o.noData {
			b, err := ReadAll(fs, p)
			n.Data = b
			if err != nil {
				n.Err = err.Error()
			}
		}
	}
	return nil
}

func listDir(fs afero.Fs, dir string) ([]os.FileInfo, error) {
	f, err := fs.Open(dir)
	if err != nil {
		return nil, err
	}
	infos, err := f.Readdir(-1)
	cerr := f.Close()
	if err != nil {
		return nil, err
	}
	return infos, cerr
}

var errReadTooLong = errors.New("read does not end")

// ReadAll reads a whole file through a fresh handle.
func ReadAll(fs afero.Fs, p string) ([]byte, error) {
	f, err := fs.Open(p)
	if err != nil {
		return nil, fmt.Errorf("open: %w", err)
	}
	b, err := readHandle(f)
	if cerr := f.Close(); err == nil && cerr != nil {
		err = fmt.Errorf("close: %w", cerr)
	}
	return b, err
}

func readHandle(f io.Reader) ([]byte, error) {
	out := []byte{}
	buf := make([]byte, 32<<10)
	zero := 0
	for {
		n, err := f.Read(buf)
		if n > 0 {
			out = append(out, buf[:n]...)
			zero = 0
		} else {
			zero++
		}
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		if zero > 100 || len(out) > 256<<20 {
			return out, errReadTooLong
		}
	}
}

func (s Snap) keys() []string {
	ks := make([]string, 0, len(s))
	for k := range s {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (s Snap) String() string {
	var b strings.Builder
	for _, k := range s.keys() {
		fmt.Fprintf(&b, "  %q %v\n", k, s[k])
	}
	return b.String()
}

// diffSnap compares two observations; ignore (may be nil) lets the caller skip fields per entry.
func diffSnap(a, b Snap, an, bn string, eq func(k string, x, y *Node) string) string {
	var out []string
	for _, k := range a.keys() {
		y, ok := b[k]
		if !ok {
			out = append(out, fmt.Sprintf("%q (%v) is in %s but not in %s", k, a[k], an, bn))
			continue
		}
		if eq == nil {
			eq = nodeDiff
		}
		if d := eq(k, a[k], y); d != "" {
			out = append(out, fmt.Sprintf("%q differs (%s): %s has %v, %s has %v", k, d, an, a[k], bn, y))
		}
	}
	for _, k := range b.keys() {
		if _, ok := a[k]; !ok {
			out = append(out, fmt.Sprintf("%q (%v) is in %s but not in %s", k, b[k], bn, an))
		}
	}
	if len(out) > 4 {
		out = append(out[:4], fmt.Sprintf("... %d more", len(out)-4))
	}
	return strings.Join(out, "; ")
}

func nodeDiff(k string, x, y *Node) string {
	switch {
	case x.Dir != y.Dir:
		return "kind"
	case x.Size != y.Size:
		return "size"
	case x.Mode != y.Mode:
		return "mode"
	case x.UID != y.UID || x.GID != y.GID:
		return "owner"
	case x.MTime != y.MTime:
		return "mtime"
	case x.ATime != y.ATime:
		return "atime"
	case x.CTime != y.CTime:
		return "ctime"
	case x.Err != y.Err:
		return "read error"
	case string(x.Data) != string(y.Data):
		return "content"
	}
	return ""
}

// Row is the user visible part of an index row (inventory).
type Row struct {
	Name, Link   string
	Type         int64
	Size, Mode   int64
	UID, GID     int64
	Uname, Gname string
	MT, AT, CT   int64
	Rec, Blk     int64
	LRec, LBlk   int64
	Deleted      int64
}

func rowOf(h *config.Header) Row {
	return Row{h.Name, h.Linkname, h.Typeflag, h.Size, h.Mode, h.UID, h.Gid, h.Uname, h.Gname,
		tns(h.Modtime), tns(h.Accesstime), tns(h.Changetime), h.Record, h.Block, h.Lastknownrecord, h.Lastknownblock, h.Deleted}
}
