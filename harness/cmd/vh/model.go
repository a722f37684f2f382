package main

import (
	"io"
	"os"
	"path"
	"sort"
	"strings"
)

// The reference: a flat map of clean absolute paths, with the semantics of an ordinary hierarchical
// filesystem (the operating system's, which the repository's tests also use as their reference).

type MNode struct {
	Dir  bool
	Mode uint32
	UID  int
	GID  int
	// known is false while a value is not determined by the calls made (creation and write times)
	MT, AT           int64
	MTKnown, ATKnown bool
	OwnerKnown       bool
	Since            int64 // not known, but set by a call at about this time
	Data             []byte
}

type Model struct{ N map[string]*MNode }

func NewModel() *Model {
	return &Model{N: map[string]*MNode{"/": {Dir: true, Mode: 0777}}}
}

func (m *Model) Clone() *Model {
	n := &Model{N: make(map[string]*MNode, len(m.N))}
	for k, v := range m.N {
		c := *v
		n.N[k] = &c // Data slices are never modified in place
	}
	return n
}

func mclean(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/" + p
	}
	return path.Clean(p)
}

func under(p, dir string) bool {
	if dir == "/" {
		return p != "/"
	}
	return strings.HasPrefix(p, dir+"/")
}

func (m *Model) children(p string) []string {
	var out []string
	for k := range m.N {
		if k != "/" && path.Dir(k) == p {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func (m *Model) subtree(p string) []string {
	out := []string{}
	for k := range m.N {
		if k == p || under(k, p) {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// outcome of a model call
type mres int

const (
	mOK mres = iota
	mErr
	mAny // unspecified: either outcome; the caller resynchronises or excludes such calls
)

// parentState: nil if the parent exists and every ancestor is a directory.
func (m *Model) parentOK(p string) bool {
	d := m.N[path.Dir(p)]
	return d != nil && d.Dir
}

func (m *Model) Mkdir(p string, mode uint32) mres {
	p = mclean(p)
	if m.N[p] != nil || !m.parentOK(p) {
		return mErr
	}
	m.N[p] = &MNode{Dir: true, Mode: mode & chmodBits}
	return mOK
}

func (m *Model) MkdirAll(p string, mode uint32) mres {
	p = mclean(p)
	if p == "/" {
		return mOK
	}
	parts := strings.Split(p[1:], "/")
	cur := ""
	for _, s := range parts {
		cur += "/" + s
		if n := m.N[cur]; n != nil && !n.Dir {
			return mErr
		}
	}
	cur = ""
	for _, s := range parts {
		cur += "/" + s
		if m.N[cur] == nil {
			m.N[cur] = &MNode{Dir: true, Mode: mode & chmodBits}
		}
	}
	return mOK
}

func (m *Model) Remove(p string) mres {
	p = mclean(p)
	n := m.N[p]
	if p == "/" {
		return mAny
	}
	if n == nil || (n.Dir && len(m.children(p)) > 0) {
		return mErr
	}
	delete(m.N, p)
	return mOK
}

func (m *Model) RemoveAll(p string) mres {
	p = mclean(p)
	if p == "/" {
		return mAny
	}
	// below a regular file: the OS reports ENOTDIR, others nil
	for d := path.Dir(p); d != "/"; d = path.Dir(d) {
		if n := m.N[d]; n != nil && !n.Dir {
			return mAny
		}
	}
	for _, k := range m.subtree(p) {
		delete(m.N, k)
	}
	return mOK
}

func (m *Model) Rename(o, n string) mres {
	o, n = mclean(o), mclean(n)
	src := m.N[o]
	if src == nil || o == "/" || n == "/" {
		return mErr
	}
	if o == n {
		return mOK
	}
	if under(n, o) || !m.parentOK(n) {
		return mErr
	}
	if under(o, n) { // onto an own ancestor: never empty, or not a directory
		return mErr
	}
	if dst := m.N[n]; dst != nil {
		if dst.Dir != src.Dir {
			return mErr
		}
		if dst.Dir && len(m.children(n)) > 0 {
			return mErr
		}
		delete(m.N, n)
	}
	for _, k := range m.subtree(o) {
		m.N[n+k[len(o):]] = m.N[k]
		delete(m.N, k)
	}
	return mOK
}

func (m *Model) Chmod(p string, mode uint32) mres {
	n := m.N[mclean(p)]
	if n == nil {
		return mErr
	}
	n.Mode = mode & chmodBits
	return mOK
}

func (m *Model) Chown(p string, uid, gid int) mres {
	n := m.N[mclean(p)]
	if n == nil {
		return mErr
	}
	n.UID, n.GID, n.OwnerKnown = uid, gid, true
	return mOK
}

func (m *Model) Chtimes(p string, at, mt int64) mres {
	n := m.N[mclean(p)]
	if n == nil {
		return mErr
	}
	n.MT, n.AT, n.MTKnown, n.ATKnown = mt, at, true, true
	return mOK
}

// Open returns whether the open succeeds and creates / truncates accordingly. Truncation by O_TRUNC is
// applied by the caller (MHandle), since STFS publishes content when the handle is closed.
func (m *Model) Open(p string, flag int, perm uint32) (mres, bool) {
	p = mclean(p)
	n := m.N[p]
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	write := acc != os.O_RDONLY
	if n == nil {
		if flag&os.O_CREATE == 0 || !m.parentOK(p) {
			return mErr, false
		}
		m.N[p] = &MNode{Mode: perm & chmodBits}
		return mOK, true
	}
	if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return mErr, false
	}
	if n.Dir && write {
		return mErr, false
	}
	return mOK, false
}

// MHandle is the byte array with a cursor.
type MHandle struct {
	B      []byte
	Pos    int64
	Read   bool
	Write  bool
	Append bool
	Dirty  bool
	Wrote  bool // bytes, not only a truncation
}

func newMHandle(data []byte, flag int, wpr bool) *MHandle {
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	h := &MHandle{B: append([]byte{}, data...)}
	h.Read = acc == os.O_RDONLY || acc == os.O_RDWR || (acc == os.O_WRONLY && wpr)
	h.Write = acc == os.O_WRONLY || acc == os.O_RDWR
	h.Append = flag&os.O_APPEND != 0
	if h.Write && flag&os.O_TRUNC != 0 {
		h.B = []byte{}
		h.Dirty = true
	}
	return h
}

func (h *MHandle) write(p []byte, at int64) {
	if len(p) == 0 {
		return
	}
	h.Dirty, h.Wrote = true, true
	if n := at + int64(len(p)); n > int64(len(h.B)) {
		nb := make([]byte, n)
		copy(nb, h.B)
		h.B = nb
	} else {
		h.B = append([]byte{}, h.B...)
	}
	copy(h.B[at:], p)
}

func (h *MHandle) seekTo(off int64, wh int) (int64, bool) {
	var n int64
	switch wh {
	case io.SeekStart:
		n = off
	case io.SeekCurrent:
		n = h.Pos + off
	case io.SeekEnd:
		n = int64(len(h.B)) + off
	}
	if n < 0 {
		return 0, false
	}
	h.Pos = n
	return n, true
}

func (h *MHandle) Truncate(n int64) bool {
	if n < 0 {
		return false
	}
	h.Dirty = true
	if n <= int64(len(h.B)) {
		h.B = append([]byte{}, h.B[:n]...)
	} else {
		nb := make([]byte, n)
		copy(nb, h.B)
		h.B = nb
	}
	return true
}
