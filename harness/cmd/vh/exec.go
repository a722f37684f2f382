package main

import (
	"archive/tar"
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/spf13/afero"
)

func timeNS(ns int64) time.Time { return time.Unix(0, ns) }

// runHandle applies handle operations to f and to the reference h, comparing every outcome.
// It returns a non-empty description on the first disagreement.
func runHandle(f afero.File, h *MHandle, ops []HOp, r *Result) string {
	for i, o := range ops {
		currentCall = "File." + o.K
		if d := handleStep(f, h, o, r); d != "" {
			return fmt.Sprintf("handle op %d %s: %s", i, describeHOp(o), d)
		}
	}
	return ""
}

func describeHOp(o HOp) string {
	switch o.K {
	case "read":
		return fmt.Sprintf("Read(%d)", o.N)
	case "readat":
		return fmt.Sprintf("ReadAt(%d, %d)", o.N, o.Off)
	case "seek":
		return fmt.Sprintf("Seek(%d, %d)", o.Off, o.Wh)
	case "write":
		return fmt.Sprintf("Write(%d)", o.Data.N)
	case "writestr":
		return fmt.Sprintf("WriteString(%d)", o.Data.N)
	case "writeat":
		return fmt.Sprintf("WriteAt(%d, %d)", o.Data.N, o.Off)
	case "trunc":
		return fmt.Sprintf("Truncate(%d)", o.Off)
	case "do":
		return opString(*o.Op)
	}
	return o.K
}

func handleStep(f afero.File, h *MHandle, o HOp, r *Result) string {
	r.Checks++
	switch o.K {
	case "read", "readat":
		if !h.Read {
			n, err := 0, error(nil)
			if o.K == "read" {
				n, err = f.Read(make([]byte, o.N+1))
			} else {
				n, err = f.ReadAt(make([]byte, o.N+1), o.Off)
			}
			if err == nil || n > 0 {
				return fmt.Sprintf("succeeded (n=%d) on a handle without read permission", n)
			}
			return ""
		}
		buf := make([]byte, o.N)
		pos := h.Pos
		if o.K == "readat" {
			pos = o.Off
		}
		avail := int64(0)
		if pos < int64(len(h.B)) {
			avail = int64(len(h.B)) - pos
		}
		want := int64(o.N)
		if want > avail {
			want = avail
		}
		if o.K == "readat" {
			n, err := f.ReadAt(buf, o.Off)
			if o.N == 0 {
				return ""
			}
			if err != nil && err != io.EOF {
				return fmt.Sprintf("error %v, reference reads %d bytes", err, want)
			}
			if int64(n) != want {
				return fmt.Sprintf("n=%d err=%v, reference reads %d of %d bytes at %d", n, err, want, o.N, pos)
			}
			if want < int64(o.N) && err != io.EOF {
				return fmt.Sprintf("short positioned read of %d/%d bytes reports err=%v instead of EOF", n, o.N, err)
			}
			if want == int64(o.N) && err != nil && pos+want < int64(len(h.B)) {
				return "EOF reported before the end"
			}
			if n > 0 && string(buf[:n]) != string(h.B[pos:pos+want]) {
				return fmt.Sprintf("returned %s, reference has %s", brief(buf[:n]), brief(h.B[pos:pos+want]))
			}
			return ""
		}
		// sequential read: a short read is allowed by io.Reader; collect until the requested amount
		got := int64(0)
		eof := false
		for tries := 0; got < int64(o.N) && !eof; tries++ {
			n, err := f.Read(buf[got:])
			if err != nil && err != io.EOF {
				return fmt.Sprintf("error %v after %d bytes, reference reads %d bytes", err, got, want)
			}
			if n < 0 || got+int64(n) > int64(o.N) {
				return fmt.Sprintf("count %d out of range", n)
			}
			got += int64(n)
			if err == io.EOF {
				eof = true
			}
			if got > want {
				return fmt.Sprintf("read %d bytes, reference has only %d", got, want)
			}
			if n == 0 && err == nil && tries > 16 {
				return "reads return 0 bytes without EOF"
			}
		}
		if got != want {
			return fmt.Sprintf("read %d bytes (eof=%v), reference reads %d of %d at %d", got, eof, want, o.N, pos)
		}
		if eof && pos+got < int64(len(h.B)) {
			return "EOF reported before the end"
		}
		if got > 0 && string(buf[:got]) != string(h.B[pos:pos+got]) {
			return fmt.Sprintf("returned %s, reference has %s", brief(buf[:got]), brief(h.B[pos:pos+got]))
		}
		h.Pos += got
	case "seek":
		pos, size := h.Pos, len(h.B)
		want, ok := h.seekTo(o.Off, o.Wh)
		got, err := f.Seek(o.Off, o.Wh)
		if !ok {
			if err == nil {
				return fmt.Sprintf("seek before the start succeeded with %d (cursor %d, size %d)", got, pos, size)
			}
			return ""
		}
		if err != nil {
			return fmt.Sprintf("error %v, reference returns %d", err, want)
		}
		if got != want {
			return fmt.Sprintf("returned %d, reference returns %d (cursor %d, size %d)", got, want, pos, size)
		}
	case "write", "writestr", "writeat":
		data := o.Data.Bytes()
		if len(data) == 0 && h.Append && o.K != "writeat" && h.Pos != int64(len(h.B)) {
			return "" // whether writing nothing moves an appending cursor is not settled
		}
		var n int
		var err error
		switch o.K {
		case "write":
			n, err = f.Write(data)
		case "writestr":
			n, err = f.WriteString(string(data))
		case "writeat":
			n, err = f.WriteAt(data, o.Off)
		}
		if !h.Write {
			if err == nil {
				return "succeeded on a handle without write permission"
			}
			return ""
		}
		if err != nil {
			return fmt.Sprintf("error %v, reference writes %d bytes", err, len(data))
		}
		if n != len(data) {
			return fmt.Sprintf("n=%d, reference writes %d", n, len(data))
		}
		if o.K == "writeat" {
			h.write(data, o.Off)
		} else {
			if h.Append {
				h.Pos = int64(len(h.B))
			}
			h.write(data, h.Pos)
			h.Pos += int64(len(data))
		}
	case "trunc":
		err := f.Truncate(o.Off)
		if !h.Write {
			if err == nil {
				return "succeeded on a handle without write permission"
			}
			return ""
		}
		if !h.Truncate(o.Off) {
			if err == nil {
				return "truncation to a negative size succeeded"
			}
			return ""
		}
		if err != nil {
			return fmt.Sprintf("error %v", err)
		}
	case "sync":
		if err := f.Sync(); err != nil {
			return fmt.Sprintf("error %v", err)
		}
	case "stat":
		fi, err := f.Stat()
		if err != nil {
			return fmt.Sprintf("error %v", err)
		}
		if fi.Size() != int64(len(h.B)) {
			return fmt.Sprintf("handle Stat reports size %d, reference has %d", fi.Size(), len(h.B))
		}
		if fi.IsDir() {
			return "handle Stat reports a directory"
		}
	}
	return ""
}

// step executes one operation against the system only.
type opOut struct {
	err  error
	path string
	note string
}

// sysOp runs op against fs without a reference; handle ops are executed blindly.
// It returns the error of the call (or the first error of a handle session).
func sysOp(e *Env, fs afero.Fs, op Op) (err error) {
	if os.Getenv("VH_DEBUG") != "" {
		defer func() {
			fmt.Fprintf(os.Stderr, "%s -> %v\n", opString(op), err)
			rows := rowsOf(e)
			for _, k := range sortedRowKeys(rows) {
				fmt.Fprintf(os.Stderr, "    %+v\n", rows[k])
			}
		}()
	}
	if e != nil {
		currentCall = fmt.Sprintf("%s %q %q", op.K, op.P, op.Q)
	}
	switch op.K {
	case "mkdir":
		return fs.Mkdir(op.P, os.FileMode(op.Mode))
	case "mkdirall":
		return fs.MkdirAll(op.P, os.FileMode(op.Mode))
	case "remove":
		return fs.Remove(op.P)
	case "removeall":
		return fs.RemoveAll(op.P)
	case "rename":
		return fs.Rename(op.P, op.Q)
	case "chmod":
		return fs.Chmod(op.P, os.FileMode(op.Mode))
	case "chown":
		return fs.Chown(op.P, op.UID, op.GID)
	case "chtimes":
		return fs.Chtimes(op.P, timeNS(op.T1), timeNS(op.T2))
	case "stat":
		_, err := fs.Stat(op.P)
		return err
	case "list":
		f, err := fs.Open(op.P)
		if err != nil {
			return err
		}
		_, err = f.Readdir(op.N)
		if cerr := f.Close(); err == nil {
			err = cerr
		}
		return err
	case "read":
		_, err := ReadAll(fs, op.P)
		return err
	case "symlink":
		return fs.(afero.Symlinker).SymlinkIfPossible(op.P, op.Q)
	case "readlink":
		_, err := fs.(afero.Symlinker).ReadlinkIfPossible(op.P)
		return err
	case "open", "create":
		var f afero.File
		if op.K == "create" {
			f, err = fs.Create(op.P)
		} else {
			f, err = fs.OpenFile(op.P, op.Flag, os.FileMode(op.Mode))
		}
		if err != nil {
			return err
		}
		for _, h := range op.H {
			currentCall = fmt.Sprintf("%s %q: %s", op.K, op.P, h.K)
			if h.K == "do" {
				if !conflicts(op.P, *h.Op) {
					_ = sysOp(e, fs, *h.Op)
				}
				continue
			}
			if herr := blindHandle(f, h); herr != nil && err == nil && herr != io.EOF {
				err = herr
			}
		}
		currentCall = fmt.Sprintf("%s %q: close", op.K, op.P)
		if cerr := f.Close(); err == nil {
			err = cerr
		}
		return err
	case "arch":
		return archiveOp(e, op.It, false, false)
	case "update":
		return archiveOp(e, op.It, true, op.N != 0)
	case "delete":
		return e.W.Delete(op.P)
	case "move":
		return e.W.Move(op.P, op.Q)
	case "restore":
		return e.R.Restore(
			func(string, os.FileMode) (io.WriteCloser, error) { return nopWC{io.Discard}, nil },
			func(string, os.FileMode) error { return nil },
			op.P, "", false)
	}
	harnessf("unknown op %q", op.K)
	return nil
}

type nopWC struct{ io.Writer }

func (nopWC) Close() error { return nil }

func blindHandle(f afero.File, o HOp) error {
	var err error
	switch o.K {
	case "read":
		_, err = f.Read(make([]byte, o.N))
	case "readat":
		_, err = f.ReadAt(make([]byte, o.N), o.Off)
	case "seek":
		_, err = f.Seek(o.Off, o.Wh)
	case "write":
		_, err = f.Write(o.Data.Bytes())
	case "writestr":
		_, err = f.WriteString(string(o.Data.Bytes()))
	case "writeat":
		_, err = f.WriteAt(o.Data.Bytes(), o.Off)
	case "trunc":
		err = f.Truncate(o.Off)
	case "sync":
		err = f.Sync()
	case "stat":
		_, err = f.Stat()
	}
	return err
}

// memFile is an in-memory source for archive and update calls.
type memFile struct {
	b   []byte
	pos int64
}

func (m *memFile) Read(p []byte) (int, error) {
	if m.pos >= int64(len(m.b)) {
		return 0, io.EOF
	}
	n := copy(p, m.b[m.pos:])
	m.pos += int64(n)
	return n, nil
}

func (m *memFile) Seek(off int64, wh int) (int64, error) {
	switch wh {
	case io.SeekStart:
		m.pos = off
	case io.SeekCurrent:
		m.pos += off
	case io.SeekEnd:
		m.pos = int64(len(m.b)) + off
	}
	if m.pos < 0 {
		m.pos = 0
		return 0, errors.New("negative position")
	}
	return m.pos, nil
}

func (m *memFile) Close() error { return nil }

// Sources do not all deliver their bytes in the same pieces.
type shortFile struct {
	memFile
	max int
	i   int
}

func (s *shortFile) Read(p []byte) (int, error) {
	s.i++
	if n := 1 + (s.max*(1+s.i%5))/5; len(p) > n {
		p = p[:n]
	}
	return s.memFile.Read(p)
}

// eofFile reports the end together with the last bytes.
type eofFile struct{ memFile }

func (s *eofFile) Read(p []byte) (int, error) {
	n, err := s.memFile.Read(p)
	if err == nil && s.pos >= int64(len(s.b)) {
		err = io.EOF
	}
	return n, err
}

// wtFile hands everything over in one piece if asked to.
type wtFile struct{ memFile }

func (s *wtFile) WriteTo(w io.Writer) (int64, error) {
	if s.pos >= int64(len(s.b)) {
		return 0, nil
	}
	n, err := w.Write(s.b[s.pos:])
	s.pos += int64(n)
	return int64(n), err
}

func sourceOf(d *Data) io.ReadSeekCloser {
	b := d.Bytes()
	if d == nil {
		return &memFile{b: b}
	}
	switch d.Seed % 8 {
	case 1:
		return &shortFile{memFile: memFile{b: b}, max: 200 + len(b)/50}
	case 2:
		return &shortFile{memFile: memFile{b: b}, max: 40000}
	case 3:
		return &eofFile{memFile{b: b}}
	case 4:
		return &wtFile{memFile{b: b}}
	}
	return &memFile{b: b}
}

// itemInfo is the os.FileInfo of an archive member.
type itemInfo struct {
	it Item
	n  int64
}

func (i itemInfo) Name() string { return path.Base(i.it.Path) }
func (i itemInfo) Size() int64 {
	if i.it.Dir || i.it.Link != "" {
		return 0
	}
	return i.n
}
func (i itemInfo) Mode() os.FileMode {
	m := os.FileMode(i.it.Mode & chmodBits)
	if i.it.Dir {
		m |= os.ModeDir
	} else if i.it.Link != "" {
		m |= os.ModeSymlink
	}
	return m
}
func (i itemInfo) ModTime() time.Time { return timeNS(i.it.T) }
func (i itemInfo) IsDir() bool        { return i.it.Dir }
func (i itemInfo) Sys() interface{} {
	it := i.it
	if !it.Sys {
		return nil
	}
	h := &tar.Header{Uid: it.UID, Gid: it.GID, Uname: it.Uname, Gname: it.Gname, AccessTime: timeNS(it.AT), ChangeTime: timeNS(it.CT)}
	if it.Pax != "" {
		h.PAXRecords = map[string]string{"SCHILY.xattr.user.x": it.Pax}
	}
	return h
}

// genSys gives a member owners, further times and an extended attribute, as a local file has them.
func (it *Item) genSys(r *Rng, pct int) {
	if !r.P(pct) {
		return
	}
	it.Sys, it.UID, it.GID = true, genID(r), genID(r)
	it.Uname, it.Gname = pick(r, "", "user", "ü ser", "u=1\n"), pick(r, "", "group", "staff")
	it.AT, it.CT = genTime(r), genTime(r)
	if r.P(15) {
		it.Pax = pick(r, "1", "a=b", "ä", "x y")
	}
}

func (it Item) owner() (int, int) {
	if it.Sys {
		return it.UID, it.GID
	}
	return 0, 0
}

var errInjected = errors.New("injected fault")

func itemSource(items []Item) func() (config.FileConfig, error) {
	i := 0
	return func() (config.FileConfig, error) {
		if i >= len(items) {
			return config.FileConfig{}, io.EOF
		}
		it := items[i]
		i++
		data := it.Data.Bytes()
		return config.FileConfig{
			GetFile: func() (io.ReadSeekCloser, error) { return sourceOf(it.Data), nil },
			Info:    itemInfo{it, int64(len(data))},
			Path:    it.Path,
			Link:    it.Link,
		}, nil
	}
}

func archiveOver(e *Env, items []Item) error {
	_, err := e.W.Archive(itemSource(items), e.Cfg.level(), true, false)
	return err
}

func archiveOp(e *Env, items []Item, update, replace bool) error {
	src := itemSource(items)
	var err error
	if update {
		_, err = e.W.Update(src, e.Cfg.level(), replace, false)
	} else {
		_, err = e.W.Archive(src, e.Cfg.level(), false, false)
	}
	return err
}

// modelOp applies op to the reference and says whether it should succeed. For handle sessions it
// only covers the open; the session itself is compared by runHandle.
func modelOp(m *Model, op Op) mres {
	switch op.K {
	case "mkdir":
		return m.Mkdir(op.P, op.Mode)
	case "mkdirall":
		return m.MkdirAll(op.P, op.Mode)
	case "remove":
		return m.Remove(op.P)
	case "removeall":
		return m.RemoveAll(op.P)
	case "rename":
		return m.Rename(op.P, op.Q)
	case "chmod":
		return m.Chmod(op.P, op.Mode)
	case "chown":
		return m.Chown(op.P, op.UID, op.GID)
	case "chtimes":
		return m.Chtimes(op.P, op.T1, op.T2)
	case "stat":
		if m.N[mclean(op.P)] == nil {
			return mErr
		}
		return mOK
	case "list":
		if n := m.N[mclean(op.P)]; n == nil || !n.Dir {
			return mErr
		}
		return mOK
	case "read":
		if n := m.N[mclean(op.P)]; n == nil || n.Dir {
			return mErr
		}
		return mOK
	case "arch":
		for _, it := range op.It {
			p := mclean(it.Path)
			m.N[p] = &MNode{Dir: it.Dir, Mode: it.Mode & chmodBits, MT: it.T, MTKnown: true, Data: it.Data.Bytes(), OwnerKnown: true, AT: it.AT, ATKnown: it.Sys}
			m.N[p].UID, m.N[p].GID = it.owner()
		}
		return mOK
	case "update":
		for _, it := range op.It {
			n := m.N[mclean(it.Path)]
			if n == nil {
				continue
			}
			n.Mode, n.MT, n.MTKnown = it.Mode&chmodBits, it.T, true
			n.UID, n.GID = it.owner()
			n.OwnerKnown, n.AT, n.ATKnown = true, it.AT, it.Sys
			if op.N != 0 && !n.Dir {
				n.Data = it.Data.Bytes()
			}
		}
		return mOK
	case "delete":
		p := mclean(op.P)
		if m.N[p] == nil {
			return mErr
		}
		return m.RemoveAll(p)
	case "move":
		if mclean(op.P) == mclean(op.Q) {
			return mOK
		}
		return m.Rename(op.P, op.Q)
	case "restore":
		if m.N[mclean(op.P)] == nil {
			return mErr
		}
		return mOK
	}
	harnessf("model: unknown op %q", op.K)
	return mAny
}

// both runs op against the system and the reference and compares the outcome.
// On disagreement it fails the case.
func both(e *Env, fs afero.Fs, m *Model, op Op, i int, r *Result) (ok bool) {
	currentCall = fmt.Sprintf("op %d %s %q %q", i, op.K, op.P, op.Q)
	if op.K == "open" || op.K == "create" {
		return bothSession(e, fs, m, op, i, r)
	}
	before := m.Clone()
	want := modelOp(m, op)
	if want == mErr {
		m.N = before.N
	}
	err := sysOp(e, fs, op)
	r.Checks++
	if want == mOK && err != nil {
		failf("op %d %s: returned error %v, the reference succeeds", i, opString(op), err)
	}
	if want == mErr && err == nil {
		failf("op %d %s: succeeded, the reference fails", i, opString(op))
	}
	if want == mOK && (op.K == "mkdir" || op.K == "mkdirall") {
		for k, n := range m.N {
			if before.N[k] == nil {
				n.Since = time.Now().UnixNano()
			}
		}
	}
	if want == mOK {
		r.cls("ok:" + op.K)
	} else {
		r.cls("fail:" + op.K)
	}
	return want == mOK
}

func opString(op Op) string {
	s := fmt.Sprintf("%s(%q", op.K, op.P)
	if op.Q != "" {
		s += fmt.Sprintf(", %q", op.Q)
	}
	switch op.K {
	case "mkdir", "mkdirall", "chmod":
		s += fmt.Sprintf(", %#o", op.Mode)
	case "chown":
		s += fmt.Sprintf(", %d, %d", op.UID, op.GID)
	case "chtimes":
		s += fmt.Sprintf(", %d, %d", op.T1, op.T2)
	case "open":
		s += fmt.Sprintf(", %s, %#o", flagString(op.Flag), op.Mode)
	case "arch", "update", "overarch":
		for _, it := range op.It {
			n := 0
			if it.Data != nil {
				n = it.Data.N
			}
			s += fmt.Sprintf(" [%q dir=%v n=%d]", it.Path, it.Dir, n)
		}
		if op.K == "update" {
			s += fmt.Sprintf(" replace=%v", op.N != 0)
		}
	}
	s += ")"
	if len(op.H) > 0 {
		s += "{"
		for i, h := range op.H {
			if i > 0 {
				s += "; "
			}
			s += describeHOp(h)
		}
		s += "}"
	}
	return s
}

func flagString(f int) string {
	s := map[int]string{os.O_RDONLY: "RDONLY", os.O_WRONLY: "WRONLY", os.O_RDWR: "RDWR"}[f&3]
	for _, x := range []struct {
		b int
		s string
	}{{os.O_CREATE, "CREATE"}, {os.O_EXCL, "EXCL"}, {os.O_TRUNC, "TRUNC"}, {os.O_APPEND, "APPEND"}} {
		if f&x.b != 0 {
			s += "|" + x.s
		}
	}
	return s
}

const createFlags = os.O_RDWR | os.O_CREATE | os.O_TRUNC

func bothSession(e *Env, fs afero.Fs, m *Model, op Op, i int, r *Result) bool {
	flag, mode := op.Flag, op.Mode
	if op.K == "create" {
		flag, mode = createFlags, 0666
	}
	want, created := m.Open(op.P, flag, mode)
	var f afero.File
	var err error
	if op.K == "create" {
		f, err = fs.Create(op.P)
	} else {
		f, err = fs.OpenFile(op.P, flag, os.FileMode(mode))
	}
	r.Checks++
	if want == mOK && err != nil {
		failf("op %d %s: open returned error %v, the reference succeeds", i, opString(op), err)
	}
	if want == mErr && err == nil {
		failf("op %d %s: open succeeded, the reference fails", i, opString(op))
	}
	if err != nil {
		r.cls("fail:" + op.K)
		return false
	}
	r.cls("ok:" + op.K)
	n := m.N[mclean(op.P)]
	if created {
		n.Since = time.Now().UnixNano()
	}
	if n.Dir {
		currentCall = "close directory handle"
		if err := f.Close(); err != nil {
			failf("op %d %s: close of a directory handle: %v", i, opString(op), err)
		}
		return true
	}
	h := newMHandle(n.Data, flag, e.Cfg.WPR)
	timed := false // the times have been set while the handle was open: it's open which of the two is later
	publish := func() {
		if n := m.N[mclean(op.P)]; h.Dirty && n != nil {
			n.Data = h.B
			n.MTKnown, n.ATKnown, n.Since = false, false, 0
			if h.Wrote && !timed {
				n.Since = time.Now().UnixNano()
			}
			h.Dirty, h.Wrote = false, false
		}
	}
	for j, o := range op.H {
		if o.K == "do" { // another call while the handle is open
			if conflicts(op.P, *o.Op) {
				continue
			}
			r.cls("while open")
			timed = timed || o.Op.K == "chtimes" && mclean(o.Op.P) == mclean(op.P)
			both(e, fs, m, *o.Op, i, r)
			continue
		}
		if d := runHandle(f, h, []HOp{o}, r); d != "" {
			failf("op %d %s: handle op %d: %s", i, opString(op), j, d)
		}
		if o.K == "sync" {
			publish()
		}
	}
	currentCall = fmt.Sprintf("op %d close", i)
	if err := f.Close(); err != nil {
		failf("op %d %s: close: %v", i, opString(op), err)
	}
	publish()
	return true
}

// conflicts: a call which moves, removes or opens the entry an open handle belongs to (reference systems keep such
// handles working on the entry without a name, STFS publishes by name), or one that reads its unpublished content.
func conflicts(open string, op Op) bool {
	open = mclean(open)
	hit := func(p string) bool { p = mclean(p); return p == open || under(open, p) }
	switch op.K {
	case "mkdir", "mkdirall", "chmod", "chown", "chtimes", "stat", "list":
		return false
	case "read", "restore":
		return mclean(op.P) == open
	case "rename", "move":
		return hit(op.P) || hit(op.Q)
	case "arch", "update":
		for _, it := range op.It {
			if hit(it.Path) {
				return true
			}
		}
		return false
	}
	return hit(op.P)
}

// checkModel compares an observation with the reference. dirty entries are skipped.
func checkModel(s Snap, m *Model, skip map[string]bool) string {
	var out string
	add := func(f string, a ...interface{}) {
		if out == "" {
			out = fmt.Sprintf(f, a...)
		}
	}
	for _, k := range s.keys() {
		if m.N[k] == nil {
			add("%q exists (%v) but not in the reference", k, s[k])
		}
	}
	keys := make([]string, 0)
	for k := range m.N {
		keys = append(keys, k)
	}
	sortStrings(keys)
	for _, k := range keys {
		w := m.N[k]
		g := s[k]
		if g == nil {
			add("%q is missing (the reference has it, dir=%v)", k, w.Dir)
			continue
		}
		if g.Dir != w.Dir {
			add("%q has kind dir=%v, reference dir=%v", k, g.Dir, w.Dir)
			continue
		}
		if uint32(g.Mode) != w.Mode {
			add("%q has mode %#o, reference %#o", k, g.Mode, w.Mode)
		}
		if w.OwnerKnown && (g.UID != w.UID || g.GID != w.GID) {
			add("%q has owner %d:%d, reference %d:%d", k, g.UID, g.GID, w.UID, w.GID)
		}
		if w.MTKnown && g.MTime != w.MT {
			add("%q has mtime %d, reference %d", k, g.MTime, w.MT)
		}
		if now := time.Now().UnixNano(); !w.MTKnown && w.Since != 0 && (g.MTime < w.Since-60e9 || g.MTime > now+60e9) {
			add("%q was made or written at about %d, but its mtime is %d", k, w.Since, g.MTime)
		}
		if w.ATKnown && g.ATime != w.AT {
			add("%q has atime %d, reference %d", k, g.ATime, w.AT)
		}
		if w.Dir || skip[k] {
			continue
		}
		if g.Err != "" {
			add("reading %q fails: %s (reference has %d bytes)", k, g.Err, len(w.Data))
		} else if string(g.Data) != string(w.Data) {
			add("%q reads %s, reference has %s", k, brief(g.Data), brief(w.Data))
		}
		if g.Size != int64(len(w.Data)) {
			add("%q has size %d, reference %d", k, g.Size, len(w.Data))
		}
	}
	return out
}
