package main

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"io"
	"os"
	"sync"
	"syscall"

	"github.com/pojntfx/stfs/pkg/cache"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/inventory"
	"github.com/pojntfx/stfs/pkg/recovery"
)

// faulter makes the environment of STFS (drive, index database, data sources and destinations, write
// caches) fail at the k-th operation. It never touches STFS itself.
type faulter struct {
	mu     sync.Mutex
	active bool
	n, k   int
	sticky int // from then on everything of the same class (1), or all the same operations (2) fail
	err    error
	labels []string
	fired  string
}

func (f *faulter) arm(k, sticky int, err error) {
	f.mu.Lock()
	f.active, f.n, f.k, f.sticky, f.err, f.labels, f.fired = true, 0, k, sticky, err, nil, ""
	f.mu.Unlock()
}

func (f *faulter) disarm() {
	f.mu.Lock()
	f.active = false
	f.mu.Unlock()
}

func faultClass(l string) string {
	for i := 0; i < len(l); i++ {
		if l[i] == '.' {
			return l[:i]
		}
	}
	return l
}

func (f *faulter) at(label string) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	if !f.active {
		return nil
	}
	f.n++
	if len(f.labels) < 100000 {
		f.labels = append(f.labels, label)
	}
	if f.n == f.k || (f.fired != "" && (f.sticky == 1 && faultClass(f.fired) == faultClass(label) || f.sticky == 2 && f.fired == label)) {
		if f.fired == "" {
			f.fired = label
		}
		return f.err
	}
	return nil
}

var faultErrors = []error{
	errInjected,
	&os.PathError{Op: "read", Path: "drive", Err: syscall.EIO},
	&os.PathError{Op: "write", Path: "drive", Err: syscall.ENOSPC},
	io.ErrUnexpectedEOF,
	sql.ErrConnDone,
	errors.New("database is locked"),
	os.ErrClosed,
	&os.PathError{Op: "open", Path: "drive", Err: syscall.ENOENT},
	&os.PathError{Op: "open", Path: "drive", Err: syscall.EACCES},
}

type faultDrive struct {
	*os.File
	f     *faulter
	short bool
}

func (d *faultDrive) Write(p []byte) (int, error) {
	if err := d.f.at("drive.Write"); err != nil {
		n := 0
		if len(p) > 1 { // part of it reaches the drive
			n, _ = d.File.Write(p[:len(p)/2])
		}
		return n, err
	}
	return d.File.Write(p)
}

func (d *faultDrive) Read(p []byte) (int, error) {
	if err := d.f.at("drive.Read"); err != nil {
		return 0, err
	}
	return d.File.Read(p)
}

func (d *faultDrive) Seek(off int64, wh int) (int64, error) {
	if err := d.f.at("drive.Seek"); err != nil {
		return 0, err
	}
	return d.File.Seek(off, wh)
}

func (d *faultDrive) Stat() (os.FileInfo, error) {
	if err := d.f.at("drive.Stat"); err != nil {
		return nil, err
	}
	return d.File.Stat()
}

func (d *faultDrive) Truncate(n int64) error {
	if err := d.f.at("drive.Truncate"); err != nil {
		return err
	}
	return d.File.Truncate(n)
}

func (f *faulter) hooks() *Hooks {
	return &Hooks{
		Backend: func(b config.BackendConfig, e *Env) config.BackendConfig {
			o := b
			var drive *os.File
			// the drive's own close fails: it is closed already when it is to be closed
			closing := func(label string, closer func() error) error {
				err := f.at(label)
				if err != nil && drive != nil {
					_ = drive.Close()
				}
				drive = nil
				if cerr := closer(); cerr != nil && err == nil {
					err = cerr
				}
				return err
			}
			o.GetWriter = func() (config.DriveWriterConfig, error) {
				if err := f.at("drive.GetWriter"); err != nil {
					return config.DriveWriterConfig{}, err
				}
				w, err := b.GetWriter()
				if file, ok := w.Drive.(*os.File); ok && err == nil {
					w.Drive = &faultDrive{File: file, f: f}
					drive = file
				}
				return w, err
			}
			o.GetReader = func() (config.DriveReaderConfig, error) {
				if err := f.at("drive.GetReader"); err != nil {
					return config.DriveReaderConfig{}, err
				}
				r, err := b.GetReader()
				if file, ok := r.Drive.(*os.File); ok && err == nil {
					r.Drive = &faultDrive{File: file, f: f}
					drive = file
				}
				return r, err
			}
			o.CloseWriter = func() error {
				return closing("drive.CloseWriter", b.CloseWriter)
			}
			o.CloseReader = func() error {
				return closing("drive.CloseReader", b.CloseReader)
			}
			return o
		},
		Meta: func(m config.MetadataPersister) config.MetadataPersister { return &faultMeta{m, f} },
		Buf: func(c cache.WriteCache) (cache.WriteCache, error) {
			if err := f.at("cache.New"); err != nil {
				_ = c.Close()
				return nil, err
			}
			return &faultBuf{c, f}, nil
		},
	}
}

type faultMeta struct {
	m config.MetadataPersister
	f *faulter
}

func (m *faultMeta) UpsertHeader(ctx context.Context, h *config.Header, i bool) error {
	if err := m.f.at("index.UpsertHeader"); err != nil {
		return err
	}
	return m.m.UpsertHeader(ctx, h, i)
}
func (m *faultMeta) UpdateHeaderMetadata(ctx context.Context, h *config.Header) error {
	if err := m.f.at("index.UpdateHeaderMetadata"); err != nil {
		return err
	}
	return m.m.UpdateHeaderMetadata(ctx, h)
}
func (m *faultMeta) MoveHeader(ctx context.Context, o, n string, r, b int64) error {
	if err := m.f.at("index.MoveHeader"); err != nil {
		return err
	}
	return m.m.MoveHeader(ctx, o, n, r, b)
}
func (m *faultMeta) GetHeaders(ctx context.Context) ([]*config.Header, error) {
	if err := m.f.at("index.GetHeaders"); err != nil {
		return nil, err
	}
	return m.m.GetHeaders(ctx)
}
func (m *faultMeta) GetHeader(ctx context.Context, n string) (*config.Header, error) {
	if err := m.f.at("index.GetHeader"); err != nil {
		return nil, err
	}
	return m.m.GetHeader(ctx, n)
}
func (m *faultMeta) GetHeaderByLinkname(ctx context.Context, n string) (*config.Header, error) {
	if err := m.f.at("index.GetHeaderByLinkname"); err != nil {
		return nil, err
	}
	return m.m.GetHeaderByLinkname(ctx, n)
}
func (m *faultMeta) GetHeaderChildren(ctx context.Context, n string) ([]*config.Header, error) {
	if err := m.f.at("index.GetHeaderChildren"); err != nil {
		return nil, err
	}
	return m.m.GetHeaderChildren(ctx, n)
}
func (m *faultMeta) GetRootPath(ctx context.Context) (string, error) {
	if err := m.f.at("index.GetRootPath"); err != nil {
		return "", err
	}
	return m.m.GetRootPath(ctx)
}
func (m *faultMeta) GetHeaderDirectChildren(ctx context.Context, n string, l int) ([]*config.Header, error) {
	if err := m.f.at("index.GetHeaderDirectChildren"); err != nil {
		return nil, err
	}
	return m.m.GetHeaderDirectChildren(ctx, n, l)
}
func (m *faultMeta) DeleteHeader(ctx context.Context, n string, r, b int64) (*config.Header, error) {
	if err := m.f.at("index.DeleteHeader"); err != nil {
		return nil, err
	}
	return m.m.DeleteHeader(ctx, n, r, b)
}
func (m *faultMeta) GetLastIndexedRecordAndBlock(ctx context.Context, rs int) (int64, int64, error) {
	if err := m.f.at("index.GetLastIndexedRecordAndBlock"); err != nil {
		return 0, 0, err
	}
	return m.m.GetLastIndexedRecordAndBlock(ctx, rs)
}
func (m *faultMeta) PurgeAllHeaders(ctx context.Context) error {
	if err := m.f.at("index.PurgeAllHeaders"); err != nil {
		return err
	}
	return m.m.PurgeAllHeaders(ctx)
}

type faultBuf struct {
	cache.WriteCache
	f *faulter
}

func (b *faultBuf) Read(p []byte) (int, error) {
	if err := b.f.at("cache.Read"); err != nil {
		return 0, err
	}
	return b.WriteCache.Read(p)
}
func (b *faultBuf) Write(p []byte) (int, error) {
	if err := b.f.at("cache.Write"); err != nil {
		return 0, err
	}
	return b.WriteCache.Write(p)
}
func (b *faultBuf) Seek(o int64, w int) (int64, error) {
	if err := b.f.at("cache.Seek"); err != nil {
		return 0, err
	}
	return b.WriteCache.Seek(o, w)
}
func (b *faultBuf) Truncate(n int64) error {
	if err := b.f.at("cache.Truncate"); err != nil {
		return err
	}
	return b.WriteCache.Truncate(n)
}
func (b *faultBuf) Size() (int64, error) {
	if err := b.f.at("cache.Size"); err != nil {
		return 0, err
	}
	return b.WriteCache.Size()
}
func (b *faultBuf) Sync() error {
	if err := b.f.at("cache.Sync"); err != nil {
		return err
	}
	return b.WriteCache.Sync()
}
func (b *faultBuf) Close() error {
	if err := b.WriteCache.Close(); err != nil {
		return err
	}
	return b.f.at("cache.Close")
}

// faultSrc is a failing data source for archive and update calls.
type faultSrc struct {
	memFile
	f *faulter
}

func (s *faultSrc) Read(p []byte) (int, error) {
	if err := s.f.at("source.Read"); err != nil {
		return 0, err
	}
	return s.memFile.Read(p)
}
func (s *faultSrc) Seek(o int64, w int) (int64, error) {
	if err := s.f.at("source.Seek"); err != nil {
		return 0, err
	}
	return s.memFile.Seek(o, w)
}
func (s *faultSrc) Close() error {
	_ = s.memFile.Close()
	return s.f.at("source.Close")
}

func faultItems(f *faulter, items []Item) func() (config.FileConfig, error) {
	i := 0
	return func() (config.FileConfig, error) {
		if err := f.at("source.Next"); err != nil {
			return config.FileConfig{}, err
		}
		if i >= len(items) {
			return config.FileConfig{}, io.EOF
		}
		it := items[i]
		i++
		data := it.Data.Bytes()
		return config.FileConfig{
			GetFile: func() (io.ReadSeekCloser, error) {
				if err := f.at("source.GetFile"); err != nil {
					return nil, err
				}
				return &faultSrc{memFile{b: data}, f}, nil
			},
			Info: itemInfo{it, int64(len(data))},
			Path: it.Path,
			Link: it.Link,
		}, nil
	}
}

type faultDst struct{ f *faulter }

func (d faultDst) Write(p []byte) (int, error) {
	if err := d.f.at("dest.Write"); err != nil {
		return 0, err
	}
	return len(p), nil
}
func (d faultDst) Close() error { return d.f.at("dest.Close") }

func faultRestore(e *Env, f *faulter, from string) error {
	return e.R.Restore(
		func(string, os.FileMode) (io.WriteCloser, error) {
			if err := f.at("dest.Open"); err != nil {
				return nil, err
			}
			return faultDst{f}, nil
		},
		func(string, os.FileMode) error { return f.at("dest.MkdirAll") },
		from, "out", false)
}

// faultOp runs op with failing sources and destinations.
func faultOp(e *Env, f *faulter, op Op) error {
	switch op.K {
	case "arch":
		currentCall = "Archive"
		_, err := e.W.Archive(faultItems(f, op.It), e.Cfg.level(), false, false)
		return err
	case "update":
		currentCall = "Update"
		_, err := e.W.Update(faultItems(f, op.It), e.Cfg.level(), op.N != 0, false)
		return err
	case "restore":
		currentCall = "Restore"
		return faultRestore(e, f, op.P)
	case "find":
		currentCall = fmt.Sprintf("inventory.Find(%q)", op.Q)
		_, err := inventory.Find(e.Meta, op.Q, nil)
		return err
	case "invstat":
		currentCall = "inventory.Stat"
		_, err := inventory.Stat(e.Meta, op.P, op.N%2 == 1, nil)
		return err
	case "invlist":
		currentCall = "inventory.List"
		_, err := inventory.List(e.Meta, op.P, op.N-1, nil)
		return err
	case "query", "fetch", "index":
		currentCall = "recovery: " + op.K
		reader, err := e.BE.GetReader()
		if err != nil {
			return err
		}
		defer e.BE.CloseReader()
		switch op.K {
		case "query":
			_, err = recovery.Query(reader, e.BE.MagneticTapeIO, e.Pipes, e.RC, 0, op.N, nil)
		case "fetch":
			rec, b := 0, op.N
			if op.P != "" {
				h, err := e.P.GetHeader(context.Background(), op.P)
				if err != nil {
					return err
				}
				rec, b = int(h.Record), int(h.Block)
			}
			err = recovery.Fetch(reader, e.BE.MagneticTapeIO, e.Pipes, e.RC,
				func(string, os.FileMode) (io.WriteCloser, error) {
					if err := f.at("dest.Open"); err != nil {
						return nil, err
					}
					return faultDst{f}, nil
				},
				func(string, os.FileMode) error { return f.at("dest.MkdirAll") },
				rec, b, "out", op.UID == 1, nil)
		case "index":
			err = recovery.Index(reader, e.BE.MagneticTapeIO, e.Meta, e.Pipes, e.RC, 0, 0, op.N == 1, false, 0, e.decryptHeader, e.verifyHeader, nil)
		}
		return err
	case "init":
		currentCall = "Initialize"
		_, err := e.FS.Initialize("/", os.ModePerm)
		return err
	case "opinit":
		currentCall = "Operations.Initialize"
		return e.W.Initialize("/", os.ModePerm, e.Cfg.level())
	}
	return sysOp(e, e.FS, op)
}

var _ = fmt.Sprint
