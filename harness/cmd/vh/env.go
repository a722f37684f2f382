package main

import (
	"archive/tar"
	"database/sql"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"unsafe"

	"github.com/pojntfx/stfs/pkg/cache"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/encryption"
	stfs "github.com/pojntfx/stfs/pkg/fs"
	"github.com/pojntfx/stfs/pkg/mtio"
	"github.com/pojntfx/stfs/pkg/operations"
	"github.com/pojntfx/stfs/pkg/persisters"
	"github.com/pojntfx/stfs/pkg/recovery"
	"github.com/pojntfx/stfs/pkg/signature"
	"github.com/pojntfx/stfs/pkg/tape"

	golog "github.com/fclairamb/go-log"
)

const blk = config.MagneticTapeBlockSize

type nopLogger struct{}

func (nopLogger) Trace(string, ...interface{})       {}
func (nopLogger) Debug(string, ...interface{})       {}
func (nopLogger) Info(string, ...interface{})        {}
func (nopLogger) Warn(string, ...interface{})        {}
func (nopLogger) Error(string, ...interface{})       {}
func (nopLogger) Panic(string, ...interface{})       {}
func (l nopLogger) With(...interface{}) golog.Logger { return l }

// Hooks intercept the environment of STFS (drive, index, caches), never STFS itself.
type Hooks struct {
	Backend func(b config.BackendConfig, e *Env) config.BackendConfig
	Meta    func(m config.MetadataPersister) config.MetadataPersister
	Buf     func(c cache.WriteCache) (cache.WriteCache, error)
}

type EnvOpts struct {
	DB       string // default Dir/idx.sqlite
	ReadOnly bool
	Over     bool // TapeManager overwrite flag
	Hooks    *Hooks
	Keys     int // key set used by both sides
	WKeys    int // key set used for writing, if WKeysSet
	WKeysSet bool
	NoKeys   bool
	NoWrite  bool                  // no write operations and no write cache, as `stfs serve http` composes it
	Backend  *config.BackendConfig // replaces the tape manager (simulated tape drive)
}

type Env struct {
	Cfg   Cfg
	Opts  EnvOpts
	Dir   string
	Tape  string
	Sim   *simTape     // the simulated tape, if the drive is one
	marks map[int]bool // its filemarks before something was altered
	DB    string
	P     *persisters.MetadataPersister
	Meta  config.MetadataConfig
	TM    *tape.TapeManager
	BE    config.BackendConfig
	Pipes config.PipeConfig
	RC    config.CryptoConfig
	WC    config.CryptoConfig
	R, W  *operations.Operations
	FS    *stfs.STFS
	Root  string

	readers []*os.File
}

func (c Cfg) level() string {
	if c.Level == "" {
		return config.CompressionLevelFastestKey
	}
	return c.Level
}

func (c Cfg) wcache() string {
	if c.WCache == "" {
		return config.WriteCacheTypeMemory
	}
	return c.WCache
}

func (c Cfg) pipes() config.PipeConfig {
	return config.PipeConfig{Compression: c.Comp, Encryption: c.Enc, Signature: c.Sig, RecordSize: c.RS}
}

func (c Cfg) plain() bool { return c.Comp == "" && c.Enc == "" && c.Sig == "" }

func (c Cfg) readCrypto(k int) config.CryptoConfig {
	ks := keySet{}
	if c.Enc != "" || c.Sig != "" {
		ks = keyN(k)
	}
	return config.CryptoConfig{Recipient: ks.sigRecipient(c.Sig), Identity: ks.encIdentity(c.Enc)}
}

func (c Cfg) writeCrypto(k int) config.CryptoConfig {
	ks := keySet{}
	if c.Enc != "" || c.Sig != "" {
		ks = keyN(k)
	}
	return config.CryptoConfig{Recipient: ks.encRecipient(c.Enc), Identity: ks.sigIdentity(c.Sig)}
}

// NewEnv composes STFS the way the documentation and the repository's own commands do.
// It does not call Initialize.
func NewEnv(dir, tapePath string, cfg Cfg, o EnvOpts) (*Env, error) {
	e := &Env{Cfg: cfg, Opts: o, Dir: dir, Tape: tapePath, DB: o.DB}
	if e.DB == "" {
		e.DB = filepath.Join(dir, "idx.sqlite")
	}
	if o.Backend == nil && cfg.Drv == "tape" {
		e.Sim = simFor(tapePath)
		e.BE = *e.Sim.backend(o.Over)
	} else if o.Backend == nil {
		mt := mtio.MagneticTapeIO{}
		e.TM = tape.NewTapeManager(tapePath, mt, cfg.RS, o.Over)
		e.BE = config.BackendConfig{
			GetWriter: e.TM.GetWriter, CloseWriter: e.TM.Close,
			GetReader: e.TM.GetReader, CloseReader: e.TM.Close,
			MagneticTapeIO: mt,
		}
	} else {
		e.BE = *o.Backend
	}
	if o.Hooks != nil && o.Hooks.Backend != nil {
		e.BE = o.Hooks.Backend(e.BE, e)
	}
	e.P = persisters.NewMetadataPersister(e.DB)
	if err := e.P.Open(); err != nil {
		return nil, fmt.Errorf("open index: %w", err)
	}
	var mp config.MetadataPersister = e.P
	if o.Hooks != nil && o.Hooks.Meta != nil {
		mp = o.Hooks.Meta(mp)
	}
	e.Meta = config.MetadataConfig{Metadata: mp}
	e.Pipes = cfg.pipes()
	e.RC = cfg.readCrypto(o.Keys)
	wk := o.Keys
	if o.WKeysSet {
		wk = o.WKeys
	}
	e.WC = cfg.writeCrypto(wk)
	if o.NoKeys {
		e.RC, e.WC = config.CryptoConfig{}, config.CryptoConfig{}
	}
	ev, hev := func(*config.HeaderEvent) {}, func(*config.Header) {}
	if cfg.RS%2 == 1 {
		ev, hev = nil, nil
	}
	e.R = operations.NewOperations(e.BE, e.Meta, e.Pipes, e.RC, ev)
	e.W = operations.NewOperations(e.BE, e.Meta, e.Pipes, e.WC, ev)
	if o.NoWrite {
		e.W = nil
		e.FS = stfs.NewSTFS(e.R, nil, e.Meta, "", nil, o.ReadOnly, false, hev, nopLogger{})
		return e, nil
	}
	e.FS = stfs.NewSTFS(e.R, e.W, e.Meta, cfg.level(),
		func() (cache.WriteCache, func() error, error) {
			c, cl, err := cache.NewCacheWrite(filepath.Join(dir, "wc"), cfg.wcache())
			if err == nil && o.Hooks != nil && o.Hooks.Buf != nil {
				if c, err = o.Hooks.Buf(c); err != nil {
					_ = cl()
					return nil, nil, err
				}
			}
			return c, cl, err
		},
		o.ReadOnly, cfg.WPR, hev, nopLogger{})
	return e, nil
}

// Init runs Initialize with the default root proposal.
func (e *Env) Init() error {
	root, err := e.FS.Initialize("/", os.ModePerm)
	e.Root = root
	return err
}

// Close releases what STFS has no call for (its database handle).
func (e *Env) Close() {
	if e == nil || e.P == nil {
		return
	}
	if db := findDB(reflect.ValueOf(e.P), 0); db != nil {
		_ = db.Close()
	}
}

var dbType = reflect.TypeOf((*sql.DB)(nil))

func findDB(v reflect.Value, depth int) *sql.DB {
	if depth > 6 || !v.IsValid() {
		return nil
	}
	if v.Type() == dbType {
		if v.IsNil() {
			return nil
		}
		return (*sql.DB)(unsafe.Pointer(v.Pointer()))
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return findDB(v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if k := v.Field(i).Kind(); k == reflect.Ptr || k == reflect.Struct || k == reflect.Interface {
				if d := findDB(v.Field(i), depth+1); d != nil {
					return d
				}
			}
		}
	}
	return nil
}

func (e *Env) decryptHeader(hdr *tar.Header, i int) error {
	return encryption.DecryptHeader(hdr, e.Pipes.Encryption, e.RC.Identity)
}

func (e *Env) verifyHeader(hdr *tar.Header, isRegular bool) error {
	return signature.VerifyHeader(hdr, isRegular, e.Pipes.Signature, e.RC.Recipient)
}

// Index runs the indexer over the tape the way `stfs recovery index` does.
func (e *Env) Index(record, block int, overwrite bool, offset int) error {
	reader, err := e.BE.GetReader()
	if err != nil {
		return err
	}
	defer e.BE.CloseReader()
	return recovery.Index(reader, e.BE.MagneticTapeIO, e.Meta, e.Pipes, e.RC,
		record, block, overwrite, false, offset, e.decryptHeader, e.verifyHeader, nil)
}

// Rebuild returns an environment over the same tape with a fresh, in-memory index built from the tape alone.
func (e *Env) Rebuild() (*Env, error) { return RebuildTape(e.Dir, e.Tape, e.Cfg, e.Opts.Keys) }

func RebuildTape(dir, tapePath string, cfg Cfg, keys int) (*Env, error) {
	n, err := NewEnv(dir, tapePath, cfg, EnvOpts{DB: ":memory:", Keys: keys})
	if err != nil {
		return nil, err
	}
	if err := n.Index(0, 0, true, 0); err != nil {
		n.Close()
		return nil, err
	}
	return n, nil
}

func (e *Env) TapeBytes() []byte {
	if e.Sim != nil {
		return e.Sim.bytes(e.Cfg.RS)
	}
	b, err := os.ReadFile(e.Tape)
	if err != nil {
		if os.IsNotExist(err) {
			return nil
		}
		harnessf("read tape: %v", err)
	}
	return b
}

// scratch directories

func scratchBase() string {
	if b := os.Getenv("VH_SCRATCH"); b != "" {
		return b
	}
	if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() {
		return "/dev/shm"
	}
	return os.TempDir()
}

func mkScratch() string {
	d, err := os.MkdirTemp(scratchBase(), "vh-case-*")
	if err != nil {
		harnessf("scratch: %v", err)
	}
	return d
}

func rmScratch(d string) {
	sims = map[string]*simTape{}
	if filepath.Dir(d) == filepath.Clean(scratchBase()) && len(filepath.Base(d)) > 8 {
		_ = os.RemoveAll(d)
	}
}

var _ io.Reader
