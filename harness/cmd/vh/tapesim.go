package main

import (
	"errors"
	"fmt"
	"io"
	"sync"

	"github.com/pojntfx/stfs/pkg/config"
)

// simTape is a simulated tape drive in variable-block mode: what a SCSI tape and the Linux st driver show.
// One write is one record, filemarks count as positions, a read returns one record or nothing at a filemark, writing truncates what follows, closing after writing leaves a filemark.
type simTape struct {
	objs [][]byte
	pos  int
	fm   bool // the last read hit a filemark

	mu    sync.Mutex
	wrote bool
	bad   string // a request which a drive refuses
}

var (
	errTapeIO  = errors.New("input/output error")
	errTapeMem = errors.New("cannot allocate memory")
)

type simWriter struct{ t *simTape }

func (w simWriter) Write(p []byte) (int, error) {
	t := w.t
	if len(p) == 0 {
		return 0, nil
	}
	t.objs = append(t.objs[:t.pos], append([]byte(nil), p...))
	t.pos++
	t.wrote = true
	return len(p), nil
}

type simReader struct{ t *simTape }

func (r simReader) Fd() uintptr                    { return 0 }
func (r simReader) Seek(int64, int) (int64, error) { return 0, errTapeIO }
func (r simReader) Read(p []byte) (int, error) {
	t := r.t
	if len(p) == 0 {
		return 0, nil
	}
	if t.pos >= len(t.objs) {
		return 0, io.EOF // end of data
	}
	o := t.objs[t.pos]
	t.pos++
	t.fm = o == nil
	if o == nil {
		return 0, io.EOF
	}
	if len(p) < len(o) {
		t.bad = fmt.Sprintf("a read of %d bytes where a record has %d", len(p), len(o))
		return 0, errTapeMem
	}
	return copy(p, o), nil
}

// the control interface

func (t *simTape) GetCurrentRecordFromTape(uintptr) (int64, error) { return int64(t.pos), nil }
func (t *simTape) GoToEndOfTape(uintptr) error {
	t.pos, t.fm = len(t.objs), false
	return nil
}
func (t *simTape) GoToNextFileOnTape(uintptr) error {
	if t.fm { // already behind the mark
		t.fm = false
		return nil
	}
	for t.pos < len(t.objs) {
		t.pos++
		if t.objs[t.pos-1] == nil {
			if t.pos == len(t.objs) {
				return nil
			}
			return nil
		}
	}
	return errTapeIO
}
func (t *simTape) EjectTape(uintptr) error { t.pos = 0; return nil }
func (t *simTape) SeekToRecordOnTape(_ uintptr, record int32) error {
	if int(record) > len(t.objs) || record < 0 {
		return errTapeIO
	}
	t.pos, t.fm = int(record), false
	return nil
}

// sims are the simulated tapes of the running case, by the path a regular tape would have.
var sims = map[string]*simTape{}

func simFor(p string) *simTape {
	if sims[p] == nil {
		sims[p] = &simTape{}
	}
	return sims[p]
}

// bytes is the tape with every filemark shown as a record of zeros, so that offsets are positions.
func (t *simTape) bytes(rs int) []byte {
	var b []byte
	for _, o := range t.objs {
		r := make([]byte, rs*blk)
		copy(r, o)
		b = append(b, r...)
		if len(o) > rs*blk || o != nil && len(o) != rs*blk {
			failf("a tape record has %d bytes, the record size is %d", len(o), rs*blk)
		}
	}
	return b
}

// prefix is a copy of the tape up to the first filemark at or behind the offset.
func (t *simTape) prefix(off int64, rs int) *simTape {
	n := int(off) / (rs * blk)
	for n < len(t.objs) && (n == 0 || t.objs[n-1] != nil) {
		n++
	}
	return &simTape{objs: append([][]byte{}, t.objs[:n]...)}
}

func (t *simTape) backend(over bool) *config.BackendConfig {
	return &config.BackendConfig{
		GetWriter: func() (config.DriveWriterConfig, error) {
			t.mu.Lock()
			if over {
				t.pos = 0
				over = false
			} else {
				t.pos = len(t.objs)
			}
			t.fm, t.wrote = false, false
			return config.DriveWriterConfig{Drive: simWriter{t}, DriveIsRegular: false}, nil
		},
		CloseWriter: func() error {
			if t.wrote {
				t.objs = append(t.objs[:t.pos], nil)
				t.pos++
			}
			t.wrote = false
			t.mu.Unlock()
			return nil
		},
		GetReader: func() (config.DriveReaderConfig, error) {
			t.mu.Lock()
			return config.DriveReaderConfig{Drive: simReader{t}, DriveIsRegular: false}, nil
		},
		CloseReader:    func() error { t.mu.Unlock(); return nil },
		MagneticTapeIO: t,
	}
}

// onTape turns pct percent of the configurations which are offered for tape drives into ones of a tape drive.
func onTape(r *Rng, c *Cfg, pct int) {
	if !r.P(pct) {
		return
	}
	if c.Comp == "zstandard" && c.RS < 2 || c.Comp == "gzip" || c.Comp == "lz4" {
		c.RS = pick(r, 128, 130, 256)
	}
	if c.Sig == "minisign" {
		c.Sig = "pgp"
	}
	if tapeSupports(*c) {
		c.Drv = "tape"
	}
}

// tapeSupports says whether a pipeline is offered for tape drives with this record size.
func tapeSupports(c Cfg) bool {
	switch c.Comp {
	case "parallelgzip", "brotli":
		return false
	case "gzip", "lz4":
		if c.RS < 128 {
			return false
		}
	case "zstandard":
		if c.RS < 2 {
			return false
		}
	}
	return c.Sig != "minisign"
}
