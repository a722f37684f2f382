package main

import (
	"archive/tar"
	"bytes"
	"fmt"
	"io"
	"os"
	"path"
	"sort"

	"github.com/pojntfx/stfs/pkg/compression"
	"github.com/pojntfx/stfs/pkg/encryption"
	"github.com/pojntfx/stfs/pkg/recovery"
	"github.com/pojntfx/stfs/pkg/signature"
	"github.com/spf13/afero"
)

// C03: content round-trips byte-exactly through every pipeline configuration.

var (
	c03Comp  = []string{"", "gzip", "parallelgzip", "lz4", "zstandard", "brotli", "bzip2", "parallelbzip2"}
	c03Level = []string{"fastest", "balanced", "smallest"}
	c03Enc   = []string{"", "age", "pgp"}
	c03Sig   = []string{"", "minisign", "pgp"}
	c03RS    = []int{1, 2, 3, 7, 20, 32, 64, 100, 128, 200, 256, 512}
)

func init() {
	register(&Check{
		ID: "C03", Level: "exploration",
		Rule:  "the grid 8 compressions x 3 levels x 3 encryptions x 3 signatures is enumerated by the case index (every block of 216 cases covers it once), crossed with drawn record sizes, write caches and drive kind (regular file; or a simulated tape drive where the pipeline is offered for tapes). Per case up to six calls write files by filesystem sessions (new, truncating, appending; in 1-5 chunks), batched archive calls and content-replacing updates; sizes come from {0,1,2,511..513,record+-1,64KiB+-1,1MiB+-1,several records,...} and byte kinds random/zero/text/repeating/tar-like/codec-magic; names include ones ending in codec suffixes. After each call the written files (at the end all files, then all again from a reopened and a rebuilt index) are read through the filesystem in one go and in odd pieces, positioned reads, restored singly and as a tree, fetched by position; sizes compared in Stat, listings and index rows. One case of 432 continues behind 2 GiB of empty tape (regular drive). A third of the cases also push contents straight through the codec pair with both drive kinds. Non-trivial: at least one non-empty file and a non-plain pipeline or the tape drive.",
		Assum: []string{"the simulated tape drive is in variable-block mode: one write is one record, a read returns one record and fails if the buffer is smaller; pipelines the code base declares unsupported for tapes are not demanded there"},
		Quick: 2160, QuickS: 75, Thorough: 40000, ThorS: 750,
		Gen: func(r *Rng, i int, tier string) *Case {
			g := i % 216
			c := &Case{Mode: "file"}
			c.Cfg = Cfg{Comp: c03Comp[g%8], Level: c03Level[g/8%3], Enc: c03Enc[g/24%3], Sig: c03Sig[g/72%3]}
			c.Cfg.RS = c03RS[r.N(len(c03RS))]
			c.Cfg.WCache = pick(r, "memory", "file")
			c.Cfg.WPR = r.P(15)
			if r.P(45) {
				// prefer a record size for which the pipeline is offered
				if !tapeSupports(c.Cfg) && r.P(70) {
					c.Cfg.RS = pick(r, 128, 129, 200, 256, 512)
				}
				if tapeSupports(c.Cfg) {
					c.Mode = "tape"
				}
			}
			heavy := c.Cfg.Level == "smallest" || c.Cfg.Comp == "brotli"
			names := []string{"/f", "/g", "/n.gz", "/n.age", "/d/f", "/d/n.zst", "/d/b.bz2", "/d/e/p.pgp", "/n.gz.age", "/l.lz4", "/x.br"}
			live := map[string]bool{}
			n := 2 + r.N(5)
			far := i%432 == 11
			if far {
				// continue behind 2 GiB of empty tape
				c.Mode, heavy = "file", true
				c.Cfg.RS = pick(r, 128, 200, 512)
				n = 4
			}
			for k := 0; k < n; k++ {
				if far && k == 2 {
					c.Ops = append(c.Ops, Op{K: "far", N: 1<<31 + r.N(2)*r.N(2048)*blk - r.N(c.Cfg.RS)*blk})
				}
				p := names[r.N(len(names))]
				lk := make([]string, 0, len(live))
				for q := range live {
					lk = append(lk, q)
				}
				sort.Strings(lk)
				switch w := r.N(10); {
				case w < 4: // session
					op := Op{K: "open", P: p, Flag: os.O_RDWR | os.O_CREATE | os.O_TRUNC, Mode: 0644}
					if r.P(25) {
						op.Flag = os.O_RDWR | os.O_CREATE | os.O_APPEND
					}
					m := pickW(r, []int{1, 5, 2, 1, 1})
					for j := 0; j < m; j++ {
						op.H = append(op.H, HOp{K: pick(r, "write", "write", "writestr"), Data: c03Data(r, c.Cfg.RS, heavy)})
						if r.P(10) {
							op.H = append(op.H, HOp{K: "sync"})
						}
					}
					c.Ops = append(c.Ops, op)
					live[p] = true
				case w < 7: // archive new names
					op := Op{K: "arch"}
					for j := 0; j < 1+r.N(4); j++ {
						q := names[r.N(len(names))]
						if live[q] {
							continue
						}
						live[q] = true
						op.It = append(op.It, Item{Path: q, Mode: 0644, T: genTime(r), Data: c03Data(r, c.Cfg.RS, heavy)})
					}
					if len(op.It) > 0 {
						c.Ops = append(c.Ops, op)
					}
				case w < 9: // replace contents
					if len(lk) == 0 {
						continue
					}
					op := Op{K: "update", N: 1}
					for j := 0; j < 1+r.N(2); j++ {
						op.It = append(op.It, Item{Path: lk[(r.N(len(lk))+j)%len(lk)], Mode: 0644, T: genTime(r), Data: c03Data(r, c.Cfg.RS, heavy)})
					}
					if len(op.It) == 2 && op.It[0].Path == op.It[1].Path {
						op.It = op.It[:1]
					}
					c.Ops = append(c.Ops, op)
				default:
					c.Ops = append(c.Ops, Op{K: "create", P: p, H: []HOp{{K: "write", Data: c03Data(r, c.Cfg.RS, heavy)}}})
					live[p] = true
				}
			}
			if r.P(33) {
				for j := 0; j < 2; j++ {
					c.Extra = append(c.Extra, Extra{K: "codec", A: int64(r.N(2)), B: int64(pick(r, 1, 100, 511, 512, 4096, 32768, 70000)), T: int64(r.U64() % 1000), D: c03Data(r, c.Cfg.RS, heavy)})
				}
			}
			return c
		},
		Run: runC03,
	})
}

func c03Data(r *Rng, rs int, heavy bool) *Data {
	d := &Data{Seed: r.U64() % 100000}
	rec := rs * blk
	big := 7
	if heavy {
		big = 3
	}
	switch {
	case r.P(big):
		d.N = pick(r, 1<<20-1, 1<<20, 1<<20+1, 900000, 900001, 300000, 262144, 262145, 3*rec+1)
	case r.P(12):
		d.N = pick(r, 65535, 65536, 65537, 131071, 131072, 131073, 32767, 32768, 32769)
	case r.P(10):
		d.N = 0
	case r.P(10):
		d.N = 1
	default:
		d.N = pick(r, 2, 15, 16, 17, 511, 512, 513, 1023, 1024, 1025, rec-1, rec, rec+1, 2*rec-1, 2*rec, 2*rec+1, rec-512, rec+512, r.N(300), r.N(5000), r.N(30000), r.N(6*rec))
	}
	if d.N < 0 {
		d.N = 0
	}
	d.Kind = pick(r, "rand", "rand", "text", "zero", "rep", "tar", "magic")
	return d
}

func runC03(c *Case, r *Result) {
	for _, x := range c.Extra {
		if x.K == "codec" {
			codecTrip(c.Cfg, x, r)
		}
	}
	o := EnvOpts{}
	var t *simTape
	if c.Mode == "tape" {
		t = &simTape{}
		o.Backend = t.backend(false)
		r.cls("tape drive")
	} else {
		r.cls("regular drive")
	}
	withEnvOpts(c, o, func(e *Env) {
		want := map[string][]byte{}
		if err := e.FS.MkdirAll("/d/e", 0755); err != nil {
			failf("MkdirAll: %v", err)
		}
		far := false
		for i, op := range c.Ops {
			what := fmt.Sprintf("after op %d %s", i, opString(op))
			if op.K == "far" {
				// empty records up to the given size: no call writes 2 GiB here, but a tape grows beyond it
				if st, err := os.Stat(e.Tape); err == nil && st.Size() < int64(op.N) {
					if err := os.Truncate(e.Tape, int64(op.N)); err != nil {
						harnessf("far: %v", err)
					}
					far = true
					r.cls("beyond 2 GiB")
				}
				continue
			}
			touched := c03Model(want, op)
			// the record that creates the file of a session is on the tape before its content is
			if err := sysOp(e, e.FS, op); err != nil {
				if t != nil && t.bad != "" {
					failf("%s: %v (%s)", what, err, t.bad)
				}
				failf("%s: %v", what, err)
			}
			for _, p := range touched {
				contentCheck(e, p, want[p], what, r)
				if len(want[p]) > 0 && (!c.Cfg.plain() || t != nil) {
					r.NT = true
				}
			}
		}
		all := func(e *Env, what string) {
			var ks []string
			for p := range want {
				ks = append(ks, p)
			}
			sort.Strings(ks)
			for _, p := range ks {
				contentCheck(e, p, want[p], what, r)
			}
			restoreTree(e, want, what, far, r)
		}
		all(e, "at the end")
		re, err := NewEnv(e.Dir, e.Tape, c.Cfg, o)
		if err != nil {
			harnessf("reopen: %v", err)
		}
		defer re.Close()
		if err := re.Init(); err != nil {
			failf("reopening: %v", err)
		}
		all(re, "after reopening")
		o2 := o
		o2.DB = ":memory:"
		rb, err := NewEnv(e.Dir, e.Tape, c.Cfg, o2)
		if err != nil {
			harnessf("rebuild: %v", err)
		}
		defer rb.Close()
		currentCall = "rebuild"
		if err := rb.Index(0, 0, true, 0); err != nil {
			failf("rebuilding the index: %v", err)
		}
		all(rb, "after a rebuild")
	})
}

// c03Model advances the expected contents and lists what the call wrote.
func c03Model(want map[string][]byte, op Op) []string {
	switch op.K {
	case "open", "create":
		b := want[op.P]
		if op.K == "create" || op.Flag&os.O_TRUNC != 0 {
			b = nil
		}
		b = append([]byte(nil), b...)
		for _, h := range op.H {
			if h.Data != nil {
				b = append(b, h.Data.Bytes()...)
			}
		}
		want[op.P] = b
		return []string{op.P}
	case "arch", "update":
		var ps []string
		for _, it := range op.It {
			want[it.Path] = it.Data.Bytes()
			ps = append(ps, it.Path)
		}
		return ps
	}
	return nil
}

func contentCheck(e *Env, p string, want []byte, what string, r *Result) {
	same := func(route string, got []byte, err error) {
		r.Checks++
		if err != nil {
			failf("%s: %s of %q (%d bytes): %v", what, route, p, len(want), err)
		}
		if !bytes.Equal(got, want) {
			failf("%s: %s of %q returns %s, written was %s", what, route, p, brief(got), brief(want))
		}
	}
	size := func(route string, n int64) {
		r.Checks++
		if n != int64(len(want)) {
			failf("%s: %s of %q reports %d bytes, the content has %d", what, route, p, n, len(want))
		}
	}
	currentCall = what + ": read " + p
	got, err := ReadAll(e.FS, p)
	same("reading", got, err)
	got, err = readPieces(e.FS, p, len(want))
	same("reading in pieces", got, err)
	currentCall = what + ": restore " + p
	got, err = restoreFile(e, p)
	same("restoring", got, err)
	row, err := e.P.GetHeader(ctx, p)
	if err != nil {
		failf("%s: looking up %q in the index: %v", what, p, err)
	}
	size("the index entry", row.Size)
	currentCall = what + ": fetch " + p
	got, _, err = fetchAt(e, int(row.Record), int(row.Block))
	same("fetching by position", got, err)
	currentCall = what + ": stat " + p
	fi, err := e.FS.Stat(p)
	if err != nil {
		failf("%s: Stat of %q: %v", what, p, err)
	}
	size("Stat", fi.Size())
	f, err := e.FS.Open(p)
	if err != nil {
		failf("%s: opening %q: %v", what, p, err)
	}
	if fi, err = f.Stat(); err != nil {
		failf("%s: File.Stat of %q: %v", what, p, err)
	}
	size("File.Stat", fi.Size())
	if err := f.Close(); err != nil {
		failf("%s: closing %q unread: %v", what, p, err)
	}
	infos, err := listDir(e.FS, path.Dir(p))
	if err != nil {
		failf("%s: listing %q: %v", what, path.Dir(p), err)
	}
	for _, i := range infos {
		if i.Name() == path.Base(p) {
			size("the listing", i.Size())
			return
		}
	}
	failf("%s: %q is not listed", what, p)
}

// readPieces reads the middle with a positioned read, then everything with odd buffer sizes.
func readPieces(fs afero.Fs, p string, n int) ([]byte, error) {
	f, err := fs.OpenFile(p, os.O_RDONLY, 0)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if n > 2 {
		if _, err := f.ReadAt(make([]byte, n/3), int64(n/3)); err != nil && err != io.EOF {
			return nil, err
		}
		if _, err := f.Seek(0, io.SeekStart); err != nil {
			return nil, err
		}
	}
	var out []byte
	sizes := []int{1, 7, 511, 512, 1000, 4096, 65536, 1 << 20}
	zero := 0
	for i := 0; ; i++ {
		b := make([]byte, sizes[i%len(sizes)])
		k, err := f.Read(b)
		out = append(out, b[:k]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		if k == 0 {
			if zero++; zero > 20 {
				return out, fmt.Errorf("reads return nothing")
			}
		}
		if len(out) > n+10 {
			return out, nil
		}
	}
}

// restoreTree restores everything below the root and finds every file's content at its place.
func restoreTree(e *Env, want map[string][]byte, what string, far bool, r *Result) {
	currentCall = what + ": restore /"
	rs, err := restoreAll(e, "/", "out", false)
	if err != nil {
		failf("%s: restoring the tree: %v", what, err)
	}
	got := map[string][]byte{}
	for _, x := range rs {
		if !x.Dir {
			if _, dup := got[path.Clean(x.Path)]; dup {
				failf("%s: restoring the tree writes %q twice", what, x.Path)
			}
			got[path.Clean(x.Path)] = x.buf.Bytes()
			if x.buf.closed != 1 {
				failf("%s: restoring the tree closes %q %d times", what, x.Path, x.buf.closed)
			}
		}
	}
	for p, b := range want {
		g, ok := got[path.Join("out", p)]
		if !ok || !bytes.Equal(g, b) {
			failf("%s: restoring the tree gives %v %s for %q, written was %s", what, ok, brief(g), p, brief(b))
		}
		r.Checks++
	}
	if len(got) != len(want) {
		failf("%s: restoring the tree gives %d files, there are %d", what, len(got), len(want))
	}
	if far {
		return
	}
	// recovery.Query sees the records as well; its sizes are the encoded ones, so only the walk is checked
	reader, err := e.BE.GetReader()
	if err != nil {
		failf("%s: query: %v", what, err)
	}
	defer e.BE.CloseReader()
	var hs []*tar.Header
	if hs, err = recovery.Query(reader, e.BE.MagneticTapeIO, e.Pipes, e.RC, 0, 0, nil); err != nil {
		failf("%s: query: %v", what, err)
	}
	if len(hs) < len(want) {
		failf("%s: a query lists %d records for %d files", what, len(hs), len(want))
	}
}

// codecTrip pushes bytes through the pipeline's functions alone.
func codecTrip(cfg Cfg, x Extra, r *Result) {
	data := x.D.Bytes()
	regular := x.A == 1
	if !regular && !tapeSupports(cfg) {
		return
	}
	ks := keyN(0)
	what := fmt.Sprintf("pipeline (regular=%v) over %d bytes", regular, len(data))
	currentCall = what
	var enc bytes.Buffer
	ew, err := encryption.Encrypt(&enc, cfg.Enc, ks.encRecipient(cfg.Enc))
	if err != nil {
		failf("%s: Encrypt: %v", what, err)
	}
	cw, err := compression.Compress(ew, cfg.Comp, cfg.level(), regular, cfg.RS)
	if err != nil {
		failf("%s: Compress: %v", what, err)
	}
	signer, sign, err := signature.Sign(bytes.NewReader(data), regular, cfg.Sig, ks.sigIdentity(cfg.Sig))
	if err != nil {
		failf("%s: Sign: %v", what, err)
	}
	if _, err := io.CopyBuffer(struct{ io.Writer }{cw}, struct{ io.Reader }{signer}, make([]byte, x.B)); err != nil {
		failf("%s: writing: %v", what, err)
	}
	if err := cw.Flush(); err != nil {
		failf("%s: Flush: %v", what, err)
	}
	if err := cw.Close(); err != nil {
		failf("%s: closing the compressor: %v", what, err)
	}
	if err := ew.Close(); err != nil {
		failf("%s: closing the encryptor: %v", what, err)
	}
	sig, err := sign()
	if err != nil {
		failf("%s: sign: %v", what, err)
	}
	dr, err := encryption.Decrypt(bytes.NewReader(enc.Bytes()), cfg.Enc, ks.encIdentity(cfg.Enc))
	if err != nil {
		failf("%s: Decrypt: %v", what, err)
	}
	if len(data) == 0 && cfg.Comp != "" {
		// empty contents never go through the codecs
		return
	}
	cr, err := compression.Decompress(dr, cfg.Comp)
	if err != nil {
		failf("%s: Decompress: %v", what, err)
	}
	vr, verify, err := signature.Verify(cr, regular, cfg.Sig, ks.sigRecipient(cfg.Sig), sig)
	if err != nil {
		failf("%s: Verify: %v", what, err)
	}
	got, err := io.ReadAll(vr)
	if err != nil {
		failf("%s: reading back: %v", what, err)
	}
	if !bytes.Equal(got, data) {
		failf("%s: returns %s, written was %s", what, brief(got), brief(data))
	}
	if err := verify(); err != nil {
		failf("%s: verify: %v", what, err)
	}
	r.Checks++
	r.cls("codec round trip")
}
