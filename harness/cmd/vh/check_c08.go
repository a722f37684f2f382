package main

import (
	"archive/tar"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/pojntfx/stfs/pkg/compression"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/encryption"
	"github.com/pojntfx/stfs/pkg/recovery"
	"github.com/pojntfx/stfs/pkg/signature"
)

// C08: with signatures on, nothing unsigned or altered is ever accepted.

const (
	paxEmbedded = "STFS.EmbeddedHeader"
	paxSig      = "STFS.Signature"
)

var c08Forges = []string{"unsigned", "unsigned", "unsigned-act", "nosig", "emptysig", "garbagesig", "nonb64", "shortsig", "othersig", "othersig", "otherfmt",
	"edit-keep", "edit-keep", "edit-nosig", "edit-othersig", "edit-emptysig", "swapsig", "swapcontent", "swapcontent", "newcontent", "newcontent", "trunccontent", "emptycontent", "extend",
	"reorder", "dup", "drop", "resig", "sigflip", "pgppkt", "outer", "embedtwice", "sigisembedded"}

func init() {
	register(&Check{
		ID: "C08", Level: "exploration",
		Rule:  "tapes written by short histories under {minisign, pgp} x {none, age, pgp} x compressions (10% on a simulated tape drive). Each is altered: single bytes (sampled by layout class; a fifth of the cases enumerate every position of a residue class of a small tape), and structured forgeries made with everything an attacker has (the public encryption recipient, every record, a second key): unsigned records, edited embedded headers with kept, removed, empty, garbage, foreign, swapped or re-encoded signatures, other signature formats and packets, exchanged or re-encoded contents, re-ordered, repeated and dropped records; whole tapes without signatures or by another writer. Every header which Index, Query and Initialize accept must be one the legitimate writer signed (compared as serialised headers), and every content a restore returns (by name through old and new index, and by position) must be the one signed under that header. Non-trivial: at least 8 alterations, of which one was rejected and one left something accepted.",
		Assum: []string{"the signature algorithms are sound", "a content which itself is a serialised header is not stored by the writer (one key signs both kinds)", "repeating, dropping and re-ordering signed records is not an alteration of them"},
		Quick: 1400, QuickS: 70, Thorough: 30000, ThorS: 750,
		Gen: genC08,
		Run: runC08,
	})
}

func genC08(r *Rng, i int, tier string) *Case {
	c := &Case{}
	c.Cfg = Cfg{RS: pick(r, 1, 2, 3, 7, 20), WCache: "memory", Sig: pick(r, "minisign", "pgp"), Enc: pick(r, "", "", "age", "pgp"),
		Comp: pick(r, "", "", "", "gzip", "lz4", "zstandard", "brotli", "bzip2", "parallelgzip", "parallelbzip2"), Level: "fastest"}
	n := 2 + r.N(4)
	exh := r.P(20)
	if exh {
		n = 2
		c.Mode = "exhaustive"
		c.I = []int64{int64(r.N(24)), 24}
	} else if r.P(4) {
		c.Mode = pick(r, "alien", "plain")
	}
	for k := 0; k < n; k++ {
		d := &Data{N: pick(r, 0, 1, 5, 100, 511, 512, 513, 700, r.N(400)), Kind: pick(r, "rand", "text", "tar"), Seed: r.U64() % 1000}
		if exh {
			d.N = 1 + r.N(200)
		}
		p := pick(r, "/a", "/b", "/d/c", "/evil")
		switch r.N(7) {
		case 0:
			c.Ops = append(c.Ops, Op{K: "mkdir", P: "/d", Mode: 0755})
		case 1:
			c.Ops = append(c.Ops, Op{K: "arch", It: []Item{{Path: "/x", Mode: 0644, T: genTime(r), Data: d}, {Path: "/y", Mode: 0600, T: genTime(r), Data: &Data{N: r.N(300), Kind: "rand", Seed: r.U64() % 100}}}})
		case 2:
			c.Ops = append(c.Ops, Op{K: "rename", P: p, Q: pick(r, "/a2", "/b")})
		case 3:
			c.Ops = append(c.Ops, Op{K: "chmod", P: p, Mode: uint32(r.N(0777))})
		case 4:
			c.Ops = append(c.Ops, Op{K: "remove", P: p})
		default:
			c.Ops = append(c.Ops, Op{K: "open", P: p, Flag: os.O_RDWR | os.O_CREATE | os.O_TRUNC, Mode: 0644, H: []HOp{{K: "write", Data: d}}})
		}
		if k == 0 {
			c.Ops = append(c.Ops[:0], Op{K: "arch", It: []Item{{Path: "/a", Mode: 0644, T: genTime(r), Data: d}}})
		}
	}
	if c.Mode != "" {
		return c
	}
	onTape(r, &c.Cfg, 10)
	m := 14 + r.N(14)
	for k := 0; k < m; k++ {
		if r.P(45) {
			x := genCut(r)
			x.K, x.T = "flip", 1+int64(r.N(255))
			if r.P(40) {
				x.T = 1 << r.N(8)
			}
			if r.P(30) {
				x.S = "hdr"
			}
			c.Extra = append(c.Extra, x)
		} else {
			c.Extra = append(c.Extra, Extra{K: "forge", S: c08Forges[r.N(len(c08Forges))], A: int64(r.N(1000)), B: int64(r.N(1000)), T: int64(r.U64() % 100000),
				I: []int64{int64(r.N(3)), int64(r.N(1000))}, D: &Data{N: pick(r, 0, 1, 100, 600), Kind: "rand", Seed: r.U64() % 1000}})
		}
	}
	return c
}

// signedSet is what the legitimate writer produced.
type signedSet struct {
	hdr     map[string]bool   // serialised header after verification
	content map[string]string // serialised header -> content (content-bearing records)
	all     map[string]bool   // all contents
	names   map[string]bool
	attrs   map[string]bool
}

func hdrJSON(h *tar.Header) string {
	b, err := json.Marshal(h)
	if err != nil {
		return "unmarshalable: " + err.Error()
	}
	return string(b)
}

func attrText(mode int64, uid, gid int64, uname, gname string, mt int64) string {
	return fmt.Sprintf("%o %d %d %q %q %d", mode, uid, gid, uname, gname, mt)
}

func stripSuffixes(cfg Cfg, n string) string {
	return strings.TrimSuffix(strings.TrimSuffix(n, encSuffix[cfg.Enc]), compSuffix[cfg.Comp])
}

func newSigned(e *Env, tape []byte, recs []Rec) *signedSet {
	s := &signedSet{map[string]bool{}, map[string]string{}, map[string]bool{"": true}, map[string]bool{}, map[string]bool{}}
	data := contentsByPos(e, tape, recs)
	for _, rc := range recs {
		j := hdrJSON(rc.H)
		s.hdr[j] = true
		if b, ok := data[rc.Start]; ok {
			s.content[j] = string(b)
			s.all[string(b)] = true
		}
		s.names[rc.Name] = true
		if rc.Old != "" {
			s.names[rc.Old] = true
		}
		s.attrs[attrText(rc.H.Mode, int64(rc.H.Uid), int64(rc.H.Gid), rc.H.Uname, rc.H.Gname, tns(rc.H.ModTime))] = true
	}
	return s
}

func runC08(c *Case, r *Result) {
	if c.Cfg.Sig == "" {
		return
	}
	wcfg := c.Cfg
	o := EnvOpts{}
	switch c.Mode {
	case "alien":
		o.Keys = 1
	case "plain":
		wcfg.Sig = ""
	}
	cc := *c
	cc.Cfg = wcfg
	withEnvOpts(&cc, o, func(e *Env) {
		for _, op := range c.Ops {
			_ = sysOp(e, e.FS, op)
		}
		if c.Mode == "alien" || c.Mode == "plain" {
			// nothing on this tape was signed by the key the reader knows
			cfg := c.Cfg
			if c.Mode == "alien" && cfg.Enc != "" {
				return // not even decryptable, C09
			}
			n, err := NewEnv(e.Dir, e.Tape, cfg, EnvOpts{DB: ":memory:"})
			if err != nil {
				harnessf("env: %v", err)
			}
			defer n.Close()
			got := acceptedBy(n, false)
			if len(got) > 0 {
				failf("a tape without any record by the key (%s) is indexed: accepted %s", c.Mode, got[0])
			}
			r.NT = true
			r.Checks++
			r.cls("whole tape " + c.Mode)
			return
		}
		tape := e.TapeBytes()
		recs, tail, _ := ScanTape(tape)
		if tail != "" {
			failf("the tape ends in %s", tail)
		}
		if err := decodeRecs(e, recs); err != nil {
			failf("%v", err)
		}
		s := newSigned(e, tape, recs)
		n, err := NewEnv(e.Dir, e.Tape, c.Cfg, EnvOpts{DB: ":memory:"})
		if err != nil {
			harnessf("env: %v", err)
		}
		defer n.Close()
		if got := acceptedBy(n, false); len(got) != len(recs) {
			failf("indexing the unaltered tape accepts %d of %d records", len(got), len(recs))
		}
		alts, rej, acc := 0, 0, 0
		try := func(b []byte, what string, full bool) {
			if bytes.Equal(b, tape) {
				return
			}
			alts++
			ok := checkAltered(e, n, s, b, what, full, r)
			if ok == len(recs) {
				acc++
			} else {
				rej++
			}
			if ok > 0 {
				acc++
			}
		}
		if c.Mode == "exhaustive" {
			step := c.I[1]
			for p := c.I[0]; p < int64(len(tape)); p += step {
				b := append([]byte(nil), tape...)
				x := byte(1 + (p*31+c.I[0])%255)
				if p%3 == 0 {
					x = 1 << (uint(p/3) % 8)
				}
				b[p] ^= x
				try(b, fmt.Sprintf("byte %d of %d changed by %#x", p, len(tape), x), false)
			}
			r.cls("positions enumerated")
		}
		for k, x := range c.Extra {
			if x.K == "flip" {
				p := resolveCut(x, recs, int64(len(tape))-1)
				b := append([]byte(nil), tape...)
				b[p] ^= byte(x.T)
				try(b, fmt.Sprintf("byte %d of %d changed by %#x (%s)", p, len(tape), x.T, layoutAt(recs, p)), k%4 == 0)
				r.cls("flip:" + x.S)
				continue
			}
			b, what := forge(e, tape, recs, x)
			if b == nil {
				continue
			}
			r.cls("forge:" + x.S)
			try(b, what, true)
		}
		r.NT = alts >= 8 && rej > 0 && acc > 0
	})
}

func layoutAt(recs []Rec, p int64) string {
	for i, rc := range recs {
		if p >= rc.Start && p < rc.End {
			if p >= rc.Content {
				return fmt.Sprintf("content or padding of record %d %q", i, rc.Name)
			}
			return fmt.Sprintf("header block %d of record %d %q", (p-rc.Start)/blk, i, rc.Name)
		}
	}
	return "between records"
}

// acceptedBy rebuilds the index of n and lists the headers that passed decryption and verification.
func acceptedBy(n *Env, query bool) (got []string) {
	reader, err := n.BE.GetReader()
	if err != nil {
		harnessf("reader: %v", err)
	}
	defer n.BE.CloseReader()
	if query {
		hs, err := recovery.Query(reader, n.BE.MagneticTapeIO, n.Pipes, n.RC, 0, 0, nil)
		if err == nil {
			for _, h := range hs {
				got = append(got, hdrJSON(h))
			}
		}
		return got
	}
	_ = recovery.Index(reader, n.BE.MagneticTapeIO, n.Meta, n.Pipes, n.RC, 0, 0, true, false, 0, n.decryptHeader,
		func(h *tar.Header, reg bool) error {
			if err := n.verifyHeader(h, reg); err != nil {
				return err
			}
			got = append(got, hdrJSON(h))
			return nil
		}, nil)
	return got
}

// relay puts bytes on the simulated tape, keeping the filemarks which still show as zeros.
func relay(e *Env, b []byte) {
	if e.marks == nil {
		e.marks = map[int]bool{}
		for i, o := range e.Sim.objs {
			if o == nil {
				e.marks[i] = true
			}
		}
	}
	n := e.Cfg.RS * blk
	var objs [][]byte
	for i := 0; i*n < len(b); i++ {
		o := make([]byte, n)
		copy(o, b[i*n:])
		if e.marks[i] && len(bytes.Trim(o, "\x00")) == 0 {
			o = nil
		}
		objs = append(objs, o)
	}
	e.Sim.objs = objs
}

func checkAltered(e, n *Env, s *signedSet, b []byte, what string, full bool, r *Result) int {
	if err := os.WriteFile(e.Tape, b, 0o600); err != nil {
		harnessf("write: %v", err)
	}
	if e.Sim != nil {
		relay(e, b)
		r.cls("tape drive")
	}
	currentCall = what + ": Index"
	got := acceptedBy(n, false)
	for _, j := range got {
		r.Checks++
		if !s.hdr[j] {
			failf("%s: the indexer accepts a header which was not signed: %s", what, brief([]byte(j)))
		}
	}
	checkRowsSigned(n, s, what+": the rebuilt index", nil)
	if full {
		currentCall = what + ": Query"
		for _, j := range acceptedBy(n, true) {
			r.Checks++
			if !s.hdr[j] {
				failf("%s: a query returns a header which was not signed: %s", what, brief([]byte(j)))
			}
		}
	}
	currentCall = what + ": restore"
	rows, err := n.P.GetHeaders(ctx)
	if err != nil {
		failf("%s: reading the index: %v", what, err)
	}
	for _, row := range rows {
		if byte(row.Typeflag) != tar.TypeReg {
			continue
		}
		r.Checks++
		if c, err := restoreFile(n, row.Name); err == nil {
			under, ok := contentAt(n, s, b, row.Record, row.Block)
			if !ok {
				failf("%s: restoring %q succeeds from a record at (%d, %d) which was not signed, with %s", what, row.Name, row.Record, row.Block, brief(c))
			}
			if string(c) != under {
				failf("%s: restoring %q returns %s, signed was %s", what, row.Name, brief(c), brief([]byte(under)))
			}
		}
		if c, err := ReadAll(n.FS, row.Name); err == nil {
			if under, ok := contentAt(n, s, b, row.Record, row.Block); !ok || string(c) != under {
				failf("%s: reading %q returns %s, signed was %v %s", what, row.Name, brief(c), ok, brief([]byte(under)))
			}
		}
	}
	// through the index from before the alteration
	orows, err := e.P.GetHeaders(ctx)
	if err != nil {
		failf("%s: reading the index: %v", what, err)
	}
	for _, row := range orows {
		if byte(row.Typeflag) != tar.TypeReg {
			continue
		}
		r.Checks++
		if c, err := restoreFile(e, row.Name); err == nil && !s.all[string(c)] {
			failf("%s: restoring %q with the old index returns %s, which was never signed", what, row.Name, brief(c))
		}
		if !full {
			continue
		}
		if c, err := ReadAll(e.FS, row.Name); err == nil && !s.all[string(c)] {
			failf("%s: reading %q with the old index returns %s, which was never signed", what, row.Name, brief(c))
		}
		if c, _, err := fetchAt(e, int(row.Record), int(row.Block)); err == nil {
			if under, ok := contentAt(e, s, b, row.Record, row.Block); !ok || string(c) != under {
				failf("%s: fetching (%d, %d) returns %s, signed was %v %s", what, row.Record, row.Block, brief(c), ok, brief([]byte(under)))
			}
		}
	}
	if full {
		// opening it as a filesystem with a missing index
		currentCall = what + ": Initialize"
		f, err := NewEnv(e.Dir, e.Tape, e.Cfg, EnvOpts{DB: ":memory:"})
		if err != nil {
			harnessf("env: %v", err)
		}
		defer f.Close()
		b = f.TapeBytes()
		_ = f.Init()
		nb := f.TapeBytes()
		checkRowsSigned(f, s, what+": the filesystem opened over it", ownRoot(f, b, nb))
		r.Checks++
	}
	return len(got)
}

// ownRoot lists the attributes of records which opening the filesystem itself appended (and signed).
func ownRoot(f *Env, before, after []byte) map[string]bool {
	out := map[string]bool{}
	if len(after) <= len(before) || !bytes.Equal(after[:len(before)], before) {
		return out
	}
	recs, _, _ := ScanTape(after[len(before):])
	if decodeRecs(f, recs) != nil {
		return out
	}
	for _, rc := range recs {
		out[rc.Name+" "+attrText(rc.H.Mode, int64(rc.H.Uid), int64(rc.H.Gid), rc.H.Uname, rc.H.Gname, tns(rc.H.ModTime))] = true
	}
	return out
}

func checkRowsSigned(n *Env, s *signedSet, what string, own map[string]bool) {
	hs, err := n.P.GetHeaders(ctx)
	if err != nil {
		failf("%s: %v", what, err)
	}
	for _, h := range hs {
		a := attrText(h.Mode, h.UID, h.Gid, h.Uname, h.Gname, tns(h.Modtime))
		if own[mclean(h.Name)+" "+a] {
			continue
		}
		if !s.names[mclean(h.Name)] {
			failf("%s shows %q, which nobody signed", what, h.Name)
		}
		if !s.attrs[a] {
			failf("%s shows %q with attributes nobody signed: %s", what, h.Name, a)
		}
	}
}

// contentAt gives the content which was signed under the header found at a position, and whether that header was signed.
func contentAt(n *Env, s *signedSet, b []byte, rec, bl int64) (string, bool) {
	at := posOf(rec, bl, n.Cfg.RS)
	if at < 0 || at >= int64(len(b)) {
		return "", false
	}
	h, err := tar.NewReader(bytes.NewReader(b[at:])).Next()
	if err != nil {
		return "", false
	}
	if n.decryptHeader(h, 0) != nil {
		return "", false
	}
	// the embedded header as bytes: what the signature is about
	var in tar.Header
	if json.Unmarshal([]byte(h.PAXRecords[paxEmbedded]), &in) != nil {
		return "", false
	}
	j := hdrJSON(&in)
	return s.content[j], s.hdr[j] // signed records without content have none
}

// forgery

func encodeContent(cfg Cfg, data []byte) []byte {
	ks := keyN(0)
	var out bytes.Buffer
	ew, err := encryption.Encrypt(&out, cfg.Enc, ks.encRecipient(cfg.Enc))
	if err != nil {
		harnessf("forge: %v", err)
	}
	cw, err := compression.Compress(ew, cfg.Comp, cfg.level(), true, cfg.RS)
	if err != nil {
		harnessf("forge: %v", err)
	}
	if _, err := cw.Write(data); err != nil {
		harnessf("forge: %v", err)
	}
	if cw.Flush() != nil || cw.Close() != nil || ew.Close() != nil {
		harnessf("forge: encoding failed")
	}
	return out.Bytes()
}

// wrapRec builds a record around a signature wrapper (nil pax: a plain member).
func wrapRec(cfg Cfg, h *tar.Header, body []byte) []byte {
	if cfg.Enc != "" && h.PAXRecords[paxEmbedded] != "" {
		j, _ := json.Marshal(h)
		enc, err := encryption.EncryptString(string(j), cfg.Enc, keyN(0).encRecipient(cfg.Enc))
		if err != nil {
			harnessf("forge: %v", err)
		}
		h = &tar.Header{Format: tar.FormatPAX, Size: h.Size, PAXRecords: map[string]string{paxEmbedded: enc}}
	}
	h.Format = tar.FormatPAX
	h.Size = int64(len(body))
	var b bytes.Buffer
	tw := tar.NewWriter(&b)
	if err := tw.WriteHeader(h); err != nil {
		return nil // not expressible
	}
	if _, err := tw.Write(body); err != nil {
		harnessf("forge: %v", err)
	}
	if err := tw.Flush(); err != nil {
		harnessf("forge: %v", err)
	}
	return b.Bytes()
}

func sigWrapper(inner, sig string, keepSig bool) *tar.Header {
	h := &tar.Header{Format: tar.FormatPAX, PAXRecords: map[string]string{paxEmbedded: inner}}
	if keepSig {
		h.PAXRecords[paxSig] = sig
	}
	return h
}

func signBy(k int, format, s string) string {
	out, err := signature.SignString(s, true, format, keyN(k).sigIdentity(format))
	if err != nil {
		harnessf("forge: %v", err)
	}
	return out
}

// unwrap gives the signed header text and its signature of a record.
func unwrap(e *Env, rc Rec) (string, string) {
	h := *rc.Outer
	if e.decryptHeader(&h, 0) != nil {
		return "", ""
	}
	return h.PAXRecords[paxEmbedded], h.PAXRecords[paxSig]
}

// setType makes another kind of member of a header.
func setType(h *tar.Header, r *Rng, target string) {
	h.Typeflag = pick(r, byte(tar.TypeSymlink), tar.TypeSymlink, tar.TypeLink, tar.TypeDir, tar.TypeFifo, tar.TypeChar, tar.TypeReg)
	h.Size = 0
	switch h.Typeflag {
	case tar.TypeSymlink, tar.TypeLink:
		h.Linkname = target
		if r.P(30) {
			h.Linkname = "/evil"
		}
	case tar.TypeDir:
		if r.P(50) {
			h.Name += "/"
		}
	}
}

func forge(e *Env, tape []byte, recs []Rec, x Extra) ([]byte, string) {
	if len(recs) == 0 {
		return nil, ""
	}
	r := NewRng(uint64(x.T), 8)
	cfg := e.Cfg
	ai, bi := int(x.A)%len(recs), int(x.B)%len(recs)
	// prefer records with content for the content forgeries
	if strings.Contains(x.S, "content") || x.S == "extend" {
		for k := 0; k < len(recs); k++ {
			if rc := recs[(ai+k)%len(recs)]; rc.Outer.Size > 0 && rc.Content < rc.End {
				ai = (ai + k) % len(recs)
				break
			}
		}
		for k := 0; k < len(recs); k++ {
			if i := (bi + k) % len(recs); i != ai && recs[i].Outer.Size > 0 && recs[i].Content < recs[i].End {
				bi = i
				break
			}
		}
	}
	a, b := recs[ai], recs[bi]
	inner, sig := unwrap(e, a)
	inner2, sig2 := unwrap(e, b)
	body := func(rc Rec) []byte {
		if rc.Content == rc.End {
			return nil
		}
		return tape[rc.Content : rc.Content+rc.Outer.Size]
	}
	evil := func() string {
		name := pick(r, "/evil", "/a", a.Name, a.Name+"x")
		h := &tar.Header{Typeflag: tar.TypeReg, Name: name, Mode: 0777, ModTime: time.Unix(int64(r.N(1<<30)), 0).UTC(), Format: tar.FormatPAX, PAXRecords: map[string]string{}}
		switch r.N(5) {
		case 4:
			setType(h, r, a.Name)
		case 0:
			h.PAXRecords = map[string]string{"STFS.Version": "1", "STFS.Action": "DELETE"}
			h.Name = a.Name
		case 1:
			h.Typeflag = tar.TypeDir
		case 2:
			h.Size = int64(x.D.N)
			if h.Size > 0 {
				h.PAXRecords["STFS.UncompressedSize"] = fmt.Sprint(x.D.N)
				if pick(r, 0, 1) == 1 {
					cs := signBy(1, cfg.Sig, string(x.D.Bytes()))
					h.PAXRecords[paxSig] = cs
				}
			}
		}
		return hdrJSON(h)
	}
	edited := func() string {
		var h tar.Header
		if json.Unmarshal([]byte(inner), &h) != nil {
			return evil()
		}
		switch r.N(9) {
		case 8:
			setType(&h, r, b.Name)
		case 0:
			h.Name += "x"
		case 1:
			h.Mode ^= 0111
		case 2:
			h.Size++
		case 3:
			h.Uid++
		case 4:
			h.ModTime = h.ModTime.Add(time.Second)
		case 5:
			if h.PAXRecords == nil {
				h.PAXRecords = map[string]string{}
			}
			h.PAXRecords["STFS.Action"] = "DELETE"
		case 6:
			delete(h.PAXRecords, paxSig)
			h.Gid++
		case 7:
			if h.PAXRecords == nil {
				h.PAXRecords = map[string]string{}
			}
			h.PAXRecords[paxSig] = signBy(1, cfg.Sig, string(x.D.Bytes()))
			h.PAXRecords["STFS.UncompressedSize"] = fmt.Sprint(x.D.N)
		}
		return hdrJSON(&h)
	}
	garbage := base64.StdEncoding.EncodeToString(r.Bytes(74 + r.N(100)))
	otherFmt := map[string]string{"pgp": "minisign", "minisign": "pgp"}[cfg.Sig]
	ev := encodeContent(cfg, x.D.Bytes())
	pickBody := func() []byte {
		switch r.N(3) {
		case 0:
			return nil
		case 1:
			return ev
		}
		return body(a)
	}
	var rec []byte
	place := x.I[0] // 0 replace, 1 insert before, 2 append
	switch x.S {
	case "unsigned":
		h := &tar.Header{Typeflag: tar.TypeReg, Name: pick(r, "/evil", "evil", "./evil", a.Name), Mode: 0644, ModTime: time.Unix(1, 0)}
		bd := ev
		if r.P(50) {
			setType(h, r, a.Name)
			if h.Typeflag != tar.TypeReg {
				bd = nil
			}
		}
		rec = wrapRec(cfg, h, bd)
	case "unsigned-act":
		h := &tar.Header{Typeflag: tar.TypeReg, Name: a.Name, Mode: 0777, ModTime: time.Unix(1, 0), PAXRecords: map[string]string{"STFS.Version": "1",
			"STFS.Action": pick(r, "CREATE", "DELETE", "UPDATE")}}
		if r.P(40) {
			h.PAXRecords["STFS.ReplacesName"] = b.Name
			h.PAXRecords["STFS.Action"] = "UPDATE"
		}
		bd := pickBody()
		if r.P(40) {
			setType(h, r, b.Name)
			if h.Typeflag != tar.TypeReg {
				bd = nil
			}
		}
		rec = wrapRec(cfg, h, bd)
	case "nosig":
		rec = wrapRec(cfg, sigWrapper(evil(), "", false), pickBody())
	case "emptysig":
		rec = wrapRec(cfg, sigWrapper(evil(), "", true), pickBody())
	case "garbagesig":
		rec = wrapRec(cfg, sigWrapper(evil(), garbage, true), pickBody())
	case "nonb64":
		rec = wrapRec(cfg, sigWrapper(evil(), pick(r, "!!!", sig+"!", "none", "null", "true"), true), pickBody())
	case "shortsig":
		rec = wrapRec(cfg, sigWrapper(pick(r, inner, evil()), sig[:r.N(len(sig)+1)/4*4], true), pickBody())
	case "othersig":
		in := evil()
		rec = wrapRec(cfg, sigWrapper(in, signBy(1, cfg.Sig, in), true), pickBody())
	case "otherfmt":
		in := evil()
		rec = wrapRec(cfg, sigWrapper(in, signBy(pick(r, 0, 1), otherFmt, in), true), pickBody())
	case "edit-keep":
		rec = wrapRec(cfg, sigWrapper(edited(), sig, true), pickBody())
	case "edit-nosig":
		rec = wrapRec(cfg, sigWrapper(edited(), "", false), pickBody())
	case "edit-emptysig":
		rec = wrapRec(cfg, sigWrapper(edited(), "", true), pickBody())
	case "edit-othersig":
		in := edited()
		rec = wrapRec(cfg, sigWrapper(in, signBy(1, cfg.Sig, in), true), pickBody())
	case "swapsig":
		if inner == inner2 {
			return nil, ""
		}
		rec = wrapRec(cfg, sigWrapper(inner, sig2, true), body(a))
	case "sigisembedded":
		rec = wrapRec(cfg, sigWrapper(sig, sig, true), pickBody())
	case "embedtwice": // a wrapper signed by nobody around a properly signed one
		j := hdrJSON(sigWrapper(inner, sig, true))
		rec = wrapRec(cfg, sigWrapper(j, sig, true), body(a))
	case "swapcontent":
		rec = wrapRec(cfg, sigWrapper(inner, sig, true), body(b))
		place = 0
	case "newcontent":
		rec = wrapRec(cfg, sigWrapper(inner, sig, true), ev)
		place = 0
	case "trunccontent":
		bd := body(a)
		rec = wrapRec(cfg, sigWrapper(inner, sig, true), bd[:r.N(len(bd)+1)])
		place = 0
	case "emptycontent":
		rec = wrapRec(cfg, sigWrapper(inner, sig, true), nil)
		place = 0
	case "extend":
		rec = wrapRec(cfg, sigWrapper(inner, sig, true), append(append([]byte(nil), body(a)...), pick(r, r.Bytes(1+r.N(600)), body(a), make([]byte, 1+r.N(600)))...))
		place = 0
	case "outer": // the wrapper's own fields
		h := sigWrapper(inner, sig, true)
		if r.P(40) { // ... around something else
			h = sigWrapper(pick(r, evil(), edited()), pick(r, sig, garbage, ""), r.P(70))
		}
		if cfg.Enc == "" {
			h.Name, h.Mode, h.Typeflag, h.Uid = "/evil", 0777, tar.TypeReg, 4
			h.PAXRecords["STFS.Action"] = "DELETE"
			h.PAXRecords["STFS.UncompressedSize"] = "3"
			if r.P(50) {
				setType(h, r, b.Name)
			}
		}
		bd := body(a)
		if cfg.Enc == "" && h.Typeflag != tar.TypeReg {
			bd = nil
		}
		rec = wrapRec(cfg, h, bd)
		place = 0
	case "resig":
		raw, _ := base64.StdEncoding.DecodeString(sig)
		s := pick(r, base64.RawStdEncoding.EncodeToString(raw), base64.URLEncoding.EncodeToString(raw), sig[:len(sig)/2]+"\n"+sig[len(sig)/2:], strings.ToLower(sig))
		rec = wrapRec(cfg, sigWrapper(pick(r, inner, edited()), s, true), body(a))
	case "sigflip":
		raw, _ := base64.StdEncoding.DecodeString(sig)
		if len(raw) == 0 {
			return nil, ""
		}
		raw[r.N(len(raw))] ^= byte(1 + r.N(255))
		rec = wrapRec(cfg, sigWrapper(pick(r, inner, edited()), base64.StdEncoding.EncodeToString(raw), true), body(a))
	case "pgppkt":
		var buf bytes.Buffer
		in := evil()
		if pick(r, 0, 1) == 0 {
			_ = keyN(1).pgpPub[0].Serialize(&buf)
		} else {
			w, err := openpgp.Sign(&buf, keyN(pick(r, 0, 1)).pgp[0], nil, nil)
			if err == nil {
				_, _ = w.Write([]byte(in))
				_ = w.Close()
			}
		}
		rec = wrapRec(cfg, sigWrapper(in, base64.StdEncoding.EncodeToString(buf.Bytes()), true), pickBody())
	case "reorder":
		if ai == bi {
			return nil, ""
		}
		i, j := min(ai, bi), max(ai, bi)
		p, q := recs[i], recs[j]
		out := append([]byte(nil), tape[:p.Start]...)
		out = append(out, tape[q.Start:q.End]...)
		out = append(out, tape[p.End:q.Start]...)
		out = append(out, tape[p.Start:p.End]...)
		out = append(out, tape[q.End:]...)
		return out, fmt.Sprintf("records %d and %d exchanged", i, j)
	case "dup":
		rec = tape[a.Start:a.End]
		if place == 0 {
			place = 1
		}
	case "drop":
		return append(append([]byte(nil), tape[:a.Start]...), tape[a.End:]...), fmt.Sprintf("record %d dropped", ai)
	default:
		harnessf("unknown forgery %q", x.S)
	}
	if rec == nil {
		return nil, ""
	}
	out := append([]byte(nil), tape[:a.Start]...)
	where := ""
	switch place {
	case 0:
		out = append(append(out, rec...), tape[a.End:]...)
		where = fmt.Sprintf("in place of record %d (%q)", ai, a.Name)
	case 1:
		out = append(append(out, rec...), tape[a.Start:]...)
		where = fmt.Sprintf("before record %d (%q)", ai, a.Name)
	default:
		out = append(append([]byte(nil), tape...), rec...)
		out = append(out, make([]byte, 2*blk)...)
		where = "at the end"
	}
	return out, fmt.Sprintf("forgery %q %s", x.S, where)
}

var (
	_ = config.NoneKey
	_ = filepath.Join
)
