package main

import (
	"archive/tar"
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path"
	"strings"

	"github.com/pojntfx/stfs/pkg/compression"
	"github.com/pojntfx/stfs/pkg/recovery"
)

// C09: with encryption on, the tape reveals nothing but record sizes.

func init() {
	register(&Check{
		ID: "C09", Level: "exploration",
		Rule:  "histories of 4-17 filesystem and archive calls (symlinks included) under {age, pgp} x compressions x signatures; every name, link target, owner, time and content carries a unique marker. After every call the raw tape is searched for every marker (raw, hex, base64 in the three alignments, decimal/octal/binary for numbers) and so is everything on it that decodes as base64 or decompresses; and the clear wrapper of all records has to be the same bytes except sizes and one opaque value, with zero padding. At the end a different private key and missing keys are tried: indexing, querying, opening, restoring, reading and fetching every record has to fail, and the tape stays as it was. Non-trivial: at least 4 records, 3 kinds of markers and one non-empty content.",
		Assum: []string{"lengths (of header and content ciphertext) are allowed to be visible", "the encryption algorithms are sound"},
		Quick: 4500, QuickS: 50, Thorough: 120000, ThorS: 700,
		Gen: genC09,
		Run: runC09,
	})
}

func markName(r *Rng) string {
	const al = "abcdefghijkmnpqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789"
	b := make([]byte, 14+r.N(8))
	for i := range b {
		b[i] = al[r.N(len(al))]
	}
	s := "M" + string(b)
	if r.P(10) {
		s += strings.Repeat("y", 80+r.N(40))
	}
	return s
}

func genC09(r *Rng, i int, tier string) *Case {
	c := &Case{Cfg: genCfg(r, 0)}
	c.Cfg.Enc = pick(r, "age", "pgp")
	if r.P(35) {
		c.Cfg.Comp = ""
	}
	p := newPool(r, 0)
	p.names = nil
	for k := 0; k < 4+r.N(3); k++ {
		p.names = append(p.names, markName(r))
	}
	n := 4 + r.N(14)
	ops := genHistoryPool(p, &c.Cfg, n, histOpts{arch: true, big: 3, w: map[string]int{"chown": 10, "chtimes": 10, "chmod": 5, "arch": 10, "update": 6, "write": 24}})
	for _, op := range ops {
		switch op.K {
		case "chown":
			op.UID, op.GID = markNum(r), markNum(r)
		case "chtimes":
			op.T1, op.T2 = markTime(r), markTime(r)
		}
		for j := range op.It {
			it := &op.It[j]
			it.T = markTime(r)
			if it.Sys {
				it.UID, it.GID, it.AT, it.CT = markNum(r), markNum(r), markTime(r), markTime(r)
				it.Uname, it.Gname, it.Pax = markName(r), markName(r), markName(r)
			}
		}
		markData(r, &op)
		c.Ops = append(c.Ops, op)
		if r.P(12) {
			c.Ops = append(c.Ops, Op{K: "symlink", P: p.target('f', 60), Q: "/" + p.name() + "L"})
		}
		if r.P(6) {
			c.Ops = append(c.Ops, Op{K: pick(r, "reopen", "rebuilt")})
		}
	}
	return c
}

func markNum(r *Rng) int    { return 1000000000 + r.N(1147483647) }
func markTime(r *Rng) int64 { return (1000000000+int64(r.N(700000000)))*1e9 + int64(r.N(1e9)) }

// markData makes contents self-describing: kind "mark" repeats one high-entropy string.
func markData(r *Rng, op *Op) {
	for i := range op.H {
		if d := op.H[i].Data; d != nil {
			op.H[i].Data = &Data{N: max(d.N, 40), Kind: pick(r, "mark", "mark", "rand"), Seed: r.U64() % 1e9}
		}
	}
	for i := range op.It {
		if d := op.It[i].Data; d != nil && d.N > 0 {
			op.It[i].Data = &Data{N: max(d.N, 40), Kind: pick(r, "mark", "rand"), Seed: r.U64() % 1e9}
		}
	}
}

// markers collects what must not be visible.
type markers struct {
	kinds map[string]int
	pats  map[string]string // pattern -> description
}

func (m *markers) add(kind, desc string, b []byte) {
	if len(b) < 9 {
		return
	}
	if _, ok := m.pats[string(b)]; ok {
		return
	}
	m.kinds[kind]++
	m.pats[string(b)] = desc
	m.pats[hex.EncodeToString(b)] = desc + " in hex"
	m.pats[strings.ToUpper(hex.EncodeToString(b))] = desc + " in hex"
	for off := 0; off < 3; off++ {
		x := append(make([]byte, off), b...)
		for _, enc := range []*base64.Encoding{base64.StdEncoding, base64.URLEncoding} {
			s := enc.EncodeToString(x)
			lo := (off*8 + 5) / 6
			hi := (off*8 + len(b)*8) / 6
			if hi-lo >= 10 {
				m.pats[s[lo:hi]] = desc + " in base64"
			}
		}
	}
}

func (m *markers) num(kind string, v int64) {
	m.kinds[kind]++
	desc := fmt.Sprintf("%s %d", kind, v)
	for _, f := range []string{"%d", "%o"} {
		if s := fmt.Sprintf(f, v); len(s) >= 9 {
			m.pats[s] = desc
		}
	}
}

func (m *markers) path(p string) {
	for _, s := range strings.Split(p, "/") {
		if len(s) >= 12 {
			m.add("name", "the name "+s, []byte(s[:12]))
			if len(s) > 30 {
				m.add("name", "the name "+s, []byte(s[len(s)-20:]))
			}
		}
	}
}

func (m *markers) data(d *Data) {
	b := d.Bytes()
	if len(b) < 40 {
		return
	}
	for _, o := range []int{0, len(b) / 2, len(b) - 20} {
		if o+20 <= len(b) {
			m.add("content", fmt.Sprintf("content %s at %d", brief(b), o), b[o:o+20])
		}
	}
}

func (m *markers) op(op Op) {
	m.path(op.P)
	m.path(op.Q)
	if op.K == "chown" {
		m.num("owner", int64(op.UID))
		m.num("owner", int64(op.GID))
	}
	if op.K == "chtimes" {
		m.num("time", op.T1/1e9)
		m.num("time", op.T2/1e9)
	}
	for _, it := range op.It {
		m.path(it.Path)
		m.path(it.Link)
		m.num("time", it.T/1e9)
		if it.Sys {
			m.num("owner", int64(it.UID))
			m.num("owner", int64(it.GID))
			m.num("time", it.AT/1e9)
			m.num("time", it.CT/1e9)
			m.path(it.Uname)
			m.path(it.Gname)
			m.path(it.Pax)
		}
		m.data(it.Data)
	}
	for _, h := range op.H {
		m.data(h.Data)
	}
}

func (m *markers) find(b []byte) string {
	for p, d := range m.pats {
		if i := bytes.Index(b, []byte(p)); i >= 0 {
			return fmt.Sprintf("%s at byte %d", d, i)
		}
	}
	return ""
}

func runC09(c *Case, r *Result) {
	if c.Cfg.Enc == "" {
		return
	}
	withEnv(c, func(e *Env) {
		in := &instance{e: e}
		defer in.close()
		m := &markers{map[string]int{}, map[string]string{}}
		nrec, from := 0, int64(0)
		var tmpl []byte
		for i, op := range c.Ops {
			what := fmt.Sprintf("after op %d %s", i, opString(op))
			m.op(op)
			if isSwap(op.K) {
				in.swap(op, c.Cfg)
			} else {
				_ = sysOp(in.e, in.e.FS, op)
			}
			currentCall = what + ": search"
			tape := in.e.TapeBytes()
			lo := max(0, from-4096)
			if lo > int64(len(tape)) {
				lo = 0
			}
			if i == len(c.Ops)-1 {
				lo = 0
			}
			if d := m.find(tape[lo:]); d != "" {
				failf("%s: the tape contains %s (searched from %d)", what, d, lo)
			}
			recs, tail, _ := ScanTape(tape)
			if tail != "" {
				failf("%s: the tape ends in %s", what, tail)
			}
			if lo == 0 {
				nrec = 0
			}
			tmpl = checkWrappers(in.e, tape, recs, nrec, tmpl, m, what, r)
			nrec, from = len(recs), int64(len(tape))
			r.Checks += len(m.pats)
		}
		foreignKey(in.e, r)
		r.NT = nrec >= 4 && len(m.kinds) >= 3 && m.kinds["content"] > 0
		for k := range m.kinds {
			r.cls("marker: " + k)
		}
		r.cls(c.Cfg.Enc + "/" + c.Cfg.Comp + "/" + c.Cfg.Sig)
	})
}

// checkWrappers: what is in clear around the records from nrec on is the same for all of them.
func checkWrappers(e *Env, tape []byte, recs []Rec, nrec int, tmpl []byte, m *markers, what string, r *Result) []byte {
	prev := int64(0)
	for i, rc := range recs {
		if gap := tape[prev:rc.Start]; !isZero(gap) {
			failf("%s: something other than zeros between the records at byte %d", what, prev)
		}
		prev = rc.End
		if i < nrec {
			continue
		}
		r.Checks++
		where := fmt.Sprintf("%s: record %d at byte %d", what, i, rc.Start)
		h := rc.Outer
		v, ok := h.PAXRecords[paxEmbedded]
		if !ok {
			failf("%s has no embedded header: %q", where, h.Name)
		}
		for k := range h.PAXRecords {
			if k != paxEmbedded && k != "size" {
				failf("%s shows the record %s in clear", where, k)
			}
		}
		raw, err := base64.StdEncoding.DecodeString(v)
		if err != nil {
			failf("%s: the embedded header is not opaque: %v", where, err)
		}
		opaque(e, where+": the embedded header", raw, m)
		body := tape[rc.Content : rc.Content+h.Size]
		if rc.Content == rc.End {
			body = nil
		}
		if len(body) > 0 {
			opaque(e, where+": the content", body, m)
		}
		if pad := tape[rc.Content+int64(len(body)) : rc.End]; !isZero(pad) {
			failf("%s: the padding is not zero", where)
		}
		// all header blocks with sizes, checksums and the one opaque value blanked
		hd := append([]byte(nil), tape[rc.Start:rc.Content]...)
		j := bytes.Index(hd, []byte(paxEmbedded+"="+v))
		if j < 0 {
			failf("%s: the embedded header is not stored as it is", where)
		}
		var t []byte
		for p := 0; p+blk <= len(hd); {
			b := append([]byte(nil), hd[p:p+blk]...)
			size, _ := numField(b[124:136])
			ext := b[156] == 'x'
			copy(b[124:136], make([]byte, 12))
			copy(b[148:156], make([]byte, 8))
			t = append(t, b...)
			p += blk
			if ext {
				pay := string(hd[p : p+int(size)])
				// keep the record's shape, not its length and value
				pay = strings.Replace(pay, v, "", 1)
				pay = strings.TrimLeft(pay, "0123456789")
				if k := strings.Index(pay, "\n"); k >= 0 && strings.Contains(pay[k:], "size=") {
					pay = pay[:k+1]
				}
				t = append(t, pay...)
				if pad := hd[p+int(size) : p+int(pad512(size))]; !isZero(pad) {
					failf("%s: the padding of the extension header is not zero", where)
				}
				p += int(pad512(size))
			}
		}
		if tmpl == nil {
			tmpl = t
		}
		if !bytes.Equal(t, tmpl) {
			k := 0
			for k < len(t) && k < len(tmpl) && t[k] == tmpl[k] {
				k++
			}
			failf("%s: its clear wrapper differs from that of the first record (at %d: %q, %q)", where, k, clipAt(t, k), clipAt(tmpl, k))
		}
	}
	return tmpl
}

func clipAt(b []byte, k int) []byte {
	lo, hi := max(0, k-8), min(len(b), k+40)
	if lo > hi {
		lo = hi
	}
	return b[lo:hi]
}

// opaque: the bytes are a message of the encryption format and do not decode to a marker without a key.
func opaque(e *Env, what string, b []byte, m *markers) {
	switch e.Cfg.Enc {
	case "age":
		if !bytes.HasPrefix(b, []byte("age-encryption.org/v1\n")) {
			failf("%s is not an age message: %s", what, brief(b))
		}
	case "pgp":
		if len(b) == 0 || b[0]&0x80 == 0 {
			failf("%s is not a PGP message: %s", what, brief(b))
		}
		tag := (b[0] >> 2) & 15
		if b[0]&0x40 != 0 {
			tag = b[0] & 63
		}
		if tag != 1 && tag != 3 { // encrypted session key
			failf("%s does not begin with an encrypted session key (packet %d)", what, tag)
		}
	}
	if d := m.find(b); d != "" {
		failf("%s contains %s", what, d)
	}
	var h tar.Header
	if json.Unmarshal(b, &h) == nil {
		failf("%s is a header in clear", what)
	}
	for _, comp := range []string{"gzip", "lz4", "zstandard", "bzip2", "brotli"} {
		if comp != e.Cfg.Comp && !(comp == "gzip" && e.Cfg.Comp == "parallelgzip") && !(comp == "bzip2" && e.Cfg.Comp == "parallelbzip2") {
			continue
		}
		for _, off := range []int{0} {
			d, err := compression.Decompress(bytes.NewReader(b[off:]), comp)
			if err != nil {
				continue
			}
			out, _ := io.ReadAll(io.LimitReader(d, 1<<20))
			if f := m.find(out); f != "" {
				failf("%s decompresses to something that contains %s", what, f)
			}
		}
	}
}

func foreignKey(e *Env, r *Result) {
	tape := e.TapeBytes()
	rows, err := e.P.GetHeaders(ctx)
	if err != nil {
		failf("reading the index: %v", err)
	}
	recs, _, _ := ScanTape(tape)
	for _, v := range []EnvOpts{{Keys: 1}, {NoKeys: true}} {
		who := "a different private key"
		if v.NoKeys {
			who = "no key"
		}
		v.DB = ":memory:"
		n, err := NewEnv(e.Dir, e.Tape, e.Cfg, v)
		if err != nil {
			harnessf("env: %v", err)
		}
		currentCall = "Index with " + who
		if err := n.Index(0, 0, true, 0); err == nil {
			failf("rebuilding the index with %s succeeds", who)
		}
		hs, err := n.P.GetHeaders(ctx)
		if err != nil {
			failf("reading the index: %v", err)
		}
		if len(hs) > 0 {
			failf("rebuilding the index with %s reveals %q", who, hs[0].Name)
		}
		currentCall = "Query with " + who
		reader, err := n.BE.GetReader()
		if err != nil {
			harnessf("reader: %v", err)
		}
		qs, err := recovery.Query(reader, n.BE.MagneticTapeIO, n.Pipes, n.RC, 0, 0, nil)
		n.BE.CloseReader()
		if err == nil || len(qs) > 0 {
			failf("a query with %s gives %d headers (error %v)", who, len(qs), err)
		}
		currentCall = "Fetch with " + who
		for _, rc := range recs {
			if b, dir, err := fetchAt(n, int(rc.Start/blk)/e.Cfg.RS, int(rc.Start/blk)%e.Cfg.RS); err == nil {
				failf("fetching the record at byte %d with %s succeeds: %s dir=%v", rc.Start, who, brief(b), dir)
			}
			r.Checks++
		}
		currentCall = "Initialize with " + who
		if err := n.Init(); err == nil {
			failf("opening the tape as a filesystem with %s succeeds", who)
		}
		n.Close()
		if string(e.TapeBytes()) != string(tape) {
			failf("opening the tape with %s changed it", who)
		}
		// with the index at hand
		copyFile(e.DB, path.Join(e.Dir, "stolen.sqlite"))
		v.DB = path.Join(e.Dir, "stolen.sqlite")
		n, err = NewEnv(e.Dir, e.Tape, e.Cfg, v)
		if err != nil {
			harnessf("env: %v", err)
		}
		for _, row := range rows {
			currentCall = "Restore with " + who
			if out, err := restoreAll(n, row.Name, "out", true); err == nil && row.Linkname == "" {
				failf("restoring %q with %s succeeds: %d entries", row.Name, who, len(out))
			} else {
				for _, o := range out {
					if o.buf != nil && o.buf.Len() > 0 {
						failf("restoring %q with %s writes %s", row.Name, who, brief(o.buf.Bytes()))
					}
				}
			}
			if row.Typeflag == int64(tar.TypeReg) && row.Size > 0 && row.Linkname == "" {
				if b, err := ReadAll(n.FS, row.Name); err == nil || len(b) > 0 {
					failf("reading %q with %s: %s, error %v", row.Name, who, brief(b), err)
				}
			}
			r.Checks++
		}
		n.Close()
		_ = os.Remove(v.DB)
	}
}
