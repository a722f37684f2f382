package main

import (
	"archive/tar"
	"bytes"
	"fmt"
	"io"
	"path"
	"strconv"
	"strings"
)

// An independent reader of the tape: finds records by their physical layout, knows nothing of the index.

// Rec is one record (a tar member with its extension headers).
type Rec struct {
	Start   int64 // first block (extension header included)
	Content int64 // first byte of the member data
	End     int64 // after the padded member data
	Outer   *tar.Header
	H       *tar.Header // header after decryption and signature unwrapping (== Outer for plain tapes)
	Act     string
	Name    string // normalised logical name
	Old     string // normalised ReplacesName or ""
	Repl    bool   // ReplacesContent
	Size    int64  // logical size
}

func paxOr(h *tar.Header, k, d string) string {
	if v, ok := h.PAXRecords[k]; ok {
		return v
	}
	return d
}

func octal(b []byte) (int64, bool) {
	s := strings.Trim(string(b), " \x00")
	if s == "" {
		return 0, true
	}
	v, err := strconv.ParseInt(s, 8, 64)
	return v, err == nil
}

func headerSum(b []byte) (int64, bool) {
	want, ok := octal(b[148:156])
	if !ok {
		return 0, false
	}
	var u, s int64
	for i, c := range b[:512] {
		if i >= 148 && i < 156 {
			c = ' '
		}
		u += int64(c)
		s += int64(int8(c))
	}
	return want, want == u || want == s
}

func numField(b []byte) (int64, bool) {
	if b[0]&0x80 != 0 { // base-256
		var v int64
		for i, c := range b {
			if i == 0 {
				c &= 0x7f
			}
			v = v<<8 | int64(c)
		}
		return v, true
	}
	return octal(b)
}

func isZero(b []byte) bool {
	for _, c := range b {
		if c != 0 {
			return false
		}
	}
	return true
}

func pad512(n int64) int64 { return (n + blk - 1) / blk * blk }

// ScanTape lists the complete records of b. tail describes what follows the last complete record:
// "" (nothing but zero blocks), or why the rest is not a record, with the offset where it starts.
func ScanTape(b []byte) (recs []Rec, tail string, tailAt int64) {
	pos := int64(0)
	n := int64(len(b))
	for {
		for pos+blk <= n && isZero(b[pos:pos+blk]) {
			pos += blk
		}
		if pos >= n {
			return recs, "", pos
		}
		if pos+blk > n {
			return recs, fmt.Sprintf("%d trailing bytes", n-pos), pos
		}
		start := pos
		p := pos
		var paxSize int64 = -1
		ok := false
		for p+blk <= n {
			h := b[p : p+blk]
			if isZero(h) {
				return recs, "extension header without member", start
			}
			if _, good := headerSum(h); !good {
				return recs, "not a header", start
			}
			size, good := numField(h[124:136])
			if !good {
				return recs, "bad size", start
			}
			tf := h[156]
			if tf == 'x' || tf == 'L' || tf == 'K' {
				end := p + blk + pad512(size)
				if end > n {
					return recs, "cut extension header", start
				}
				if tf == 'x' {
					paxSize = paxSizeOf(b[p+blk : p+blk+size])
				}
				p = end
				continue
			}
			if paxSize >= 0 {
				size = paxSize
			}
			if tf == '1' || tf == '2' || tf == '3' || tf == '4' || tf == '5' || tf == '6' {
				size = 0
			}
			tr := tar.NewReader(bytes.NewReader(b[start:]))
			hdr, err := tr.Next()
			if err != nil {
				return recs, "unreadable header: " + err.Error(), start
			}
			end := p + blk + pad512(size)
			if p+blk+size > n {
				return recs, "cut content", start
			}
			if end > n {
				return recs, "cut padding", start
			}
			recs = append(recs, Rec{Start: start, Content: p + blk, End: end, Outer: hdr, H: hdr})
			pos = end
			ok = true
			break
		}
		if !ok {
			return recs, "cut header", start
		}
	}
}

func paxSizeOf(b []byte) int64 {
	for len(b) > 0 {
		i := bytes.IndexByte(b, ' ')
		if i < 0 {
			return -1
		}
		l, err := strconv.Atoi(string(b[:i]))
		if err != nil || l <= i+1 || l > len(b) {
			return -1
		}
		kv := string(b[i+1 : l-1])
		if strings.HasPrefix(kv, "size=") {
			v, err := strconv.ParseInt(kv[5:], 10, 64)
			if err == nil {
				return v
			}
		}
		b = b[l:]
	}
	return -1
}

// decodeRecs interprets the records with the environment's keys.
func decodeRecs(e *Env, recs []Rec) error {
	for i := range recs {
		h := *recs[i].Outer
		hp := &h
		if err := e.decryptHeader(hp, 0); err != nil {
			return fmt.Errorf("record at %d: decrypt header: %w", recs[i].Start, err)
		}
		if err := e.verifyHeader(hp, true); err != nil {
			return fmt.Errorf("record at %d: verify header: %w", recs[i].Start, err)
		}
		interpret(&recs[i], hp, e.Cfg)
	}
	return nil
}

func interpret(r *Rec, hp *tar.Header, cfg Cfg) {
	r.H = hp
	r.Act = paxOr(hp, "STFS.Action", "CREATE")
	r.Size = hp.Size
	name := hp.Name
	if v, ok := hp.PAXRecords["STFS.UncompressedSize"]; ok {
		r.Size, _ = strconv.ParseInt(v, 10, 64)
		if hp.Typeflag == tar.TypeReg {
			name = strings.TrimSuffix(name, encSuffix[cfg.Enc])
			name = strings.TrimSuffix(name, compSuffix[cfg.Comp])
		}
	}
	r.Name = mclean(name)
	if o, ok := hp.PAXRecords["STFS.ReplacesName"]; ok {
		r.Old = mclean(o)
	}
	r.Repl = hp.PAXRecords["STFS.ReplacesContent"] == "true"
}

var compSuffix = map[string]string{"": "", "gzip": ".gz", "parallelgzip": ".gz", "lz4": ".lz4", "zstandard": ".zst", "brotli": ".br", "bzip2": ".bz2", "parallelbzip2": ".bz2"}
var encSuffix = map[string]string{"": "", "age": ".age", "pgp": ".pgp"}

// TEntry is one live entry according to the tape.
type TEntry struct {
	Name, Link   string
	Type         byte
	Dir          bool
	Size         int64
	Mode         int64
	UID, GID     int
	Uname, Gname string
	MT, AT, CT   int64
	At           int64 // start of the record which holds the content
	Last         int64 // start of the last record which mentions the entry
	Rec          int   // index of the content record
}

// replay computes the live entries from the records: the meaning of the format, record by record.
func replay(recs []Rec) map[string]*TEntry {
	m := map[string]*TEntry{}
	for i := range recs {
		replayOne(m, recs, i)
	}
	return m
}

func entryOf(r *Rec, i int) *TEntry {
	h := r.H
	return &TEntry{Name: r.Name, Link: h.Linkname, Type: h.Typeflag, Dir: h.Typeflag == tar.TypeDir, Size: r.Size, Mode: h.Mode,
		UID: h.Uid, GID: h.Gid, Uname: h.Uname, Gname: h.Gname, MT: tns(h.ModTime), AT: tns(h.AccessTime), CT: tns(h.ChangeTime),
		At: r.Start, Last: r.Start, Rec: i}
}

func replayOne(m map[string]*TEntry, recs []Rec, i int) {
	r := &recs[i]
	switch r.Act {
	case "CREATE":
		m[r.Name] = entryOf(r, i)
	case "DELETE":
		delete(m, r.Name)
	case "UPDATE":
		old := r.Name
		if r.Old != "" {
			old = r.Old
		}
		e := m[old]
		if e == nil {
			return
		}
		n := entryOf(r, i)
		if !r.Repl {
			n.At, n.Size, n.Rec = e.At, e.Size, e.Rec
		}
		if r.Old != "" {
			delete(m, old)
		}
		m[r.Name] = n
	}
}

// standardScan iterates the tape with the standard tar reader, restarting after every trailer
// ("ignore zeros"), and returns an error if anything cannot be iterated.
func standardScan(b []byte, f func(off int64, h *tar.Header, data []byte) error) (int, error) {
	count := 0
	off := int64(0)
	for {
		for off+blk <= int64(len(b)) && isZero(b[off:off+blk]) {
			off += blk
		}
		if off >= int64(len(b)) {
			return count, nil
		}
		rd := bytes.NewReader(b[off:])
		tr := tar.NewReader(rd)
		for {
			h, err := tr.Next()
			if err == io.EOF {
				break
			}
			if err != nil {
				return count, fmt.Errorf("archive at %d: member %d: %w", off, count, err)
			}
			data, err := io.ReadAll(tr)
			if err != nil {
				return count, fmt.Errorf("archive at %d: content of %q: %w", off, h.Name, err)
			}
			count++
			if f != nil {
				if err := f(off, h, data); err != nil {
					return count, err
				}
			}
		}
		next := int64(len(b)) - int64(rd.Len())
		if next <= off {
			return count, fmt.Errorf("archive at %d: no progress", off)
		}
		off = next
	}
}

// rowsOf returns the live index rows keyed by normalised name (and link name for links).
func rowsOf(e *Env) map[string]Row {
	hs, err := e.P.GetHeaders(ctx)
	if err != nil {
		failf("reading the index: %v", err)
	}
	m := map[string]Row{}
	for _, h := range hs {
		r := rowOf(h)
		k := mclean(r.Name)
		if r.Link != "" {
			k += "\x00" + r.Link
		}
		if _, dup := m[k]; dup {
			failf("the index has two live entries named %q", k)
		}
		m[k] = r
	}
	return m
}

// compareRowsTape compares index rows with the replay of the tape; pos: also positions.
func compareRowsTape(rows map[string]Row, want map[string]*TEntry, rs int, pos bool) string {
	var ks []string
	for k := range rows {
		ks = append(ks, k)
	}
	sortStrings(ks)
	for _, k := range ks {
		if want[k] == nil {
			return fmt.Sprintf("index entry %q is not live on the tape", k)
		}
	}
	ks = ks[:0]
	for k := range want {
		ks = append(ks, k)
	}
	sortStrings(ks)
	for _, k := range ks {
		w := want[k]
		r, ok := rows[k]
		if !ok {
			return fmt.Sprintf("%q is live on the tape but not in the index", k)
		}
		if d := rowTapeDiff(r, w, rs, pos); d != "" {
			return fmt.Sprintf("index entry %q: %s", k, d)
		}
	}
	return ""
}

func posOf(rec, b int64, rs int) int64 { return (rec*int64(rs) + b) * blk }

func rowTapeDiff(r Row, w *TEntry, rs int, pos bool) string {
	switch {
	case byte(r.Type) != w.Type:
		return fmt.Sprintf("type %c, tape %c", rune(r.Type), w.Type)
	case !w.Dir && r.Size != w.Size:
		return fmt.Sprintf("size %d, tape %d", r.Size, w.Size)
	case r.Mode != w.Mode:
		return fmt.Sprintf("mode %o, tape %o", r.Mode, w.Mode)
	case int(r.UID) != w.UID || int(r.GID) != w.GID || r.Uname != w.Uname || r.Gname != w.Gname:
		return fmt.Sprintf("owner %d:%d %q:%q, tape %d:%d %q:%q", r.UID, r.GID, r.Uname, r.Gname, w.UID, w.GID, w.Uname, w.Gname)
	case r.MT != w.MT:
		return fmt.Sprintf("mtime %d, tape %d", r.MT, w.MT)
	case r.AT != w.AT:
		return fmt.Sprintf("atime %d, tape %d", r.AT, w.AT)
	case r.CT != w.CT:
		return fmt.Sprintf("ctime %d, tape %d", r.CT, w.CT)
	}
	if pos {
		if p := posOf(r.Rec, r.Blk, rs); p != w.At {
			return fmt.Sprintf("position (%d, %d) = byte %d, the content's record starts at byte %d", r.Rec, r.Blk, p, w.At)
		}
		if p := posOf(r.LRec, r.LBlk, rs); p != w.Last {
			return fmt.Sprintf("last known position (%d, %d) = byte %d, the last record of the entry starts at byte %d", r.LRec, r.LBlk, p, w.Last)
		}
		if r.Blk >= int64(rs) || r.LBlk >= int64(rs) || r.Blk < 0 || r.LBlk < 0 {
			return fmt.Sprintf("block out of range: (%d,%d) last (%d,%d) with record size %d", r.Rec, r.Blk, r.LRec, r.LBlk, rs)
		}
	}
	return ""
}

var _ = path.Join
