package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/spf13/afero"
)

// C11: concurrent callers see a linearizable, race-free filesystem.

func init() {
	register(&Check{
		ID: "C11", Level: "exploration",
		Rule:  "programs of 2-8 concurrent clients with 1-5 actions each (create/write/close sessions, read sessions, partial reads, mkdir, mkdirall, remove, removeall, rename, chmod, chown, chtimes, stat, directory sessions) over a pool of a few conflicting paths, after a sequential setup; 55% of the programs pair one client whose calls touch several entries (moving, removing or making whole trees) with clients that observe just those entries, or lets several clients call one shared handle, or all create the same few entries; each program is run under 3 (thorough: 8) schedules, perturbed by seeded yields and short sleeps at every drive and index operation and by up to two long pauses at chosen operations, during which everything runs that no lock keeps out. Built with the race detector. The recorded history (results with real-time intervals of every call) must have a sequential witness, searched first in the reference model, then, if the model finds none, by executing the candidate orders sequentially on the real code. The final tree must be the witness' final tree and equal a rebuild and a reopen. Non-trivial: at least two clients overlap in at least 3 pairs of calls of which one mutates.",
		Assum: []string{"a handle is bound to its path and takes its content when it first reads or writes; closing a written handle publishes the content", "schedules are sampled, not enumerated", "timestamps set by creation and writing are not compared with the witness"},
		Quick: 5000, QuickS: 110, Thorough: 40000, ThorS: 750, Workers: 8, CPUs: 120,
		Gen: genC11, Run: runC11,
	})
}

func genC11(r *Rng, i int, tier string) *Case {
	c := &Case{Cfg: genCfg(r, 82)}
	c.Cfg.Level = "fastest"
	p := newPool(r, 10)
	p.names = p.names[:2+r.N(len(p.names)-1)]
	p.depth = 2
	c.Ops = genHistoryPool(p, &c.Cfg, 1+r.N(5), histOpts{w: map[string]int{"remove": 0, "removeall": 0, "chmod": 0, "chown": 0, "chtimes": 0, "rename": 0}})
	reps := 3
	if tier == "thorough" {
		reps = 8
	}
	if r.P(55) {
		if r.P(18) {
			genC11Create(r, c)
		} else {
			genC11Focus(r, c)
		}
		c.I = []int64{int64(r.U64() % 1000000), int64(reps + 2), int64(pick(r, 0, 1, 2, 2, 3))}
		return c
	}
	nc := pick(r, 2, 2, 3, 3, 4, 6, 8)
	left := 22
	for k := 0; k < nc; k++ {
		var ops []Op
		for n := 1 + r.N(5); n > 0 && left > 0; n-- {
			before := len(ops)
			ops = append(ops, genClientAction(p, c)...)
			left -= len(ops) - before
		}
		c.Cli = append(c.Cli, ops)
	}
	c.I = []int64{int64(r.U64() % 1000000), int64(reps), int64(pick(r, 0, 1, 2, 2, 3))}
	return c
}

// genC11Focus makes programs in which one client runs calls that touch several entries (or one entry in several
// steps) while the others mostly observe exactly those entries.
func genC11Focus(r *Rng, c *Case) {
	p := newPool(r, 3)
	n := p.names[:3]
	d, f, x, e := "/"+n[0], "/"+n[1], "/"+n[2], "/"+n[2]+"e"
	j := func(a string, b ...string) string { return a + "/" + strings.Join(b, "/") }
	k1, k2, k3 := j(d, n[0]), j(d, n[1]), j(d, n[1], n[2])
	small := func() *Data {
		return &Data{N: pick(r, 1, 5, 100, 600, 1500), Kind: pick(r, "rand", "text"), Seed: r.U64() % 1000}
	}
	file := func(q string) {
		c.Ops = append(c.Ops, Op{K: "open", P: q, Flag: createFlags, Mode: 0644, H: []HOp{{K: "write", Data: small()}}})
	}
	c.Ops = []Op{{K: "mkdir", P: d, Mode: 0755}}
	file(k1)
	if r.P(70) {
		c.Ops = append(c.Ops, Op{K: "mkdir", P: k2, Mode: 0755})
		if r.P(70) {
			file(k3)
		}
	}
	if r.P(60) {
		file(f)
	}
	if r.P(40) {
		c.Ops = append(c.Ops, Op{K: "mkdir", P: e, Mode: 0700})
	}
	session := func(q string) []Op {
		return []Op{{K: "hopen", P: q, Flag: pick(r, os.O_RDWR, os.O_WRONLY) | os.O_CREATE | pick(r, 0, os.O_TRUNC, os.O_APPEND), Mode: 0644}, {K: "hwrite", H: []HOp{{Data: small()}}}, {K: "hclose"}}
	}
	attr := func(q string) Op {
		switch r.N(4) {
		case 0, 1:
			return Op{K: "chmod", P: q, Mode: genMode(r)}
		case 2:
			return Op{K: "chown", P: q, UID: 1 + r.N(5), GID: 1 + r.N(5)}
		}
		return Op{K: "chtimes", P: q, T1: int64(1+r.N(5)) * 1e9, T2: int64(1+r.N(5)) * 1e9}
	}
	paths := []string{d, k1, k2, k3, f, e, x, j(x, n[0]), j(x, n[1], n[2]), "/"}
	any := func() string { return paths[r.N(len(paths))] }
	var a []Op
	for i := 1 + r.N(2); i > 0; i-- {
		switch r.N(12) {
		case 0, 1:
			a = append(a, Op{K: "removeall", P: d})
		case 2, 3, 4:
			a = append(a, Op{K: "rename", P: d, Q: pick(r, x, x, e)})
		case 5:
			a = append(a, Op{K: "rename", P: f, Q: pick(r, k1, x, k3)})
		case 6:
			a = append(a, Op{K: "rename", P: x, Q: d})
		case 7:
			a = append(a, Op{K: "mkdirall", P: j(x, n[0], n[1]), Mode: 0755})
		case 8:
			a = append(a, Op{K: "remove", P: pick(r, k1, k2, k3, f, e)})
		case 9:
			a = append(a, attr(pick(r, d, k1, f)))
		default:
			a = append(a, session(pick(r, k1, f, x, k3))...)
		}
	}
	c.Cli = [][]Op{a}
	left := 16
	sharing := r.P(25)
	if sharing {
		sp := pick(r, k1, k1, f)
		c.Ops2 = []Op{{K: "sopen", P: sp, Flag: pick(r, os.O_RDONLY, os.O_RDWR, os.O_RDWR, os.O_RDWR|os.O_APPEND, os.O_WRONLY) | pick(r, 0, os.O_CREATE) | pick(r, 0, 0, os.O_TRUNC), Mode: 0644}}
		if r.P(50) {
			c.Cli[0] = nil
			for i := 2 + r.N(3); i > 0; i-- {
				c.Cli[0] = append(c.Cli[0], genSharedCall(r))
			}
			a = c.Cli[0]
		}
	}
	for k := pick(r, 1, 1, 2, 3); k > 0; k-- {
		var ops []Op
		kinds := 16
		if r.P(65) {
			kinds = 10 // only looking at entries
		}
		touched := paths
		if a[0].P == d {
			touched = []string{d, k1, k2, k3, x, j(x, n[0]), j(x, n[1]), j(x, n[1], n[2])}
			if a[0].Q == e || a[0].K == "removeall" {
				touched = append(touched[:4:4], e, j(e, n[0]), j(e, n[1]))
			}
		}
		for i := 2 + r.N(4); i > 0 && left > 0; i-- {
			b := len(ops)
			if sharing && r.P(70) {
				ops = append(ops, genSharedCall(r))
				left--
				continue
			}
			switch r.N(kinds) {
			case 0, 1, 2, 3, 4, 5, 6:
				for m := pick(r, 1, 2, 4); m > 0; m-- {
					ops = append(ops, Op{K: "stat", P: touched[r.N(len(touched))]})
				}
			case 7, 8, 9:
				ops = append(ops, Op{K: "hopen", P: pick(r, d, d, d, x, "/", k2)}, Op{K: "hreaddir"}, Op{K: "hclose"})
			case 10, 11:
				ops = append(ops, Op{K: "hopen", P: pick(r, k1, k3, f, j(x, n[0]))}, Op{K: "hread", N: 1 << 20}, Op{K: "hclose"})
			case 12:
				ops = append(ops, session(pick(r, k1, f, x))...)
			case 13:
				ops = append(ops, attr(pick(r, d, k1, f)))
			case 14:
				ops = append(ops, Op{K: "mkdir", P: pick(r, x, j(d, n[2]), e), Mode: 0755})
			default:
				ops = append(ops, Op{K: pick(r, "remove", "removeall"), P: any()})
			}
			left -= len(ops) - b
		}
		for i := range ops {
			if o := &ops[i]; (o.K == "remove" || o.K == "removeall") && o.P == "/" {
				o.K = "stat"
			}
		}
		c.Cli = append(c.Cli, ops)
	}
}

// genC11Create makes programs in which all clients create the same few entries, in ways that depend on what is there.
func genC11Create(r *Rng, c *Case) {
	p := newPool(r, 3)
	n := p.names[:3]
	x := "/" + n[0]
	y := x + "/" + n[1]
	z := y + "/" + n[2]
	f := "/" + n[1]
	c.Ops = nil
	if r.P(60) {
		c.Ops = append(c.Ops, Op{K: "open", P: f, Flag: createFlags, Mode: 0644, H: []HOp{{K: "write", Data: &Data{N: 1 + r.N(600), Kind: "rand", Seed: r.U64() % 1000}}}})
	}
	if r.P(25) {
		c.Ops = append(c.Ops, Op{K: "mkdir", P: x, Mode: 0755})
	}
	mode := func(k int) uint32 { return []uint32{0701, 0702, 0703, 0704}[k%4] }
	c.Cli = nil
	for k := 0; k < pick(r, 2, 2, 3, 4); k++ {
		var ops []Op
		for i := 1 + r.N(3); i > 0; i-- {
			q := pick(r, x, x, y, z)
			switch r.N(10) {
			case 0, 1, 2:
				ops = append(ops, Op{K: "mkdirall", P: pick(r, x, y, z, z), Mode: mode(k)})
			case 3, 4:
				ops = append(ops, Op{K: "mkdir", P: q, Mode: mode(k)})
			case 5, 6:
				ops = append(ops, Op{K: "hopen", P: q, Flag: pick(r, os.O_RDWR, os.O_WRONLY) | os.O_CREATE | pick(r, 0, os.O_EXCL, os.O_EXCL), Mode: mode(k)},
					Op{K: "hwrite", H: []HOp{{Data: &Data{N: 1 + r.N(100), Kind: "rand", Seed: uint64(k)}}}}, Op{K: "hclose"})
			case 7:
				ops = append(ops, Op{K: "chmod", P: q, Mode: 0600 + uint32(k)})
			case 8:
				if k == 0 {
					ops = append(ops, Op{K: "rename", P: pick(r, f, x), Q: pick(r, x, y, f)})
					continue
				}
				ops = append(ops, Op{K: "stat", P: q})
			default:
				ops = append(ops, Op{K: pick(r, "remove", "removeall", "stat"), P: q})
			}
		}
		c.Cli = append(c.Cli, ops)
	}
}

func genSharedCall(r *Rng) Op {
	o := HOp{}
	off := func() int64 { return pick(r, 0, 0, 1, 3, int64(r.N(20)), int64(r.N(2000)), -1) }
	small := func() *Data {
		return &Data{N: pick(r, 0, 1, 5, 20, 600), Kind: pick(r, "rand", "text"), Seed: r.U64() % 1000}
	}
	switch r.N(14) {
	case 0, 1, 2:
		o = HOp{K: "read", N: pick(r, 0, 1, 3, 100, 4000)}
	case 3:
		o = HOp{K: "readat", N: pick(r, 0, 1, 3, 100, 4000), Off: off()}
	case 4, 5:
		o = HOp{K: "seek", Off: off(), Wh: r.N(3)}
	case 6, 7:
		o = HOp{K: pick(r, "write", "writestr"), Data: small()}
	case 8, 9:
		o = HOp{K: "writeat", Data: small(), Off: off()}
	case 10:
		o = HOp{K: "trunc", Off: off()}
	case 11:
		o = HOp{K: "sync"}
	default:
		o = HOp{K: "stat"}
	}
	return Op{K: "hop", H: []HOp{o}}
}

func genClientAction(p *pool, c *Case) []Op {
	r := p.r
	small := func() *Data {
		return &Data{N: pick(r, 0, 1, 5, 100, 600, 1500), Kind: pick(r, "rand", "text"), Seed: r.U64() % 1000}
	}
	file := func() string { return p.target('f', 75) }
	switch r.N(22) {
	case 0, 1, 2:
		return []Op{{K: "hopen", P: file(), Flag: pick(r, os.O_RDWR, os.O_WRONLY) | os.O_CREATE | pick(r, 0, os.O_TRUNC, os.O_TRUNC, os.O_APPEND), Mode: genMode(r)}, {K: "hwrite", H: []HOp{{Data: small()}}}, {K: "hclose"}}
	case 3:
		return []Op{{K: "hopen", P: file(), Flag: createFlags, Mode: 0666}, {K: "hclose"}}
	case 4:
		return []Op{{K: "hopen", P: file(), Flag: os.O_RDWR | os.O_CREATE | os.O_EXCL, Mode: 0600}, {K: "hwrite", H: []HOp{{Data: small()}}}, {K: "hclose"}}
	case 5, 6:
		return []Op{{K: "hopen", P: file()}, {K: "hread", N: 1 << 20}, {K: "hclose"}}
	case 7:
		return []Op{{K: "hopen", P: file()}, {K: "hread", N: 3}, {K: "stat", P: file()}, {K: "hread", N: 1 << 20}, {K: "hclose"}}
	case 8, 9:
		return []Op{{K: "hopen", P: p.target('d', 90)}, {K: "hreaddir"}, {K: "hclose"}}
	case 10, 11:
		return []Op{{K: "mkdir", P: p.target('a', 30), Mode: genMode(r)}}
	case 12:
		return []Op{{K: "mkdirall", P: p.wild(), Mode: genMode(r)}}
	case 13, 14:
		return []Op{{K: "remove", P: p.target('a', 85)}}
	case 15:
		return []Op{{K: "removeall", P: p.target('a', 85)}}
	case 16, 17, 18:
		o := p.target('a', 90)
		q := p.renameTarget(o)
		if mclean(o) == "/" || mclean(q) == "/" {
			return []Op{{K: "stat", P: "/"}}
		}
		return []Op{{K: "rename", P: o, Q: q}}
	case 19:
		return []Op{{K: "chmod", P: p.target('a', 85), Mode: genMode(r)}}
	case 20:
		if r.P(50) {
			return []Op{{K: "chown", P: p.target('a', 85), UID: r.N(5), GID: r.N(5)}}
		}
		return []Op{{K: "chtimes", P: p.target('a', 85), T1: int64(1+r.N(5)) * 1e9, T2: int64(1+r.N(5)) * 1e9}}
	default:
		return []Op{{K: "stat", P: p.target('a', 80)}}
	}
}

// cev is one completed call of a client.
type cev struct {
	cl, ix int
	op     Op
	inv    int64
	ret    int64
	ok     bool
	err    string
	out    string // result of a successful reading call
}

// csys runs one client's calls against the real filesystem. All clients can share one more handle.
type csys struct {
	fs     afero.Fs
	h      afero.File
	shared *afero.File
}

// hopReal makes one call on a handle; the result describes everything the caller sees.
func hopReal(h afero.File, o HOp) (string, error) {
	switch o.K {
	case "read":
		b := make([]byte, o.N)
		n, err := h.Read(b)
		eof := err == io.EOF
		if eof {
			err = nil
		}
		return fmt.Sprintf("%d eof=%v %q", n, eof && n == 0, b[:n]), err
	case "readat":
		b := make([]byte, o.N)
		n, err := h.ReadAt(b, o.Off)
		eof := err == io.EOF
		if eof {
			err = nil
		}
		return fmt.Sprintf("%d eof=%v %q", n, eof && n < o.N, b[:n]), err
	case "seek":
		n, err := h.Seek(o.Off, o.Wh)
		return fmt.Sprint(n), err
	case "write":
		n, err := h.Write(o.Data.Bytes())
		return fmt.Sprint(n), err
	case "writestr":
		n, err := h.WriteString(string(o.Data.Bytes()))
		return fmt.Sprint(n), err
	case "writeat":
		n, err := h.WriteAt(o.Data.Bytes(), o.Off)
		return fmt.Sprint(n), err
	case "trunc":
		return "", h.Truncate(o.Off)
	case "sync":
		return "", h.Sync()
	case "stat":
		fi, err := h.Stat()
		if err != nil {
			return "", err
		}
		return fmt.Sprintf("dir=%v size=%d", fi.IsDir(), fi.Size()), nil
	}
	return "", fmt.Errorf("unknown handle operation %q", o.K)
}

func (s *csys) do(op Op) (ok bool, out, errs string) {
	var err error
	switch op.K {
	case "hopen":
		var f afero.File
		f, err = s.fs.OpenFile(op.P, op.Flag, os.FileMode(op.Mode))
		if err == nil {
			s.h = f
		} else {
			s.h = nil
		}
	case "hread":
		if s.h == nil {
			return false, "", "no handle"
		}
		var b []byte
		b, err = io.ReadAll(io.LimitReader(s.h, int64(op.N)))
		out = string(b)
	case "hwrite":
		if s.h == nil {
			return false, "", "no handle"
		}
		_, err = s.h.Write(op.H[0].Data.Bytes())
	case "hreaddir":
		if s.h == nil {
			return false, "", "no handle"
		}
		var infos []os.FileInfo
		infos, err = s.h.Readdir(-1)
		var ns []string
		for _, i := range infos {
			ns = append(ns, fmt.Sprintf("%s dir=%v mode=%o", i.Name(), i.IsDir(), i.Mode().Perm()))
		}
		sort.Strings(ns)
		out = strings.Join(ns, "|")
	case "hclose":
		if s.h == nil {
			return false, "", "no handle"
		}
		err = s.h.Close()
		s.h = nil
	case "hop":
		if s.shared == nil || *s.shared == nil {
			return false, "", "no handle"
		}
		out, err = hopReal(*s.shared, op.H[0])
	case "sclose":
		if s.shared == nil || *s.shared == nil {
			return false, "", "no handle"
		}
		err = (*s.shared).Close()
	case "stat":
		var fi os.FileInfo
		fi, err = s.fs.Stat(op.P)
		if err == nil {
			n := infoNode(fi)
			out = fmt.Sprintf("dir=%v size=%d mode=%o", n.Dir, n.Size, n.Mode)
		}
	default:
		err = sysOp(nil, s.fs, op)
	}
	if err != nil {
		return false, "", err.Error()
	}
	return true, out, ""
}

// mstate is the state of the sequential reference: the tree plus one handle per client.
type mhand struct {
	path   string
	size   int64 // at the time it was opened, or written back
	dir    bool
	loaded bool
	h      *MHandle
}

type mstate struct {
	m *Model
	h []*mhand
}

func (s *mstate) clone() *mstate {
	n := &mstate{m: s.m.Clone(), h: make([]*mhand, len(s.h))}
	for i, x := range s.h {
		if x != nil {
			c := *x
			if x.h != nil {
				hh := *x.h
				c.h = &hh
			}
			n.h[i] = &c
		}
	}
	return n
}

func (s *mstate) key() string {
	var b strings.Builder
	ks := make([]string, 0, len(s.m.N))
	for k := range s.m.N {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		n := s.m.N[k]
		fmt.Fprintf(&b, "%q%v%o,%d,%d,%v%d,%v%d,%x;", k, n.Dir, n.Mode, n.UID, n.GID, n.MTKnown, n.MT, n.ATKnown, n.AT, strSeed(string(n.Data)))
	}
	for _, h := range s.h {
		if h == nil {
			b.WriteString("-")
		} else {
			fmt.Fprintf(&b, "%q%v%v%d", h.path, h.dir, h.loaded, h.size)
			if h.h != nil {
				fmt.Fprintf(&b, "%x,%d,%v%v%v%v", strSeed(string(h.h.B)), h.h.Pos, h.h.Dirty, h.h.Append, h.h.Read, h.h.Write)
			}
		}
	}
	return b.String()
}

// apply runs one event; it returns whether the recorded outcome fits and whether the model has an opinion.
func (s *mstate) apply(e *cev) (fits, known bool) {
	op := e.op
	slot := e.cl
	if op.K == "hop" || op.K == "sopen" || op.K == "sclose" {
		slot = len(s.h) - 1
	}
	h := s.h[slot]
	load := func() mres {
		if h.loaded {
			return mOK
		}
		n := s.m.N[mclean(h.path)]
		if n == nil {
			return mErr
		}
		h.h.B = append([]byte{}, n.Data...) // nothing if the path is a directory by now
		h.loaded = true
		return mOK
	}
	res := func(r mres, out string) (bool, bool) {
		switch r {
		case mAny:
			return false, false
		case mErr:
			return !e.ok, true
		}
		return e.ok && e.out == out, true
	}
	publish := func() mres {
		if h.dir || !h.h.Dirty {
			return mOK
		}
		n := s.m.N[mclean(h.path)]
		if n == nil {
			return mErr
		}
		n.MTKnown = false
		if !n.Dir {
			n.Data = append([]byte{}, h.h.B...)
		}
		h.h.Dirty = false
		return mOK
	}
	switch op.K {
	case "hopen", "sopen":
		before := s.m.Clone()
		r, _ := s.m.Open(op.P, op.Flag, op.Mode)
		s.h[slot] = nil
		if r == mErr {
			s.m.N = before.N
			return !e.ok, true
		}
		n := s.m.N[mclean(op.P)]
		x := &mhand{path: op.P, dir: n.Dir, size: int64(len(n.Data))}
		x.h = newMHandle(nil, op.Flag, false)
		if x.h.Write && op.Flag&os.O_TRUNC != 0 {
			x.loaded = true
		}
		s.h[slot] = x
		return res(mOK, "")
	case "hread", "hwrite", "hreaddir", "hclose", "hop", "sclose":
		if h == nil {
			return !e.ok, true
		}
	}
	switch op.K {
	case "hread":
		if h.dir || !h.h.Read {
			return res(mErr, "")
		}
		if op.N == 0 {
			return res(mOK, "")
		}
		if r := load(); r != mOK {
			return res(r, "")
		}
		out := ""
		if h.h.Pos < int64(len(h.h.B)) {
			end := int64(len(h.h.B))
			if h.h.Pos+int64(op.N) < end {
				end = h.h.Pos + int64(op.N)
			}
			out = string(h.h.B[h.h.Pos:end])
			h.h.Pos = end
		}
		return res(mOK, out)
	case "hwrite":
		if h.dir || !h.h.Write {
			return res(mErr, "")
		}
		d := op.H[0].Data.Bytes()
		if len(d) == 0 {
			return res(mOK, "")
		}
		if r := load(); r != mOK {
			return res(r, "")
		}
		if h.h.Append {
			h.h.Pos = int64(len(h.h.B))
		}
		h.h.write(d, h.h.Pos)
		h.h.Pos += int64(len(d))
		return res(mOK, "")
	case "hreaddir":
		if !h.dir {
			return res(mErr, "")
		}
		var ns []string // a removed directory lists nothing
		for _, k := range s.m.children(mclean(h.path)) {
			x := s.m.N[k]
			ns = append(ns, fmt.Sprintf("%s dir=%v mode=%o", filepath.Base(k), x.Dir, x.Mode))
		}
		sort.Strings(ns)
		return res(mOK, strings.Join(ns, "|"))
	case "hclose", "sclose":
		s.h[slot] = nil
		return res(publish(), "")
	case "hop":
		return s.hop(h, e, load, publish)
	case "stat":
		n := s.m.N[mclean(op.P)]
		if n == nil {
			return res(mErr, "")
		}
		return res(mOK, fmt.Sprintf("dir=%v size=%d mode=%o", n.Dir, len(n.Data), n.Mode))
	}
	before := s.m.Clone()
	r := modelOp(s.m, op)
	if r != mOK {
		s.m.N = before.N
	}
	return res(r, "")
}

// hop is one call on the shared handle in the reference.
func (s *mstate) hop(h *mhand, e *cev, load, publish func() mres) (fits, known bool) {
	o := e.op.H[0]
	bad := func() (bool, bool) { return !e.ok, true }
	good := func(out string) (bool, bool) { return e.ok && e.out == out, true }
	if h.dir {
		return false, false
	}
	switch o.K {
	case "read", "readat":
		if !h.h.Read || (o.K == "readat" && o.Off < 0) {
			return bad()
		}
		if o.N == 0 {
			return good(`0 eof=false ""`)
		}
		if load() != mOK {
			return bad()
		}
		at := o.Off
		if o.K == "read" {
			at = h.h.Pos
		}
		b := []byte{}
		if size := int64(len(h.h.B)); at < size {
			end := at + int64(o.N)
			if end > size {
				end = size
			}
			b = h.h.B[at:end]
		}
		if o.K == "read" {
			h.h.Pos += int64(len(b))
			return good(fmt.Sprintf("%d eof=%v %q", len(b), len(b) == 0, b))
		}
		return good(fmt.Sprintf("%d eof=%v %q", len(b), len(b) < o.N, b))
	case "seek":
		if o.Wh == io.SeekEnd && !h.loaded {
			p := h.h.Pos
			n := h.size + o.Off
			if n < 0 {
				h.h.Pos = p
				return bad()
			}
			h.h.Pos = n
			return good(fmt.Sprint(n))
		}
		n, ok := h.h.seekTo(o.Off, o.Wh)
		if !ok {
			return bad()
		}
		return good(fmt.Sprint(n))
	case "write", "writestr", "writeat":
		if !h.h.Write || (o.K == "writeat" && o.Off < 0) {
			return bad()
		}
		d := o.Data.Bytes()
		if len(d) == 0 {
			return good("0")
		}
		if load() != mOK {
			return bad()
		}
		if o.K == "writeat" {
			h.h.write(d, o.Off)
		} else {
			if h.h.Append {
				h.h.Pos = int64(len(h.h.B))
			}
			h.h.write(d, h.h.Pos)
			h.h.Pos += int64(len(d))
		}
		return good(fmt.Sprint(len(d)))
	case "trunc":
		if !h.h.Write || o.Off < 0 {
			return bad()
		}
		if o.Off == 0 && !h.loaded && s.m.N[mclean(h.path)] != nil {
			h.loaded, h.h.B = true, []byte{}
		} else if load() != mOK {
			return bad()
		}
		h.h.Truncate(o.Off)
		return good("")
	case "sync":
		if publish() != mOK {
			return bad()
		}
		return good("")
	case "stat":
		size := h.size
		if h.loaded {
			size = int64(len(h.h.B))
		}
		return good(fmt.Sprintf("dir=false size=%d", size))
	}
	return false, false
}

// linearize searches a sequential order of the events which fits results and real time and whose final
// state passes final. It returns the witness, or nil; open is true when the model had no opinion somewhere.
func linearize(start *mstate, evs [][]*cev, final func(*mstate) bool) (witness []*cev, open bool) {
	seen := map[string]bool{}
	pos := make([]int, len(evs))
	total := 0
	for _, e := range evs {
		total += len(e)
	}
	steps := 0
	var rec func(s *mstate, done []*cev) []*cev
	rec = func(s *mstate, done []*cev) []*cev {
		if steps++; steps > 400000 {
			open = true
			return nil
		}
		if len(done) == total {
			if final(s) {
				return append([]*cev{}, done...)
			}
			return nil
		}
		k := fmt.Sprint(pos) + s.key()
		if seen[k] {
			return nil
		}
		seen[k] = true
		minRet := int64(1) << 62
		for c := range evs {
			if pos[c] < len(evs[c]) && evs[c][pos[c]].ret < minRet {
				minRet = evs[c][pos[c]].ret
			}
		}
		for c := range evs {
			if pos[c] >= len(evs[c]) {
				continue
			}
			e := evs[c][pos[c]]
			if e.inv > minRet {
				continue
			}
			n := s.clone()
			fits, known := n.apply(e)
			if !known {
				open = true
				continue
			}
			if !fits {
				continue
			}
			pos[c]++
			if w := rec(n, append(done, e)); w != nil {
				return w
			}
			pos[c]--
		}
		return nil
	}
	return rec(start, nil), open
}

// pauser plans up to two long pauses, each at the n-th hit of one kind of operation on the environment. A paused
// call goes on when the other clients have finished or are stuck, so that everything which is not kept out by a
// lock runs during the pause. A first run without pauses counts the hits; the pauses of the later runs are chosen
// among those. Clients can wait for a pause to begin before one of their calls.
type pauser struct {
	mu    sync.Mutex
	plan  map[string][]int
	hits  map[string]int
	began int32
}

func newPauser(seed uint64, pauses int, seen map[string]int) *pauser {
	p := &pauser{plan: map[string][]int{}, hits: map[string]int{}}
	r := NewRng(seed, 77)
	var inner, all []string
	for k, n := range seen {
		for ; n > 0; n-- {
			all = append(all, k)
			switch k {
			case "UpsertHeader", "UpdateHeaderMetadata", "MoveHeader", "DeleteHeader", "GetWriter", "CloseWriter":
				inner = append(inner, k)
			}
		}
	}
	sort.Strings(all)
	sort.Strings(inner)
	for ; pauses > 0 && len(all) > 0; pauses-- {
		k := pick(r, all...)
		if len(inner) > 0 && r.P(70) {
			k = pick(r, inner...)
		}
		p.plan[k] = append(p.plan[k], 1+r.N(seen[k]))
	}
	return p
}

func (p *pauser) due(kind string) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.hits[kind]++
	for _, n := range p.plan[kind] {
		if n == p.hits[kind] {
			return true
		}
	}
	return false
}

// wait returns when a pause has begun, or after a while.
func (p *pauser) wait() {
	for i := 0; i < 60 && atomic.LoadInt32(&p.began) == 0; i++ {
		time.Sleep(200 * time.Microsecond)
	}
}

// yieldHooks perturb the schedule at every operation on the environment.
func yieldHooks(seed uint64, strength int64, ps *pauser, progress func() int64) *Hooks {
	var ctr uint64
	y := func(kind string) {
		if progress() >= 0 && ps.due(kind) {
			atomic.AddInt32(&ps.began, 1)
			last, since := progress(), time.Now()
			for time.Since(since) < 6*time.Millisecond {
				time.Sleep(200 * time.Microsecond)
				if n := progress(); n != last {
					last, since = n, time.Now()
				}
			}
			return
		}
		if strength == 0 {
			return
		}
		r := NewRng(seed, atomic.AddUint64(&ctr, 1))
		switch x := r.N(10); {
		case x < 4:
		case x < 8 || strength == 1:
			for i := r.N(4); i >= 0; i-- {
				runtime.Gosched()
			}
		case strength == 2:
			time.Sleep(time.Duration(r.N(60)) * time.Microsecond)
		default:
			time.Sleep(time.Duration(r.N(400)) * time.Microsecond)
		}
	}
	return &Hooks{
		Backend: func(b config.BackendConfig, e *Env) config.BackendConfig {
			o := b
			o.GetWriter = func() (config.DriveWriterConfig, error) {
				y("GetWriter")
				w, err := b.GetWriter()
				y("GetWriter")
				return w, err
			}
			o.GetReader = func() (config.DriveReaderConfig, error) {
				y("GetReader")
				w, err := b.GetReader()
				y("GetReader")
				return w, err
			}
			o.CloseWriter = func() error { y("CloseWriter"); err := b.CloseWriter(); y("CloseWriter"); return err }
			o.CloseReader = func() error { y("CloseReader"); err := b.CloseReader(); y("CloseReader"); return err }
			return o
		},
		Meta: func(m config.MetadataPersister) config.MetadataPersister { return &yieldMeta{m, y} },
	}
}

func runC11(c *Case, r *Result) {
	var seen map[string]int
	for rep := int64(0); rep < c.I[1]; rep++ {
		seed := uint64(c.I[0]) + uint64(rep)*7919
		pauses := 0
		if rep > 0 {
			pauses = 1 + int(seed%4)/3
		}
		ps := newPauser(seed, pauses, seen)
		runC11once(c, r, seed, c.I[2], ps)
		if rep == 0 {
			seen = ps.hits
		}
	}
}

func runC11once(c *Case, r *Result, seed uint64, strength int64, ps *pauser) {
	clock := int64(-1) // the concurrent calls have not started
	progress := func() int64 { return atomic.LoadInt64(&clock) }
	withEnvOpts(c, EnvOpts{Hooks: yieldHooks(seed, strength, ps, progress)}, func(e *Env) {
		st := &mstate{m: NewModel(), h: make([]*mhand, len(c.Cli)+1)}
		for i, op := range c.Ops {
			both(e, e.FS, st.m, op, i, r)
		}
		base := e.TapeBytes()
		evs := make([][]*cev, len(c.Cli)+1)
		var shared *afero.File
		if len(c.Ops2) > 0 {
			f, err := e.FS.OpenFile(c.Ops2[0].P, c.Ops2[0].Flag, os.FileMode(c.Ops2[0].Mode))
			ev := &cev{cl: len(c.Cli), op: Op{K: "sopen", P: c.Ops2[0].P, Flag: c.Ops2[0].Flag, Mode: c.Ops2[0].Mode}, ok: err == nil}
			if fits, known := st.apply(ev); !fits || !known {
				failf("opening %q with flags %#x before the concurrent calls: error %v", c.Ops2[0].P, c.Ops2[0].Flag, err)
			}
			if err == nil {
				shared = &f
			}
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		currentCall = "the concurrent calls"
		for cl := range c.Cli {
			cl := cl
			wg.Add(1)
			go func() {
				defer wg.Done()
				s := &csys{fs: e.FS, shared: shared}
				kr := NewRng(seed, uint64(cl), 3)
				waitAt := -1
				if len(ps.plan) > 0 && kr.P(pick(kr, 30, 90)) {
					waitAt = pick(kr, 0, kr.N(len(c.Cli[cl])+1))
					for ix, op := range c.Cli[cl] {
						if (op.K == "hreaddir" || op.K == "hop") && kr.P(25) {
							waitAt = ix
						}
					}
				}
				<-start
				for ix, op := range c.Cli[cl] {
					for k := kr.N(3); k > 0; k-- {
						runtime.Gosched()
					}
					if ix == waitAt {
						ps.wait()
					}
					ev := &cev{cl: cl, ix: ix, op: op}
					ev.inv = atomic.AddInt64(&clock, 1)
					ev.ok, ev.out, ev.err = s.do(op)
					ev.ret = atomic.AddInt64(&clock, 1)
					evs[cl] = append(evs[cl], ev)
				}
				if s.h != nil { // the shrinker may have dropped the close
					ev := &cev{cl: cl, ix: len(c.Cli[cl]), op: Op{K: "hclose"}, inv: atomic.AddInt64(&clock, 1)}
					ev.ok, ev.out, ev.err = s.do(ev.op)
					ev.ret = atomic.AddInt64(&clock, 1)
					evs[cl] = append(evs[cl], ev)
				}
			}()
		}
		atomic.StoreInt64(&clock, 0)
		close(start)
		wg.Wait()
		if shared != nil {
			ev := &cev{cl: len(c.Cli), op: Op{K: "sclose"}, inv: atomic.AddInt64(&clock, 1)}
			ev.ok, ev.out, ev.err = (&csys{fs: e.FS, shared: shared}).do(ev.op)
			ev.ret = atomic.AddInt64(&clock, 1)
			evs[ev.cl] = append(evs[ev.cl], ev)
		}
		atomic.StoreInt64(&clock, -1<<40)
		currentCall = "after the concurrent calls"
		overlap := 0
		for a := range evs {
			for b := range evs {
				if a >= b {
					continue
				}
				for _, x := range evs[a] {
					for _, y := range evs[b] {
						if x.inv < y.ret && y.inv < x.ret && (mutates(x.op) || mutates(y.op)) {
							overlap++
						}
					}
				}
			}
		}
		if overlap >= 3 {
			r.NT = true
		}
		r.cls(fmt.Sprintf("overlapping pairs: %d+", overlap/5*5))
		snap := mustSnap(e.FS, "after the concurrent calls")
		// reproducible from the tape
		reb, err := e.Rebuild()
		if err != nil {
			failf("after the concurrent calls: rebuilding the index failed: %v\n%s", err, historyText(evs))
		}
		defer reb.Close()
		if d := diffSnap(snap, mustSnap(reb.FS, "rebuilt"), "live", "rebuilt", nil); d != "" {
			failf("after the concurrent calls the rebuilt filesystem differs: %s\n%s", d, historyText(evs))
		}
		reo, err := NewEnv(e.Dir, e.Tape, c.Cfg, EnvOpts{DB: e.DB})
		if err != nil {
			harnessf("reopen: %v", err)
		}
		defer reo.Close()
		if d := diffSnap(snap, mustSnap(reo.FS, "reopened"), "live", "reopened", nil); d != "" {
			failf("after the concurrent calls the reopened filesystem differs: %s\n%s", d, historyText(evs))
		}
		r.Checks += 3
		var lastDiff string
		w, open := linearize(st, evs, func(s *mstate) bool {
			d := checkModel(snap, s.m, nil)
			if d != "" {
				lastDiff = d
			}
			return d == ""
		})
		if w != nil {
			r.cls("witness: model")
			return
		}
		// ask the real code
		ok, exhausted := sequentialWitness(c, base, evs, snap)
		switch {
		case ok:
			r.cls("witness: sequential execution")
		case !exhausted:
			r.cls("witness search cut short")
		default:
			_ = open
			failf("the calls have no sequential order which explains their results and the final filesystem (last difference: %s)\n%s", lastDiff, historyText(evs))
		}
	})
}

func mutates(op Op) bool {
	switch op.K {
	case "stat", "hread", "hreaddir":
		return false
	case "hop":
		switch op.H[0].K {
		case "readat", "stat":
			return false
		}
	case "hopen":
		return op.Flag&(os.O_CREATE|os.O_TRUNC) != 0
	}
	return true
}

func historyText(evs [][]*cev) string {
	var all []*cev
	for _, e := range evs {
		all = append(all, e...)
	}
	sort.Slice(all, func(a, b int) bool { return all[a].inv < all[b].inv })
	var b strings.Builder
	for _, e := range all {
		res := "ok"
		if !e.ok {
			res = "error " + e.err
		}
		fmt.Fprintf(&b, "  client %d [%d,%d] %s -> %s %s\n", e.cl, e.inv, e.ret, opString(e.op), res, brief([]byte(e.out)))
	}
	return b.String()
}

// sequentialWitness executes candidate orders one call at a time on the real code.
func sequentialWitness(c *Case, base []byte, evs [][]*cev, want Snap) (found, exhausted bool) {
	total := 0
	for _, e := range evs {
		total += len(e)
	}
	budget := 500 // executed calls
	exhausted = true
	dirN := 0
	dir := mkScratch()
	defer rmScratch(dir)
	type node struct{ order []int } // client indexes
	eq := func(k string, x, y *Node) string {
		a, b := *x, *y
		a.MTime, a.ATime, a.CTime, b.MTime, b.ATime, b.CTime = 0, 0, 0, 0, 0, 0
		return nodeDiff(k, &a, &b)
	}
	// run executes an order and reports how many of its events match
	run := func(order []int) (int, bool) {
		dirN++
		d := fmt.Sprintf("%s/s%d", dir, dirN)
		writeFile(d+"/tape.tar", base)
		e, err := NewEnv(d, d+"/tape.tar", c.Cfg, EnvOpts{})
		if err != nil {
			harnessf("env: %v", err)
		}
		defer func() { e.Close(); _ = os.RemoveAll(d) }()
		if err := e.Init(); err != nil {
			failf("Initialize over the tape: %v", err)
		}
		ss := make([]*csys, len(evs))
		var shared *afero.File
		if len(c.Ops2) > 0 {
			if f, err := e.FS.OpenFile(c.Ops2[0].P, c.Ops2[0].Flag, os.FileMode(c.Ops2[0].Mode)); err == nil {
				shared = &f
			}
		}
		for i := range ss {
			ss[i] = &csys{fs: e.FS, shared: shared}
		}
		pos := make([]int, len(evs))
		for i, cl := range order {
			ev := evs[cl][pos[cl]]
			pos[cl]++
			ok, out, _ := ss[cl].do(ev.op)
			budget--
			if ok != ev.ok || (ok && out != ev.out) {
				return i, false
			}
		}
		if len(order) < total {
			return len(order), false
		}
		s, err := Snapshot(e.FS, snapOpts{})
		return len(order), err == nil && diffSnap(want, s, "concurrent", "sequential", eq) == ""
	}
	var rec func(order []int, pos []int) bool
	rec = func(order []int, pos []int) bool {
		if budget <= 0 {
			exhausted = false
			return false
		}
		minRet := int64(1) << 62
		for cl := range evs {
			if pos[cl] < len(evs[cl]) && evs[cl][pos[cl]].ret < minRet {
				minRet = evs[cl][pos[cl]].ret
			}
		}
		for cl := range evs {
			if pos[cl] >= len(evs[cl]) || evs[cl][pos[cl]].inv > minRet {
				continue
			}
			no := append(append([]int{}, order...), cl)
			n, full := run(no)
			if full {
				return true
			}
			if n < len(no) || len(no) == total {
				continue
			}
			np := append([]int{}, pos...)
			np[cl]++
			if rec(no, np) {
				return true
			}
		}
		return false
	}
	found = rec(nil, make([]int, len(evs)))
	return found, exhausted
}
