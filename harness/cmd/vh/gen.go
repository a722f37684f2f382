package main

import (
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
)

func sortStrings(s []string) { sort.Strings(s) }

// names are adversarial for prefix tests, LIKE patterns, suffix stripping, path lists and cleaning.
var hostileNames = []string{
	"a", "b", "ab", "a_", "a%", "A", "aa", "a b", " ", "b.c", ".h", "..a", "a.", "é", "日本", "a:b", ":", "c", "d",
	"_", "%", "_b", "%b", "a__", "a%b", "axb", "a_b", "ä", "n.gz", "n.age", "n.zst", "n.lz4", "n.br", "n.bz2", "n.pgp", "n", "n.gz.age",
	"'", "\"", "\\", "a\\b", "*", "?", "[a]", "~", "-", "#", "tab\tx", "nl\nx", "PaxHeaders.0", "@LongLink", "STFS.Action",
	strings.Repeat("l", 60), strings.Repeat("m", 101), strings.Repeat("k", 140),
}

var plainNames = []string{"a", "b", "c", "d", "ab", "abc"}

// Pool of names and paths a case works with: small, so that calls meet each other.
type pool struct {
	r     *Rng
	names []string
	m     *Model // the generator's own reference, used to bias towards interesting calls
	depth int
}

func newPool(r *Rng, hostilePct int) *pool {
	p := &pool{r: r, m: NewModel(), depth: 3}
	if r.P(5) {
		p.depth = 4 + r.N(9)
	}
	n := 3 + r.N(4)
	if r.P(hostilePct) {
		// related names: a base and things that look like it
		base := hostileNames[r.N(len(hostileNames))]
		p.add(base)
		for len(p.names) < n {
			switch r.N(6) {
			case 0:
				p.add(base + pick(r, "_", "%", "x", " ", ".", "b", "/"[:0]+"a"))
			case 1:
				p.add(strings.ToUpper(base))
			case 2:
				p.add(strings.Replace(base, pick(r, "_", "%", "a", "b"), pick(r, "x", "_", "%", "A"), 1))
			case 3:
				if len([]rune(base)) > 1 {
					rs := []rune(base)
					p.add(string(rs[:len(rs)-1]))
				}
			default:
				p.add(hostileNames[r.N(len(hostileNames))])
			}
			n-- // terminate even when names repeat
			if n < 2 && len(p.names) >= 2 {
				break
			}
			if n < -8 {
				break
			}
		}
	}
	for len(p.names) < 3 {
		p.add(plainNames[r.N(len(plainNames))])
	}
	return p
}

func (p *pool) add(s string) {
	if s == "" || s == "." || s == ".." || strings.Contains(s, "/") || len(s) > 200 {
		return
	}
	for _, n := range p.names {
		if n == s {
			return
		}
	}
	p.names = append(p.names, s)
}

func (p *pool) name() string { return p.names[p.r.N(len(p.names))] }

func (p *pool) live(pred func(k string, n *MNode) bool) []string {
	var out []string
	for k, n := range p.m.N {
		if pred(k, n) {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func (p *pool) dirs() []string {
	return p.live(func(k string, n *MNode) bool { return n.Dir })
}

// existing picks a live path (not the root unless allowed), or "" if none.
func (p *pool) existing(kind byte, rootOK bool) string {
	xs := p.live(func(k string, n *MNode) bool {
		return (k != "/" || rootOK) && (kind == 'a' || (kind == 'd') == n.Dir)
	})
	if len(xs) == 0 {
		return ""
	}
	return xs[p.r.N(len(xs))]
}

// fresh is a path below an existing directory that mostly does not exist yet.
func (p *pool) fresh() string {
	for i := 0; i < 6; i++ {
		ds := p.dirs()
		d := ds[p.r.N(len(ds))]
		if strings.Count(d, "/") >= p.depth && d != "/" {
			continue
		}
		k := path.Join(d, p.name())
		if p.m.N[k] == nil {
			return k
		}
	}
	return path.Join("/", p.name())
}

// wild is any path over the names: missing parents, below files, ...
func (p *pool) wild() string {
	s := ""
	for i := 1 + p.r.N(p.depth); i > 0; i-- {
		s += "/" + p.name()
	}
	return s
}

// target picks a path with the given bias for existing ones.
func (p *pool) target(kind byte, pctExisting int) string {
	if p.r.P(pctExisting) {
		if k := p.existing(kind, false); k != "" {
			return k
		}
	}
	if p.r.P(60) {
		return p.fresh()
	}
	return p.wild()
}

// relation-biased target for renames: same directory, an ancestor or descendant, a name sharing a prefix
func (p *pool) renameTarget(o string) string {
	switch p.r.N(10) {
	case 0, 1:
		return path.Join(path.Dir(o), p.name())
	case 2:
		return path.Join(o, p.name()) // into itself
	case 3:
		if k := p.existing('a', false); k != "" {
			return k
		}
	case 4:
		if k := p.existing('d', true); k != "" {
			return path.Join(k, path.Base(o))
		}
	case 5:
		return o
	case 6:
		return p.wild()
	case 7:
		n := p.m.N[o]
		if n != nil {
			k := byte('f')
			if n.Dir {
				k = 'd'
			}
			if t := p.existing(k, false); t != "" {
				return t
			}
		}
	}
	return p.fresh()
}

func genData(r *Rng, rs int, big int) *Data {
	d := &Data{Seed: r.U64() % 1000}
	rec := rs * blk
	switch r.N(16) {
	case 0:
		d.N = 0
	case 1:
		d.N = 1
	case 2:
		d.N = pick(r, 2, 511, 512, 513, 1023, 1024, 1025)
	case 3:
		d.N = rec + pick(r, -1, 0, 1)
	case 4:
		d.N = 2*rec + pick(r, -512, -1, 0, 1, 512)
	case 5, 6:
		d.N = r.N(3000)
	case 7:
		d.N = r.N(20000)
	case 8:
		if r.P(big) {
			d.N = 30000 + r.N(100000)
		} else {
			d.N = r.N(5000)
		}
	default:
		d.N = r.N(200)
	}
	if d.N < 0 {
		d.N = 0
	}
	d.Kind = pick(r, "rand", "rand", "text", "zero", "rep", "tar")
	return d
}

// chmodBits are the bits of an os.FileMode which Chmod sets (type bits, as a FileInfo's Mode has them, are ignored).
const chmodBits = 0777 | uint32(os.ModeSetuid|os.ModeSetgid|os.ModeSticky)

func genMode(r *Rng) uint32 {
	if r.P(8) {
		return uint32(r.N(01000)) | uint32(pick(r, os.ModeSetuid, os.ModeSetgid, os.ModeSticky, os.ModeSetuid|os.ModeSticky, os.ModeDir, os.ModeDir|os.ModeSticky, os.ModeSymlink))
	}
	return pick(r, uint32(0777), 0755, 0644, 0600, 0, 0111, uint32(r.N(01000)))
}

func genTime(r *Rng) int64 {
	switch r.N(8) {
	case 0:
		return 0
	case 1:
		return int64(r.N(1<<30)) * 1e9 // whole seconds
	case 2:
		return -int64(r.U64() % (1 << 58)) // before 1970
	case 3:
		return int64(1<<33)*1e9 + int64(r.N(1000000000)) // beyond the octal field of ustar
	case 4:
		return 1
	default:
		return int64(r.U64() % (2000000000 * 1000000000))
	}
}

func genID(r *Rng) int {
	return pick(r, 0, 1, 1000, 65534, 2097151, 2097152, r.N(1<<31-1), 1<<31-1)
}

type histOpts struct {
	hostile  int // percent of cases with hostile names
	arch     bool
	reads    bool // include pure reads
	symlinks bool
	wpr      bool
	big      int
	w        map[string]int // weight overrides
	noWild   bool
	spell    int  // percent of unclean spellings
	handle   bool // rich handle sessions
	calls    bool // sessions with other calls while the handle is open
}

var defaultWeights = map[string]int{
	"mkdir": 12, "mkdirall": 5, "write": 22, "create": 6, "open": 8, "remove": 8, "removeall": 5, "rename": 14,
	"chmod": 5, "chown": 5, "chtimes": 5, "stat": 1, "list": 1, "read": 1,
	"arch": 6, "update": 4, "delete": 3, "move": 4, "restore": 1,
}

var opOrder = []string{"mkdir", "mkdirall", "write", "create", "open", "remove", "removeall", "rename", "chmod", "chown", "chtimes", "stat", "list", "read", "arch", "update", "delete", "move", "restore"}

// genHistory makes a sequence of calls. The generator's own model only steers; the outcome of every
// call is decided by the oracle of the check.
func genHistory(r *Rng, cfg *Cfg, n int, o histOpts) []Op {
	p := newPool(r, o.hostile)
	return genHistoryPool(p, cfg, n, o)
}

func genHistoryPool(p *pool, cfg *Cfg, n int, o histOpts) []Op {
	r := p.r
	ws := make([]int, len(opOrder))
	for i, k := range opOrder {
		w := defaultWeights[k]
		if !o.arch && (k == "arch" || k == "update" || k == "delete" || k == "move" || k == "restore") {
			w = 0
		}
		if !o.reads && (k == "stat" || k == "list" || k == "read" || k == "restore") {
			w = 0
		}
		if x, ok := o.w[k]; ok {
			w = x
		}
		ws[i] = w
	}
	var ops []Op
	for len(ops) < n {
		k := opOrder[pickW(r, ws)]
		// grow the tree first
		if len(p.m.N) < 4 && r.P(60) {
			k = pick(r, "mkdir", "write", "mkdirall")
		}
		op, ok := genOp(p, cfg, k, o)
		if !ok {
			continue
		}
		if o.calls && (k == "write" || k == "open" || k == "create") && r.P(20) {
			op.H = withCalls(p, cfg, op, o)
		}
		ops = append(ops, op)
		applyGen(p.m, op)
	}
	return ops
}

// withCalls inserts calls on the same or other entries into a session.
func withCalls(p *pool, cfg *Cfg, op Op, o histOpts) []HOp {
	r := p.r
	out := append([]HOp(nil), op.H...)
	m := p.m.Clone()
	for n := 1 + r.N(3); n > 0; n-- {
		var in Op
		switch k := pick(r, "chmod", "chown", "chtimes", "chmod", "chown", "chtimes", "stat", "", "", "", "", ""); k {
		case "":
			x, ok := genOp(p, cfg, pick(r, "mkdir", "mkdirall", "write", "create", "remove", "removeall", "rename", "chmod", "list", "read"), o)
			if !ok || conflicts(op.P, x) {
				continue
			}
			in = x
		default:
			x, ok := genOp(p, cfg, k, o)
			if !ok {
				continue
			}
			x.P = op.P
			in = x
		}
		at := r.N(len(out) + 1)
		out = append(out[:at], append([]HOp{{K: "do", Op: &in}}, out[at:]...)...)
	}
	p.m = m
	return out
}

// applyGen advances the steering model.
func applyGen(m *Model, op Op) {
	if op.K == "open" || op.K == "create" {
		f, md := op.Flag, op.Mode
		if op.K == "create" {
			f, md = createFlags, 0666
		}
		m.Open(op.P, f, md)
		for _, h := range op.H {
			if h.K == "do" && !conflicts(op.P, *h.Op) {
				applyGen(m, *h.Op)
			}
		}
		return
	}
	b := m.Clone()
	if modelOp(m, op) != mOK {
		m.N = b.N
	}
}

func spell(r *Rng, p string, pct int) string {
	if pct == 0 || !r.P(pct) || p == "/" {
		return p
	}
	switch r.N(6) {
	case 0:
		return p[1:]
	case 1:
		return "." + p
	case 2:
		return p + "/"
	case 3:
		return "/." + p
	case 4:
		return strings.Replace(p, "/", "//", 1)
	default:
		return "/zz/.." + p
	}
}

func genOp(p *pool, cfg *Cfg, k string, o histOpts) (Op, bool) {
	r := p.r
	op := Op{K: k}
	sp := func(s string) string { return spell(r, s, o.spell) }
	switch k {
	case "mkdir":
		op.P, op.Mode = sp(p.target('a', 15)), genMode(r)
		if r.P(5) {
			op.P = "/"
		}
	case "mkdirall":
		op.Mode = genMode(r)
		if r.P(50) {
			op.P = sp(p.wild())
		} else {
			op.P = sp(p.target('a', 30))
			if r.P(50) {
				op.P += "/" + p.name()
			}
		}
	case "write":
		op.K = "open"
		op.P, op.Mode = sp(p.target('f', 35)), genMode(r)
		op.Flag = pick(r, os.O_RDWR, os.O_WRONLY) | os.O_CREATE
		if r.P(50) {
			op.Flag |= os.O_TRUNC
		} else if r.P(30) {
			op.Flag |= os.O_APPEND
		}
		op.H = []HOp{{K: pick(r, "write", "write", "writestr"), Data: genData(r, cfg.RS, o.big)}}
		if r.P(15) {
			op.H = append(op.H, HOp{K: "write", Data: genData(r, cfg.RS, 0)})
		}
		if o.handle && r.P(25) {
			op.H = genHandleOps(r, cfg, 1+r.N(5), op.Flag, 200)
		}
	case "create":
		op.P = sp(p.target('a', 40))
		if r.P(60) {
			op.H = []HOp{{K: "write", Data: genData(r, cfg.RS, 0)}}
		}
	case "open":
		op.P, op.Mode = sp(p.target('a', 70)), genMode(r)
		op.Flag = pick(r, os.O_RDONLY, os.O_RDWR, os.O_WRONLY)
		if op.Flag != os.O_RDONLY || r.P(15) {
			if r.P(50) {
				op.Flag |= os.O_CREATE
				if r.P(35) {
					op.Flag |= os.O_EXCL
				}
			}
		}
		if op.Flag&3 != os.O_RDONLY {
			if r.P(30) {
				op.Flag |= os.O_TRUNC
			}
			if r.P(25) {
				op.Flag |= os.O_APPEND
			}
		}
		// O_CREATE on an existing directory without write access: reference systems disagree
		if n := p.m.N[mclean(op.P)]; n != nil && n.Dir && op.Flag&3 == os.O_RDONLY {
			op.Flag = os.O_RDONLY
		}
		if r.P(50) {
			op.H = genHandleOps(r, cfg, r.N(4), op.Flag, 200)
		}
	case "remove":
		op.P = sp(p.target('a', 85))
	case "removeall":
		op.P = sp(p.target(pick(r, byte('d'), 'a'), 75))
	case "rename":
		op.P = p.target(pick(r, byte('a'), 'd', 'f'), 92)
		op.Q = sp(p.renameTarget(op.P))
		op.P = sp(op.P)
		if mclean(op.Q) == "/" || mclean(op.P) == "/" {
			return op, false
		}
	case "chmod":
		op.P, op.Mode = sp(p.target('a', 88)), genMode(r)
		if r.P(8) {
			op.P = "/"
		}
	case "chown":
		op.P, op.UID, op.GID = sp(p.target('a', 88)), genID(r), genID(r)
		if r.P(8) {
			op.P = "/"
		}
	case "chtimes":
		op.P, op.T1, op.T2 = sp(p.target('a', 88)), genTime(r), genTime(r)
		if r.P(8) {
			op.P = "/"
		}
	case "stat", "read":
		op.P = sp(p.target('a', 70))
	case "list":
		op.P, op.N = sp(p.target('d', 70)), pick(r, -1, 0, 1, 2, 5)
	case "arch":
		// several new members below existing directories, parents first, in one call
		tmp := p.m.Clone()
		n := 1 + r.N(5)
		q := &pool{r: r, names: p.names, m: tmp, depth: p.depth}
		if r.P(3) {
			// many members
			n = 16 + r.N(60)
			q.names = append([]string{}, p.names...)
			for i := 0; i < n/2; i++ {
				q.names = append(q.names, p.name()+strconv.Itoa(i))
			}
		}
		for i := 0; i < n; i++ {
			it := Item{Path: q.fresh(), Mode: genMode(r), T: genTime(r)}
			it.genSys(r, 35)
			if tmp.N[it.Path] != nil {
				continue
			}
			if r.P(35) {
				it.Dir = true
			} else {
				it.Data = genData(r, cfg.RS, o.big)
			}
			tmp.N[it.Path] = &MNode{Dir: it.Dir}
			op.It = append(op.It, it)
		}
		if len(op.It) == 0 {
			return op, false
		}
	case "update":
		// what is given is what a walk of local files gives: for a metadata update, the local content (and its
		// size) may be another one
		op.N = 1
		if r.P(30) {
			op.N = 0
		}
		seen := map[string]bool{}
		for i := pick(r, 1, 1, 1, 2, 2, 4); i > 0; i-- {
			k := p.existing(pick(r, byte('f'), 'f', 'f', 'a'), false)
			if k == "" || seen[k] {
				continue
			}
			seen[k] = true
			it := Item{Path: k, Mode: genMode(r), T: genTime(r)}
			it.genSys(r, 35)
			if n := p.m.N[k]; n.Dir {
				it.Dir = true
			} else if op.N != 0 || r.P(60) {
				it.Data = genData(r, cfg.RS, o.big)
			}
			op.It = append(op.It, it)
		}
		if len(op.It) == 0 {
			return op, false
		}
	case "delete":
		op.P = p.target('a', 85)
	case "move":
		op.P = p.existing('a', false)
		if op.P == "" {
			return op, false
		}
		op.Q = p.renameTarget(op.P)
		// archive-level moves have no target checks; callers move to a free name with a live parent
		if p.m.N[mclean(op.Q)] != nil || under(mclean(op.Q), mclean(op.P)) || !p.m.parentOK(mclean(op.Q)) {
			return op, false
		}
	case "restore":
		op.P = p.target('a', 85)
	}
	return op, true
}

// genHandleOps makes operations for one open handle; size is the expected magnitude of the file.
func genHandleOps(r *Rng, cfg *Cfg, n int, flag int, size int) []HOp {
	var out []HOp
	for i := 0; i < n; i++ {
		k := pick(r, "read", "read", "readat", "seek", "seek", "write", "write", "writestr", "writeat", "trunc", "sync", "stat")
		if flag&3 == os.O_RDONLY && r.P(80) {
			k = pick(r, "read", "read", "readat", "seek", "stat")
		}
		h := HOp{K: k}
		off := func() int64 {
			switch r.N(6) {
			case 0:
				return 0
			case 1:
				return int64(size)
			case 2:
				return int64(size + r.N(600))
			default:
				return int64(r.N(size + 2))
			}
		}
		switch k {
		case "read":
			h.N = pick(r, 1, 2, 10, size/2+1, size, size+10, 5000)
		case "readat":
			h.N, h.Off = pick(r, 1, 2, 10, size/2+1, size+10), off()
		case "seek":
			h.Wh = r.N(3)
			h.Off = off()
			if h.Wh != 0 && r.P(70) {
				h.Off = -int64(r.N(size + 2))
			} else if h.Wh == 0 && r.P(4) {
				h.Off = -1
			}
		case "write", "writestr", "writeat":
			h.Data = genData(r, cfg.RS, 0)
			if h.Data.N > 2000 && r.P(70) {
				h.Data.N = r.N(300)
			}
			if k == "writeat" {
				h.Off = off()
				if flag&os.O_APPEND != 0 {
					h.K = "write" // positioned writes on append handles are refused by reference systems
					h.Off = 0
				}
			}
		case "trunc":
			h.Off = off()
		}
		out = append(out, h)
	}
	return out
}

var recordSizes = []int{1, 2, 3, 5, 7, 20, 20, 32, 64}

func genCfg(r *Rng, pctPlain int) Cfg {
	c := Cfg{RS: pick(r, recordSizes...), WCache: pick(r, "memory", "memory", "file"), WPR: r.P(20)}
	if r.P(pctPlain) {
		return c
	}
	if r.P(60) {
		c.Comp = pick(r, "gzip", "parallelgzip", "lz4", "zstandard", "brotli", "bzip2", "parallelbzip2")
		c.Level = pick(r, "fastest", "balanced", "smallest")
		if c.Comp == "lz4" || c.Comp == "zstandard" {
			c.Level = pick(r, "fastest", "fastest", "balanced")
		}
	}
	if r.P(45) {
		c.Enc = pick(r, "age", "pgp")
	}
	if r.P(45) {
		c.Sig = pick(r, "minisign", "pgp")
	}
	return c
}
