package main

import (
	"archive/tar"
	"bytes"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/cache"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/inventory"
	"github.com/spf13/afero"
)

// C17: foreign tar archives open as filesystems; path spellings are interchangeable.

func init() {
	register(&Check{
		ID: "C17", Level: "exploration",
		Rule:  "directory trees (up to 30 members, depth up to 6, empty directories, names up to 255 bytes and paths up to 900, non-ASCII, spaces, dots, suffix-like names, contents 0 bytes to some records) are written by archive/tar in ustar, PAX or GNU format, in depth-first, breadth-first or shuffled-sibling order, directories with or without trailing slash, with or without global header and record padding, named relative to './', '/', or under a top directory, for record sizes 1,2,3,5,7,20,32,64. Opened through Initialize and cache.NewCacheFilesystem(stfs, root, none|memory|dir): the walk must show exactly the members, each under its directory, with kind, size, permissions and content; '/p', 'p', './p' (and unclean spellings) must Stat, open and list alike; then 3-14 further calls with mixed spellings behave as on the reference, the archive's bytes stay a prefix of the tape, and the tree survives a reopening and a rebuild. Non-trivial: at least 5 members, one at depth 3 or deeper, and at least 2 further calls succeeded.",
		Assum: []string{"directories precede their members and have entries, as tar writers emit them", "members are directories and regular files with distinct names", "foreign archives are neither compressed, encrypted nor signed by STFS"},
		Quick: 3000, QuickS: 60, Thorough: 60000, ThorS: 700,
		Gen: genC17,
		Run: runC17,
	})
}

// member of a foreign archive: Extra{S: path relative to the top, K: "dir"|"file", A: mode, T: time, D: content}
func genC17(r *Rng, i int, tier string) *Case {
	c := &Case{Cfg: Cfg{RS: pick(r, 1, 2, 3, 5, 7, 20, 32, 64), WCache: "memory"}}
	format := pick(r, "ustar", "pax", "gnu")
	style := pick(r, "./", "./", "./", "/", "/", "/", "top", "top", "top", ".", "abs")
	p := newPool(r, 55)
	p.depth = 2 + r.N(6)
	if r.P(40) {
		p.add(strings.Repeat("w", pick(r, 90, 99, 100, 101, 150, 199)))
	}
	if r.P(25) {
		p.add(pick(r, "..data", "...", ".git", "-", "a.tar", "x.gz", "y.age", "PaxHeaders", "./"[:1]+"dot", "w "))
	}
	if format == "ustar" {
		for k, n := range p.names {
			for _, ch := range n {
				if ch >= 0x80 {
					p.names[k] = fmt.Sprintf("u%d", k)
					break
				}
			}
		}
	}
	n := 3 + r.N(12)
	if r.P(40) {
		n = 12 + r.N(19)
	}
	for k := 0; k < n; k++ {
		f := p.fresh()
		if p.m.N[f] != nil || len(f) > 900 {
			continue
		}
		if r.P(35) { // go deeper
			ds := p.dirs()
			deep := ds[0]
			for _, d := range ds {
				if strings.Count(d, "/") > strings.Count(deep, "/") {
					deep = d
				}
			}
			if g := path.Join(deep, p.name()); p.m.N[g] == nil && strings.Count(g, "/") <= 6 && len(g) < 900 {
				f = g
			}
		}
		x := Extra{S: f, A: int64(genMode(r) & 0777), T: int64(r.N(1 << 31))}
		if r.P(45) {
			x.K = "dir"
			p.m.N[f] = &MNode{Dir: true}
		} else {
			x.K = "file"
			x.D = genData(r, c.Cfg.RS, 8)
			p.m.N[f] = &MNode{}
		}
		c.Extra = append(c.Extra, x)
	}
	top := pick(r, "top", "my dir", "a.b", "d", "stfs-0.1", "ö", "x_%", p.name())
	if format == "ustar" && top == "ö" {
		top = "o"
	}
	c.S = []string{format, style, top, pick(r, "depth", "breadth", "as is"), pick(r, "slash", "slash", "bare"), pick(r, "none", "none", "none", "memory", "dir"), pick(r, "", "", "global")}
	c.I = []int64{int64(pick(r, 0, 0, 1, 18, 40)), int64(r.N(1000))} // padding blocks behind the trailer, rest
	c.Ops = genHistoryPool(p, &c.Cfg, 3+r.N(12), histOpts{big: 4, spell: 35, handle: true, calls: true, w: map[string]int{"write": 26, "mkdir": 14, "removeall": 3, "remove": 6}})
	if r.P(20) {
		c.Ops = withSwaps(r, c.Ops, 15)
	}
	return c
}

// foreignTar writes the members of a case.
func foreignTar(c *Case) ([]byte, map[string]Extra, bool) {
	format := map[string]tar.Format{"ustar": tar.FormatUSTAR, "pax": tar.FormatPAX, "gnu": tar.FormatGNU}[c.S[0]]
	style, top := c.S[1], c.S[2]
	have := map[string]Extra{"/": {K: "dir", S: "/", A: 0755}}
	var list []Extra
	for _, x := range c.Extra {
		if d, ok := have[path.Dir(x.S)]; !ok || d.K != "dir" || have[x.S].K != "" { // shrunk away
			continue
		}
		have[x.S] = x
		list = append(list, x)
	}
	switch c.S[3] {
	case "depth":
		key := func(s string) string { return strings.ReplaceAll(s, "/", "\x00") }
		sort.SliceStable(list, func(i, j int) bool { return key(list[i].S) < key(list[j].S) })
	case "breadth":
		sort.SliceStable(list, func(i, j int) bool { return strings.Count(list[i].S, "/") < strings.Count(list[j].S, "/") })
	}
	var b bytes.Buffer
	tw := tar.NewWriter(&b)
	if c.S[6] == "global" && c.S[0] == "pax" {
		if err := tw.WriteHeader(&tar.Header{Typeflag: tar.TypeXGlobalHeader, Name: "pax_global_header", PAXRecords: map[string]string{"comment": "0123456789012345678901234567890123456789"}}); err != nil {
			harnessf("tar: %v", err)
		}
	}
	for _, x := range append([]Extra{{K: "dir", S: "/", A: 0755, T: 1e9}}, list...) {
		n := ""
		switch style {
		case "./":
			n = "." + x.S
		case "/":
			n = x.S
		case ".":
			n = "." + x.S
			if x.S == "/" {
				n = "."
			}
		case "abs":
			n = path.Join("/", top, x.S)
		default:
			n = path.Join(top, x.S)
		}
		h := &tar.Header{Name: n, Mode: x.A, ModTime: time.Unix(x.T, 0), Format: format, Typeflag: tar.TypeReg, Uid: 1000, Gid: 100, Uname: "user", Gname: "users"}
		var data []byte
		if x.K == "dir" {
			h.Typeflag = tar.TypeDir
			if c.S[4] == "slash" && !strings.HasSuffix(n, "/") && n != "." {
				h.Name += "/"
			}
		} else {
			data = x.D.Bytes()
			h.Size = int64(len(data))
		}
		if err := tw.WriteHeader(h); err != nil {
			if x.S == "/" {
				return nil, nil, false
			}
			// not expressible in this format
			for k := range have {
				if k == x.S || under(k, x.S) {
					delete(have, k)
				}
			}
			return nil, have, false
		}
		if _, err := tw.Write(data); err != nil {
			harnessf("tar: %v", err)
		}
	}
	if err := tw.Close(); err != nil {
		harnessf("tar: %v", err)
	}
	b.Write(make([]byte, int(c.I[0])*blk))
	return b.Bytes(), have, true
}

// compose is the documented way to use a filesystem with any root.
func compose(e *Env, root, kind, dir string) afero.Fs {
	fs, err := cache.NewCacheFilesystem(e.FS, root, map[string]string{"none": config.NoneKey, "memory": config.FileSystemCacheTypeMemory, "dir": config.FileSystemCacheTypeDir}[kind], time.Hour, dir)
	if err != nil {
		failf("NewCacheFilesystem(%q): %v", root, err)
	}
	return fs
}

func runC17(c *Case, r *Result) {
	if len(c.S) < 7 || len(c.I) < 2 || !c.Cfg.plain() {
		return
	}
	// leave out what the format cannot express
	var ar []byte
	var want map[string]Extra
	for {
		b, have, ok := foreignTar(c)
		if ok {
			ar, want = b, have
			break
		}
		if have == nil {
			return
		}
		var xs []Extra
		for _, x := range c.Extra {
			if h, ok := have[x.S]; ok && h.K != "" {
				xs = append(xs, x)
			}
		}
		if len(xs) == len(c.Extra) {
			return
		}
		cc := *c
		cc.Extra = xs
		c = &cc
	}
	dir := mkScratch()
	defer rmScratch(dir)
	tp := filepath.Join(dir, "tape.tar")
	writeFile(tp, ar)
	what := fmt.Sprintf("%s archive, %q style (top %q), %d members, record size %d", c.S[0], c.S[1], c.S[2], len(want), c.Cfg.RS)
	r.cls("format:" + c.S[0])
	r.cls("style:" + c.S[1])
	n := 0
	open := func(db string, rebuild bool) (*Env, afero.Fs, string) {
		n++
		e, err := NewEnv(dir, tp, c.Cfg, EnvOpts{DB: db})
		if err != nil {
			harnessf("env: %v", err)
		}
		if rebuild {
			currentCall = "Index"
			if err := e.Index(0, 0, true, 0); err != nil {
				failf("%s: indexing fails: %v", what, err)
			}
		}
		currentCall = "Initialize"
		if err := e.Init(); err != nil {
			failf("%s: Initialize fails: %v", what, err)
		}
		return e, compose(e, e.Root, "none", ""), e.Root
	}
	db := filepath.Join(dir, "idx.sqlite")
	e, fs, root := open(db, c.I[1]%3 == 0)
	defer func() { e.Close() }()
	what += fmt.Sprintf(", root %q", root)
	if !bytes.Equal(e.TapeBytes(), ar) {
		failf("%s: opening changed the archive", what)
	}
	s := mustSnap(fs, what)
	r.Checks++
	deep := false
	for _, k := range sortedExtraKeys(want) {
		x, g := want[k], s[k]
		if g == nil {
			failf("%s: member %q is not listed under its directory", what, k)
		}
		if g.Dir != (x.K == "dir") {
			failf("%s: member %q is shown with dir=%v", what, k, g.Dir)
		}
		if strings.Count(k, "/") >= 3 {
			deep = true
		}
		if k != "/" && uint32(g.Mode) != uint32(x.A) {
			failf("%s: member %q has mode %#o, it was archived with %#o", what, k, g.Mode, x.A)
		}
		if g.Dir {
			continue
		}
		data := x.D.Bytes()
		if g.Err != "" || !bytes.Equal(g.Data, data) || g.Size != int64(len(data)) {
			failf("%s: member %q reads %s (size %d, error %q), archived were %s", what, k, brief(g.Data), g.Size, g.Err, brief(data))
		}
		if k != "/" && g.MTime != x.T*1e9 {
			failf("%s: member %q has modification time %d, it was archived with %d", what, k, g.MTime, x.T*1e9)
		}
	}
	for _, k := range s.keys() {
		if _, ok := want[k]; !ok {
			failf("%s: %q (%v) is listed but not a member", what, k, s[k])
		}
	}
	base := ""
	switch c.S[1] {
	case "top":
		base = c.S[2]
	case "abs":
		base = "/" + c.S[2]
	}
	checkSpellings(fs, s, what, r)
	checkSpellingsBelow(e, base, s, what, r)
	if c.S[5] != "none" {
		// caching layers have attributes of their own
		cs := mustSnap(compose(e, root, c.S[5], filepath.Join(dir, "cache")), what+", cache "+c.S[5])
		if d := diffSnap(s, cs, "the filesystem", "the cached filesystem", func(k string, x, y *Node) string {
			if x.Dir != y.Dir || x.Size != y.Size || x.Err != y.Err || !bytes.Equal(x.Data, y.Data) {
				return "kind or content"
			}
			return ""
		}); d != "" {
			failf("%s: %s", what, d)
		}
		r.cls("cache:" + c.S[5])
	}

	// further calls
	m := modelOf(s)
	oks := 0
	for i, op := range c.Ops {
		if isSwap(op.K) {
			e.Close()
			d := db
			if op.K != "reopen" {
				db = filepath.Join(dir, fmt.Sprintf("idx%d.sqlite", i))
				d = db
			}
			e, fs, _ = open(d, op.K == "rebuilt")
			r.cls("instance:" + op.K)
			continue
		}
		before := e.TapeBytes()
		if c17Skip(op) {
			continue
		}
		if both(e, fs, m, op, i, r) {
			oks++
		}
		now := e.TapeBytes()
		if !bytes.HasPrefix(now, before) || !bytes.HasPrefix(now, ar) {
			failf("%s: call %d %s changed what was on the tape", what, i, opString(op))
		}
		if i%3 == 0 || i == len(c.Ops)-1 {
			aw := fmt.Sprintf("%s: after call %d %s", what, i, opString(op))
			s := mustSnap(fs, aw)
			if d := checkModel(s, m, nil); d != "" {
				failf("%s: %s", aw, d)
			}
		}
	}
	// cached views may lag behind; what counts is the filesystem below
	fin := func(f afero.Fs, how string) Snap {
		s := mustSnap(f, what+": "+how)
		if d := checkModel(s, m, nil); d != "" {
			failf("%s: after further calls, %s: %s", what, how, d)
		}
		r.Checks++
		return s
	}
	s = fin(compose(e, root, "none", ""), "live")
	checkSpellings(compose(e, root, "none", ""), s, what+": after further calls", r)
	checkSpellingsBelow(e, base, s, what+": after further calls", r)
	final := e.TapeBytes()
	e2, err := NewEnv(dir, tp, c.Cfg, EnvOpts{DB: db})
	if err != nil {
		harnessf("env: %v", err)
	}
	defer e2.Close()
	if err := e2.Init(); err != nil {
		failf("%s: reopening fails: %v", what, err)
	}
	fin(compose(e2, e2.Root, "none", ""), "reopened")
	for _, init := range []bool{true, false} {
		e3, err := NewEnv(dir, tp, c.Cfg, EnvOpts{DB: ":memory:"})
		if err != nil {
			harnessf("env: %v", err)
		}
		defer e3.Close()
		if !init {
			if err := e3.Index(0, 0, true, 0); err != nil {
				failf("%s: rebuilding the index fails: %v", what, err)
			}
		}
		if err := e3.Init(); err != nil {
			failf("%s: opening with a rebuilt index fails: %v", what, err)
		}
		fin(compose(e3, e3.Root, "none", ""), fmt.Sprintf("rebuilt (root %q)", e3.Root))
	}
	if !bytes.Equal(final, e.TapeBytes()) {
		failf("%s: opening changes the tape", what)
	}
	r.NT = len(want) >= 6 && deep && oks >= 2
}

func c17Skip(op Op) bool { return false }

func sortedExtraKeys(m map[string]Extra) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// checkSpellings looks every entry up by equivalent spellings.
func checkSpellings(fs afero.Fs, s Snap, what string, r *Result) {
	for i, k := range s.keys() {
		var alts []string
		if k == "/" {
			alts = []string{"/", ".", "./", "/."}
		} else {
			alts = []string{k, k[1:], "." + k, "/." + k, "./." + k, strings.ReplaceAll(k, "/", "//"), path.Dir(k) + "/./" + path.Base(k)}
			if d := path.Dir(k); d != "/" {
				alts = append(alts, d+"/../"+path.Base(d)+"/"+path.Base(k))
			}
			if s[k].Dir {
				alts = append(alts, k+"/", k[1:]+"/", "."+k+"/")
			}
		}
		for _, a := range alts {
			currentCall = fmt.Sprintf("%s: look up %q as %q", what, k, a)
			fi, err := fs.Stat(a)
			if err != nil {
				failf("%s: %q exists but looking it up as %q fails: %v", what, k, a, err)
			}
			g := infoNode(fi)
			w := *s[k]
			w.Data, w.Err = nil, ""
			if d := nodeDiff(k, &w, g); d != "" {
				failf("%s: %q looked up as %q differs (%s): %v, want %v", what, k, a, d, g, &w)
			}
			r.Checks++
			if w.Dir {
				infos, err := listDir(fs, a)
				if err != nil {
					failf("%s: listing %q as %q: %v", what, k, a, err)
				}
				ch := childrenOf(s, k)
				if len(infos) != len(ch) {
					failf("%s: listing %q as %q gives %d entries, want %d", what, k, a, len(infos), len(ch))
				}
				for _, in := range infos {
					if !ch[in.Name()] {
						failf("%s: listing %q as %q gives %q", what, k, a, in.Name())
					}
				}
				continue
			}
			if i%4 == 0 && len(s[k].Data) < 5000 {
				b, err := ReadAll(fs, a)
				if err != nil || !bytes.Equal(b, s[k].Data) {
					failf("%s: reading %q as %q gives %s (error %v), want %s", what, k, a, brief(b), err, brief(s[k].Data))
				}
			}
		}
	}
}

// checkSpellingsBelow does the same for the calls the command line uses.
func checkSpellingsBelow(e *Env, base string, s Snap, what string, r *Result) {
	for i, k := range s.keys() {
		alts := []string{base + k} // under a named top directory the composition translates names
		if base == "" {
			alts = []string{k, k[1:], "." + k}
		}
		if k == "/" {
			alts = []string{"/", "", ".", "./"}
		}
		for _, a := range alts {
			currentCall = fmt.Sprintf("%s: inventory and restore of %q as %q", what, k, a)
			h, err := inventory.Stat(e.Meta, a, false, nil)
			if err != nil {
				failf("%s: %q exists but inventory.Stat(%q) fails: %v", what, k, a, err)
			}
			if (h.Typeflag == tar.TypeDir) != s[k].Dir || uint32(h.Mode)&0777 != uint32(s[k].Mode)&0777 || (!s[k].Dir && h.Size != s[k].Size) || (k != "/" && path.Base(h.Name) != path.Base(k)) {
				failf("%s: inventory.Stat(%q) gives %q (type %c, mode %o, size %d), want %v", what, a, h.Name, h.Typeflag, h.Mode, h.Size, s[k])
			}
			r.Checks++
			if s[k].Dir {
				hs, err := inventory.List(e.Meta, a, -1, nil)
				if err != nil {
					failf("%s: inventory.List(%q): %v", what, a, err)
				}
				ch := childrenOf(s, k)
				if len(hs) != len(ch) {
					failf("%s: inventory.List(%q) gives %d entries, want %d", what, a, len(hs), len(ch))
				}
				for _, in := range hs {
					if !ch[path.Base(in.Name)] {
						failf("%s: inventory.List(%q) gives %q", what, a, in.Name)
					}
				}
				continue
			}
			if i%4 == 1 && len(s[k].Data) < 5000 {
				b, err := restoreFile(e, a)
				if err != nil || !bytes.Equal(b, s[k].Data) {
					failf("%s: restoring %q as %q gives %s (error %v), want %s", what, k, a, brief(b), err, brief(s[k].Data))
				}
			}
		}
	}
}

var _ = os.ModePerm
