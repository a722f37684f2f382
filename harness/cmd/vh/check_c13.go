package main

import (
	"fmt"
	"os"
	"path"

	"github.com/spf13/afero"
)

// C13: the namespace is a well-formed tree and listings agree with lookups.

func init() {
	register(&Check{
		ID: "C13", Level: "exploration",
		Rule:  "histories of 4-24 calls over adversarial names and odd path spellings, including symlinks to live targets and calls that must be refused (missing parents, parents that are files, replacing directories), on live, reopened and rebuilt instances. After every call: the live index rows are exactly the entries reached by walking from the root, every parent is a live directory, every directory is listed exactly (Readdir and Readdirnames, unlimited and with limits 1..n+1; same names, no duplicates, never itself or deeper entries; a limit is never exceeded), and every listed name stats and opens with the listed kind and size. Non-trivial: at least 6 live entries and one directory with 2 or more children at depth 2 or deeper.",
		Assum: []string{"archive-interface calls get members whose parents exist (their parent is the caller's business)"},
		Quick: 1600, QuickS: 70, Thorough: 60000, ThorS: 700,
		Gen: func(r *Rng, i int, tier string) *Case {
			c := &Case{Cfg: genCfg(r, 85)}
			onTape(r, &c.Cfg, 8)
			n := 4 + r.N(14)
			if r.P(20) {
				n = 15 + r.N(10)
			}
			p := newPool(r, 65)
			p.depth = 3 + r.N(2)
			c.Ops = genHistoryPool(p, &c.Cfg, n, histOpts{arch: r.P(40), big: 2, spell: 12, w: map[string]int{"mkdir": 22, "mkdirall": 12, "rename": 16, "create": 10, "update": 1, "arch": 6}})
			if r.P(40) {
				c.Ops = withSwaps(r, c.Ops, 12)
			}
			if r.P(20) {
				c.Ops2 = linkTail(p, &c.Cfg)
			}
			return c
		},
		Run: runC13,
	})
}

func runC13(c *Case, r *Result) {
	withEnv(c, func(e *Env) {
		in := &instance{e: e}
		defer in.close()
		m := NewModel()
		for i, op := range c.Ops {
			what := fmt.Sprintf("after op %d %s", i, opString(op))
			if isSwap(op.K) {
				in.swap(op, c.Cfg)
			} else {
				// an archive call with a member without parent directory is not made
				if op.K == "arch" && !parentsLive(m, op.It) {
					continue
				}
				if err := sysOp(in.e, in.e.FS, op); err == nil {
					modelOpLoose(m, op)
				}
			}
			checkTree(in.e, what, r)
		}
		// symbolic links are entries of their directories, under their own names
		for i, op := range c.Ops2 {
			what := fmt.Sprintf("after op %d %s", len(c.Ops)+i, opString(op))
			if op.K == "symlink" {
				if _, err := in.e.FS.Stat(op.P); err != nil {
					continue // a broken link can't be opened, as anywhere
				}
			}
			if isSwap(op.K) {
				in.swap(op, c.Cfg)
			} else if err := sysOp(in.e, in.e.FS, op); err == nil && op.K == "symlink" {
				r.cls("symlink")
			}
			checkTree(in.e, what, r)
		}
		// the handles' view after a rebuild
		reb, err := in.e.Rebuild()
		if err != nil {
			failf("rebuild: %v", err)
		}
		defer reb.Close()
		checkTree(reb, "after a rebuild", r)
	})
}

func parentsLive(m *Model, it []Item) bool {
	t := m.Clone()
	for _, x := range it {
		p := mclean(x.Path)
		if !t.parentOK(p) || t.N[p] != nil {
			return false
		}
		t.N[p] = &MNode{Dir: x.Dir}
	}
	return true
}

func modelOpLoose(m *Model, op Op) {
	if op.K == "open" || op.K == "create" {
		f := op.Flag
		if op.K == "create" {
			f = createFlags
		}
		m.Open(op.P, f, op.Mode)
		return
	}
	b := m.Clone()
	if modelOp(m, op) == mErr {
		m.N = b.N
	}
}

// linkTail makes symbolic links to existing files and directories, and a few new entries beside them.
func linkTail(p *pool, cfg *Cfg) []Op {
	r := p.r
	var out []Op
	used := map[string]bool{}
	for i := 1 + r.N(5); i > 0; i-- {
		t := p.existing(pick(r, byte('a'), 'd', 'f'), false)
		if t == "" {
			continue
		}
		l := p.fresh()
		if r.P(50) {
			l += pick(r, "L", "_", "%", ".lnk")
		}
		if r.P(8) && len(used) > 0 { // taken: refused
			for k := range used {
				if l == "" || k < l {
					l = k
				}
			}
		}
		// nothing below or at the link is used as something else, and it is no link's target
		if used[l] || p.m.N[l] != nil {
			continue
		}
		used[l] = true
		out = append(out, Op{K: "symlink", P: t, Q: l})
		if r.P(30) {
			if op, ok := genOp(p, cfg, pick(r, "mkdir", "create", "write"), histOpts{}); ok && !used[mclean(op.P)] && p.m.N[mclean(op.P)] == nil && !belowAny(mclean(op.P), used) {
				out = append(out, op)
				applyGen(p.m, op)
			}
		}
		if r.P(20) {
			out = append(out, Op{K: pick(r, "reopen", "rebuilt", "lost")})
		}
	}
	return out
}

func belowAny(p string, m map[string]bool) bool {
	for d := p; d != "/"; d = path.Dir(d) {
		if m[d] {
			return true
		}
	}
	return false
}

func checkTree(e *Env, what string, r *Result) {
	rows := rowsOf(e)
	links := map[string]bool{}
	for _, row := range rows {
		if row.Link != "" {
			links[mclean(row.Link)] = true
		}
	}
	currentCall = what + ": walk"
	s, err := Snapshot(e.FS, snapOpts{links: links})
	if err != nil {
		failf("%s: %v", what, err)
	}
	for _, k := range sortedRowKeys(rows) {
		if row := rows[k]; row.Link != "" {
			// a link is found under its own name; whether anything is listed below it isn't settled
			delete(rows, k)
			l := mclean(row.Link)
			if _, dup := rows[l]; dup {
				failf("%s: the link %q has the name of another entry", what, l)
			}
			rows[l] = row
			if t, ln := s[mclean(row.Name)], s[l]; t != nil && ln != nil && (t.Dir != ln.Dir || t.Size != ln.Size) {
				failf("%s: the link %q is listed with dir=%v size=%d, its target %q with dir=%v size=%d", what, l, ln.Dir, ln.Size, row.Name, t.Dir, t.Size)
			}
		}
	}
	for _, k := range sortedRowKeys(rows) {
		if s[k] == nil {
			failf("%s: %q is live but not reachable from the root", what, k)
		}
		if k == "/" {
			continue
		}
		d, ok := rows[path.Dir(k)]
		if !ok {
			failf("%s: %q has no parent", what, k)
		}
		if byte(d.Type) != '5' {
			failf("%s: the parent of %q is not a directory", what, k)
		}
	}
	for _, k := range s.keys() {
		if _, ok := rows[k]; !ok {
			failf("%s: %q is listed but not a live entry", what, k)
		}
	}
	r.Checks += len(rows)
	if len(rows) >= 6 {
		for k, n := range s {
			if n.Dir && k != "/" && len(childrenOf(s, k)) >= 2 {
				r.NT = true
			}
		}
	}
	for _, k := range s.keys() {
		n := s[k]
		if links[k] && n.Dir {
			continue
		}
		if n.Dir {
			checkListings(e.FS, k, childrenOf(s, k), s, what, r)
		} else {
			currentCall = what + ": open " + k
			f, err := e.FS.Open(k)
			if err != nil {
				failf("%s: opening listed %q: %v", what, k, err)
			}
			fi, err := f.Stat()
			if err != nil {
				failf("%s: stat of the opened %q: %v", what, k, err)
			}
			if fi.IsDir() || fi.Size() != n.Size || fi.Name() != path.Base(k) {
				failf("%s: %q is listed as a file of %d bytes, its handle says name %q dir=%v %d bytes", what, k, n.Size, fi.Name(), fi.IsDir(), fi.Size())
			}
			if err := f.Close(); err != nil {
				failf("%s: closing %q: %v", what, k, err)
			}
			if n.Err != "" || int64(len(n.Data)) != n.Size {
				failf("%s: %q is listed with %d bytes, reading gives %d (%s)", what, k, n.Size, len(n.Data), n.Err)
			}
		}
	}
}

func childrenOf(s Snap, dir string) map[string]bool {
	m := map[string]bool{}
	for k := range s {
		if k != "/" && path.Dir(k) == dir {
			m[path.Base(k)] = true
		}
	}
	return m
}

func checkListings(fs afero.Fs, dir string, want map[string]bool, s Snap, what string, r *Result) {
	limits := []int{-1, 0, 1, 2, len(want), len(want) + 1}
	if len(want) > 1 {
		limits = append(limits, len(want)-1)
	}
	for _, n := range limits {
		for _, names := range []bool{false, true} {
			currentCall = fmt.Sprintf("%s: list %q with limit %d", what, dir, n)
			f, err := fs.Open(dir)
			if err != nil {
				failf("%s: opening directory %q: %v", what, dir, err)
			}
			var got []string
			if names {
				got, err = f.Readdirnames(n)
			} else {
				var infos []os.FileInfo
				infos, err = f.Readdir(n)
				for _, fi := range infos {
					got = append(got, fi.Name())
					nd := s[path.Join(dir, fi.Name())]
					if nd != nil && (nd.Dir != fi.IsDir() || (!nd.Dir && nd.Size != fi.Size())) {
						failf("%s: %q is listed in %q with dir=%v size=%d, a lookup says dir=%v size=%d", what, fi.Name(), dir, fi.IsDir(), fi.Size(), nd.Dir, nd.Size)
					}
				}
			}
			if err != nil && !(n > 0 && len(want) == 0) {
				failf("%s: listing %q with limit %d: %v", what, dir, n, err)
			}
			if err := f.Close(); err != nil {
				failf("%s: closing directory %q: %v", what, dir, err)
			}
			seen := map[string]bool{}
			for _, g := range got {
				if seen[g] {
					failf("%s: %q lists %q twice (limit %d)", what, dir, g, n)
				}
				seen[g] = true
				if !want[g] {
					failf("%s: %q lists %q (limit %d), which is not a child", what, dir, g, n)
				}
			}
			if n > 0 {
				if len(got) > n {
					failf("%s: listing %q with limit %d returns %d entries", what, dir, n, len(got))
				}
				if len(got) == 0 && len(want) > 0 {
					failf("%s: listing %q with limit %d returns nothing of %d children", what, dir, n, len(want))
				}
			} else if len(got) != len(want) {
				failf("%s: listing %q (limit %d) returns %d of %d children", what, dir, n, len(got), len(want))
			}
			r.Checks++
		}
	}
}
