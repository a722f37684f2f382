package main

import (
	"fmt"
	"path"
	"strings"
)

// C12: recursive remove and rename touch exactly the named subtree.

func init() {
	register(&Check{
		ID: "C12", Level: "exploration",
		Rule:  "trees of 6-45 entries over names derived from one base by inserting LIKE wildcards, changing case, adding suffixes/prefixes, spaces, dots, non-ASCII (so that every directory has siblings which a pattern, a prefix test or a textual replacement would confuse), nested to depth 4; then 2-8 recursive removes, removes, renames and archive-interface deletes/moves, some into an own subtree, on live, reopened or rebuilt instances. After each: set algebra on the complete observation before and after (every entry outside unchanged in all attributes and content, every entry inside gone or moved unchanged); the same of a rebuild. Non-trivial: at least one successful call on a directory with 2 or more descendants while a confusable sibling of it exists.",
		Assum: []string{"the observation (walk) is complete: C13 decides that"},
		Quick: 2000, QuickS: 55, Thorough: 60000, ThorS: 700,
		Gen: genC12,
		Run: runC12,
	})
}

func confusable(r *Rng, base string) string {
	rs := []rune(base)
	switch r.N(13) {
	case 0:
		return base + pick(r, "_", "%", "x", " ", ".", "2", "é", "-")
	case 1:
		if len(rs) > 0 {
			rs[r.N(len(rs))] = pick(r, '_', '%', 'x', '?', '*')
		}
		return string(rs)
	case 2:
		return strings.ToUpper(base)
	case 3:
		return pick(r, "_", "%", "x", " ", "..", "z") + base
	case 4:
		if len(rs) > 1 {
			return string(rs[:len(rs)-1])
		}
		return base + base
	case 5:
		return base + base
	case 6:
		return strings.Repeat("_", len(rs))
	case 7:
		return "%"
	case 8:
		return base + "%"
	case 9:
		return base + ".gz"
	case 10:
		return base + "\\"
	case 11:
		return base + " " + base
	}
	return hostileNames[r.N(len(hostileNames))]
}

func genC12(r *Rng, i int, tier string) *Case {
	c := &Case{Cfg: genCfg(r, 80)}
	onTape(r, &c.Cfg, 10)
	base := pick(r, "a", "ab", "a_b", "a%", "A", "x y", "日本", "d.d", "aaa", "..a", "n.gz", "[a", "a'b", "-a")
	p := &pool{r: r, m: NewModel(), depth: 4}
	p.add(base)
	for k := 0; len(p.names) < 4+r.N(5) && k < 30; k++ {
		p.add(confusable(r, base))
	}
	// build the tree
	n := 6 + r.N(20)
	if r.P(15) {
		n = 25 + r.N(20)
	}
	var it []Item
	for len(it) < n {
		ds := p.dirs()
		d := ds[r.N(len(ds))]
		if r.P(50) { // deep
			d = ds[len(ds)-1-r.N(min(3, len(ds)))]
		}
		if strings.Count(d, "/") > p.depth {
			d = "/"
		}
		k := path.Join(d, p.name())
		if p.m.N[k] != nil {
			k = path.Join(d, fmt.Sprintf("%s%d", p.name(), r.N(9)))
			if p.m.N[k] != nil {
				n--
				continue
			}
		}
		x := Item{Path: k, Mode: genMode(r), T: int64(1000000000+r.N(1000))*1e9 + 1, Dir: r.P(62)}
		x.genSys(r, 25)
		if !x.Dir {
			x.Data = &Data{N: r.N(40), Seed: r.U64() % 1000}
		}
		p.m.N[k] = &MNode{Dir: x.Dir}
		it = append(it, x)
	}
	if r.P(70) {
		for len(it) > 0 {
			m := min(len(it), 1+r.N(12))
			c.Ops = append(c.Ops, Op{K: "arch", It: it[:m]})
			it = it[m:]
		}
	} else {
		for _, x := range it {
			if x.Dir {
				c.Ops = append(c.Ops, Op{K: "mkdir", P: x.Path, Mode: x.Mode})
			} else {
				c.Ops = append(c.Ops, Op{K: "open", P: x.Path, Flag: 2 | 0100, Mode: x.Mode, H: []HOp{{K: "write", Data: x.Data}}})
			}
		}
	}
	m := 2 + r.N(7)
	for len(c.Ops2) < m {
		if r.P(10) {
			c.Ops2 = append(c.Ops2, Op{K: pick(r, "reopen", "rebuilt", "lost")})
			continue
		}
		src := p.existing(pick(r, byte('d'), 'd', 'd', 'a'), false)
		if src == "" {
			break
		}
		// prefer directories with descendants
		for k := 0; k < 4 && len(p.m.subtree(src)) < 3; k++ {
			if s := p.existing('d', false); s != "" {
				src = s
			}
		}
		op := Op{P: src}
		switch r.N(10) {
		case 0, 1, 2:
			op.K = "removeall"
		case 3:
			op.K = "remove"
		case 4:
			op.K = "delete"
		case 5:
			op.K = "move"
			op.Q = p.fresh()
			if under(op.Q, src) || p.m.N[op.Q] != nil || !p.m.parentOK(op.Q) {
				continue
			}
		case 6: // into itself
			op.K = pick(r, "rename", "rename", "move")
			sub := p.m.subtree(src)
			op.Q = path.Join(sub[r.N(len(sub))], p.name())
			if r.P(30) {
				op.Q = src + "/" + path.Base(src)
			}
		default:
			op.K = "rename"
			op.Q = p.renameTarget(src)
			if r.P(40) {
				op.Q = path.Join(path.Dir(src), confusable(r, path.Base(src)))
			}
			if r.P(15) { // next to an own subtree: same prefix, not below
				op.Q = src + pick(r, "x", "_", "%", " ")
			}
		}
		if op.Q != "" && (mclean(op.Q) == "/" || strings.Contains(path.Base(op.Q), "\x00")) {
			continue
		}
		c.Ops2 = append(c.Ops2, op)
		applyGen(p.m, op)
	}
	return c
}

// likeMatch is what SQLite's LIKE would say (case-insensitive for ASCII).
func likeMatch(pat, s string) bool {
	p, t := []rune(strings.ToLower(pat)), []rune(strings.ToLower(s))
	var rec func(i, j int) bool
	rec = func(i, j int) bool {
		for i < len(p) {
			switch p[i] {
			case '%':
				for k := j; k <= len(t); k++ {
					if rec(i+1, k) {
						return true
					}
				}
				return false
			case '_':
				if j >= len(t) {
					return false
				}
			default:
				if j >= len(t) || t[j] != p[i] {
					return false
				}
			}
			i++
			j++
		}
		return j == len(t)
	}
	return rec(0, 0)
}

func hasConfusable(s Snap, p string) bool {
	for k := range s {
		if k == p || k == "/" || under(k, p) || under(p, k) {
			continue
		}
		if strings.HasPrefix(k, p) || likeMatch(p, k) || likeMatch(p+"/%", k) || strings.HasPrefix(p, k) || strings.Contains(k, p) {
			return true
		}
	}
	return false
}

func subSnap(s Snap, p string) map[string]*Node {
	m := map[string]*Node{}
	for k, v := range s {
		if k == p || under(k, p) {
			m[k] = v
		}
	}
	return m
}

func runC12(c *Case, r *Result) {
	withEnv(c, func(e *Env) {
		in := &instance{e: e}
		defer in.close()
		for i, op := range c.Ops {
			if err := sysOp(e, e.FS, op); err != nil {
				failf("building the tree: op %d %s: %v", i, opString(op), err)
			}
		}
		for i, op := range c.Ops2 {
			if isSwap(op.K) {
				in.swap(op, c.Cfg)
				continue
			}
			e := in.e
			what := fmt.Sprintf("op %d %s", i, opString(op))
			before := mustSnap(e.FS, "before "+what)
			err := sysOp(e, e.FS, op)
			after := mustSnap(e.FS, "after "+what)
			p, q := mclean(op.P), mclean(op.Q)
			want := Snap{}
			for k, v := range before {
				want[k] = v
			}
			sub := subSnap(before, p)
			desc := len(sub) - 1
			r.Checks++
			switch op.K {
			case "removeall", "delete", "remove":
				if err == nil || op.K == "removeall" {
					if err != nil && before[p] != nil {
						failf("%s: error %v", what, err)
					}
					if op.K == "remove" && before[p] != nil && before[p].Dir && desc > 0 {
						failf("%s: removed a directory with %d entries beneath it", what, desc)
					}
					for k := range sub {
						delete(want, k)
					}
				} else if before[p] != nil && (op.K == "delete" || desc == 0) {
					failf("%s: error %v", what, err)
				}
			case "rename", "move":
				if before[p] != nil && under(q, p) && err == nil {
					failf("%s: moving a directory into its own subtree succeeded", what)
				}
				if err == nil && before[p] != nil && p != q {
					tgt := subSnap(before, q)
					if len(tgt) > 1 && !under(p, q) {
						failf("%s: replaced a directory with %d entries beneath it", what, len(tgt)-1)
					}
					for k := range tgt {
						delete(want, k)
					}
					for k := range sub {
						delete(want, k)
					}
					for k, v := range sub {
						want[q+k[len(p):]] = v
					}
				} else if err != nil && before[p] != nil && before[q] == nil && !under(q, p) && before[path.Dir(q)] != nil && before[path.Dir(q)].Dir {
					failf("%s: error %v although the target is free", what, err)
				}
			}
			if d := diffSnap(want, after, "expected", "found", nil); d != "" {
				failf("%s (error %v): %s", what, err, d)
			}
			if err == nil {
				r.cls("ok:" + op.K)
				if desc >= 2 && hasConfusable(before, p) {
					r.NT = true
					r.cls("subtree with confusable sibling")
				}
			} else {
				r.cls("refused:" + op.K)
			}
			reb, err2 := e.Rebuild()
			if err2 != nil {
				failf("%s: rebuild: %v", what, err2)
			}
			rs := mustSnap(reb.FS, "rebuilt after "+what)
			reb.Close()
			if d := diffSnap(want, rs, "expected", "rebuilt", nil); d != "" {
				failf("%s (error %v), after a rebuild: %s", what, err, d)
			}
		}
	})
}
