package main

import (
	"fmt"
	"os"
	"path"
)

// C01: the index is a pure function of the tape.

func init() {
	register(&Check{
		ID: "C01", Level: "exploration",
		Rule:  "histories of 3-22 filesystem and archive-interface calls (archive of several members, update, delete, move, restore; one case in six also symlinks, some with an explicit overwrite of the tape in the middle) over adversarial names and pipeline configurations, 12% on a simulated tape drive and 12% with one-shot faults (a failing environment operation inside of some calls; compared again once the next call has settled the index), in which the instance is sometimes replaced by one that reopened the index or rebuilt it from the tape. After every call the live instance, an index rebuilt from the tape and a second instance over the same index file are observed (walk, lookups, inventory rows, contents) and compared. Non-trivial: at least 4 calls changed the tape and one of them renames, moves, removes or updates an existing entry.",
		Assum: []string{"names are compared modulo the spelling of the root ('/a' and 'a' are one entry)", "handles are closed when the instances are compared"},
		Quick: 1800, QuickS: 65, Thorough: 60000, ThorS: 750,
		Gen: func(r *Rng, i int, tier string) *Case {
			c := &Case{Cfg: genCfg(r, 60)}
			onTape(r, &c.Cfg, 12)
			n := 3 + r.N(12)
			if r.P(20) {
				n = 12 + r.N(11)
			}
			p := newPool(r, 45)
			c.Ops = genHistoryPool(p, &c.Cfg, n, histOpts{arch: true, reads: false, big: 8, spell: 5, handle: true, calls: true})
			switch {
			case c.Cfg.Drv == "" && r.P(12):
				c.Mode = "faults"
				c.Ops = withFaults(r, c.Ops, 30)
			case r.P(20):
				c.Mode = "links"
				c.Ops = withLinks(r, p, c.Ops)
			default:
				c.Ops = withOverwrite(p, &c.Cfg, c.Ops, 10, 1+r.N(6), histOpts{arch: true, big: 8, handle: true, calls: true})
			}
			// replace the instance now and then
			var ops []Op
			for _, op := range c.Ops {
				ops = append(ops, op)
				if r.P(14) {
					ops = append(ops, Op{K: pick(r, "reopen", "reopen", "rebuilt", "lost")})
				}
			}
			c.Ops = ops
			return c
		},
		Run: runC01,
	})
}

func withLinks(r *Rng, p *pool, ops []Op) []Op {
	var out []Op
	for _, op := range ops {
		out = append(out, op)
		if r.P(25) {
			k := p.existing('a', false)
			if k == "" || r.P(20) {
				k = p.wild()
			}
			l := p.fresh()
			out = append(out, Op{K: "symlink", P: k, Q: l})
			if r.P(40) {
				switch r.N(6) {
				case 0:
					out = append(out, Op{K: "chmod", P: l, Mode: genMode(r)})
				case 1:
					out = append(out, Op{K: "remove", P: l})
				case 2:
					out = append(out, Op{K: "rename", P: l, Q: p.fresh()})
				case 3:
					out = append(out, Op{K: "chown", P: l, UID: genID(r), GID: genID(r)})
				case 4:
					out = append(out, Op{K: "chtimes", P: k, T1: genTime(r), T2: genTime(r)})
				case 5:
					out = append(out, Op{K: "remove", P: k})
				}
			}
		}
	}
	return out
}

func casePaths(ops []Op) []string {
	seen := map[string]bool{}
	var out []string
	add := func(p string) {
		if p == "" {
			return
		}
		p = mclean(p)
		for ; p != "/"; p = path.Dir(p) {
			if !seen[p] {
				seen[p] = true
				out = append(out, p)
			}
		}
	}
	for _, o := range ops {
		add(o.P)
		add(o.Q)
		for _, it := range o.It {
			add(it.Path)
		}
	}
	sortStrings(out)
	return out
}

// instances of one filesystem, replaced during a history
type instance struct {
	e   *Env
	all []*Env
	n   int
}

func (in *instance) close() {
	for _, e := range in.all {
		e.Close()
	}
}

func (in *instance) swap(op Op, cfg Cfg) {
	kind := op.K
	if isOver(kind) {
		in.overwrite(op, cfg)
		return
	}
	old := in.e
	in.n++
	db := old.DB
	switch kind {
	case "rebuilt", "lost":
		db = fmt.Sprintf("%s/idx%d.sqlite", old.Dir, in.n)
	}
	n, err := NewEnv(old.Dir, old.Tape, cfg, EnvOpts{DB: db, Hooks: old.Opts.Hooks})
	if err != nil {
		harnessf("env: %v", err)
	}
	in.all = append(in.all, n)
	if kind == "rebuilt" {
		currentCall = "Index"
		if err := n.Index(0, 0, true, 0); err != nil {
			failf("rebuilding the index failed: %v", err)
		}
	}
	currentCall = "Initialize"
	if err := n.Init(); err != nil {
		failf("Initialize (%s) failed: %v", kind, err)
	}
	in.e = n
}

// overwrite replaces the instance by one whose drive manager overwrites the tape with its first writer, and
// starts the tape anew: `stfs operation initialize` or `stfs operation archive --overwrite`.
func (in *instance) overwrite(op Op, cfg Cfg) {
	old := in.e
	n, err := NewEnv(old.Dir, old.Tape, cfg, EnvOpts{DB: old.DB, Over: true, Hooks: old.Opts.Hooks})
	if err != nil {
		harnessf("env: %v", err)
	}
	in.all = append(in.all, n)
	before := old.TapeBytes()
	if op.N == 0 {
		currentCall = "reading through an overwriting drive manager"
		if _, err := n.FS.Stat("/"); err != nil {
			failf("%s: Stat of the root before the overwriting call: %v", op.K, err)
		}
		_, _, _ = fetchAt(n, 0, 0)
		if string(n.TapeBytes()) != string(before) {
			failf("%s: reading through an overwriting drive manager changed the tape", op.K)
		}
	}
	currentCall = op.K
	if op.K == "overinit" {
		err = n.W.Initialize("/", os.FileMode(op.Mode), cfg.level())
	} else {
		err = archiveOver(n, op.It)
	}
	if err != nil {
		failf("%s: overwriting the tape failed: %v", op.K, err)
	}
	now := n.TapeBytes()
	currentCall = "Initialize"
	if err := n.Init(); err != nil {
		failf("Initialize (%s) failed: %v", op.K, err)
	}
	if string(n.TapeBytes()) != string(now) {
		failf("%s: Initialize changed a tape which has a root (%d bytes before, %d after)", op.K, len(now), len(n.TapeBytes()))
	}
	recs, tail, _ := ScanTape(now)
	want := len(op.It)
	if op.K == "overinit" {
		want = 1
	}
	if tail != "" || len(recs) != want {
		failf("%s: the overwritten tape has %d records (%s), %d were written", op.K, len(recs), tail, want)
	}
	in.e = n
}

func isOver(k string) bool { return k == "overinit" || k == "overarch" }

func isSwap(k string) bool { return k == "reopen" || k == "rebuilt" || k == "lost" || isOver(k) }

// withOverwrite adds, in pct percent of the cases, an explicit overwrite and a second history after it.
func withOverwrite(p *pool, cfg *Cfg, ops []Op, pct, n int, o histOpts) []Op {
	r := p.r
	if !r.P(pct) {
		return ops
	}
	if r.P(20) {
		ops = nil // over a tape which holds the root only
	}
	q := &pool{r: r, names: p.names, depth: p.depth, m: NewModel()}
	op := Op{K: "overinit", Mode: genMode(r)}
	if r.P(60) {
		op = Op{K: "overarch", It: []Item{{Path: "/", Dir: true, Mode: 0755, T: genTime(r)}}}
		if a, ok := genOp(q, cfg, "arch", o); ok && r.P(75) {
			op.It = append(op.It, a.It...)
			applyGen(q.m, a)
		}
	}
	op.N = r.N(2) // whether the overwriting drive manager has been read through before
	ops = append(append([]Op{}, ops...), op)
	return append(ops, genHistoryPool(q, cfg, n, o)...)
}

func runC01(c *Case, r *Result) {
	x, o := faultOpts(c)
	withEnvOpts(c, o, func(e *Env) {
		in := &instance{e: e}
		defer in.close()
		extra := casePaths(c.Ops)
		changed, rel := 0, 0
		last := e.TapeBytes()
		for i, op := range c.Ops {
			what := fmt.Sprintf("after op %d %s", i, opString(op))
			if x.order(op) {
				continue
			}
			if isSwap(op.K) {
				in.swap(op, c.Cfg)
				x.swapped(op.K)
				r.cls("instance:" + op.K)
			} else {
				err := x.do(in.e, op, r)
				now := in.e.TapeBytes()
				x.settle(err, len(now) != len(last))
				if len(now) != len(last) {
					changed++
					switch op.K {
					case "rename", "move", "remove", "removeall", "delete", "update", "chmod", "chown", "chtimes":
						rel++
					}
					last = now
				}
				if err != nil {
					r.cls("fail:" + op.K)
				} else {
					r.cls("ok:" + op.K)
				}
			}
			if !x.lags() { // after a fault the index may be behind the tape until the next successful call
				compareInstances(in.e, c, what, extra, r)
			}
		}
		r.NT = changed >= 4 && rel >= 1
	})
}

func compareInstances(e *Env, c *Case, what string, extra []string, r *Result) {
	links := c.Mode == "links"
	var live Snap
	var liveT map[string]string
	currentCall = what + ": observe"
	if links {
		liveT = observe(e.FS, extra)
	} else {
		live = mustSnap(e.FS, what+": live instance")
	}
	rows := rowsOf(e)
	currentCall = what + ": rebuild"
	reb, err := e.Rebuild()
	if err != nil {
		failf("%s: rebuilding the index from the tape failed: %v", what, err)
	}
	defer reb.Close()
	reo, err := NewEnv(e.Dir, e.Tape, c.Cfg, EnvOpts{DB: e.DB})
	if err != nil {
		harnessf("reopen: %v", err)
	}
	defer reo.Close()
	for _, o := range []struct {
		e *Env
		n string
	}{{reb, "rebuilt"}, {reo, "reopened"}} {
		r.Checks++
		if links {
			if d := diffText(liveT, observe(o.e.FS, extra), "live", o.n); d != "" {
				failf("%s: %s", what, d)
			}
		} else {
			if d := diffSnap(live, mustSnap(o.e.FS, what+": "+o.n+" instance"), "live", o.n, nil); d != "" {
				failf("%s: %s", what, d)
			}
		}
		if d := diffRows(rows, rowsOf(o.e), "live", o.n, false); d != "" {
			failf("%s: %s", what, d)
		}
	}
}
