package main

import (
	"fmt"
	"path/filepath"
)

// C07: replaying the tape over an existing index converges.

func init() {
	register(&Check{
		ID: "C07", Level: "exploration",
		Rule:  "histories of 3-22 calls biased to reuse of names (10% on a simulated tape drive) (remove and recreate, rename away and back, replace by rename, move subtrees) over configurations. Afterwards the tape is replayed from its start, without purging, into: the live instance's own index, an index rebuilt from the tape, and indexes of 5 (thorough: 20) prefixes of the tape ending between two records, each twice, with the same or a fresh process. Every replay must report no error and give the tree, contents and inventory of a from-scratch rebuild. Non-trivial: the tape has at least 8 records and a name was deleted or moved and used again.",
		Assum: []string{"tapes written by the filesystem and archive interfaces (no foreign records)", "no symlinks: their replay is a known finding"},
		Quick: 1800, QuickS: 60, Thorough: 50000, ThorS: 750,
		Gen: func(r *Rng, i int, tier string) *Case {
			c := &Case{Cfg: genCfg(r, 78)}
			onTape(r, &c.Cfg, 10)
			n := 3 + r.N(12)
			if r.P(30) {
				n = 12 + r.N(11)
			}
			p := newPool(r, 30)
			if r.P(60) && len(p.names) > 2 {
				p.names = p.names[:2+r.N(2)]
			}
			p.depth = 2 + r.N(2)
			c.Ops = genHistoryPool(p, &c.Cfg, n, histOpts{arch: true, big: 3, w: map[string]int{"rename": 24, "remove": 12, "removeall": 8, "move": 8, "delete": 6, "mkdir": 14, "arch": 8}})
			c.Ops = withOverwrite(p, &c.Cfg, c.Ops, 8, 3+r.N(8), histOpts{arch: true, big: 3, w: map[string]int{"rename": 24, "remove": 12}})
			k := 5
			if tier == "thorough" {
				k = 20
			}
			for j := 0; j < k; j++ {
				c.Extra = append(c.Extra, Extra{K: "prefix", A: int64(r.N(1000)), B: int64(r.N(2))})
			}
			return c
		},
		Run: runC07,
	})
}

func runC07(c *Case, r *Result) {
	withEnv(c, func(e *Env) {
		dels, reuse := 0, false
		dead := map[string]bool{}
		in := &instance{e: e}
		defer in.close()
		for _, op := range c.Ops {
			if isSwap(op.K) {
				in.swap(op, c.Cfg)
				e = in.e
				dead = map[string]bool{}
				continue
			}
			err := sysOp(e, e.FS, op)
			if err != nil {
				continue
			}
			switch op.K {
			case "remove", "removeall", "delete", "rename", "move":
				dead[mclean(op.P)] = true
				dels++
			}
			for d := range dead {
				if op.K != "remove" && op.K != "removeall" && op.K != "delete" && (mclean(op.P) == d || mclean(op.Q) == d) && !(mclean(op.P) == d && (op.K == "rename" || op.K == "move")) {
					reuse = true
				}
			}
		}
		tape := e.TapeBytes()
		recs, tail, _ := ScanTape(tape)
		if tail != "" {
			failf("the tape ends in %s", tail)
		}
		ref, err := e.Rebuild()
		if err != nil {
			failf("rebuild: %v", err)
		}
		defer ref.Close()
		extra := casePaths(c.Ops)
		want := takeView(ref, c.Mode == "links", extra, "rebuild")

		replayInto := func(n *Env, what string) {
			for k := 1; k <= 2; k++ {
				currentCall = what
				if err := n.Index(0, 0, false, 0); err != nil {
					failf("%s: replay %d reports %v", what, k, err)
				}
				r.Checks++
				if d := want.diff(takeView(n, c.Mode == "links", extra, what), "rebuild", "replay"); d != "" {
					failf("%s: after replay %d: %s", what, k, d)
				}
			}
		}
		replayInto(e, "replaying the tape into the live index")
		reb, err := e.Rebuild()
		if err != nil {
			failf("rebuild: %v", err)
		}
		replayInto(reb, "replaying the tape into a rebuilt index")
		reb.Close()

		for j, x := range c.Extra {
			if len(recs) == 0 {
				break
			}
			k := int(x.A) % len(recs)
			what := fmt.Sprintf("replaying %d records into an index of the first %d", len(recs), k+1)
			dir := filepath.Join(e.Dir, fmt.Sprintf("p%d", j))
			tp := filepath.Join(dir, "tape.tar")
			if e.Sim != nil {
				sims[tp] = e.Sim.prefix(recs[k].End, c.Cfg.RS)
			} else {
				writeFile(tp, tape[:recs[k].End])
			}
			db := filepath.Join(dir, "idx.sqlite")
			n, err := NewEnv(dir, tp, c.Cfg, EnvOpts{DB: db})
			if err != nil {
				harnessf("env: %v", err)
			}
			currentCall = "index of a prefix"
			if err := n.Index(0, 0, true, 0); err != nil {
				n.Close()
				failf("indexing the first %d records: %v", k+1, err)
			}
			if e.Sim != nil {
				sims[tp].objs = append([][]byte{}, e.Sim.objs...)
			} else {
				writeFile(tp, tape)
			}
			if x.B == 1 { // a fresh process
				n.Close()
				if n, err = NewEnv(dir, tp, c.Cfg, EnvOpts{DB: db}); err != nil {
					harnessf("env: %v", err)
				}
			}
			func() {
				defer n.Close()
				replayInto(n, what)
			}()
		}
		r.NT = len(recs) >= 8 && dels > 0 && reuse
	})
}

// view is everything a user can observe of an instance.
type view struct {
	s    Snap
	t    map[string]string
	rows map[string]Row
}

func takeView(e *Env, links bool, extra []string, what string) view {
	v := view{rows: rowsOf(e)}
	if links {
		v.t = observe(e.FS, extra)
	} else {
		v.s = mustSnap(e.FS, what)
	}
	return v
}

func (v view) diff(o view, an, bn string) string {
	if v.s != nil {
		if d := diffSnap(v.s, o.s, an, bn, nil); d != "" {
			return d
		}
	}
	if v.t != nil {
		if d := diffText(v.t, o.t, an, bn); d != "" {
			return d
		}
	}
	return diffRows(v.rows, o.rows, an, bn, false)
}
