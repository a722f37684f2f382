package main

import "fmt"

// C02: single caller behaviour matches the reference.

func init() {
	register(&Check{
		ID: "C02", Level: "exploration",
		Rule:  "histories of 4-30 calls over a small adversarial name pool, drawn by a model-steered generator (existing/fresh/wild paths, all flag combinations with one reference meaning; in a fifth of the sessions other calls are made while the handle is open; in 30% of the cases the instance is now and then replaced by one that reopened, rebuilt or lost its index); after every call the whole visible tree, contents and attributes are compared with the reference. Non-trivial: at least 3 calls succeed with a state change and at least one call the reference rejects or one rename/remove of an existing entry occurs.",
		Assum: []string{"reference semantics: POSIX-like directory tree; root removal/rename, O_CREATE on a directory without write access, WriteAt on append handles and RemoveAll below a regular file are not generated (reference systems disagree)", "creation/write timestamps are not compared, times set by Chtimes are"},
		Quick: 3000, QuickS: 60, Thorough: 60000, ThorS: 700,
		Gen: func(r *Rng, i int, tier string) *Case {
			c := &Case{Cfg: genCfg(r, 70)}
			onTape(r, &c.Cfg, 8)
			n := 4 + r.N(16)
			if r.P(20) {
				n = 20 + r.N(15)
			}
			c.Ops = genHistory(r, &c.Cfg, n, histOpts{hostile: 60, reads: true, big: 10, spell: 8, handle: true, calls: true})
			if r.P(30) {
				c.Ops = withSwaps(r, c.Ops, 15)
			}
			return c
		},
		Run: runC02,
	})
}

func runC02(c *Case, r *Result) {
	withEnv(c, func(e *Env) {
		m := NewModel()
		in := &instance{e: e}
		defer in.close()
		succ, rej := 0, 0
		for i, op := range c.Ops {
			if isSwap(op.K) {
				in.swap(op, c.Cfg)
				e = in.e
				r.cls("instance:" + op.K)
			} else if both(e, e.FS, m, op, i, r) {
				succ++
				if op.K == "rename" || op.K == "remove" {
					rej++
				}
			} else {
				rej++
			}
			s, err := Snapshot(e.FS, snapOpts{})
			if err != nil {
				failf("after op %d %s: %v", i, opString(op), err)
			}
			r.Checks++
			if d := checkModel(s, m, nil); d != "" {
				failf("after op %d %s: %s", i, opString(op), d)
			}
		}
		r.NT = succ >= 3 && rej >= 1
	})
}

// withSwaps replaces the instance after some calls by one that reopened the index ("reopen"), rebuilt it
// ("rebuilt") or lost it ("lost", Initialize has to rebuild it).
func withSwaps(r *Rng, ops []Op, pct int) []Op {
	var out []Op
	for _, op := range ops {
		out = append(out, op)
		if r.P(pct) {
			out = append(out, Op{K: pick(r, "reopen", "reopen", "rebuilt", "lost")})
		}
	}
	return out
}

// withEnv sets up a scratch directory with an initialised filesystem.
func withEnv(c *Case, f func(e *Env)) {
	withEnvOpts(c, EnvOpts{}, f)
}

func withEnvOpts(c *Case, o EnvOpts, f func(e *Env)) {
	dir := mkScratch()
	defer rmScratch(dir)
	e, err := NewEnv(dir, dir+"/tape.tar", c.Cfg, o)
	if err != nil {
		harnessf("env: %v", err)
	}
	defer e.Close()
	currentCall = "Initialize"
	if err := e.Init(); err != nil {
		failf("Initialize on an empty tape: %v", err)
	}
	f(e)
}

var _ = fmt.Sprint
