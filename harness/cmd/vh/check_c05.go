package main

import (
	"archive/tar"
	"bytes"
	"fmt"
	"strings"
)

// C05: append-only, standard tar stream.

func init() {
	register(&Check{
		ID: "C05", Level: "exploration",
		Rule:  "histories of 4-24 filesystem and archive-interface calls, a third of them steered to fail a precondition, over adversarial names, contents (including contents that look like a tape) and configurations (15% on a simulated tape drive), with reopened instances; symlinks and explicit overwrites (after which the tape has to be appended to again) in 15% of the cases each; in 18% some calls run into a one-shot fault of one environment operation (after which the tape must still be a standard archive with a complete trailer, and later calls work). After every call: the previous tape is a byte prefix; a failed or reading call appends nothing; the length is a multiple of 512; the standard library's tar reader, restarted after each trailer, iterates every record that a physical scan finds. For plain configurations the member data of each live file's content record is the file's content. Non-trivial: at least 4 calls appended and at least 2 failed.",
		Assum: []string{"archive/tar is the standard reader; once per thorough run GNU tar (-i) reads the tapes too if it is installed"},
		Quick: 3000, QuickS: 60, Thorough: 80000, ThorS: 700,
		Gen: func(r *Rng, i int, tier string) *Case {
			c := &Case{Cfg: genCfg(r, 65)}
			onTape(r, &c.Cfg, 15)
			n := 4 + r.N(14)
			if r.P(15) {
				n = 15 + r.N(10)
			}
			o := histOpts{hostile: 45, arch: true, reads: true, big: 10, spell: 5, handle: true,
				w: map[string]int{"stat": 3, "list": 3, "read": 4, "restore": 3}}
			p := newPool(r, o.hostile)
			ops := genHistoryPool(p, &c.Cfg, n, o)
			switch {
			case c.Cfg.Drv == "" && r.P(18):
				c.Mode = "faults"
				ops = withFaults(r, ops, 35)
			case r.P(18):
				c.Mode = "links"
				ops = withLinks(r, p, ops)
			default:
				ops = withOverwrite(p, &c.Cfg, ops, 15, 2+r.N(7), o)
			}
			for _, op := range ops {
				c.Ops = append(c.Ops, op)
				if r.P(12) {
					c.Ops = append(c.Ops, Op{K: pick(r, "reopen", "reopen", "rebuilt", "lost")})
				}
			}
			return c
		},
		Run: runC05,
	})
}

// openFailed says whether a session's open itself failed (as opposed to something on the handle).
func callFailed(op Op, err error) bool {
	if err == nil {
		return false
	}
	return !strings.HasPrefix(currentCall, op.K+" ") || (op.K != "open" && op.K != "create") || !strings.Contains(currentCall, ": ")
}

func runC05(c *Case, r *Result) {
	x, o := faultOpts(c)
	withEnvOpts(c, o, func(e *Env) {
		in := &instance{e: e}
		defer in.close()
		prev := e.TapeBytes()
		app, fails := 0, 0
		for i, op := range c.Ops {
			what := fmt.Sprintf("after op %d %s", i, opString(op))
			var err error
			failed := false
			if x.order(op) {
				continue
			}
			if isSwap(op.K) {
				in.swap(op, c.Cfg)
				x.swapped(op.K)
			} else {
				err = x.do(in.e, op, r)
				failed = callFailed(op, err)
			}
			now := in.e.TapeBytes()
			r.Checks++
			if isOver(op.K) {
				prev = nil // the explicit overwrite; what follows appends again
			}
			if len(now) < len(prev) {
				failf("%s: the tape shrank from %d to %d bytes", what, len(prev), len(now))
			}
			if !bytes.Equal(now[:len(prev)], prev) {
				at := 0
				for at < len(prev) && prev[at] == now[at] {
					at++
				}
				failf("%s: byte %d of the tape was changed (%d bytes before the call)", what, at, len(prev))
			}
			if len(now) > len(prev) {
				app++
				if failed && !x.was() {
					failf("%s: the call failed (%v) and still appended %d bytes", what, err, len(now)-len(prev))
				}
				if isSwap(op.K) && !isOver(op.K) || op.K == "stat" || op.K == "list" || op.K == "read" || op.K == "restore" {
					failf("%s: a call which only reads appended %d bytes", what, len(now)-len(prev))
				}
			}
			if failed {
				fails++
				r.cls("fail:" + op.K)
			} else {
				r.cls("ok:" + op.K)
			}
			x.settle(err, len(now) > len(prev) && !isSwap(op.K))
			checkStandardTape(in.e, now, what, c.Mode == "links" || x.lags(), x.was(), r)
			prev = now
		}
		r.NT = app >= 4 && fails >= 2
	})
}

func checkStandardTape(e *Env, tape []byte, what string, links, orphans bool, r *Result) {
	if len(tape)%blk != 0 {
		failf("%s: the tape has %d bytes, not a multiple of %d", what, len(tape), blk)
	}
	recs, tail, at := ScanTape(tape)
	if tail != "" {
		failf("%s: at byte %d the tape has %s", what, at, tail)
	}
	i := 0
	n, err := standardScan(tape, func(off int64, h *tar.Header, data []byte) error {
		if i < len(recs) {
			rc := recs[i]
			if rc.Outer.Name != h.Name || rc.Outer.Size != h.Size {
				return fmt.Errorf("member %d is %q (%d bytes) for the standard reader and %q (%d bytes) physically", i, h.Name, h.Size, rc.Outer.Name, rc.Outer.Size)
			}
		}
		i++
		return nil
	})
	if err != nil {
		failf("%s: a standard tar reader fails: %v", what, err)
	}
	if n != len(recs) {
		failf("%s: a standard tar reader finds %d members, the tape has %d records", what, n, len(recs))
	}
	// at rest the tape ends with a trailer
	if len(tape) > 0 && (len(tape) < 1024 || !isZero(tape[len(tape)-1024:])) {
		failf("%s: the tape does not end with a tar trailer", what)
	}
	r.Checks += n
	if !e.Cfg.plain() || links { // which entry a link's record stands for isn't settled by the physical tape
		return
	}
	if err := decodeRecs(e, recs); err != nil {
		failf("%s: %v", what, err)
	}
	want := replay(recs)
	s := mustSnap(e.FS, what)
	for _, k := range s.keys() {
		nd := s[k]
		w := want[k]
		if w == nil {
			failf("%s: %q is visible but no record on the tape makes it live", what, k)
		}
		if nd.Dir {
			continue
		}
		rc := recs[w.Rec]
		if nd.Err != "" {
			failf("%s: reading %q: %s", what, k, nd.Err)
		}
		if data := tape[rc.Content : rc.Content+rc.Outer.Size]; string(data) != string(nd.Data) {
			failf("%s: the standard reader extracts %s for %q, the file's content is %s", what, brief(data), k, brief(nd.Data))
		}
		r.Checks++
	}
	for k := range want {
		if s[k] == nil && !orphans { // an entry whose parent's creation was faulted is not visible
			failf("%s: %q is live on the tape but not visible", what, k)
		}
	}
}
