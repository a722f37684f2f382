package main

import (
	"archive/tar"
	"fmt"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/recovery"
)

// C04: index positions designate the right tape records.

func init() {
	register(&Check{
		ID: "C04", Level: "exploration",
		Rule:  "histories of 3-18 filesystem and archive-interface calls (archive calls of up to 9 members) over record sizes 1,2,3,5,7,20,32,64 and pipeline configurations; a fifth of them on a simulated tape drive, some with symlinks or an explicit overwrite, now and then an archive call of up to 75 members, 12% with one-shot environment faults. After every call an independent scan of the tape lists its records; a replay of them gives, per live entry, the record which holds its content. Compared: row position == that record's first block, block < record size, last known >= position, last indexed == final record, recovery.Query's positions, and the bytes fetched at the position == the entry's content. Non-trivial: at least 5 records, one entry renamed/moved or updated after its content was written, and one content-bearing entry that is not at record 0.",
		Assum: []string{"the replay decodes encrypted and signed headers with the repository's own codecs (their correctness is C03/C08/C09)"},
		Quick: 2400, QuickS: 60, Thorough: 60000, ThorS: 750,
		Gen: func(r *Rng, i int, tier string) *Case {
			c := &Case{Cfg: genCfg(r, 65)}
			onTape(r, &c.Cfg, 20)
			n := 3 + r.N(10)
			if r.P(20) {
				n = 10 + r.N(9)
			}
			p := newPool(r, 25)
			ops := genHistoryPool(p, &c.Cfg, n, histOpts{arch: true, big: 15, calls: true, w: map[string]int{"arch": 18, "move": 8, "update": 9, "chmod": 8, "mkdir": 7}})
			if c.Cfg.Drv == "" && r.P(12) {
				c.Mode = "faults"
				ops = withFaults(r, ops, 30)
			} else {
				ops = withOverwrite(p, &c.Cfg, ops, 8, 1+r.N(6), histOpts{arch: true, big: 10})
			}
			for i, op := range ops {
				c.Ops = append(c.Ops, op)
				// more members per archive call
				if op.K == "arch" && r.P(50) {
					c.Ops[len(c.Ops)-1] = growArch(r, p, &c.Cfg, op, i)
				}
				if r.P(10) {
					c.Ops = append(c.Ops, Op{K: pick(r, "reopen", "rebuilt")})
				}
			}
			return c
		},
		Run: runC04,
	})
}

// growArch adds members with names nothing else uses.
func growArch(r *Rng, p *pool, cfg *Cfg, op Op, salt int) Op {
	for k := 0; k < 1+r.N(5); k++ {
		it := Item{Path: fmt.Sprintf("/m%d_%d", salt, k), Mode: genMode(r), T: genTime(r)}
		if r.P(20) {
			it.Dir = true
		} else {
			it.Data = genData(r, cfg.RS, 0)
		}
		op.It = append(op.It, it)
	}
	return op
}

func runC04(c *Case, r *Result) {
	x, o := faultOpts(c)
	withEnvOpts(c, o, func(e *Env) {
		in := &instance{e: e}
		defer in.close()
		last := 0
		multi, rel, recsMax, off := 0, 0, 0, false
		for i, op := range c.Ops {
			what := fmt.Sprintf("after op %d %s", i, opString(op))
			if x.order(op) {
				continue
			}
			if isSwap(op.K) {
				in.swap(op, c.Cfg)
				x.swapped(op.K)
			} else {
				err := x.do(in.e, op, r)
				n := len(in.e.TapeBytes())
				x.settle(err, n != last)
				last = n
				if err == nil {
					switch op.K {
					case "rename", "move", "update", "chmod":
						rel++
					case "arch":
						if len(op.It) > 1 {
							multi++
							r.cls("multi-member archive call")
						}
					}
				}
			}
			if x.lags() { // after a fault the index may be behind the tape until the next successful call
				continue
			}
			n, o := checkPositions(in.e, what, r)
			recsMax = n
			off = off || o
		}
		r.NT = recsMax >= 5 && rel >= 1 && off
	})
}

func checkPositions(e *Env, what string, r *Result) (int, bool) {
	tape := e.TapeBytes()
	recs, tail, _ := ScanTape(tape)
	if tail != "" {
		failf("%s: the tape ends in %s", what, tail)
	}
	if err := decodeRecs(e, recs); err != nil {
		failf("%s: %v", what, err)
	}
	want := replay(recs)
	rows := rowsOf(e)
	rs := e.Cfg.RS
	if d := compareRowsTape(rows, want, rs, true); d != "" {
		failf("%s: %s", what, d)
	}
	r.Checks += len(rows)
	// the last indexed position is the final record
	lr, lb, err := e.P.GetLastIndexedRecordAndBlock(ctx, rs)
	if err != nil {
		failf("%s: last indexed position: %v", what, err)
	}
	if len(recs) > 0 {
		if p := posOf(lr, lb, rs); p != recs[len(recs)-1].Start || lb >= int64(rs) {
			failf("%s: the index reports (%d, %d) = byte %d as last written, the final record starts at byte %d", what, lr, lb, p, recs[len(recs)-1].Start)
		}
	}
	off := false
	currentCall = what + ": fetch"
	for _, k := range sortedRowKeys(rows) {
		row := rows[k]
		if byte(row.Type) != tar.TypeReg || row.Link != "" {
			continue
		}
		if row.Rec > 0 && row.Size > 0 {
			off = true
		}
		got, _, err := fetchAt(e, int(row.Rec), int(row.Blk))
		if err != nil {
			failf("%s: fetching %q at (%d, %d): %v", what, k, row.Rec, row.Blk, err)
		}
		have, err := ReadAll(e.FS, row.Name)
		if err != nil {
			failf("%s: reading %q: %v", what, k, err)
		}
		if string(got) != string(have) {
			failf("%s: fetching %q at (%d, %d) returns %s, the entry's content is %s", what, k, row.Rec, row.Blk, brief(got), brief(have))
		}
		if int64(len(got)) != row.Size {
			failf("%s: fetching %q at (%d, %d) returns %d bytes, the entry has %d", what, k, row.Rec, row.Blk, len(got), row.Size)
		}
		if e.Cfg.plain() {
			w := want[k]
			rc := recs[w.Rec]
			if raw := tape[rc.Content : rc.Content+row.Size]; string(raw) != string(have) {
				failf("%s: the record of %q holds %s, reading the entry returns %s", what, k, brief(raw), brief(have))
			}
		}
		r.Checks++
	}
	checkQuery(e, recs, what, r)
	return len(recs), off
}

func sortedRowKeys(m map[string]Row) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

// checkQuery: the positions a tape query reports are the starts of the records.
func checkQuery(e *Env, recs []Rec, what string, r *Result) {
	currentCall = what + ": query"
	reader, err := e.BE.GetReader()
	if err != nil {
		failf("%s: query: %v", what, err)
	}
	defer e.BE.CloseReader()
	i := 0
	_, err = recovery.Query(reader, e.BE.MagneticTapeIO, e.Pipes, e.RC, 0, 0, func(h *config.Header) {
		if i < len(recs) {
			if p := posOf(h.Record, h.Block, e.Cfg.RS); p != recs[i].Start {
				failf("%s: query reports record %d (%q) at (%d, %d) = byte %d, it starts at byte %d", what, i, h.Name, h.Record, h.Block, p, recs[i].Start)
			}
		}
		i++
	})
	if err != nil {
		failf("%s: query: %v", what, err)
	}
	if i != len(recs) {
		failf("%s: query lists %d records, the tape has %d", what, i, len(recs))
	}
	r.Checks++
}
