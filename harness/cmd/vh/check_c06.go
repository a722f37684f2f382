package main

import (
	"archive/tar"
	"fmt"
	"path"
	"path/filepath"
)

// C06: a torn tail never costs more than the torn record.

func init() {
	register(&Check{
		ID: "C06", Level: "fault_enumeration",
		Rule:  "histories of 2-14 calls (multi-record removes, renames and archive calls included) over pipeline configurations (14% on a simulated tape drive, cut between its records); of the resulting tape 14 (thorough: 60) cuts are tried per history, chosen by layout class (record start, inside the extension header, at and inside content, last content byte, padding, trailer, between calls, anywhere). Each truncated copy is indexed from scratch; rows, tree and contents are compared with a replay of the complete records, the torn record may show in its own entry only, and restoring that entry (by name, by position, and through an index which still knows the complete tape) must fail or return its earlier content. Non-trivial: at least one cut of the case tears a record and at least 3 complete records survive it.",
		Assum: []string{"a truncated copy of the drive file is what survives (no reordering of writes inside the file)", "expected contents of encoded records are taken from the complete tape (C03 decides that those are right)"},
		Quick: 1400, QuickS: 60, Thorough: 30000, ThorS: 750,
		Gen: func(r *Rng, i int, tier string) *Case {
			c := &Case{Cfg: genCfg(r, 70)}
			onTape(r, &c.Cfg, 14)
			n := 2 + r.N(13)
			c.Ops = genHistory(r, &c.Cfg, n, histOpts{hostile: 25, arch: true, big: 10, w: map[string]int{"arch": 10, "update": 8, "rename": 12, "removeall": 7, "write": 26}})
			k := 14
			if tier == "thorough" {
				k = 60
			}
			for j := 0; j < k; j++ {
				x := genCut(r)
				if r.P(35) {
					x.T = 1
				}
				c.Extra = append(c.Extra, x)
			}
			return c
		},
		Run: runC06,
	})
}

// contentsByPos reads the content of every content-bearing record of the complete tape.
func contentsByPos(e *Env, tape []byte, recs []Rec) map[int64][]byte {
	out := map[int64][]byte{}
	for _, rc := range recs {
		if rc.H.Typeflag != tar.TypeReg || !(rc.Act == "CREATE" || rc.Repl) {
			continue
		}
		if e.Cfg.plain() {
			out[rc.Start] = tape[rc.Content : rc.Content+rc.Outer.Size]
			continue
		}
		b, _, err := fetchAt(e, int(rc.Start/blk)/e.Cfg.RS, int(rc.Start/blk)%e.Cfg.RS)
		if err != nil {
			failf("fetching the record at byte %d of the complete tape: %v", rc.Start, err)
		}
		if b == nil {
			b = []byte{}
		}
		out[rc.Start] = b
	}
	return out
}

func runC06(c *Case, r *Result) {
	withEnv(c, func(e *Env) {
		for _, op := range c.Ops {
			_ = sysOp(e, e.FS, op)
		}
		tape := e.TapeBytes()
		recs, tail, _ := ScanTape(tape)
		if tail != "" {
			failf("the complete tape ends in %s", tail)
		}
		if err := decodeRecs(e, recs); err != nil {
			failf("%v", err)
		}
		data := contentsByPos(e, tape, recs)
		seen := map[int64]bool{}
		for j, x := range c.Extra {
			cut := resolveCut(x, recs, int64(len(tape)))
			if e.Sim != nil { // a drive writes whole records
				cut -= cut % int64(c.Cfg.RS*blk)
			}
			if seen[cut] {
				continue
			}
			seen[cut] = true
			r.cls("cut:" + x.S)
			complete, torn := checkCut(e, tape, recs, data, cut, j, r)
			if torn >= 0 {
				r.cls("torn record")
				if complete >= 3 {
					r.NT = true
				}
			}
		}
	})
}

func checkCut(e *Env, tape []byte, recs []Rec, data map[int64][]byte, cut int64, j int, r *Result) (int, int) {
	complete, torn, padOnly := survivors(recs, cut)
	what := fmt.Sprintf("cut at byte %d of %d (%d complete records", cut, len(tape), complete)
	if torn >= 0 {
		rc := recs[torn]
		what += fmt.Sprintf(", tears the %s record of %q at byte %d, content at %d", rc.Act, rc.Name, rc.Start, rc.Content)
	}
	what += ")"
	dir := filepath.Join(e.Dir, fmt.Sprintf("cut%d", j))
	tp := filepath.Join(dir, "tape.tar")
	writeFile(tp, tape[:cut])
	if e.Sim != nil {
		sims[tp] = &simTape{objs: append([][]byte{}, e.Sim.objs[:int(cut)/(e.Cfg.RS*blk)]...)}
	}
	n, err := NewEnv(dir, tp, e.Cfg, EnvOpts{DB: ":memory:"})
	if err != nil {
		harnessf("env: %v", err)
	}
	defer n.Close()
	currentCall = what + ": Index"
	_ = n.Index(0, 0, true, 0) // an error is fine, what matters is the resulting state
	currentCall = what + ": compare"
	want := replay(recs[:complete])
	rows := rowsOf(n)
	rs := e.Cfg.RS
	r.Checks++
	tornName, tornOld := "", ""
	var after map[string]*TEntry
	if torn >= 0 {
		tornName, tornOld = recs[torn].Name, recs[torn].Old
		if recs[torn].Content < cut || padOnly {
			after = replay(recs[:torn+1])
		}
	}
	if after == nil || tornName == "" {
		if d := compareRowsTape(rows, want, rs, true); d != "" {
			failf("%s: %s", what, d)
		}
	} else {
		// everything but the torn entry is exactly as before
		rest, wrest := map[string]Row{}, map[string]*TEntry{}
		for k, v := range rows {
			if k != tornName && k != tornOld {
				rest[k] = v
			}
		}
		for k, v := range want {
			if k != tornName && k != tornOld {
				wrest[k] = v
			}
		}
		if d := compareRowsTape(rest, wrest, rs, true); d != "" {
			failf("%s: %s", what, d)
		}
		for _, k := range []string{tornName, tornOld} {
			if k == "" {
				continue
			}
			row, ok := rows[k]
			b, a := want[k], after[k]
			switch {
			case !ok && (b == nil || a == nil):
			case ok && b != nil && rowTapeDiff(row, b, rs, true) == "":
			case ok && a != nil && rowTapeDiff(row, a, rs, false) == "":
				r.cls("torn record reflected")
			default:
				failf("%s: the torn entry %q is neither as before nor as the torn record says: %+v (present %v)", what, k, row, ok)
			}
		}
	}
	// by position: what is complete is exact, what is torn or lost is an error
	for i := range recs {
		exp, ok := data[recs[i].Start]
		if !ok || (i < complete-1 && (i+j)%5 != 0) || i > torn+2 && torn >= 0 {
			continue
		}
		pos := recs[i].Start / blk
		currentCall = fmt.Sprintf("%s: Fetch of the record at byte %d", what, recs[i].Start)
		got, _, err := fetchAt(n, int(pos)/rs, int(pos)%rs)
		r.Checks++
		if i < complete && (err != nil || string(got) != string(exp)) {
			failf("%s: fetching the complete record of %q at byte %d returns %s (error %v), it was %s", what, recs[i].Name, recs[i].Start, brief(got), err, brief(exp))
		}
		if i >= complete && err == nil && string(got) != string(exp) {
			failf("%s: fetching the record of %q at byte %d, of which %d of %d bytes are left, succeeds with %s", what, recs[i].Name, recs[i].Start, max(0, cut-recs[i].Start), recs[i].End-recs[i].Start, brief(got))
		}
	}
	// with the index which was current before the cut
	if j%3 == 0 || torn >= 0 && j%2 == 0 {
		checkOldIndex(e, recs, data, cut, tp, complete, padOnly, what, r)
	}
	currentCall = what + ": contents"
	// contents
	for _, k := range sortedRowKeys(rows) {
		row := rows[k]
		if byte(row.Type) != tar.TypeReg || row.Link != "" {
			continue
		}
		b := want[k]
		if b == nil || (k == tornName && after != nil && rowTapeDiff(row, b, rs, true) != "") {
			// the torn entry: an error, or (padding only) what was written
			for _, how := range []string{"restoring", "reading"} {
				var got []byte
				var err error
				if how == "restoring" {
					got, err = restoreFile(n, row.Name)
				} else {
					got, err = ReadAll(n.FS, row.Name)
				}
				if err == nil {
					exp := data[recs[torn].Start]
					if !padOnly || string(got) != string(exp) {
						failf("%s: %s the torn entry %q succeeds with %s", what, how, k, brief(got))
					}
				}
			}
			continue
		}
		exp := data[b.At]
		got, err := ReadAll(n.FS, row.Name)
		if err != nil || string(got) != string(exp) {
			failf("%s: %q reads %s (error %v), it was %s", what, k, brief(got), err, brief(exp))
		}
		if r.Checks%3 == 0 {
			got, err := restoreFile(n, row.Name)
			if err != nil || string(got) != string(exp) {
				failf("%s: restoring %q returns %s (error %v), it was %s", what, k, brief(got), err, brief(exp))
			}
		}
		r.Checks++
	}
	// the tree below the root is usable
	if want["/"] != nil {
		s := mustSnap(n.FS, what)
		for k := range want {
			if s[k] == nil && k != tornName && k != tornOld && rooted(want, k) {
				failf("%s: %q is not listed", what, k)
			}
		}
		for k := range s {
			if want[k] == nil && k != tornName {
				failf("%s: %q is listed but was never completely written", what, k)
			}
		}
	}
	return complete, torn
}

// rooted: every ancestor is a live directory (a call which appends several records can be cut between them).
func rooted(m map[string]*TEntry, k string) bool {
	for d := path.Dir(k); ; d = path.Dir(d) {
		if m[d] == nil || !m[d].Dir {
			return false
		}
		if d == "/" {
			return true
		}
	}
}

// checkOldIndex restores and reads every file over the cut tape with the index of the complete one.
func checkOldIndex(e *Env, recs []Rec, data map[int64][]byte, cut int64, tp string, complete int, padOnly bool, what string, r *Result) {
	o, err := NewEnv(filepath.Dir(tp), tp, e.Cfg, EnvOpts{DB: e.DB})
	if err != nil {
		harnessf("env: %v", err)
	}
	defer o.Close()
	full := replay(recs)
	for _, k := range sortedKeysT(full) {
		w := full[k]
		if w.Type != tar.TypeReg || w.Link != "" {
			continue
		}
		exp := data[w.At]
		for _, how := range []string{"restoring", "reading"} {
			currentCall = fmt.Sprintf("%s: %s %q with the earlier index", what, how, k)
			var got []byte
			if how == "restoring" {
				got, err = restoreFile(o, k)
			} else {
				got, err = ReadAll(o.FS, k)
			}
			r.Checks++
			if w.Rec < complete && (err != nil || string(got) != string(exp)) {
				failf("%s: with the earlier index, %s %q, which is complete, returns %s (error %v), it was %s", what, how, k, brief(got), err, brief(exp))
			}
			// an empty file has no content to lose: its entry is in the index
			if w.Rec >= complete && err == nil && string(got) != string(exp) {
				failf("%s: with the earlier index, %s %q, whose record at byte %d is not complete, succeeds with %s, it was %s", what, how, k, w.At, brief(got), brief(exp))
			}
		}
	}
}

func sortedKeysT(m map[string]*TEntry) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}
