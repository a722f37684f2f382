package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
)

// C16: opening a filesystem over an existing tape is non-destructive and faithful.

func init() {
	register(&Check{
		ID: "C16", Level: "fault_enumeration",
		Rule:  "histories of 2-13 calls (archive calls, renames, recursive removes, now and then the removal of the root) over pipeline configurations (12% on a simulated tape drive) give a tape. 9 (thorough: 40) variants of it are opened: whole, cut at a layout-chosen byte, with zero blocks behind it, with zeros in place of what was behind the cut, or with random blocks behind it; with an index that is absent, of the complete tape, of what the cut left, or of a prefix of the records or calls; read-write, read-only, or with the drive's overwrite flag. Initialize must leave what was on the tape in place, append nothing when a rebuild of the tape shows a root, must succeed when nothing is torn, and when it succeeds the tree, contents, inventory and positions are those of a from-scratch rebuild; a second Initialize changes nothing; 2-6 further calls behave as on the reference, keep the earlier bytes, and survive a rebuild and another opening with every kind of index. Non-trivial: at least one variant with 3 or more surviving records and an absent or stale index was opened successfully and written to, and one was cut inside a record.",
		Assum: []string{"read-only instances over stale indexes are excluded (C15: the index is not changed)", "an unaligned or torn tail may be refused by Initialize", "tape drives are cut at filemarks; elsewhere is a known finding"},
		Quick: 1600, QuickS: 75, Thorough: 30000, ThorS: 750,
		Gen: genC16,
		Run: runC16,
	})
}

func genC16(r *Rng, i int, tier string) *Case {
	c := &Case{Cfg: genCfg(r, 72)}
	onTape(r, &c.Cfg, 12)
	n := 2 + r.N(12)
	p := newPool(r, 20)
	c.Ops = genHistoryPool(p, &c.Cfg, n, histOpts{arch: true, big: 6, w: map[string]int{"arch": 9, "update": 6, "rename": 12, "removeall": 7, "write": 24}})
	if r.P(4) {
		c.Ops = append(c.Ops, Op{K: pick(r, "delete", "removeall"), P: "/"})
	}
	// further calls, over the same names; their outcome is decided by a reference started from what is seen
	c.Ops2 = genHistoryPool(p, &c.Cfg, 2+r.N(5), histOpts{big: 2, w: map[string]int{"write": 26, "mkdir": 16}})
	k := 9
	if tier == "thorough" {
		k = 40
	}
	for j := 0; j < k; j++ {
		x := genCut(r)
		if r.P(40) {
			x.T = 1
		}
		switch {
		case r.P(25):
			x.K = "whole"
		case r.P(20):
			x.K = "zeros"
		case r.P(20):
			x.K = "sparse"
		case r.P(12):
			x.K = "garbage"
		}
		x.I = []int64{int64(r.N(5)), int64(r.N(1000)), int64(r.N(10))} // index state, prefix, mode
		c.Extra = append(c.Extra, x)
	}
	return c
}

// c16Snap is the index before a call, and how long the tape was.
type c16Snap struct {
	p string
	n int64
}

var c16States = []string{"absent", "complete", "current", "records", "calls"}

func runC16(c *Case, r *Result) {
	withEnv(c, func(e *Env) {
		var snaps []c16Snap
		for i, op := range c.Ops {
			p := filepath.Join(e.Dir, fmt.Sprintf("call%d.sqlite", i))
			copyFile(e.DB, p)
			snaps = append(snaps, c16Snap{p, int64(len(e.TapeBytes()))})
			_ = sysOp(e, e.FS, op)
		}
		tape := e.TapeBytes()
		recs, tail, _ := ScanTape(tape)
		if tail != "" {
			failf("the complete tape ends in %s", tail)
		}
		wrote, tore := false, false
		for j, x := range c.Extra {
			if len(x.I) < 3 {
				continue
			}
			w, t := c16Variant(e, c, tape, recs, snaps, x, j, r)
			wrote = wrote || w
			tore = tore || t
		}
		r.NT = wrote && tore
	})
}

func c16Variant(e *Env, c *Case, tape []byte, recs []Rec, snaps []c16Snap, x Extra, j int, r *Result) (wrote, tore bool) {
	cut := int64(len(tape))
	var old []byte
	if e.Sim != nil && x.K != "cut" {
		x.K = "whole"
	}
	switch x.K {
	case "cut":
		cut = resolveCut(x, recs, cut)
		if e.Sim != nil { // drives hold whole records; calls end with a filemark
			k := int(cut) / (c.Cfg.RS * blk)
			for c.Mode != "nomark" && k > 0 && e.Sim.objs[k-1] != nil {
				k--
			}
			cut = int64(k * c.Cfg.RS * blk)
		}
		old = tape[:cut]
	case "zeros":
		old = append(append([]byte(nil), tape...), make([]byte, int(1+x.A%41)*blk)...)
		cut = int64(len(old))
	case "sparse": // cut, but the file had been extended: zeros are in place of what was written last
		cut = resolveCut(x, recs, cut)
		old = append([]byte(nil), tape[:cut]...)
		old = append(old, make([]byte, int((cut+blk-1)/blk*blk-cut)+int(x.B%7)*blk)...)
	case "garbage": // behind a whole, a cut or an empty tape
		switch x.B % 4 {
		case 0:
			cut = 0
		case 1:
			cut = resolveCut(x, recs, cut)
		}
		old = append(append([]byte(nil), tape[:cut]...), NewRng(uint64(x.B)).Bytes(int(1+x.A%9)*blk)...)
	default:
		old = tape
	}
	complete, torn, _ := survivors(recs, cut)
	aligned := len(old)%blk == 0
	state := c16States[int(x.I[0])%len(c16States)]
	mode := "rw"
	switch x.I[2] {
	case 0, 1:
		mode = "ro"
	case 2:
		mode = "over"
	}
	if mode == "ro" && state != "absent" && state != "current" {
		state = "current"
	}
	what := fmt.Sprintf("variant %d: %s tape of %d bytes (%d complete records, torn %v), index %s, %s", j, x.K, len(old), complete, torn >= 0, state, mode)
	dir := filepath.Join(e.Dir, fmt.Sprintf("v%d", j))
	tp := filepath.Join(dir, "tape.tar")
	db := filepath.Join(dir, "idx.sqlite")
	layTape(e, tp, old)
	prefixIndex := func(n int64) {
		sub := filepath.Join(dir, "prefix")
		t := filepath.Join(sub, "tape.tar")
		b := tape
		if n > int64(len(tape)) || state == "current" {
			b = old
		}
		layTape(e, t, b[:n])
		p, err := NewEnv(sub, t, c.Cfg, EnvOpts{DB: db})
		if err != nil {
			harnessf("env: %v", err)
		}
		defer p.Close()
		currentCall = what + ": indexing a prefix"
		_ = p.Index(0, 0, true, 0)
	}
	switch state {
	case "complete":
		copyFile(e.DB, db)
	case "current":
		prefixIndex(int64(len(old)))
	case "records":
		if complete == 0 {
			state = "absent"
		} else {
			prefixIndex(recs[int(x.I[1])%complete].End)
		}
	case "calls":
		if len(snaps) == 0 {
			state = "absent"
		} else {
			copyFile(snaps[int(x.I[1])%len(snaps)].p, db)
		}
	}
	if e.Sim != nil && state == "calls" && snaps[int(x.I[1])%len(snaps)].n > cut || e.Sim != nil && state == "complete" && x.K == "cut" {
		// nothing says how long a tape is, so that an index which knows more than the tape holds is not told apart
		state = "current"
		prefixIndex(int64(len(old)))
	}
	r.cls("index:" + state)
	r.cls("mode:" + mode)
	r.cls("tape:" + x.K)
	if e.Sim != nil {
		r.cls("tape drive")
	}
	if torn >= 0 {
		r.cls("torn")
		tore = true
	}
	n, err := NewEnv(dir, tp, c.Cfg, EnvOpts{DB: db, ReadOnly: mode == "ro", Over: mode == "over"})
	if err != nil {
		harnessf("env: %v", err)
	}
	defer n.Close()

	// what a rebuild of the tape shows
	ref, rerr := c16Rebuild(e, c, old, filepath.Join(dir, "ref"))
	defer ref.Close()
	rows := rowsOf(ref)
	hasRoot := false
	for _, row := range rows {
		if row.Name == "/" {
			hasRoot = true
		}
	}

	if !hasRoot && (len(rows) > 0 || mode == "over") {
		r.cls("no root but entries") // the tear is inside of the removal of the root
		if mode != "over" {
			currentCall = what + ": Initialize"
			ierr := n.Init()
			now := n.TapeBytes()
			if !bytes.HasPrefix(now, old) {
				failf("%s: Initialize removed or rewrote what was on the tape (now %d bytes, error %v)", what, len(now), ierr)
			}
			if mode == "ro" && len(now) != len(old) {
				failf("%s: a read-only Initialize appends", what)
			}
		}
		return false, tore
	}
	currentCall = what + ": Initialize"
	ierr := n.Init()
	now := n.TapeBytes()
	if !bytes.HasPrefix(now, old) {
		failf("%s: Initialize removed or rewrote what was on the tape (now %d bytes, error %v)", what, len(now), ierr)
	}
	if (hasRoot || mode == "ro") && len(now) != len(old) {
		failf("%s: Initialize appended %d bytes although the tape has a root (error %v)", what, len(now)-len(old), ierr)
	}
	r.Checks++
	if ierr != nil {
		r.cls("refused")
		if torn < 0 && aligned && x.K != "garbage" && (hasRoot || (mode != "ro" && complete == 0 && cut == 0)) {
			failf("%s: Initialize fails although nothing is torn: %v", what, ierr)
		}
		if mode == "ro" && hasRoot && (rerr == nil || errors.Is(rerr, io.ErrUnexpectedEOF)) {
			failf("%s: a read-only Initialize fails although a rebuild shows a root: %v", what, ierr)
		}
		return false, tore
	}
	r.cls("opened")
	extra := casePaths(append(append([]Op(nil), c.Ops...), c.Ops2...))
	sameAsRebuild := func(what string) {
		b := n.TapeBytes()
		rb, _ := c16Rebuild(n, c, b, filepath.Join(dir, "ref"))
		defer rb.Close()
		currentCall = what + ": observe"
		if d := diffText(observe(rb.FS, extra), observe(n.FS, extra), "a rebuild", "the opened filesystem"); d != "" {
			failf("%s: %s", what, d)
		}
		if d := diffRows(rowsOf(rb), rowsOf(n), "a rebuild", "the opened filesystem", true); d != "" {
			failf("%s: %s", what, d)
		}
		r.Checks++
	}
	sameAsRebuild(what + ": after Initialize")
	if mode == "over" {
		return false, tore
	}
	again := n.TapeBytes()
	if err := n.Init(); err != nil {
		failf("%s: a second Initialize fails: %v", what, err)
	}
	if !bytes.Equal(again, n.TapeBytes()) {
		failf("%s: a second Initialize changes the tape", what)
	}
	if mode == "ro" {
		return false, tore
	}
	// further calls
	s, err := Snapshot(n.FS, snapOpts{})
	if err != nil { // cuts between the records of one call can leave entries without parents
		if torn < 0 && (x.K == "whole" || x.K == "zeros") {
			failf("%s: %v", what, err)
		}
		return false, tore
	}
	if len(s) != len(rowsOf(n)) {
		r.cls("orphans")
		return false, tore
	}
	if prevErr(s) != "" && torn >= 0 { // the content of the torn record
		r.cls("torn content")
		return false, tore
	}
	m := modelOf(s)
	for i, op := range c.Ops2 {
		before := n.TapeBytes()
		if d := prevErr(s); d != "" {
			failf("%s: before call %d: %s", what, i, d)
		}
		both(n, n.FS, m, op, i, r)
		if !bytes.HasPrefix(n.TapeBytes(), before) {
			failf("%s: then call %d %s changed what was on the tape", what, i, opString(op))
		}
	}
	cw := what + ": after further calls"
	s, err = Snapshot(n.FS, snapOpts{})
	if err != nil {
		failf("%s: %v", cw, err)
	}
	if d := checkModel(s, m, nil); d != "" {
		failf("%s: %s", cw, d)
	}
	sameAsRebuild(cw)
	// opened once more with an older index
	final := n.TapeBytes()
	n2, err := NewEnv(dir, tp, c.Cfg, EnvOpts{DB: db2(dir, db, j, tape, e)})
	if err != nil {
		harnessf("env: %v", err)
	}
	defer n2.Close()
	currentCall = cw + ": opening once more"
	if err := n2.Init(); err != nil {
		failf("%s: opening once more: %v", cw, err)
	}
	if !bytes.Equal(final, n2.TapeBytes()) {
		failf("%s: opening once more changes the tape", cw)
	}
	s2, err := Snapshot(n2.FS, snapOpts{})
	if err != nil {
		failf("%s: opened once more: %v", cw, err)
	}
	if d := diffSnap(s, s2, "the filesystem", "the filesystem opened once more", nil); d != "" {
		failf("%s: %s", cw, d)
	}
	return complete >= 3 && (state == "absent" || state == "records" || state == "calls"), tore
}

// db2 is another index for the last opening: none, or the one which was there first.
func db2(dir, db string, j int, tape []byte, e *Env) string {
	switch j % 3 {
	case 0:
		return filepath.Join(dir, "idx2.sqlite")
	case 1:
		return db
	}
	return filepath.Join(dir, "idx3.sqlite")
}

func prevErr(s Snap) string {
	for _, k := range s.keys() {
		if s[k].Err != "" {
			return fmt.Sprintf("reading %q fails: %s", k, s[k].Err)
		}
	}
	return ""
}

// c16Rebuild indexes a copy of the tape from scratch; the index of a torn tape holds what precedes the tear.
func c16Rebuild(e *Env, c *Case, tape []byte, dir string) (*Env, error) {
	tp := filepath.Join(dir, "tape.tar")
	layTape(e, tp, tape)
	n, err := NewEnv(dir, tp, c.Cfg, EnvOpts{DB: ":memory:"})
	if err != nil {
		harnessf("env: %v", err)
	}
	currentCall = "rebuild"
	err = n.Index(0, 0, true, 0)
	return n, err
}

// layTape puts what the first len(b) bytes of a tape hold at a path.
func layTape(src *Env, p string, b []byte) {
	writeFile(p, b)
	if src.Sim != nil {
		sims[p] = &simTape{objs: append([][]byte{}, src.Sim.objs[:len(b)/(src.Cfg.RS*blk)]...)}
	}
}

// modelOf starts a reference from an observation.
func modelOf(s Snap) *Model {
	m := &Model{N: map[string]*MNode{}}
	for k, n := range s {
		m.N[k] = &MNode{Dir: n.Dir, Mode: uint32(n.Mode), UID: n.UID, GID: n.GID, OwnerKnown: true, MT: n.MTime, AT: n.ATime, MTKnown: true, ATKnown: false, Data: n.Data}
	}
	return m
}

var _ = os.ModePerm
