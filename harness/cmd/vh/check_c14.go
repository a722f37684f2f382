package main

import (
	"fmt"
	"os"
)

// C14: an open file behaves like a byte array with a cursor.

func init() {
	register(&Check{
		ID: "C14", Level: "exploration",
		Rule:  "one to five sessions on one or two files: open with a flag combination (access mode x CREATE/TRUNC/APPEND), 1-30 of read, positioned read, seek (start, current, end), write, positioned write, string write, truncate, sync and stat with sizes around 0, 512, the record size and the file's length, close; memory and file write caches, record sizes, pipelines, with and without write-implies-read. Each outcome (bytes, counts, offsets, EOF) is compared with a byte array with a cursor; after close a fresh open and Stat give the reference's bytes and length. Non-trivial: a session with a write or truncate followed by a read or seek, or a read session with a backwards seek.",
		Assum: []string{"positioned writes on append handles and O_RDONLY|O_TRUNC are not generated (reference systems disagree)", "a zero-length append away from the end may or may not move the cursor"},
		Quick: 4000, QuickS: 45, Thorough: 120000, ThorS: 700,
		Gen: func(r *Rng, i int, tier string) *Case {
			c := &Case{Cfg: genCfg(r, 70)}
			paths := []string{"/f", "/g"}
			size := pick(r, 0, 1, 10, 100, 511, 512, 513, 1000, 5000, c.Cfg.RS*blk, c.Cfg.RS*blk+1)
			if r.P(4) {
				size = 70000 + r.N(60000)
			}
			if r.P(85) {
				c.Ops = append(c.Ops, Op{K: "open", P: "/f", Flag: os.O_RDWR | os.O_CREATE, Mode: 0644, H: []HOp{{K: "write", Data: &Data{N: size, Kind: pick(r, "rand", "text", "zero"), Seed: r.U64() % 1000}}}})
			}
			n := 1 + r.N(5)
			for k := 0; k < n; k++ {
				op := Op{K: "open", P: paths[pickW(r, []int{4, 1})], Mode: 0644}
				op.Flag = pick(r, os.O_RDONLY, os.O_RDONLY, os.O_WRONLY, os.O_RDWR, os.O_RDWR, os.O_RDWR)
				if op.Flag != os.O_RDONLY {
					if r.P(30) {
						op.Flag |= os.O_TRUNC
					}
					if r.P(30) {
						op.Flag |= os.O_APPEND
					}
				}
				if r.P(60) {
					op.Flag |= os.O_CREATE
				}
				m := 1 + r.N(12)
				if r.P(15) {
					m = 12 + r.N(19)
				}
				op.H = genHandleOps(r, &c.Cfg, m, op.Flag, size)
				c.Ops = append(c.Ops, op)
				if r.P(10) {
					c.Ops = append(c.Ops, Op{K: pick(r, "reopen", "rebuilt")})
				}
			}
			return c
		},
		Run: runC14,
	})
}

func runC14(c *Case, r *Result) {
	withEnv(c, func(e *Env) {
		in := &instance{e: e}
		defer in.close()
		m := NewModel()
		for i, op := range c.Ops {
			if isSwap(op.K) {
				in.swap(op, c.Cfg)
				continue
			}
			e := in.e
			bothSession(e, e.FS, m, op, i, r)
			mod, nt := false, false
			for _, h := range op.H {
				switch h.K {
				case "write", "writeat", "writestr", "trunc":
					mod = true
				case "read", "readat", "seek":
					nt = nt || mod || (h.K == "seek" && h.Off <= 0)
				}
			}
			r.NT = r.NT || nt
			for p, n := range m.N {
				if n.Dir {
					continue
				}
				currentCall = fmt.Sprintf("op %d: fresh read of %q", i, p)
				got, err := ReadAll(e.FS, p)
				if err != nil {
					failf("after op %d %s: reading %q: %v", i, opString(op), p, err)
				}
				if string(got) != string(n.Data) {
					failf("after op %d %s: %q reads %s, the reference has %s", i, opString(op), p, brief(got), brief(n.Data))
				}
				fi, err := e.FS.Stat(p)
				if err != nil || fi.Size() != int64(len(n.Data)) {
					failf("after op %d %s: Stat of %q: %v, reference length %d", i, opString(op), p, err, len(n.Data))
				}
				r.Checks++
			}
		}
	})
}
